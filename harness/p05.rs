#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::protocol::{Protocol, ProtocolOptions, TransportId};
use pmcp::types::{JSONRPCResponse, RequestId};
use std::collections::HashMap;
use tokio::sync::oneshot::{error::TryRecvError, Receiver};

fn ids() -> Vec<RequestId> {
    let mut v: Vec<RequestId> = [0i64, 1, -1, 10, i64::MAX, i64::MIN, 4294967296, 4294967297].iter().map(|n| RequestId::Number(*n)).collect();
    for s in ["0", "1", "-1", "10", "", "01", " 1", "1 ", "a", "A", "9223372036854775807"] { v.push(RequestId::String(s.into())); }
    v
}
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let ids = ids();
    let span = 2 + r.below(ids.len() - 1);
    let perm: Vec<usize> = { let mut p: Vec<usize> = (0..ids.len()).collect(); for i in (1..p.len()).rev() { let j = r.below(i + 1); p.swap(i, j); } p };
    let named = r.chance(60);
    let tids = ["t", "T", "", "t1", "t "];
    let own = r.below(tids.len());
    let n = 1 + r.below(40);
    let ops: Vec<(usize, usize, usize, usize)> = (0..n).map(|_| (r.below(8), perm[r.below(span)], if r.chance(50) { own } else { r.below(tids.len()) }, { if r.chance(80) { 0 } else { 1 } })).collect();
    let show: Vec<String> = ops.iter().map(|(o, i, t, e)| match o {
        0..=3 => format!("register({:?})", ids[*i]), 4 | 5 => format!("complete({:?}{})", ids[*i], if *e == 1 { ", response carrying another id" } else { "" }),
        6 => format!("complete_for_transport({:?}, {:?})", ids[*i], tids[*t]), _ => format!("cancel({:?})", ids[*i]) }).collect();
    let desc = format!("Protocol (transport {}), calls: {}", if named { format!("{:?}", tids[own]) } else { "generated".into() }, show.join(", "));
    case(&desc, n > 3, || {
        rt.block_on(async {
            let mut p = if named { Protocol::with_transport_id(ProtocolOptions::default(), TransportId::from_string(tids[own].into())) } else { Protocol::new(ProtocolOptions::default()) };
            let own_id = p.transport_id().clone();
            // per registration: receiver, expected state (None = still waiting, Some(None) = dropped, Some(Some(v)) = answered)
            let mut regs: Vec<(Receiver<JSONRPCResponse>, Option<Option<i64>>, String)> = vec![];
            let mut pend: HashMap<RequestId, usize> = HashMap::new();
            let mut seen: Vec<bool> = vec![];
            for (k, (o, i, t, e)) in ops.iter().enumerate() {
                let id = ids[*i].clone();
                let resp = JSONRPCResponse::success(if *e == 1 { ids[(*i + 1) % ids.len()].clone() } else { id.clone() }, serde_json::json!(k as i64));
                match o {
                    0..=3 => {
                        let rx = p.register_request(id.clone());
                        if let Some(old) = pend.insert(id.clone(), regs.len()) { regs[old].1 = Some(None); }
                        regs.push((rx, None, format!("registration {} of {:?}", k, id))); seen.push(false);
                    },
                    4 | 5 => {
                        ensure(&desc, p.complete_request(&id, resp).is_ok(), "complete_request returns Ok", k);
                        if let Some(x) = pend.remove(&id) { regs[x].1 = Some(Some(k as i64)); }
                    },
                    6 => {
                        let tid = if named { TransportId::from_string(tids[*t].into()) } else if *t == own { own_id.clone() } else { TransportId::from_string(tids[*t].into()) };
                        let want = pend.contains_key(&id) && tid == own_id;
                        if want { let x = pend.remove(&id).unwrap(); regs[x].1 = Some(Some(k as i64)); }
                        let got = p.complete_request_for_transport(&id, resp, &tid).ok();
                        ensure(&desc, got == Some(want), &format!("call {} returns {}", k, want), got);
                    },
                    _ => { p.cancel_request(&id); if let Some(x) = pend.remove(&id) { regs[x].1 = Some(None); } },
                }
                if k % 7 == 6 || k + 1 == ops.len() {
                    for _ in 0..4 { tokio::task::yield_now().await; }
                    for (j, (rx, want, name)) in regs.iter_mut().enumerate() {
                        if seen[j] { continue; }
                        let got = match rx.try_recv() {
                            Ok(v) => Some(Some(v.result().and_then(|x| x.as_i64()).unwrap_or(-1))),
                            Err(TryRecvError::Empty) => None,
                            Err(TryRecvError::Closed) => Some(None),
                        };
                        if got.is_some() { seen[j] = true; }
                        ensure(&desc, got == *want, &format!("after call {}: {} {:?} (None = waiting, Some(None) = dropped, Some(Some(k)) = answered by call k)", k, name, want), got);
                    }
                }
            }
        })
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(5);
    case("10000 generated transport ids differ", true, || {
        let s: std::collections::HashSet<TransportId> = (0..10000).map(|_| TransportId::new()).collect();
        ensure("10000 generated transport ids", s.len() == 10000, "10000 different ones", s.len());
    });
    let mut k = 0;
    while k < 300 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
