#[path = "common.rs"]
mod common;
use chrono::{Duration, Utc};
use common::*;
use pmcp::shared::event_store::*;
use pmcp::shared::TransportMessage;
use pmcp::types::{JSONRPCResponse, RequestId};
use std::sync::Arc;

fn msg(i: usize) -> TransportMessage { TransportMessage::Response(JSONRPCResponse::success(RequestId::from(i as i64), serde_json::json!(i))) }
fn num(m: &TransportMessage) -> String { serde_json::to_string(m).unwrap_or_else(|_| format!("{:?}", m)) }
type K = (String, String, u64, bool, String);
fn key(e: &StoredEvent) -> K { (e.id.clone(), e.session_id.clone(), e.sequence, e.direction == MessageDirection::Outbound, num(&e.message)) }
fn keys(v: &[StoredEvent]) -> Vec<K> { v.iter().map(key).collect() }
fn since(v: &[StoredEvent], id: &str, n: Option<usize>) -> Vec<StoredEvent> {
    let s = match v.iter().position(|e| e.id == id) { Some(i) => &v[i + 1..], None => v };
    s.iter().take(n.unwrap_or(usize::MAX)).cloned().collect()
}
fn store(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let cap = *r.pick(&[0usize, 1, 2, 3, 4, 7, 100]);
    let n = 1 + r.below(25);
    let dup = r.chance(25);
    let aged = r.chance(40);
    let seed = r.next();
    let desc = format!("InMemoryEventStore(max_events {}, max_age 1h), {} calls, old events {}, repeated ids {} (seed {})", cap, n, aged, dup, seed);
    let mut g = Rng(seed | 1);
    case(&desc, n > 4, || {
        let s = InMemoryEventStore::new(cap, Duration::hours(1));
        let mut model: Vec<StoredEvent> = vec![];
        let mut hist: Vec<String> = vec![];
        let mut toks: Vec<(String, K)> = vec![];
        let base = Utc::now();
        for i in 0..n {
            match g.below(8) {
                0..=3 => {
                    let age = if aged { *g.pick(&[0i64, 0, 10, 59, 61, 90, 3000, -5]) } else { g.below(50) as i64 };
                    let id = if dup { format!("e{}", g.below(5)) } else { format!("e{}", i) };
                    let e = StoredEvent { id, timestamp: base - Duration::minutes(age), message: msg(i), direction: if g.chance(50) { MessageDirection::Inbound } else { MessageDirection::Outbound }, session_id: format!("s{}", g.below(3)), sequence: g.below(9) as u64 };
                    hist.push(format!("store {} aged {}min", e.id, age));
                    ensure(&desc, rt.block_on(s.store_event(e.clone())).is_ok(), "Ok", i);
                    model.push(e);
                    while model.len() > cap { model.remove(0); }
                    while !model.is_empty() && model[0].timestamp < base - Duration::hours(1) { model.remove(0); }
                },
                4 => {
                    let age = *g.pick(&[5i64, 20, 45, 60, 100]);
                    let t = base - Duration::minutes(age) ;
                    hist.push(format!("clear before {}min", age));
                    let got = rt.block_on(s.clear_events_before(t)).ok();
                    let b = model.len();
                    while !model.is_empty() && model[0].timestamp < t { model.remove(0); }
                    ensure(&desc, got == Some(b - model.len()), &format!("{} cleared after {:?}", b - model.len(), hist), got);
                },
                5 => {
                    hist.push("token".into());
                    let got = rt.block_on(s.create_resumption_token());
                    ensure(&desc, got.is_ok() == !model.is_empty(), &format!("token only with events after {:?}", hist), got.is_ok());
                    if let Ok(t) = got {
                        let l = model.last().unwrap();
                        ensure(&desc, t.last_event_id == l.id && t.session_id == l.session_id, "token names the newest event", (&t.last_event_id, &l.id));
                        ensure(&desc, toks.iter().all(|x| x.0 != t.token), "a new token", &t.token);
                        toks.push((t.token, key(l)));
                    }
                },
                _ => {
                    for (t, k) in &toks {
                        let st = rt.block_on(s.validate_resumption_token(t)).ok().flatten();
                        let want = Some((k.1.clone(), k.0.clone(), k.2 + 1));
                        let got = st.map(|x| (x.session_id, x.last_event_id, x.next_sequence));
                        ensure(&desc, want == got, &format!("token state {:?} after {:?}", want, hist), &got);
                    }
                    ensure(&desc, rt.block_on(s.validate_resumption_token("nope")).ok().flatten().is_none(), "unknown token rejected", "");
                },
            }
            let mut ids: Vec<String> = model.iter().map(|e| e.id.clone()).collect();
            ids.push("gone".into()); ids.push(String::new()); ids.push("e0".into()); ids.push("E1".into());
            for id in ids {
                for lim in [None, Some(0), Some(1), Some(2), Some(100)] {
                    let got = keys(&rt.block_on(s.get_events_since(&id, lim)).unwrap());
                    let want = keys(&since(&model, &id, lim));
                    ensure(&desc, got == want, &format!("events since {:?} limit {:?} are {:?} after {:?}", id, lim, want, hist), got);
                }
            }
            let got = rt.block_on(s.get_latest_event_id()).unwrap();
            ensure(&desc, got == model.last().map(|e| e.id.clone()), &format!("latest id after {:?}", hist), got);
        }
    })
}
fn manager(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let n = 1 + r.below(20);
    let cap = *r.pick(&[1usize, 3, 6, 100]);
    let seed = r.next();
    let desc = format!("ResumptionManager over a store of {} events, {} calls (seed {})", cap, n, seed);
    let mut g = Rng(seed | 1);
    case(&desc, n > 3, || {
        let s = Arc::new(InMemoryEventStore::new(cap, Duration::hours(1)));
        let ms = [ResumptionManager::new(s.clone(), "A".into()), ResumptionManager::new(s.clone(), "B".into())];
        let mut ctr = [0u64, 0];
        let mut toks: Vec<(String, Option<String>, u64)> = vec![];
        let mut hist: Vec<String> = vec![];
        for i in 0..n {
            let w = g.below(2);
            let all = rt.block_on(s.get_events_since("\u{1}", None)).unwrap();
            match g.below(6) {
                0..=2 => {
                    let out = g.chance(50);
                    hist.push(format!("{} records {}", ["A", "B"][w], if out { "outbound" } else { "inbound" }));
                    let res = if out { rt.block_on(ms[w].record_outbound(msg(i))) } else { rt.block_on(ms[w].record_inbound(msg(i))) };
                    ensure(&desc, res.is_ok(), "Ok", i);
                    let now = rt.block_on(s.get_events_since("\u{1}", None)).unwrap();
                    let mut want: Vec<K> = keys(&all);
                    let e = now.last().cloned();
                    ensure(&desc, e.is_some(), "the event is stored", &hist);
                    let e = e.unwrap();
                    let exp = (e.id.clone(), ["A", "B"][w].to_string(), ctr[w], out, num(&msg(i)));
                    ensure(&desc, key(&e) == exp, &format!("stored {:?} after {:?}", exp, hist), key(&e));
                    ensure(&desc, all.iter().all(|x| x.id != e.id), "a new event id", &e.id);
                    ctr[w] += 1;
                    want.push(exp);
                    while want.len() > cap { want.remove(0); }
                    ensure(&desc, keys(&now) == want, &format!("stored events {:?} after {:?}", want, hist), keys(&now));
                },
                3 => if let Ok(t) = rt.block_on(ms[w].create_token()) { hist.push("token".into()); let l = all.last().unwrap(); toks.push((t.token, Some(l.id.clone()), l.sequence + 1)); },
                4 => {
                    if toks.is_empty() || g.chance(20) {
                        let got = rt.block_on(ms[w].resume_from_token("bogus"));
                        ensure(&desc, got.is_err(), "an unknown token is refused", got.is_ok());
                    } else {
                        let (t, id, seq) = g.pick(&toks).clone();
                        hist.push(format!("{} resumes after {:?}", w, id));
                        let got = keys(&rt.block_on(ms[w].resume_from_token(&t)).unwrap());
                        let want = keys(&since(&all, id.as_deref().unwrap(), None));
                        ensure(&desc, got == want, &format!("resume returns {:?} after {:?}", want, hist), got);
                        ctr[w] = seq;
                    }
                },
                _ => {
                    let id = if all.is_empty() || g.chance(20) { "x".to_string() } else { g.pick(&all).id.clone() };
                    let got = keys(&rt.block_on(ms[w].get_pending_events(&id)).unwrap());
                    let want: Vec<K> = keys(&since(&all, &id, None)).into_iter().filter(|k| k.3).collect();
                    ensure(&desc, got == want, &format!("pending since {:?}: {:?} after {:?}", id, want, hist), got);
                },
            }
        }
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(3);
    let mut k = 0;
    while k < 60 || time_left() { k += 1; store(&rt, &mut r); manager(&rt, &mut r); }
    done()
}
