#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::cancellation::{CancellationManager, RequestHandlerExtra};
use pmcp::types::{ClientNotification, Notification, RequestId};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

fn show(n: Notification) -> String {
    match n {
        Notification::Client(ClientNotification::Cancelled(c)) => match c.request_id { RequestId::String(s) => format!("{:?}:{:?}", s, c.reason), x => format!("{:?}", x) },
        o => format!("{:?}", o),
    }
}
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let ids = pool(r, &["1", "2", "01", "", "a", "A", " 1", "11", "é"], 3);
    let reasons = [None, Some(""), Some("user"), Some("Cancelled by server"), Some(" x ")];
    let span = 1 + r.below(ids.len());
    let with_sender = r.chance(80);
    let n = 1 + r.below(25);
    let ops: Vec<(usize, usize, usize)> = (0..n).map(|_| ({ let k = if r.chance(20) { 8 } else { 6 }; r.below(k) }, r.below(span), r.below(reasons.len()))).collect();
    let desc = format!("CancellationManager (sender {}), calls (op,id,reason) with op 0-2 create_token 3-4 cancel_request 5 remove_token 6 clear 7 look, ids {:?}, reasons {:?}: {:?}", with_sender, ids, reasons, ops);
    case(&desc, n > 3, || {
        let mut m = CancellationManager::new();
        let log: Arc<Mutex<Vec<String>>> = Arc::default();
        if with_sender { let l = log.clone(); m.set_notification_sender(Arc::new(move |x| l.lock().unwrap().push(show(x)))); }
        // every token ever made with whether it must be cancelled; the live ones by id
        let mut toks: Vec<(tokio_util::sync::CancellationToken, bool)> = vec![];
        let mut live: BTreeMap<String, usize> = BTreeMap::new();
        let mut sent: Vec<String> = vec![];
        for (i, (o, u, s)) in ops.iter().enumerate() {
            let id = ids[*u].to_string();
            match o {
                0..=2 => { let t = rt.block_on(m.create_token(id.clone())); toks.push((t, false)); live.insert(id, toks.len() - 1); },
                3 | 4 => {
                    let reason = reasons[*s].map(String::from);
                    ensure(&desc, rt.block_on(m.cancel_request(id.clone(), reason.clone())).is_ok(), "Ok", i);
                    if let Some(k) = live.remove(&id) { toks[k].1 = true; if with_sender { sent.push(format!("{:?}:{:?}", id, Some(reason.unwrap_or_else(|| "Cancelled by server".into())))); } }
                },
                5 => { rt.block_on(m.remove_token(&id)); live.remove(&id); },
                6 => { rt.block_on(m.clear()); for k in live.values() { toks[*k].1 = true; } live.clear(); },
                _ => {},
            }
            for (k, (t, c)) in toks.iter().enumerate() { ensure(&desc, t.is_cancelled() == *c, &format!("after call {}: token #{} cancelled {}", i, k, c), t.is_cancelled()); }
            for id in &ids {
                let want = live.get(id).map(|k| toks[*k].1);
                let got = rt.block_on(m.is_cancelled(id));
                ensure(&desc, got == want.unwrap_or(false), &format!("after call {}: is_cancelled({:?}) {}", i, id, want.unwrap_or(false)), got);
                let t = rt.block_on(m.get_token(id));
                ensure(&desc, t.is_some() == want.is_some(), &format!("after call {}: get_token({:?}) present {}", i, id, want.is_some()), t.is_some());
            }
            let l = log.lock().unwrap().clone();
            ensure(&desc, l == sent, &format!("after call {}: notifications {:?}", i, sent), l);
        }
        // a token handed out by get_token is the one create_token returned
        for (id, k) in &live {
            let t = rt.block_on(m.get_token(id)).unwrap();
            t.cancel();
            ensure(&desc, toks[*k].0.is_cancelled(), &format!("cancelling get_token({:?}) cancels the created token", id), false);
            ensure(&desc, rt.block_on(m.is_cancelled(id)), &format!("is_cancelled({:?}) after its token was cancelled", id), false);
            let e = RequestHandlerExtra::new(id.clone(), toks[*k].0.clone()).with_session_id(Some("s".into())).with_auth_info(None);
            ensure(&desc, e.is_cancelled() && e.request_id == *id && e.session_id.as_deref() == Some("s") && e.auth_info.is_none(), "handler context carries the id, the token and the session", format!("{:?}", e));
            let a = pmcp::types::auth::AuthInfo { scheme: pmcp::types::auth::AuthScheme::Bearer, token: Some(id.clone()), oauth: None, params: Default::default() };
            let e = RequestHandlerExtra::new(id.clone(), toks[*k].0.clone()).with_auth_info(Some(a));
            ensure(&desc, e.auth_info.as_ref().map(|x| x.token.clone()) == Some(Some(id.clone())) && e.session_id.is_none(), "handler context carries the auth info", format!("{:?}", e));
            let e = RequestHandlerExtra::new(id.clone(), tokio_util::sync::CancellationToken::new()).with_session_id(None);
            ensure(&desc, !e.is_cancelled() && e.session_id.is_none(), "a fresh handler context is not cancelled", format!("{:?}", e));
        }
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(19);
    let mut k = 0;
    while k < 200 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
