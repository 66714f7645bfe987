#[path = "common.rs"]
mod common;
use common::*;
use chrono::{Duration, Utc};
use pmcp::shared::session::{extract_session_id, ClientInfo, Session, SessionCallbacks, SessionConfig, SessionManager, SessionMiddleware};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

fn sid_model(h: &HashMap<String, String>) -> Option<String> {
    let c = h.get("cookie").or(h.get("Cookie"));
    if let Some(c) = c {
        for p in c.split(';') {
            let p = p.trim();
            if let Some(i) = p.find('=') { if &p[..i] == "mcp-session-id" { return Some(p[i + 1..].to_string()); } }
        }
    }
    h.get("X-Session-ID").or(h.get("x-session-id")).cloned()
}
fn same(a: &Session, b: &Session) -> bool {
    a.id == b.id && a.created_at == b.created_at && a.expires_at == b.expires_at && a.data == b.data && a.authenticated == b.authenticated && a.auth_info == b.auth_info
        && a.client_info.as_ref().map(|c| c.protocol_version.clone()) == b.client_info.as_ref().map(|c| c.protocol_version.clone())
}
fn headers(r: &mut Rng, ids: &[String]) -> HashMap<String, String> {
    let mut h = HashMap::new();
    let id = |r: &mut Rng| if ids.is_empty() || r.chance(30) { ["", "x", "a=b", "mcp-session-id", " v "][r.below(5)].to_string() } else { r.pick(ids).clone() };
    let cookie = |r: &mut Rng| {
        let n = r.below(4);
        (0..n).map(|_| { let k = ["mcp-session-id", "mcp-session-id ", " mcp-session-id", "MCP-SESSION-ID", "xmcp-session-id", "mcp-session-idx", "other", ""][{ let m = if r.chance(40) { 1 } else { 8 }; r.below(m) }];
            let e = ["=", "", "==", " = "][{ let m = if r.chance(70) { 1 } else { 4 }; r.below(m) }]; format!("{}{}{}", k, e, id(r)) }).collect::<Vec<_>>().join(["; ", ";", " ; "][r.below(3)])
    };
    if r.chance(40) { let c = cookie(r); h.insert("cookie".into(), c); }
    if r.chance(25) { let c = cookie(r); h.insert("Cookie".into(), c); }
    if r.chance(35) { let v = id(r); h.insert("X-Session-ID".into(), v); }
    if r.chance(35) { let v = id(r); h.insert("x-session-id".into(), v); }
    if r.chance(10) { let v = id(r); h.insert("X-SESSION-ID".into(), v); }
    h
}
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let max = r.below(5);
    let timeout = [Duration::hours(24), Duration::hours(1), Duration::milliseconds(-1), Duration::seconds(0), Duration::seconds(-3600)][r.below(5)];
    let cbs = r.chance(80);
    let n = 2 + r.below(25);
    let ops: Vec<(usize, usize, usize)> = (0..n).map(|_| (r.below(13), r.below(8), r.below(4))).collect();
    let seed = r.next();
    let desc = format!("SessionManager max_sessions {} timeout {:?}ms callbacks {}, calls (op,session,k) with op 0-3 create 4 get 5 validate 6 update(expires_at in the past/future) 7 authenticate 8 destroy 9 cleanup_expired 10 active_sessions 11-12 middleware: {:?}", max, timeout.num_milliseconds(), cbs, ops);
    case(&desc, n > 4, || {
        let mut r = Rng(seed | 1);
        let mut m = SessionManager::new(SessionConfig { timeout, max_sessions: max, ..Default::default() });
        let log: Arc<Mutex<Vec<String>>> = Arc::default();
        if cbs {
            let f = |k: &'static str| { let l = log.clone(); Some(Box::new(move |s: &Session| l.lock().unwrap().push(format!("{} {}", k, s.id))) as Box<dyn Fn(&Session) + Send + Sync>) };
            m.set_callbacks(SessionCallbacks { on_create: f("create"), on_destroy: f("destroy"), on_expire: f("expire") });
        }
        let m = Arc::new(m);
        let mw = SessionMiddleware::new(m.clone());
        let mut model: BTreeMap<String, Session> = BTreeMap::new();
        let mut ids: Vec<String> = vec![];
        let mut want_log: Vec<String> = vec![];
        for (i, (o, u, k)) in ops.iter().enumerate() {
            let id = if ids.is_empty() || *u == 7 { "nope".to_string() } else { ids[u % ids.len()].clone() };
            let d = |s: &str| format!("call {} ({:?} on {:?}): {}", i, o, id, s);
            match o {
                0..=3 => {
                    let b = Utc::now();
                    let got = m.create_session(if *k == 0 { None } else { Some(ClientInfo { user_agent: None, ip_address: None, protocol_version: format!("v{}", k) }) });
                    let a = Utc::now();
                    ensure(&desc, got.is_ok() == (model.len() < max), &d(&format!("session created iff {} < {}", model.len(), max)), format!("{:?}", got));
                    if let Ok(s) = got {
                        ensure(&desc, !ids.contains(&s.id) && s.id.len() == 36, &d("a new uuid"), &s.id);
                        ensure(&desc, s.created_at >= b && s.created_at <= a && s.last_activity == s.created_at && s.expires_at == s.created_at + timeout, &d("created now, expiring after the timeout"), format!("{:?}", s));
                        ensure(&desc, !s.authenticated && s.auth_info.is_none() && s.data == serde_json::json!({}) && s.client_info.as_ref().map(|c| c.protocol_version.clone()) == (if *k == 0 { None } else { Some(format!("v{}", k)) }), &d("unauthenticated, empty data, the given client info"), format!("{:?}", s));
                        if cbs { want_log.push(format!("create {}", s.id)); }
                        ids.push(s.id.clone()); model.insert(s.id.clone(), s);
                    } else if let Err(e) = got { ensure(&desc, matches!(&e, pmcp::Error::Protocol { code, .. } if code.as_i32() == -32603), &d("internal error"), format!("{:?}", e)); }
                },
                4 => {
                    let b = Utc::now();
                    let got = m.get_session(&id);
                    ensure(&desc, got.is_some() == model.contains_key(&id), &d("found iff present"), format!("{:?}", got));
                    if let Some(s) = got { ensure(&desc, same(&s, &model[&id]) && s.last_activity >= b, &d("the stored session, activity now"), format!("{:?}", s)); model.insert(id.clone(), s); }
                },
                5 => {
                    let b = Utc::now();
                    let got = m.validate_session(&id);
                    let a = Utc::now();
                    match model.get(&id) {
                        None => ensure(&desc, got.is_err(), &d("unknown session refused"), format!("{:?}", got)),
                        Some(s) if s.expires_at < b => { ensure(&desc, got.is_err(), &d("expired session refused"), format!("{:?}", got)); model.remove(&id); if cbs { want_log.push(format!("destroy {}", id)); } },
                        Some(s) if s.expires_at >= a => ensure(&desc, got.is_ok() && same(got.as_ref().unwrap(), s), &d("live session accepted"), format!("{:?}", got)),
                        _ => { if got.is_err() { model.remove(&id); if cbs { want_log.push(format!("destroy {}", id)); } } },
                    }
                    if let Err(e) = got { ensure(&desc, matches!(&e, pmcp::Error::Protocol { code, .. } if code.as_i32() == -32600), &d("invalid request"), format!("{:?}", e)); }
                },
                6 => {
                    let t = Utc::now() + [Duration::hours(-1), Duration::hours(1), Duration::milliseconds(-5), Duration::hours(48)][*k];
                    let mut called = 0;
                    let got = m.update_session(&id, |s| { called += 1; s.expires_at = t; s.data = serde_json::json!({ "n": i }); });
                    ensure(&desc, got.is_ok() == model.contains_key(&id) && called == usize::from(got.is_ok()), &d("updated once iff present"), format!("{:?} {}", got, called));
                    if let Some(s) = model.get_mut(&id) { s.expires_at = t; s.data = serde_json::json!({ "n": i }); }
                },
                7 => {
                    let got = m.authenticate_session(&id, format!("user{}", k));
                    ensure(&desc, got.is_ok() == model.contains_key(&id), &d("authenticated iff present"), format!("{:?}", got));
                    if let Some(s) = model.get_mut(&id) { s.authenticated = true; s.auth_info = Some(format!("user{}", k)); }
                },
                8 => {
                    let got = m.destroy_session(&id);
                    ensure(&desc, got.is_ok() == model.contains_key(&id), &d("destroyed iff present"), format!("{:?}", got));
                    if model.remove(&id).is_some() && cbs { want_log.push(format!("destroy {}", id)); }
                },
                9 => {
                    std::thread::sleep(std::time::Duration::from_millis(2));
                    let now = Utc::now();
                    m.cleanup_expired();
                    let gone: Vec<String> = model.values().filter(|s| s.expires_at < now).map(|s| s.id.clone()).collect();
                    for g in &gone { model.remove(g); if cbs { want_log.push(format!("expire {}", g)); } }
                },
                10 => {
                    let got: BTreeSet<String> = m.active_sessions().into_iter().map(|s| s.id).collect();
                    let want: BTreeSet<String> = model.keys().cloned().collect();
                    ensure(&desc, got == want && m.session_count() == want.len(), &d(&format!("active sessions {:?}", want)), format!("{:?} count {}", got, m.session_count()));
                },
                _ => {
                    let h = headers(&mut r, &ids);
                    let want = sid_model(&h);
                    let got = extract_session_id(&h);
                    ensure(&desc, got == want, &d(&format!("session id of headers {:?} is {:?}", h, want)), &got);
                    let b = Utc::now();
                    let (s, v) = rt.block_on(mw.process(&h, |s| s.map(|s| s.id))).unwrap();
                    ensure(&desc, s.as_ref().map(|s| s.id.clone()) == v, &d("the handler gets the session returned"), format!("{:?}", v));
                    let w = want.and_then(|w| model.get(&w).cloned());
                    match w {
                        None => ensure(&desc, v.is_none(), &d(&format!("no session for {:?}", h)), &v),
                        Some(x) if x.expires_at < b => { ensure(&desc, v.is_none(), &d(&format!("expired session {:?} not handed to the handler", x.id)), &v); model.remove(&x.id); if cbs { want_log.push(format!("destroy {}", x.id)); } },
                        Some(x) if x.expires_at >= Utc::now() => ensure(&desc, v.as_deref() == Some(x.id.as_str()), &d(&format!("session {:?}", x.id)), &v),
                        Some(x) => { if v.is_none() && m.active_sessions().iter().all(|s| s.id != x.id) { model.remove(&x.id); if cbs { want_log.push(format!("destroy {}", x.id)); } } },
                    }
                },
            }
            let now: BTreeMap<String, Session> = m.active_sessions().into_iter().map(|s| (s.id.clone(), s)).collect();
            ensure(&desc, now.len() == model.len() && m.session_count() == model.len(), &d(&format!("{} sessions", model.len())), now.len());
            for (k, s) in &model { ensure(&desc, now.get(k).is_some_and(|x| same(x, s)), &d(&format!("stored session {:?}", s)), format!("{:?}", now.get(k))); }
            let mut l = log.lock().unwrap().clone(); let mut w = want_log.clone(); l.sort(); w.sort();
            ensure(&desc, l == w, &d(&format!("callbacks {:?}", want_log)), l);
        }
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(10);
    let mut k = 0;
    while k < 150 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
