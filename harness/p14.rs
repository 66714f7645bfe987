#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore, StreamableHttpServer, StreamableHttpServerConfig};
use pmcp::server::ToolHandler;
use pmcp::shared::TransportMessage;
use pmcp::types::*;
use pmcp::Server;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct H(Arc<Mutex<Vec<i64>>>);
#[async_trait::async_trait]
impl ToolHandler for H {
    async fn handle(&self, a: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> {
        let n = a["n"].as_i64().unwrap();
        self.0.lock().unwrap().push(n);
        if n % 7 == 3 { return Err(pmcp::Error::validation("seven")); }
        Ok(json!({ "n": n }))
    }
}
/// an event store that remembers what was stored (stream, id, message) besides delegating to the crate's own
struct Rec(InMemoryEventStore, Arc<Mutex<Vec<(String, String, String)>>>);
#[async_trait::async_trait]
impl EventStore for Rec {
    async fn store_event(&self, s: &str, e: &str, m: &TransportMessage) -> pmcp::Result<()> {
        let x = self.0.store_event(s, e, m).await;
        self.1.lock().unwrap().push((s.into(), e.into(), serde_json::to_string(m).unwrap()));
        x
    }
    async fn replay_events_after(&self, l: &str) -> pmcp::Result<Vec<(String, TransportMessage)>> { self.0.replay_events_after(l).await }
    async fn get_stream_for_event(&self, e: &str) -> pmcp::Result<Option<String>> { self.0.get_stream_for_event(e).await }
}
struct Stream { resp: reqwest::Response, buf: String }
impl Stream {
    /// the next event (id, event, data), if one arrives in time
    async fn next(&mut self, ms: u64) -> Option<(String, String, String)> {
        let end = Instant::now() + Duration::from_millis(ms);
        loop {
            while let Some(p) = self.buf.find("\n\n") {
                let t: String = self.buf.drain(..p + 2).collect();
                let e = parse_event(&t);
                if e != (String::new(), String::new(), String::new()) { return Some(e); }
            }
            let left = end.saturating_duration_since(Instant::now());
            match tokio::time::timeout(left, self.resp.chunk()).await { Ok(Ok(Some(c))) => self.buf.push_str(&String::from_utf8_lossy(&c)), _ => return None }
        }
    }
}
fn parse_event(t: &str) -> (String, String, String) {
    let (mut id, mut ev, mut data) = (String::new(), String::new(), vec![]);
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("id:") { id = x.trim_start_matches(' ').into(); }
        if let Some(x) = l.strip_prefix("event:") { ev = x.trim_start_matches(' ').into(); }
        if let Some(x) = l.strip_prefix("data:") { data.push(x.strip_prefix(' ').unwrap_or(x).to_string()); }
    }
    (id, ev, data.join("\n"))
}
fn hdr(r: &reqwest::Response, n: &str) -> Option<String> { r.headers().get(n).map(|v| v.to_str().unwrap().to_string()) }
fn tool(id: i64, n: i64) -> TransportMessage {
    TransportMessage::Request { id: RequestId::Number(id), request: Request::Client(Box::new(ClientRequest::CallTool(serde_json::from_value(json!({ "name": "t", "arguments": { "n": n } })).unwrap()))) }
}
fn init(id: i64, v: &str) -> TransportMessage {
    TransportMessage::Request { id: RequestId::Number(id), request: Request::Client(Box::new(ClientRequest::Initialize(serde_json::from_value(json!({ "protocolVersion": v, "capabilities": {}, "clientInfo": { "name": "c", "version": "1" } })).unwrap()))) }
}
const SUPPORTED: [&str; 4] = ["2025-06-18", "2025-03-26", "2024-11-05", "2024-10-07"];
const DEFAULT: &str = "2025-03-26";
const VERS: [&str; 8] = ["2025-06-18", "2025-03-26", "2024-11-05", "2024-10-07", "2024-11-0", "1", "", "2024-11-05 x"];
async fn code_of(r: reqwest::Response) -> (u16, Option<i64>) { let s = r.status().as_u16(); let v: Value = serde_json::from_str(&r.text().await.unwrap_or_default()).unwrap_or(Value::Null); (s, v["error"]["code"].as_i64()) }
async fn session(r: &mut Rng) {
    let stateful = r.chance(80);
    let json_mode = r.chance(30);
    let with_store = r.chance(75);
    let with_cb = r.chance(60);
    let calls: Arc<Mutex<Vec<i64>>> = Default::default();
    let server = Server::builder().name("s").version("1").tool("t", H(calls.clone())).build().unwrap();
    let stored: Arc<Mutex<Vec<(String, String, String)>>> = Default::default();
    let told: Arc<Mutex<Vec<(bool, String)>>> = Default::default();
    let gen = Arc::new(AtomicUsize::new(0));
    let (g2, t1, t2) = (gen.clone(), told.clone(), told.clone());
    // ids that are easily confused
    let mut ids: Vec<String> = ["s", "s0", "s00", "S0", "s0.", "0s0", "s1", "s10", "s0-s0", "s0/a", "ss0", "s0,s1"].iter().map(|x| x.to_string()).collect();
    for i in (1..ids.len()).rev() { let j = r.below(i + 1); ids.swap(i, j); }
    for i in 0..200 { ids.push(format!("t{}", i)); }
    let ids = Arc::new(ids);
    let i2 = ids.clone();
    let cfg = StreamableHttpServerConfig {
        session_id_generator: if stateful { Some(Box::new(move || i2[g2.fetch_add(1, Ordering::SeqCst)].clone())) } else { None },
        enable_json_response: json_mode,
        event_store: if with_store { Some(Arc::new(Rec(InMemoryEventStore::default(), stored.clone()))) } else { None },
        on_session_initialized: if with_cb { Some(Box::new(move |s: &str| t1.lock().unwrap().push((true, s.to_string())))) } else { None },
        on_session_closed: if with_cb { Some(Box::new(move |s: &str| t2.lock().unwrap().push((false, s.to_string())))) } else { None },
    };
    let (addr, task) = StreamableHttpServer::with_config("127.0.0.1:0".parse().unwrap(), Arc::new(tokio::sync::Mutex::new(server)), cfg).start().await.unwrap();
    let url = format!("http://{}/", addr);
    let cl = reqwest::Client::builder().no_proxy().timeout(Duration::from_secs(30)).build().unwrap();
    // the model
    let mut sess: BTreeMap<String, (bool, Option<String>)> = BTreeMap::new();
    let mut streams: BTreeMap<String, Stream> = BTreeMap::new();
    let mut dead: Vec<String> = vec![];
    let (mut want_calls, mut want_stored, mut want_told): (Vec<i64>, Vec<(String, String)>, Vec<(bool, String)>) = Default::default();
    let mut nid = 0i64;
    let mut ngen = 0usize;
    let mut d: Vec<String> = vec![format!("{} server, {} responses, {} event store", if stateful { "stateful" } else { "stateless" }, if json_mode { "JSON" } else { "stream" }, if with_store { "with" } else { "no" })];
    for _ in 0..4 + r.below(24) {
        let known: Vec<String> = sess.keys().cloned().collect();
        let mut pick_sid = |r: &mut Rng, none: usize, bad: usize| -> Option<String> {
            if r.chance(none) { None } else if known.is_empty() || r.chance(bad) { let x = if known.is_empty() || r.chance(30) { r.pick(&["s9999", "S0", "s0", "x"]).to_string() } else { let b = r.pick(&known).clone(); near(r, &b).chars().filter(|c| c.is_ascii_graphic()).collect() }; Some(if x.is_empty() { "x".into() } else { x }) } else { Some(r.pick(&known).clone()) }
        };
        match r.below(12) {
            // POST
            0..=7 => {
                nid += 1;
                let is_init = r.chance(if sess.is_empty() { 70 } else { 18 });
                let sid = if is_init { pick_sid(r, 60, 30) } else { pick_sid(r, if stateful { 8 } else { 50 }, 10) };
                let own = sid.as_ref().and_then(|s| sess.get(s)).and_then(|x| x.1.clone());
                let ver: Option<String> = match r.below(10) { 0..=3 => None, 4..=6 if own.is_some() => own.clone(), _ => Some(r.pick(&VERS).to_string()) };
                let ct = match r.below(20) { 0 => None, 1 => Some("text/plain"), 2 => Some("application/jso"), 3 => Some("application/json; charset=utf-8"), _ => Some("application/json") };
                let ac = match r.below(20) { 0 => None, 1 => Some("text/html"), 2 => Some("*/*"), 3 => Some("text/event-stream"), 4 => Some("application/json"), _ => Some("application/json, text/event-stream") };
                let kind = if is_init { 0 } else { r.below(12) };
                let n = nid * 3 + r.below(5) as i64;
                let m = match kind { 0 if is_init => Some(init(nid, r.pick(&VERS))), 1 => Some(TransportMessage::Notification(Notification::Client(ClientNotification::Initialized))), 2 => Some(TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(nid), json!(1)))), 3 => None, _ => Some(tool(nid, n)) };
                let body = match &m { Some(m) => serde_json::to_string(m).unwrap(), None => r.pick(&["", "{", "{\"id\":1}", "[]", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"x\""]).to_string() };
                if m.is_none() && serde_json::from_str::<TransportMessage>(&body).is_ok() { continue; }
                d.push(format!("POST {} session={:?} version={:?} content-type={:?} accept={:?}", body, sid, ver, ct, ac));
                let mut q = cl.post(&url).body(body.clone());
                if let Some(x) = ct { q = q.header("content-type", x); }
                if let Some(x) = ac { q = q.header("accept", x); } else { q = q.header("accept", ""); }
                if let Some(x) = &sid { q = q.header("mcp-session-id", x); }
                if let Some(x) = &ver { q = q.header("mcp-protocol-version", x); }
                let resp = q.send().await.unwrap();
                let ds = d.join("; ");
                let ct_ok = ct.map_or(false, |x| x.contains("application/json"));
                let ac_ok = ac.map_or(false, |x| x.contains("application/json") || x.contains("text/event-stream"));
                let gate: Option<(u16, i64)> = if !ct_ok { Some((415, -32700)) } else if !ac_ok { Some((406, -32700)) } else if m.is_none() { Some((400, -32700)) }
                    else if is_init { match &sid { Some(s) if stateful => match sess.get(s) { None => Some((404, -32600)), Some((true, _)) => Some((400, -32600)), _ => None }, _ => None } }
                    else if stateful && sid.is_none() { Some((400, -32600)) } else if stateful && !sess.contains_key(sid.as_ref().unwrap()) { Some((404, -32600)) }
                    else if ver.as_ref().map_or(false, |v| !SUPPORTED.contains(&v.as_str()) || (stateful && own.as_ref().map_or(false, |o| o != v))) { Some((400, -32600)) } else { None };
                if let Some((s, c)) = gate {
                    ensure(&ds, hdr(&resp, "mcp-session-id").is_none(), "no session header on a refusal", hdr(&resp, "mcp-session-id"));
                    check(&format!("{} (status and error code)", ds), (s, Some(c)), code_of(resp).await);
                } else if kind == 1 || kind == 2 {
                    check(&format!("{} (status, body)", ds), (202u16, String::new()), (resp.status().as_u16(), resp.text().await.unwrap()));
                } else {
                    // served
                    let rs: Option<String> = if !stateful { None } else if is_init && sid.is_none() { let s = ids[ngen].clone(); ngen += 1; sess.insert(s.clone(), (false, ver.clone())); if with_cb { want_told.push((true, s.clone())); } Some(s) } else { sid.clone() };
                    if !is_init { want_calls.push(n); }
                    check(&format!("{} (session header)", ds), rs.clone(), hdr(&resp, "mcp-session-id"));
                    let named = hdr(&resp, "mcp-protocol-version");
                    let status = resp.status().as_u16();
                    let open = !json_mode && sid.as_ref().map_or(false, |s| streams.contains_key(s));
                    let text = if open {
                        check(&format!("{} (status with an open stream)", ds), 202u16, status);
                        let s = sid.clone().unwrap();
                        let e = streams.get_mut(&s).unwrap().next(20_000).await;
                        ensure(&ds, e.is_some(), "the answer on the session's stream", "nothing");
                        let e = e.unwrap();
                        check(&format!("{} (event name)", ds), "message".to_string(), e.1.clone());
                        e.2
                    } else if json_mode || sid.is_none() {
                        check(&format!("{} (status)", ds), 200u16, status);
                        resp.text().await.unwrap()
                    } else {
                        check(&format!("{} (status)", ds), 200u16, status);
                        check(&format!("{} (content type)", ds), Some("text/event-stream".to_string()), hdr(&resp, "content-type"));
                        let t = resp.text().await.unwrap();
                        let evs: Vec<_> = t.split("\n\n").filter(|x| !x.trim().is_empty()).map(parse_event).collect();
                        ensure(&ds, evs.len() == 1 && evs[0].1 == "message" && !evs[0].0.is_empty(), "one message event with an id", &t);
                        evs[0].2.clone()
                    };
                    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
                    check(&format!("{} (id of the answer)", ds), json!(nid), v["id"].clone());
                    if is_init {
                        let neg = v["result"]["protocolVersion"].as_str().map(|s| s.to_string()).unwrap_or_else(|| DEFAULT.into());
                        check(&format!("{} (negotiated version)", ds), Some(neg.clone()), named);
                        if let Some(s) = &rs { sess.insert(s.clone(), (true, Some(neg))); }
                    } else {
                        let w = rs.as_ref().and_then(|s| sess.get(s)).and_then(|x| x.1.clone()).unwrap_or_else(|| DEFAULT.into());
                        check(&format!("{} (session's version)", ds), Some(w), named);
                        if n % 7 == 3 { ensure(&ds, v["error"]["code"].is_i64(), "an error answer", &text); } else { check(&format!("{} (answer)", ds), json!({ "n": n }).to_string(), v["result"]["content"][0]["text"].as_str().unwrap_or("").to_string()); }
                    }
                    if with_store {
                        if let Some(s) = &rs { want_stored.push((s.clone(), text.clone())); }
                        if open { want_stored.push((sid.clone().unwrap(), text)); }
                    }
                }
            },
            // GET
            8..=9 => {
                let sid = pick_sid(r, 40, 12);
                let ac = match r.below(14) { 0 => Some("application/json"), 1 => None, 2 => Some("application/json, text/event-stream"), _ => Some("text/event-stream") };
                let last = if r.chance(50) { let s = stored.lock().unwrap(); Some(if s.is_empty() || r.chance(20) { "nope".to_string() } else { s[r.below(s.len())].1.clone() }) } else { None };
                d.push(format!("GET session={:?} accept={:?} last-event-id={:?}", sid, ac, last));
                let ds = d.join("; ");
                let mut q = cl.get(&url).header("accept", ac.unwrap_or(""));
                if let Some(x) = &sid { q = q.header("mcp-session-id", x); }
                if let Some(x) = &last { q = q.header(if r.chance(50) { "last-event-id" } else { "Last-Event-ID" }, x); }
                let all = stored.lock().unwrap().clone();
                let mut resp = q.try_clone().unwrap().send().await.unwrap();
                let gate = if !ac.map_or(false, |x| x.contains("text/event-stream")) { Some((406, -32700)) } else { match &sid { Some(s) if stateful && !sess.contains_key(s) => Some((404, -32600)), None if !stateful => Some((405, -32601)), Some(s) if streams.contains_key(s) => Some((409, -32600)), _ => None } };
                if let Some((s, c)) = gate { check(&format!("{} (status and error code)", ds), (s, Some(c)), code_of(resp).await); continue; }
                let id = match &sid { Some(s) => s.clone(), None => { let s = ids[ngen].clone(); ngen += 1; sess.insert(s.clone(), (true, None)); if with_cb { want_told.push((true, s.clone())); } s } };
                // the server learns in its own time that the old stream's client is gone
                let end = Instant::now() + Duration::from_secs(20);
                while resp.status().as_u16() == 409 && dead.contains(&id) && Instant::now() < end { tokio::time::sleep(Duration::from_millis(10)).await; resp = q.try_clone().unwrap().send().await.unwrap(); }
                dead.retain(|x| *x != id);
                check(&format!("{} (status)", ds), 200u16, resp.status().as_u16());
                check(&format!("{} (session header)", ds), Some(id.clone()), hdr(&resp, "mcp-session-id"));
                check(&format!("{} (content type)", ds), Some("text/event-stream".to_string()), hdr(&resp, "content-type"));
                let mut st = Stream { resp, buf: String::new() };
                if let (Some(l), true) = (&last, with_store) {
                    let from = all.iter().position(|x| x.1 == *l).map_or(0, |p| p + 1);
                    for x in all[from..].iter().filter(|x| x.0 == id) {
                        let e = st.next(20_000).await;
                        check(&format!("{} (replayed)", ds), Some(x.2.clone()), e.map(|e| e.2));
                        want_stored.push((id.clone(), x.2.clone()));
                    }
                }
                streams.insert(id, st);
            },
            10 => {
                let sid = pick_sid(r, 15, 20);
                d.push(format!("DELETE session={:?}", sid));
                let mut q = cl.delete(&url);
                if let Some(x) = &sid { q = q.header("mcp-session-id", x); }
                let resp = q.send().await.unwrap();
                let ds = d.join("; ");
                if sid.is_none() || (stateful && !sess.contains_key(sid.as_ref().unwrap())) { check(&format!("{} (status and error code)", ds), (404, Some(-32600)), code_of(resp).await); }
                else {
                    check(&format!("{} (status)", ds), 200u16, resp.status().as_u16());
                    let s = sid.unwrap();
                    sess.remove(&s);
                    dead.retain(|x| *x != s);
                    if with_cb { want_told.push((false, s.clone())); }
                    if let Some(mut st) = streams.remove(&s) { let e = st.next(20_000).await; ensure(&ds, e.is_none(), "the deleted session's stream ends", e); }
                }
            },
            // a client goes away
            _ => {
                let open: Vec<String> = streams.keys().cloned().collect();
                if open.is_empty() { continue; }
                let s = r.pick(&open).clone();
                d.push(format!("the client of stream {:?} disconnects", s));
                streams.remove(&s);
                dead.push(s.clone());
                // once the server knows, answers come in the response again and no answer is lost
                if !json_mode {
                    let end = Instant::now() + Duration::from_secs(20);
                    loop {
                        nid += 1;
                        let n = nid * 3;
                        let resp = cl.post(&url).body(serde_json::to_string(&tool(nid, n)).unwrap()).header("content-type", "application/json").header("accept", "text/event-stream").header("mcp-session-id", &s).send().await.unwrap();
                        want_calls.push(n);
                        if resp.status().as_u16() == 200 { let t = resp.text().await.unwrap(); ensure(&d.join("; "), t.contains(&format!("\"id\":{}", nid)), "the answer in the response", t); break; }
                        ensure(&d.join("; "), Instant::now() < end, "answers in the response once the stream is closed", "still 202 after 20 s");
                        tokio::time::sleep(Duration::from_millis(10)).await;
                    }
                    dead.retain(|x| *x != s);
                    // what was stored meanwhile is not predicted
                    tokio::time::sleep(Duration::from_millis(50)).await;
                    want_stored = stored.lock().unwrap().iter().map(|x| (x.0.clone(), x.2.clone())).collect();
                }
            },
        }
        let ds = d.join("; ");
        check(&format!("{} (requests handled)", ds), want_calls.clone(), calls.lock().unwrap().clone());
        check(&format!("{} (session callbacks)", ds), want_told.clone(), told.lock().unwrap().clone());
        check(&format!("{} (ids generated)", ds), ngen, gen.load(Ordering::SeqCst));
        // storing what went through a stream happens in its own task
        let end = Instant::now() + Duration::from_secs(20);
        let have = || { let mut v: Vec<(String, String)> = stored.lock().unwrap().iter().map(|x| (x.0.clone(), x.2.clone())).collect(); v.sort(); v };
        let mut w = want_stored.clone();
        w.sort();
        while have().len() < w.len() && Instant::now() < end { tokio::time::sleep(Duration::from_millis(1)).await; }
        check(&format!("{} (events stored)", ds), w, have());
    }
    task.abort();
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let mut r = Rng::new(14);
    while time_left() { case("http server session", true, || rt.block_on(session(&mut r))); }
    done()
}
