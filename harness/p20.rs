// P20: the streamable HTTP client transport against a scripted server on the loopback interface
#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::streamable_http::{AuthProvider, SendOptions, StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::*;
use pmcp::Error;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
struct Answer { status: u16, headers: Vec<(String, Vec<u8>)>, body: Vec<u8>, drop: bool }
#[derive(Clone, Debug)]
struct Got { method: String, path: String, headers: Vec<(String, String)>, body: String }
struct Web { next: Mutex<VecDeque<Answer>>, got: Mutex<Vec<Got>> }
fn serve(l: std::net::TcpListener, w: Arc<Web>) {
    for c in l.incoming() {
        let Ok(mut c) = c else { continue };
        let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
        let mut b: Vec<u8> = vec![];
        let mut buf = [0u8; 4096];
        let end = loop {
            if let Some(i) = b.windows(4).position(|x| x == b"\r\n\r\n") { break i; }
            match c.read(&mut buf) { Ok(n) if n > 0 => b.extend_from_slice(&buf[..n]), _ => break usize::MAX }
        };
        if end == usize::MAX { continue; }
        let head = String::from_utf8_lossy(&b[..end]).to_string();
        let mut ls = head.split("\r\n");
        let rl: Vec<String> = ls.next().unwrap_or("").split(' ').map(|x| x.to_string()).collect();
        let headers: Vec<(String, String)> = ls.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
        let n: usize = headers.iter().find(|(k, _)| k == "content-length").and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
        while b.len() < end + 4 + n { match c.read(&mut buf) { Ok(k) if k > 0 => b.extend_from_slice(&buf[..k]), _ => break } }
        w.got.lock().unwrap().push(Got { method: rl[0].clone(), path: rl.get(1).cloned().unwrap_or_default(), headers, body: String::from_utf8_lossy(&b[end + 4..]).to_string() });
        let a = w.next.lock().unwrap().pop_front().unwrap_or(Answer { status: 599, ..Default::default() });
        if a.drop { continue; }
        let mut o = format!("HTTP/1.1 {} X\r\n", a.status).into_bytes();
        for (k, v) in &a.headers { o.extend(format!("{}: ", k).into_bytes()); o.extend(v); o.extend(b"\r\n"); }
        o.extend(format!("Connection: close\r\nContent-Length: {}\r\n\r\n", a.body.len()).into_bytes());
        o.extend(&a.body);
        let _ = c.write_all(&o);
        let _ = c.flush();
    }
}
#[derive(Debug)]
struct Tokens { left: Mutex<VecDeque<Option<String>>>, asked: Mutex<usize> }
#[async_trait::async_trait]
impl AuthProvider for Tokens {
    async fn get_access_token(&self) -> pmcp::Result<String> { *self.asked.lock().unwrap() += 1; self.left.lock().unwrap().pop_front().flatten().ok_or_else(|| Error::internal("no token")) }
}
fn show(m: &TransportMessage) -> String { format!("{:?}", m) }
fn g_msg(r: &mut Rng) -> TransportMessage {
    let id = || RequestId::Number(3);
    match r.below(5) {
        0 => TransportMessage::Request { id: id(), request: Request::Client(Box::new(ClientRequest::Ping)) },
        1 => TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)),
        2 => TransportMessage::Request { id: RequestId::String(g_text(r)), request: Request::Client(Box::new(serde_json::from_value(json!({"method":"tools/call","params":{"name":g_text(r),"arguments":g_json(r, 1)}})).unwrap())) },
        _ => TransportMessage::Response(JSONRPCResponse::success(id(), g_json(r, 2))),
    }
}
fn g_sse(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        let nl = if r.chance(80) { "\n" } else { "\r\n" };
        if r.chance(20) { s += &format!(": hello{}", nl); }
        if r.chance(50) { s += &format!("id: {}{}", r.pick(&["1", "e-2", "", "é", "x y"]), nl); }
        if r.chance(60) { s += &format!("event:{}{}", r.pick(&["message", " message", "message ", "Message", "ping", "", "messages"]), nl); }
        let m = g_msg(r);
        match r.below(10) { 0 => {}, 1 => s += &format!("data: junk{}", nl), 2 => s += &format!("data{}", nl), _ => for l in serde_json::to_string_pretty(&m).unwrap().split('\n') { s += &format!("data: {}{}", l, nl) } }
        if r.chance(90) { s += nl; }
    }
    s.into_bytes()
}
struct E { id: Option<String>, event: Option<String>, data: String }
fn events(t: &str) -> Vec<E> {
    let (mut out, mut last, mut ev, mut data): (Vec<E>, Option<String>, Option<String>, Option<Vec<String>>) = (vec![], None, None, None);
    let mut ls: Vec<&str> = t.split('\n').collect(); ls.pop();
    for l in ls {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if l.is_empty() { if let Some(d) = data.take() { out.push(E { id: last.clone(), event: ev.take(), data: d.join("\n") }); } ev = None; continue; }
        if l.starts_with(':') { continue; }
        let (f, v) = l.split_once(':').map_or((l, ""), |(f, v)| (f, v.strip_prefix(' ').unwrap_or(v)));
        match f { "event" => ev = Some(v.into()), "data" => data.get_or_insert(vec![]).push(v.into()), "id" if !v.contains('\0') => last = Some(v.into()), _ => {} }
    }
    out
}
fn g_answer(r: &mut Rng, get: bool) -> Answer {
    if r.chance(5) { return Answer { drop: true, ..Default::default() }; }
    let status = if r.chance(65) { 200 } else { *r.pick(&[201u16, 202, 202, 204, 299, 400, 404, 405, 405, 500, 503, 401]) };
    let mut headers: Vec<(String, Vec<u8>)> = vec![];
    let sse = if get { r.chance(80) } else { r.chance(40) };
    let ct = if sse { r.pick(&["text/event-stream", "text/event-stream", "text/event-stream; charset=utf-8", "text/plain"]).to_string() } else { r.pick(&["application/json", "application/json", "application/json; charset=utf-8", "text/plain", "", "Application/JSON", "application/jsonx", "application/problem+json", "text/event-stream, application/json"]).to_string() };
    if !ct.is_empty() { headers.push((r.pick(&["Content-Type", "content-type"]).to_string(), ct.into_bytes())); }
    if r.chance(25) { headers.push((r.pick(&["Mcp-Session-Id", "mcp-session-id"]).to_string(), r.pick(&[&b"s1"[..], b"s-2", b"", b"\xc3\xa9", b"S1"]).to_vec())); }
    if r.chance(20) { headers.push(("MCP-Protocol-Version".into(), r.pick(&[&b"2025-06-18"[..], b"2024-11-05", b"v", b"\xff"]).to_vec())); }
    let body = if status == 204 { vec![] } else if sse { g_sse(r) } else {
        match r.below(8) {
            0 => vec![], 1 => b"junk".to_vec(), 2 => { let n = r.below(4); let v: Vec<TransportMessage> = (0..n).map(|_| g_msg(r)).collect(); serde_json::to_vec(&v).unwrap() },
            3 => { let m = g_msg(r); serde_json::to_vec(&json!([serde_json::to_value(&m).unwrap(), 5])).unwrap() }, 4 => serde_json::to_vec(&g_json(r, 2)).unwrap(), _ => serde_json::to_vec(&g_msg(r)).unwrap(),
        }
    };
    Answer { status, headers, body, drop: false }
}
fn header(a: &Answer, k: &str) -> Option<String> {
    let v = &a.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(k))?.1;
    if v.iter().all(|b| (32..127).contains(b) || *b == 9) { Some(String::from_utf8(v.clone()).unwrap()) } else { None }
}
#[derive(Debug, Clone)]
enum Op { Send(TransportMessage), Resume(String, TransportMessage), Sse(Option<String>), Close, SetSession(Option<String>), SetVersion(Option<String>) }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng, w: &Arc<Web>, port: u16) {
    let ks = ["X-A", "x-b", "Accept", "X-A", "content-type", "x-c", "authorization"];
    let extra: Vec<(String, String)> = (0..r.below(4)).map(|_| { let n = if r.chance(80) { 2 } else { 7 }; (r.pick(&ks[..n]).to_string(), r.pick(&["1", "two", "a b", ""]).to_string()) }).collect();
    let toks: Option<Vec<Option<String>>> = if r.chance(40) { Some((0..20).map(|i| if r.chance(90) { Some(format!("t{}", i)) } else { None }).collect()) } else { None };
    let prov = toks.clone().map(|t| Arc::new(Tokens { left: Mutex::new(t.into()), asked: Mutex::new(0) }));
    let sid0: Option<String> = if r.chance(30) { Some("given".into()) } else { None };
    let told: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let has_cb = r.chance(60);
    let path = *r.pick(&["/", "/mcp", "/a/b?c=d"]);
    let ops: Vec<(Op, Answer)> = (0..1 + r.below(6)).map(|_| {
        let o = match r.below(12) { 0 | 1 => Op::Sse(if r.chance(50) { Some(r.pick(&["7", "", "e 1"]).to_string()) } else { None }), 2 => Op::Resume(r.pick(&["9", "x"]).to_string(), g_msg(r)), 3 => Op::Close, 4 => Op::SetSession(if r.chance(50) { Some("mine".into()) } else { None }), 5 => Op::SetVersion(if r.chance(70) { Some("2025-03-26".into()) } else { None }), _ => Op::Send(g_msg(r)) };
        let get = matches!(o, Op::Sse(_) | Op::Resume(..));
        (o, g_answer(r, get))
    }).collect();
    let desc = format!("StreamableHttpTransport to {} with headers {:?}, tokens {:?}, session {:?}, callback {}: {}", path, extra, toks.as_ref().map(|t| &t[..ops.len()]), sid0, has_cb, ops.iter().map(|(o, a)| format!("{:?} answered {} {:?} {:?}{}", o, a.status, a.headers.iter().map(|(k, v)| format!("{}: {}", k, String::from_utf8_lossy(v))).collect::<Vec<_>>(), String::from_utf8_lossy(&a.body).chars().take(400).collect::<String>(), if a.drop { " (connection dropped)" } else { "" })).collect::<Vec<_>>().join("; "));
    case(&desc, ops.len() > 1, || rt.block_on(async {
        w.got.lock().unwrap().clear();
        let tc = told.clone();
        let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
            url: url::Url::parse(&format!("http://127.0.0.1:{}{}", port, path)).unwrap(), extra_headers: extra.clone(), auth_provider: prov.clone().map(|p| p as Arc<dyn AuthProvider>), session_id: sid0.clone(), enable_json_response: r.chance(50),
            on_resumption_token: if has_cb { Some(Arc::new(move |s: String| tc.lock().unwrap().push(s))) } else { None },
        });
        let (mut sid, mut ver, mut last): (Option<String>, Option<String>, Option<String>) = (sid0.clone(), None, None);
        let mut tokens: VecDeque<Option<String>> = toks.clone().unwrap_or_default().into();
        let (mut nreq, mut want_told): (usize, Vec<String>) = (0, vec![]);
        for (k, (o, a)) in ops.iter().enumerate() {
            let d = format!("{}; step {}", desc, k);
            { let mut n = w.next.lock().unwrap(); n.clear(); n.push_back(a.clone()); }
            // what must happen
            let asks = match o { Op::Send(_) | Op::Resume(..) | Op::Sse(_) => true, Op::Close => sid.is_some(), _ => false };
            let mut want: Result<Vec<String>, ()> = Ok(vec![]);
            let mut req: Option<Vec<(String, String)>> = None;
            let before = (sid.clone(), ver.clone());
            if asks {
                let tok = if toks.is_some() { Some(tokens.pop_front().flatten()) } else { None };
                if tok == Some(None) { want = Err(()); } else {
                    let mut h: Vec<(String, String)> = extra.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
                    if let Some(Some(x)) = tok { h.push(("authorization".into(), format!("Bearer {}", x))); }
                    if let Some(s) = &sid { h.push(("mcp-session-id".into(), s.clone())); }
                    if let Some(s) = &ver { h.push(("mcp-protocol-version".into(), s.clone())); }
                    match o {
                        Op::Send(_) => { h.push(("content-type".into(), "application/json".into())); h.push(("accept".into(), "application/json, text/event-stream".into())); },
                        Op::Sse(None) => h.push(("accept".into(), "text/event-stream".into())),
                        Op::Sse(Some(x)) | Op::Resume(x, _) => { h.push(("accept".into(), "text/event-stream".into())); h.push(("last-event-id".into(), x.clone())); },
                        _ => {},
                    }
                    req = Some(h);
                    let good = (200..300).contains(&a.status);
                    let get = matches!(o, Op::Sse(_) | Op::Resume(..));
                    let ct = header(a, "content-type").unwrap_or_default();
                    let body = String::from_utf8_lossy(&a.body).to_string();
                    let learn = |sid: &mut Option<String>, ver: &mut Option<String>| { if let Some(s) = header(a, "mcp-session-id") { *sid = Some(s); } if let Some(s) = header(a, "mcp-protocol-version") { *ver = Some(s); } };
                    let sse = |want: &mut Result<Vec<String>, ()>, last: &mut Option<String>, wt: &mut Vec<String>| {
                        let mut ms = vec![];
                        for e in events(&body) {
                            if let Some(i) = &e.id { *last = Some(i.clone()); if has_cb { wt.push(i.clone()); } }
                            if e.event.is_none() || e.event.as_deref() == Some("message") { if let Ok(m) = serde_json::from_str::<TransportMessage>(&e.data) { ms.push(show(&m)); } }
                        }
                        *want = Ok(ms);
                    };
                    if matches!(o, Op::Close) { sid = None; }
                    else if a.drop { want = Err(()); }
                    else if get {
                        if a.status == 405 {} else if !good { want = Err(()); } else { learn(&mut sid, &mut ver); sse(&mut want, &mut last, &mut want_told); }
                    } else {
                        learn(&mut sid, &mut ver);
                        if !good { want = Err(()); }
                        else if ct.contains("application/json") {
                            want = if let Ok(v) = serde_json::from_slice::<Vec<TransportMessage>>(&a.body) { Ok(v.iter().map(show).collect()) } else { serde_json::from_slice::<TransportMessage>(&a.body).map(|m| vec![show(&m)]).map_err(|_| ()) };
                        } else if ct.contains("text/event-stream") { sse(&mut want, &mut last, &mut want_told); }
                        else if a.status != 202 { want = Err(()); }
                    }
                }
            }
            match o { Op::SetSession(s) => sid = s.clone(), Op::SetVersion(v) => ver = v.clone(), _ => {} }
            // what happens
            let got = match o.clone() {
                Op::Send(m) => t.send(m).await, Op::Sse(x) => t.start_sse(x).await, Op::Close => t.close().await,
                Op::Resume(x, m) => t.send_with_options(m, SendOptions { related_request_id: None, resumption_token: Some(x) }).await,
                Op::SetSession(s) => { t.set_session_id(s); Ok(()) }, Op::SetVersion(v) => { t.set_protocol_version(v); Ok(()) },
            };
            ensure(&d, got.is_ok() == want.is_ok(), if want.is_ok() { "success" } else { "an error" }, &got);
            // the messages, in order, then nothing
            for m in want.clone().unwrap_or_default() {
                match tokio::time::timeout(Duration::from_secs(10), t.receive()).await { Ok(Ok(x)) => check(&format!("{}: message received", d), m, show(&x)), x => cex(&d, &m, &format!("{:?}", x.map(|y| y.map(|z| show(&z))))) }
            }
            let t0 = Instant::now();
            while (t.last_event_id() != last || told.lock().unwrap().len() < want_told.len()) && t0.elapsed() < Duration::from_secs(5) { tokio::time::sleep(Duration::from_millis(1)).await; }
            for _ in 0..4 { tokio::task::yield_now().await; }
            if let Ok(x) = tokio::time::timeout(Duration::from_millis(1), t.receive()).await { cex(&d, "no further message", &format!("{:?}", x.map(|z| show(&z)))); }
            check(&format!("{}: last event id", d), last.clone(), t.last_event_id());
            check(&format!("{}: ids told to the callback", d), want_told.clone(), told.lock().unwrap().clone());
            check(&format!("{}: session and version (before: {:?})", d, before), (sid.clone(), ver.clone()), (t.session_id(), t.protocol_version()));
            ensure(&d, t.is_connected(), "connected", "not");
            let reqs = w.got.lock().unwrap().clone();
            match req {
                None => check(&format!("{}: requests seen by the server", d), nreq, reqs.len()),
                Some(h) => {
                    // after a 202 to a notification the transport may also open its event stream
                    nreq += 1;
                    check(&format!("{}: requests seen by the server", d), nreq, reqs.len());
                    let g = &reqs[nreq - 1];
                    let (m, b) = match o { Op::Send(m) => ("POST", serde_json::to_string(m).unwrap()), Op::Close => ("DELETE", String::new()), _ => ("GET", String::new()) };
                    check(&format!("{}: request line", d), (m.to_string(), path.to_string()), (g.method.clone(), g.path.clone()));
                    check(&format!("{}: body", d), serde_json::from_str::<Value>(&b).ok(), serde_json::from_str::<Value>(&g.body).ok());
                    let mut names: Vec<&str> = vec!["authorization", "mcp-session-id", "mcp-protocol-version", "content-type", "last-event-id", "accept", "x-a", "x-b", "x-c"];
                    if m == "DELETE" && !h.iter().any(|(k, _)| k == "accept") { names.retain(|k| *k != "accept"); }
                    for n in names {
                        let f = |v: &[(String, String)]| v.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect::<Vec<_>>();
                        check(&format!("{}: header {}", d, n), f(&h), f(&g.headers));
                    }
                },
            }
            if let Some(p) = &prov { check(&format!("{}: tokens asked for", d), 20 - tokens.len(), *p.asked.lock().unwrap()); }
        }
    }));
}
fn main() {
    start();
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let w = Arc::new(Web { next: Mutex::new(VecDeque::new()), got: Mutex::new(vec![]) });
    { let w = w.clone(); std::thread::spawn(move || serve(l, w)); }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(20);
    while time_left() { run(&rt, &mut r, &w, port); }
    done()
}
