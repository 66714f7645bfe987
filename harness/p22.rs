// P22: the HTTP transport with an event stream, against a scripted server on the loopback interface
#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::*;
use pmcp::Error;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// how a body is sent: its pieces, and whether the connection breaks after them
#[derive(Clone, Debug, Default)]
struct Answer { status: u16, ctype: String, parts: Vec<Vec<u8>>, chunked: bool, broken: bool, drop: bool, never: bool }
#[derive(Clone, Debug)]
struct Got { method: String, path: String, headers: Vec<(String, String)>, body: String }
struct Web { next: Mutex<VecDeque<Answer>>, got: Mutex<Vec<Got>> }
fn talk(mut c: std::net::TcpStream, w: &Web) {
    let _ = c.set_nodelay(true);
    let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
    let mut b: Vec<u8> = vec![];
    let mut buf = [0u8; 4096];
    let end = loop {
        if let Some(i) = b.windows(4).position(|x| x == b"\r\n\r\n") { break i; }
        match c.read(&mut buf) { Ok(n) if n > 0 => b.extend_from_slice(&buf[..n]), _ => return }
    };
    let head = String::from_utf8_lossy(&b[..end]).to_string();
    let mut ls = head.split("\r\n");
    let rl: Vec<String> = ls.next().unwrap_or("").split(' ').map(|x| x.to_string()).collect();
    let headers: Vec<(String, String)> = ls.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
    let n: usize = headers.iter().find(|(k, _)| k == "content-length").and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
    while b.len() < end + 4 + n { match c.read(&mut buf) { Ok(k) if k > 0 => b.extend_from_slice(&buf[..k]), _ => break } }
    let a = w.next.lock().unwrap().pop_front();
    w.got.lock().unwrap().push(Got { method: rl[0].clone(), path: rl.get(1).cloned().unwrap_or_default(), headers, body: String::from_utf8_lossy(&b[end + 4..]).to_string() });
    let a = a.unwrap_or(Answer { status: 599, ..Default::default() });
    if a.drop { return; }
    if a.never { let _ = c.read(&mut buf); return; }
    let mut o = format!("HTTP/1.1 {} X\r\nConnection: close\r\n", a.status).into_bytes();
    if !a.ctype.is_empty() { o.extend(format!("Content-Type: {}\r\n", a.ctype).into_bytes()); }
    let all: usize = a.parts.iter().map(|p| p.len()).sum();
    if a.chunked { o.extend(b"Transfer-Encoding: chunked\r\n\r\n"); } else { o.extend(format!("Content-Length: {}\r\n\r\n", all + if a.broken { 5 } else { 0 }).into_bytes()); }
    if c.write_all(&o).is_err() { return; }
    for p in &a.parts {
        if p.is_empty() { continue; }
        let o = if a.chunked { let mut v = format!("{:x}\r\n", p.len()).into_bytes(); v.extend(p); v.extend(b"\r\n"); v } else { p.clone() };
        if c.write_all(&o).is_err() { return; }
        let _ = c.flush();
    }
    if a.chunked && !a.broken { let _ = c.write_all(b"0\r\n\r\n"); }
    let _ = c.flush();
}
fn show(m: &TransportMessage) -> String { format!("{:?}", m) }
fn wire(m: &TransportMessage) -> String { String::from_utf8(StdioTransport::serialize_message(m).unwrap()).unwrap() }
fn g_msg(r: &mut Rng) -> TransportMessage {
    let id = || RequestId::Number(3);
    match r.below(5) {
        0 => TransportMessage::Request { id: id(), request: Request::Client(Box::new(ClientRequest::Ping)) },
        1 => TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)),
        2 => TransportMessage::Request { id: RequestId::String(g_text(r)), request: Request::Client(Box::new(serde_json::from_value(json!({"method":"tools/call","params":{"name":g_text(r),"arguments":g_json(r, 1)}})).unwrap())) },
        _ => TransportMessage::Response(JSONRPCResponse::success(id(), g_json(r, 2))),
    }
}
fn g_sse(r: &mut Rng) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    for _ in 0..r.below(6) {
        let nl = if r.chance(80) { "\n" } else { "\r\n" };
        if r.chance(20) { s.extend(format!(": héllo{}", nl).bytes()); }
        if r.chance(30) { s.extend(format!("id: {}{}", r.pick(&["1", "é", ""]), nl).bytes()); }
        if r.chance(30) { s.extend(format!("event: {}{}", r.pick(&["message", "ping", ""]), nl).bytes()); }
        let m = if r.chance(60) { TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(4), json!(*r.pick(&["é", "日本語", "a😀b", "", "ÿ\u{0}\u{fffd}"])))) } else { g_msg(r) };
        match r.below(12) {
            0 => {}, 1 => s.extend(format!("data: junk{}", nl).bytes()), 2 => s.extend(format!("data{}", nl).bytes()),
            3 => { s.extend(b"data: {\"jsonrpc\":\"2.0\",\"id\":5,\"result\":\"\xff\xe2\x82\"}"); s.extend(nl.bytes()) },
            4 => for l in serde_json::to_string_pretty(&serde_json::from_str::<Value>(&wire(&m)).unwrap()).unwrap().split('\n') { s.extend(format!("data: {}{}", l, nl).bytes()) },
            _ => s.extend(format!("data:{}{}{}", r.pick(&["", " "]), wire(&m), nl).bytes()),
        }
        if r.chance(90) { s.extend(nl.bytes()); }
    }
    if r.chance(10) { s.pop(); }
    s
}
/// the data of each event
fn events(t: &str) -> Vec<String> {
    let (mut out, mut data): (Vec<String>, Option<Vec<String>>) = (vec![], None);
    let mut ls: Vec<&str> = t.split('\n').collect(); ls.pop();
    for l in ls {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if l.is_empty() { if let Some(d) = data.take() { out.push(d.join("\n")); } continue; }
        if l.starts_with(':') { continue; }
        let (f, v) = l.split_once(':').map_or((l, ""), |(f, v)| (f, v.strip_prefix(' ').unwrap_or(v)));
        if f == "data" { data.get_or_insert(vec![]).push(v.into()); }
    }
    out
}
fn cut(r: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = 0;
    let n = *r.pick(&[1usize, 2, 5, 40, 100_000]);
    while p < b.len() && v.len() < 400 { let k = (1 + r.below(n)).min(b.len() - p); v.push(b[p..p + k].to_vec()); p += k; }
    if p < b.len() { v.push(b[p..].to_vec()); }
    v
}
fn serve(l: std::net::TcpListener, w: Arc<Web>, over: Arc<AtomicBool>) {
    std::thread::spawn(move || for c in l.incoming() { if over.load(Ordering::SeqCst) { return; } if let Ok(c) = c { let w = w.clone(); std::thread::spawn(move || talk(c, &w)); } });
}
fn main() {
    start();
    let mut r = Rng::new(22);
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let w = Arc::new(Web { next: Mutex::new(VecDeque::new()), got: Mutex::new(vec![]) });
    serve(l, w.clone(), Arc::new(AtomicBool::new(false)));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    while time_left() { if r.chance(50) { posting(&rt, &mut r, &w, port); } else { streaming(&rt, &mut r, &w, port); } }
    done()
}
fn config(r: &mut Rng, port: u16) -> HttpConfig {
    let ks = ["X-A", "x-b", "X-A", "Authorization", "accept", "content-type", "x-\u{e9}", "x c"];
    let headers: Vec<(String, String)> = (0..r.below(4)).map(|_| { let n = match r.below(10) { 0 => 8, 1..=3 => 6, _ => 3 }; (r.pick(&ks[..n]).to_string(), r.pick(&["1", "Bearer t", "a b", "", "1", "two", if n == 8 { "a\nb" } else { "x" }]).to_string()) }).collect();
    HttpConfig { base_url: url::Url::parse(&format!("http://127.0.0.1:{}{}", port, r.pick(&["", "/", "/mcp", "/a/b?c=d"]))).unwrap(), sse_endpoint: None, timeout: Duration::from_secs(20), headers, enable_pooling: r.chance(50), max_idle_per_host: r.below(3) }
}
fn sendable(h: &[(String, String)]) -> bool { h.iter().all(|(k, v)| http::HeaderName::from_bytes(k.as_bytes()).is_ok() && http::HeaderValue::from_str(v).is_ok()) }
fn seen(d: &str, w: &Web, n: usize, method: &str, path: &str, own: &[(&str, &str)], conf: &[(String, String)], body: Option<String>) {
    let g = w.got.lock().unwrap().clone();
    check(&format!("{}: requests seen by the server", d), n, g.len());
    if n == 0 { return; }
    let g = g.last().unwrap();
    check(&format!("{}: request line", d), (method.to_string(), path.to_string()), (g.method.clone(), g.path.clone()));
    if let Some(b) = body { check(&format!("{}: body", d), b, g.body.clone()); }
    for n in ["x-a", "x-b", "authorization", "accept", "content-type", "cache-control"] {
        let mut want: Vec<String> = own.iter().filter(|(k, _)| *k == n).map(|(_, v)| v.to_string()).collect();
        want.extend(conf.iter().filter(|(k, _)| k.to_lowercase() == n).map(|(_, v)| v.trim().to_string()));
        check(&format!("{}: header {}", d, n), want, g.headers.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect::<Vec<_>>());
    }
}
fn kind(r: &Result<(), Error>) -> String { match r { Ok(()) => "ok".into(), Err(Error::Timeout(n)) => format!("timeout {}", n), Err(_) => "error".into() } }
async fn nothing(d: &str, t: &mut HttpTransport) {
    for _ in 0..4 { tokio::task::yield_now().await; }
    if let Ok(x) = tokio::time::timeout(Duration::from_millis(1), t.receive()).await { cex(d, "no further message", &format!("{:?}", x.map(|z| show(&z)))); }
}
async fn expect(d: &str, t: &mut HttpTransport, ms: &[String]) {
    for m in ms { match tokio::time::timeout(Duration::from_secs(10), t.receive()).await { Ok(Ok(x)) => check(&format!("{}: message received", d), m.clone(), show(&x)), x => cex(d, m, &format!("{:?}", x.map(|y| y.map(|z| show(&z))))) } }
}
fn posting(rt: &tokio::runtime::Runtime, r: &mut Rng, w: &Arc<Web>, port: u16) {
    let mut c = config(r, port);
    let n = 1 + r.below(4);
    let steps: Vec<(TransportMessage, Answer)> = (0..n).map(|_| {
        let m = g_msg(r);
        let status = if r.chance(75) { 200 } else { *r.pick(&[201u16, 204, 301, 400, 404, 500, 503]) };
        let body: Vec<u8> = match r.below(8) { 0 => vec![], 1 => b"junk".to_vec(), 2 => serde_json::to_vec(&g_json(r, 2)).unwrap(), 3 => b"{\"jsonrpc\":\"2.0\",\"id\":5,\"result\":\"\xff\"}".to_vec(), _ => { let m = g_msg(r); wire(&m).into_bytes() } };
        let parts = if status == 204 { vec![] } else { cut(r, &body) };
        let chunked = status != 204 && r.chance(50);
        (m, Answer { status, ctype: r.pick(&["application/json", "", "text/plain"]).to_string(), parts, chunked, broken: status != 204 && r.chance(10), drop: r.chance(4), never: r.chance(2) })
    }).collect();
    if steps.iter().any(|(_, a)| a.never) { c.timeout = Duration::from_micros(*r.pick(&[1_500u64, 20_000, 30_900, 45_000])); }
    let slow = c.timeout < Duration::from_secs(1);
    // a request given up may still reach the server later: such cases have a server of their own
    let own = slow.then(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let p = l.local_addr().unwrap().port();
        let (w, over) = (Arc::new(Web { next: Mutex::new(VecDeque::new()), got: Mutex::new(vec![]) }), Arc::new(AtomicBool::new(false)));
        serve(l, w.clone(), over.clone());
        c.base_url.set_port(Some(p)).unwrap();
        (w, over, p)
    });
    let w = own.as_ref().map_or(w, |o| &o.0);
    let conf = c.headers.clone();
    let ok = sendable(&conf);
    let path = { let u = &c.base_url; match u.query() { Some(q) => format!("{}?{}", u.path(), q), None => u.path().to_string() } };
    let desc = format!("HttpTransport to {} with headers {:?}, timeout {:?}: {}", path, conf, c.timeout, steps.iter().map(|(m, a)| format!("send {} answered {} {:?}{}{}", wire(m), a.status, String::from_utf8_lossy(&a.parts.concat()), if a.broken { " (broken off)" } else { "" }, if a.never { " (never)" } else if a.drop { " (dropped)" } else { "" })).collect::<Vec<_>>().join("; "));
    case(&desc, steps.len() > 1 || !conf.is_empty(), || rt.block_on(async {
        let mut t = HttpTransport::new(c.clone());
        ensure(&desc, !t.is_connected(), "not connected before connecting", "connected");
        for (k, (m, a)) in steps.iter().enumerate() {
            let d = format!("{}; step {}", desc, k);
            { w.got.lock().unwrap().clear(); let mut n = w.next.lock().unwrap(); n.clear(); n.push_back(a.clone()); }
            let got = t.send(m.clone()).await;
            let body = a.parts.concat();
            let mut want = vec![];
            let out = if !ok || a.drop { "error".to_string() } else if a.never { format!("timeout {}", c.timeout.as_millis()) }
                else if a.status != 200 || a.broken { "error".into() } else if let Ok(x) = StdioTransport::parse_message(&body) { want.push(show(&x)); "ok".into() } else { "error".to_string() };
            let g = kind(&got);
            // a short time may also run out before a prompt answer is seen
            if slow && !a.never && g.starts_with("timeout") { check(&format!("{}: time named", d), format!("timeout {}", c.timeout.as_millis()), g); return; }
            check(&format!("{}: outcome", d), out, g);
            expect(&d, &mut t, &want).await;
            nothing(&d, &mut t).await;
            let v = serde_json::from_str::<Value>(&wire(m)).unwrap();
            if a.never { return; }
            if !slow { seen(&d, w, if ok { 1 } else { 0 }, "POST", &path, &[("content-type", "application/json")], &conf, None); }
            if ok && !slow { check(&format!("{}: body", d), Some(v), serde_json::from_str::<Value>(&w.got.lock().unwrap().last().unwrap().body).ok()); }
        }
    }));
    if let Some((_, over, p)) = own { over.store(true, Ordering::SeqCst); let _ = std::net::TcpStream::connect(("127.0.0.1", p)); }
}
fn streaming(rt: &tokio::runtime::Runtime, r: &mut Rng, w: &Arc<Web>, port: u16) {
    let mut c = config(r, port);
    c.sse_endpoint = r.pick(&[Some("/events"), Some("events"), Some("/e?x=1"), Some(""), Some("http://[bad"), None]).map(|s| s.to_string());
    let mut body = g_sse(r);
    let broken = r.chance(15);
    let last = TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(99), json!("the end €")));
    // the last message tells that everything before it is there
    if !broken && r.chance(90) { body.extend(format!("\n\ndata: {}\n\n", wire(&last)).bytes()); }
    let status = if r.chance(85) { 200 } else { *r.pick(&[201u16, 204, 302, 404, 500]) };
    let a = Answer { status, ctype: "text/event-stream".into(), parts: if status == 204 { vec![] } else { cut(r, &body) }, chunked: status != 204 && r.chance(80), broken: status != 204 && broken, drop: r.chance(3), never: false };
    let conf = c.headers.clone();
    let ok = sendable(&conf);
    let url = c.sse_endpoint.as_ref().map(|s| c.base_url.join(s));
    let desc = format!("HttpTransport at {} with headers {:?} connects to its event stream {:?} answered {} {:?} in pieces of {:?}{}{}", c.base_url.path(), conf, c.sse_endpoint, a.status, String::from_utf8_lossy(&body), a.parts.iter().map(|p| p.len()).collect::<Vec<_>>(), if a.broken { " (broken off)" } else { "" }, if a.drop { " (dropped)" } else { "" });
    case(&desc, a.parts.len() > 1, || rt.block_on(async {
        { w.got.lock().unwrap().clear(); let mut n = w.next.lock().unwrap(); n.clear(); n.push_back(a.clone()); }
        let mut t = HttpTransport::new(c.clone());
        let got = tokio::time::timeout(Duration::from_secs(20), t.connect_sse()).await.unwrap_or(Err(Error::Timeout(0)));
        let d = &desc;
        let Some(url) = url else {
            check(&format!("{}: outcome", d), "ok".to_string(), kind(&got));
            ensure(d, t.is_connected(), "connected", "not");
            seen(d, w, 0, "", "", &[], &[], None);
            t.close().await.unwrap();
            ensure(d, !t.is_connected(), "not connected after close", "connected");
            return;
        };
        let Ok(url) = url else { check(&format!("{}: outcome", d), "error".to_string(), kind(&got)); seen(d, w, 0, "", "", &[], &[], None); ensure(d, !t.is_connected(), "not connected", "connected"); return };
        check(&format!("{}: outcome", d), if ok && !a.drop && a.status == 200 { "ok" } else { "error" }.to_string(), kind(&got));
        let path = match url.query() { Some(q) => format!("{}?{}", url.path(), q), None => url.path().to_string() };
        seen(d, w, if ok { 1 } else { 0 }, "GET", &path, &[("accept", "text/event-stream"), ("cache-control", "no-cache")], &conf, Some(String::new()));
        if got.is_err() { ensure(d, !t.is_connected(), "not connected", "connected"); nothing(d, &mut t).await; return; }
        let want: Vec<String> = events(&String::from_utf8_lossy(&body)).iter().filter_map(|e| StdioTransport::parse_message(e.as_bytes()).ok().map(|m| show(&m))).collect();
        // what was sent before a break may be lost with it
        if a.broken {
            let mut n = 0;
            while let Ok(x) = tokio::time::timeout(Duration::from_millis(10), t.receive()).await { let x = show(&x.unwrap()); ensure(d, n < want.len(), "no further message", &x); check(&format!("{}: message received", d), want[n].clone(), x); n += 1; }
            let t0 = std::time::Instant::now();
            while t.is_connected() && t0.elapsed() < Duration::from_secs(5) { tokio::time::sleep(Duration::from_millis(1)).await; }
            ensure(d, !t.is_connected(), "not connected once the stream has ended", "connected");
        } else {
            expect(d, &mut t, &want).await;
            let t0 = std::time::Instant::now();
            while t.is_connected() && t0.elapsed() < Duration::from_secs(5) { tokio::time::sleep(Duration::from_millis(1)).await; }
            ensure(d, !t.is_connected(), "not connected once the stream has ended", "connected");
            nothing(d, &mut t).await;
        }
    }));
}
