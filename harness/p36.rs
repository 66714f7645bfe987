// P36: messages over a WebSocket (loopback connections only)
#[path = "common.rs"]
mod common;
use common::*;
use futures::{SinkExt, StreamExt};
use pmcp::server::transport::websocket::{WebSocketServerBuilder, WebSocketServerConfig, WebSocketServerTransport};
use pmcp::shared::stdio::StdioTransport;
use pmcp::shared::websocket::{WebSocketConfig, WebSocketTransport};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use pmcp::Error;
use serde_json::json;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::{TcpListener, TcpStream};
use tokio_tungstenite::tungstenite::protocol::{Message, WebSocketConfig as WsConf};
use tokio_tungstenite::{MaybeTlsStream, WebSocketStream};

const T: Duration = Duration::from_secs(5);
fn msg(r: &mut Rng) -> TransportMessage {
    let id = match r.below(3) { 0 => RequestId::Number(r.below(9) as i64 - 2), 1 => RequestId::String(g_text(r)), _ => RequestId::String("7".into()) };
    match r.below(5) {
        0 => TransportMessage::Request { id, request: Request::Client(Box::new(ClientRequest::Ping)) },
        1 => TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id, payload: ResponsePayload::Result(json!({"text": g_text(r), "n": r.below(9)})) }),
        2 => TransportMessage::Request { id, request: Request::Client(Box::new(serde_json::from_value(json!({"method":"tools/call","params":{"name":g_text(r),"arguments":{"a": g_text(r)}}})).unwrap())) },
        3 => TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)),
        _ => TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id, payload: ResponsePayload::Result(json!("x".repeat(r.below(3000)))) }),
    }
}
fn text(m: &TransportMessage) -> String { String::from_utf8(StdioTransport::serialize_message(m).unwrap()).unwrap() }
/// what a text is read as: the text of the message, if it is one
fn reads(t: &str) -> Option<String> { StdioTransport::parse_message(t.as_bytes()).ok().map(|m| text(&m)) }
/// a frame to send: messages, things that are none, and frames of the protocol itself
fn frame(r: &mut Rng) -> Message {
    let t = text(&msg(r));
    match r.below(14) {
        0..=6 => Message::Text(t.into()),
        7 => Message::Text(format!(" \n{}\t", t).into()),
        8 => Message::Text(r.pick(&["", " ", "{}", "null", "[]", "{\"jsonrpc\":\"2.0\"}", "{\"jsonrpc\":\"2.0\",\"method\":\"x\"}", "no json", "{"]).to_string().into()),
        9 => Message::Text(format!("{}{}", t, r.pick(&["x", "\n", "}", ","])).into()),
        10 => Message::Binary(t.into_bytes().into()),
        11..=12 => Message::Ping(g_text(r).bytes().take(100).collect::<Vec<u8>>().into()),
        _ => Message::Pong(vec![1u8].into()),
    }
}
fn show(f: &[Message]) -> String { format!("{:?}", f.iter().map(|m| format!("{:?}", m)).collect::<Vec<_>>()) }
type Peer<S> = WebSocketStream<S>;
async fn bound(b: impl Fn(std::net::SocketAddr) -> WebSocketServerTransport) -> Option<(WebSocketServerTransport, std::net::SocketAddr)> {
    for _ in 0..5 {
        let a = std::net::TcpListener::bind("127.0.0.1:0").ok()?.local_addr().ok()?;
        let mut t = b(a);
        if t.bind().await.is_ok() { return Some((t, a)); }
    }
    None
}
async fn dial(t: &mut WebSocketServerTransport, a: std::net::SocketAddr) -> Option<Peer<MaybeTlsStream<TcpStream>>> {
    let (s, c) = tokio::join!(tokio::time::timeout(T, t.accept()), tokio::time::timeout(T, tokio_tungstenite::connect_async(format!("ws://{}/", a))));
    match (s, c) { (Ok(Ok(())), Ok(Ok((c, _)))) => Some(c), _ => None }
}
/// the next message, or None when none came (within a while) or no more will
async fn got(t: &mut dyn Transport) -> Option<String> { match tokio::time::timeout(T, t.receive()).await { Ok(Ok(m)) => Some(text(&m)), _ => None } }
const LAST: &str = "that was all";
fn last() -> TransportMessage { TransportMessage::Request { id: RequestId::String(LAST.into()), request: Request::Client(Box::new(ClientRequest::Ping)) } }
async fn arrived(d: &str, t: &mut dyn Transport, sent: &[Message]) {
    let mut want: Vec<String> = sent.iter().filter_map(|m| match m { Message::Text(t) => reads(t), _ => None }).collect();
    want.push(text(&last()));
    for (k, w) in want.iter().enumerate() { check(&format!("{}: message {} received", d, k), Some(w.clone()), got(t).await); }
}
fn server(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let rounds: Vec<(Vec<Message>, Vec<TransportMessage>, bool)> = (0..1 + r.below(3)).map(|_| ((0..r.below(12)).map(|_| frame(r)).collect(), (0..r.below(8)).map(|_| msg(r)).collect(), r.chance(40))).collect();
    let built = r.chance(50);
    let d = format!("WebSocket server; {}", rounds.iter().map(|(f, m, c)| format!("a client connects, sends {}; the server sends {:?}{}", show(f), m.iter().map(text).collect::<Vec<_>>(), if *c { " and closes" } else { "" })).collect::<Vec<_>>().join("; "));
    case(&d, true, || rt.block_on(async {
        let Some((mut s, a)) = bound(|a| if built { WebSocketServerBuilder::new().bind_addr(a).build() } else { WebSocketServerTransport::new(WebSocketServerConfig { bind_addr: a, ..Default::default() }) }).await else { return };
        ensure(&d, !s.is_connected() && s.send(last()).await.is_err() && s.receive().await.is_err(), "no connection yet", "connected");
        let mut old = vec![];
        for (frames, out, close) in &rounds {
            let Some(mut c) = dial(&mut s, a).await else { return };
            ensure(&d, s.is_connected(), "connected", "not connected");
            let mut sent = frames.clone();
            sent.push(Message::Text(text(&last()).into()));
            for f in &sent { c.send(f.clone()).await.unwrap(); }
            arrived(&d, &mut s, frames).await;
            let mut want: Vec<String> = vec![];
            for m in out { ensure(&d, s.send(m.clone()).await.is_ok(), "sent", "an error"); want.push(text(m)); }
            s.send(last()).await.unwrap();
            want.push(text(&last()));
            let (mut texts, mut pongs) = (vec![], vec![]);
            let pings: Vec<Vec<u8>> = frames.iter().filter_map(|f| match f { Message::Ping(p) => Some(p.to_vec()), _ => None }).collect();
            let subsequence = |a: &[Vec<u8>], b: &[Vec<u8>]| { let mut k = 0; for x in b { if k < a.len() && &a[k] == x { k += 1; } } k == a.len() };
            loop {
                if texts.len() >= want.len() && subsequence(&pings, &pongs) { break; }
                match tokio::time::timeout(T, c.next()).await {
                    Ok(Some(Ok(Message::Text(t)))) => texts.push(t.to_string()),
                    Ok(Some(Ok(Message::Pong(p)))) => pongs.push(p.to_vec()),
                    Ok(Some(Ok(x))) => cex(&d, "texts and pongs only", &format!("{:?}", x)),
                    _ => break,
                }
            }
            check(&format!("{}: texts sent to the client", d), want, texts);
            ensure(&format!("{}: each ping is answered with its payload", d), subsequence(&pings, &pongs), &format!("{:?}", pings), &pongs);
            ensure(&format!("{}: every pong answers a ping", d), pongs.iter().all(|p| pings.contains(p)), &format!("{:?}", pings), &pongs);
            if *close {
                let was = s.is_connected();
                if old.len() % 2 == 0 { c.send(Message::Text(text(&last()).into())).await.unwrap(); tokio::time::sleep(Duration::from_millis(50)).await; }
                ensure(&d, was && s.close().await.is_ok() && !s.is_connected() && s.send(last()).await.is_err() && s.receive().await.is_err(), "closed", "still connected");
            }
            old.push(c);
        }
    }));
}
/// more messages than any queue holds, before the first is taken
fn flood(rt: &tokio::runtime::Runtime, n: usize) {
    let d = format!("WebSocket server; a client sends {} messages before the server receives one, and the server sends {} before the client reads one", n, n);
    case(&d, true, || rt.block_on(async {
        let Some((mut s, a)) = bound(|a| WebSocketServerBuilder::new().bind_addr(a).build()).await else { return };
        let Some(mut c) = dial(&mut s, a).await else { return };
        let m = |i: usize| TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(i as i64), json!(null)));
        for i in 0..n { c.send(Message::Text(text(&m(i)).into())).await.unwrap(); }
        tokio::time::sleep(Duration::from_millis(300)).await;
        for i in 0..n { check(&format!("{}: message {} received", d, i), Some(text(&m(i))), got(&mut s).await); }
        for i in 0..n { ensure(&d, matches!(tokio::time::timeout(T, s.send(m(i))).await, Ok(Ok(()))), "sent", "not sent"); }
        for i in 0..n { match tokio::time::timeout(T, c.next()).await { Ok(Some(Ok(Message::Text(t)))) => check(&format!("{}: text {} sent to the client", d, i), text(&m(i)), t.to_string()), x => cex(&d, &format!("message {} on the wire", i), &format!("{:?}", x)) } }
    }));
}
/// what comes after a close frame, or after the connection broke, is the end
fn ending(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let frames: Vec<Message> = (0..r.below(6)).map(|_| frame(r)).collect();
    let how = r.below(2);
    let d = format!("WebSocket server; a client sends {} and {}", show(&frames), ["closes", "goes away"][how]);
    case(&d, true, || rt.block_on(async {
        let Some((mut s, a)) = bound(|a| WebSocketServerBuilder::default().bind_addr(a).build()).await else { return };
        let Some(mut c) = dial(&mut s, a).await else { return };
        for f in &frames { c.send(f.clone()).await.unwrap(); }
        c.send(Message::Text(text(&last()).into())).await.unwrap();
        // "goes away" closes one direction only: with answers unread, closing both would discard what is still under way
        if how == 0 { c.close(None).await.unwrap(); } else if let MaybeTlsStream::Plain(x) = c.get_mut() { tokio::io::AsyncWriteExt::shutdown(x).await.unwrap(); }
        arrived(&d, &mut s, &frames).await;
        match tokio::time::timeout(T, s.receive()).await { Ok(Err(_)) => {}, x => cex(&d, "an error once the connection is over", &format!("{:?}", x)) }
    }));
}
/// a message larger than the limit ends the connection; one within it arrives
fn limits(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let (n, m) = (200 + r.below(2000), r.below(3));
    let size = *r.pick(&[n - 1, n, n + 1, n + 500, 2 * n]);
    let d = format!("WebSocket server with {}; a message of {} bytes", match m { 0 => format!("max_message_size {}", n), 1 => format!("max_frame_size {}", n), _ => "no smaller limit".to_string() }, size);
    case(&d, true, || rt.block_on(async {
        let Some((mut s, a)) = bound(|a| { let b = WebSocketServerBuilder::new().bind_addr(a); match m { 0 => b.max_message_size(n), 1 => b.max_frame_size(n), _ => b }.build() }).await else { return };
        let Some(mut c) = dial(&mut s, a).await else { return };
        let mut t = text(&TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: RequestId::Number(1), payload: ResponsePayload::Result(json!("")) }));
        let pad = "x".repeat(size - t.len());
        t = t.replace("\"\"", &format!("\"{}\"", pad));
        ensure(&d, t.len() == size, "a message of that size", t.len());
        c.send(Message::Text(t.clone().into())).await.unwrap();
        let fits = m == 2 || size <= n;
        match (tokio::time::timeout(T, s.receive()).await, fits) {
            (Ok(Ok(x)), true) => check(&d, reads(&t), Some(text(&x))),
            (Ok(Err(_)), false) => {},
            (x, _) => cex(&d, if fits { "the message" } else { "an error" }, &format!("{:?}", x.map(|y| y.map(|_| "a message")))),
        }
    }));
}
fn conf(a: std::net::SocketAddr) -> WebSocketConfig { WebSocketConfig { url: format!("ws://{}/", a).parse().unwrap(), auto_reconnect: true, reconnect_delay: Duration::from_millis(10), max_reconnect_delay: Duration::from_millis(30), max_reconnect_attempts: Some(3), ping_interval: None, request_timeout: Duration::from_secs(1) } }
fn client(rt: &tokio::runtime::Runtime, r: &mut Rng, first: bool) {
    let (bad, most, frames, ping) = if first { (0, None, vec![], true) } else { (r.below(4), *r.pick(&[None, Some(0), Some(1), Some(2), Some(5)]), (0..if r.chance(12) { 160 + r.below(100) } else { r.below(12) }).map(|_| frame(r)).collect::<Vec<_>>(), r.chance(30)) };
    let m = msg(r);
    let fails = most.map_or(false, |n: u32| bad as u32 >= n.max(1));
    let d = format!("WebSocket client, at most {:?} attempts{}; {} handshakes fail; the server sends {}", most, if ping { ", pinging" } else { "" }, bad, show(&frames));
    case(&d, bad > 0 || !frames.is_empty(), || rt.block_on(async {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let mut c = conf(l.local_addr().unwrap());
        c.max_reconnect_attempts = most;
        if ping { c.ping_interval = Some(Duration::from_millis(20)); }
        let times = Arc::new(Mutex::new(vec![]));
        let tt = times.clone();
        let h = tokio::spawn(async move {
            for _ in 0..bad { let x = l.accept().await; tt.lock().unwrap().push(Instant::now()); drop(x); }
            let Ok(Ok((x, _))) = tokio::time::timeout(T, l.accept()).await else { return None };
            tt.lock().unwrap().push(Instant::now());
            tokio_tungstenite::accept_async_with_config(x, Some(WsConf::default())).await.ok()
        });
        let mut t = WebSocketTransport::new(c);
        let closed = |x: pmcp::Result<()>| matches!(x, Err(Error::Transport(pmcp::error::TransportError::ConnectionClosed)));
        ensure(&d, !t.is_connected() && closed(t.send(m.clone()).await), "not connected: sending fails", "connected");
        let x = match tokio::time::timeout(T, t.connect()).await { Ok(x) => x, Err(_) => cex(&d, "connect ends", "it does not") };
        let n = times.lock().unwrap().len();
        if fails {
            check(&format!("{}: attempts", d), most.unwrap().max(1) as usize, n);
            ensure(&d, x.is_err() && !t.is_connected() && closed(t.send(m.clone()).await), "not connected", "connected");
            h.abort();
            return;
        }
        ensure(&d, x.is_ok() && t.is_connected(), "connected", "not connected");
        let ts = times.lock().unwrap().clone();
        check(&format!("{}: attempts", d), bad + 1, ts.len());
        for (k, w) in ts.windows(2).enumerate() {
            let want = Duration::from_millis(if k == 0 { 10 } else if k == 1 { 20 } else { 30 });
            ensure(&format!("{}: wait {}", d, k), w[1] - w[0] + Duration::from_millis(5) >= want, &format!("at least {:?}", want), w[1] - w[0]);
        }
        let Some(mut p) = h.await.unwrap() else { return };
        for f in &frames { p.send(f.clone()).await.unwrap(); }
        p.send(Message::Text(text(&last()).into())).await.unwrap();
        if frames.len() > 100 { tokio::time::sleep(Duration::from_millis(100)).await; }
        arrived(&d, &mut t, &frames).await;
        if ping {
            let x = tokio::time::timeout(T, async { loop { match p.next().await { Some(Ok(Message::Ping(b))) => break Some(b.to_vec()), Some(Ok(_)) => {}, _ => break None } } }).await;
            check(&format!("{}: a ping", d), Some(vec![]), x.unwrap_or(None));
            // a message sent on a live connection
            ensure(&d, t.send(m.clone()).await.is_ok(), "sent", "an error");
            let x = tokio::time::timeout(Duration::from_millis(60), async { loop { match p.next().await { Some(Ok(Message::Text(b))) => break Some(b.to_string()), Some(Ok(_)) => {}, _ => break None } } }).await;
            match x { Ok(Some(x)) => check(&format!("{}: the message on the wire", d), text(&m), x), _ => known("ws-client-send-dropped") }
        }
        ensure(&d, t.close().await.is_ok() && !t.is_connected() && closed(t.send(m.clone()).await), "closed", "still connected");
    }));
}
/// the waits stop growing at the maximum
fn capped(rt: &tokio::runtime::Runtime) {
    let d = "WebSocket client, 12 attempts that all fail, waits from 10 ms to at most 30 ms";
    case(d, true, || rt.block_on(async {
        let a = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap() };
        let mut c = conf(a);
        c.max_reconnect_attempts = Some(12);
        let t = WebSocketTransport::new(c);
        let t0 = Instant::now();
        match tokio::time::timeout(Duration::from_secs(10), t.connect()).await { Ok(Err(_)) => {}, Ok(Ok(())) => return, Err(_) => cex(d, "about 300 ms", "more than 10 s") }
        ensure(d, t0.elapsed() >= Duration::from_millis(295), "at least 300 ms", t0.elapsed());
    }));
}
/// pings come as often as asked for, not more often
fn seldom(rt: &tokio::runtime::Runtime) {
    let d = "WebSocket client with a ping interval of one minute";
    case(d, true, || rt.block_on(async {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let mut c = conf(l.local_addr().unwrap());
        c.ping_interval = Some(Duration::from_secs(60));
        let h = tokio::spawn(async move { tokio_tungstenite::accept_async(l.accept().await.ok()?.0).await.ok() });
        let t = WebSocketTransport::new(c);
        if !matches!(tokio::time::timeout(T, t.connect()).await, Ok(Ok(()))) { return; }
        let Some(mut p) = h.await.unwrap() else { return };
        let (mut n, end) = (0, tokio::time::Instant::now() + Duration::from_millis(1300));
        while let Ok(Some(Ok(m))) = tokio::time::timeout_at(end, p.next()).await { if m.is_ping() { n += 1; } }
        ensure(d, n <= 1, "at most one ping within 1.3 seconds", n);
    }));
}
/// the doubled wait is cut to the largest one (the shortest of three tries counts)
fn cut(rt: &tokio::runtime::Runtime) {
    let d = "WebSocket client, 3 attempts that all fail, waits of 400 ms and then at most 500 ms";
    case(d, true, || rt.block_on(async {
        let mut least = Duration::MAX;
        for _ in 0..3 {
            let a = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap() };
            let mut c = conf(a);
            (c.max_reconnect_attempts, c.reconnect_delay, c.max_reconnect_delay) = (Some(3), Duration::from_millis(400), Duration::from_millis(500));
            let t = WebSocketTransport::new(c);
            let t0 = Instant::now();
            match tokio::time::timeout(T, t.connect()).await { Ok(Err(_)) => {}, _ => return }
            ensure(d, t0.elapsed() >= Duration::from_millis(895), "at least 900 ms", t0.elapsed());
            least = least.min(t0.elapsed());
            if least < Duration::from_millis(1150) { return; }
        }
        cex(d, "about 900 ms", &format!("{:?}", least));
    }));
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let mut r = Rng::new(36);
    client(&rt, &mut r, true);
    capped(&rt);
    flood(&rt, 260);
    cut(&rt);
    seldom(&rt);
    while time_left() {
        match r.below(6) { 0..=1 => server(&rt, &mut r), 2 => ending(&rt, &mut r), 3 => limits(&rt, &mut r), _ => client(&rt, &mut r, false) }
    }
    done()
}
