#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::*;
use pmcp::{Error, Server};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Debug, Default)]
struct Seen { inn: VecDeque<TransportMessage>, received: usize, after: usize, over: bool, sent: Vec<TransportMessage>, fail_at: Option<usize> }
/// hands over what is in `inn`, then fails; records what is sent; the send number `fail_at` fails
#[derive(Debug)]
struct Wire(Arc<Mutex<Seen>>);
#[async_trait::async_trait]
impl Transport for Wire {
    async fn send(&mut self, m: TransportMessage) -> pmcp::Result<()> {
        tokio::task::yield_now().await;
        let mut s = self.0.lock().unwrap();
        s.sent.push(m);
        if s.fail_at == Some(s.sent.len()) { s.over = true; return Err(Error::internal("gone")); }
        Ok(())
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        tokio::task::yield_now().await;
        let mut s = self.0.lock().unwrap();
        if s.over { s.after += 1; }
        match s.inn.pop_front() { Some(m) => { s.received += 1; Ok(m) }, None => { s.over = true; Err(Error::internal("closed")) } }
    }
    async fn close(&mut self) -> pmcp::Result<()> { Ok(()) }
}
struct Slow(Arc<Mutex<Vec<String>>>);
#[async_trait::async_trait]
impl pmcp::server::ToolHandler for Slow {
    async fn handle(&self, a: serde_json::Value, _x: RequestHandlerExtra) -> pmcp::Result<serde_json::Value> {
        let t = a["tag"].as_str().unwrap_or("?").to_string();
        self.0.lock().unwrap().push(format!("+{}", t));
        for _ in 0..a["wait"].as_u64().unwrap_or(0) { tokio::task::yield_now().await; }
        self.0.lock().unwrap().push(format!("-{}", t));
        if a["fail"] == true { return Err(Error::internal("no")); }
        Ok(json!({ "echo": t }))
    }
}
fn some_id(r: &mut Rng) -> RequestId { match r.below(5) { 0 => RequestId::String(r.below(3).to_string()), 1 => RequestId::String(String::new()), 2 => RequestId::Number(i64::MIN), _ => RequestId::Number(r.below(4) as i64) } }
fn call(tag: &str, wait: usize, fail: bool) -> Request {
    Request::Client(Box::new(ClientRequest::CallTool(serde_json::from_value(json!({"name": "slow", "arguments": {"tag": tag, "wait": wait, "fail": fail}})).unwrap())))
}
fn running(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    // 0 call, 1 failing call, 2 ping, 3 a request for the client, 4 a response, 5 a notification
    let n = *r.pick(&[0usize, 1, 3, 8, 20, 60, 150]);
    let what: Vec<(usize, RequestId, usize)> = (0..n).map(|_| (*r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]), some_id(r), r.below(6))).collect();
    let asks = what.iter().filter(|x| x.0 < 4).count();
    let fail_at = if asks > 0 && r.chance(25) { Some(1 + r.below(asks)) } else { None };
    let d = format!("Server::run; received (0 call, 1 failing call, 2 ping, 3 request to a client, 4 response, 5 notification; id; yields): {:?}{}", what, fail_at.map_or(String::new(), |k| format!("; send {} fails", k)));
    case(&d, n > 1, || {
        let log = Arc::new(Mutex::new(vec![]));
        let server = Server::builder().name("s").version("1").tool("slow", Slow(log.clone())).build().unwrap();
        let init: InitializeRequest = serde_json::from_value(json!({"protocolVersion": "2025-06-18", "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}})).unwrap();
        let mut inn: VecDeque<TransportMessage> = VecDeque::new();
        inn.push_back(TransportMessage::Request { id: RequestId::Number(-7), request: Request::Client(Box::new(ClientRequest::Initialize(init))) });
        for (i, (k, id, w)) in what.iter().enumerate() {
            inn.push_back(match k {
                0 | 1 => TransportMessage::Request { id: id.clone(), request: call(&format!("<{}>", i), *w, *k == 1) },
                2 => TransportMessage::Request { id: id.clone(), request: Request::Client(Box::new(ClientRequest::Ping)) },
                3 => TransportMessage::Request { id: id.clone(), request: Request::Server(Box::new(ServerRequest::ListRoots)) },
                4 => TransportMessage::Response(JSONRPCResponse::success(id.clone(), json!("x"))),
                _ => TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)),
            });
        }
        let total = inn.len();
        let seen = Arc::new(Mutex::new(Seen { inn, fail_at: fail_at.map(|k| k + 1), ..Default::default() }));
        let (s2, d2) = (seen.clone(), d.clone());
        rt.block_on(async move {
            let h = tokio::spawn(server.run(Wire(s2.clone())));
            let end = std::time::Instant::now() + Duration::from_secs(20);
            for k in 0usize.. { if s2.lock().unwrap().over || std::time::Instant::now() > end { break; } if k % 100 == 99 { tokio::time::sleep(Duration::from_millis(1)).await } else { tokio::task::yield_now().await } }
            for _ in 0..30 { tokio::task::yield_now().await; }
            ensure(&d2, s2.lock().unwrap().over, "everything is received and the connection ends", "still going");
            h.abort();
            let _ = h.await;
        });
        let s = seen.lock().unwrap();
        // the requests in order, up to the answer that could not be sent
        let mut want: Vec<(RequestId, usize, String)> = vec![(RequestId::Number(-7), 9, String::new())];
        let mut heard = 1;
        for (i, (k, id, _)) in what.iter().enumerate() {
            if fail_at.map_or(false, |f| want.len() == f + 1) { break; }
            heard += 1;
            if *k < 4 { want.push((id.clone(), *k, format!("<{}>", i))); }
        }
        if fail_at.is_none() { heard = total; }
        check(&format!("{}: messages received", d), heard, s.received);
        check(&format!("{}: receives after the end", d), 0, s.after);
        check(&format!("{}: messages sent", d), want.len(), s.sent.len());
        for ((id, k, tag), m) in want.iter().zip(&s.sent) {
            let TransportMessage::Response(a) = m else { cex(&d, "a response", &format!("{:?}", m)) };
            let text = a.result().map(|v| v.to_string());
            let ok = a.id == *id && match k { 0 => text.as_ref().map_or(false, |t| t.contains(tag.as_str())), 1 | 3 => a.get_error().is_some(), _ => a.is_success() };
            ensure(&format!("{}: answers in order", d), ok, &format!("the answer to {:?} {}", id, tag), a);
        }
        // one request after the other
        let marks: Vec<String> = want.iter().filter(|x| x.1 < 2).flat_map(|x| [format!("+{}", x.2), format!("-{}", x.2)]).collect();
        check(&format!("{}: handlers run one after the other", d), marks, log.lock().unwrap().clone());
    });
}
fn methods(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let mut names: Vec<String> = vec!["file:///a".into(), "file:///a/".into(), "a".into(), "A".into(), " ".into(), String::new(), "file:///é".into()];
    names.push(g_text(r));
    let steps: Vec<(usize, String, String, bool)> = (0..1 + r.below(25)).map(|_| (*r.pick(&[0, 0, 0, 1, 2, 2, 3, 4, 5]), r.pick(&names).clone(), r.pick(&names).clone(), r.chance(50))).collect();
    let d = format!("server methods (0 subscribe, 1 unsubscribe, 2 notify updated, 3 register root, 4 roots, 5 cancel; uri or id; client, name or reason): {:?}", steps);
    case(&d, steps.len() > 2, || rt.block_on(async {
        let server = Server::builder().name("s").version("1").build().unwrap();
        let mut subs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut roots: Vec<(String, Option<String>)> = vec![];
        for (i, (k, a, b, some)) in steps.iter().enumerate() {
            let d = format!("{}: step {}", d, i);
            let empty = a.is_empty() || b.is_empty();
            match k {
                0 => { let x = server.subscribe_resource(a.clone(), b.clone()).await; check(&d, !empty, x.is_ok()); if !empty { subs.entry(a.clone()).or_default().insert(b.clone()); } },
                1 => { let x = server.unsubscribe_resource(a.clone(), b.clone()).await; check(&d, !empty, x.is_ok()); if let Some(s) = subs.get_mut(a) { if !empty { s.remove(b); } } },
                2 => check(&d, subs.get(a).map_or(0, |s| s.len()), server.notify_resource_updated(a.clone()).await.unwrap_or(usize::MAX)),
                3 => {
                    let name = some.then(|| b.clone());
                    let x = server.register_root(a.clone(), name.clone()).await;
                    check(&d, a.starts_with("file://"), x.is_ok());
                    if x.is_ok() { roots.push((a.clone(), name)); }
                },
                4 => check(&d, roots.clone(), server.get_roots().await.into_iter().map(|x| (x.uri, x.name)).collect::<Vec<_>>()),
                _ => check(&d, !a.is_empty(), server.cancel_request(a.clone(), some.then(|| b.clone())).await.is_ok()),
            }
        }
        for (u, s) in &subs { check(&format!("{}: in the end, {}", d, u), s.len(), server.notify_resource_updated(u.clone()).await.unwrap_or(usize::MAX)); }
        check(&format!("{}: in the end", d), roots.clone(), server.get_roots().await.into_iter().map(|x| (x.uri, x.name)).collect::<Vec<_>>());
        server.send_notification(ServerNotification::ToolsChanged).await;
    }));
}
fn main() {
    start();
    let mt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let ct = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(38);
    let mut k = 0;
    while k < 60 || time_left() { k += 1; running(if k % 3 == 0 { &mt } else { &ct }, &mut r); methods(&ct, &mut r); }
    done()
}
