#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::middleware::{AuthMiddleware, LoggingMiddleware, Middleware, MiddlewareChain, RetryMiddleware};
use pmcp::shared::TransportMessage;
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::*;
use pmcp::{Error, ErrorCode};
use serde_json::json;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<(usize, char, String)>>>;
struct M { n: usize, fails: [bool; 4], edits: bool, log: Log, kind: usize }
fn err(n: usize, k: usize) -> Error { match k % 4 { 0 => Error::internal(format!("m{}", n)), 1 => Error::validation(format!("m{}", n)), 2 => Error::protocol(ErrorCode::INVALID_PARAMS, format!("m{}", n)), _ => Error::cancelled(format!("m{}", n)) } }
impl M { fn put(&self, i: usize, c: char, s: String) -> pmcp::Result<()> { self.log.lock().unwrap().push((self.n, c, s)); if self.fails[i] { Err(err(self.n, self.kind)) } else { Ok(()) } } }
#[async_trait::async_trait]
impl Middleware for M {
    async fn on_request(&self, q: &mut JSONRPCRequest) -> pmcp::Result<()> {
        tokio::task::yield_now().await;
        let r = self.put(0, 'q', serde_json::to_string(&q).unwrap());
        if self.edits { edit_q(self.n + self.kind, q); }
        r
    }
    async fn on_response(&self, q: &mut JSONRPCResponse) -> pmcp::Result<()> {
        let r = self.put(1, 'p', serde_json::to_string(&q).unwrap());
        if self.edits { edit_p(self.n + self.kind, q); }
        r
    }
    async fn on_send(&self, m: &TransportMessage) -> pmcp::Result<()> { tokio::task::yield_now().await; self.put(2, 's', format!("{:?}", m)) }
    async fn on_receive(&self, m: &TransportMessage) -> pmcp::Result<()> { self.put(3, 'r', format!("{:?}", m)) }
}
fn edit_q(n: usize, q: &mut JSONRPCRequest) {
    match n % 5 {
        0 => q.method.clear(),
        1 => q.params = None,
        2 => q.jsonrpc.clear(),
        3 => q.id = RequestId::Number(n as i64),
        _ => q.method.push_str(&format!("/{}", n)),
    }
}
fn edit_p(n: usize, q: &mut JSONRPCResponse) {
    match (n % 5, &mut q.payload) {
        (0, ResponsePayload::Result(v)) => *v = json!([v.clone(), n]),
        (0, _) => q.payload = ResponsePayload::Result(json!(null)),
        (1, _) => q.payload = ResponsePayload::Error(JSONRPCError { code: n as i32, message: String::new(), data: None }),
        (2, _) => q.jsonrpc.clear(),
        (3, _) => q.id = RequestId::String(String::new()),
        (_, ResponsePayload::Result(v)) => *v = json!(null),
        _ => {},
    }
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(29);
    while time_left() {
        let log: Log = Default::default();
        let n = r.below(7);
        let rate = *r.pick(&[0, 5, 15, 40]);
        // a member is a recording one, or one of the crate's own (which change nothing and never fail)
        let ms: Vec<Option<Arc<M>>> = (0..n).map(|i| if r.chance(15) { None } else { Some(Arc::new(M { n: i, fails: [r.chance(rate), r.chance(rate), r.chance(rate), r.chance(rate)], edits: r.chance(60), log: log.clone(), kind: r.below(4) })) }).collect();
        let mut c = MiddlewareChain::new();
        let own = |k: usize| -> Arc<dyn Middleware> { match k % 7 { 0 => Arc::new(LoggingMiddleware::new(tracing::Level::TRACE)), 1 => Arc::new(LoggingMiddleware::new(tracing::Level::ERROR)), 2 => Arc::new(LoggingMiddleware::default()), 3 => Arc::new(AuthMiddleware::new("t".into())), 4 => Arc::new(RetryMiddleware::default()), 5 => Arc::new(LoggingMiddleware::new(tracing::Level::INFO)), _ => Arc::new(RetryMiddleware::new(0, 0, 0)) } };
        for m in &ms { match m { Some(m) => c.add(m.clone()), None => c.add(own(r.below(7))) } }
        let d = format!("a chain of {:?}", ms.iter().map(|m| m.as_ref().map(|m| (m.fails, m.edits))).collect::<Vec<_>>());
        case(&d, n > 1, || {
            for _ in 0..1 + r.below(3) {
                log.lock().unwrap().clear();
                let mut want_log: Vec<(usize, char, String)> = vec![];
                let kind = r.below(4);
                let v = r.pick(&["2.0", "2.0", "2.0", "", "1.0"]).to_string();
                let rid = r.pick(&[RequestId::Number(0), RequestId::Number(-1), RequestId::Number(7), RequestId::String("x".into()), RequestId::String(String::new()), RequestId::String("7".into())]).clone();
                let mut q = JSONRPCRequest { jsonrpc: v.clone(), id: rid.clone(), method: r.pick(&["m", "tools/call", "", "notifications/x", "initialize", "ping"]).to_string(), params: r.pick(&[Some(json!({"a": 1})), None, Some(json!(null)), Some(json!([])), Some(json!({}))]).clone() };
                let mut p: JSONRPCResponse = JSONRPCResponse { jsonrpc: v, id: rid, payload: if r.chance(70) { ResponsePayload::Result(r.pick(&[json!(1), json!(null), json!({}), json!({"isError": true}), json!("")]).clone()) } else { ResponsePayload::Error(JSONRPCError { code: *r.pick(&[1, -32603, -32700, 0, -32800, 401]), message: r.pick(&["e", "", "cancelled"]).to_string(), data: r.pick(&[None, Some(json!(1))]).clone() }) } };
                let t = if r.chance(30) { TransportMessage::Request { id: q.id.clone(), request: Request::Client(Box::new(ClientRequest::Ping)) } } else if r.chance(50) { TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)) } else { TransportMessage::Response(p.clone()) };
                let (mut q2, mut p2) = (q.clone(), p.clone());
                let mut want: Option<String> = None;
                for m in ms.iter().flatten() {
                    match kind {
                        0 => { want_log.push((m.n, 'q', serde_json::to_string(&q2).unwrap())); if m.edits { edit_q(m.n + m.kind, &mut q2); } },
                        1 => { want_log.push((m.n, 'p', serde_json::to_string(&p2).unwrap())); if m.edits { edit_p(m.n + m.kind, &mut p2); } },
                        2 => want_log.push((m.n, 's', format!("{:?}", t))),
                        _ => want_log.push((m.n, 'r', format!("{:?}", t))),
                    }
                    if m.fails[kind] { want = Some(format!("{:?}", err(m.n, m.kind))); break; }
                }
                let got = rt.block_on(async { match kind { 0 => c.process_request(&mut q).await, 1 => c.process_response(&mut p).await, 2 => c.process_send(&t).await, _ => c.process_receive(&t).await } });
                let d = format!("{}, {}", d, ["process_request", "process_response", "process_send", "process_receive"][kind]);
                check(&format!("{}: calls (member, hook, what it saw)", d), want_log, log.lock().unwrap().clone());
                check(&format!("{}: outcome", d), want, got.err().map(|e| format!("{:?}", e)));
                check(&format!("{}: request after", d), serde_json::to_value(&q2).unwrap(), serde_json::to_value(&q).unwrap());
                check(&format!("{}: response after", d), serde_json::to_value(&p2).unwrap(), serde_json::to_value(&p).unwrap());
            }
        });
    }
    done()
}
