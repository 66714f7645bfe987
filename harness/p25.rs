#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, ToolHandler};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use pmcp::{Error, ErrorCode, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Debug)]
struct Wire { rx: tokio::sync::mpsc::UnboundedReceiver<TransportMessage>, tx: tokio::sync::mpsc::UnboundedSender<TransportMessage> }
#[async_trait::async_trait]
impl Transport for Wire {
    async fn send(&mut self, m: TransportMessage) -> pmcp::Result<()> { self.tx.send(m).map_err(|_| Error::internal("closed")) }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> { self.rx.recv().await.ok_or_else(|| Error::internal("closed")) }
    async fn close(&mut self) -> pmcp::Result<()> { Ok(()) }
}
/// (kind, handler, argument as JSON text, request id the handler was told)
type Log = Arc<Mutex<Vec<(String, String, String, String)>>>;
fn fail(n: usize) -> Option<Error> {
    match n {
        0 => Some(Error::not_found("nothing")),
        1 => Some(Error::protocol(ErrorCode::INVALID_PARAMS, "bad \"x\"")),
        2 => Some(Error::internal("boom")),
        3 => Some(Error::validation("")),
        _ => None,
    }
}
#[derive(Clone)]
struct H { kind: &'static str, name: String, log: Log }
impl H {
    /// the answer is a function of handler and argument; some arguments make it fail
    fn put(&self, a: &str, x: &RequestHandlerExtra) -> Result<String, Error> {
        self.log.lock().unwrap().push((self.kind.to_string(), self.name.clone(), a.to_string(), x.request_id.clone()));
        self.ans(a)
    }
    fn ans(&self, a: &str) -> Result<String, Error> {
        let h = a.bytes().fold(self.name.len() * 7, |s, b| s.wrapping_mul(31).wrapping_add(b as usize));
        match fail((h >> 2) % 12) { Some(e) => Err(e), None => Ok(format!("{}/{}/{}", self.kind, self.name, a)) }
    }
}
fn args_text(m: &HashMap<String, String>) -> String { let mut v: Vec<_> = m.iter().collect(); v.sort(); format!("{:?}", v) }
fn tool_value(s: String) -> Value { match s.len() % 3 { 0 => json!({"v": s}), 1 => Value::Null, _ => Value::String(s) } }
fn prompt_value(s: String) -> GetPromptResult { GetPromptResult { description: Some(s), messages: vec![] } }
fn read_value(s: String) -> ReadResourceResult { ReadResourceResult { contents: vec![Content::Text { text: s }] } }
fn list_value(s: String) -> ListResourcesResult { ListResourcesResult { resources: vec![ResourceInfo { uri: s, name: "n".into(), description: None, mime_type: None }], next_cursor: Some("more".into()) } }
fn sample_value(s: String) -> CreateMessageResult { CreateMessageResult { content: Content::Text { text: s }, model: "m".into(), usage: None, stop_reason: None } }
#[async_trait::async_trait]
impl ToolHandler for H {
    async fn handle(&self, a: Value, x: RequestHandlerExtra) -> pmcp::Result<Value> { tokio::task::yield_now().await; self.put(&a.to_string(), &x).map(tool_value) }
}
#[async_trait::async_trait]
impl PromptHandler for H {
    async fn handle(&self, a: HashMap<String, String>, x: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> { self.put(&args_text(&a), &x).map(prompt_value) }
}
#[async_trait::async_trait]
impl ResourceHandler for H {
    async fn read(&self, a: &str, x: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> { H { kind: "read", ..self.clone() }.put(a, &x).map(read_value) }
    async fn list(&self, a: Option<String>, x: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> { H { kind: "list", ..self.clone() }.put(&format!("{:?}", a), &x).map(list_value) }
}
#[async_trait::async_trait]
impl SamplingHandler for H {
    async fn create_message(&self, a: CreateMessageParams, x: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> { self.put(&serde_json::to_string(&a).unwrap(), &x).map(sample_value) }
}
const NAMES: [&str; 9] = ["a", "b", "A", "a ", "", "é", "ab", "a/b", "sum"];
fn pick_id(r: &mut Rng) -> RequestId {
    match r.below(8) {
        0 => RequestId::String(String::new()),
        1 => RequestId::String("é\"".into()),
        2 => RequestId::String(r.below(4).to_string()),
        3 => RequestId::Number(*r.pick(&[i64::MIN, -1, 0, i64::MAX])),
        _ => RequestId::Number(r.below(6) as i64),
    }
}
struct Conf { name: String, version: String, caps: ServerCapabilities, tools: HashMap<String, H>, prompts: HashMap<String, H>, res: Option<H>, samp: Option<H> }
fn names_in(v: &Value, key: &str) -> Vec<String> { let mut n: Vec<String> = v[key].as_array().map(|a| a.iter().map(|t| t["name"].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_else(|| vec!["<no list>".into()]); n.sort(); n }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let h = |kind: &'static str, name: &str| H { kind, name: name.to_string(), log: log.clone() };
    let mut c = Conf { name: r.pick(&NAMES).to_string(), version: format!("{}", r.below(9)), caps: ServerCapabilities::default(), tools: HashMap::new(), prompts: HashMap::new(), res: None, samp: None };
    let mut b = Server::builder();
    let mut steps = vec![];
    // registration in a random order, also twice under one name (the last one counts)
    if r.chance(50) { c.caps = ServerCapabilities { tools: Some(ToolCapabilities::default()), experimental: Some([("k".to_string(), json!(r.below(5)))].into_iter().collect()), ..Default::default() }; b = b.capabilities(c.caps.clone()); }
    for i in 0..r.below(8) {
        let n = r.pick(&NAMES).to_string();
        match r.below(8) {
            0..=2 => { let mut x = h("tool", &n); if r.chance(30) { x.name = format!("{}#{}", n, i); } b = b.tool(n.clone(), x.clone()); c.tools.insert(n, x); },
            3..=4 => { let mut x = h("prompt", &n); if r.chance(30) { x.name = format!("{}#{}", n, i); } b = b.prompt(n.clone(), x.clone()); c.prompts.insert(n, x); },
            5 => { let x = h("res", &format!("r{}", i)); b = b.resources(x.clone()); c.res = Some(x); },
            6 => { let x = h("sample", &format!("s{}", i)); b = b.sampling(x.clone()); c.samp = Some(x); c.caps.sampling = Some(SamplingCapabilities::default()); },
            _ => { b = b.name("other").version("9"); },
        }
    }
    b = b.name(c.name.clone()).version(c.version.clone());
    let msgs: Vec<TransportMessage> = (0..1 + r.below(12)).map(|_| {
        let id = pick_id(r);
        let q = |v: Value| TransportMessage::Request { id: id.clone(), request: Request::Client(Box::new(serde_json::from_value(v).unwrap())) };
        let n: String = if r.chance(90) { r.pick(&NAMES).to_string() } else { let b = r.pick(&NAMES).to_string(); near(r, &b) };
        match r.below(22) {
            0 => q(json!({"method":"initialize","params":{"protocolVersion":if r.chance(70) { r.pick(&["2024-11-05","2025-06-18","2025-03-26","2024-10-07","1"]).to_string() } else { let b = r.pick(&["2024-11-05","2025-06-18","2024-10-07"]).to_string(); near(r, &b) },"capabilities":{"experimental":{"a":r.below(4)}},"clientInfo":{"name":n,"version":"1"}}})),
            1 => q(json!({"method":"tools/list","params":{}})),
            2..=5 => q(json!({"method":"tools/call","params":{"name":n,"arguments":if r.chance(50) { g_json(r, 2) } else { r.pick(&[json!({}), json!(null), json!({"x":1}), json!([1, "é"]), json!({"x":2})]).clone() }}})),
            6 => q(json!({"method":"prompts/list","params":{}})),
            7..=9 => q(json!({"method":"prompts/get","params":{"name":n,"arguments":r.pick(&[json!({}), json!({"k":"v"}), json!({"k":"v","l":""}), json!({"name":"b"})]).clone()}})),
            10 => q(json!({"method":"resources/list","params":{"cursor":r.pick(&[json!(null), json!("c"), json!("")]).clone()}})),
            11..=12 => q(json!({"method":"resources/read","params":{"uri":g_text(r)}})),
            13 => q(json!({"method":"resources/templates/list","params":{}})),
            14 => q(json!({"method":"sampling/createMessage","params":{"messages":[],"includeContext":"none","systemPrompt":n}})),
            15 => q(json!({"method":"ping"})),
            16 => q(json!({"method":"resources/subscribe","params":{"uri":"u"}})),
            17 => q(json!({"method":"logging/setLevel","params":{"level":"info"}})),
            18 => TransportMessage::Request { id: id.clone(), request: Request::Server(Box::new(ServerRequest::ListRoots)) },
            19 => TransportMessage::Notification(serde_json::from_value::<ClientNotification>(json!({"method":"notifications/initialized"})).map(Notification::Client).unwrap()),
            20 => TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: id.clone(), payload: ResponsePayload::Result(json!({"name": n})) }),
            _ => q(json!({"method":"tools/call","params":{"name":n,"arguments":{"name":"a"}}})),
        }
    }).collect();
    for m in &msgs { steps.push(format!("{:?}", m)); }
    let mut tn: Vec<_> = c.tools.keys().cloned().collect(); tn.sort();
    let mut pn: Vec<_> = c.prompts.keys().cloned().collect(); pn.sort();
    let desc = format!("server {:?} {} tools {:?} prompts {:?} resources {} sampling {}, receives {:?}", c.name, c.version, tn, pn, c.res.is_some(), c.samp.is_some(), steps);
    case(&desc, msgs.len() > 1, || rt.block_on(async {
        let s = match b.build() { Ok(s) => s, Err(e) => cex(&desc, "the server is built", &e.to_string()) };
        for n in NAMES { ensure(&desc, s.has_tool(n) == c.tools.contains_key(n) && s.has_prompt(n) == c.prompts.contains_key(n), "has_tool/has_prompt name what was registered", n); }
        let (itx, irx) = tokio::sync::mpsc::unbounded_channel();
        let (otx, mut orx) = tokio::sync::mpsc::unbounded_channel();
        let t = tokio::spawn(s.run(Wire { rx: irx, tx: otx }));
        let marker = RequestId::String("last one".into());
        for m in &msgs { itx.send(m.clone()).unwrap(); }
        itx.send(TransportMessage::Request { id: marker.clone(), request: Request::Client(Box::new(ClientRequest::Ping)) }).unwrap();
        let mut seen = 0usize;
        let next = |l: &Log, seen: &mut usize| { let v = l.lock().unwrap(); let o = v.get(*seen).cloned(); *seen += 1; o };
        let mut all = msgs.clone();
        all.push(TransportMessage::Request { id: marker, request: Request::Client(Box::new(ClientRequest::Ping)) });
        for (k, m) in all.iter().enumerate() {
            let TransportMessage::Request { id, request } = m else { continue };
            let d = format!("{}; message {}", desc, k);
            let a = match tokio::time::timeout(std::time::Duration::from_secs(5), orx.recv()).await {
                Ok(Some(TransportMessage::Response(a))) => a,
                x => cex(&d, "an answer", &format!("{:?}", x)),
            };
            check(&format!("{}: id of the answer", d), id.clone(), a.id.clone());
            check(&format!("{}: version", d), "2.0", a.jsonrpc.as_str());
            let got: Result<Value, (i32, String, Option<Value>)> = match a.payload { ResponsePayload::Result(v) => Ok(v), ResponsePayload::Error(e) => Err((e.code, e.message, e.data)) };
            let idt = match id { RequestId::String(s) => s.clone(), RequestId::Number(n) => n.to_string() };
            // a handler's outcome: exactly one call with this request's argument and id
            let one = |seen: &mut usize, kind: &str, h: Option<&H>, arg: String, give: &dyn Fn(String) -> Value| {
                match h {
                    None => ensure(&d, matches!(&got, Err((-32603, m, None)) if m.to_lowercase().contains("not found") || m.contains("No ")), "an error for what does not exist", &got),
                    Some(h) => {
                        check(&format!("{}: the handler called", d), Some((kind.to_string(), h.name.clone(), arg.clone(), idt.clone())), next(&log, seen));
                        let w = H { kind: match kind { "tool" => "tool", "prompt" => "prompt", "read" => "read", "list" => "list", _ => "sample" }, ..h.clone() }.ans(&arg);
                        match w {
                            Ok(s) => check(&format!("{}: the handler's answer", d), Ok(give(s)), got.clone()),
                            Err(e) => check(&format!("{}: the handler's failure", d), Err((-32603, e.to_string(), None)), got.clone()),
                        }
                    },
                }
            };
            match request {
                Request::Server(_) => ensure(&d, matches!(&got, Err((-32601, _, _))), "method not found", &got),
                Request::Client(q) => match q.as_ref() {
                    ClientRequest::Initialize(q) => check(&d, Ok(json!({"protocolVersion": if ["2025-06-18", "2025-03-26", "2024-11-05", "2024-10-07"].contains(&q.protocol_version.as_str()) { q.protocol_version.clone() } else { "2025-03-26".to_string() }, "capabilities": serde_json::to_value(&c.caps).unwrap(), "serverInfo": {"name": c.name, "version": c.version}})), got),
                    ClientRequest::ListTools(_) => { let v = got.unwrap_or(Value::Null); check(&d, tn.clone(), names_in(&v, "tools")); },
                    ClientRequest::ListPrompts(_) => { let v = got.unwrap_or(Value::Null); check(&d, pn.clone(), names_in(&v, "prompts")); },
                    ClientRequest::CallTool(q) => one(&mut seen, "tool", c.tools.get(&q.name), q.arguments.to_string(), &|s| json!({"content": [{"type": "text", "text": tool_value(s).to_string()}], "isError": false})),
                    ClientRequest::GetPrompt(q) => one(&mut seen, "prompt", c.prompts.get(&q.name), args_text(&q.arguments), &|s| serde_json::to_value(prompt_value(s)).unwrap()),
                    ClientRequest::ReadResource(q) => one(&mut seen, "read", c.res.as_ref(), q.uri.clone(), &|s| serde_json::to_value(read_value(s)).unwrap()),
                    ClientRequest::ListResources(_) if c.res.is_none() => check(&d, Ok(json!({"resources": []})), got),
                    ClientRequest::ListResources(q) => one(&mut seen, "list", c.res.as_ref(), format!("{:?}", q.cursor), &|s| serde_json::to_value(list_value(s)).unwrap()),
                    ClientRequest::CreateMessage(q) => one(&mut seen, "sample", c.samp.as_ref(), serde_json::to_string(q).unwrap(), &|s| serde_json::to_value(sample_value(s)).unwrap()),
                    ClientRequest::ListResourceTemplates(_) => check(&d, Ok(json!({"resourceTemplates": []})), got),
                    _ => check(&d, Ok(json!({})), got),
                },
            }
        }
        tokio::task::yield_now().await;
        ensure(&desc, orx.try_recv().is_err(), "no further message", "one more");
        check(&format!("{}: number of handler calls", desc), seen, log.lock().unwrap().len());
        t.abort();
    }));
}
fn missing() {
    for (n, v) in [(false, false), (true, false), (false, true)] {
        let d = format!("ServerBuilder::build with name {} and version {}", n, v);
        case(&d, false, || {
            let mut b = Server::builder();
            if n { b = b.name("n"); }
            if v { b = b.version("1"); }
            ensure(&d, matches!(b.build(), Err(Error::Validation(_))), "refused", "built or another error");
        });
    }
}
/// several clients initialize one after another (over HTTP): what the last one said is what the server remembers
fn clients(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    use pmcp::server::streamable_http_server::StreamableHttpServer;
    let caps: Vec<Value> = (0..1 + r.below(4)).map(|_| {
        let mut c = json!({});
        if r.chance(50) { c["roots"] = json!({"listChanged": r.chance(50)}); }
        if r.chance(50) { c["experimental"] = json!({"a": r.below(4)}); }
        if r.chance(30) { c["sampling"] = json!({}); }
        c
    }).collect();
    let desc = format!("clients initialize with {:?}", caps);
    case(&desc, caps.len() > 1, || rt.block_on(async {
        let s = Arc::new(tokio::sync::Mutex::new(Server::builder().name("s").version("1").build().unwrap()));
        let (a, t) = match StreamableHttpServer::new("127.0.0.1:0".parse().unwrap(), s.clone()).start().await { Ok(x) => x, Err(_) => return };
        let c = reqwest::Client::builder().no_proxy().build().unwrap();
        ensure(&desc, s.lock().await.get_client_capabilities().await.is_none() && !s.lock().await.is_initialized().await, "nothing is remembered before the first", "something is");
        for cap in &caps {
            let q: ClientRequest = serde_json::from_value(json!({"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":cap,"clientInfo":{"name":"c","version":"1"}}})).unwrap();
            let ClientRequest::Initialize(i) = &q else { unreachable!() };
            let want = serde_json::to_value(&i.capabilities).unwrap();
            let body = serde_json::to_string(&TransportMessage::Request { id: RequestId::Number(1), request: Request::Client(Box::new(q)) }).unwrap();
            let Ok(x) = c.post(format!("http://{}/", a)).header("content-type", "application/json").header("accept", "application/json, text/event-stream").body(body).send().await else { break };
            if x.status().as_u16() != 200 { break; }
            let s = s.lock().await;
            check(&desc, Some(want), s.get_client_capabilities().await.map(|c| serde_json::to_value(c).unwrap()));
            ensure(&desc, s.is_initialized().await, "initialized", "not");
        }
        t.abort();
    }));
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    missing();
    let mut r = Rng::new(25);
    let mut n = 0;
    while time_left() { if n % 50 == 0 && n < 2000 { clients(&rt, &mut r); } n += 1; run(&rt, &mut r); }
    done()
}
