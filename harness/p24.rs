#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::*;
use pmcp::{Client, Error, ErrorCode};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::{Arc, Mutex};

/// what the peer does next: fail to take a message, fail to deliver one, or deliver one
#[derive(Debug, Clone)]
enum Play { SendFails(usize), RecvFails(usize), Other(usize), Result(Value), Error(i32, String, Option<Value>) }
#[derive(Debug, Default)]
struct St { sent: Vec<TransportMessage>, reads: usize, script: VecDeque<Play> }
#[derive(Debug, Clone)]
struct Wire(Arc<Mutex<St>>);
fn wire_error(n: usize) -> Error { match n % 3 { 0 => Error::internal(format!("w{}", n)), 1 => Error::Timeout(n as u64), _ => Error::protocol(ErrorCode::INVALID_REQUEST, format!("w{}", n)) } }
#[async_trait::async_trait]
impl Transport for Wire {
    async fn send(&mut self, m: TransportMessage) -> pmcp::Result<()> {
        let mut s = self.0.lock().unwrap();
        s.sent.push(m);
        if let Some(Play::SendFails(n)) = s.script.front() { let n = *n; s.script.pop_front(); return Err(wire_error(n)); }
        Ok(())
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        let mut s = self.0.lock().unwrap();
        s.reads += 1;
        let id = s.sent.iter().rev().find_map(|m| if let TransportMessage::Request { id, .. } = m { Some(id.clone()) } else { None }).unwrap_or(RequestId::Number(0));
        match s.script.pop_front() {
            Some(Play::Result(v)) => Ok(TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id, payload: ResponsePayload::Result(v) })),
            Some(Play::Error(code, message, data)) => Ok(TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id, payload: ResponsePayload::Error(JSONRPCError { code, message, data }) })),
            Some(Play::Other(0)) => Ok(TransportMessage::Request { id, request: Request::Server(Box::new(ServerRequest::ListRoots)) }),
            Some(Play::Other(_)) => Ok(TransportMessage::Notification(Notification::Client(ClientNotification::Initialized))),
            Some(Play::RecvFails(n)) => Err(wire_error(n)),
            _ => Err(Error::internal("nothing to read")),
        }
    }
    async fn close(&mut self) -> pmcp::Result<()> { Ok(()) }
}
fn err_tag(e: &Error) -> String {
    match e { Error::InvalidState(_) => "invalid state".into(), Error::UnsupportedCapability(_) => "no capability".into(), Error::Validation(_) => "validation".into(), e => format!("{:?}", e) }
}
fn named(c: i32) -> bool { matches!(c, -32700 | -32600 | -32601 | -32602 | -32603 | -32001 | -32002 | -32003 | -32004) }
fn read_code(c: i32) -> i32 { if !named(c) && (-32099..=-32000).contains(&c) { -32603 } else { c } }
/// outcomes of methods, comparable: Ok(value as JSON) or the error
fn shown<T: serde::Serialize>(r: Result<T, Error>) -> Result<Value, Error> { r.map(|x| serde_json::to_value(x).unwrap()) }
fn text(r: &Result<Value, Error>) -> String { match r { Ok(v) => format!("Ok({})", v), Err(Error::Protocol { code, message, data }) => format!("Err(code {}, {:?}, {:?})", code.as_i32(), message, data), Err(e) => format!("Err({})", err_tag(e)) } }
fn parse_or<T: serde::de::DeserializeOwned + serde::Serialize>(v: &Value) -> Option<Value> { serde_json::from_value::<T>(v.clone()).ok().map(|x| serde_json::to_value(x).unwrap()) }
const VERSIONS: [&str; 4] = ["2025-06-18", "2025-03-26", "2024-11-05", "2024-10-07"];
fn pick_error(r: &mut Rng) -> Play {
    let c = match r.below(6) { 0 => -32000, 1 => -32050, 2 => *r.pick(&[-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004]), 3 => r.below(2000) as i32 - 1000, 4 => i32::MIN, _ => -32099 + r.below(100) as i32 };
    Play::Error(c, g_text(r), if r.chance(50) { Some(if r.chance(50) { json!({"d": r.below(4)}) } else { loop { let v = g_json(r, 1); if !v.is_null() { break v; } } }) } else { None })
}
fn pick_result(r: &mut Rng) -> Value {
    let n = r.below(5);
    match r.below(16) {
        0 => json!({"tools": [{"name": format!("t{}", n), "inputSchema": {"type": "object"}}], "nextCursor": "x"}),
        1 => json!({"tools": []}),
        2 => json!({"content": [{"type": "text", "text": format!("c{}", n)}], "isError": n % 2 == 0}),
        3 => json!({"prompts": [{"name": format!("p{}", n)}]}),
        4 => json!({"description": "d", "messages": []}),
        5 => json!({"resources": [{"uri": "u", "name": format!("r{}", n)}], "nextCursor": null}),
        6 => json!({"resourceTemplates": [{"uriTemplate": "u/{x}", "name": format!("q{}", n)}]}),
        7 => json!({"contents": [{"type": "text", "text": format!("k{}", n)}]}),
        8 => json!({"completion": {"values": [format!("v{}", n)], "total": 1, "hasMore": false}}),
        9 => json!({"content": {"type": "text", "text": format!("m{}", n)}, "model": "m"}),
        10 => json!({}),
        11 => Value::Null,
        12 => json!(n),
        13 => json!([]),
        14 => json!({"tools": 1, "prompts": 1, "resources": 1, "content": 1}),
        _ => json!({"tools": [], "prompts": [], "resources": [], "resourceTemplates": [], "contents": [], "content": [], "messages": [], "completion": {"values": []}}),
    }
}
struct Model { init: bool, caps: Option<ServerCapabilities>, version: Option<Implementation>, instructions: Option<String>, roots: Option<bool>, ids: HashSet<String> }
enum Want { Refused(&'static str), Sent(Value, fn(&Value) -> Option<Value>) }
fn unit(_: &Value) -> Option<Value> { Some(Value::Null) }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let st = Arc::new(Mutex::new(St::default()));
    let info = Implementation { name: r.pick(&["a", "", "é"]).to_string(), version: r.below(9).to_string() };
    // every way to build a client gives the same one
    let info = if r.chance(25) { Implementation { name: "pmcp-client".into(), version: String::new() } } else { info };
    let mut c = match r.below(3) {
        _ if info.name == "pmcp-client" => match r.below(2) { 0 => Client::new(Wire(st.clone())), _ => pmcp::ClientBuilder::new(Wire(st.clone())).enforce_strict_capabilities(r.chance(50)).debounced_notifications(vec![g_text(r)]).build() },
        0 => Client::with_options(Wire(st.clone()), info.clone(), pmcp::shared::ProtocolOptions { enforce_strict_capabilities: r.chance(50), debounced_notification_methods: vec![] }),
        _ => Client::with_info(Wire(st.clone()), info.clone()),
    };
    let mut m = Model { init: false, caps: None, version: None, instructions: None, roots: None, ids: HashSet::new() };
    let mut hist: Vec<String> = vec![];
    for _ in 0..2 + r.below(14) {
        if r.chance(8) { c = c.clone(); hist.push("continue with a clone".into()); }
        let before = st.lock().unwrap().sent.len();
        let reads0 = st.lock().unwrap().reads;
        let play = match r.below(12) { 0 => Play::SendFails(r.below(9)), 1 => Play::RecvFails(r.below(9)), 2 => Play::Other(r.below(2)), 3 | 4 => pick_error(r), _ => Play::Result(pick_result(r)) };
        let set = |p: &[Play]| st.lock().unwrap().script = p.iter().cloned().collect();
        // what the exchange comes to, for a reply that decodes as `dec`
        let outcome = |p: &Play, dec: fn(&Value) -> Option<Value>| -> Result<Value, String> {
            match p {
                Play::SendFails(n) | Play::RecvFails(n) => Err(text(&Err(wire_error(*n)))),
                Play::Other(_) => Err("Err(protocol".into()),
                Play::Error(c, t, d) => Err(format!("Err(code {}, {:?}, {:?})", read_code(*c), t, d)),
                Play::Result(v) => dec(v).ok_or("Err(code -32700".into()),
            }
        };
        let k = r.below(24);
        if !m.init && k < 12 || k == 0 {
            // initialize
            let caps = ClientCapabilities { roots: match r.below(3) { 0 => None, 1 => Some(RootsCapabilities { list_changed: true }), _ => Some(RootsCapabilities { list_changed: false }) }, ..Default::default() };
            let ver = match r.below(8) { 0 => *r.pick(&["2024-11-04", "", "1", "2025-06-18 ", "2025-06-1", "2026-01-01", "2025-03-27", "2024-10-08"]), _ => *r.pick(&VERSIONS) };
            let has = |r: &mut Rng| r.chance(60);
            let mut sc = ServerCapabilities::default();
            if has(r) { sc.tools = Some(ToolCapabilities::default()); }
            if has(r) { sc.prompts = Some(PromptCapabilities::default()); }
            if has(r) { sc.resources = Some(ResourceCapabilities { subscribe: *r.pick(&[None, Some(true), Some(true), Some(false)]), list_changed: None }); }
            if has(r) { sc.logging = Some(LoggingCapabilities::default()); }
            if has(r) { sc.completions = Some(CompletionCapabilities::default()); }
            if has(r) { sc.sampling = Some(SamplingCapabilities::default()); }
            let y = InitializeResult { protocol_version: ProtocolVersion(ver.to_string()), capabilities: sc, server_info: Implementation { name: "s".into(), version: r.below(9).to_string() }, instructions: if r.chance(50) { Some(format!("i{}", r.below(3))) } else { None } };
            let good = r.chance(70);
            let first = if good { Play::Result(serde_json::to_value(&y).unwrap()) } else { play.clone() };
            let second = if r.chance(15) { Some(Play::SendFails(7)) } else { None };
            let mut script = vec![first.clone()];
            script.extend(second.clone());
            set(&script);
            hist.push(format!("initialize(roots {:?}) reply {:?}{}", caps.roots, first, if second.is_some() { ", then the connection fails" } else { "" }));
            let d = hist.join("; ");
            let got = shown(rt.block_on(c.initialize(caps.clone())));
            let sent: Vec<TransportMessage> = st.lock().unwrap().sent[before..].to_vec();
            if m.init {
                ensure(&d, matches!(&got, Err(Error::InvalidState(_))) && sent.is_empty(), "a second initialize is refused and sends nothing", &format!("{}, {} sent", text(&got), sent.len()));
                continue;
            }
            m.roots = caps.roots.as_ref().map(|x| x.list_changed);
            // the version of the crate is whatever it is
            let info = match sent.first() { Some(TransportMessage::Request { request: Request::Client(q), .. }) if info.name == "pmcp-client" => match &**q { ClientRequest::Initialize(p) => Implementation { version: p.client_info.version.clone(), ..info.clone() }, _ => info.clone() }, _ => info.clone() };
            check_request(&d, &sent, &mut m.ids, &json!({"method": "initialize", "params": {"protocolVersion": "2025-06-18", "capabilities": caps, "clientInfo": info}}));
            let accepted = good && VERSIONS.contains(&ver);
            if accepted {
                m.init = true; m.caps = Some(y.capabilities.clone()); m.version = Some(y.server_info.clone()); m.instructions = y.instructions.clone();
                let ok2 = sent.len() == 2 && matches!(&sent[1], TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)));
                ensure(&d, ok2, "the initialized notification follows", &format!("{:?}", &sent[1..]));
                match second {
                    None => check(&d, &format!("Ok({})", serde_json::to_value(&y).unwrap()), &text(&got)),
                    Some(_) => check(&d, &text(&Err(wire_error(7))), &text(&got)),
                }
            } else {
                ensure(&d, sent.len() == 1, "one message sent", &format!("{:?}", sent));
                if good { ensure(&d, matches!(&got, Err(Error::Protocol { .. })), "an unsupported version is an error", &text(&got)); }
                else { match outcome(&first, parse_or::<InitializeResult>) { Err(w) => ensure(&d, matches_err(&w, &got), &w, &text(&got)), Ok(_) => {} } }
            }
        } else if k < 19 {
            let uri = g_text(r);
            let name = g_text(r);
            let cur = r.pick(&[None, Some("c".to_string()), Some(String::new())]).clone();
            let args = if r.chance(50) { r.pick(&[json!({}), json!({"a": 1}), Value::Null, json!([2])]).clone() } else { g_json(r, 2) };
            let sargs: HashMap<String, String> = if r.chance(50) { [("k".to_string(), "v".to_string())].into_iter().collect() } else { HashMap::new() };
            let s = m.caps.clone().unwrap_or_default();
            set(&[play.clone()]);
            let op = r.below(13);
            let (what, has, req, dec): (&str, bool, Value, fn(&Value) -> Option<Value>) = match op {
                0 => ("ping", true, json!({"method": "ping"}), unit),
                1 => ("set_logging_level", s.logging.is_some(), json!({"method": "logging/setLevel", "params": {"level": "warning"}}), unit),
                2 => ("list_tools", s.tools.is_some(), serde_json::to_value(ClientRequest::ListTools(ListToolsParams { cursor: cur.clone() })).unwrap(), parse_or::<ListToolsResult>),
                3 => ("call_tool", s.tools.is_some(), serde_json::to_value(ClientRequest::CallTool(CallToolParams { name: name.clone(), arguments: args.clone() })).unwrap(), parse_or::<CallToolResult>),
                4 => ("list_prompts", s.prompts.is_some(), serde_json::to_value(ClientRequest::ListPrompts(ListPromptsParams { cursor: cur.clone() })).unwrap(), parse_or::<ListPromptsResult>),
                5 => ("get_prompt", s.prompts.is_some(), serde_json::to_value(ClientRequest::GetPrompt(GetPromptParams { name: name.clone(), arguments: sargs.clone() })).unwrap(), parse_or::<GetPromptResult>),
                6 => ("list_resources", s.resources.is_some(), serde_json::to_value(ClientRequest::ListResources(ListResourcesParams { cursor: cur.clone() })).unwrap(), parse_or::<ListResourcesResult>),
                7 => ("list_resource_templates", s.resources.is_some(), serde_json::to_value(ClientRequest::ListResourceTemplates(ListResourceTemplatesRequest { cursor: cur.clone() })).unwrap(), parse_or::<ListResourceTemplatesResult>),
                8 => ("read_resource", s.resources.is_some(), json!({"method": "resources/read", "params": {"uri": uri}}), parse_or::<ReadResourceResult>),
                9 => ("subscribe_resource", s.resources.as_ref().map_or(false, |x| x.subscribe == Some(true)), json!({"method": "resources/subscribe", "params": {"uri": uri}}), unit),
                10 => ("unsubscribe_resource", s.resources.is_some(), json!({"method": "resources/unsubscribe", "params": {"uri": uri}}), unit),
                11 => ("complete", s.completions.is_some(), json!({"method": "completion/complete", "params": {"ref": {"type": "ref/resource", "uri": uri}, "argument": {"name": name, "value": "v"}}}), parse_or::<CompleteResult>),
                _ => ("create_message", s.sampling.is_some(), serde_json::to_value(ClientRequest::CreateMessage(serde_json::from_value(json!({"messages": [], "systemPrompt": name, "includeContext": "none"})).unwrap())).unwrap(), parse_or::<CreateMessageResult>),
            };
            hist.push(format!("{} {} reply {:?}", what, req, play));
            let d = format!("declared capabilities {}: {}", m.caps.as_ref().map(|c| serde_json::to_string(c).unwrap()).unwrap_or("none (not initialized)".into()), hist.join("; "));
            let got = match op {
                0 => shown(rt.block_on(c.ping())),
                1 => shown(rt.block_on(c.set_logging_level(LoggingLevel::Warning))),
                2 => shown(rt.block_on(c.list_tools(cur))),
                3 => shown(rt.block_on(c.call_tool(name, args))),
                4 => shown(rt.block_on(c.list_prompts(cur))),
                5 => shown(rt.block_on(c.get_prompt(name, sargs))),
                6 => shown(rt.block_on(c.list_resources(cur))),
                7 => shown(rt.block_on(c.list_resource_templates(cur))),
                8 => shown(rt.block_on(c.read_resource(uri))),
                9 => shown(rt.block_on(c.subscribe_resource(uri))),
                10 => shown(rt.block_on(c.unsubscribe_resource(uri))),
                11 => shown(rt.block_on(c.complete(serde_json::from_value(json!({"ref": {"type": "ref/resource", "uri": uri}, "argument": {"name": name, "value": "v"}})).unwrap()))),
                _ => shown(rt.block_on(c.create_message(serde_json::from_value(json!({"messages": [], "systemPrompt": name, "includeContext": "none"})).unwrap()))),
            };
            let sent: Vec<TransportMessage> = st.lock().unwrap().sent[before..].to_vec();
            let reads = st.lock().unwrap().reads - reads0;
            let want = if !m.init { Want::Refused("Err(invalid state)") } else if !has { Want::Refused("Err(no capability)") } else { Want::Sent(req, dec) };
            match want {
                Want::Refused(w) => {
                    check(&d, &w, &text(&got).as_str());
                    ensure(&d, sent.is_empty() && reads == 0, "nothing sent or read", &format!("{:?}", sent));
                },
                Want::Sent(q, dec) => {
                    check_request(&d, &sent, &mut m.ids, &q);
                    let failed = matches!(play, Play::SendFails(_));
                    ensure(&d, sent.len() == 1 && reads == if failed { 0 } else { 1 }, "one message sent, one read", &format!("{} sent, {} read", sent.len(), reads));
                    match outcome(&play, dec) {
                        Ok(v) => check(&d, &format!("Ok({})", v), &text(&got)),
                        Err(w) => ensure(&d, matches_err(&w, &got), &w, &text(&got)),
                    }
                },
            }
        } else {
            set(&if r.chance(20) { vec![Play::SendFails(5)] } else { vec![] });
            let fails = !st.lock().unwrap().script.is_empty();
            let d0 = hist.join("; ");
            match r.below(4) {
                0 => {
                    let id = match r.below(3) { 0 => RequestId::Number(r.below(3) as i64), 1 => RequestId::String("x".into()), _ => m.ids.iter().next().map(|s| RequestId::String(s.clone())).unwrap_or(RequestId::Number(-1)) };
                    let got = rt.block_on(c.cancel_request(&id));
                    let sent: Vec<TransportMessage> = st.lock().unwrap().sent[before..].to_vec();
                    let d = format!("{}; cancel_request({:?})", d0, id);
                    ensure(&d, sent.len() == 1 && matches!(&sent[0], TransportMessage::Notification(Notification::Cancelled(p)) if p.request_id == id), "one cancelled notification for that request", &format!("{:?}", sent));
                    check(&d, &!fails, &got.is_ok());
                },
                1 => {
                    let got = rt.block_on(c.send_roots_list_changed());
                    let sent: Vec<TransportMessage> = st.lock().unwrap().sent[before..].to_vec();
                    let d = format!("{}; send_roots_list_changed", d0);
                    if !m.init { ensure(&d, matches!(got, Err(Error::InvalidState(_))) && sent.is_empty(), "refused", &format!("{:?} {:?}", got, sent)); }
                    else if m.roots == Some(false) { ensure(&d, matches!(got, Err(Error::UnsupportedCapability(_))) && sent.is_empty(), "refused", &format!("{:?} {:?}", got, sent)); }
                    else if m.roots == Some(true) { ensure(&d, got.is_ok() != fails && sent.len() == 1 && matches!(&sent[0], TransportMessage::Notification(Notification::Client(ClientNotification::RootsListChanged))), "sent", &format!("{:?} {:?}", got, sent)); }
                },
                2 => {
                    let p: ProgressNotification = serde_json::from_value(json!({"progressToken": "t", "progress": r.below(50) as f64})).unwrap();
                    let got = rt.block_on(c.send_progress(p.clone()));
                    let sent: Vec<TransportMessage> = st.lock().unwrap().sent[before..].to_vec();
                    ensure(&format!("{}; send_progress({:?})", d0, p), got.is_ok() != fails && sent.len() == 1 && matches!(&sent[0], TransportMessage::Notification(Notification::Progress(q)) if serde_json::to_value(q).unwrap() == serde_json::to_value(&p).unwrap()), "sent", &format!("{:?} {:?}", got, sent));
                },
                _ => {
                    let sch = r.pick(&["none", "bearer", "oAuth2", "other"]).to_string();
                    let sch: AuthScheme = match sch.as_str() { "none" => AuthScheme::None, "bearer" => AuthScheme::Bearer, "oAuth2" => AuthScheme::OAuth2, _ => AuthScheme::Custom("x".into()) };
                    let tok = r.chance(50);
                    let a = AuthInfo { scheme: sch.clone(), token: if tok { Some(String::new()) } else { None }, oauth: None, params: HashMap::new() };
                    let got = c.authenticate(&a);
                    let sent: Vec<TransportMessage> = st.lock().unwrap().sent[before..].to_vec();
                    let d = format!("{}; authenticate({:?})", d0, a);
                    let ok = match sch { AuthScheme::Bearer => tok, AuthScheme::OAuth2 => false, _ => true };
                    if !m.init { ensure(&d, matches!(got, Err(Error::InvalidState(_))), "refused", &format!("{:?}", got)); } else { check(&d, &ok, &got.is_ok()); }
                    ensure(&d, sent.is_empty(), "nothing sent", &format!("{:?}", sent));
                },
            }
        }
        let d = hist.join("; ");
        check(&format!("{}; server capabilities", d), &serde_json::to_value(&m.caps).unwrap(), &serde_json::to_value(c.get_server_capabilities()).unwrap());
        check(&format!("{}; server version", d), &serde_json::to_value(&m.version).unwrap(), &serde_json::to_value(c.get_server_version()).unwrap());
        check(&format!("{}; instructions", d), &m.instructions.as_deref(), &c.get_instructions());
    }
}
fn matches_err(w: &str, got: &Result<Value, Error>) -> bool {
    match (w, got) {
        ("Err(protocol", Err(Error::Protocol { .. })) => true,
        ("Err(code -32700", Err(Error::Protocol { code, .. })) => code.as_i32() == -32700,
        (w, g) => w == text(g),
    }
}
fn check_request(d: &str, sent: &[TransportMessage], ids: &mut HashSet<String>, q: &Value) {
    match sent.first() {
        Some(TransportMessage::Request { id: RequestId::String(i), request: Request::Client(c) }) => {
            check(d, q, &serde_json::to_value(c).unwrap());
            ensure(d, !i.is_empty() && ids.insert(i.clone()), "a request id never used before", i);
        },
        o => ensure(d, false, &format!("request {}", q), &format!("{:?}", o)),
    }
}
fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => { let b: std::collections::BTreeMap<_, _> = m.iter().collect(); format!("{{{}}}", b.iter().map(|(k, v)| format!("{:?}:{}", k, canon(v))).collect::<Vec<_>>().join(",")) },
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        o => o.to_string(),
    }
}
/// an object with some of the given members, or all, or none
fn part(r: &mut Rng, ms: Vec<(&str, Value)>) -> Value {
    let c = *r.pick(&[0, 50, 50, 100]);
    let mut m = json!({});
    for (k, v) in ms { if r.chance(c) { m[k] = v; } }
    m
}
fn with(mut a: Value, b: Value) -> Value { for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); } a }
fn t(r: &mut Rng) -> Value { json!(g_text(r)) }
fn many(r: &mut Rng, f: fn(&mut Rng) -> Value) -> Value { let n = r.below(4); Value::Array((0..n).map(|_| f(r)).collect()) }
fn content(r: &mut Rng) -> Value {
    match r.below(3) {
        0 => json!({"type": "text", "text": t(r)}),
        1 => json!({"type": "image", "data": t(r), "mimeType": t(r)}),
        _ => { let (a, b) = (t(r), t(r)); with(json!({"type": "resource", "uri": t(r)}), part(r, vec![("text", a), ("mimeType", b)])) },
    }
}
fn page(r: &mut Rng, k: &str, f: fn(&mut Rng) -> Value) -> Value { let (l, c) = (many(r, f), t(r)); with(json!({k: l}), part(r, vec![("nextCursor", c)])) }
fn tool(r: &mut Rng) -> Value { let d = t(r); with(json!({"name": t(r), "inputSchema": g_json(r, 2)}), part(r, vec![("description", d)])) }
fn arg(r: &mut Rng) -> Value { let d = t(r); with(json!({"name": t(r), "required": r.chance(50)}), part(r, vec![("description", d)])) }
fn prompt(r: &mut Rng) -> Value { let (d, a) = (t(r), many(r, arg)); with(json!({"name": t(r)}), part(r, vec![("description", d), ("arguments", a)])) }
fn message(r: &mut Rng) -> Value { json!({"role": *r.pick(&["user", "assistant", "system"]), "content": content(r)}) }
fn resource(r: &mut Rng) -> Value { let (a, b) = (t(r), t(r)); with(json!({"uri": t(r), "name": t(r)}), part(r, vec![("description", a), ("mimeType", b)])) }
fn template(r: &mut Rng) -> Value { let (a, b) = (t(r), t(r)); with(json!({"uriTemplate": t(r), "name": t(r)}), part(r, vec![("description", a), ("mimeType", b)])) }
/// every member of every answer comes back as the server wrote it
fn whole(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let st = Arc::new(Mutex::new(St::default()));
    let mut c = Client::new(Wire(st.clone()));
    let mut b = |r: &mut Rng| { let v = json!(r.chance(50)); part(r, vec![("listChanged", v)]) };
    let (lv, md, ex) = (many(r, t), many(r, t), json!({g_text(r): 1}));
    let (lo, sa) = (part(r, vec![("levels", lv)]), part(r, vec![("models", md)]));
    let caps = with(json!({"tools": b(r), "prompts": b(r), "resources": with(b(r), json!({"subscribe": true})), "logging": lo, "completions": {}, "sampling": sa}), part(r, vec![("experimental", ex)]));
    let (ins, sv) = (t(r), json!({"name": t(r), "version": t(r)}));
    let init = with(json!({"protocolVersion": *r.pick(&VERSIONS), "capabilities": caps, "serverInfo": sv}), part(r, vec![("instructions", ins)]));
    let d = format!("initialize answered by {}", init);
    st.lock().unwrap().script = [Play::Result(init.clone())].into_iter().collect();
    let got = shown(rt.block_on(c.initialize(ClientCapabilities::default())));
    check(&d, format!("Ok({})", canon(&init)), match &got { Ok(v) => format!("Ok({})", canon(v)), e => text(e) });
    check(&format!("{}: capabilities", d), canon(&caps), canon(&serde_json::to_value(c.get_server_capabilities()).unwrap()));
    check(&format!("{}: server", d), canon(&sv), canon(&serde_json::to_value(c.get_server_version()).unwrap()));
    check(&format!("{}: instructions", d), init.get("instructions").and_then(|x| x.as_str()), c.get_instructions());
    for k in 0..9 {
        let ans = match k {
            0 => page(r, "tools", tool),
            1 => json!({"content": many(r, content), "isError": r.chance(50)}),
            2 => page(r, "prompts", prompt),
            3 => { let d = t(r); with(json!({"messages": many(r, message)}), part(r, vec![("description", d)])) },
            4 => page(r, "resources", resource),
            5 => page(r, "resourceTemplates", template),
            6 => json!({"contents": many(r, content)}),
            7 => { let n = json!(r.below(300)); json!({"completion": with(json!({"values": many(r, t), "hasMore": r.chance(50)}), part(r, vec![("total", n)]))}) },
            _ => { let (u, e) = (json!({"inputTokens": r.below(99), "outputTokens": r.below(99), "totalTokens": u32::MAX}), t(r)); with(json!({"content": content(r), "model": t(r)}), part(r, vec![("usage", u), ("stopReason", e)])) },
        };
        st.lock().unwrap().script = [Play::Result(ans.clone())].into_iter().collect();
        let got = match k {
            0 => shown(rt.block_on(c.list_tools(None))),
            1 => shown(rt.block_on(c.call_tool("x".into(), json!({})))),
            2 => shown(rt.block_on(c.list_prompts(None))),
            3 => shown(rt.block_on(c.get_prompt("x".into(), HashMap::new()))),
            4 => shown(rt.block_on(c.list_resources(None))),
            5 => shown(rt.block_on(c.list_resource_templates(None))),
            6 => shown(rt.block_on(c.read_resource("u".into()))),
            7 => shown(rt.block_on(c.complete(serde_json::from_value(json!({"ref": {"type": "ref/resource", "uri": "u"}, "argument": {"name": "n", "value": "v"}})).unwrap()))),
            _ => shown(rt.block_on(c.create_message(serde_json::from_value(json!({"messages": [], "includeContext": "none"})).unwrap()))),
        };
        check(&format!("{} answered by {}", ["list_tools", "call_tool", "list_prompts", "get_prompt", "list_resources", "list_resource_templates", "read_resource", "complete", "create_message"][k], ans), format!("Ok({})", canon(&ans)), match &got { Ok(v) => format!("Ok({})", canon(v)), e => text(e) });
    }
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(24);
    while time_left() {
        case("client session", true, || run(&rt, &mut r));
        case("client reading whole answers", true, || whole(&rt, &mut r));
    }
    done();
}
