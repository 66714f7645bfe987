#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::protocol_helpers::{create_notification, create_request, parse_notification, parse_request};
use pmcp::types::{ClientNotification, ClientRequest, JSONRPCRequest, Notification, Request, RequestId, ServerNotification, ServerRequest};
use serde_json::{json, Value};

fn text(r: &mut Rng) -> String { if r.chance(40) { return g_text(r); } r.pick(&["", "a", "x y", "file:///a b?c#d", "é", "\u{1F600}", "\"", "\\", "\n", "null", "tools/list", "0"]).to_string() }
fn any(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 6 } else { 8 }) {
        0 => Value::Null, 1 => json!(true), 2 => json!(r.next() as i64), 3 => json!(text(r)), 4 => json!(1.5), 5 => json!({}),
        6 => { let n = r.below(3); Value::Array((0..n).map(|_| any(r, d - 1)).collect()) },
        _ => { let n = r.below(3); let mut m = serde_json::Map::new(); for _ in 0..n { let k = text(r); let v = any(r, d - 1); m.insert(k, v); } Value::Object(m) },
    }
}
fn opt(r: &mut Rng, m: &mut Value, k: &str, v: Value) { if r.chance(50) { m[k] = v; } }
fn cursor(r: &mut Rng) -> Value { let mut m = json!({}); let t = text(r); opt(r, &mut m, "cursor", json!(t)); m }
fn id(r: &mut Rng) -> RequestId { match r.below(5) { 0 => RequestId::String(text(r)), 1 => RequestId::Number(0), 2 => RequestId::Number(i64::MIN), 3 => RequestId::Number(i64::MAX), _ => RequestId::Number(r.next() as i64) } }
fn progress(r: &mut Rng) -> Value {
    let tok = if r.chance(50) { json!(text(r)) } else { json!(r.below(100)) };
    let mut m = json!({"progressToken": tok, "progress": *r.pick(&[0.0, 50.0, 0.25, 1e300])}); let t = text(r); opt(r, &mut m, "message", json!(t)); m
}
fn num(r: &mut Rng) -> Value { json!(*r.pick(&[0.0, 0.5, -1.25, 100.0, 1e300])) }
fn texts(r: &mut Rng) -> Value { let n = r.below(3); json!((0..n).map(|_| text(r)).collect::<Vec<_>>()) }
/// a value other than null: an optional value that is null may come back as absent
fn some(r: &mut Rng) -> Value { loop { let v = any(r, 2); if !v.is_null() { return v; } } }
/// an object with some of the given members, or all, or none
fn part(r: &mut Rng, ms: Vec<(&str, Value)>) -> Value {
    let c = *r.pick(&[0, 50, 50, 100]);
    let mut m = json!({});
    for (k, v) in ms { if r.chance(c) { m[k] = v; } }
    m
}
fn content(r: &mut Rng) -> Value {
    match r.below(3) {
        0 => json!({"type": "text", "text": text(r)}),
        1 => json!({"type": "image", "data": text(r), "mimeType": text(r)}),
        _ => { let (t, m) = (json!(text(r)), json!(text(r))); let mut x = part(r, vec![("text", t), ("mimeType", m)]); x["type"] = json!("resource"); x["uri"] = json!(text(r)); x },
    }
}
fn sampling(r: &mut Rng) -> Value {
    let n = r.below(4);
    let ms: Vec<Value> = (0..n).map(|_| json!({"role": *r.pick(&["user", "assistant", "system"]), "content": content(r)})).collect();
    let n = r.below(3);
    let hints: Vec<Value> = (0..n).map(|_| { let t = json!(text(r)); part(r, vec![("name", t)]) }).collect();
    let (c, sp, i) = (num(r), num(r), num(r));
    let prefs = part(r, vec![("hints", json!(hints)), ("costPriority", c), ("speedPriority", sp), ("intelligencePriority", i)]);
    let (t, u, st, md) = (json!(text(r)), num(r), texts(r), some(r));
    let mt = json!(*r.pick(&[0u32, 7, u32::MAX]));
    let mut m = part(r, vec![("modelPreferences", prefs), ("systemPrompt", t), ("temperature", u), ("maxTokens", mt), ("stopSequences", st), ("metadata", md)]);
    m["messages"] = json!(ms);
    m["includeContext"] = json!(*r.pick(&["all", "none", "thisServerOnly"]));
    m
}
fn caps(r: &mut Rng) -> Value {
    let mut b = || { let v = json!(r.chance(50)); part(r, vec![("listChanged", v)]) };
    let (t, p) = (b(), b());
    let (s, l) = (json!(r.chance(50)), json!(r.chance(50)));
    let res = part(r, vec![("subscribe", s), ("listChanged", l)]);
    let (l, m) = (texts(r), texts(r));
    let (lo, sa) = (part(r, vec![("levels", l)]), part(r, vec![("models", m)]));
    let ro = json!({"listChanged": r.chance(50)});
    let ex = json!({text(r): any(r, 1)});
    part(r, vec![("tools", t), ("prompts", p), ("resources", res), ("logging", lo), ("sampling", sa), ("roots", ro), ("experimental", ex)])
}
const INPUTS: &[&str] = &["text", "textarea", "boolean", "number", "select", "multiSelect", "filePath", "directoryPath", "password", "date", "time", "dateTime", "color", "url", "email"];
fn elicit(r: &mut Rng) -> Value {
    let n = r.below(3);
    let os: Vec<Value> = (0..n).map(|_| { let d = json!(text(r)); let mut o = part(r, vec![("description", d)]); o["value"] = any(r, 1); o["label"] = json!(text(r)); o["disabled"] = json!(r.chance(50)); o }).collect();
    let (a, b, p, m) = (num(r), num(r), json!(text(r)), json!(text(r)));
    let mut v = part(r, vec![("min", a), ("max", b), ("pattern", p), ("options", json!(os)), ("message", m)]);
    v["required"] = json!(r.chance(50));
    let (d, x, e, f) = (json!(text(r)), some(r), any(r, 1), any(r, 1));
    let mut q = part(r, vec![("description", d), ("default", x), ("validation", v), ("x-extra", e), ("priority", f)]);
    q["elicitationId"] = json!(text(r)); q["inputType"] = json!(*r.pick(INPUTS)); q["prompt"] = json!(text(r));
    q
}
/// (kind, method, params or Null)
fn sample(r: &mut Rng) -> (char, &'static str, Value) {
    match r.below(29) {
        0 => ('c', "initialize", json!({"protocolVersion": text(r), "capabilities": caps(r), "clientInfo": {"name": text(r), "version": text(r)}})),
        1 => ('c', "tools/list", cursor(r)),
        2 => ('c', "tools/call", json!({"name": text(r), "arguments": any(r, 2)})),
        3 => ('c', "prompts/list", cursor(r)),
        4 => ('c', "prompts/get", json!({"name": text(r), "arguments": if r.chance(30) { json!({}) } else { json!({text(r): text(r), text(r): text(r)}) }})),
        5 => ('c', "resources/list", cursor(r)),
        6 => ('c', "resources/templates/list", cursor(r)),
        7 => ('c', "resources/read", json!({"uri": text(r)})),
        8 => ('c', "resources/subscribe", json!({"uri": text(r)})),
        9 => ('c', "resources/unsubscribe", json!({"uri": text(r)})),
        10 => ('c', "completion/complete", json!({"ref": if r.chance(50) { json!({"type": "ref/resource", "uri": text(r)}) } else { json!({"type": "ref/prompt", "name": text(r)}) }, "argument": {"name": text(r), "value": text(r)}})),
        11 => ('c', "logging/setLevel", json!({"level": *r.pick(&["debug", "info", "warning", "error", "critical"])})),
        12 => ('c', "ping", Value::Null),
        13 => ('c', "sampling/createMessage", sampling(r)),
        14 => ('c', "elicitation/response", { let mut m = json!({"elicitationId": text(r), "cancelled": r.chance(50)}); let (v, e) = (some(r), json!(text(r))); opt(r, &mut m, "value", v); opt(r, &mut m, "error", e); m }),
        15 => ('s', "sampling/createMessage", sampling(r)),
        16 => ('s', "roots/list", Value::Null),
        17 => ('s', "elicitation/elicitInput", elicit(r)),
        18 => ('n', "notifications/initialized", Value::Null),
        19 => ('n', "notifications/roots/list_changed", Value::Null),
        20 => ('n', "notifications/cancelled", { let mut m = json!({"requestId": serde_json::to_value(id(r)).unwrap()}); let t = text(r); opt(r, &mut m, "reason", json!(t)); m }),
        21 => ('n', "notifications/progress", progress(r)),
        22 => ('m', "notifications/progress", progress(r)),
        23 => ('m', "notifications/tools/list_changed", Value::Null),
        24 => ('m', "notifications/prompts/list_changed", Value::Null),
        25 => ('m', "notifications/resources/list_changed", Value::Null),
        26 => ('m', "notifications/roots/list_changed", Value::Null),
        27 => ('m', "notifications/resources/updated", json!({"uri": text(r)})),
        _ => ('m', "notifications/message", { let mut m = json!({"level": *r.pick(&["debug", "info", "warning", "error"]), "message": text(r)}); let (t, d) = (json!(text(r)), some(r)); opt(r, &mut m, "logger", t); opt(r, &mut m, "data", d); m }),
    }
}
fn tagged(m: &str, p: &Value) -> Value { if p.is_null() { json!({"method": m}) } else { json!({"method": m, "params": p}) } }
fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => { let b: std::collections::BTreeMap<_, _> = m.iter().collect(); format!("{{{}}}", b.iter().map(|(k, v)| format!("{:?}:{}", k, canon(v))).collect::<Vec<_>>().join(",")) },
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        o => o.to_string(),
    }
}
fn show<T: serde::Serialize>(x: &T) -> String { canon(&serde_json::to_value(x).unwrap()) }
fn show_req(q: &Request) -> String { match q { Request::Client(x) => format!("Client {}", show(x)), Request::Server(x) => format!("Server {}", show(x)) } }
fn show_not(q: &Notification) -> String {
    match q { Notification::Client(x) => format!("Client {}", show(x)), Notification::Server(x) => format!("Server {}", show(x)), Notification::Progress(x) => format!("Progress {}", show(x)), Notification::Cancelled(x) => format!("Cancelled {}", show(x)) }
}
fn run(r: &mut Rng) {
    let (k, m, p) = sample(r);
    let i = id(r);
    let desc = format!("{} message {} with params {}, id {:?}", match k { 'c' => "client request", 's' => "server request", 'n' => "client notification", _ => "server notification" }, m, p, i);
    case(&desc, !p.is_null(), || {
        let want = tagged(m, &p);
        let bad = |w: &str| -> ! { cex(&desc, "the message is a message of the protocol", w) };
        match k {
            'c' | 's' => {
                let req = if k == 'c' { Request::Client(Box::new(serde_json::from_value::<ClientRequest>(want.clone()).unwrap_or_else(|e| bad(&e.to_string())))) }
                    else { Request::Server(Box::new(serde_json::from_value::<ServerRequest>(want.clone()).unwrap_or_else(|e| bad(&e.to_string())))) };
                let shown = match (&req, m) { (Request::Server(x), "sampling/createMessage") => format!("Client {}", show(x)), _ => show_req(&req) };
                let j = create_request(i.clone(), req);
                check(&format!("{}: created jsonrpc, id, method", desc), ("2.0".to_string(), i.clone(), m.to_string()), (j.jsonrpc.clone(), j.id.clone(), j.method.clone()));
                let wire = serde_json::to_string(&j).unwrap();
                let v: Value = serde_json::from_str(&wire).unwrap();
                check(&format!("{}: params on the wire", desc), &p, v.get("params").unwrap_or(&Value::Null));
                let back: JSONRPCRequest = serde_json::from_str(&wire).unwrap();
                match parse_request(back) {
                    Ok((i2, q)) => { check(&format!("{}: read back from {}", desc, wire), (i, shown), (i2, show_req(&q))) },
                    Err(e) => cex(&format!("{}: read back from {}", desc, wire), &shown, &e.to_string()),
                }
            },
            _ => {
                let (n, shown) = if k == 'n' {
                    let x = serde_json::from_value::<ClientNotification>(want.clone()).unwrap_or_else(|e| bad(&e.to_string()));
                    let s = match &x { ClientNotification::Cancelled(c) => format!("Cancelled {}", show(c)), ClientNotification::Progress(c) => format!("Progress {}", show(c)), _ => format!("Client {}", show(&x)) };
                    (Notification::Client(x), s)
                } else {
                    let x = serde_json::from_value::<ServerNotification>(want.clone()).unwrap_or_else(|e| bad(&e.to_string()));
                    let s = match &x { ServerNotification::Progress(c) => format!("Progress {}", show(c)), ServerNotification::RootsListChanged => format!("Client {}", show(&x)), _ => format!("Server {}", show(&x)) };
                    (Notification::Server(x), s)
                };
                let n = match n { Notification::Client(ClientNotification::Cancelled(c)) if i == RequestId::Number(0) => Notification::Cancelled(c), Notification::Server(ServerNotification::Progress(c)) if i == RequestId::Number(0) => Notification::Progress(c), n => n };
                let j = create_notification(n);
                check(&format!("{}: created jsonrpc, method", desc), ("2.0".to_string(), m.to_string()), (j.jsonrpc.clone(), j.method.clone()));
                let v: Value = serde_json::to_value(&j).unwrap();
                check(&format!("{}: params on the wire", desc), &p, v.get("params").unwrap_or(&Value::Null));
                match parse_notification(v.clone()) {
                    Ok(q) => check(&format!("{}: read back from {}", desc, v), shown, show_not(&q)),
                    Err(e) => cex(&format!("{}: read back from {}", desc, v), &shown, &e.to_string()),
                }
            },
        }
    })
}
/// near-miss method names and parameters that fit nothing
fn misses(r: &mut Rng) {
    let (_, m, p) = sample(r);
    let m2 = near(r, m);
    let desc = format!("request with method {:?} and params {}", m2, p);
    case(&desc, true, || {
        let q = JSONRPCRequest { jsonrpc: "2.0".into(), id: RequestId::Number(1), method: m2.clone(), params: Some(p.clone()) };
        match parse_request(q) {
            Err(e) => ensure(&desc, e.error_code().map(|c| c.as_i32()) == Some(-32601), "error -32601", e.to_string()),
            Ok((_, x)) => cex(&desc, "error -32601 (method not found)", &show_req(&x)),
        }
        ensure(&desc, parse_notification(json!({"jsonrpc": "2.0", "method": m2, "params": p})).is_err(), "no such notification", "it is read");
    });
    let desc = format!("request method {:?} with params 5", m);
    case(&desc, true, || {
        let q = JSONRPCRequest { jsonrpc: "2.0".into(), id: RequestId::Number(1), method: m.to_string(), params: Some(json!(5)) };
        ensure(&desc, parse_request(q).is_err(), "an error", "it is read");
    });
}
fn main() {
    start();
    let mut r = Rng::new(8);
    while time_left() { for _ in 0..50 { run(&mut r); } for _ in 0..10 { misses(&mut r); } }
    done()
}
