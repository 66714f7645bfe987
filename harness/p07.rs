#[path = "common.rs"]
mod common;
use common::*;
use pmcp::types::jsonrpc::{MessageType, RawMessage, ResponsePayload};
use pmcp::types::{JSONRPCError, JSONRPCNotification, JSONRPCRequest, JSONRPCResponse, RequestId};
use serde_json::{json, Value};
fn text(r: &mut Rng) -> String { if r.chance(50) { r.pick(&["", "a", "é", "null", "1", "2.0", "-32603", "\"", "result"]).to_string() } else { g_text(r) } }
fn id(r: &mut Rng) -> RequestId { match r.below(5) { 0 => RequestId::String(text(r)), 1 => RequestId::Number(0), 2 => RequestId::Number(i64::MIN), 3 => RequestId::Number(i64::MAX), _ => RequestId::Number(r.next() as i64) } }
fn val(r: &mut Rng) -> Value { match r.below(6) { 0 => json!({}), 1 => json!([]), 2 => json!(false), 3 => json!(text(r)), 4 => json!({"error": 1}), _ => loop { let v = g_json(r, 2); if !v.is_null() { break v; } } } }
fn table(i: bool, m: bool, r: bool, e: bool) -> MessageType {
    match (i, m, r, e) { (true, true, false, false) => MessageType::Request, (false, true, false, false) => MessageType::Notification, (true, false, true, false) => MessageType::Response, (true, false, false, true) => MessageType::ErrorResponse, _ => MessageType::Invalid }
}
fn main() {
    start();
    let mut r = Rng::new(7);
    while time_left() {
        for bits in 0..32u32 {
            let b = |k: u32| bits & (1 << k) != 0;
            let mut o = serde_json::Map::new();
            o.insert("jsonrpc".into(), json!("2.0"));
            if b(0) { o.insert("id".into(), serde_json::to_value(id(&mut r)).unwrap()); }
            if b(1) { o.insert("method".into(), json!(text(&mut r))); }
            if b(2) { o.insert("result".into(), val(&mut r)); }
            if b(3) { o.insert("error".into(), json!({"code": r.next() as i32, "message": text(&mut r)})); }
            if b(4) { o.insert("params".into(), val(&mut r)); }
            let t = serde_json::to_string(&Value::Object(o)).unwrap();
            case(&t, true, || {
                let m: RawMessage = serde_json::from_str(&t).unwrap_or_else(|e| cex(&t, "a message", &e.to_string()));
                check(&t, table(b(0), b(1), b(2), b(3)), m.message_type());
                if b(0) && b(2) && !b(3) && !b(1) {
                    let x: JSONRPCResponse = serde_json::from_str(&t).unwrap_or_else(|e| cex(&t, "a success response", &e.to_string()));
                    ensure(&t, x.is_success() && !x.is_error(), "is_success", "is_error");
                }
            });
        }
        let (i, v, c, t) = (id(&mut r), val(&mut r), r.next() as i32, text(&mut r));
        let desc = format!("response with id {:?}, value {}, code {}, message {:?}", i, v, c, t);
        case(&desc, true, || {
            let s: JSONRPCResponse = JSONRPCResponse::success(i.clone(), v.clone());
            let e: JSONRPCResponse = JSONRPCResponse::error(i.clone(), JSONRPCError::new(c, t.clone()));
            check(&desc, (true, false, Some(&v), true), (s.is_success(), s.is_error(), s.result(), s.get_error().is_none()));
            check(&desc, (false, true, None, Some((c, &t))), (e.is_success(), e.is_error(), e.result(), e.get_error().map(|x| (x.code, &x.message))));
            check(&desc, json!({"jsonrpc": "2.0", "id": i, "result": v}), serde_json::to_value(&s).unwrap());
            check(&desc, json!({"jsonrpc": "2.0", "id": i, "error": {"code": c, "message": t}}), serde_json::to_value(&e).unwrap());
            for (x, want) in [(&s, MessageType::Response), (&e, MessageType::ErrorResponse)] {
                let w = serde_json::to_string(x).unwrap();
                check(&w, want, serde_json::from_str::<RawMessage>(&w).unwrap().message_type());
                let back: JSONRPCResponse = serde_json::from_str(&w).unwrap();
                check(&w, (x.id.clone(), x.is_success()), (back.id.clone(), matches!(back.payload, ResponsePayload::Result(_))));
            }
            let d = JSONRPCError::with_data(c, t.clone(), v.clone());
            check(&desc, (c, t.clone(), Some(v.clone())), (d.code, d.message, d.data));
            let q: JSONRPCRequest = JSONRPCRequest::new(i.clone(), t.clone(), Some(v.clone()));
            check(&desc, ("2.0", &i, &t, Some(&v), true), (q.jsonrpc.as_str(), &q.id, &q.method, q.params.as_ref(), q.validate().is_ok()));
            let n: JSONRPCNotification = JSONRPCNotification::new(t.clone(), Some(v.clone()));
            check(&desc, ("2.0", &t, Some(&v)), (n.jsonrpc.as_str(), &n.method, n.params.as_ref()));
            let w = serde_json::to_string(&q).unwrap();
            check(&w, MessageType::Request, serde_json::from_str::<RawMessage>(&w).unwrap().message_type());
            let w = serde_json::to_string(&n).unwrap();
            check(&w, MessageType::Notification, serde_json::from_str::<RawMessage>(&w).unwrap().message_type());
        });
        for ver in ["2.0", "2", "1.0", "", "2.0 ", " 2.0", "2.00", "3.0", "2.1"] {
            let q: JSONRPCRequest = JSONRPCRequest { jsonrpc: ver.into(), id: i.clone(), method: t.clone(), params: None };
            let d = format!("validate() of a request of version {:?}", ver);
            case(&d, true, || check(&d, ver == "2.0", q.validate().is_ok()));
        }
        for n in [0u64, 1, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, r.next()] {
            let d = format!("RequestId::from({}u64)", n);
            case(&d, true, || check(&d, RequestId::Number(n.min(i64::MAX as u64) as i64), RequestId::from(n)));
        }
        let n = r.next() as i64;
        case("RequestId::from i64, &str, String", true, || {
            check(&format!("RequestId::from({}i64)", n), RequestId::Number(n), RequestId::from(n));
            check(&format!("RequestId::from({:?})", t), RequestId::String(t.clone()), RequestId::from(t.as_str()));
            check(&format!("RequestId::from(String {:?})", t), RequestId::String(t.clone()), RequestId::from(t.clone()));
        });
    }
    done()
}
