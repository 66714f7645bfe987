#[path = "common.rs"]
mod common;
use common::*;
use pmcp::error::{Error, ErrorCode, TransportError};
use pmcp::types::JSONRPCError;
use serde_json::{json, Value};
const NAMED: [i32; 9] = [-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004];
fn reads(c: i32) -> i32 { if !NAMED.contains(&c) && (-32099..=-32000).contains(&c) { -32603 } else { c } }
fn parts(e: &Error) -> Option<(i32, String, Option<Value>)> { match e { Error::Protocol { code, message, data } => Some((code.as_i32(), message.clone(), data.clone())), _ => None } }
fn main() {
    start();
    let mut r = Rng::new(9);
    let mut codes: Vec<i32> = (-32800..-31900).collect();
    codes.extend([0, 1, -1, i32::MIN, i32::MAX, -32000, -32099, -32100, -31999, 32603]);
    while time_left() {
        let extra: Vec<i32> = (0..200).map(|_| r.next() as i32).collect();
        for &c in codes.iter().chain(&extra) {
            let d = format!("error code {}", c);
            let (t, v) = (g_text(&mut r), if r.chance(50) { Some(if r.chance(50) { json!({"k": c}) } else { g_json(&mut r, 2) }) } else { None });
            case(&d, true, || {
                check(&format!("ErrorCode::from_i32({})", c), reads(c), ErrorCode::from_i32(c).as_i32());
                check(&format!("ErrorCode::other({})", c), c, ErrorCode::other(c).as_i32());
                let j = JSONRPCError { code: c, message: t.clone(), data: v.clone() };
                let e = Error::from_jsonrpc_error(j);
                check(&format!("from_jsonrpc_error, code {} message {:?} data {:?}", c, t, v), Some((reads(c), t.clone(), v.clone())), parts(&e));
                let e = match &v { Some(v) => Error::protocol_with_data(ErrorCode::other(c), t.clone(), v.clone()), None => Error::protocol(ErrorCode::other(c), t.clone()) };
                check(&format!("is_error_code({})", c), (true, false), (e.is_error_code(ErrorCode::other(c)), e.is_error_code(ErrorCode::other(c ^ 1))));
                check(&format!("error_code of {}", c), Some(c), e.error_code().map(|x| x.as_i32()));
                let back = JSONRPCError::from(e);
                check(&format!("JSONRPCError::from a protocol error, code {} message {:?} data {:?}", c, t, v), (c, t.clone(), v.clone()), (back.code, back.message, back.data));
            });
        }
        let t = if r.chance(30) { r.pick(&["", "x", "é", "Protocol error", "-32601"]).to_string() } else { g_text(&mut r) };
        let mk: Vec<(&str, Error, Option<(i32, String)>)> = vec![
            ("parse", Error::parse(t.clone()), Some((-32700, t.clone()))),
            ("invalid_request", Error::invalid_request(t.clone()), Some((-32600, t.clone()))),
            ("method_not_found", Error::method_not_found(t.clone()), Some((-32601, format!("Method not found: {}", t)))),
            ("invalid_params", Error::invalid_params(t.clone()), Some((-32602, t.clone()))),
            ("protocol_msg", Error::protocol_msg(t.clone()), Some((-32603, t.clone()))),
            ("internal", Error::internal(t.clone()), None), ("validation", Error::validation(t.clone()), None), ("not_found", Error::not_found(t.clone()), None),
            ("authentication", Error::authentication(t.clone()), None), ("capability", Error::capability(t.clone()), None), ("resource_not_found", Error::resource_not_found(t.clone()), None),
            ("cancelled", Error::cancelled(t.clone()), None), ("Timeout", Error::Timeout(7), None), ("Cancelled", Error::Cancelled, None), ("InvalidState", Error::InvalidState(t.clone()), None),
            ("Transport", Error::Transport(TransportError::Request(t.clone())), None), ("ConnectionClosed", Error::Transport(TransportError::ConnectionClosed), None),
        ];
        for (n, e, want) in mk {
            let d = format!("Error::{}({:?})", n, t);
            case(&d, true, || {
                check(&d, want.clone().map(|w| (w.0, w.1, None)), parts(&e));
                let text = e.to_string();
                let j = JSONRPCError::from(e);
                check(&format!("JSONRPCError::from({})", d), match want { Some((c, m)) => (c, m, None), None => (-32603, text, None) }, (j.code, j.message, j.data));
            });
        }
    }
    done()
}
