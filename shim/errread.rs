// ---- shim/errread.rs: how a received JSON-RPC error is read (extracted and verified; the property of p09) ----
/// the codes with a meaning of their own
pub open spec fn named(c: int) -> bool {
    c == -32700 || c == -32600 || c == -32601 || c == -32602 || c == -32603 || c == -32001 || c == -32002 || c == -32003 || c == -32004
}
/// what a received code is read as: itself, except that the rest of the server range reads as an internal error
pub open spec fn read_code(c: int) -> int { if !named(c) && -32099 <= c <= -32000 { -32603 } else { c } }
pub open spec fn consts_ok() -> bool {
    ErrorCode::PARSE_ERROR.0 == -32700 && ErrorCode::INVALID_REQUEST.0 == -32600 && ErrorCode::METHOD_NOT_FOUND.0 == -32601 && ErrorCode::INVALID_PARAMS.0 == -32602
    && ErrorCode::INTERNAL_ERROR.0 == -32603 && ErrorCode::REQUEST_TIMEOUT.0 == -32001 && ErrorCode::UNSUPPORTED_CAPABILITY.0 == -32002
    && ErrorCode::AUTHENTICATION_REQUIRED.0 == -32003 && ErrorCode::PERMISSION_DENIED.0 == -32004
}
proof fn lemma_consts() ensures consts_ok() { }
//@fn ErrorCode::other ret=r
    ensures r.0 == code
//@end
//@fn ErrorCode::as_i32 ret=r
    ensures r == self.0
//@end
//@fn ErrorCode::standard_jsonrpc_error ret=r
    ensures r == (if code == -32700 || code == -32600 || code == -32601 || code == -32602 || code == -32603 { Some(ErrorCode(code)) } else { None::<ErrorCode> })
//@end
//@fn ErrorCode::mcp_specific_error ret=r
    ensures r == (if code == -32001 || code == -32002 || code == -32003 || code == -32004 { Some(ErrorCode(code)) } else { None::<ErrorCode> })
//@end
//@fn ErrorCode::is_server_error_range ret=r
    ensures r == (-32099 <= code <= -32000)
//@end
//@fn ErrorCode::from_i32 ret=r
    ensures r.0 as int == read_code(code as int)
//@end
//@extract src/error/mod.rs impl:ErrorCode::{other,as_i32,standard_jsonrpc_error,mcp_specific_error,is_server_error_range,from_i32}
//@fn Error::from_jsonrpc_error ret=r
    ensures r is Protocol, r->Protocol_code.0 as int == read_code(error.code as int), r->Protocol_message == error.message, r->Protocol_data == error.data
//@end
//@extract src/error/mod.rs impl:Error::{from_jsonrpc_error}
