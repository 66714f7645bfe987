// ---- shim/errctor.rs: constructors of the crate's error type, extracted and verified ----
//@include err.rs
pub open spec fn proto(e: Error, c: int, m: Seq<u8>) -> bool { e is Protocol && e->Protocol_code.0 == c && e->Protocol_message@ == m && e->Protocol_data is None }
pub open spec fn code_of(e: Error) -> Option<ErrorCode> {
    match e { Error::Protocol { code, message, data } => Some(code), _ => None }
}
//@fn Error::protocol ret=r noprobe
    ensures proto(r, code.0 as int, message.txt())
//@end
//@fn Error::protocol_msg ret=r noprobe
    ensures proto(r, -32603, message.txt())
//@end
//@fn Error::validation ret=r noprobe
    ensures r is Validation, r->Validation_0@ == message.txt()
//@end
//@fn Error::internal ret=r noprobe
    ensures r is Internal, r->Internal_0@ == message.txt()
//@end
//@fn Error::not_found ret=r noprobe
    ensures r is NotFound, r->NotFound_0@ == resource.txt()
//@end
//@fn Error::parse ret=r noprobe
    ensures proto(r, -32700, message.txt())
//@end
//@fn Error::invalid_request ret=r noprobe
    ensures proto(r, -32600, message.txt())
//@end
//@fn Error::method_not_found ret=r noprobe
    ensures proto(r, -32601, S("Method not found: ") + method.txt())
//@end
//@fn Error::invalid_params ret=r noprobe
    ensures proto(r, -32602, message.txt())
//@end
//@fn Error::authentication ret=r noprobe
    ensures r is Authentication, r->Authentication_0@ == message.txt()
//@end
//@fn Error::capability ret=r noprobe
    ensures r is UnsupportedCapability, r->UnsupportedCapability_0@ == message.txt()
//@end
//@fn Error::resource_not_found ret=r noprobe
    ensures r is NotFound, r->NotFound_0@ == S("Resource not found: ") + uri.txt()
//@end
//@fn Error::cancelled ret=r noprobe
    ensures r is Validation, r->Validation_0@ == S("Operation cancelled: ") + message.txt()
//@end
//@fn Error::error_code ret=r noprobe
    ensures r == code_of(*self)
//@end
//@extract src/error/mod.rs impl:ErrorCode::{consts} impl:Error::{protocol,protocol_msg,validation,internal,not_found,parse,invalid_request,method_not_found,invalid_params,authentication,capability,resource_not_found,cancelled,error_code}
