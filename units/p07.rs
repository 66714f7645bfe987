//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include jsonrpc.rs
//@type RawValue = RawValue
//@call i64::try_from = v_i64_try_from
//@method unwrap_or = v_unwrap_or
/// `i64::try_from(u64)`
#[verifier::external_body]
pub struct IntErr { x: u8 }
#[verifier::external_body]
pub fn v_i64_try_from(n: u64) -> (r: core::result::Result<i64, IntErr>)
    ensures match r { Ok(v) => v as int == n as int, Err(_) => n as int > i64::MAX as int } { unimplemented!() }
#[verifier::external_body]
pub struct RawValue { x: u8 }
//@extract src/types/jsonrpc.rs struct:RawMessage
//@fn RequestId::from_string ret=r
    ensures r == RequestId::String(s)
//@end
//@fn RequestId::from_i64 ret=r
    ensures r == RequestId::Number(n)
//@end
//@fn RequestId::from_u64 ret=r
    ensures r == RequestId::Number(if n as int <= i64::MAX as int { n as i64 } else { i64::MAX })
//@end
//@fn RequestId::from_str ret=r
    ensures r is String && r->String_0@ == s@
//@end
//@extract src/types/jsonrpc.rs impl:RequestId::{from@From<String>=from_string,from@From<i64>=from_i64,from@From<u64>=from_u64,from@From<&str>=from_str}
//@fn JSONRPCRequest::new ret=r
    ensures r.jsonrpc@ == S("2.0"), r.id == id, r.method@ == method.txt(), r.params == params
//@end
//@fn JSONRPCRequest::validate ret=r
    ensures r is Ok <==> self.jsonrpc@ == S("2.0"), r is Err ==> r->Err_0 is Validation
//@end
//@extract src/types/jsonrpc.rs impl:JSONRPCRequest::{new,validate}
//@fn JSONRPCResponse::success ret=r
    ensures r.jsonrpc@ == S("2.0"), r.id == id, r.payload == ResponsePayload::<R, E>::Result(result)
//@end
//@fn JSONRPCResponse::error ret=r
    ensures r.jsonrpc@ == S("2.0"), r.id == id, r.payload == ResponsePayload::<R, E>::Error(error)
//@end
//@fn JSONRPCResponse::is_success ret=r
    ensures r == (self.payload is Result)
//@end
//@fn JSONRPCResponse::is_error ret=r
    ensures r == (self.payload is Error)
//@end
//@fn JSONRPCResponse::result ret=r
    ensures match self.payload { ResponsePayload::Result(v) => r == Some(&v), ResponsePayload::Error(_) => r is None }
//@end
//@fn JSONRPCResponse::get_error ret=r
    ensures match self.payload { ResponsePayload::Error(v) => r == Some(&v), ResponsePayload::Result(_) => r is None }
//@end
//@extract src/types/jsonrpc.rs impl:JSONRPCResponse::{success,error,is_success,is_error,result,get_error}
//@fn JSONRPCNotification::new ret=r
    ensures r.jsonrpc@ == S("2.0"), r.method@ == method.txt(), r.params == params
//@end
//@extract src/types/jsonrpc.rs impl:JSONRPCNotification::{new}
//@fn JSONRPCError::new ret=r
    ensures r.code == code, r.message@ == message.txt(), r.data is None
//@end
//@fn JSONRPCError::with_data ret=r
    ensures r.code == code, r.message@ == message.txt(), r.data == Some(data)
//@end
//@extract src/types/jsonrpc.rs impl:JSONRPCError::{new,with_data}
/// JSON-RPC 2.0 on the members that are present: exactly one reading, or none
pub open spec fn reading(id: bool, method: bool, result: bool, error: bool) -> MessageType {
    if method && !result && !error { if id { MessageType::Request } else { MessageType::Notification } }
    else if id && !method && result && !error { MessageType::Response }
    else if id && !method && !result && error { MessageType::ErrorResponse }
    else { MessageType::Invalid }
}
//@fn RawMessage::message_type ret=r
    ensures r == reading(self.id is Some, self.method is Some, self.result is Some, self.error is Some)
//@end
//@extract src/types/jsonrpc.rs impl:RawMessage::{message_type}
/// a response carries a result or an error, never both and never neither
proof fn lemma_exclusive<R, E>(r: JSONRPCResponse<R, E>) ensures (r.payload is Result) != (r.payload is Error) { }
