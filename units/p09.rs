//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include jsonrpc.rs
//@include errread.rs
//@fn JSONRPCError::new ret=r
    ensures r.code == code, r.message@ == message.txt(), r.data is None
//@end
//@fn JSONRPCError::with_data ret=r
    ensures r.code == code, r.message@ == message.txt(), r.data == Some(data)
//@end
/// what is sent for an error
pub open spec fn wire(e: Error) -> (int, Seq<u8>, Option<Value>) {
    match e { Error::Protocol { code, message, data } => (code.0 as int, message@, data), _ => (-32603, err_text(e), None) }
}
//@fn JSONRPCError::from_error ret=r
    ensures r.code as int == wire(err).0, r.message@ == wire(err).1, r.data == wire(err).2
//@end
//@extract src/types/jsonrpc.rs impl:JSONRPCError::{new,with_data,from@From<crate::Error>=from_error}
//@fn Error::protocol_with_data ret=r
    ensures r is Protocol, r->Protocol_code == code, r->Protocol_message@ == message.txt(), r->Protocol_data == Some(data)
//@end
//@fn Error::is_error_code ret=r
    ensures r == (code_of(*self) == Some(code))
//@end
//@extract src/error/mod.rs impl:Error::{protocol_with_data,is_error_code}
/// sending an error and reading it back keeps message and data, and the code unless it is an unnamed one of the server range
proof fn lemma_round_trip(e: Error, j: JSONRPCError, b: Error)
    requires j.code as int == wire(e).0, j.message@ == wire(e).1, j.data == wire(e).2,
        b is Protocol, b->Protocol_code.0 as int == read_code(j.code as int), b->Protocol_message == j.message, b->Protocol_data == j.data
    ensures e is Protocol ==> b->Protocol_message@ == e->Protocol_message@ && b->Protocol_data == e->Protocol_data
            && (named(e->Protocol_code.0 as int) || !(-32099 <= e->Protocol_code.0 <= -32000) ==> b->Protocol_code == e->Protocol_code),
        !(e is Protocol) ==> b->Protocol_code.0 == -32603,
{ }
