//@include core.rs
//@include text.rs
//@include bytebuf.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include atomic.rs
//@include jsonrpc.rs
//@include io.rs
//@type tokio::io::Stdin = Stdin
//@type tokio::io::Stdout = Stdout
//@type std::sync::atomic::AtomicBool = AtomicBool
//@method parse = v_parse_usize
//@call std::io::Error::from = IoError::from
//@call std::io::ErrorKind::UnexpectedEof = io::ErrorKind::UnexpectedEof
//@ident std::io::ErrorKind::UnexpectedEof = io::ErrorKind::UnexpectedEof
//@call serde_json::to_vec = v_to_vec
//@call serde_json::from_slice = v_from_slice
//@call serde_json::from_value = v_from_value
//@call TransportError::from = TransportError::from_io
//@call crate::shared::create_request = create_request
//@call crate::shared::create_notification = create_notification
//@call crate::shared::parse_request = parse_request
//@call crate::shared::parse_notification = parse_notification
//@expr (&mut *stdin).take(content_length as u64).read_to_end(&mut buffer) => stdin.v_take_to_end(content_length as u64, &mut buffer)
#[verifier::external_body]
pub struct Request { x: u8 }
#[verifier::external_body]
pub struct Notification { x: u8 }
//@extract src/shared/transport.rs enum:TransportMessage
// ---- what P08 proves about the helpers is used here as unspecified functions ----
pub uninterp spec fn made_request(id: RequestId, q: Request) -> JSONRPCRequest<Value>;
pub uninterp spec fn made_notification(n: Notification) -> JSONRPCNotification<Value>;
pub uninterp spec fn read_request(j: JSONRPCRequest<Value>) -> VResult<(RequestId, Request)>;
pub uninterp spec fn read_notification(v: Value) -> VResult<Notification>;
#[verifier::external_body]
pub fn create_request(id: RequestId, q: Request) -> (r: JSONRPCRequest<Value>) ensures r == made_request(id, q) { unimplemented!() }
#[verifier::external_body]
pub fn create_notification(n: Notification) -> (r: JSONRPCNotification<Value>) ensures r == made_notification(n) { unimplemented!() }
#[verifier::external_body]
pub fn parse_request(j: JSONRPCRequest<Value>) -> (r: VResult<(RequestId, Request)>) ensures r == read_request(j) { unimplemented!() }
#[verifier::external_body]
pub fn parse_notification(v: Value) -> (r: VResult<Notification>) ensures r == read_notification(v) { unimplemented!() }
impl<T> Serialize for JSONRPCRequest<T> { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl<T> Serialize for JSONRPCNotification<T> { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl<T, E> Serialize for JSONRPCResponse<T, E> { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl<T> Deserialize for JSONRPCRequest<T> { open spec fn de(v: Value) -> Option<JSONRPCRequest<T>> { de_of(v) } }
impl<T, E> Deserialize for JSONRPCResponse<T, E> { open spec fn de(v: Value) -> Option<JSONRPCResponse<T, E>> { de_of(v) } }
/// the bytes serde_json writes for a value, and the value it reads from bytes
pub uninterp spec fn json_bytes(v: Value) -> Seq<u8>;
pub uninterp spec fn json_read(b: Seq<u8>) -> Option<Value>;
#[verifier::external_body]
pub fn v_to_vec<T: Serialize>(x: &T) -> (r: core::result::Result<Vec<u8>, SerdeError>)
    ensures r is Ok, r->Ok_0@ == json_bytes(x.ser())
{ unimplemented!() }
#[verifier::external_body]
pub fn v_from_slice(b: &[u8]) -> (r: core::result::Result<Value, SerdeError>)
    ensures match r { Ok(v) => json_read(b@) == Some(v), Err(_) => json_read(b@) is None }
{ unimplemented!() }
// ---- the framing ----
/// the JSON value of a message
pub open spec fn json_of(m: TransportMessage) -> Value {
    match m { TransportMessage::Request { id, request } => made_request(id, request).ser(), TransportMessage::Response(r) => r.ser(), TransportMessage::Notification(n) => made_notification(n).ser() }
}
/// what goes over the wire for a body
pub open spec fn frame(b: Seq<u8>) -> Seq<u8> { S("Content-Length: ") + dec(b.len() as int) + S("\r\n\r\n") + b }
pub open spec fn hask(v: Value, k: Seq<u8>) -> bool { v is Object && v->Object_0@.dom().contains(k) }
/// the message a body stands for
pub open spec fn msg_of(v: Value) -> Option<TransportMessage> {
    if hask(v, S("method")) {
        if hask(v, S("id")) { match de::<JSONRPCRequest<Value>>(v) { Some(j) => match read_request(j) { Ok(x) => Some(TransportMessage::Request { id: x.0, request: x.1 }), Err(_) => None }, None => None } }
        else { match read_notification(v) { Ok(n) => Some(TransportMessage::Notification(n)), Err(_) => None } }
    } else if hask(v, S("result")) || hask(v, S("error")) { match de::<JSONRPCResponse>(v) { Some(j) => Some(TransportMessage::Response(j)), None => None } }
    else { None }
}
pub open spec fn invalid(e: Error) -> bool { e is Transport && e->Transport_0 is InvalidMessage }
pub open spec fn gone(e: Error) -> bool { e is Transport && e->Transport_0 is ConnectionClosed }
pub open spec fn io_err(e: Error) -> bool { e is Transport && e->Transport_0 is Io }
/// one header line
pub open spec fn length_in(l: Seq<u8>) -> Option<int> {
    if is_prefix(S("Content-Length: "), l) { parse_dec(String::trim_spec(l.subrange(16, l.len() as int)), 0, usize::MAX as int) } else { None }
}
/// header lines up to the first blank one: (the last length given, the rest of the input); none at the end of the input
pub open spec fn headers(s: Seq<u8>, n: Option<int>) -> Option<(Option<int>, Seq<u8>)> decreases s.len() {
    let k = line_len(s);
    if s.len() == 0 || k <= 0 || k > s.len() { None }
    else {
        let l = String::trim_spec(s.subrange(0, k));
        let t = s.subrange(k, s.len() as int);
        if l.len() == 0 { Some((n, t)) } else { headers(t, match length_in(l) { Some(x) => Some(x), None => n }) }
    }
}
/// what receiving does on input s
pub open spec fn received(s: Seq<u8>) -> Option<(TransportMessage, Seq<u8>)> {
    match headers(s, None) {
        Some((Some(n), t)) => if 0 <= n <= t.len() { match json_read(t.subrange(0, n)) { Some(v) => match msg_of(v) { Some(m) => Some((m, t.subrange(n, t.len() as int))), None => None }, None => None } } else { None },
        _ => None,
    }
}
pub open spec fn oi(o: Option<usize>) -> Option<int> { match o { Some(n) => Some(n as int), None => None } }
impl StdioTransport {
    #[verifier::inline] pub open spec fn rest(&self) -> Seq<u8> { self.stdin.v.rest() }
    #[verifier::inline] pub open spec fn out(&self) -> Seq<u8> { self.stdout.v.out() }
    #[verifier::inline] pub open spec fn shut(&self) -> bool { self.closed.v }
}
//@fn TransportError::from_io ret=r noprobe
    ensures r is Io
//@end
//@extract src/error/mod.rs impl:TransportError::{from@From<std::io::Error>=from_io}
//@consts src/shared/stdio.rs
//@extract src/shared/stdio.rs struct:StdioTransport
//@fn StdioTransport::parse_content_length ret=r
    ensures match r { Some(n) => length_in(line@) == Some(n as int), None => length_in(line@) is None }
//@end
//@fn StdioTransport::serialize_message ret=r tryconv
    ensures r is Ok, r->Ok_0@ == json_bytes(json_of(*message))
//@end
//@fn StdioTransport::write_message ret=r mutself tryconv
    ensures final(self).stdin == old(self).stdin, final(self).closed == old(self).closed,
        match r {
            Ok(_) => final(self).out() == old(self).out() + frame(json_bytes@) && final(self).stdout.v.flushed(),
            Err(e) => io_err(e) && is_prefix(final(self).out(), old(self).out() + frame(json_bytes@)),
        }
    //@start
        let ghost h = S("Content-Length: ") + dec(json_bytes@.len() as int) + S("\r\n\r\n");
        let ghost o = self.out();
        assert(o + frame(json_bytes@) =~= o + h + json_bytes@);
        assert forall|x: Seq<u8>| #[trigger] is_prefix(x, o + h) implies is_prefix(x, o + h + json_bytes@) by { assert((o + h + json_bytes@).subrange(0, x.len() as int) =~= (o + h).subrange(0, x.len() as int)); }
        assert((o + h + json_bytes@).subrange(0, (o + h + json_bytes@).len() as int) =~= o + h + json_bytes@);
    //@end
//@fn StdioTransport::read_headers ret=r mutself tryconv
    ensures final(self).stdout == old(self).stdout,
        match r {
            Ok(n) => headers(old(self).rest(), None) == Some((Some(n as int), final(self).rest())) && final(self).closed == old(self).closed && final(self).stdin.v.broken() == old(self).stdin.v.broken(),
            Err(e) =>
                io_err(e) && final(self).stdin.v.broken() && final(self).closed == old(self).closed
                || gone(e) && headers(old(self).rest(), None) is None && final(self).shut()
                || invalid(e) && headers(old(self).rest(), None) == Some((None::<int>, final(self).rest())) && final(self).closed == old(self).closed,
        }
    //@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    //@loop 0
        invariant_except_break headers(old(self).rest(), None) == headers(stdin.rest(), oi(content_length))
        invariant stdin.broken() == old(self).stdin.v.broken(), self.closed == old(self).closed, self.stdout == old(self).stdout
        ensures headers(old(self).rest(), None) == Some((oi(content_length), stdin.rest()))
        decreases stdin.rest().len()
    //@end
//@fn StdioTransport::read_message_body ret=r mutself tryconv
    ensures final(self).stdout == old(self).stdout, final(self).closed == old(self).closed,
        match r {
            Ok(b) => content_length <= old(self).rest().len() && b@ == old(self).rest().subrange(0, content_length as int)
                && final(self).rest() == old(self).rest().subrange(content_length as int, old(self).rest().len() as int) && final(self).stdin.v.broken() == old(self).stdin.v.broken(),
            Err(e) => io_err(e) && (final(self).stdin.v.broken() || old(self).rest().len() < content_length),
        }
//@end
//@fn StdioTransport::parse_message ret=r tryconv
    ensures match r { Ok(m) => json_read(buffer@) is Some && msg_of(json_read(buffer@)->0) == Some(m), Err(e) => invalid(e) && (json_read(buffer@) is Some ==> msg_of(json_read(buffer@)->0) is None) }
//@end
//@fn StdioTransport::parse_method_message ret=r tryconv
    requires hask(json_value, S("method"))
    ensures match r { Ok(m) => msg_of(json_value) == Some(m), Err(e) => invalid(e) && msg_of(json_value) is None }
//@end
//@fn StdioTransport::parse_response_message ret=r tryconv
    requires !hask(json_value, S("method")), hask(json_value, S("result")) || hask(json_value, S("error"))
    ensures match r { Ok(m) => msg_of(json_value) == Some(m), Err(e) => invalid(e) && msg_of(json_value) is None }
//@end
//@fn StdioTransport::send ret=r tryconv
    ensures final(self).stdin == old(self).stdin, final(self).closed == old(self).closed,
        match r {
            Ok(_) => !old(self).shut() && final(self).out() == old(self).out() + frame(json_bytes(json_of(message))) && final(self).stdout.v.flushed(),
            Err(e) => if old(self).shut() { gone(e) && final(self).stdout == old(self).stdout } else { io_err(e) && is_prefix(final(self).out(), old(self).out() + frame(json_bytes(json_of(message)))) },
        }
//@end
//@fn StdioTransport::receive ret=r tryconv
    ensures final(self).stdout == old(self).stdout, old(self).shut() ==> final(self).shut(),
        match r {
            Ok(m) => !old(self).shut() && received(old(self).rest()) == Some((m, final(self).rest())) && !final(self).shut() && final(self).stdin.v.broken() == old(self).stdin.v.broken(),
            Err(e) => if old(self).shut() { gone(e) && final(self).stdin == old(self).stdin } else {
                io_err(e) && final(self).stdin.v.broken()
                || received(old(self).rest()) is None && (match headers(old(self).rest(), None) {
                    None => gone(e) && final(self).shut(),
                    Some((None, t)) => invalid(e) && final(self).rest() == t && !final(self).shut(),
                    Some((Some(n), t)) => !final(self).shut() && if n <= t.len() { invalid(e) && final(self).rest() == t.subrange(n, t.len() as int) } else { io_err(e) },
                }) },
        }
//@end
//@fn StdioTransport::close ret=r tryconv
    ensures final(self).shut(), final(self).out() == old(self).out(), final(self).stdin == old(self).stdin, match r { Ok(_) => final(self).stdout.v.flushed(), Err(e) => io_err(e) }
//@end
//@fn StdioTransport::is_connected ret=r
    ensures r == !self.shut()
//@end
//@extract src/shared/stdio.rs impl:StdioTransport::{parse_content_length,send,receive,close,is_connected,serialize_message,write_message,read_headers,read_message_body,parse_message,parse_method_message,parse_response_message}
