//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include jsonrpc.rs
//@include io.rs
//@include http.rs
//@include sse_spec.rs
//@consts src/shared/http_constants.rs
//@type dyn AuthProvider = Auth
//@type dyn Fn(String) + Send + Sync = Callback
//@type tokio::sync::Mutex<mpsc::UnboundedReceiver<TransportMessage>> = Mutex<URx>
//@type mpsc::UnboundedSender<TransportMessage> = UTx
//@type tokio::task::JoinHandle<()> = ()
//@type reqwest::Method = Method
//@expr reqwest::Method::GET => Method::GET
//@expr reqwest::Method::POST => Method::POST
//@expr reqwest::Method::DELETE => Method::DELETE
//@expr self.last_event_id.clone() => &mut self.last_event_id
//@call callback = callback.call
//@call serde_json::from_str = v_from_text
//@call serde_json::from_slice = v_from_bytes
//@call serde_json::to_string = v_to_text
//@call mpsc::unbounded_channel = unbounded_channel
//@ghostarg call/1 = net
//@ghostarg send/0 = net
//@ghostarg send/1 = net
//@ghostarg recv/0 = net
//@ghostarg get_access_token/0 = net
//@ghostarg build_request/2 = net
//@ghostarg start_sse/1 = net
//@ghostarg send_with_options/2 = net
pub trait VAbort { fn abort(self); }
impl VAbort for () { fn abort(self) { } }
#[verifier::external_body]
pub struct Request { x: u8 }
#[verifier::external_body]
pub struct Notification { x: u8 }
//@extract src/shared/transport.rs enum:TransportMessage
//@extract src/shared/sse_parser.rs struct:SseEvent
//@extract src/shared/streamable_http.rs struct:SendOptions struct:StreamableHttpTransportConfig struct:StreamableHttpTransport
/// `#[derive(Default)]`
impl SendOptions { pub fn default() -> (r: Self) ensures r.related_request_id is None, r.resumption_token is None { SendOptions { related_request_id: None, resumption_token: None } } }
// ---- the world ----
pub enum Method { GET, POST, DELETE }
#[verifier::external_body]
pub struct Url { x: u8 }
/// a request: names in lower case, in the order they were added
pub struct Req { pub method: Method, pub url: Url, pub headers: Seq<(Seq<u8>, Seq<u8>)>, pub body: Option<Seq<u8>> }
pub enum Act { Token(VResult<String>), Asked(Req, Option<Response>), Delivered(TransportMessage), Told(Callback, Seq<u8>), Taken(TransportMessage) }
#[verifier::external_body]
pub struct Net { x: u8 }
impl Net { pub uninterp spec fn log(&self) -> Seq<Act>; }
#[verifier::external_body]
pub struct Auth { x: u8 }
impl Auth {
    #[verifier::external_body]
    pub fn get_access_token(&self, net: &mut Net) -> (r: VResult<String>) ensures final(net).log() == old(net).log().push(Act::Token(r)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: u8 }
impl Callback {
    #[verifier::external_body]
    pub fn call(&self, s: String, net: &mut Net) ensures final(net).log() == old(net).log().push(Act::Told(*self, s@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Client { x: u8 }
pub trait VTxt { spec fn tx(&self) -> Seq<u8>; }
impl VTxt for String { open spec fn tx(&self) -> Seq<u8> { self@ } }
impl VTxt for &String { open spec fn tx(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct RequestBuilder { x: u8 }
#[verifier::external_body]
pub struct ReqError { x: u8 }
impl core::fmt::Debug for ReqError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl ReqError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl Client {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn request(&self, m: Method, url: Url) -> (r: RequestBuilder) ensures r.req() == (Req { method: m, url, headers: Seq::empty(), body: None }) { unimplemented!() }
}
impl RequestBuilder {
    pub uninterp spec fn req(&self) -> Req;
    #[verifier::external_body]
    pub fn header<K: VTxt, V: VTxt>(self, k: K, v: V) -> (r: Self) ensures r.req() == (Req { headers: self.req().headers.push((lname(k.tx()), v.tx())), ..self.req() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn bearer_auth(self, t: String) -> (r: Self) ensures r.req() == (Req { headers: self.req().headers.push((S("authorization"), S("Bearer ") + t@)), ..self.req() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn body(self, b: String) -> (r: Self) ensures r.req() == (Req { body: Some(b@), ..self.req() }) { unimplemented!() }
    /// whatever the server answers; without an answer the request may or may not have left
    #[verifier::external_body]
    pub fn send(self, net: &mut Net) -> (r: core::result::Result<Response, ReqError>)
        ensures final(net).log() == old(net).log().push(Act::Asked(self.req(), match r { Ok(a) => Some(a), Err(_) => None }))
    { unimplemented!() }
}
impl StatusCode {
    pub fn as_u16(&self) -> (r: u16) ensures r == self.code { self.code }
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.code < 300) { 200 <= self.code && self.code < 300 }
}
impl VDisp for StatusCode { uninterp spec fn disp(&self) -> Seq<u8>; }
pub struct Response { pub status: StatusCode, pub headers: HeaderMap, pub content: Content }
#[verifier::external_body]
pub struct Content { x: u8 }
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Response {
    /// the body: as bytes, and read as text; none when reading it fails
    pub uninterp spec fn raw(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn words(&self) -> Option<Seq<u8>>;
    pub fn status(&self) -> (r: StatusCode) ensures r == self.status { self.status }
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.headers { &self.headers }
    #[verifier::external_body]
    pub fn text(self) -> (r: core::result::Result<String, ReqError>) ensures match r { Ok(s) => self.words() == Some(s@), Err(_) => self.words() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(self) -> (r: core::result::Result<Bytes, ReqError>) ensures match r { Ok(b) => self.raw() == Some(b@), Err(_) => self.raw() is None } { unimplemented!() }
}
// ---- JSON ----
pub uninterp spec fn mtext(m: TransportMessage) -> Option<Seq<u8>>;
pub uninterp spec fn mread(s: Seq<u8>) -> Option<TransportMessage>;
pub uninterp spec fn mreads(s: Seq<u8>) -> Option<Seq<TransportMessage>>;
pub trait VRead: Sized { spec fn reads(s: Seq<u8>, x: Self) -> bool; spec fn bad(s: Seq<u8>) -> bool; }
impl VRead for TransportMessage { open spec fn reads(s: Seq<u8>, x: Self) -> bool { mread(s) == Some(x) } open spec fn bad(s: Seq<u8>) -> bool { mread(s) is None } }
impl VRead for Vec<TransportMessage> { open spec fn reads(s: Seq<u8>, x: Self) -> bool { mreads(s) == Some(x@) } open spec fn bad(s: Seq<u8>) -> bool { mreads(s) is None } }
#[verifier::external_body]
pub fn v_from_text<T: VRead>(s: &String) -> (r: core::result::Result<T, SerdeError>) ensures match r { Ok(m) => T::reads(s@, m), Err(_) => T::bad(s@) } { unimplemented!() }
#[verifier::external_body]
pub fn v_from_bytes<T: VRead>(s: &Bytes) -> (r: core::result::Result<T, SerdeError>) ensures match r { Ok(m) => T::reads(s@, m), Err(_) => T::bad(s@) } { unimplemented!() }
#[verifier::external_body]
pub fn v_to_text(m: &TransportMessage) -> (r: core::result::Result<String, SerdeError>) ensures match r { Ok(s) => mtext(*m) == Some(s@), Err(_) => mtext(*m) is None } { unimplemented!() }
// ---- channel: first in, first out; both ends belong to the transport ----
#[verifier::external_body]
pub struct UTx { x: u8 }
#[verifier::external_body]
pub struct URx { x: u8 }
#[verifier::external_body]
pub struct SendError { x: u8 }
impl SendError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl UTx {
    #[verifier::external_body]
    pub fn send(&self, m: TransportMessage, net: &mut Net) -> (r: core::result::Result<(), SendError>) ensures r is Ok, final(net).log() == old(net).log().push(Act::Delivered(m)) { unimplemented!() }
}
impl URx {
    #[verifier::external_body]
    pub fn recv(&mut self, net: &mut Net) -> (r: Option<TransportMessage>) ensures final(net).log() == (match r { Some(m) => old(net).log().push(Act::Taken(m)), None => old(net).log() }) { unimplemented!() }
}
#[verifier::external_body]
pub fn unbounded_channel() -> (r: (UTx, URx)) { unimplemented!() }
// ---- SSE: what P01 proves of the parser ----
#[verifier::external_body]
pub struct SseParser { x: u8 }
impl SseParser {
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fresh() { unimplemented!() }
    #[verifier::external_body]
    pub fn feed(&mut self, d: &String) -> (r: Vec<SseEvent>) requires old(self).fresh() ensures evs(r@) == run(st_init(), d@).out { unimplemented!() }
}
impl SseEvent {
    pub open spec fn ev(&self) -> Ev { Ev { id: ov(self.id), event: ov(self.event), data: self.data@, retry: self.retry } }
}
pub open spec fn evs(v: Seq<SseEvent>) -> Seq<Ev> { v.map_values(|e: SseEvent| e.ev()) }
// ---- what a request carries ----
pub open spec fn texts(v: Seq<(String, String)>) -> Seq<(Seq<u8>, Seq<u8>)> { v.map_values(|p: (String, String)| (lname(p.0@), p.1@)) }
pub open spec fn add(a: Seq<(Seq<u8>, Seq<u8>)>, o: Option<Seq<u8>>, k: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)> { match o { Some(v) => a.push((k, v)), None => a } }
impl StreamableHttpTransport {
    #[verifier::inline] pub open spec fn sid(&self) -> Option<Seq<u8>> { ov(self.config.v.session_id) }
    #[verifier::inline] pub open spec fn ver(&self) -> Option<Seq<u8>> { ov(self.protocol_version.v) }
    #[verifier::inline] pub open spec fn authed(&self) -> bool { self.config.v.auth_provider is Some }
    #[verifier::inline] pub open spec fn cb(&self) -> Option<Callback> { self.config.v.on_resumption_token }
    /// the headers every request carries
    pub open spec fn common(&self, tok: Option<Seq<u8>>) -> Seq<(Seq<u8>, Seq<u8>)> {
        add(add(add(texts(self.config.v.extra_headers@), match tok { Some(t) => Some(S("Bearer ") + t), None => None }, S("authorization")), self.sid(), S("mcp-session-id")), self.ver(), S("mcp-protocol-version"))
    }
    /// nothing but session id and version may have changed
    pub open spec fn kept(&self, o: Self) -> bool { self.config.v == (StreamableHttpTransportConfig { session_id: self.config.v.session_id, ..o.config.v }) && self.client == o.client && self.receiver == o.receiver && self.sender == o.sender }
}
pub open spec fn get_req(s: StreamableHttpTransport, tok: Option<Seq<u8>>, last: Option<Seq<u8>>) -> Req {
    Req { method: Method::GET, url: s.config.v.url, headers: add(s.common(tok).push((S("accept"), S("text/event-stream"))), last, S("last-event-id")), body: None }
}
pub open spec fn post_req(s: StreamableHttpTransport, tok: Option<Seq<u8>>, body: Seq<u8>) -> Req {
    Req { method: Method::POST, url: s.config.v.url, headers: s.common(tok).push((S("content-type"), S("application/json"))).push((S("accept"), S("application/json, text/event-stream"))), body: Some(body) }
}
pub open spec fn del_req(s: StreamableHttpTransport, tok: Option<Seq<u8>>) -> Req { Req { method: Method::DELETE, url: s.config.v.url, headers: s.common(tok), body: None } }
// ---- the token step ----
/// the provider was asked and gave none
pub open spec fn no_token(s: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>) -> bool { s.authed() && l1.len() == l0.len() + 1 && l1 == l0.push(l1.last()) && l1.last() is Token && l1.last()->Token_0 is Err }
/// there is no provider, or it was asked once and gave a token
pub open spec fn has_token(s: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>) -> bool { s.authed() ==> l1.len() > l0.len() && l1[l0.len() as int] is Token && l1[l0.len() as int]->Token_0 is Ok }
pub open spec fn tok_of(s: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>) -> Option<Seq<u8>> { if s.authed() { Some(l1[l0.len() as int]->Token_0->Ok_0@) } else { None } }
pub open spec fn after_tok(s: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>) -> Seq<Act> { if s.authed() { l0.push(l1[l0.len() as int]) } else { l0 } }
// ---- answers ----
pub open spec fn htext(h: HeaderMap, k: Seq<u8>) -> Option<Seq<u8>> { if h@.contains_key(k) { h@[k].text() } else { None } }
pub open spec fn or_else<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
/// session id and version named by an answer are remembered
pub open spec fn learnt(o: StreamableHttpTransport, h: HeaderMap, n: StreamableHttpTransport) -> bool {
    n.sid() == or_else(htext(h, S("mcp-session-id")), o.sid()) && n.ver() == or_else(htext(h, S("mcp-protocol-version")), o.ver())
}
pub open spec fn is_msg(e: Ev) -> bool { e.event is None || e.event == Some(S("message")) }
/// what one event makes the transport do
pub open spec fn act1(e: Ev, cb: Option<Callback>) -> Seq<Act> {
    (if e.id is Some && cb is Some { seq![Act::Told(cb->0, e.id->0)] } else { Seq::empty() }) + (if is_msg(e) && mread(e.data) is Some { seq![Act::Delivered(mread(e.data)->0)] } else { Seq::empty() })
}
pub open spec fn acts(es: Seq<Ev>, cb: Option<Callback>) -> Seq<Act> decreases es.len() { if es.len() == 0 { Seq::empty() } else { acts(es.drop_last(), cb) + act1(es.last(), cb) } }
pub open spec fn last_id(es: Seq<Ev>, o: Option<Seq<u8>>) -> Option<Seq<u8>> decreases es.len() { if es.len() == 0 { o } else { or_else(es.last().id, last_id(es.drop_last(), o)) } }
/// the events of an answer's body
pub open spec fn events(a: Response) -> Seq<Ev> { run(st_init(), match a.words() { Some(t) => t, None => Seq::empty() }).out }
pub open spec fn given(ms: Seq<TransportMessage>) -> Seq<Act> { ms.map_values(|m: TransportMessage| Act::Delivered(m)) }
/// asking the server: (the request left or not and) no answer
pub open spec fn lost(l: Seq<Act>, l1: Seq<Act>, q: Req) -> bool { l1 == l.push(Act::Asked(q, None)) }
pub open spec fn answered(l: Seq<Act>, l1: Seq<Act>, q: Req) -> bool { l1.len() > l.len() && l1[l.len() as int] is Asked && l1[l.len() as int]->Asked_0 == q && l1[l.len() as int]->Asked_1 is Some }
pub open spec fn answer(l: Seq<Act>, l1: Seq<Act>) -> Response { l1[l.len() as int]->Asked_1->0 }
pub open spec fn upto(l: Seq<Act>, l1: Seq<Act>) -> Seq<Act> { l.push(l1[l.len() as int]) }
pub open spec fn ok2(a: Response) -> bool { 200 <= a.status.code < 300 }
pub open spec fn mentions(o: Option<Seq<u8>>, p: Seq<u8>) -> bool { o is Some && exists|j: int| #[trigger] matches_at(o->0, p, j) }
pub open spec fn is_json(a: Response) -> bool { mentions(htext(a.headers, S("content-type")), S("application/json")) }
pub open spec fn is_sse(a: Response) -> bool { mentions(htext(a.headers, S("content-type")), S("text/event-stream")) }
/// what opening the event stream does
pub open spec fn opened(o: StreamableHttpTransport, n: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>, last: Option<Seq<u8>>, r: VResult<()>) -> bool {
    let l = after_tok(o, l0, l1); let q = get_req(o, tok_of(o, l0, l1), last); let a = answer(l, l1);
    n.kept(o) && (
        no_token(o, l0, l1) && r is Err && learnt_none(o, n)
        || has_token(o, l0, l1) && (
            lost(l, l1, q) && r is Err && learnt_none(o, n)
            || answered(l, l1, q) && (
                if a.status.code == 405 { r is Ok && l1 == upto(l, l1) && learnt_none(o, n) }
                else if !ok2(a) { r is Err && l1 == upto(l, l1) && learnt_none(o, n) }
                else { r is Ok && learnt(o, a.headers, n) && l1 == upto(l, l1) + acts(events(a), o.cb()) && ov(n.last_event_id.v) == last_id(events(a), ov(o.last_event_id.v)) })))
}
pub open spec fn learnt_none(o: StreamableHttpTransport, n: StreamableHttpTransport) -> bool { n.sid() == o.sid() && n.ver() == o.ver() && n.last_event_id == o.last_event_id }
pub proof fn lemma_names()
    ensures lname(S("mcp-session-id")) == S("mcp-session-id"), lname(S("mcp-protocol-version")) == S("mcp-protocol-version"), lname(S("Last-Event-ID")) == S("last-event-id"),
        lname(S("Accept")) == S("accept"), lname(S("Content-Type")) == S("content-type"), lname(S("accept")) == S("accept"), lname(S("content-type")) == S("content-type"),
{
    assert(lname(S("mcp-session-id")) =~= S("mcp-session-id"));
    assert(lname(S("mcp-protocol-version")) =~= S("mcp-protocol-version"));
    assert(lname(S("Last-Event-ID")) =~= S("last-event-id"));
    assert(lname(S("Accept")) =~= S("accept"));
    assert(lname(S("Content-Type")) =~= S("content-type"));
    assert(lname(S("accept")) =~= S("accept"));
    assert(lname(S("content-type")) =~= S("content-type"));
}
pub proof fn lemma_texts(v: Seq<(String, String)>, k: int)
    requires 0 <= k < v.len()
    ensures texts(v.subrange(0, k + 1)) == texts(v.subrange(0, k)).push((lname(v[k].0@), v[k].1@))
{ assert(texts(v.subrange(0, k + 1)) =~= texts(v.subrange(0, k)).push((lname(v[k].0@), v[k].1@))); }
pub proof fn lemma_acts(es: Seq<SseEvent>, k: int, cb: Option<Callback>, o: Option<Seq<u8>>)
    requires 0 <= k < es.len()
    ensures acts(evs(es.subrange(0, k + 1)), cb) == acts(evs(es.subrange(0, k)), cb) + act1(es[k].ev(), cb), last_id(evs(es.subrange(0, k + 1)), o) == or_else(es[k].ev().id, last_id(evs(es.subrange(0, k)), o))
{
    let a = evs(es.subrange(0, k + 1));
    assert(a.drop_last() =~= evs(es.subrange(0, k)));
    assert(a.last() == es[k].ev());
}
//@fn StreamableHttpTransport::build_request ret=r noprobe
//@addparam net: &mut Net
    ensures match r {
        Ok(b) => has_token(*self, old(net).log(), final(net).log()) && final(net).log() == after_tok(*self, old(net).log(), final(net).log())
            && b.req() == (Req { method, url, headers: self.common(tok_of(*self, old(net).log(), final(net).log())), body: None }),
        Err(e) => no_token(*self, old(net).log(), final(net).log()) && final(net).log().last()->Token_0 == Err::<String, Error>(e),
    }
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    proof { lemma_names();
    }
//@beforeloop 0
    let ghost eh = extra_headers@;
    proof { assert(texts(eh.subrange(0, 0)) =~= Seq::<(Seq<u8>, Seq<u8>)>::empty()); assert(eh.subrange(0, eh.len() as int) =~= eh); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == eh, builder.req() == (Req { method, url, headers: texts(eh.subrange(0, __it0.pos() as int)), body: None })
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { lemma_texts(eh, __it0.pos() as int - 1); }
//@end
//@fn StreamableHttpTransport::process_response_headers mutself
    ensures final(self).kept(*old(self)), final(self).last_event_id == old(self).last_event_id, final(self).abort_handle == old(self).abort_handle, learnt(*old(self), response.headers, *final(self))
//@start
    proof { lemma_names(); }
//@end
//@fn StreamableHttpTransport::start_sse ret=r mutself
//@addparam net: &mut Net
    ensures opened(*old(self), *final(self), old(net).log(), final(net).log(), ov(resumption_token), r)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    proof { lemma_names();
    }
//@beforeloop 0
    let ghost es = events@; let ghost l2 = net.log(); let ghost o2 = ov(last_event_id.v);
    proof { assert(evs(es.subrange(0, 0)) =~= Seq::<Ev>::empty()); assert(es.subrange(0, es.len() as int) =~= es); assert(l2 + Seq::<Act>::empty() =~= l2); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == es, net.log() == l2 + acts(evs(es.subrange(0, __it0.pos() as int)), on_resumption), ov(last_event_id.v) == last_id(evs(es.subrange(0, __it0.pos() as int)), o2)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost l3 = net.log();
    proof { lemma_acts(es, __it0.pos() as int - 1, on_resumption, o2); }
//@loopend 0
    proof { assert(net.log() =~= l3 + act1(event.ev(), on_resumption)); assert(net.log() =~= l2 + acts(evs(es.subrange(0, __it0.pos() as int)), on_resumption)); }
//@end
/// what sending a message does
pub open spec fn posted(o: StreamableHttpTransport, n: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>, m: TransportMessage, r: VResult<()>) -> bool {
    let l = after_tok(o, l0, l1); let q = post_req(o, tok_of(o, l0, l1), mtext(m)->0); let a = answer(l, l1);
    n.kept(o) && if mtext(m) is None { r is Err && l1 == l0 && learnt_none(o, n) } else {
        no_token(o, l0, l1) && r is Err && learnt_none(o, n)
        || has_token(o, l0, l1) && (
            lost(l, l1, q) && r is Err && learnt_none(o, n)
            || answered(l, l1, q) && learnt(o, a.headers, n) && (
                if ok2(a) && is_sse(a) && !is_json(a) { r is Ok && l1 == upto(l, l1) + acts(events(a), o.cb()) && ov(n.last_event_id.v) == last_id(events(a), ov(o.last_event_id.v)) }
                else { n.last_event_id == o.last_event_id && match delivered(a) { Some(ms) => r is Ok && l1 == upto(l, l1) + given(ms), None => r is Err && l1 == upto(l, l1) } })) }
}
/// the messages of an answer which is not an event stream; none if it is a failure
pub open spec fn delivered(a: Response) -> Option<Seq<TransportMessage>> {
    if !ok2(a) { None }
    else if is_json(a) { match a.raw() { Some(b) => if mreads(b) is Some { mreads(b) } else { match mread(b) { Some(m) => Some(seq![m]), None => None } }, None => None } }
    else if a.status.code == 202 { Some(Seq::empty()) }
    else { None }
}
pub open spec fn sent(o: StreamableHttpTransport, n: StreamableHttpTransport, l0: Seq<Act>, l1: Seq<Act>, m: TransportMessage, token: Option<Seq<u8>>, r: VResult<()>) -> bool {
    if token is Some { opened(o, n, l0, l1, token, r) } else { posted(o, n, l0, l1, m, r) }
}
pub proof fn lemma_given(ms: Seq<TransportMessage>, k: int)
    requires 0 <= k < ms.len()
    ensures given(ms.subrange(0, k + 1)) == given(ms.subrange(0, k)).push(Act::Delivered(ms[k]))
{ assert(given(ms.subrange(0, k + 1)) =~= given(ms.subrange(0, k)).push(Act::Delivered(ms[k]))); }
//@fn StreamableHttpTransport::send_with_options ret=r
//@addparam net: &mut Net
    ensures sent(*old(self), *final(self), old(net).log(), final(net).log(), message, ov(options.resumption_token), r)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    proof { lemma_names();
        assert forall|l: Seq<Act>, m: TransportMessage| #[trigger] l.push(Act::Delivered(m)) == l + given(seq![m]) by { assert(l.push(Act::Delivered(m)) =~= l + given(seq![m])); }
        assert forall|l: Seq<Act>| #[trigger] (l + given(Seq::empty())) == l by { assert(l + given(Seq::empty()) =~= l); }
    }
//@beforeloop 0
    let ghost ms = batch@; let ghost l2 = net.log();
    proof { assert(given(ms.subrange(0, 0)) =~= Seq::<Act>::empty()); assert(ms.subrange(0, ms.len() as int) =~= ms); assert(l2 + Seq::<Act>::empty() =~= l2); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == ms, net.log() == l2 + given(ms.subrange(0, __it0.pos() as int))
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost l3 = net.log();
    proof { lemma_given(ms, __it0.pos() as int - 1); }
//@loopend 0
    proof { assert(net.log() =~= l2 + given(ms.subrange(0, __it0.pos() as int))); }
//@beforeloop 1
    let ghost es = events@; let ghost l2 = net.log(); let ghost o2 = ov(last_event_id.v);
    proof { assert(evs(es.subrange(0, 0)) =~= Seq::<Ev>::empty()); assert(es.subrange(0, es.len() as int) =~= es); assert(l2 + Seq::<Act>::empty() =~= l2); }
//@loop 1
    invariant __it1.wf(), __it1.seq() == es, net.log() == l2 + acts(evs(es.subrange(0, __it1.pos() as int)), on_resumption), ov(last_event_id.v) == last_id(evs(es.subrange(0, __it1.pos() as int)), o2)
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@loopstart 1
    let ghost l3 = net.log();
    proof { lemma_acts(es, __it1.pos() as int - 1, on_resumption, o2); }
//@loopend 1
    proof { assert(net.log() =~= l3 + act1(event.ev(), on_resumption)); assert(net.log() =~= l2 + acts(evs(es.subrange(0, __it1.pos() as int)), on_resumption)); }
//@end
//@fn StreamableHttpTransport::send ret=r
//@addparam net: &mut Net
    ensures sent(*old(self), *final(self), old(net).log(), final(net).log(), message, None, r)
//@end
//@fn StreamableHttpTransport::receive ret=r
//@addparam net: &mut Net
    ensures *final(self) == (StreamableHttpTransport { receiver: final(self).receiver, ..*old(self) }), match r {
        Ok(m) => final(net).log() == old(net).log().push(Act::Taken(m)),
        Err(e) => final(net).log() == old(net).log() && e is Transport && e->Transport_0 is ConnectionClosed }
//@end
//@fn StreamableHttpTransport::close ret=r
//@addparam net: &mut Net
    ensures final(self).kept(*old(self)), final(self).ver() == old(self).ver(), final(self).last_event_id == old(self).last_event_id,
        old(self).sid() is None ==> r is Ok && final(self).sid() is None && final(net).log() == old(net).log(),
        old(self).sid() is Some ==> { let l0 = old(net).log(); let l1 = final(net).log(); let l = after_tok(*old(self), l0, l1); let q = del_req(*old(self), tok_of(*old(self), l0, l1));
            no_token(*old(self), l0, l1) && r is Err && final(self).sid() == old(self).sid()
            || has_token(*old(self), l0, l1) && r is Ok && final(self).sid() is None && (lost(l, l1, q) || answered(l, l1, q) && l1 == upto(l, l1)) }
//@end
//@fn StreamableHttpTransport::new ret=r
    ensures r.config.v == config, r.ver() is None, r.last_event_id.v is None, r.abort_handle.v is None
//@end
//@fn StreamableHttpTransport::session_id ret=r
    ensures ov(r) == self.sid()
//@end
//@fn StreamableHttpTransport::set_session_id mutself
    ensures *final(self) == (StreamableHttpTransport { config: RwLock { v: StreamableHttpTransportConfig { session_id, ..old(self).config.v } }, ..*old(self) })
//@end
//@fn StreamableHttpTransport::protocol_version ret=r
    ensures ov(r) == self.ver()
//@end
//@fn StreamableHttpTransport::set_protocol_version mutself
    ensures *final(self) == (StreamableHttpTransport { protocol_version: RwLock { v: version }, ..*old(self) })
//@end
//@fn StreamableHttpTransport::last_event_id ret=r
    ensures ov(r) == ov(self.last_event_id.v)
//@end
//@extract src/shared/streamable_http.rs impl:StreamableHttpTransport::{new,session_id,set_session_id,protocol_version,set_protocol_version,last_event_id,build_request,process_response_headers,start_sse,send_with_options,send,receive,close}
