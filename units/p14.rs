//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include uuid.rs
//@include jsonrpc.rs
//@include http.rs
//@consts src/shared/http_constants.rs src/lib.rs
//@type dyn EventStore = Store
//@type dyn Fn() -> String + Send + Sync = Generator
//@type dyn Fn(&str) + Send + Sync = Callback
//@type SessionCallback = Callback
//@type tokio::sync::Mutex<Server> = Mutex<Server>
//@type mpsc::UnboundedSender<TransportMessage> = UTx
//@type impl IntoResponse = Response
//@expr &state => state
//@expr **boxed => *boxed
//@method parse = v_parse
//@call generator = generator.generate
//@call callback = callback.call
//@call mpsc::unbounded_channel = unbounded_channel
//@call serde_json::from_str = message_of
//@call serde_json::to_string = text_of
//@ghostarg generate/0 = calls
//@ghostarg call/1 = calls
//@ghostarg send/1 = calls
//@ghostarg handle_request/2 = calls
//@ghostarg store_event/3 = calls
//@ghostarg build_response/3 = calls
//@ghostarg process_init_session/3 = calls
//@lift ::build_response once_event arg msg: TransportMessage; has Event; -> core::result::Result<Event, Infallible>
//@lift ::handle_get_sse stream_event arg msg: TransportMessage; use state: &ServerState; session_id: String; has Event; -> core::result::Result<Event, Infallible>
#[verifier::external_body]
pub struct InitializeParams { x: u8 }
#[verifier::external_body]
pub struct OtherRequest { x: u8 }
#[verifier::external_body]
pub struct Notification { x: u8 }
#[verifier::external_body]
pub struct ServerRequest { x: u8 }
pub type ListToolsParams = OtherRequest;
pub type CallToolParams = OtherRequest;
pub type ListPromptsParams = OtherRequest;
pub type GetPromptParams = OtherRequest;
pub type ListResourcesParams = OtherRequest;
pub type ListResourceTemplatesRequest = OtherRequest;
pub type ReadResourceParams = OtherRequest;
pub type SubscribeRequest = OtherRequest;
pub type UnsubscribeRequest = OtherRequest;
pub type CompleteRequest = OtherRequest;
pub type LoggingLevel = OtherRequest;
pub type CreateMessageRequest = OtherRequest;
pub type ElicitInputResponse = OtherRequest;
pub type ServerCapabilities = OtherRequest;
//@extract src/types/protocol.rs enum:ClientRequest enum:Request struct:ProtocolVersion struct:Implementation struct:InitializeResult
//@extract src/shared/transport.rs enum:TransportMessage
impl Deserialize for InitializeResult { open spec fn de(v: Value) -> Option<InitializeResult> { de_of(v) } }
pub struct Infallible { pub x: u8 }
/// what the server did: asked for a session id, told the session callbacks, put a message into channel c, had a request handled, stored an event
pub enum Ev { Generated(Seq<u8>), Callback(Callback, Seq<u8>), Sent(int, TransportMessage), Handled(RequestId, Request, JSONRPCResponse), Stored(Seq<u8>, Seq<u8>, TransportMessage) }
#[verifier::external_body]
pub struct Calls { x: u8 }
impl Calls { pub uninterp spec fn log(&self) -> Seq<Ev>; }
#[verifier::external_body]
pub struct Generator { x: u8 }
impl Generator {
    /// ASSUMED: the application's generator never gives an id twice, and what it gives may stand in a header
    #[verifier::external_body]
    pub fn generate(&self, calls: &mut Calls) -> (r: String) ensures hv_ok(r@), final(calls).log() == old(calls).log().push(Ev::Generated(r@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: u8 }
impl Callback {
    #[verifier::external_body]
    pub fn call(&self, s: &String, calls: &mut Calls) ensures final(calls).log() == old(calls).log().push(Ev::Callback(*self, s@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Server { x: u8 }
impl Server {
    /// Arbitrary; the version an initialize result names may stand in a header (P25: the server's own constant)
    #[verifier::external_body]
    pub fn handle_request(&self, id: RequestId, request: Request, calls: &mut Calls) -> (r: JSONRPCResponse)
        ensures final(calls).log() == old(calls).log().push(Ev::Handled(id, request, r)), version_of(r) is Some ==> hv_ok(version_of(r)->0)
    { unimplemented!() }
}
/// the version the answer to an initialize request names
pub open spec fn version_of(r: JSONRPCResponse) -> Option<Seq<u8>> {
    match r.payload { ResponsePayload::Result(v) => match de_of::<InitializeResult>(v) { Some(i) => Some(i.protocol_version.0@), None => None }, _ => None }
}
// ---- the event store, an arbitrary one ----
#[verifier::external_body]
pub struct Store { x: u8 }
impl Store {
    pub uninterp spec fn after(&self, last: Seq<u8>) -> VResult<Vec<(String, TransportMessage)>>;
    pub uninterp spec fn stream(&self, id: Seq<u8>) -> VResult<Option<String>>;
    #[verifier::external_body]
    pub fn store_event(&self, sid: &String, id: &String, m: &TransportMessage, calls: &mut Calls) -> (r: VResult<()>) ensures final(calls).log() == old(calls).log().push(Ev::Stored(sid@, id@, *m)) { unimplemented!() }
    #[verifier::external_body]
    pub fn replay_events_after(&self, last: &String) -> (r: VResult<Vec<(String, TransportMessage)>>) ensures r == self.after(last@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_stream_for_event(&self, id: &String) -> (r: VResult<Option<String>>) ensures r == self.stream(id@) { unimplemented!() }
}
// ---- channels ----
#[verifier::external_body]
pub struct UTx { x: u8 }
#[verifier::external_body]
pub struct URx { x: u8 }
#[verifier::external_body]
pub struct SendError { x: u8 }
impl core::fmt::Debug for SendError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// nobody listens to channel c any more (as seen by one call)
pub uninterp spec fn closed(c: int) -> bool;
impl UTx {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn send(&self, m: TransportMessage, calls: &mut Calls) -> (r: core::result::Result<(), SendError>) ensures r is Ok == !closed(self.ch()), final(calls).log() == old(calls).log().push(Ev::Sent(self.ch(), m)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == closed(self.ch()) { unimplemented!() }
}
impl URx { pub uninterp spec fn ch(&self) -> int; }
#[verifier::external_body]
pub fn unbounded_channel() -> (r: (UTx, URx)) ensures r.0.ch() == r.1.ch(), !closed(r.0.ch()) { unimplemented!() }
pub struct UnboundedReceiverStream { pub rx: URx }
impl UnboundedReceiverStream {
    pub fn new(rx: URx) -> (r: Self) ensures r.rx == rx { UnboundedReceiverStream { rx } }
    pub fn map<T: VFor>(self, t: T) -> (r: Mapped<T>) ensures r.rx == self.rx, r.t == t { Mapped { rx: self.rx, t } }
}
/// a stream of events: each message of channel rx through the lifted closure with what it captured
pub struct Mapped<T> { pub rx: URx, pub t: T }
pub trait VFor { spec fn sid(&self) -> Option<Seq<u8>>; }
impl VFor for () { open spec fn sid(&self) -> Option<Seq<u8>> { None } }
impl VFor for (String,) { open spec fn sid(&self) -> Option<Seq<u8>> { Some(self.0@) } }
pub struct Sse<T> { pub m: Mapped<T> }
impl<T> Sse<T> { pub fn new(m: Mapped<T>) -> (r: Self) ensures r.m == m { Sse { m } } }
#[verifier::external_body]
pub struct Event { x: u8 }
impl Event {
    pub uninterp spec fn get(&self) -> (Option<Seq<u8>>, Option<Seq<u8>>, Option<Seq<u8>>);
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.get() == (None::<Seq<u8>>, None::<Seq<u8>>, None::<Seq<u8>>) { unimplemented!() }
    #[verifier::external_body]
    pub fn id(self, s: String) -> (r: Self) requires self.get().0 is None ensures r.get() == (Some(s@), self.get().1, self.get().2) { unimplemented!() }
    #[verifier::external_body]
    pub fn event(self, s: &String) -> (r: Self) requires self.get().1 is None ensures r.get() == (self.get().0, Some(s@), self.get().2) { unimplemented!() }
    #[verifier::external_body]
    pub fn data(self, s: String) -> (r: Self) requires self.get().2 is None ensures r.get() == (self.get().0, self.get().1, Some(s@)) { unimplemented!() }
}
// ---- message text ----
pub uninterp spec fn mtext(m: TransportMessage) -> Seq<u8>;
pub uninterp spec fn mparse(s: Seq<u8>) -> Option<TransportMessage>;
#[verifier::external_body]
pub fn message_of(s: &String) -> (r: core::result::Result<TransportMessage, SerdeError>) ensures match r { Ok(m) => mparse(s@) == Some(m), Err(_) => mparse(s@) is None } { unimplemented!() }
/// ASSUMED: a message can always be written
#[verifier::external_body]
pub fn text_of(m: &TransportMessage) -> (r: core::result::Result<String, SerdeError>) ensures r is Ok && r->Ok_0@ == mtext(*m) { unimplemented!() }
// ---- answers ----
pub enum Body { Empty, Json(Value), Msg(TransportMessage), Stream(int, Option<Seq<u8>>) }
pub struct Response { pub status: StatusCode, pub headers: HeaderMap, pub body: Body }
impl Response {
    #[verifier::external_body]
    pub fn headers_mut(&mut self) -> (r: &mut HeaderMap) ensures *r == old(self).headers, *final(self) == (Response { headers: *final(r), ..*old(self) }) { unimplemented!() }
}
pub struct Json<T>(pub T);
pub trait VBody: Sized { spec fn body(&self) -> Body; }
impl VBody for Value { open spec fn body(&self) -> Body { Body::Json(*self) } }
impl VBody for TransportMessage { open spec fn body(&self) -> Body { Body::Msg(*self) } }
pub trait IntoResponse: Sized {
    spec fn is(&self, r: Response) -> bool;
    fn into_response(self) -> (r: Response) ensures self.is(r);
}
impl IntoResponse for StatusCode {
    open spec fn is(&self, r: Response) -> bool { r.status == *self && r.body is Empty }
    #[verifier::external_body]
    fn into_response(self) -> Response { unimplemented!() }
}
impl<T: VBody> IntoResponse for (StatusCode, Json<T>) {
    open spec fn is(&self, r: Response) -> bool { r.status == self.0 && r.body == self.1.0.body() }
    #[verifier::external_body]
    fn into_response(self) -> Response { unimplemented!() }
}
impl<T: VFor> IntoResponse for Sse<T> {
    open spec fn is(&self, r: Response) -> bool { r.status == StatusCode::OK && r.body == Body::Stream(self.m.rx.ch(), self.m.t.sid()) }
    #[verifier::external_body]
    fn into_response(self) -> Response { unimplemented!() }
}
//@extract src/server/streamable_http_server.rs struct:StreamableHttpServerConfig struct:SessionInfo struct:ServerState fn:create_error_response fn:validate_headers fn:process_init_session fn:validate_non_init_session fn:extract_negotiated_version fn:update_session_after_init fn:build_response fn:once_event fn:validate_protocol_version fn:handle_post_request fn:handle_get_sse fn:stream_event fn:handle_delete_session
//@expr header::CONTENT_TYPE => HeaderName::ContentType
//@expr header::ACCEPT => HeaderName::Accept
//@expr header::CACHE_CONTROL => HeaderName::CacheControl
//@expr header::CONNECTION => HeaderName::Connection
// ---- what the handlers promise ----
pub open spec fn htext(h: HeaderMap, k: Seq<u8>) -> Option<Seq<u8>> { if h@.contains_key(k) { h@[k].text() } else { None } }
pub open spec fn mentions(o: Option<Seq<u8>>, p: Seq<u8>) -> bool { o is Some && exists|j: int| #[trigger] matches_at(o->0, p, j) }
pub open spec fn sid_of(h: HeaderMap) -> Option<Seq<u8>> { htext(h, S("mcp-session-id")) }
pub open spec fn ver_of(h: HeaderMap) -> Option<Seq<u8>> { htext(h, S("mcp-protocol-version")) }
pub open spec fn last_of(h: HeaderMap) -> Option<Seq<u8>> { htext(h, S("last-event-id")) }
pub open spec fn post_type_ok(h: HeaderMap) -> bool { mentions(htext(h, S("content-type")), S("application/json")) }
pub open spec fn post_accept_ok(h: HeaderMap) -> bool { mentions(htext(h, S("accept")), S("application/json")) || mentions(htext(h, S("accept")), S("text/event-stream")) }
pub open spec fn get_accept_ok(h: HeaderMap) -> bool { mentions(htext(h, S("accept")), S("text/event-stream")) }
pub open spec fn strof(o: Option<Seq<u8>>) -> Option<String> { match o { Some(t) => Some(jstr(t)), None => None } }
/// an error answer: status and a JSON-RPC error body with the code
pub open spec fn refused(r: Response, st: int, code: int) -> bool {
    &&& r.status.code == st
    &&& r.body is Json && r.body->Json_0 is Object
    &&& r.body->Json_0->Object_0@.contains_key(S("error")) && r.body->Json_0->Object_0@[S("error")] is Object
    &&& r.body->Json_0->Object_0@[S("error")]->Object_0@.contains_key(S("code")) && r.body->Json_0->Object_0@[S("error")]->Object_0@[S("code")] == Value::Number(jnum(code))
}
pub open spec fn stateful(s: ServerState) -> bool { s.config.session_id_generator is Some }
pub open spec fn sess(s: ServerState) -> Map<String, SessionInfo> { s.sessions.v@ }
/// session ids and versions on file may stand in a header
pub open spec fn sinv(s: ServerState) -> bool {
    forall|k: String| #[trigger] sess(s).contains_key(k) ==> (sess(s)[k].protocol_version is Some ==> hv_ok(sess(s)[k].protocol_version->0@))
}
pub open spec fn okh(o: Option<String>) -> bool { o is Some ==> hv_ok(o->0@) }
pub open spec fn supported(v: Seq<u8>) -> bool { v == S("2025-06-18") || v == S("2025-03-26") || v == S("2024-11-05") || v == S("2024-10-07") }
pub open spec fn is_init(m: TransportMessage) -> bool { m is Request && m->Request_request is Client && m->Request_request->Client_0 is Initialize }
/// a generated session id is announced
pub open spec fn announced(l: Seq<Ev>, id: Seq<u8>, cb: Option<Callback>) -> Seq<Ev> { match cb { Some(c) => l.push(Ev::Generated(id)).push(Ev::Callback(c, id)), None => l.push(Ev::Generated(id)) } }
/// header names are compared in lower case
pub proof fn lemma_names()
    ensures lname(S("mcp-session-id")) == S("mcp-session-id"), lname(S("mcp-protocol-version")) == S("mcp-protocol-version"), lname(S("Last-Event-ID")) == S("last-event-id"),
        S("mcp-session-id") != S("mcp-protocol-version"), S("mcp-session-id") != S("cache-control"), S("mcp-session-id") != S("connection"), S("connection") != S("cache-control"),
        hv_ok(S("no-cache, no-transform")), hv_ok(S("keep-alive")), hv_ok(S("2025-03-26")),
{
    assert(lname(S("mcp-session-id")) =~= S("mcp-session-id"));
    assert(lname(S("mcp-protocol-version")) =~= S("mcp-protocol-version"));
    assert(lname(S("Last-Event-ID")) =~= S("last-event-id"));
    assert(S("mcp-session-id").len() == 14 && S("mcp-protocol-version").len() == 20 && S("cache-control").len() == 13 && S("connection").len() == 10);
}
//@fn create_error_response ret=r
    ensures r.status == status, refused(r, status.code as int, code as int)
//@end
//@fn validate_headers ret=r
    ensures
        method@ == S("POST") ==> match r {
            Ok(_) => post_type_ok(*headers) && post_accept_ok(*headers),
            Err(e) => if !post_type_ok(*headers) { refused(e, 415, -32700) } else { !post_accept_ok(*headers) && refused(e, 406, -32700) },
        },
        method@ == S("GET") ==> match r {
            Ok(_) => get_accept_ok(*headers),
            Err(e) => !get_accept_ok(*headers) && refused(e, 406, -32700),
        },
//@end
//@fn process_init_session ret=r
//@param state: &mut ServerState
//@addparam calls: &mut Calls
    requires sinv(*old(state)), okh(session_id), okh(protocol_version)
    ensures *final(state) == (ServerState { sessions: final(state).sessions, ..*old(state) }), sinv(*final(state)),
        !stateful(*old(state)) ==> r == Ok::<(Option<String>, bool), Response>((None, false)) && sess(*final(state)) == sess(*old(state)) && final(calls).log() == old(calls).log(),
        stateful(*old(state)) && session_id is Some ==> sess(*final(state)) == sess(*old(state)) && final(calls).log() == old(calls).log() && (
            if !sess(*old(state)).contains_key(session_id->0) { r is Err && refused(r->Err_0, 404, -32600) }
            else if sess(*old(state))[session_id->0].initialized { r is Err && refused(r->Err_0, 400, -32600) }
            else { r == Ok::<(Option<String>, bool), Response>((session_id, false)) }),
        stateful(*old(state)) && session_id is None ==> r is Ok && r->Ok_0.0 is Some && r->Ok_0.1 && hv_ok(r->Ok_0.0->0@)
            && sess(*final(state)) == sess(*old(state)).insert(r->Ok_0.0->0, SessionInfo { initialized: false, protocol_version })
            && final(calls).log() == announced(old(calls).log(), r->Ok_0.0->0@, old(state).config.on_session_initialized),
//@end
//@fn validate_non_init_session ret=r
    ensures
        !stateful(*state) ==> r == Ok::<Option<String>, Response>(None),
        stateful(*state) && session_id is None ==> r is Err && refused(r->Err_0, 400, -32600),
        stateful(*state) && session_id is Some && !sess(*state).contains_key(session_id->0) ==> r is Err && refused(r->Err_0, 404, -32600),
        stateful(*state) && session_id is Some && sess(*state).contains_key(session_id->0) ==> r == Ok::<Option<String>, Response>(session_id),
//@end
//@fn extract_negotiated_version ret=r
    ensures ov(r) == (if *response is Response { version_of(response->Response_0) } else { None })
//@end
/// the session after its initialize request was answered with version v
pub open spec fn inited(m: Map<String, SessionInfo>, sid: Option<String>, v: Option<Seq<u8>>, n: Map<String, SessionInfo>) -> bool {
    match sid {
        Some(s) => if m.contains_key(s) {
            n.contains_key(s) && n == m.insert(s, n[s]) && n[s].initialized && n[s].protocol_version is Some && n[s].protocol_version->0@ == (match v { Some(x) => x, None => S("2025-03-26") })
        } else { n == m },
        None => n == m,
    }
}
//@fn update_session_after_init
//@param state: &mut ServerState
    requires sinv(*old(state)), okh(negotiated_version)
    ensures *final(state) == (ServerState { sessions: final(state).sessions, ..*old(state) }), sinv(*final(state)),
        inited(sess(*old(state)), match session_id { Some(s) => Some(*s), None => None }, ov(negotiated_version), sess(*final(state)))
//@end
/// the open stream of a session
pub open spec fn open_stream(s: ServerState, sid: Option<String>) -> Option<int> {
    match sid { Some(k) => if s.sse_streams.v@.contains_key(k) && !closed(s.sse_streams.v@[k].ch()) { Some(s.sse_streams.v@[k].ch()) } else { None }, None => None }
}
/// an answer to a request of session sid: in the response, or through the session's open stream, or as a stream of one event
pub open spec fn delivered(s: ServerState, m: TransportMessage, sid: Option<String>, r: Response, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    if s.config.enable_json_response || sid is None { r.status.code == 200 && r.body == Body::Msg(m) && l1 == l0 }
    else { match open_stream(s, sid) {
        Some(c) => r.status.code == 202 && r.body is Empty && l1 == l0.push(Ev::Sent(c, m)),
        None => r.status.code == 200 && r.body is Stream && r.body->Stream_1 is None && l1 == l0.push(Ev::Sent(r.body->Stream_0, m)),
    } }
}
//@fn build_response ret=r
//@addparam calls: &mut Calls
    ensures delivered(*state, response, match session_id { Some(s) => Some(*s), None => None }, r, old(calls).log(), final(calls).log())
//@end
//@fn once_event ret=r
    ensures r is Ok && r->Ok_0.get().0 is Some && r->Ok_0.get().1 == Some(S("message")) && r->Ok_0.get().2 == Some(mtext(msg))
//@end
//@fn stream_event ret=r
//@addparam calls: &mut Calls
    ensures r is Ok && r->Ok_0.get().0 is Some && r->Ok_0.get().1 == Some(S("message")) && r->Ok_0.get().2 == Some(mtext(msg)),
        final(calls).log() == (if state.config.event_store is Some { old(calls).log().push(Ev::Stored(session_id@, r->Ok_0.get().0->0, msg)) } else { old(calls).log() })
//@end
/// the request's version: none named, or a supported one that is the session's own if it has one
pub open spec fn version_fits(s: ServerState, sid: Option<String>, v: Option<Seq<u8>>) -> bool {
    v is None || (supported(v->0) && (stateful(s) && sid is Some && sess(s).contains_key(sid->0) && sess(s)[sid->0].protocol_version is Some ==> sess(s)[sid->0].protocol_version->0@ == v->0))
}
//@fn validate_protocol_version ret=r
    ensures r is Ok <==> version_fits(*state, match session_id { Some(s) => Some(*s), None => None }, match protocol_version { Some(s) => Some(s@), None => None }),
        r is Err ==> refused(r->Err_0, 400, -32600)
//@end
/// why a message is turned away before anything is done about it (status)
pub open spec fn gate(s: ServerState, sid: Option<String>, v: Option<Seq<u8>>, m: TransportMessage) -> Option<int> {
    if is_init(m) {
        if stateful(s) && sid is Some { if !sess(s).contains_key(sid->0) { Some(404) } else if sess(s)[sid->0].initialized { Some(400) } else { None } } else { None }
    } else if stateful(s) && sid is None { Some(400) }
    else if stateful(s) && !sess(s).contains_key(sid->0) { Some(404) }
    else if !version_fits(s, sid, v) { Some(400) }
    else { None }
}
/// a fresh session is made for an initialize request without one, and never else
pub open spec fn makes(s: ServerState, sid: Option<String>, m: TransportMessage) -> bool { stateful(s) && is_init(m) && sid is None }
pub open spec fn sess_before(s: ServerState, sid: Option<String>, v: Option<String>, m: TransportMessage, rs: Option<String>) -> Map<String, SessionInfo> {
    if makes(s, sid, m) { sess(s).insert(rs->0, SessionInfo { initialized: false, protocol_version: v }) } else { sess(s) }
}
pub open spec fn log_before(s: ServerState, sid: Option<String>, m: TransportMessage, rs: Option<String>, l: Seq<Ev>) -> Seq<Ev> {
    if makes(s, sid, m) { announced(l, rs->0@, s.config.on_session_initialized) } else { l }
}
/// the version the answer names: the one negotiated by it, or the session's
pub open spec fn named_version(s1: Map<String, SessionInfo>, rs: Option<String>, m: TransportMessage, j: JSONRPCResponse) -> Seq<u8> {
    if is_init(m) { match version_of(j) { Some(v) => v, None => S("2025-03-26") } }
    else if rs is Some && s1.contains_key(rs->0) && s1[rs->0].protocol_version is Some { s1[rs->0].protocol_version->0@ }
    else { S("2025-03-26") }
}
/// the request was handled exactly once: what that did
pub open spec fn served(s: ServerState, s1: ServerState, m: TransportMessage, sid: Option<String>, v: Option<String>, r: Response, l: Seq<Ev>, l1: Seq<Ev>, rs: Option<String>, j: JSONRPCResponse, eid: Seq<u8>) -> bool {
    let b = log_before(s, sid, m, rs, l).push(Ev::Handled(m->Request_id, m->Request_request, j));
    let k = if s.config.event_store is Some && rs is Some { b.push(Ev::Stored(rs->0@, eid, TransportMessage::Response(j))) } else { b };
    let s0 = sess_before(s, sid, v, m, rs);
    &&& (if is_init(m) { inited(s0, rs, version_of(j), sess(s1)) } else { sess(s1) == s0 })
    &&& delivered(s, TransportMessage::Response(j), sid, r, k, l1)
    &&& htext(r.headers, S("mcp-protocol-version")) == Some(named_version(sess(s1), rs, m, j))
    &&& (rs is Some ==> htext(r.headers, S("mcp-session-id")) == Some(rs->0@))
}
//@fn handle_post_request ret=r
//@param state: &mut ServerState
//@addparam calls: &mut Calls
    requires sinv(*old(state))
    ensures sinv(*final(state)), *final(state) == (ServerState { sessions: final(state).sessions, ..*old(state) }),
        ({
            let s = *old(state); let s1 = *final(state); let l = old(calls).log(); let l1 = final(calls).log();
            let same = sess(s1) == sess(s) && l1 == l;
            if !post_type_ok(headers) { refused(r, 415, -32700) && same }
            else if !post_accept_ok(headers) { refused(r, 406, -32700) && same }
            else { match mparse(body@) {
                None => refused(r, 400, -32700) && same,
                Some(m) => post_of(s, s1, m, strof(sid_of(headers)), strof(ver_of(headers)), r, l, l1),
            } }
        })
//@start
    proof { lemma_names(); }
//@end
pub open spec fn post_of(s: ServerState, s1: ServerState, m: TransportMessage, sid: Option<String>, v: Option<String>, r: Response, l: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let same = sess(s1) == sess(s) && l1 == l;
    match gate(s, sid, ov(v), m) {
        Some(st) => refused(r, st, -32600) && same,
        None => if m is Request {
            let rs = if makes(s, sid, m) { Some(jstr(l1[l.len() as int]->Generated_0)) } else if stateful(s) { sid } else { None };
            let h = log_before(s, sid, m, rs, l).len() as int;
            l1[h] is Handled && served(s, s1, m, sid, v, r, l, l1, rs, l1[h]->Handled_2, l1[h + 1]->Stored_1)
        } else { r.status.code == 202 && r.body is Empty && same },
    }
}
/// b, then of the first n events after the given one those of session sid, in order
pub open spec fn replayed(b: Seq<Ev>, st: Store, evs: Seq<(String, TransportMessage)>, n: int, sid: Seq<u8>, c: int) -> Seq<Ev> decreases n {
    if n <= 0 { b } else {
        let p = replayed(b, st, evs, n - 1, sid, c);
        match st.stream(evs[n - 1].0@) { Ok(Some(x)) => if x@ == sid { p.push(Ev::Sent(c, evs[n - 1].1)) } else { p }, _ => p }
    }
}
pub proof fn lemma_replayed(b: Seq<Ev>, st: Store, evs: Seq<(String, TransportMessage)>, n: int, sid: Seq<u8>, c: int)
    requires 0 <= n
    ensures replayed(b, st, evs, n, sid, c).len() >= b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] replayed(b, st, evs, n, sid, c)[i] == b[i]
    decreases n
{ if n > 0 { lemma_replayed(b, st, evs, n - 1, sid, c); } }
pub open spec fn replay_of(b: Seq<Ev>, s: ServerState, last: Option<Seq<u8>>, sid: Seq<u8>, c: int) -> Seq<Ev> {
    match (s.config.event_store, last) {
        (Some(st), Some(t)) => match st.after(t) { Ok(evs) => replayed(b, st, evs@, evs@.len() as int, sid, c), Err(_) => b },
        _ => b,
    }
}
/// a stream is opened for session id: one channel filed under the session, its replay, its headers
pub open spec fn opened(s: ServerState, s1: ServerState, id: String, last: Option<Seq<u8>>, r: Response, b: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let tx = s1.sse_streams.v@[id];
    &&& s1.sse_streams.v@ == s.sse_streams.v@.insert(id, tx) && !closed(tx.ch())
    &&& r.status.code == 200 && r.body == Body::Stream(tx.ch(), Some(id@))
    &&& htext(r.headers, S("mcp-session-id")) == Some(id@)
    &&& htext(r.headers, S("cache-control")) == Some(S("no-cache, no-transform"))
    &&& l1 == replay_of(b, s, last, id@, tx.ch())
}
pub open spec fn get_of(s: ServerState, s1: ServerState, sid: Option<String>, id: String, last: Option<Seq<u8>>, r: Response, l: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let b = if sid is None { announced(l, id@, s.config.on_session_initialized) } else { l };
    &&& (sid is Some ==> id == sid->0)
    &&& sess(s1) == (if sid is None { sess(s).insert(id, SessionInfo { initialized: true, protocol_version: None }) } else { sess(s) })
    &&& (if open_stream(s, Some(id)) is Some { refused(r, 409, -32600) && l1 == b && s1.sse_streams == s.sse_streams } else { opened(s, s1, id, last, r, b, l1) })
}
//@fn handle_get_sse ret=r
//@param state: &mut ServerState
//@addparam calls: &mut Calls
    requires sinv(*old(state))
    ensures sinv(*final(state)), *final(state) == (ServerState { sessions: final(state).sessions, sse_streams: final(state).sse_streams, ..*old(state) }),
        ({
            let s = *old(state); let s1 = *final(state); let l = old(calls).log(); let l1 = final(calls).log();
            let same = s1 == s && l1 == l;
            if !get_accept_ok(headers) { refused(r, 406, -32700) && same }
            else { get_gate(s, s1, strof(sid_of(headers)), last_of(headers), r, l, l1) }
        })
//@start
    proof { lemma_names(); }
//@beforeloop 0
    let ghost b0 = calls.log();
//@loop 0
    invariant __it0.wf(), old(state).config.event_store is Some, *event_store == old(state).config.event_store->0,
        calls.log() == replayed(b0, old(state).config.event_store->0, __it0.seq(), __it0.pos(), session_id@, tx.ch()),
        old(state).config.event_store->0.after(last_id@) is Ok, old(state).config.event_store->0.after(last_id@)->Ok_0@ == __it0.seq(),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof { lemma_replayed(b0, old(state).config.event_store->0, old(state).config.event_store->0.after(last_id@)->Ok_0@, old(state).config.event_store->0.after(last_id@)->Ok_0@.len() as int, session_id@, tx.ch());
    }
//@end
pub open spec fn get_gate(s: ServerState, s1: ServerState, sid: Option<String>, last: Option<Seq<u8>>, r: Response, l: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let id = match sid { Some(x) => x, None => jstr(l1[l.len() as int]->Generated_0) };
    let same = s1 == s && l1 == l;
    if sid is Some && stateful(s) && !sess(s).contains_key(sid->0) { refused(r, 404, -32600) && same }
    else if sid is None && !stateful(s) { refused(r, 405, -32601) && same }
    else { get_of(s, s1, sid, id, last, r, l, l1) }
}
//@fn handle_delete_session ret=r
//@param state: &mut ServerState
//@addparam calls: &mut Calls
    requires sinv(*old(state))
    ensures sinv(*final(state)), *final(state) == (ServerState { sessions: final(state).sessions, sse_streams: final(state).sse_streams, ..*old(state) }),
        delete_of(*old(state), *final(state), strof(sid_of(headers)), r, old(calls).log(), final(calls).log())
//@start
    proof { lemma_names(); }
//@end
pub open spec fn delete_of(s: ServerState, s1: ServerState, sid: Option<String>, r: Response, l: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let same = s1 == s && l1 == l;
    if sid is None || (stateful(s) && !sess(s).contains_key(sid->0)) { refused(r, 404, -32600) && same }
    else {
        &&& sess(s1) == sess(s).remove(sid->0) && s1.sse_streams.v@ == s.sse_streams.v@.remove(sid->0)
        &&& l1 == (match s.config.on_session_closed { Some(c) => l.push(Ev::Callback(c, sid->0@)), None => l })
        &&& r.status.code == 200
    }
}
