//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include uuid.rs
//@include jsonrpc.rs
//@include errread.rs
//@consts src/lib.rs
//@call oneshot::channel = oneshot_channel
//@type oneshot::Sender<()> = OneSender
//@dropfield Client.protocol Client.notification_tx
#[verifier::external_body]
pub struct ListToolsResult { x: u8 }
#[verifier::external_body]
pub struct CallToolResult { x: u8 }
#[verifier::external_body]
pub struct ListPromptsResult { x: u8 }
#[verifier::external_body]
pub struct GetPromptResult { x: u8 }
#[verifier::external_body]
pub struct ListResourcesResult { x: u8 }
#[verifier::external_body]
pub struct ListResourceTemplatesResult { x: u8 }
#[verifier::external_body]
pub struct ReadResourceResult { x: u8 }
#[verifier::external_body]
pub struct CompleteResult { x: u8 }
#[verifier::external_body]
pub struct CreateMessageResult { x: u8 }
#[verifier::external_body]
pub struct CompleteRequest { x: u8 }
#[verifier::external_body]
pub struct CreateMessageParams { x: u8 }
#[verifier::external_body]
pub struct LoggingLevel { x: u8 }
#[verifier::external_body]
pub struct ElicitInputResponse { x: u8 }
#[verifier::external_body]
pub struct ServerRequest { x: u8 }
#[verifier::external_body]
pub struct ServerNotification { x: u8 }
#[verifier::external_body]
pub struct ProgressNotification { x: u8 }
#[verifier::external_body]
pub struct OAuthInfo { x: u8 }
#[verifier::external_body]
pub struct ToolCapabilities { x: u8 }
#[verifier::external_body]
pub struct PromptCapabilities { x: u8 }
#[verifier::external_body]
pub struct LoggingCapabilities { x: u8 }
#[verifier::external_body]
pub struct CompletionCapabilities { x: u8 }
#[verifier::external_body]
pub struct SamplingCapabilities { x: u8 }
/// a cancellation channel nobody receives from
#[verifier::external_body]
pub struct OneSender { x: u8 }
#[verifier::external_body]
pub struct OneReceiver { x: u8 }
impl OneSender {
    #[verifier::external_body]
    pub fn send(self, v: ()) -> (r: core::result::Result<(), ()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn oneshot_channel() -> (r: (OneSender, OneReceiver)) { unimplemented!() }
pub type InitializeParams = InitializeRequest;
pub type ListToolsParams = ListToolsRequest;
pub type CallToolParams = CallToolRequest;
pub type ListPromptsParams = ListPromptsRequest;
pub type GetPromptParams = GetPromptRequest;
pub type ListResourcesParams = ListResourcesRequest;
pub type ReadResourceParams = ReadResourceRequest;
pub type CreateMessageRequest = CreateMessageParams;
pub type CancelledParams = CancelledNotification;
pub type Progress = ProgressNotification;
pub type Cursor = Option<String>;
pub type Resp = JSONRPCResponse<Value, JSONRPCError>;
//@extract src/types/capabilities.rs struct:ResourceCapabilities struct:RootsCapabilities struct:ClientCapabilities struct:ServerCapabilities
//@extract src/types/protocol.rs struct:ProtocolVersion struct:Implementation struct:InitializeRequest struct:InitializeResult struct:ListToolsRequest struct:CallToolRequest struct:ListPromptsRequest struct:GetPromptRequest struct:ListResourcesRequest struct:ListResourceTemplatesRequest struct:ReadResourceRequest struct:SubscribeRequest struct:UnsubscribeRequest struct:CancelledNotification enum:ClientRequest enum:Request enum:ClientNotification enum:Notification
//@fn ProtocolVersion::as_str ret=r
    ensures *r == self.0
//@end
//@extract src/types/protocol.rs impl:ProtocolVersion::{as_str}
impl VDisp for ProtocolVersion { open spec fn disp(&self) -> Seq<u8> { self.0@ } }
//@extract src/types/auth.rs enum:AuthScheme struct:AuthInfo
//@extract src/shared/transport.rs enum:TransportMessage
impl Deserialize for InitializeResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for ListToolsResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for CallToolResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for ListPromptsResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for GetPromptResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for ListResourcesResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for ListResourceTemplatesResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for ReadResourceResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for CompleteResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
impl Deserialize for CreateMessageResult { open spec fn de(v: Value) -> Option<Self> { de_of(v) } }
/// what went over the wire, in order, with the outcome of each operation
pub enum Ev { Sent(TransportMessage, VResult<()>), Got(VResult<TransportMessage>) }
pub trait Transport: Sized {
    spec fn log(&self) -> Seq<Ev>;
    fn send(&mut self, m: TransportMessage) -> (r: VResult<()>) ensures final(self).log() == old(self).log().push(Ev::Sent(m, r));
    fn receive(&mut self) -> (r: VResult<TransportMessage>) ensures final(self).log() == old(self).log().push(Ev::Got(r));
}
//@extract src/shared/protocol.rs struct:ProtocolOptions
//@extract src/client/mod.rs struct:ClientBuilder impl:ClientBuilder::{enforce_strict_capabilities,debounced_notifications}
//@fn ClientBuilder::enforce_strict_capabilities ret=r
    ensures r.transport == self.transport, r.options.enforce_strict_capabilities == enforce, r.options.debounced_notification_methods == self.options.debounced_notification_methods
//@end
//@fn ClientBuilder::debounced_notifications ret=r
    ensures r.transport == self.transport, r.options.debounced_notification_methods == methods, r.options.enforce_strict_capabilities == self.options.enforce_strict_capabilities
//@end
//@extract src/client/mod.rs struct:Client impl:Client::{with_info,with_options,initialize,get_server_capabilities,get_server_version,get_instructions,ping,set_logging_level,list_tools,call_tool,list_prompts,get_prompt,list_resources,list_resource_templates,read_resource,subscribe_resource,unsubscribe_resource,complete,create_message,send_roots_list_changed,authenticate,cancel_request,send_progress,ensure_initialized,assert_capability,send_request,send_notification}
#[verifier::inline]
pub open spec fn wire<T: Transport>(c: Client<T>) -> Seq<Ev> { c.transport.v.log() }
/// everything but the wire and the cancellation bookkeeping is untouched
pub open spec fn only_wire<T: Transport>(a: Client<T>, b: Client<T>) -> bool { b == (Client { transport: b.transport, active_requests: b.active_requests, ..a }) }
/// what the server declared when it was initialized
pub open spec fn offers<T: Transport>(c: Client<T>, k: Seq<u8>) -> bool {
    c.server_capabilities is Some && {
        let s = c.server_capabilities->0;
        (k == S("tools") && s.tools is Some) || (k == S("prompts") && s.prompts is Some) || (k == S("resources") && s.resources is Some)
        || (k == S("logging") && s.logging is Some) || (k == S("completions") && s.completions is Some) || (k == S("sampling") && s.sampling is Some)
    }
}
pub open spec fn subscribable<T: Transport>(c: Client<T>) -> bool { c.server_capabilities->0.resources->0.subscribe == Some(true) }
pub open spec fn fresh_id(i: RequestId) -> bool { i is String && exists|u: Uuid| #[trigger] u.random() && i->String_0@ == u.text() }
/// one request goes out, and p is what came back for it: the response read next, or the failure to send or to read one
pub open spec fn asked(a: Seq<Ev>, b: Seq<Ev>, id: RequestId, q: Request, p: VResult<Resp>) -> bool {
    let n = a.len() as int;
    let m = TransportMessage::Request { id, request: q };
    match b[n]->Sent_1 {
        Err(e) => b == a.push(Ev::Sent(m, Err::<(), Error>(e))) && p == Err::<Resp, Error>(e),
        Ok(_) => {
            let g = b[n + 1]->Got_0;
            b == a.push(Ev::Sent(m, Ok::<(), Error>(()))).push(Ev::Got(g)) && match g {
                Err(e) => p == Err::<Resp, Error>(e),
                Ok(TransportMessage::Response(x)) => p == Ok::<Resp, Error>(x),
                Ok(_) => p is Err && p->Err_0 is Protocol,
            }
        },
    }
}
/// the server's error, as the caller sees it
pub open spec fn told(j: JSONRPCError, e: Error) -> bool { e is Protocol && e->Protocol_code.0 as int == read_code(j.code as int) && e->Protocol_message == j.message && e->Protocol_data == j.data }
pub open spec fn acked(p: VResult<Resp>, r: VResult<()>) -> bool {
    match p { Err(e) => r == Err::<(), Error>(e), Ok(x) => match x.payload { ResponsePayload::Result(_) => r is Ok, ResponsePayload::Error(j) => r is Err && told(j, r->Err_0) } }
}
pub open spec fn read_as<R: Deserialize>(p: VResult<Resp>, r: VResult<R>) -> bool {
    match p { Err(e) => r == Err::<R, Error>(e), Ok(x) => match x.payload {
        ResponsePayload::Result(v) => match R::de(v) { Some(y) => r == Ok::<R, Error>(y), None => r is Err && r->Err_0 is Protocol && r->Err_0->Protocol_code.0 == -32700 },
        ResponsePayload::Error(j) => r is Err && told(j, r->Err_0),
    } }
}
/// the outcome of a request method: refused without a word on the wire, or exactly one exchange whose response decides the outcome
pub open spec fn requested<T: Transport>(a: Client<T>, b: Client<T>, cap: bool, q: ClientRequest, outcome: spec_fn(VResult<Resp>) -> bool, is_state: bool, is_cap: bool) -> bool {
    if !a.initialized { b == a && is_state }
    else if !cap { b == a && is_cap }
    else { exists|id: RequestId, p: VResult<Resp>| #[trigger] asked(wire(a), wire(b), id, Request::Client(q), p) && fresh_id(id) && outcome(p) }
}
/// one notification goes out
pub open spec fn notified(a: Seq<Ev>, b: Seq<Ev>, n: Notification, r: VResult<()>) -> bool { b == a.push(Ev::Sent(TransportMessage::Notification(n), r)) }
pub open spec fn supported(v: Seq<u8>) -> bool { v == S("2025-06-18") || v == S("2025-03-26") || v == S("2024-11-05") || v == S("2024-10-07") }
/// what a first call of initialize does, given the response p
pub open spec fn joined<T: Transport>(a: Client<T>, m: Seq<Ev>, b: Client<T>, p: VResult<Resp>, r: VResult<InitializeResult>) -> bool {
    let accepted = p is Ok && p->Ok_0.payload is Result && InitializeResult::de(p->Ok_0.payload->Result_0) is Some && supported(InitializeResult::de(p->Ok_0.payload->Result_0)->0.protocol_version.0@);
    if accepted {
        let y = InitializeResult::de(p->Ok_0.payload->Result_0)->0;
        &&& b.initialized && b.server_capabilities == Some(y.capabilities) && b.server_version == Some(y.server_info) && b.instructions == y.instructions && b.info == a.info
        &&& wire(b).len() == m.len() + 1 && wire(b).last() is Sent && notified(m, wire(b), Notification::Client(ClientNotification::Initialized), wire(b).last()->Sent_1)
        &&& match wire(b).last()->Sent_1 { Ok(_) => r == Ok::<InitializeResult, Error>(y), Err(e) => r == Err::<InitializeResult, Error>(e) }
    } else {
        &&& !b.initialized && b.server_capabilities == a.server_capabilities && b.server_version == a.server_version && b.instructions == a.instructions && b.info == a.info && wire(b) == m
        &&& r is Err && (p is Err ==> r->Err_0 == p->Err_0) && (p is Ok && p->Ok_0.payload is Error ==> told(p->Ok_0.payload->Error_0, r->Err_0)) && (p is Ok ==> r->Err_0 is Protocol)
    }
}
//@fn Client::with_info ret=r
    ensures !r.initialized, r.info == client_info, r.server_capabilities is None, r.capabilities is None, wire(r) == transport.log()
//@end
//@fn Client::with_options ret=r
    ensures !r.initialized, r.info == client_info, r.server_capabilities is None, r.capabilities is None, wire(r) == transport.log()
//@end
//@fn Client::get_server_capabilities ret=r
    ensures r is Some <==> self.server_capabilities is Some, r is Some ==> *r->0 == self.server_capabilities->0
//@end
//@fn Client::get_server_version ret=r
    ensures r is Some <==> self.server_version is Some, r is Some ==> *r->0 == self.server_version->0
//@end
//@fn Client::get_instructions ret=r
    ensures r is Some <==> self.instructions is Some, r is Some ==> r->0@ == self.instructions->0@
//@end
//@fn Client::ensure_initialized ret=r
    ensures r is Ok <==> self.initialized, r is Err ==> r->Err_0 is InvalidState
//@end
//@fn Client::assert_capability ret=r
    ensures r is Ok <==> offers(*self, capability@), r is Err ==> r->Err_0 is UnsupportedCapability
//@end
//@fn Client::send_request ret=r mutself
    ensures only_wire(*old(self), *final(self)), asked(wire(*old(self)), wire(*final(self)), request_id, request, r)
//@end
//@fn Client::send_notification ret=r mutself
    ensures *final(self) == (Client { transport: final(self).transport, ..*old(self) }), notified(wire(*old(self)), wire(*final(self)), notification, r)
//@end
//@fn Client::initialize ret=r mutself
    ensures
        old(self).initialized ==> *final(self) == *old(self) && r is Err && r->Err_0 is InvalidState,
        !old(self).initialized ==> exists|id: RequestId, q: InitializeRequest, m: Seq<Ev>, p: VResult<Resp>| #[trigger] asked(wire(*old(self)), m, id, Request::Client(ClientRequest::Initialize(q)), p) && fresh_id(id)
            && q.protocol_version@ == S("2025-06-18") && q.capabilities == capabilities && q.client_info == old(self).info && joined(*old(self), m, *final(self), p, r),
//@end
//@fn Client::send_roots_list_changed ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        !old(self).initialized ==> *final(self) == *old(self) && r is Err && r->Err_0 is InvalidState,
        old(self).initialized && old(self).capabilities is Some && old(self).capabilities->0.roots is Some && !old(self).capabilities->0.roots->0.list_changed ==> *final(self) == *old(self) && r is Err && r->Err_0 is UnsupportedCapability,
        old(self).initialized && old(self).capabilities is Some && old(self).capabilities->0.roots is Some && old(self).capabilities->0.roots->0.list_changed ==> notified(wire(*old(self)), wire(*final(self)), Notification::Client(ClientNotification::RootsListChanged), r),
//@end
//@fn Client::authenticate ret=r
    ensures !self.initialized ==> r is Err && r->Err_0 is InvalidState,
        self.initialized ==> (r is Ok <==> match auth_info.scheme { AuthScheme::Bearer => auth_info.token is Some, AuthScheme::OAuth2 => auth_info.oauth is Some, _ => true }) && (r is Err ==> r->Err_0 is Validation),
//@end
//@fn Client::cancel_request ret=r mutself
    ensures only_wire(*old(self), *final(self)), wire(*final(self)).len() == wire(*old(self)).len() + 1, wire(*final(self)).drop_last() == wire(*old(self)),
        wire(*final(self)).last() is Sent, wire(*final(self)).last()->Sent_0 is Notification, wire(*final(self)).last()->Sent_0->Notification_0 is Cancelled,
        wire(*final(self)).last()->Sent_0->Notification_0->Cancelled_0.request_id == *request_id,
        wire(*final(self)).last()->Sent_1 == r,
//@end
//@fn Client::send_progress ret=r mutself
    ensures only_wire(*old(self), *final(self)), notified(wire(*old(self)), wire(*final(self)), Notification::Progress(progress), r)
//@end
//@fn Client::ping ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), true, ClientRequest::Ping, |p: VResult<Resp>| acked(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::set_logging_level ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("logging")), ClientRequest::SetLoggingLevel { level }, |p: VResult<Resp>| acked(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::list_tools ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("tools")), ClientRequest::ListTools(ListToolsRequest { cursor }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::call_tool ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("tools")), ClientRequest::CallTool(CallToolRequest { name, arguments }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::list_prompts ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("prompts")), ClientRequest::ListPrompts(ListPromptsRequest { cursor }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::get_prompt ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("prompts")), ClientRequest::GetPrompt(GetPromptRequest { name, arguments }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::list_resources ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("resources")), ClientRequest::ListResources(ListResourcesRequest { cursor }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::list_resource_templates ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("resources")), ClientRequest::ListResourceTemplates(ListResourceTemplatesRequest { cursor }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::read_resource ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("resources")), ClientRequest::ReadResource(ReadResourceRequest { uri }), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::subscribe_resource ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("resources")) && subscribable(*old(self)), ClientRequest::Subscribe(SubscribeRequest { uri }), |p: VResult<Resp>| acked(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::unsubscribe_resource ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("resources")), ClientRequest::Unsubscribe(UnsubscribeRequest { uri }), |p: VResult<Resp>| acked(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::complete ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("completions")), ClientRequest::Complete(params), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
//@fn Client::create_message ret=r mutself
    ensures only_wire(*old(self), *final(self)),
        requested(*old(self), *final(self), offers(*old(self), S("sampling")), ClientRequest::CreateMessage(params), |p: VResult<Resp>| read_as(p, r), r is Err && r->Err_0 is InvalidState, r is Err && r->Err_0 is UnsupportedCapability)
//@end
