//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include jsonrpc.rs
//@expr *boxed_req => boxed_req
//@expr *server_req => server_req
// payloads: their own derive-generated (de)serialization stays abstract
#[verifier::external_body]
pub struct InitializeRequest { x: u8 }
impl Serialize for InitializeRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for InitializeRequest { open spec fn de(v: Value) -> Option<InitializeRequest> { de_of(v) } }
#[verifier::external_body]
pub struct ListToolsRequest { x: u8 }
impl Serialize for ListToolsRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ListToolsRequest { open spec fn de(v: Value) -> Option<ListToolsRequest> { de_of(v) } }
#[verifier::external_body]
pub struct CallToolRequest { x: u8 }
impl Serialize for CallToolRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for CallToolRequest { open spec fn de(v: Value) -> Option<CallToolRequest> { de_of(v) } }
#[verifier::external_body]
pub struct ListPromptsRequest { x: u8 }
impl Serialize for ListPromptsRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ListPromptsRequest { open spec fn de(v: Value) -> Option<ListPromptsRequest> { de_of(v) } }
#[verifier::external_body]
pub struct GetPromptRequest { x: u8 }
impl Serialize for GetPromptRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for GetPromptRequest { open spec fn de(v: Value) -> Option<GetPromptRequest> { de_of(v) } }
#[verifier::external_body]
pub struct ListResourcesRequest { x: u8 }
impl Serialize for ListResourcesRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ListResourcesRequest { open spec fn de(v: Value) -> Option<ListResourcesRequest> { de_of(v) } }
#[verifier::external_body]
pub struct ListResourceTemplatesRequest { x: u8 }
impl Serialize for ListResourceTemplatesRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ListResourceTemplatesRequest { open spec fn de(v: Value) -> Option<ListResourceTemplatesRequest> { de_of(v) } }
#[verifier::external_body]
pub struct ReadResourceRequest { x: u8 }
impl Serialize for ReadResourceRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ReadResourceRequest { open spec fn de(v: Value) -> Option<ReadResourceRequest> { de_of(v) } }
#[verifier::external_body]
pub struct SubscribeRequest { x: u8 }
impl Serialize for SubscribeRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for SubscribeRequest { open spec fn de(v: Value) -> Option<SubscribeRequest> { de_of(v) } }
#[verifier::external_body]
pub struct UnsubscribeRequest { x: u8 }
impl Serialize for UnsubscribeRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for UnsubscribeRequest { open spec fn de(v: Value) -> Option<UnsubscribeRequest> { de_of(v) } }
#[verifier::external_body]
pub struct CompleteRequest { x: u8 }
impl Serialize for CompleteRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for CompleteRequest { open spec fn de(v: Value) -> Option<CompleteRequest> { de_of(v) } }
#[verifier::external_body]
pub struct LoggingLevel { x: u8 }
impl Serialize for LoggingLevel { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for LoggingLevel { open spec fn de(v: Value) -> Option<LoggingLevel> { de_of(v) } }
#[verifier::external_body]
pub struct CreateMessageParams { x: u8 }
impl Serialize for CreateMessageParams { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for CreateMessageParams { open spec fn de(v: Value) -> Option<CreateMessageParams> { de_of(v) } }
#[verifier::external_body]
pub struct ElicitInputResponse { x: u8 }
impl Serialize for ElicitInputResponse { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ElicitInputResponse { open spec fn de(v: Value) -> Option<ElicitInputResponse> { de_of(v) } }
#[verifier::external_body]
pub struct ElicitInputRequest { x: u8 }
impl Serialize for ElicitInputRequest { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ElicitInputRequest { open spec fn de(v: Value) -> Option<ElicitInputRequest> { de_of(v) } }
#[verifier::external_body]
pub struct CancelledNotification { x: u8 }
impl Serialize for CancelledNotification { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for CancelledNotification { open spec fn de(v: Value) -> Option<CancelledNotification> { de_of(v) } }
#[verifier::external_body]
pub struct ProgressNotification { x: u8 }
impl Serialize for ProgressNotification { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ProgressNotification { open spec fn de(v: Value) -> Option<ProgressNotification> { de_of(v) } }
#[verifier::external_body]
pub struct ResourceUpdatedParams { x: u8 }
impl Serialize for ResourceUpdatedParams { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for ResourceUpdatedParams { open spec fn de(v: Value) -> Option<ResourceUpdatedParams> { de_of(v) } }
#[verifier::external_body]
pub struct LogMessageParams { x: u8 }
impl Serialize for LogMessageParams { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Deserialize for LogMessageParams { open spec fn de(v: Value) -> Option<LogMessageParams> { de_of(v) } }
pub type InitializeParams = InitializeRequest;
pub type ListToolsParams = ListToolsRequest;
pub type CallToolParams = CallToolRequest;
pub type ListPromptsParams = ListPromptsRequest;
pub type GetPromptParams = GetPromptRequest;
pub type ListResourcesParams = ListResourcesRequest;
pub type ReadResourceParams = ReadResourceRequest;
pub type Progress = ProgressNotification;
pub type CreateMessageRequest = CreateMessageParams;
pub type CancelledParams = CancelledNotification;
//@extract src/types/protocol.rs enum:ClientRequest enum:ServerRequest enum:ClientNotification enum:ServerNotification +tags
//@extract src/types/protocol.rs enum:Request enum:Notification
impl<P> Deserialize for JSONRPCNotification<P> { open spec fn de(v: Value) -> Option<JSONRPCNotification<P>> { de_of(v) } }
pub open spec fn nn(p: Option<Value>) -> Value { match p { Some(v) => v, None => Value::Null } }
/// how a method and its parameters are read
pub open spec fn request_of(m: Seq<u8>, p: Value) -> Option<Request> {
    match ClientRequest_of(m, p) {
        Some(x) => Some(Request::Client(x)),
        None => match ServerRequest_of(m, p) { Some(x) => Some(Request::Server(x)), None => None },
    }
}
pub open spec fn notif_of(m: Seq<u8>, p: Value) -> Option<Notification> {
    if m == S("notifications/progress") { match de::<ProgressNotification>(p) { Some(x) => Some(Notification::Progress(x)), None => None } }
    else if m == S("notifications/cancelled") { match de::<CancelledNotification>(p) { Some(x) => Some(Notification::Cancelled(x)), None => None } }
    else { match ClientNotification_of(m, p) {
        Some(x) => Some(Notification::Client(x)),
        None => match ServerNotification_of(m, p) { Some(x) => Some(Notification::Server(x)), None => None },
    } }
}
pub open spec fn request_tag(q: Request) -> Seq<u8> { match q { Request::Client(x) => ClientRequest_tag(x), Request::Server(x) => ServerRequest_tag(x) } }
pub open spec fn request_content(q: Request, p: Option<Value>) -> bool { match q { Request::Client(x) => ClientRequest_content(x, p), Request::Server(x) => ServerRequest_content(x, p) } }
pub open spec fn notif_tag(q: Notification) -> Seq<u8> {
    match q { Notification::Client(x) => ClientNotification_tag(x), Notification::Server(x) => ServerNotification_tag(x),
        Notification::Progress(_) => S("notifications/progress"), Notification::Cancelled(_) => S("notifications/cancelled") }
}
pub open spec fn notif_content(q: Notification, p: Option<Value>) -> bool {
    match q { Notification::Client(x) => ClientNotification_content(x, p), Notification::Server(x) => ServerNotification_content(x, p),
        Notification::Progress(x) => p == Some(x.ser()), Notification::Cancelled(x) => p == Some(x.ser()) }
}
//@fn JSONRPCRequest::new ret=r
    ensures r.jsonrpc@ == S("2.0"), r.id == id, r.method@ == method.txt(), r.params == params
//@end
//@fn JSONRPCNotification::new ret=r
    ensures r.jsonrpc@ == S("2.0"), r.method@ == method.txt(), r.params == params
//@end
//@extract src/types/jsonrpc.rs impl:JSONRPCRequest::{new} impl:JSONRPCNotification::{new}
//@fn parse_client_request ret=r
    ensures match ClientRequest_of(method@, *params) { Some(x) => r == Ok::<ClientRequest, Error>(x), None => r is Err }
//@end
//@fn parse_server_request ret=r
    ensures match ServerRequest_of(method@, *params) { Some(x) => r == Ok::<ServerRequest, Error>(x), None => r is Err }
//@end
//@fn parse_client_notification ret=r
    ensures match ClientNotification_of(method@, *params) { Some(x) => r == Ok::<ClientNotification, Error>(x), None => r is Err }
//@end
//@fn parse_server_notification ret=r
    ensures match ServerNotification_of(method@, *params) { Some(x) => r == Ok::<ServerNotification, Error>(x), None => r is Err }
//@end
//@fn client_request_to_jsonrpc ret=r
    ensures r.0@ == ClientRequest_tag(req), ClientRequest_content(req, r.1)
//@end
//@fn server_request_to_jsonrpc ret=r
    ensures r.0@ == ServerRequest_tag(req), ServerRequest_content(req, r.1)
//@end
//@fn client_notification_to_jsonrpc ret=r
    ensures r.0@ == ClientNotification_tag(notif), ClientNotification_content(notif, r.1)
//@end
//@fn server_notification_to_jsonrpc ret=r
    ensures r.0@ == ServerNotification_tag(notif), ServerNotification_content(notif, r.1)
//@end
//@fn create_method_params ret=r
    ensures r.0@ == method@, r.1 == Some(params.ser())
//@end
//@fn parse_request ret=r
    ensures match request_of(request.method@, nn(request.params)) {
        Some(x) => r == Ok::<(RequestId, Request), Error>((request.id, x)),
        None => r is Err && proto(r->Err_0, -32601, S("Method not found: ") + request.method@),
    }
//@end
//@fn create_request ret=r
    ensures r.jsonrpc@ == S("2.0"), r.id == id, r.method@ == request_tag(request), request_content(request, r.params)
//@end
//@fn parse_notification ret=r
    ensures match de_of::<JSONRPCNotification<Value>>(value) {
        None => r is Err && r->Err_0 is Protocol && r->Err_0->Protocol_code.0 == -32700,
        Some(n) => match notif_of(n.method@, nn(n.params)) { Some(x) => r == Ok::<Notification, Error>(x), None => r is Err },
    }
//@end
//@fn create_notification ret=r
    ensures r.jsonrpc@ == S("2.0"), r.method@ == notif_tag(notification), notif_content(notification, r.params)
//@end
//@extract src/shared/protocol_helpers.rs fn:parse_client_request fn:parse_server_request fn:parse_client_notification fn:parse_server_notification fn:client_request_to_jsonrpc fn:server_request_to_jsonrpc fn:client_notification_to_jsonrpc fn:server_notification_to_jsonrpc fn:create_method_params fn:parse_request fn:create_request fn:parse_notification fn:create_notification
/// a request that is created and read back is the same request, under the same id (a sampling request sent by a server is read in its client form)
proof fn lemma_client_requests(x: ClientRequest, p: Option<Value>)
    requires ClientRequest_faithful(x), ClientRequest_content(x, p)
    ensures request_of(ClientRequest_tag(x), nn(p)) == Some(Request::Client(x))
{ }
proof fn lemma_server_requests(x: ServerRequest, p: Option<Value>)
    requires ServerRequest_faithful(x), ServerRequest_content(x, p)
    ensures request_of(ServerRequest_tag(x), nn(p)) == Some(match x { ServerRequest::CreateMessage(c) => Request::Client(ClientRequest::CreateMessage(c)), _ => Request::Server(x) })
{ }
proof fn lemma_client_notifs(x: ClientNotification, p: Option<Value>)
    requires ClientNotification_faithful(x), ClientNotification_content(x, p)
    ensures notif_of(ClientNotification_tag(x), nn(p)) == Some(match x {
        ClientNotification::Cancelled(c) => Notification::Cancelled(c), ClientNotification::Progress(c) => Notification::Progress(c), _ => Notification::Client(x) })
{ }
proof fn lemma_server_notifs(x: ServerNotification, p: Option<Value>)
    requires ServerNotification_faithful(x), ServerNotification_content(x, p)
    ensures notif_of(ServerNotification_tag(x), nn(p)) == Some(match x {
        ServerNotification::Progress(c) => Notification::Progress(c), ServerNotification::RootsListChanged => Notification::Client(ClientNotification::RootsListChanged), _ => Notification::Server(x) })
{ }
/// the method names of the protocol
proof fn lemma_names(c: ClientRequest, s: ServerRequest, cn: ClientNotification, sn: ServerNotification)
    ensures
        ClientRequest_tag(c) == match c {
            ClientRequest::Initialize(_) => S("initialize"), ClientRequest::ListTools(_) => S("tools/list"), ClientRequest::CallTool(_) => S("tools/call"),
            ClientRequest::ListPrompts(_) => S("prompts/list"), ClientRequest::GetPrompt(_) => S("prompts/get"), ClientRequest::ListResources(_) => S("resources/list"),
            ClientRequest::ListResourceTemplates(_) => S("resources/templates/list"), ClientRequest::ReadResource(_) => S("resources/read"),
            ClientRequest::Subscribe(_) => S("resources/subscribe"), ClientRequest::Unsubscribe(_) => S("resources/unsubscribe"), ClientRequest::Complete(_) => S("completion/complete"),
            ClientRequest::SetLoggingLevel { .. } => S("logging/setLevel"), ClientRequest::Ping => S("ping"), ClientRequest::CreateMessage(_) => S("sampling/createMessage"),
            ClientRequest::ElicitInputResponse(_) => S("elicitation/response") },
        ServerRequest_tag(s) == match s { ServerRequest::CreateMessage(_) => S("sampling/createMessage"), ServerRequest::ListRoots => S("roots/list"), ServerRequest::ElicitInput(_) => S("elicitation/elicitInput") },
        ClientNotification_tag(cn) == match cn { ClientNotification::Initialized => S("notifications/initialized"), ClientNotification::RootsListChanged => S("notifications/roots/list_changed"),
            ClientNotification::Cancelled(_) => S("notifications/cancelled"), ClientNotification::Progress(_) => S("notifications/progress") },
        ServerNotification_tag(sn) == match sn { ServerNotification::Progress(_) => S("notifications/progress"), ServerNotification::ToolsChanged => S("notifications/tools/list_changed"),
            ServerNotification::PromptsChanged => S("notifications/prompts/list_changed"), ServerNotification::ResourcesChanged => S("notifications/resources/list_changed"),
            ServerNotification::RootsListChanged => S("notifications/roots/list_changed"), ServerNotification::ResourceUpdated(_) => S("notifications/resources/updated"),
            ServerNotification::LogMessage(_) => S("notifications/message") },
{ }
