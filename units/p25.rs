//@include core.rs
//@include text.rs
//@type str = String
//@consts src/lib.rs
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include jsonrpc.rs
//@include cancel.rs
//@type dyn ToolHandler = ToolH
//@type dyn PromptHandler = PromptH
//@type dyn ResourceHandler = ResourceH
//@type dyn SamplingHandler = SamplingH
//@type dyn Fn(Notification) + Send + Sync = Sender
//@dropfield ServerBuilder.roots_manager Server.notification_tx Server.roots_manager Server.subscription_manager CancellationManager.notification_sender
//@call CancellationToken::new = calls.fresh
//@expr **boxed_req => *boxed_req
//@expr boxed_req.as_ref() => boxed_req
//@expr *boxed_req => boxed_req
//@ghostarg handle/2 = calls
//@ghostarg read/2 = calls
//@ghostarg list/2 = calls
//@ghostarg create_message/2 = calls
//@ghostarg handle_response/1 = calls
//@ghostarg handle_request/2 = calls
//@ghostarg handle_client_request/2 = calls
//@ghostarg process_client_request/2 = calls
//@ghostarg handle_call_tool/2 = calls
//@ghostarg handle_get_prompt/2 = calls
//@ghostarg handle_list_resources/2 = calls
//@ghostarg handle_read_resource/2 = calls
//@ghostarg handle_create_message/2 = calls
//@ghostarg handle_request_message/4 = calls
#[verifier::external_body]
pub struct ListToolsRequest { x: u8 }
#[verifier::external_body]
pub struct ListPromptsRequest { x: u8 }
#[verifier::external_body]
pub struct ListResourceTemplatesRequest { x: u8 }
#[verifier::external_body]
pub struct SubscribeRequest { x: u8 }
#[verifier::external_body]
pub struct UnsubscribeRequest { x: u8 }
#[verifier::external_body]
pub struct CompleteRequest { x: u8 }
#[verifier::external_body]
pub struct LoggingLevel { x: u8 }
#[verifier::external_body]
pub struct CreateMessageParams { x: u8 }
#[verifier::external_body]
pub struct CreateMessageResult { x: u8 }
#[verifier::external_body]
pub struct GetPromptResult { x: u8 }
#[verifier::external_body]
pub struct ReadResourceResult { x: u8 }
#[verifier::external_body]
pub struct ResourceInfo { x: u8 }
#[verifier::external_body]
pub struct ResourceTemplate { x: u8 }
#[verifier::external_body]
pub struct PromptArgument { x: u8 }
#[verifier::external_body]
pub struct ElicitInputResponse { x: u8 }
#[verifier::external_body]
pub struct ElicitInputRequest { x: u8 }
#[verifier::external_body]
pub struct ClientCapabilities { x: u8 }
#[verifier::external_body]
pub struct ToolCapabilities { x: u8 }
#[verifier::external_body]
pub struct PromptCapabilities { x: u8 }
#[verifier::external_body]
pub struct ResourceCapabilities { x: u8 }
#[verifier::external_body]
pub struct LoggingCapabilities { x: u8 }
#[verifier::external_body]
pub struct CompletionCapabilities { x: u8 }
#[verifier::external_body]
pub struct SamplingCapabilities { x: u8 }
impl SamplingCapabilities { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
//@extract src/types/capabilities.rs struct:ServerCapabilities
impl ServerCapabilities {
    /// #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.tools is None, r.prompts is None, r.resources is None, r.logging is None, r.completions is None, r.sampling is None, r.experimental is None { unimplemented!() }
}
#[verifier::external_body]
pub struct Notification { x: u8 }
#[verifier::external_body]
pub struct AuthInfo { x: u8 }
pub type InitializeParams = InitializeRequest;
pub type ListToolsParams = ListToolsRequest;
pub type CallToolParams = CallToolRequest;
pub type ListPromptsParams = ListPromptsRequest;
pub type GetPromptParams = GetPromptRequest;
pub type ListResourcesParams = ListResourcesRequest;
pub type ReadResourceParams = ReadResourceRequest;
pub type CreateMessageRequest = CreateMessageParams;
pub type Cursor = Option<String>;
//@extract src/types/protocol.rs enum:LogLevel struct:ProtocolVersion struct:Implementation struct:InitializeRequest struct:InitializeResult struct:CallToolRequest struct:GetPromptRequest struct:ListResourcesRequest struct:ReadResourceRequest struct:ToolInfo struct:ListToolsResult struct:PromptInfo struct:ListPromptsResult enum:Content struct:CallToolResult struct:ListResourcesResult struct:ListResourceTemplatesResult enum:ClientRequest enum:ServerRequest enum:Request
//@extract src/shared/transport.rs enum:TransportMessage
//@extract src/server/cancellation.rs struct:CancellationManager struct:RequestHandlerExtra impl:CancellationManager::{new,get_token} impl:RequestHandlerExtra::{new}
//@extract src/server/mod.rs struct:Server struct:ServerBuilder impl:ServerBuilder::{new,name,version,capabilities,tool,prompt,resources,sampling,build} impl:Server::{has_tool,has_prompt,get_client_capabilities,is_initialized,handle_transport_message,handle_request_message,handle_request,handle_client_request,process_client_request,create_response,handle_list_tools,handle_call_tool,handle_list_prompts,handle_get_prompt,handle_list_resources,handle_read_resource,handle_list_resource_templates,handle_create_message}
impl Serialize for InitializeResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for ListToolsResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for ListPromptsResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for CallToolResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for GetPromptResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for ListResourcesResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for ReadResourceResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for ListResourceTemplatesResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl Serialize for CreateMessageResult { open spec fn ser(&self) -> Value { ser_of(*self) } }
impl From<SerdeError> for Error { #[verifier::external_body] fn from(e: SerdeError) -> Self { unimplemented!() } }
/// the client-facing log function only logs
pub fn log(level: LogLevel, m: &String, data: Option<Value>) { }
pub open spec fn text_of(c: Content) -> Option<Seq<u8>> { match c { Content::Text { text } => Some(text@), _ => None } }
/// `Display` of a request id, and of a JSON value: unspecified texts
pub uninterp spec fn id_text(i: RequestId) -> Seq<u8>;
impl RequestId {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == id_text(*self) { unimplemented!() }
}
pub uninterp spec fn json_text(v: Value) -> Seq<u8>;
impl Value {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == json_text(*self) { unimplemented!() }
}
// ---- the application's handlers: arbitrary functions; every invocation is recorded in the ghost log ----
pub enum Did { Tool(ToolH, Value, RequestHandlerExtra), Prompt(PromptH, HashMap<String, String>, RequestHandlerExtra), Read(ResourceH, Seq<u8>, RequestHandlerExtra), List(ResourceH, Option<String>, RequestHandlerExtra), Sample(SamplingH, CreateMessageParams, RequestHandlerExtra), Elicit(ElicitInputResponse) }
#[verifier::external_body]
pub struct Calls { x: u8 }
impl Calls {
    pub uninterp spec fn log(&self) -> Seq<Did>;
    #[verifier::external_body]
    pub fn fresh(&mut self) -> (r: CancellationToken) ensures final(self).log() == old(self).log() { unimplemented!() }
}
#[verifier::external_body]
pub struct ToolH { x: u8 }
#[verifier::external_body]
pub struct PromptH { x: u8 }
#[verifier::external_body]
pub struct ResourceH { x: u8 }
#[verifier::external_body]
pub struct SamplingH { x: u8 }
#[verifier::external_body]
pub struct ElicitationManager { x: u8 }
impl ToolH {
    pub uninterp spec fn ans(&self, a: Value, x: RequestHandlerExtra) -> VResult<Value>;
    #[verifier::external_body]
    pub fn handle(&self, a: Value, x: RequestHandlerExtra, calls: &mut Calls) -> (r: VResult<Value>) ensures r == self.ans(a, x), final(calls).log() == old(calls).log().push(Did::Tool(*self, a, x)) { unimplemented!() }
}
impl PromptH {
    pub uninterp spec fn ans(&self, a: HashMap<String, String>, x: RequestHandlerExtra) -> VResult<GetPromptResult>;
    #[verifier::external_body]
    pub fn handle(&self, a: HashMap<String, String>, x: RequestHandlerExtra, calls: &mut Calls) -> (r: VResult<GetPromptResult>) ensures r == self.ans(a, x), final(calls).log() == old(calls).log().push(Did::Prompt(*self, a, x)) { unimplemented!() }
}
impl ResourceH {
    pub uninterp spec fn read_ans(&self, a: Seq<u8>, x: RequestHandlerExtra) -> VResult<ReadResourceResult>;
    pub uninterp spec fn list_ans(&self, a: Option<String>, x: RequestHandlerExtra) -> VResult<ListResourcesResult>;
    #[verifier::external_body]
    pub fn read(&self, a: &String, x: RequestHandlerExtra, calls: &mut Calls) -> (r: VResult<ReadResourceResult>) ensures r == self.read_ans(a@, x), final(calls).log() == old(calls).log().push(Did::Read(*self, a@, x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn list(&self, a: Option<String>, x: RequestHandlerExtra, calls: &mut Calls) -> (r: VResult<ListResourcesResult>) ensures r == self.list_ans(a, x), final(calls).log() == old(calls).log().push(Did::List(*self, a, x)) { unimplemented!() }
}
impl SamplingH {
    pub uninterp spec fn ans(&self, a: CreateMessageParams, x: RequestHandlerExtra) -> VResult<CreateMessageResult>;
    #[verifier::external_body]
    pub fn create_message(&self, a: CreateMessageParams, x: RequestHandlerExtra, calls: &mut Calls) -> (r: VResult<CreateMessageResult>) ensures r == self.ans(a, x), final(calls).log() == old(calls).log().push(Did::Sample(*self, a, x)) { unimplemented!() }
}
impl ElicitationManager {
    pub uninterp spec fn ans(&self, a: ElicitInputResponse) -> VResult<()>;
    #[verifier::external_body]
    pub fn handle_response(&self, a: ElicitInputResponse, calls: &mut Calls) -> (r: VResult<()>) ensures r == self.ans(a), final(calls).log() == old(calls).log().push(Did::Elicit(a)) { unimplemented!() }
}
/// a connected peer: what was written to it
#[verifier::external_body]
pub struct Wire { x: u8 }
impl Wire {
    pub uninterp spec fn sent(&self) -> Seq<TransportMessage>;
    #[verifier::external_body]
    pub fn send(&mut self, m: TransportMessage) -> (r: VResult<()>) ensures final(self).sent() == old(self).sent().push(m) { unimplemented!() }
}
// ---- what an answer is ----
pub open spec fn caps(s: Server) -> Option<ClientCapabilities> { s.client_capabilities.v }
pub open spec fn same(a: Server, b: Server) -> bool { b == a }
/// the context handed to a handler names the request it is for and carries that request's cancellation token if it has one
pub open spec fn ctx(s: Server, id: RequestId, x: RequestHandlerExtra) -> bool {
    &&& x.request_id@ == id_text(id) && x.session_id is None && x.auth_info is None
    &&& (s.cancellation_manager.tokens.v@.contains_key(x.request_id) ==> x.cancellation_token == s.cancellation_manager.tokens.v@[x.request_id])
}
pub open spec fn fails<T>(r: VResult<T>, e: Error) -> bool { r is Err && r->Err_0 == e }
pub open spec fn not_found<T>(r: VResult<T>) -> bool { r is Err && r->Err_0 is NotFound }
pub open spec fn tool_called(s: Server, id: RequestId, q: CallToolRequest, x: RequestHandlerExtra, r: VResult<Value>) -> bool {
    ctx(s, id, x) && match s.tools@[q.name].ans(q.arguments, x) {
        Err(e) => fails(r, e),
        Ok(v) => r is Ok && exists|c: CallToolResult| #[trigger] ser_of(c) == r->Ok_0 && !c.is_error && c.content@.len() == 1 && text_of(c.content@[0]) == Some(json_text(v)),
    }
}
pub open spec fn called_tool(s: Server, id: RequestId, q: CallToolRequest, l: Seq<Did>, m: Seq<Did>, r: VResult<Value>) -> bool {
    if s.tools@.contains_key(q.name) { let x = m.last()->Tool_2; m == l.push(Did::Tool(s.tools@[q.name], q.arguments, x)) && tool_called(s, id, q, x, r) }
    else { m == l && not_found(r) }
}
/// a handler's own answer, passed on
pub open spec fn passed<T>(s: Server, id: RequestId, x: RequestHandlerExtra, a: VResult<T>, r: VResult<Value>) -> bool {
    ctx(s, id, x) && match a { Err(e) => fails(r, e), Ok(v) => r == Ok::<Value, Error>(ser_of(v)) }
}
pub open spec fn got_prompt(s: Server, id: RequestId, q: GetPromptRequest, l: Seq<Did>, m: Seq<Did>, r: VResult<Value>) -> bool {
    if s.prompts@.contains_key(q.name) { let x = m.last()->Prompt_2; m == l.push(Did::Prompt(s.prompts@[q.name], q.arguments, x)) && passed(s, id, x, s.prompts@[q.name].ans(q.arguments, x), r) }
    else { m == l && not_found(r) }
}
pub open spec fn listed_resources(s: Server, id: RequestId, q: ListResourcesRequest, l: Seq<Did>, m: Seq<Did>, r: VResult<Value>) -> bool {
    match s.resources {
        Some(h) => { let x = m.last()->List_2; m == l.push(Did::List(h, q.cursor, x)) && passed(s, id, x, h.list_ans(q.cursor, x), r) },
        None => m == l && r is Ok && exists|y: ListResourcesResult| #[trigger] ser_of(y) == r->Ok_0 && y.resources@.len() == 0 && y.next_cursor is None,
    }
}
pub open spec fn read_resource(s: Server, id: RequestId, q: ReadResourceRequest, l: Seq<Did>, m: Seq<Did>, r: VResult<Value>) -> bool {
    match s.resources {
        Some(h) => { let x = m.last()->Read_2; m == l.push(Did::Read(h, q.uri@, x)) && passed(s, id, x, h.read_ans(q.uri@, x), r) },
        None => m == l && not_found(r),
    }
}
pub open spec fn sampled(s: Server, id: RequestId, q: CreateMessageParams, l: Seq<Did>, m: Seq<Did>, r: VResult<Value>) -> bool {
    match s.sampling {
        Some(h) => { let x = m.last()->Sample_2; m == l.push(Did::Sample(h, q, x)) && passed(s, id, x, h.ans(q, x), r) },
        None => m == l && not_found(r),
    }
}
/// the names are exactly the keys, each once
pub open spec fn names_of<V>(n: Seq<String>, m: Map<String, V>) -> bool {
    n.no_duplicates() && forall|k: String| #[trigger] n.contains(k) <==> m.contains_key(k)
}
pub open spec fn listed_tools(s: Server, r: VResult<Value>) -> bool {
    r is Ok && exists|y: ListToolsResult| #[trigger] ser_of(y) == r->Ok_0 && y.next_cursor is None && names_of(tn(y.tools@), s.tools@)
}
pub open spec fn listed_prompts(s: Server, r: VResult<Value>) -> bool {
    r is Ok && exists|y: ListPromptsResult| #[trigger] ser_of(y) == r->Ok_0 && y.next_cursor is None && names_of(pn(y.prompts@), s.prompts@)
}
pub open spec fn empty_object(r: VResult<Value>) -> bool { r is Ok && r->Ok_0 is Object && r->Ok_0->Object_0@ == Map::<Seq<u8>, Value>::empty() }
/// the outcome of each request other than initialize; l and m are the handler invocations before and after
pub open spec fn outcome(s: Server, id: RequestId, q: ClientRequest, l: Seq<Did>, m: Seq<Did>, r: VResult<Value>) -> bool {
    match q {
        ClientRequest::Initialize(_) => true,
        ClientRequest::ListTools(_) => m == l && listed_tools(s, r),
        ClientRequest::CallTool(q) => called_tool(s, id, q, l, m, r),
        ClientRequest::ListPrompts(_) => m == l && listed_prompts(s, r),
        ClientRequest::GetPrompt(q) => got_prompt(s, id, q, l, m, r),
        ClientRequest::ListResources(q) => listed_resources(s, id, q, l, m, r),
        ClientRequest::ReadResource(q) => read_resource(s, id, q, l, m, r),
        ClientRequest::ListResourceTemplates(_) => m == l && r is Ok && exists|y: ListResourceTemplatesResult| #[trigger] ser_of(y) == r->Ok_0 && y.resource_templates@.len() == 0 && y.next_cursor is None,
        ClientRequest::CreateMessage(q) => sampled(s, id, q, l, m, r),
        ClientRequest::ElicitInputResponse(q) => match s.elicitation_manager {
            None => m == l && empty_object(r),
            Some(h) => m == l.push(Did::Elicit(q)) && match h.ans(q) { Ok(_) => empty_object(r), Err(e) => fails(r, e) },
        },
        _ => m == l && empty_object(r),
    }
}
/// the envelope: the request's own id, and the outcome as result or error
pub open spec fn answers(p: JSONRPCResponse<Value, JSONRPCError>, id: RequestId, r: VResult<Value>) -> bool {
    p.jsonrpc@ == S("2.0") && p.id == id && match r {
        Ok(v) => p.payload is Result && p.payload->Result_0 == v,
        Err(e) => p.payload is Error && p.payload->Error_0.code == -32603 && p.payload->Error_0.message@ == err_text(e) && p.payload->Error_0.data is None,
    }
}
pub open spec fn supported(v: Seq<u8>) -> bool { v == S("2025-06-18") || v == S("2025-03-26") || v == S("2024-11-05") || v == S("2024-10-07") }
pub open spec fn initialized(a: Server, b: Server, q: InitializeRequest, p: JSONRPCResponse<Value, JSONRPCError>, id: RequestId) -> bool {
    &&& caps(b) == Some(q.capabilities) && b.initialized.v
    &&& b == (Server { client_capabilities: b.client_capabilities, initialized: b.initialized, ..a })
    &&& p.jsonrpc@ == S("2.0") && p.id == id && p.payload is Result
    &&& exists|y: InitializeResult| #[trigger] ser_of(y) == p.payload->Result_0 && y.protocol_version.0@ == (if supported(q.protocol_version@) { q.protocol_version@ } else { S("2025-03-26") }) && y.capabilities == a.capabilities && y.server_info == a.info && y.instructions is None
}
/// how one request is answered
pub open spec fn served(a: Server, b: Server, id: RequestId, q: Request, l: Seq<Did>, m: Seq<Did>, p: JSONRPCResponse<Value, JSONRPCError>) -> bool {
    match q {
        Request::Client(ClientRequest::Initialize(i)) => m == l && initialized(a, b, i, p, id),
        Request::Client(c) => b == a && exists|r: VResult<Value>| #[trigger] outcome(a, id, c, l, m, r) && answers(p, id, r),
        Request::Server(_) => b == a && m == l && p.jsonrpc@ == S("2.0") && p.id == id && p.payload is Error && p.payload->Error_0.code == -32601 && p.payload->Error_0.data is None,
    }
}
proof fn lemma_names<V>(n: Seq<String>, ks: Seq<&String>, m: Map<String, V>)
    requires lists_k(ks, m), n.len() == ks.len(), forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == *ks[i]
    ensures names_of(n, m)
{
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if i < j { assert(*ks[i] != *ks[j]); } else { assert(*ks[j] != *ks[i]); } }
    assert forall|k: String| #[trigger] n.contains(k) <==> m.contains_key(k) by {
        if n.contains(k) { let i = choose|i: int| 0 <= i < n.len() && n[i] == k; assert(m.contains_key(*ks[i])); }
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < ks.len() && *#[trigger] ks[i] == k; assert(n[i] == k); }
    }
}
pub open spec fn tn(o: Seq<ToolInfo>) -> Seq<String> { o.map_values(|t: ToolInfo| t.name) }
pub open spec fn pn(o: Seq<PromptInfo>) -> Seq<String> { o.map_values(|t: PromptInfo| t.name) }
pub open spec fn tnamed(o: Seq<ToolInfo>, ks: Seq<&String>) -> bool { o.len() <= ks.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).name == *ks[i] }
pub open spec fn pnamed(o: Seq<PromptInfo>, ks: Seq<&String>) -> bool { o.len() <= ks.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).name == *ks[i] }
//@fn CancellationManager::get_token ret=r
    ensures r == (if self.tokens.v@.contains_key(*request_id) { Some(self.tokens.v@[*request_id]) } else { None })
//@end
//@fn RequestHandlerExtra::new ret=r
    ensures r.request_id == request_id, r.cancellation_token == cancellation_token, r.session_id is None, r.auth_info is None
//@end
//@fn Server::has_tool ret=r
    ensures r == self.tools@.contains_key(*name)
//@end
//@fn Server::has_prompt ret=r
    ensures r == self.prompts@.contains_key(*name)
//@end
//@fn Server::get_client_capabilities ret=r
    ensures r == caps(*self)
//@end
//@fn Server::is_initialized ret=r
    ensures r == self.initialized.v
//@end
//@fn Server::handle_request ret=r mutself
//@addparam calls: &mut Calls
    ensures served(*old(self), *final(self), id, request, old(calls).log(), final(calls).log(), r)
//@start
    let ghost rq = request;
//@tail
    let _ = &mut *self;
    proof {
        match rq {
            Request::Client(ClientRequest::Initialize(i)) => {
                assert(caps(*self) == Some(i.capabilities) && self.initialized.v);
                assert(*self == (Server { client_capabilities: self.client_capabilities, initialized: self.initialized, ..*old(self) }));
                assert(__tail.jsonrpc@ == S("2.0") && __tail.id == id && __tail.payload is Result);
                assert(initialized(*old(self), *self, i, __tail, id));
            },
            Request::Client(c) => { assert(*self == *old(self)); assert(exists|r: VResult<Value>| #[trigger] outcome(*old(self), id, c, old(calls).log(), calls.log(), r) && answers(__tail, id, r)); },
            _ => { assert(calls.log() == old(calls).log()); assert(__tail.payload is Error && __tail.id == id); assert(__tail.payload->Error_0.code == -32601); assert(__tail.jsonrpc@ == S("2.0")); },
        }
        assert(served(*old(self), *self, id, rq, old(calls).log(), calls.log(), __tail));
    }
//@end
//@fn Server::handle_client_request ret=r
//@addparam calls: &mut Calls
    requires !(request is Initialize)
    ensures exists|x: VResult<Value>| #[trigger] outcome(*self, id, request, old(calls).log(), final(calls).log(), x) && answers(r, id, x)
//@end
//@fn Server::process_client_request ret=r
//@addparam calls: &mut Calls
    requires !(request is Initialize)
    ensures outcome(*self, request_id, request, old(calls).log(), final(calls).log(), r)
//@end
//@fn Server::create_response ret=r
    ensures answers(r, id, result)
//@end
//@fn Server::handle_list_tools ret=r
    ensures listed_tools(*self, r)
//@loop 0
    invariant __it0.wf(), lists_k(__it0.seq(), self.tools@), __out0@.len() == __it0.pos(), tnamed(__out0@, __it0.seq()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof { lemma_names(tn(__out0@), __it0.seq(), self.tools@); }
//@end
//@fn Server::handle_call_tool ret=r
//@addparam calls: &mut Calls
    ensures called_tool(*self, request_id, req, old(calls).log(), final(calls).log(), r)
//@end
//@fn Server::handle_list_prompts ret=r
    ensures listed_prompts(*self, r)
//@loop 0
    invariant __it0.wf(), lists_k(__it0.seq(), self.prompts@), __out0@.len() == __it0.pos(), pnamed(__out0@, __it0.seq()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof { lemma_names(pn(__out0@), __it0.seq(), self.prompts@); }
//@end
//@fn Server::handle_get_prompt ret=r
//@addparam calls: &mut Calls
    ensures got_prompt(*self, request_id, req, old(calls).log(), final(calls).log(), r)
//@end
//@fn Server::handle_list_resources ret=r
//@addparam calls: &mut Calls
    ensures listed_resources(*self, request_id, req, old(calls).log(), final(calls).log(), r)
//@end
//@fn Server::handle_read_resource ret=r
//@addparam calls: &mut Calls
    ensures read_resource(*self, request_id, req, old(calls).log(), final(calls).log(), r)
//@end
//@fn Server::handle_list_resource_templates ret=r
    ensures r is Ok && exists|y: ListResourceTemplatesResult| #[trigger] ser_of(y) == r->Ok_0 && y.resource_templates@.len() == 0 && y.next_cursor is None
//@end
//@fn Server::handle_create_message ret=r
//@addparam calls: &mut Calls
    ensures sampled(*self, request_id, req, old(calls).log(), final(calls).log(), r)
//@end
/// exactly one message goes out for a request: its answer
//@fn Server::handle_request_message ret=r
//@param server: &mut Server
//@param transport: &mut RwLock<Wire>
//@addparam calls: &mut Calls
    ensures final(transport).v.sent().len() == old(transport).v.sent().len() + 1, final(transport).v.sent().drop_last() == old(transport).v.sent(),
        final(transport).v.sent().last() is Response,
        served(*old(server), *final(server), id, request, old(calls).log(), final(calls).log(), final(transport).v.sent().last()->Response_0),
//@end
//@fn Server::handle_transport_message ret=r
//@param server: &mut Server
//@param transport: &mut RwLock<Wire>
//@addparam calls: &mut Calls
    ensures
        message is Request ==> final(transport).v.sent().len() == old(transport).v.sent().len() + 1 && final(transport).v.sent().drop_last() == old(transport).v.sent()
            && final(transport).v.sent().last() is Response
            && served(*old(server), *final(server), message->id, message->request, old(calls).log(), final(calls).log(), final(transport).v.sent().last()->Response_0),
        !(message is Request) ==> r is Ok && final(transport).v.sent() == old(transport).v.sent() && *final(server) == *old(server) && final(calls).log() == old(calls).log(),
//@end

// ---- building a server: it has exactly what was registered ----
//@fn CancellationManager::new ret=r
    ensures r.tokens.v@ == Map::<String, CancellationToken>::empty()
//@end
//@fn ServerBuilder::new ret=r
    ensures r.name is None, r.version is None, r.tools@ == Map::<String, ToolH>::empty(), r.prompts@ == Map::<String, PromptH>::empty(), r.resources is None, r.sampling is None,
        r.cancellation_manager.tokens.v@ == Map::<String, CancellationToken>::empty(), r.capabilities.tools is None, r.capabilities.sampling is None
//@end
//@fn ServerBuilder::name ret=r
    ensures r.name is Some, r.name->0@ == name.txt(), r == (ServerBuilder { name: r.name, ..self })
//@end
//@fn ServerBuilder::version ret=r
    ensures r.version is Some, r.version->0@ == version.txt(), r == (ServerBuilder { version: r.version, ..self })
//@end
//@fn ServerBuilder::capabilities ret=r
    ensures r == (ServerBuilder { capabilities: capabilities, ..self })
//@end
//@fn ServerBuilder::tool ret=r
//@param handler: ToolH
    ensures r.tools@ == self.tools@.insert(jstr(name.txt()), handler), r == (ServerBuilder { tools: r.tools, ..self })
//@end
//@fn ServerBuilder::prompt ret=r
//@param handler: PromptH
    ensures r.prompts@ == self.prompts@.insert(jstr(name.txt()), handler), r == (ServerBuilder { prompts: r.prompts, ..self })
//@end
//@fn ServerBuilder::resources ret=r
//@param handler: ResourceH
    ensures r == (ServerBuilder { resources: Some(handler), ..self })
//@end
//@fn ServerBuilder::sampling ret=r
//@param handler: SamplingH
    ensures r.capabilities.sampling is Some,
        r == (ServerBuilder { sampling: Some(handler), capabilities: ServerCapabilities { sampling: r.capabilities.sampling, ..self.capabilities }, ..self })
//@end
//@fn ServerBuilder::build ret=r
    ensures r is Ok <==> self.name is Some && self.version is Some, r is Err ==> r->Err_0 is Validation,
        r is Ok ==> {
            let s = r->Ok_0;
            s.info.name == self.name->0 && s.info.version == self.version->0 && s.capabilities == self.capabilities && s.tools == self.tools && s.prompts == self.prompts
                && s.resources == self.resources && s.sampling == self.sampling && s.cancellation_manager == self.cancellation_manager
                && caps(s) is None && !s.initialized.v && s.elicitation_manager is None
        },
//@end
