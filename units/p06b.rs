//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include jsonrpc.rs
//@type Arc<Self> = Server
//@type Arc<Server> = Server
//@call crate::shared::batch::process_batch_request = process_batch_request
//@call crate::shared::protocol_helpers::parse_request = parse_request
//@type Arc<tokio::sync::RwLock<S>> = Shared
//@call handler = handler.call
//@call process_batch_parallel = each_in_parallel
//@lift ::process_batch_parallel_stateful each arg request: JSONRPCRequest; use handler: &mut StatefulHandler; state: Shared; -> JSONRPCResponse
//@lift Server::handle_batch_request answer arg req: JSONRPCRequest; server: Server; -> JSONRPCResponse
impl VDisp for Error { open spec fn disp(&self) -> Seq<u8> { err_text(*self) } }
/// What a request's method and parameters denote (shared/protocol_helpers.rs; its reader is under contract for P08).
#[verifier::external_body]
pub struct Request { x: u8 }
pub uninterp spec fn means(q: JSONRPCRequest) -> Option<Request>;
#[verifier::external_body]
pub fn parse_request(q: JSONRPCRequest) -> (r: VResult<(RequestId, Request)>)
    ensures r is Ok <==> means(q) is Some, r is Ok ==> r->Ok_0.0 == q.id && r->Ok_0.1 == means(q)->0
{ unimplemented!() }
/// The server: what it answers to a request is arbitrary (`served`); its answers carry the id they were asked under (P25).
#[verifier::external_body]
pub struct Server { x: u8 }
pub uninterp spec fn served(s: Server, id: RequestId, q: Request, a: JSONRPCResponse) -> bool;
impl Server {
    #[verifier::external_body]
    pub fn handle_request(&self, id: RequestId, q: Request) -> (r: JSONRPCResponse) ensures served(*self, id, q, r), r.id == id { unimplemented!() }
}
//@extract src/shared/batch.rs enum:BatchRequest enum:BatchResponse
pub open spec fn timed_out(q: JSONRPCRequest, a: JSONRPCResponse) -> bool {
    a.id == q.id && match a.payload { ResponsePayload::Error(e) => e.code == -32603, _ => false }
}
/// what one entry of the batch is answered, as if it had been sent alone
pub open spec fn alone(s: Server, q: JSONRPCRequest, a: JSONRPCResponse) -> bool {
    &&& a.id == q.id
    &&& match means(q) { Some(m) => served(s, q.id, m, a), None => a.payload is Error }
}
pub open spec fn reqs(b: BatchRequest) -> Seq<JSONRPCRequest> { match b { BatchRequest::Single(r) => seq![r], BatchRequest::Batch(v) => v@ } }
pub open spec fn resps(b: BatchResponse) -> Seq<JSONRPCResponse> { match b { BatchResponse::Single(r) => seq![r], BatchResponse::Batch(v) => v@ } }
pub open spec fn all_alone(s: Server, q: Seq<JSONRPCRequest>, a: Seq<JSONRPCResponse>) -> bool {
    a.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> alone(s, q[i], #[trigger] a[i]) || timed_out(q[i], a[i])
}
/// the contract of shared/batch.rs's process_batch_request (unit p06), its handler being the lifted closure `answer` over what it captured
#[verifier::external_body]
pub fn process_batch_request(b: BatchRequest, handler: (Server,)) -> (r: VResult<BatchResponse>)
    ensures r is Ok, all_alone(handler.0, reqs(b), resps(r->Ok_0))
{ unimplemented!() }
//@fn Server::answer ret=r asyncinline
    ensures alone(server, req, r)
//@end
//@fn Server::handle_batch_request ret=r
    ensures r is Ok, all_alone(*self, reqs(batch), resps(r->Ok_0))
//@end
//@extract src/server/batch.rs impl:Server::{answer,handle_batch_request}
/// The state the handlers share: which one it is.
#[verifier::external_body]
pub struct Shared { x: u8 }
/// The caller's handler of a request with the shared state: what it answers is arbitrary (`handled`), its calls are recorded.
#[verifier::external_body]
pub struct StatefulHandler { x: u8 }
pub uninterp spec fn handled(q: JSONRPCRequest, s: Shared, a: JSONRPCResponse) -> bool;
impl StatefulHandler {
    pub uninterp spec fn log(&self) -> Seq<(JSONRPCRequest, Shared)>;
    #[verifier::external_body]
    pub fn call(&mut self, q: JSONRPCRequest, s: Shared) -> (r: JSONRPCResponse) ensures final(self).log() == old(self).log().push((q, s)), handled(q, s, r) { unimplemented!() }
}
//@extract src/utils/parallel_batch.rs struct:ParallelBatchConfig
pub open spec fn each_handled(q: Seq<JSONRPCRequest>, s: Shared, a: Seq<JSONRPCResponse>, timeout: bool) -> bool {
    a.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> handled(q[i], s, #[trigger] a[i]) || (timeout && timed_out(q[i], a[i]))
}
/// the contract of process_batch_parallel (unit p06), its handler being the lifted closure `each` over what it captured
#[verifier::external_body]
pub fn each_in_parallel(requests: Vec<JSONRPCRequest>, handler: (Shared,), config: ParallelBatchConfig) -> (r: VResult<Vec<JSONRPCResponse>>)
    requires 0 < config.max_concurrency <= 0x1fff_ffff_ffff_ffff
    ensures r is Ok, each_handled(requests@, handler.0, r->Ok_0@, config.request_timeout_ms is Some)
{ unimplemented!() }
//@fn each ret=r asyncinline
    ensures handled(request, state, r), final(handler).log() == old(handler).log().push((request, state))
//@end
//@fn process_batch_parallel_stateful ret=r dropgenerics
//@param handler: &mut StatefulHandler
    requires 0 < config.max_concurrency <= 0x1fff_ffff_ffff_ffff
    ensures r is Ok, each_handled(requests@, state, r->Ok_0@, config.request_timeout_ms is Some)
//@end
//@extract src/utils/parallel_batch.rs fn:each fn:process_batch_parallel_stateful
