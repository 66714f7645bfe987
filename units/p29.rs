//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include jsonrpc.rs
//@type dyn Middleware = Mw
//@type tracing::Level = Level
//@ghostarg on_request/1 = calls
//@ghostarg on_response/1 = calls
//@ghostarg on_send/1 = calls
//@ghostarg on_receive/1 = calls
#[verifier::external_body]
pub struct TransportMessage { x: u8 }
pub enum Level { TRACE, DEBUG, INFO, WARN, ERROR }
pub enum Did { Req(Mw), Resp(Mw), Send(Mw), Recv(Mw) }
/// the ghost record of middleware calls
#[verifier::external_body]
pub struct Calls { x: u8 }
impl Calls { pub uninterp spec fn log(&self) -> Seq<Did>; }
pub type Resp = JSONRPCResponse<Value, JSONRPCError>;
pub type Done = VResult<()>;
/// a middleware: an arbitrary function of what it is given, to a rewritten message and an outcome
#[verifier::external_body]
pub struct Mw { x: u8 }
impl Mw {
    pub uninterp spec fn req(&self, q: JSONRPCRequest) -> (JSONRPCRequest, Done);
    pub uninterp spec fn resp(&self, q: Resp) -> (Resp, Done);
    pub uninterp spec fn snd(&self, m: TransportMessage) -> Done;
    pub uninterp spec fn rcv(&self, m: TransportMessage) -> Done;
    #[verifier::external_body]
    pub fn on_request(&self, q: &mut JSONRPCRequest, calls: &mut Calls) -> (r: Done) ensures (*final(q), r) == self.req(*old(q)), final(calls).log() == old(calls).log().push(Did::Req(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_response(&self, q: &mut Resp, calls: &mut Calls) -> (r: Done) ensures (*final(q), r) == self.resp(*old(q)), final(calls).log() == old(calls).log().push(Did::Resp(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_send(&self, m: &TransportMessage, calls: &mut Calls) -> (r: Done) ensures r == self.snd(*m), final(calls).log() == old(calls).log().push(Did::Send(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_receive(&self, m: &TransportMessage, calls: &mut Calls) -> (r: Done) ensures r == self.rcv(*m), final(calls).log() == old(calls).log().push(Did::Recv(*self)) { unimplemented!() }
}
//@extract src/shared/middleware.rs struct:MiddlewareChain struct:LoggingMiddleware struct:AuthMiddleware struct:RetryMiddleware impl:MiddlewareChain::{new,add,process_request,process_response,process_send,process_receive} impl:LoggingMiddleware::{new,on_request,on_response} impl:AuthMiddleware::{new,on_request} impl:RetryMiddleware::{new,on_request}
/// what a chain comes to from member i on: every member once, in order, each on its predecessor's message, up to the first failure
pub open spec fn reqs(ms: Seq<Mw>, i: int, q: JSONRPCRequest, l: Seq<Did>) -> (JSONRPCRequest, Done, Seq<Did>) decreases ms.len() - i {
    if i < 0 || i >= ms.len() { (q, Ok(()), l) }
    else { let x = ms[i].req(q); let k = l.push(Did::Req(ms[i])); if x.1 is Err { (x.0, x.1, k) } else { reqs(ms, i + 1, x.0, k) } }
}
pub open spec fn resps(ms: Seq<Mw>, i: int, q: Resp, l: Seq<Did>) -> (Resp, Done, Seq<Did>) decreases ms.len() - i {
    if i < 0 || i >= ms.len() { (q, Ok(()), l) }
    else { let x = ms[i].resp(q); let k = l.push(Did::Resp(ms[i])); if x.1 is Err { (x.0, x.1, k) } else { resps(ms, i + 1, x.0, k) } }
}
pub open spec fn sends(ms: Seq<Mw>, i: int, m: TransportMessage, l: Seq<Did>) -> (Done, Seq<Did>) decreases ms.len() - i {
    if i < 0 || i >= ms.len() { (Ok(()), l) }
    else { let k = l.push(Did::Send(ms[i])); if ms[i].snd(m) is Err { (ms[i].snd(m), k) } else { sends(ms, i + 1, m, k) } }
}
pub open spec fn recvs(ms: Seq<Mw>, i: int, m: TransportMessage, l: Seq<Did>) -> (Done, Seq<Did>) decreases ms.len() - i {
    if i < 0 || i >= ms.len() { (Ok(()), l) }
    else { let k = l.push(Did::Recv(ms[i])); if ms[i].rcv(m) is Err { (ms[i].rcv(m), k) } else { recvs(ms, i + 1, m, k) } }
}
pub open spec fn same_done(a: Done, b: Done) -> bool { match a { Ok(_) => b is Ok, Err(e) => b is Err && b->Err_0 == e } }
//@fn MiddlewareChain::new ret=r
    ensures r.middlewares@.len() == 0
//@end
//@fn MiddlewareChain::add
    ensures final(self).middlewares@ == old(self).middlewares@.push(middleware)
//@end
//@fn MiddlewareChain::process_request ret=r
//@addparam calls: &mut Calls
    ensures ({ let z = reqs(self.middlewares@, 0, *old(request), old(calls).log()); *final(request) == z.0 && same_done(z.1, r) && final(calls).log() == z.2 })
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.middlewares@,
        reqs(self.middlewares@, 0, *old(request), old(calls).log()) == reqs(self.middlewares@, __it0.pos() as int, *request, calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn MiddlewareChain::process_response ret=r
//@addparam calls: &mut Calls
    ensures ({ let z = resps(self.middlewares@, 0, *old(response), old(calls).log()); *final(response) == z.0 && same_done(z.1, r) && final(calls).log() == z.2 })
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.middlewares@,
        resps(self.middlewares@, 0, *old(response), old(calls).log()) == resps(self.middlewares@, __it0.pos() as int, *response, calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn MiddlewareChain::process_send ret=r
//@addparam calls: &mut Calls
    ensures ({ let z = sends(self.middlewares@, 0, *message, old(calls).log()); same_done(z.0, r) && final(calls).log() == z.1 })
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.middlewares@,
        sends(self.middlewares@, 0, *message, old(calls).log()) == sends(self.middlewares@, __it0.pos() as int, *message, calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn MiddlewareChain::process_receive ret=r
//@addparam calls: &mut Calls
    ensures ({ let z = recvs(self.middlewares@, 0, *message, old(calls).log()); same_done(z.0, r) && final(calls).log() == z.1 })
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.middlewares@,
        recvs(self.middlewares@, 0, *message, old(calls).log()) == recvs(self.middlewares@, __it0.pos() as int, *message, calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn LoggingMiddleware::on_request ret=r
    ensures r is Ok, *final(request) == *old(request)
//@end
//@fn LoggingMiddleware::on_response ret=r
    ensures r is Ok, *final(response) == *old(response)
//@end
//@fn AuthMiddleware::on_request ret=r
    ensures r is Ok, *final(request) == *old(request)
//@end
//@fn RetryMiddleware::on_request ret=r
    ensures r is Ok, *final(request) == *old(request)
//@end
//@fn LoggingMiddleware::new ret=r
    ensures r.level == level
//@end
//@fn AuthMiddleware::new ret=r
    ensures r.auth_token == auth_token
//@end
//@fn RetryMiddleware::new ret=r
    ensures r.max_retries == max_retries, r.initial_delay_ms == initial_delay_ms, r.max_delay_ms == max_delay_ms
//@end
