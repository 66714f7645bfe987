//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include sync.rs
//@include coll.rs
//@include float.rs
//@type f64 = F64
//@include time.rs
//@include jsonrpc.rs
//@call tokio::time::timeout = v_timeout
//@call std::time::Instant::now = Instant::now
//@call handler = handler.call
//@expr handler.clone() => &mut *handler
pub open spec fn max_permits() -> int { 0x1fff_ffff_ffff_ffff }
/// The caller's handler: what it answers is arbitrary (`handled`), its calls are recorded.
#[verifier::external_body]
pub struct Handler { x: u8 }
pub uninterp spec fn handled(q: JSONRPCRequest, a: JSONRPCResponse) -> bool;
impl Handler {
    pub uninterp spec fn log(&self) -> Seq<JSONRPCRequest>;
    #[verifier::external_body]
    pub fn call(&mut self, q: JSONRPCRequest) -> (r: JSONRPCResponse) ensures final(self).log() == old(self).log().push(q), handled(q, r) { unimplemented!() }
}
#[verifier::external_body]
pub struct Semaphore { x: u8 }
#[verifier::external_body]
pub struct Permit { x: u8 }
impl Semaphore {
    pub uninterp spec fn permits(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Semaphore) requires n <= max_permits() ensures r.permits() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire(&self) -> (r: core::result::Result<Permit, u8>) requires self.permits() > 0 ensures r is Ok { unimplemented!() }
}
/// an answer comes later than after the given time
pub uninterp spec fn late<T>(v: T, d: int) -> bool;
#[verifier::external_body]
pub fn v_timeout<T>(d: Duration, v: T) -> (r: core::result::Result<T, u8>) ensures r is Err == late(v, d@), r is Ok ==> r->Ok_0 == v { unimplemented!() }
/// awaits every future: in the sequential view each has already been evaluated
#[verifier::external_body]
pub fn join_all<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
pub trait VSortKey<T> {
    spec fn vz(&self) -> Seq<T>;
    /// std: a stable sort leaves a sequence whose keys already ascend as it is
    fn v_sort_by_key<F: Fn(&T) -> usize>(&mut self, f: F)
        requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, a: usize, b: usize| f.ensures((&x,), a) && f.ensures((&x,), b) ==> a == b,
        ensures final(self).vz().to_multiset() == old(self).vz().to_multiset(), final(self).vz().len() == old(self).vz().len(),
            (forall|i: int, j: int, a: usize, b: usize| 0 <= i < j < old(self).vz().len() && f.ensures((&old(self).vz()[i],), a) && f.ensures((&old(self).vz()[j],), b) ==> a <= b) ==> final(self).vz() == old(self).vz();
}
impl<T> VSortKey<T> for Vec<T> {
    open spec fn vz(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sort_by_key<F: Fn(&T) -> usize>(&mut self, f: F) { unimplemented!() }
}
//@extract src/utils/parallel_batch.rs struct:ParallelBatchConfig
//@extract src/utils/parallel_batch.rs struct:BatchMetrics struct:BatchProcessor
//@extract src/shared/batch.rs enum:BatchRequest enum:BatchResponse
pub open spec fn timed_out(q: JSONRPCRequest, a: JSONRPCResponse) -> bool {
    a.id == q.id && match a.payload { ResponsePayload::Error(e) => e.code == -32603, _ => false }
}
/// the handler's answer, unless it comes later than the time limit
pub open spec fn answers(q: JSONRPCRequest, a: JSONRPCResponse, timeout: Option<u64>) -> bool {
    exists|x: JSONRPCResponse| #[trigger] handled(q, x) && match timeout { Some(ms) => if late(x, ms * 1_000_000) { timed_out(q, a) } else { a == x }, None => a == x }
}
pub open spec fn all_answered(q: Seq<JSONRPCRequest>, a: Seq<JSONRPCResponse>, timeout: Option<u64>) -> bool {
    a.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> answers(q[i], #[trigger] a[i], timeout)
}
pub open spec fn reqs(b: BatchRequest) -> Seq<JSONRPCRequest> { match b { BatchRequest::Single(r) => seq![r], BatchRequest::Batch(v) => v@ } }
pub open spec fn resps(b: BatchResponse) -> Seq<JSONRPCResponse> { match b { BatchResponse::Single(r) => seq![r], BatchResponse::Batch(v) => v@ } }
pub open spec fn indexed(o: Seq<(usize, JSONRPCResponse)>, q: Seq<JSONRPCRequest>, t: Option<u64>) -> bool {
    o.len() <= q.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 == i && answers(q[i], o[i].1, t)
}
//@fn process_batch_parallel ret=r dropgenerics asyncinline
//@param handler: &mut Handler
    requires 0 < config.max_concurrency <= max_permits()
    ensures r is Ok, all_answered(requests@, r->Ok_0@, config.request_timeout_ms),
        final(handler).log() == old(handler).log() + requests@,
//@start
    let ghost log0 = handler.log();
    let ghost n0 = requests.len();
    assert(n0 == requests@.len() && requests@.len() <= usize::MAX);
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == requests@, requests@.len() <= usize::MAX,
        0 < config.max_concurrency, semaphore.permits() == config.max_concurrency,
        __cnt1 == __it0.pos(), __out0@.len() == __it0.pos(),
        handler.log() == log0 + requests@.subrange(0, __it0.pos()),
        indexed(__out0@, requests@, config.request_timeout_ms),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopend 0
    proof { assert(requests@.subrange(0, __it0.pos()) == requests@.subrange(0, __it0.pos() - 1).push(requests@[__it0.pos() - 1])); }
//@closure 0
    |__c0_0: &(usize, JSONRPCResponse)| -> (k: usize) ensures k == __c0_0.0
//@beforeloop 1
    let ghost ir = indexed_responses@;
//@loop 1
    invariant
        __it1.wf(), __it1.seq() == ir, __out1@.len() == __it1.pos(),
        forall|i: int| 0 <= i < __out1@.len() ==> #[trigger] __out1@[i] == ir[i].1,
    ensures __it1.pos() == __it1.seq().len(),
    decreases __it1.seq().len() - __it1.pos()
//@tail
    proof { assert(requests@.subrange(0, requests@.len() as int) == requests@); }
//@end
//@fn ParallelBatchConfig::default ret=r
    ensures 0 < r.max_concurrency <= max_permits()
//@end
//@extract src/utils/parallel_batch.rs impl:ParallelBatchConfig::{default}
//@extract src/utils/parallel_batch.rs fn:process_batch_parallel
//@fn BatchRequest::is_batch ret=r
    ensures r == (self is Batch)
//@end
//@fn BatchRequest::into_requests ret=r
    ensures r@ == reqs(self)
//@end
//@fn BatchRequest::len ret=r
    ensures r == reqs(*self).len()
//@end
//@fn BatchRequest::is_empty ret=r
    ensures r == (reqs(*self).len() == 0)
//@end
//@fn BatchResponse::from_responses ret=r
    ensures resps(r) == responses@
//@end
//@fn BatchResponse::into_responses ret=r
    ensures r@ == resps(self)
//@end
//@extract src/shared/batch.rs impl:BatchRequest::{is_batch,into_requests,len,is_empty} impl:BatchResponse::{from_responses,into_responses}
/// under some time limit (none for a single request)
pub open spec fn answered(q: Seq<JSONRPCRequest>, a: Seq<JSONRPCResponse>) -> bool { exists|t: Option<u64>| #[trigger] all_answered(q, a, t) }
//@fn process_batch_request ret=r dropgenerics
//@param handler: &mut Handler
    ensures r is Ok, answered(reqs(batch), resps(r->Ok_0)), final(handler).log() == old(handler).log() + reqs(batch)
//@start
    let ghost log0 = handler.log();
    proof { if reqs(batch).len() == 0 { assert(all_answered(reqs(batch), Seq::<JSONRPCResponse>::empty(), None)); } }
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == reqs(batch), responses@.len() == __it0.pos(),
        handler.log() == log0 + reqs(batch).subrange(0, __it0.pos()),
        forall|i: int| 0 <= i < responses@.len() ==> answers(reqs(batch)[i], #[trigger] responses@[i], None),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopend 0
    proof { assert(reqs(batch).subrange(0, __it0.pos()) == reqs(batch).subrange(0, __it0.pos() - 1).push(reqs(batch)[__it0.pos() - 1])); }
//@afterloop 0
    proof { assert(reqs(batch).subrange(0, reqs(batch).len() as int) == reqs(batch)); assert(all_answered(reqs(batch), responses@, None)); }
//@end
//@extract src/shared/batch.rs fn:process_batch_request
impl VDefault for BatchMetrics {
    open spec fn is_default(&self) -> bool { self.total_requests == 0 && self.successful_responses == 0 && self.error_responses == 0 && self.timeout_responses == 0 && self.max_processing_time_ms == 0 }
    #[verifier::external_body]
    fn v_default() -> (r: Self) { unimplemented!() }
}
impl BatchMetrics { pub fn default() -> (r: BatchMetrics) ensures r.is_default() { BatchMetrics::v_default() } }
pub open spec fn is_ok(a: JSONRPCResponse) -> bool { a.payload is Result }
pub open spec fn n_of(s: Seq<JSONRPCResponse>, f: spec_fn(JSONRPCResponse) -> bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { n_of(s.drop_last(), f) + if f(s.last()) { 1int } else { 0 } }
}
pub open spec fn f_ok() -> spec_fn(JSONRPCResponse) -> bool { |a: JSONRPCResponse| a.payload is Result }
pub open spec fn f_err() -> spec_fn(JSONRPCResponse) -> bool { |a: JSONRPCResponse| !(a.payload is Result) }
pub proof fn lemma_n(s: Seq<JSONRPCResponse>)
    ensures n_of(s, f_ok()) + n_of(s, f_err()) == s.len(), n_of(s, f_ok()) >= 0, n_of(s, f_err()) >= 0
    decreases s.len()
{ if s.len() > 0 { lemma_n(s.drop_last()); } }
impl BatchProcessor {
    #[verifier::inline]
    pub open spec fn mt(&self) -> BatchMetrics { self.metrics.v }
    /// every counted response was asked for
    pub open spec fn inv(&self) -> bool { self.mt().successful_responses + self.mt().error_responses + self.mt().timeout_responses == self.mt().total_requests }
}
//@fn BatchProcessor::new ret=r
    ensures r.config == config, r.inv(), r.mt().total_requests == 0
//@end
//@fn BatchProcessor::process ret=r dropgenerics mutself
//@param handler: &mut Handler
    requires old(self).inv(), 0 < old(self).config.max_concurrency <= max_permits(), old(self).mt().total_requests + requests@.len() <= u64::MAX,
    ensures final(self).inv(), final(self).config == old(self).config, r is Ok,
        all_answered(requests@, r->Ok_0@, old(self).config.request_timeout_ms), final(handler).log() == old(handler).log() + requests@,
        final(self).mt().total_requests == old(self).mt().total_requests + requests@.len(),
        final(self).mt().successful_responses == old(self).mt().successful_responses + n_of(r->Ok_0@, f_ok()),
        final(self).mt().error_responses + final(self).mt().timeout_responses == old(self).mt().error_responses + old(self).mt().timeout_responses + n_of(r->Ok_0@, f_err()),
//@start
    let ghost m0 = self.mt(); let ghost rn = requests@.len();
    let ghost n0 = requests.len();
    assert(n0 == requests@.len());
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == responses@, responses@.len() == rn,
        m0.successful_responses + m0.error_responses + m0.timeout_responses == m0.total_requests, m0.total_requests + rn <= u64::MAX,
        metrics.total_requests == m0.total_requests + rn,
        metrics.successful_responses == m0.successful_responses + n_of(responses@.subrange(0, __it0.pos()), f_ok()),
        metrics.error_responses + metrics.timeout_responses == m0.error_responses + m0.timeout_responses + n_of(responses@.subrange(0, __it0.pos()), f_err()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof {
        let s = responses@.subrange(0, __it0.pos());
        assert(s.drop_last() == responses@.subrange(0, __it0.pos() - 1));
        lemma_n(s.drop_last());
        lemma_n(s);
    }
//@afterloop 0
    proof { assert(responses@.subrange(0, responses@.len() as int) == responses@); lemma_n(responses@); }
//@end
//@fn BatchProcessor::metrics ret=r
    ensures r == self.mt()
//@end
//@fn BatchProcessor::reset_metrics mutself
    ensures final(self).inv(), final(self).config == old(self).config, final(self).mt().total_requests == 0
//@end
//@extract src/utils/parallel_batch.rs impl:BatchProcessor::{new,process,metrics,reset_metrics}
