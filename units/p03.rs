//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include float.rs
//@type f64 = F64
//@include time.rs
//@include chrono.rs
//@include uuid.rs
//@include sync.rs
//@include coll.rs
//@type dyn EventStore = InMemoryEventStore
#[verifier::external_body]
pub struct TransportMessage { x: u8 }
#[verifier::external_body]
pub struct RequestId { x: u8 }
//@extract src/shared/event_store.rs struct:StoredEvent struct:ResumptionToken struct:ResumptionState struct:InMemoryEventStore struct:ResumptionManager
//@extract src/shared/event_store.rs enum:MessageDirection +derive=Copy,Clone,Structural,PartialEq,Eq
pub open spec fn first(s: Seq<StoredEvent>, id: String) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s[0].id == id { Some(0) } else {
        match first(s.subrange(1, s.len() as int), id) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_first(s: Seq<StoredEvent>, id: String, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).id != id
    ensures i == s.len() ==> first(s, id) is None, i < s.len() && s[i].id == id ==> first(s, id) == Some(i)
    decreases i
{
    if i > 0 { let t = s.subrange(1, s.len() as int); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] t[j]).id != id by { assert(t[j] == s[j + 1]); } lemma_first(t, id, i - 1); }
}
pub open spec fn take(s: Seq<StoredEvent>, limit: Option<usize>) -> Seq<StoredEvent> {
    match limit { Some(n) => if n < s.len() { s.subrange(0, n as int) } else { s }, None => s }
}
/// what a reader who last saw `id` gets
pub open spec fn since(s: Seq<StoredEvent>, id: String, limit: Option<usize>) -> Seq<StoredEvent> {
    take(match first(s, id) { Some(i) => s.subrange(i + 1, s.len() as int), None => s }, limit)
}
/// s without its oldest events that are older than the cutoff
pub open spec fn fresh(s: Seq<StoredEvent>, cutoff: int) -> Seq<StoredEvent> decreases s.len() {
    if s.len() > 0 && s[0].timestamp@ < cutoff { fresh(s.subrange(1, s.len() as int), cutoff) } else { s }
}
pub open spec fn newest(s: Seq<StoredEvent>, n: int) -> Seq<StoredEvent> {
    if s.len() > n { s.subrange(s.len() - n, s.len() as int) } else { s }
}
/// `e` was appended; events beyond the limit or too old are gone, oldest first
pub open spec fn stored(a: InMemoryEventStore, b: InMemoryEventStore, e: StoredEvent) -> bool {
    exists|t: int| #[trigger] is_now(t) && b.es() == fresh(newest(a.es().push(e), a.max_events as int), t - a.max_age@)
}
impl InMemoryEventStore {
    #[verifier::inline]
    pub open spec fn es(&self) -> Seq<StoredEvent> { self.events.v@ }
    #[verifier::inline]
    pub open spec fn toks(&self) -> Map<String, ResumptionState> { self.tokens.v@ }
}
//@fn InMemoryEventStore::new ret=r
    ensures r.es() == Seq::<StoredEvent>::empty(), r.toks() == Map::<String, ResumptionState>::empty(), r.max_events == max_events, r.max_age == max_age
//@end
//@fn InMemoryEventStore::cleanup mutself
    ensures
        exists|t: int| #[trigger] is_now(t) && final(self).es() == fresh(newest(old(self).es(), old(self).max_events as int), t - old(self).max_age@),
        final(self).tokens == old(self).tokens, final(self).max_events == old(self).max_events, final(self).max_age == old(self).max_age,
//@start
    let ghost e0 = self.es();
//@loop 0
    invariant
        events@.len() <= e0.len(), events@ == e0.subrange(e0.len() - events@.len(), e0.len() as int),
        events@.len() >= self.max_events || events@ == e0,
    ensures events@ == newest(e0, self.max_events as int)
    decreases events@.len()
//@loop 1
    invariant
        fresh(events@, cutoff@) == fresh(newest(e0, self.max_events as int), cutoff@),
    ensures events@ == fresh(newest(e0, self.max_events as int), cutoff@),
    decreases events@.len()
//@end
//@fn InMemoryEventStore::store_event ret=r mutself
    ensures r is Ok,
        stored(*old(self), *final(self), event),
        final(self).tokens == old(self).tokens, final(self).max_events == old(self).max_events, final(self).max_age == old(self).max_age,
//@end
//@fn InMemoryEventStore::get_events_since ret=r
    ensures r is Ok, r->Ok_0@ == since(self.es(), *event_id, limit)
//@loop 0
    invariant_except_break
        __it0.wf(), derefs(__it0.seq()) == events@, __pos0 == __it0.pos(),
        forall|j: int| 0 <= j < __it0.pos() ==> (#[trigger] events@[j]).id != *event_id,
        __out0 is None, __it0.pos() == events@.len() ==> first(events@, *event_id) is None,
    ensures (__out0 is Some) == (first(events@, *event_id) is Some), __out0 is Some ==> __out0->0 as int == first(events@, *event_id)->0 && __out0->0 < events@.len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { assert(*__x0 == events@[__it0.pos() - 1]); lemma_first(events@, *event_id, __it0.pos() - 1); }
//@loopend 0
    proof { assert(events@[__it0.pos() - 1].id != *event_id); if __it0.pos() == events@.len() { lemma_first(events@, *event_id, events@.len() as int); } }
//@end
//@fn InMemoryEventStore::get_latest_event_id ret=r
    ensures r == Ok::<Option<String>, Error>(if self.es().len() > 0 { Some(self.es().last().id) } else { None })
//@end
//@fn InMemoryEventStore::clear_events_before ret=r mutself
    ensures r is Ok, final(self).es() == fresh(old(self).es(), timestamp@), r->Ok_0 == old(self).es().len() - final(self).es().len(),
        final(self).tokens == old(self).tokens, final(self).max_events == old(self).max_events, final(self).max_age == old(self).max_age,
//@loop 0
    invariant fresh(events@, timestamp@) == fresh(old(self).es(), timestamp@), events@.len() <= initial_len,
    ensures events@ == fresh(old(self).es(), timestamp@), events@.len() <= initial_len,
    decreases events@.len()
//@end
pub open spec fn tok_state(e: StoredEvent) -> (String, String, int) { (e.session_id, e.id, e.sequence + 1) }
//@fn InMemoryEventStore::create_resumption_token ret=r mutself
    requires forall|i: int| 0 <= i < old(self).es().len() ==> (#[trigger] old(self).es()[i]).sequence < u64::MAX
    ensures
        final(self).events == old(self).events, final(self).max_events == old(self).max_events, final(self).max_age == old(self).max_age,
        r is Ok <==> old(self).es().len() > 0,
        r is Err ==> final(self).tokens == old(self).tokens,
        r is Ok ==> {
            let t = r->Ok_0; let e = old(self).es().last();
            &&& t.session_id == e.session_id && t.last_event_id == e.id
            &&& state_of(final(self).toks()[t.token], e) && final(self).toks() == old(self).toks().insert(t.token, final(self).toks()[t.token])
        },
//@end
pub open spec fn state_of(s: ResumptionState, e: StoredEvent) -> bool {
    s.session_id == e.session_id && s.last_event_id == e.id && s.next_sequence == e.sequence + 1 && s.pending_requests@ == Seq::<RequestId>::empty()
}
//@fn InMemoryEventStore::validate_resumption_token ret=r
    ensures r == Ok::<Option<ResumptionState>, Error>(if self.toks().contains_key(*token) { Some(self.toks()[*token]) } else { None })
//@end
impl ResumptionManager {
    #[verifier::inline]
    pub open spec fn st(&self) -> InMemoryEventStore { self.event_store }
    #[verifier::inline]
    pub open spec fn ctr(&self) -> u64 { self.sequence_counter.v }
}
/// the manager records one message: the next sequence number, its own session, the given direction
pub open spec fn recorded(a: ResumptionManager, b: ResumptionManager, m: TransportMessage, d: MessageDirection) -> bool {
    &&& b.session_id == a.session_id && b.ctr() == a.ctr() + 1
    &&& exists|e: StoredEvent| #[trigger] stored(a.st(), b.st(), e) && e.message == m && e.direction == d && e.session_id == a.session_id && e.sequence == a.ctr() && is_now(e.timestamp@)
}
//@fn ResumptionManager::new ret=r
    ensures r.event_store == event_store, r.session_id == session_id, r.ctr() == 0
//@end
//@fn ResumptionManager::record_outbound ret=r mutself
    requires old(self).ctr() < u64::MAX
    ensures r is Ok, recorded(*old(self), *final(self), message, MessageDirection::Outbound)
//@tail
    proof { assert(self.event_store == final(self).event_store); }
//@end
//@fn ResumptionManager::record_inbound ret=r mutself
    requires old(self).ctr() < u64::MAX
    ensures r is Ok, recorded(*old(self), *final(self), message, MessageDirection::Inbound)
//@tail
    proof { assert(self.event_store == final(self).event_store); }
//@end
//@fn ResumptionManager::create_token ret=r mutself
    requires forall|i: int| 0 <= i < old(self).st().es().len() ==> (#[trigger] old(self).st().es()[i]).sequence < u64::MAX
    ensures
        final(self).ctr() == old(self).ctr(), final(self).session_id == old(self).session_id, final(self).st().events == old(self).st().events,
        r is Ok <==> old(self).st().es().len() > 0,
        r is Err ==> final(self).event_store.tokens == old(self).event_store.tokens,
        r is Ok ==> state_of(final(self).st().toks()[r->Ok_0.token], old(self).st().es().last())
            && final(self).st().toks() == old(self).st().toks().insert(r->Ok_0.token, final(self).st().toks()[r->Ok_0.token]),
//@end
//@fn ResumptionManager::resume_from_token ret=r mutself
    ensures
        final(self).event_store == old(self).event_store, final(self).session_id == old(self).session_id,
        r is Ok <==> old(self).st().toks().contains_key(*token),
        r is Err ==> final(self).ctr() == old(self).ctr(),
        r is Ok ==> {
            let s = old(self).st().toks()[*token];
            final(self).ctr() == s.next_sequence && r->Ok_0@ == since(old(self).st().es(), s.last_event_id, None)
        },
//@end
//@fn ResumptionManager::get_pending_events ret=r
    ensures r is Ok, r->Ok_0@ == since(self.st().es(), *since_event_id, None).filter(|e: StoredEvent| e.direction == MessageDirection::Outbound)
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == since(self.st().es(), *since_event_id, None),
        __out0@ == __it0.seq().subrange(0, __it0.pos()).filter(|e: StoredEvent| e.direction == MessageDirection::Outbound),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost f = |e: StoredEvent| e.direction == MessageDirection::Outbound;
    proof { let q = __it0.seq().subrange(0, __it0.pos()); assert(q.drop_last() =~= __it0.seq().subrange(0, __it0.pos() - 1)); reveal(Seq::filter); assert(q.filter(f) == (if f(q.last()) { q.drop_last().filter(f).push(q.last()) } else { q.drop_last().filter(f) })); }
//@afterloop 0
    proof { assert(__it0.seq().subrange(0, __it0.seq().len() as int) =~= __it0.seq()); }
//@end
//@extract src/shared/event_store.rs impl:InMemoryEventStore::{new,cleanup} impl:InMemoryEventStore::{store_event,get_events_since,get_latest_event_id,clear_events_before,create_resumption_token,validate_resumption_token} impl:ResumptionManager::{new,record_outbound,record_inbound,create_token,resume_from_token,get_pending_events}
