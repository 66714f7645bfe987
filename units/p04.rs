//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
#[verifier::external_body]
pub struct TransportMessage { x: u8 }
pub type EventList = Vec<(String, TransportMessage)>;
pub type EventsMap = HashMap<String, Vec<(String, TransportMessage)>>;
//@extract src/server/streamable_http_server.rs struct:InMemoryEventStore impl:InMemoryEventStore::{store_event,replay_events_after,get_stream_for_event}
/// the first message filed under id among the first n of a stream
pub open spec fn first(v: Seq<(String, TransportMessage)>, id: String, n: int) -> Option<TransportMessage> decreases n {
    if n <= 0 { None } else { match first(v, id, n - 1) { Some(m) => Some(m), None => if v[n - 1].0 == id { Some(v[n - 1].1) } else { None } } }
}
pub open spec fn order(s: InMemoryEventStore) -> Seq<String> { s.event_order.v@ }
pub open spec fn of_stream(s: InMemoryEventStore, id: String) -> Option<String> { if s.event_to_stream.v@.contains_key(id) { Some(s.event_to_stream.v@[id]) } else { None } }
pub open spec fn msg_of(s: InMemoryEventStore, id: String) -> Option<TransportMessage> {
    match of_stream(s, id) { Some(k) => if s.events.v@.contains_key(k) { first(s.events.v@[k]@, id, s.events.v@[k]@.len() as int) } else { None }, None => None }
}
/// every event on record has its stream and its message; ids are distinct
pub open spec fn wf(s: InMemoryEventStore) -> bool {
    &&& forall|i: int| 0 <= i < order(s).len() ==> msg_of(s, #[trigger] order(s)[i]) is Some
    &&& forall|k: String| #[trigger] s.event_to_stream.v@.contains_key(k) ==> order(s).contains(k)
    &&& forall|k: String, j: int| #![trigger s.events.v@[k]@[j]] s.events.v@.contains_key(k) && 0 <= j < s.events.v@[k]@.len() ==> order(s).contains(s.events.v@[k]@[j].0)
    &&& order(s).no_duplicates()
}
pub open spec fn list(s: InMemoryEventStore, a: int, b: int) -> Seq<(String, TransportMessage)> decreases b - a {
    if b <= a { Seq::empty() } else { list(s, a, b - 1).push((order(s)[b - 1], msg_of(s, order(s)[b - 1])->0)) }
}
/// where to start after event id: behind it, or at the beginning if it is unknown
pub open spec fn start_of(s: InMemoryEventStore, id: String) -> int { if order(s).contains(id) { order(s).index_of(id) + 1 } else { 0 } }
pub proof fn lemma_first_push(v: Seq<(String, TransportMessage)>, x: (String, TransportMessage), id: String, n: int)
    requires 0 <= n <= v.len()
    ensures first(v.push(x), id, n) == first(v, id, n)
    decreases n
{ if n > 0 { lemma_first_push(v, x, id, n - 1); } }
pub proof fn lemma_first_none(v: Seq<(String, TransportMessage)>, id: String, n: int)
    requires 0 <= n <= v.len(), forall|j: int| 0 <= j < n ==> (#[trigger] v[j]).0 != id
    ensures first(v, id, n) is None
    decreases n
{ if n > 0 { lemma_first_none(v, id, n - 1); } }
pub proof fn lemma_first_mono(v: Seq<(String, TransportMessage)>, id: String, n: int, k: int)
    requires 0 <= n <= k <= v.len()
    ensures first(v, id, n) is Some ==> first(v, id, k) == first(v, id, n)
    decreases k - n
{ if n < k { lemma_first_mono(v, id, n, k - 1); } }
pub proof fn lemma_start(o: Seq<String>, id: String, p: int)
    requires o.no_duplicates(), (p == 0 && forall|j: int| 0 <= j < o.len() ==> o[j] != id) || (0 < p <= o.len() && o[p - 1] == id)
    ensures p == (if o.contains(id) { o.index_of(id) + 1 } else { 0 })
{ if p > 0 { assert(o.contains(id)); let i = o.index_of(id); assert(o[i] == id); } }
//@fn InMemoryEventStore::store_event ret=r mutself
    requires wf(*old(self)), !order(*old(self)).contains(*event_id)
    ensures r is Ok, wf(*final(self)), order(*final(self)) == order(*old(self)).push(*event_id),
        of_stream(*final(self), *event_id) == Some(*stream_id), msg_of(*final(self), *event_id) == Some(*message),
        forall|k: String| k != *event_id ==> of_stream(*final(self), k) == of_stream(*old(self), k) && #[trigger] msg_of(*final(self), k) == msg_of(*old(self), k),
//@tail
    proof {
        let v0 = if old(self).events.v@.contains_key(*stream_id) { old(self).events.v@[*stream_id]@ } else { Seq::empty() };
        let x = (*event_id, *message);
        let v1 = self.events.v@[*stream_id]@;
        assert(v1 == v0.push(x));
        assert forall|j: int| 0 <= j < v0.len() implies (#[trigger] v0[j]).0 != *event_id by { assert(order(*old(self)).contains(old(self).events.v@[*stream_id]@[j].0)); }
        lemma_first_none(v0, *event_id, v0.len() as int);
        lemma_first_push(v0, x, *event_id, v0.len() as int);
        lemma_push_contains(order(*old(self)), *event_id);
        assert forall|k: String| k != *event_id implies #[trigger] msg_of(*self, k) == msg_of(*old(self), k) by { lemma_first_push(v0, x, k, v0.len() as int); }
        assert forall|i: int| 0 <= i < order(*self).len() implies msg_of(*self, #[trigger] order(*self)[i]) is Some by {
            if i < order(*old(self)).len() { assert(order(*self)[i] == order(*old(self))[i]); assert(order(*old(self)).contains(order(*old(self))[i])); }
        }
        assert forall|k: String, j: int| #![trigger self.events.v@[k]@[j]] self.events.v@.contains_key(k) && 0 <= j < self.events.v@[k]@.len() implies order(*self).contains(self.events.v@[k]@[j].0) by {
            if k == *stream_id { if j < v0.len() { assert(v1[j] == v0[j]); assert(order(*old(self)).contains(old(self).events.v@[k]@[j].0)); } }
            else { assert(order(*old(self)).contains(old(self).events.v@[k]@[j].0)); }
        }
    }
//@end
//@fn InMemoryEventStore::replay_events_after ret=r
    requires wf(*self)
    ensures r is Ok, r->Ok_0@ == list(*self, start_of(*self, *last_event_id), order(*self).len() as int)
//@loop 0
    invariant_except_break __it0.wf(), __out0 is None, __pos0 == __it0.pos(),
    invariant __it0.seq() == order(*self), *event_order == self.event_order.v, __it0.wf(),
        forall|j: int| 0 <= j < __pos0 ==> order(*self)[j] != *last_event_id, 0 <= __pos0 <= __it0.seq().len(),
    ensures __out0 is Some ==> __out0->0 == __pos0 && __pos0 < event_order.len() && order(*self)[__pos0 as int] == *last_event_id,
        __out0 is None ==> __pos0 == order(*self).len(),
    decreases __it0.seq().len() - __it0.pos()
//@beforeloop 1
    proof { lemma_start(order(*self), *last_event_id, start_pos as int); }
//@loop 1
    invariant __end1 == order(*self).len(), start_pos <= __it1, start_pos == start_of(*self, *last_event_id), start_pos <= order(*self).len(), __it1 <= __end1,
        result@ == list(*self, start_pos as int, __it1 as int), wf(*self),
        *event_order == self.event_order.v, *events == self.events.v, *event_to_stream == self.event_to_stream.v,
    decreases __end1 - __it1
//@beforeloop 2
    let ghost r0 = result@;
//@loop 2
    invariant_except_break first(__it2.seq(), *event_id, __it2.pos()) is None, result@ == r0,
    invariant __it2.wf(), __it2.seq() == stream_events@,
    ensures match first(stream_events@, *event_id, stream_events@.len() as int) { Some(m) => result@ == r0.push((*event_id, m)), None => result@ == r0 },
    decreases __it2.seq().len() - __it2.pos()
//@before push#0
    proof { lemma_first_mono(stream_events@, *event_id, __it2.pos(), stream_events@.len() as int); }
//@end
//@fn InMemoryEventStore::get_stream_for_event ret=r
    ensures r is Ok, r->Ok_0 == of_stream(*self, *event_id)
//@end
