//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include sync.rs
//@include coll.rs
//@include float.rs
//@type f64 = F64
//@include notify.rs
//@call sender = sender.call
//@expr &self.notification_sender => &mut self.notification_sender
//@extract src/server/subscriptions.rs struct:SubscriptionManager struct:SubscriptionStats
pub open spec fn sub(m: Map<String, HashSet<String>>, u: String, s: String) -> bool { m.contains_key(u) && m[u]@.contains(s) }
/// how many subscriptions the first n of the subscriber sets hold
pub open spec fn sizes(s: Seq<&HashSet<String>>, n: int) -> int decreases n { if n <= 0 { 0 } else { sizes(s, n - 1) + s[n - 1]@.len() } }
/// all are those subscribed to anything
pub open spec fn everyone(all: Set<String>, m: Map<String, HashSet<String>>) -> bool { forall|s: String| #[trigger] all.contains(s) <==> exists|u: String| sub(m, u, s) }
pub open spec fn typed(m: HashMap<String, i32>) -> bool { true }
pub open spec fn seen(s: Seq<&String>, n: int, x: String) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]) == x }
pub open spec fn within(s: Seq<&HashSet<String>>, n: int, x: String) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i])@.contains(x) }
pub proof fn sizes_grow(s: Seq<&HashSet<String>>, n: int, k: int)
    requires 0 <= n <= k <= s.len()
    ensures 0 <= sizes(s, n) <= sizes(s, k)
    decreases k
{ if n < k { sizes_grow(s, n, k - 1); } else if n > 0 { sizes_grow(s, n - 1, n - 1); } }
impl SubscriptionManager {
    #[verifier::inline]
    pub open spec fn m(&self) -> Map<String, HashSet<String>> { self.subscriptions.v@ }
    /// no resource without subscribers is kept
    pub open spec fn inv(&self) -> bool { forall|u: String| #[trigger] self.m().contains_key(u) ==> self.m()[u]@ != Set::<String>::empty() }
}
//@fn SubscriptionManager::new ret=r
    ensures r.inv(), r.m() == Map::<String, HashSet<String>>::empty(), r.notification_sender is None
//@end
//@fn SubscriptionManager::subscribe ret=r mutself
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).notification_sender == old(self).notification_sender,
        forall|u: String, s: String| #[trigger] sub(final(self).m(), u, s) == (sub(old(self).m(), u, s) || (u == uri && s == subscriber_id)),
//@end
//@fn SubscriptionManager::unsubscribe ret=r mutself
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).notification_sender == old(self).notification_sender,
        forall|u: String, s: String| #[trigger] sub(final(self).m(), u, s) == (sub(old(self).m(), u, s) && !(u == uri && s == subscriber_id)),
//@end
//@fn SubscriptionManager::has_subscribers ret=r
    requires self.inv()
    ensures r == exists|s: String| #[trigger] sub(self.m(), *uri, s)
//@tail
    proof { if self.m().contains_key(*uri) { lemma_some(self.m()[*uri]@); let x = choose|x: String| self.m()[*uri]@.contains(x); assert(sub(self.m(), *uri, x)); } }
//@end
//@fn SubscriptionManager::get_subscribers ret=r
    requires self.inv()
    ensures forall|s: String| #[trigger] r@.contains(s) == sub(self.m(), *uri, s), r@.no_duplicates()
//@start
    proof { assert forall|v: Seq<&String>, m: Set<String>| #[trigger] lists_s(v, m) implies derefs(v).no_duplicates() && (forall|k: String| #[trigger] derefs(v).contains(k) == m.contains(k)) by { lemma_lists_s(v, m); } }
//@end
//@fn SubscriptionManager::get_stats ret=r
    requires self.m().dom().len() <= i32::MAX, forall|vs: Seq<&HashSet<String>>, ks: Seq<String>| #[trigger] lists_v(vs, ks, self.m()) ==> sizes(vs, vs.len() as int) <= usize::MAX
    ensures r.total_resources == self.m().dom().len(),
        exists|all: Set<String>| #[trigger] everyone(all, self.m()) && r.unique_subscribers == all.len(),
        exists|vs: Seq<&HashSet<String>>, ks: Seq<String>| #[trigger] lists_v(vs, ks, self.m()) && r.total_subscriptions == sizes(vs, vs.len() as int),
        r.subscriptions_per_resource == (if r.total_resources > 0 { f_div(f_int(r.total_subscriptions as int), f_int(r.total_resources as int)) } else { f_bits(0) })
//@loop 0
    invariant
        __it0.wf(), exists|ks: Seq<String>| lists_v(__it0.seq(), ks, self.m()), subs@ == self.m(), __out0 == sizes(__it0.seq(), __it0.pos() as int),
        sizes(__it0.seq(), __it0.seq().len() as int) <= usize::MAX,
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { sizes_grow(__it0.seq(), __it0.pos() as int, __it0.seq().len() as int); }
//@loop 1
    invariant
        typed(subscriber_counts), __it1.wf(), exists|ks: Seq<String>| lists_v(__it1.seq(), ks, self.m()), __it1.seq().len() <= i32::MAX,
        forall|x: String| #[trigger] subscriber_counts@.contains_key(x) == within(__it1.seq(), __it1.pos() as int, x),
        forall|x: String| #[trigger] subscriber_counts@.contains_key(x) ==> 0 <= subscriber_counts@[x] <= __it1.pos(),
    ensures __it1.pos() == __it1.seq().len(),
    decreases __it1.seq().len() - __it1.pos()
//@afterloop 1
    proof {
        let vs = __it1.seq();
        let ks = choose|ks: Seq<String>| lists_v(vs, ks, self.m());
        assert forall|x: String| subscriber_counts@.contains_key(x) == exists|u: String| sub(self.m(), u, x) by {
            if subscriber_counts@.contains_key(x) {
                let i = choose|i: int| 0 <= i < vs.len() && (#[trigger] vs[i])@.contains(x);
                assert(self.m().contains_key(ks[i]) && self.m()[ks[i]] == *vs[i]);
                assert(sub(self.m(), ks[i], x));
            }
            if exists|u: String| sub(self.m(), u, x) {
                let u = choose|u: String| sub(self.m(), u, x);
                assert(self.m().contains_key(u));
                let i = choose|i: int| 0 <= i < vs.len() && #[trigger] ks[i] == u;
                assert(self.m()[ks[i]] == *vs[i]);
                assert(vs[i]@.contains(x));
                assert(within(vs, vs.len() as int, x));
            }
        }
        assert(everyone(subscriber_counts@.dom(), self.m()));
    }
//@loopstart 1
    let ghost c0 = subscriber_counts@;
    let ghost p = __it1.pos() - 1;
//@loop 2
    invariant
        __it2.wf(), lists_s(__it2.seq(), subscribers@), 0 <= p < i32::MAX,
        forall|x: String| #[trigger] subscriber_counts@.contains_key(x) == (c0.contains_key(x) || seen(__it2.seq(), __it2.pos() as int, x)),
        forall|x: String| #[trigger] c0.contains_key(x) ==> 0 <= c0[x] <= p,
        forall|x: String| #[trigger] subscriber_counts@.contains_key(x) ==> 0 <= subscriber_counts@[x] <= p + 1,
        forall|x: String| #[trigger] subscriber_counts@.contains_key(x) && !seen(__it2.seq(), __it2.pos() as int, x) ==> subscriber_counts@[x] <= p,
    ensures __it2.pos() == __it2.seq().len(),
    decreases __it2.seq().len() - __it2.pos()
//@loopend 2
    proof {
        let n = __it2.pos() as int;
        assert(!seen(__it2.seq(), n - 1, *subscriber));
        assert(*__it2.seq()[n - 1] == *subscriber);
        assert forall|x: String| seen(__it2.seq(), n, x) == (seen(__it2.seq(), n - 1, x) || x == *subscriber) by { }
    }
//@end
//@fn SubscriptionManager::get_subscriptions ret=r
    requires self.inv()
    ensures forall|u: String| #[trigger] r@.contains(u) == sub(self.m(), u, *subscriber_id), r@.no_duplicates()
//@loop 0
    invariant
        __it0.wf(), lists(__it0.seq(), self.m()), subs@ == self.m(),
        forall|j: int| 0 <= j < __it0.pos() && self.m()[*(#[trigger] __it0.seq()[j]).0]@.contains(*subscriber_id) ==> __out0@.contains(*__it0.seq()[j].0),
        forall|i: int| 0 <= i < __out0@.len() ==> #[trigger] sub(self.m(), __out0@[i], *subscriber_id) && exists|j: int| 0 <= j < __it0.pos() && *(#[trigger] __it0.seq()[j]).0 == __out0@[i],
        __out0@.no_duplicates(),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p = __it0.pos() - 1;
    proof {
        assert forall|i: int| 0 <= i < __out0@.len() implies __out0@[i] != *__it0.seq()[p].0 && exists|j: int| 0 <= j < __it0.pos() && *(#[trigger] __it0.seq()[j]).0 == __out0@[i] by {
            assert(sub(self.m(), __out0@[i], *subscriber_id));
            let j = choose|j: int| 0 <= j < p && *(#[trigger] __it0.seq()[j]).0 == __out0@[i];
            assert(*__it0.seq()[j].0 == __out0@[i]);
            assert(*__it0.seq()[j].0 != *__it0.seq()[p].0);
        }
    }
    let ghost o0 = __out0@;
//@loopend 0
    proof { assert(__out0@ == o0.push(*__it0.seq()[p].0)); lemma_push_contains(o0, *__it0.seq()[p].0); }
//@end
//@fn SubscriptionManager::notify_resource_updated ret=r mutself
    requires old(self).inv()
    ensures final(self).subscriptions == old(self).subscriptions, r is Ok,
        r->Ok_0 as int == (if old(self).m().contains_key(uri) { old(self).m()[uri]@.len() as int } else { 0 }),
        r->Ok_0 == 0 ==> sent_none(old(self).notification_sender, final(self).notification_sender),
        r->Ok_0 > 0 ==> sent_one(old(self).notification_sender, final(self).notification_sender, ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri })),
//@end
//@fn SubscriptionManager::unsubscribe_all ret=r mutself
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).notification_sender == old(self).notification_sender,
        forall|u: String, s: String| #[trigger] sub(final(self).m(), u, s) == (sub(old(self).m(), u, s) && s != *subscriber_id),
//@start
    let ghost m0 = self.m(); let ghost mut m1 = m0; let ghost mut es = Seq::<String>::empty(); 
//@loop 0
    invariant
        __it0.wf(), lists_o(__it0.seq(), m0),
        forall|u: String| m0.contains_key(u) ==> (#[trigger] m0[u])@ != Set::<String>::empty(),
        subs@.dom() == m0.dom(),
        forall|j: int| 0 <= j < __it0.seq().len() ==> subs@[#[trigger] __it0.seq()[j]]@
            == (if j < __it0.pos() { m0[__it0.seq()[j]]@.remove(*subscriber_id) } else { m0[__it0.seq()[j]]@ }),
        forall|j: int| 0 <= j < __it0.pos() && subs@[#[trigger] __it0.seq()[j]]@.len() == 0 ==> empty_uris@.contains(__it0.seq()[j]),
        forall|i: int| 0 <= i < empty_uris@.len() ==> m0.contains_key(#[trigger] empty_uris@[i]) && subs@[empty_uris@[i]]@.len() == 0,
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost s0 = subs@; let ghost e0 = empty_uris@;
//@loopend 0
    proof {
        if empty_uris@.len() > e0.len() { assert(empty_uris@ == e0.push(__k0)); assert(empty_uris@.last() == __k0); }
        assert forall|u: String| e0.contains(u) implies empty_uris@.contains(u) by { let i = choose|i: int| 0 <= i < e0.len() && e0[i] == u; assert(empty_uris@[i] == u); }
        assert(subs@.dom() =~= m0.dom());
    }
//@afterloop 0
    proof {
        m1 = subs@;
        assert forall|u: String| m0.contains_key(u) implies (#[trigger] m1[u])@ == m0[u]@.remove(*subscriber_id)
            && (m1[u]@.len() == 0 ==> empty_uris@.contains(u)) by {
            let j = choose|j: int| 0 <= j < __it0.seq().len() && #[trigger] __it0.seq()[j] == u;
            assert(__it0.seq()[j] == u);
        }
    }
//@beforeloop 1
    proof {
        es = empty_uris@;
        assert(subs@ == m1);
        assert forall|i: int| 0 <= i < es.len() implies (#[trigger] m1[es[i]])@.len() == 0 by { assert(es[i] == empty_uris@[i]); }
        assert forall|u: String| m0.contains_key(u) && (#[trigger] m1[u])@.len() == 0 implies exists|i: int| 0 <= i < es.len() && es[i] == u by { assert(es.contains(u)); }
        assert(m1.dom() == m0.dom());
    }
//@loop 1
    invariant
        __it1.wf(), __it1.seq() == es,
        forall|u: String| #[trigger] subs@.contains_key(u) == (m1.contains_key(u) && !(exists|i: int| 0 <= i < __it1.pos() && __it1.seq()[i] == u)),
        forall|u: String| #[trigger] subs@.contains_key(u) ==> subs@[u] == m1[u],
    ensures __it1.pos() == __it1.seq().len(),
    decreases __it1.seq().len() - __it1.pos()
//@tail
    proof {
        assert forall|u: String, s: String| #[trigger] sub(subs@, u, s) == (sub(m0, u, s) && s != *subscriber_id) by {
            assert(m1.contains_key(u) == m0.contains_key(u));
            if m0.contains_key(u) {
                assert(m1[u]@ == m0[u]@.remove(*subscriber_id));
                if exists|i: int| 0 <= i < es.len() && es[i] == u {
                    let i = choose|i: int| 0 <= i < es.len() && es[i] == u;
                    assert(m1[es[i]]@.len() == 0);
                    assert(!m1[u]@.contains(s));
                } else { assert(subs@.contains_key(u)); assert(subs@[u] == m1[u]); }
            } else { assert(!subs@.contains_key(u)); }
        }
    }
//@end
//@extract src/server/subscriptions.rs impl:SubscriptionManager::{get_stats,new,subscribe,unsubscribe,unsubscribe_all,has_subscribers,get_subscriptions,get_subscribers,notify_resource_updated}
