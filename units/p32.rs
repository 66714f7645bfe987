//@include core.rs
//@include text.rs
//@type str = String
//@include uuid.rs
//@include float.rs
//@include time.rs
//@include chrono.rs
//@include coll.rs
//@include jsonrpc.rs
//@include json.rs
//@type chrono::DateTime<chrono::Utc> = DateTime
//@call RequestId::from = v_rid
//@type fmt::Formatter<'_> = String
//@type fmt::Result = Result<(), ParseError>
//@extract src/shared/context.rs struct:RequestContext struct:ClientInfo
pub open spec fn DASH() -> u8 { 45 }
pub open spec fn BAG() -> Seq<u8> { S("baggage-") }
pub trait VRid: Sized { spec fn rid(self) -> RequestId; fn make(self) -> (r: RequestId) ensures r == self.rid(); }
impl VRid for i64 { open spec fn rid(self) -> RequestId { RequestId::Number(self) } fn make(self) -> (r: RequestId) { RequestId::from_i64(self) } }
impl VRid for String { open spec fn rid(self) -> RequestId { RequestId::String(self) } fn make(self) -> (r: RequestId) { RequestId::from_string(self) } }
pub fn v_rid<T: VRid>(x: T) -> (r: RequestId) ensures r == x.rid() { x.make() }
impl RequestId {
    pub open spec fn text(&self) -> Seq<u8> { match *self { RequestId::String(s) => s@, RequestId::Number(n) => dec(n as int) } }
    /// `ToString::to_string` is `Display::fmt` into an empty string
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() {
        let mut f = String::new();
        let _ = self.fmt(&mut f);
        f
    }
}
/// the value a table has under a text key
pub open spec fn look(m: Map<String, String>, t: Seq<u8>) -> Option<Seq<u8>> {
    if exists|k: String| #[trigger] m.contains_key(k) && k@ == t { Some(m[choose|k: String| #[trigger] m.contains_key(k) && k@ == t]@) } else { None }
}
pub mod vu_look {
use vstd::prelude::*;
use super::*;
pub broadcast proof fn lemma_look_insert(m: Map<String, String>, k: String, v: String, t: Seq<u8>)
    ensures #[trigger] look(m.insert(k, v), t) == (if t == k@ { Some(v@) } else { look(m, t) })
{
    broadcast use axiom_string_ext;
    let n = m.insert(k, v);
    if t == k@ {
        assert(n.contains_key(k));
        let c = choose|c: String| #[trigger] n.contains_key(c) && c@ == t;
        assert(c == k);
    } else {
        if look(m, t) is Some {
            let c = choose|c: String| #[trigger] m.contains_key(c) && c@ == t;
            assert(n.contains_key(c));
            let d = choose|c: String| #[trigger] n.contains_key(c) && c@ == t;
            assert(d == c);
        } else if look(n, t) is Some {
            let c = choose|c: String| #[trigger] n.contains_key(c) && c@ == t;
            assert(m.contains_key(c));
        }
    }
}
pub broadcast proof fn lemma_look_empty(t: Seq<u8>) ensures #[trigger] look(Map::<String, String>::empty(), t) is None { }
}
pub use vu_look::*;
pub proof fn lemma_look(m: Map<String, String>, k: String)
    ensures m.contains_key(k) ==> look(m, k@) == Some(m[k]@), !m.contains_key(k) ==> look(m, k@) is None
{
    broadcast use axiom_string_ext;
    if m.contains_key(k) {
        let c = choose|c: String| #[trigger] m.contains_key(c) && c@ == k@;
        assert(c == k);
    } else if look(m, k@) is Some {
        let c = choose|c: String| #[trigger] m.contains_key(c) && c@ == k@;
        assert(c == k);
    }
}
/// some of the first n entries has this key
pub open spec fn seen(s: Seq<(&String, &String)>, n: int, t: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i].0@ == t }
pub proof fn lemma_seen(s: Seq<(&String, &String)>, m: Map<String, String>, t: Seq<u8>)
    requires lists(s, m)
    ensures seen(s, s.len() as int, t) == (look(m, t) is Some)
{
    broadcast use axiom_string_ext;
    if seen(s, s.len() as int, t) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0@ == t;
        lemma_look(m, *s[i].0);
    } else if look(m, t) is Some {
        let c = choose|c: String| #[trigger] m.contains_key(c) && c@ == t;
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c;
        assert(s[i].0@ == t);
    }
}
pub mod vu_group {
use vstd::prelude::*;
use super::*;
pub broadcast group group_look { lemma_look_insert, lemma_look_empty }
}
pub use vu_group::*;
pub proof fn lemma_seen_step(s: Seq<(&String, &String)>, p: int, t: Seq<u8>)
    requires 0 <= p < s.len()
    ensures seen(s, p + 1, t) == (seen(s, p, t) || s[p].0@ == t), !seen(s, 0, t)
{
    if seen(s, p, t) { let i = choose|i: int| 0 <= i < p && #[trigger] s[i].0@ == t; assert(s[i].0@ == t); }
}
/// a header name is the baggage prefix and a key, or it is not
pub proof fn lemma_bag(t: Seq<u8>, k: Seq<u8>)
    ensures (is_prefix(BAG(), t) && key_of(t) == k) == (t == BAG() + k)
{
    if t == BAG() + k { assert(t.subrange(0, 8) =~= BAG()); assert(key_of(t) =~= k); }
    if is_prefix(BAG(), t) && key_of(t) == k { assert(t =~= t.subrange(0, 8) + key_of(t)); }
}
pub proof fn lemma_names()
    ensures !is_prefix(BAG(), S("traceparent")), !is_prefix(BAG(), S("x-request-id")), !is_prefix(BAG(), S("x-user-id")), !is_prefix(BAG(), S("x-session-id")),
        S("traceparent") != S("x-request-id"), S("traceparent") != S("x-user-id"), S("traceparent") != S("x-session-id"),
        S("x-request-id") != S("x-user-id"), S("x-request-id") != S("x-session-id"), S("x-user-id") != S("x-session-id"),
        BAG().len() == 8,
{
    assert(S("traceparent")[0] != BAG()[0]); assert(S("x-request-id")[0] != BAG()[0]); assert(S("x-user-id")[0] != BAG()[0]); assert(S("x-session-id")[0] != BAG()[0]);
    assert(S("traceparent").subrange(0, 8)[0] == S("traceparent")[0]);
    assert(S("x-request-id").subrange(0, 8)[0] == S("x-request-id")[0]);
    assert(S("x-user-id").subrange(0, 8)[0] == S("x-user-id")[0]);
    assert(S("x-session-id").subrange(0, 8)[0] == S("x-session-id")[0]);
    assert(S("x-request-id").len() == 12 && S("x-session-id").len() == 12 && S("x-request-id")[2] != S("x-session-id")[2]);
}
pub proof fn lemma_looks(m: Map<String, String>)
    ensures forall|k: String| #[trigger] m.contains_key(k) ==> look(m, k@) == Some(m[k]@), forall|k: String| !(#[trigger] m.contains_key(k)) ==> look(m, k@) is None
{
    assert forall|k: String| #[trigger] m.contains_key(k) implies look(m, k@) == Some(m[k]@) by { lemma_look(m, k); }
    assert forall|k: String| !(#[trigger] m.contains_key(k)) implies look(m, k@) is None by { lemma_look(m, k); }
}
// ---- what travels ----
pub open spec fn short(s: Seq<u8>) -> Seq<u8> { let h = without(s, DASH()); if h.len() >= 16 && boundary(h, 16) { h.subrange(0, 16) } else { h } }
pub open spec fn tp(c: RequestContext) -> Seq<u8> { S("00-") + without(c.trace_id@, DASH()) + S("-") + short(c.span_id@) + S("-01") }
pub open spec fn fixed(c: RequestContext, t: Seq<u8>) -> Option<Seq<u8>> {
    if t == S("x-session-id") && c.session_id is Some { ov(c.session_id) }
    else if t == S("x-user-id") && c.user_id is Some { ov(c.user_id) }
    else if t == S("x-request-id") { Some(c.request_id.text()) }
    else if t == S("traceparent") { Some(tp(c)) }
    else { None }
}
pub open spec fn key_of(t: Seq<u8>) -> Seq<u8> { t.subrange(8, t.len() as int) }
/// the headers a context is written as
pub open spec fn sent(c: RequestContext, t: Seq<u8>) -> Option<Seq<u8>> {
    if is_prefix(BAG(), t) { look(c.baggage@, key_of(t)) } else { fixed(c, t) }
}
pub open spec fn undash(h: Seq<u8>) -> Seq<u8> {
    if h.len() == 32 && is_ascii(h) { h.subrange(0, 8) + S("-") + h.subrange(8, 12) + S("-") + h.subrange(12, 16) + S("-") + h.subrange(16, 20) + S("-") + h.subrange(20, 32) } else { h }
}
pub open spec fn unshort(h: Seq<u8>) -> Seq<u8> {
    if h.len() == 16 && is_ascii(h) { h.subrange(0, 8) + S("-") + h.subrange(8, 12) + S("-") + h.subrange(12, 16) + S("-") + S("0000") + S("-") + S("000000000000") } else { h }
}
pub open spec fn parts(h: Map<String, String>) -> Option<Seq<Seq<u8>>> {
    match look(h, S("traceparent")) { Some(t) => if split_spec(t, DASH()).len() >= 4 { Some(split_spec(t, DASH())) } else { None }, None => None }
}
/// drawn afresh
pub open spec fn fresh(s: Seq<u8>) -> bool { exists|u: Uuid| #[trigger] u.random() && u.text() == s }
/// the context read from headers
pub open spec fn received(c: RequestContext, h: Map<String, String>) -> bool {
    let p = parts(h)->0;
    &&& c.trace_id@ == undash(p[1])
    &&& c.parent_span_id is Some && c.parent_span_id->0@ == unshort(p[2])
    &&& fresh(c.span_id@) && canonical(c.span_id@)
    &&& (match look(h, S("x-request-id")) {
        Some(t) => match parse_dec(t, i64::MIN as int, i64::MAX as int) { Some(n) => c.request_id is Number && c.request_id->Number_0 == n, None => c.request_id is String && c.request_id->String_0@ == t },
        None => c.request_id is Number })
    &&& ov(c.user_id) == look(h, S("x-user-id"))
    &&& ov(c.session_id) == look(h, S("x-session-id"))
    &&& forall|t: Seq<u8>| #[trigger] look(c.baggage@, t) == look(h, BAG() + t)
}
//@fn RequestId::from_i64 ret=r
    ensures r == RequestId::Number(n)
//@end
//@fn RequestId::from_string ret=r
    ensures r == RequestId::String(s)
//@end
//@fn RequestId::fmt ret=r
    ensures r is Ok, final(f)@ == old(f)@ + self.text()
//@end
//@fn RequestContext::new ret=r
    ensures r.request_id == request_id, canonical(r.trace_id@), fresh(r.trace_id@), canonical(r.span_id@), fresh(r.span_id@), r.parent_span_id is None,
        r.user_id is None, r.session_id is None, r.client_info is None, r.metadata@ == Map::<String, Value>::empty(), r.baggage@ == Map::<String, String>::empty(),
//@end
//@fn RequestContext::child ret=r
    ensures r.request_id == self.request_id, r.trace_id == self.trace_id, r.parent_span_id == Some(self.span_id), canonical(r.span_id@), fresh(r.span_id@),
        r.user_id == self.user_id, r.session_id == self.session_id, r.client_info == self.client_info, r.metadata == self.metadata, r.baggage == self.baggage,
//@end
//@fn RequestContext::with_metadata ret=r
    ensures r == (RequestContext { metadata: r.metadata, ..self }), r.metadata@ == self.metadata@.insert(key, value)
//@end
//@fn RequestContext::with_baggage ret=r
    ensures r == (RequestContext { baggage: r.baggage, ..self }), r.baggage@ == self.baggage@.insert(key, value)
//@end
//@fn RequestContext::with_user_id ret=r
    ensures r == (RequestContext { user_id: Some(user_id), ..self })
//@end
//@fn RequestContext::with_session_id ret=r
    ensures r == (RequestContext { session_id: Some(session_id), ..self })
//@end
//@fn RequestContext::with_client_info ret=r
    ensures r == (RequestContext { client_info: Some(client_info), ..self })
//@end
//@fn RequestContext::to_headers ret=r
    ensures forall|t: Seq<u8>| #[trigger] look(r@, t) == sent(*self, t)
//@start
    broadcast use group_look;
//@beforeloop 0
    let ghost base = headers@;
    proof {
        lemma_names();
        assert forall|t: Seq<u8>| #[trigger] look(base, t) == (if is_prefix(BAG(), t) { None } else { fixed(*self, t) }) by { }
    }
//@loop 0
    invariant __it0.wf(), lists(__it0.seq(), self.baggage@),
        forall|t: Seq<u8>| #[trigger] look(base, t) == (if is_prefix(BAG(), t) { None } else { fixed(*self, t) }),
        forall|t: Seq<u8>| #[trigger] look(headers@, t) == (if is_prefix(BAG(), t) && seen(__it0.seq(), __it0.pos(), key_of(t)) { look(self.baggage@, key_of(t)) } else { look(base, t) }),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    broadcast use group_look;
    let ghost h0 = headers@;
//@loopend 0
    proof {
        let p = __it0.pos() - 1;
        let s = __it0.seq();
        assert(s[p] == (key, value));
        lemma_look(self.baggage@, *key);
        assert forall|t: Seq<u8>| #[trigger] look(headers@, t) == (if is_prefix(BAG(), t) && seen(s, p + 1, key_of(t)) { look(self.baggage@, key_of(t)) } else { look(base, t) }) by {
            assert(look(headers@, t) == (if t == BAG() + key@ { Some(value@) } else { look(h0, t) }));
            lemma_bag(t, key@);
            lemma_seen_step(s, p, key_of(t));
        }
    }
//@afterloop 0
    proof {
        assert forall|t: Seq<u8>| #[trigger] look(headers@, t) == sent(*self, t) by { lemma_seen(__it0.seq(), self.baggage@, key_of(t)); }
    }
//@end
//@fn RequestContext::from_headers ret=r
    ensures r is Some <==> parts(headers@) is Some, r is Some ==> received(r->0, headers@)
//@start
    broadcast use group_look;
    proof { lemma_names(); lemma_looks(headers@); }
//@loop 0
    invariant __it0.wf(), lists(__it0.seq(), headers@), context == (RequestContext { baggage: context.baggage, ..c0 }),
        forall|t: Seq<u8>| #[trigger] look(context.baggage@, t) == (if seen(__it0.seq(), __it0.pos(), BAG() + t) { look(headers@, BAG() + t) } else { None }),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@beforeloop 0
    let ghost c0 = context;
//@loopstart 0
    broadcast use group_look;
    let ghost h0 = context.baggage@;
//@loopend 0
    proof {
        let p = __it0.pos() - 1;
        let s = __it0.seq();
        assert(s[p] == (key, value));
        lemma_look(headers@, *key);
        assert forall|t: Seq<u8>| #[trigger] look(context.baggage@, t) == (if seen(s, p + 1, BAG() + t) { look(headers@, BAG() + t) } else { None }) by {
            lemma_bag(key@, t);
            lemma_seen_step(s, p, BAG() + t);
        }
    }
//@afterloop 0
    proof {
        assert forall|t: Seq<u8>| #[trigger] look(context.baggage@, t) == look(headers@, BAG() + t) by { lemma_seen(__it0.seq(), headers@, BAG() + t); }
    }
//@end
//@fn ContextPropagator::extract ret=r
    ensures r is Some <==> parts(headers@) is Some, r is Some ==> received(r->0, headers@)
//@end
//@fn ContextPropagator::inject ret=r
    ensures forall|t: Seq<u8>| #[trigger] look(r@, t) == sent(*context, t)
//@end
pub open spec fn dashless(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 45 }
pub proof fn lemma_without_app(a: Seq<u8>, b: Seq<u8>, c: u8)
    ensures without(a + b, c) == without(a, c) + without(b, c)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(without(a, c) + without(b, c) =~= without(a, c)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_without_app(a, b.drop_last(), c);
        assert((without(a, c) + without(b.drop_last(), c)).push(b.last()) =~= without(a, c) + without(b.drop_last(), c).push(b.last()));
    }
}
pub proof fn lemma_without_none(a: Seq<u8>)
    requires dashless(a)
    ensures without(a, 45) == a
    decreases a.len()
{
    if a.len() > 0 { lemma_without_none(a.drop_last()); assert(a.last() == a[a.len() - 1]); assert(a.drop_last().push(a.last()) =~= a); }
}
pub proof fn lemma_without_free(a: Seq<u8>)
    ensures dashless(without(a, 45))
    decreases a.len()
{
    if a.len() > 0 { lemma_without_free(a.drop_last()); }
}
pub proof fn lemma_split_app(a: Seq<u8>, b: Seq<u8>)
    requires dashless(a)
    ensures split_spec(a + seq![45u8] + b, 45) == seq![a] + split_spec(b, 45), split_spec(a, 45) == seq![a]
{
    let t = a + seq![45u8] + b;
    assert(t[a.len() as int] == 45);
    assert forall|j: int| 0 <= j < a.len() implies t[j] != 45 by { assert(t[j] == a[j]); }
    lemma_index_of(t, 45, a.len() as int);
    assert(t.subrange(0, a.len() as int) =~= a);
    assert(t.subrange(a.len() as int + 1, t.len() as int) =~= b);
    broadcast use lemma_index_of_props;
    assert(index_of(a, 45) is None);
}
pub proof fn lemma_without_dash() ensures without(seq![45u8], 45) == Seq::<u8>::empty()
{
    assert(seq![45u8].drop_last() =~= Seq::<u8>::empty());
    assert(without(seq![45u8].drop_last(), 45) == Seq::<u8>::empty());
}
/// the dashes of a canonical text go and come back
pub proof fn lemma_canonical(s: Seq<u8>)
    requires canonical(s)
    ensures undash(without(s, 45)) == s, without(s, 45).len() == 32, is_ascii(without(s, 45)),
        without(s, 45).subrange(0, 16) =~= s.subrange(0, 8) + s.subrange(9, 13) + s.subrange(14, 18)
{
    let d = seq![45u8];
    let (a, b, c, e, f) = (s.subrange(0, 8), s.subrange(9, 13), s.subrange(14, 18), s.subrange(19, 23), s.subrange(24, 36));
    assert(s =~= a + d + b + d + c + d + e + d + f);
    lemma_without_app(a + d + b + d + c + d + e + d, f, 45);
    lemma_without_app(a + d + b + d + c + d + e, d, 45);
    lemma_without_app(a + d + b + d + c + d, e, 45);
    lemma_without_app(a + d + b + d + c, d, 45);
    lemma_without_app(a + d + b + d, c, 45);
    lemma_without_app(a + d + b, d, 45);
    lemma_without_app(a + d, b, 45);
    lemma_without_app(a, d, 45);
    lemma_without_dash();
    lemma_without_none(a); lemma_without_none(b); lemma_without_none(c); lemma_without_none(e); lemma_without_none(f);
    let h = without(s, 45);
    assert(h =~= a + b + c + e + f);
    assert(h.subrange(0, 8) =~= a); assert(h.subrange(8, 12) =~= b); assert(h.subrange(12, 16) =~= c); assert(h.subrange(16, 20) =~= e); assert(h.subrange(20, 32) =~= f);
    assert(S("-") =~= d);
    assert(undash(h) =~= s);
}
pub proof fn lemma_tp(c: RequestContext)
    ensures split_spec(tp(c), DASH()) == seq![S("00"), without(c.trace_id@, 45), short(c.span_id@), S("01")]
{
    let (h, p, d) = (without(c.trace_id@, 45), short(c.span_id@), seq![45u8]);
    lemma_without_free(c.trace_id@);
    lemma_without_free(c.span_id@);
    assert(dashless(p));
    assert(S("00-") =~= S("00") + d); assert(S("-01") =~= d + S("01")); assert(S("-") =~= d);
    assert(tp(c) =~= S("00") + d + (h + d + (p + d + S("01"))));
    lemma_split_app(S("00"), h + d + (p + d + S("01")));
    lemma_split_app(h, p + d + S("01"));
    lemma_split_app(p, S("01"));
    lemma_split_app(S("01"), p);
    assert(split_spec(tp(c), DASH()) =~= seq![S("00"), h, p, S("01")]);
}
/// the next hop: what `from_headers` makes of what `to_headers` wrote
pub proof fn lemma_hop(c: RequestContext, h: Map<String, String>, d: RequestContext)
    requires forall|t: Seq<u8>| #[trigger] look(h, t) == sent(c, t), received(d, h)
    ensures parts(h) is Some,
        d.trace_id@ == undash(without(c.trace_id@, 45)), canonical(c.trace_id@) ==> d.trace_id@ == c.trace_id@,
        d.parent_span_id is Some && d.parent_span_id->0@ == unshort(short(c.span_id@)),
        canonical(c.span_id@) ==> d.parent_span_id->0@ == c.span_id@.subrange(0, 18) + S("-0000-000000000000"),
        ov(d.user_id) == ov(c.user_id), ov(d.session_id) == ov(c.session_id),
        forall|t: Seq<u8>| #[trigger] look(d.baggage@, t) == look(c.baggage@, t),
        c.request_id is Number ==> d.request_id == c.request_id,
        c.request_id is String && parse_dec(c.request_id->String_0@, i64::MIN as int, i64::MAX as int) is None ==> d.request_id == c.request_id,
{
    lemma_names();
    lemma_tp(c);
    assert(look(h, S("traceparent")) == Some(tp(c)));
    if canonical(c.trace_id@) { lemma_canonical(c.trace_id@); }
    if canonical(c.span_id@) {
        lemma_canonical(c.span_id@);
        let w = without(c.span_id@, 45);
        let g = short(c.span_id@);
        let s = c.span_id@;
        assert(w[16] < 128);
        assert(boundary(w, 16));
        assert(g == w.subrange(0, 16));
        assert(is_ascii(g)) by { assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] < 128 by { assert(g[i] == w[i]); } }
        assert(g.subrange(0, 8) =~= s.subrange(0, 8)); assert(g.subrange(8, 12) =~= s.subrange(9, 13)); assert(g.subrange(12, 16) =~= s.subrange(14, 18));
        assert(unshort(g) =~= s.subrange(0, 18) + S("-0000-000000000000"));
    }
    assert(look(h, S("x-user-id")) == sent(c, S("x-user-id")));
    assert(look(h, S("x-session-id")) == sent(c, S("x-session-id")));
    assert(look(h, S("x-request-id")) == sent(c, S("x-request-id")));
    assert forall|t: Seq<u8>| #[trigger] look(d.baggage@, t) == look(c.baggage@, t) by {
        lemma_bag(BAG() + t, t);
        assert(look(h, BAG() + t) == sent(c, BAG() + t));
    }
    if c.request_id is Number { axiom_dec_i64(c.request_id->Number_0); }
}
pub struct ContextPropagator;
//@extract src/types/jsonrpc.rs impl:RequestId::{from@From<i64>=from_i64,from@From<String>=from_string,fmt}
//@extract src/shared/context.rs impl:RequestContext::{new,child,with_metadata,with_baggage,with_user_id,with_session_id,with_client_info,to_headers,from_headers} impl:ContextPropagator::{extract,inject}
