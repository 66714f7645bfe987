//@include core.rs
//@include text.rs
//@type str = String
//@type fmt::Formatter<'_> = String
//@type fmt::Result = Result<(), ParseError>
//@extract src/shared/sse_parser.rs struct:SseEvent struct:SseStream
//@include sse_spec.rs
impl SseEvent {
    pub open spec fn ev(&self) -> Ev { Ev { id: ov(self.id), event: ov(self.event), data: self.data@, retry: self.retry } }
    /// `ToString::to_string` is `Display::fmt` into an empty string
    pub fn to_string(&self) -> (r: String) ensures r@ == enc(self.ev()) {
        let mut f = String::new();
        let _ = self.fmt(&mut f);
        assert(Seq::<u8>::empty() + enc(self.ev()) =~= enc(self.ev()));
        f
    }
}
pub open spec fn evs(v: Seq<SseEvent>) -> Seq<Ev> { v.map_values(|e: SseEvent| e.ev()) }

// ---------------------------------------------------------------- encoder specification
pub open spec fn ln(name: Seq<u8>, v: Seq<u8>) -> Seq<u8> { name + v + seq![10u8] }
pub open spec fn enc_data(ls: Seq<Seq<u8>>) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { enc_data(ls.drop_last()) + ln(S("data: "), ls.last()) }
}
pub open spec fn enc_id(e: Ev) -> Seq<u8> { match e.id { Some(i) => ln(S("id: "), i), None => Seq::empty() } }
pub open spec fn enc_event(e: Ev) -> Seq<u8> { match e.event { Some(i) => ln(S("event: "), i), None => Seq::empty() } }
pub open spec fn enc_retry(e: Ev) -> Seq<u8> { match e.retry { Some(i) => ln(S("retry: "), dec(i as int)), None => Seq::empty() } }
pub open spec fn enc(e: Ev) -> Seq<u8> {
    enc_id(e) + enc_event(e) + enc_retry(e) + enc_data(split_spec(e.data, 10)) + S("\n")
}
pub open spec fn enc_all(v: Seq<Ev>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { enc_all(v.drop_last()) + enc(v.last()) }
}
/// Events the format can carry: single-line id (no NUL) and event name, data without carriage returns.
pub open spec fn one_line(s: Seq<u8>) -> bool { !s.contains(10u8) && !s.contains(13u8) }
pub open spec fn carriable(e: Ev) -> bool {
    &&& e.id is Some ==> one_line(e.id->0) && !e.id->0.contains(0u8)
    &&& e.event is Some ==> one_line(e.event->0)
    &&& !e.data.contains(13u8)
}
/// State between events.
pub open spec fn idle(s: St) -> bool { s.buf.len() == 0 && s.data.len() == 0 && s.event is None && s.retry is None }
pub open spec fn later_id(s: St, e: Ev) -> Option<Seq<u8>> { if e.id is Some { e.id } else { s.last } }
pub open spec fn after(s: St, e: Ev) -> St {
    St { last: later_id(s, e), out: s.out.push(Ev { id: later_id(s, e), ..e }), ..s }
}
pub proof fn lemma_field_line(s: St, name: Seq<u8>, v: Seq<u8>, rest: Seq<u8>)
    requires s.buf.len() == 0, one_line(v), name.len() > 0, one_line(name), !name.contains(58u8)
    ensures run(s, ln(name + seq![58u8, 32u8], v) + rest) == run(on_field(s, name, v), rest)
{
    let p = name + seq![58u8, 32u8];
    let l = p + v;
    assert forall|i: int| 0 <= i < l.len() implies l[i] != 10 && l[i] != 13 by {
        if i < name.len() { assert(name.contains(name[i])); }
        else if i >= p.len() { assert(v.contains(v[i - p.len()])); }
    }
    assert(!l.contains(10u8));
    assert(ln(p, v) + rest =~= l + seq![10u8] + rest);
    lemma_run_full_line(s, l, rest);
    assert(s.buf + l =~= l);
    assert(strip_cr(l) == l);
    assert(l[0] == name[0] && name.contains(name[0]));
    assert forall|j: int| 0 <= j < name.len() implies l[j] != 58 by { assert(name.contains(name[j])); }
    lemma_index_of(l, 58, name.len() as int);
    assert(l.subrange(0, name.len() as int) =~= name);
    let w = l.subrange(name.len() as int + 1, l.len() as int);
    assert(w =~= seq![32u8] + v);
    assert(strip_space(w) =~= v);
    assert(St { buf: Seq::empty(), ..s }.buf =~= s.buf);
    assert(St { buf: Seq::empty(), ..s } == s);
}
pub open spec fn join_nl(ls: Seq<Seq<u8>>) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { join_nl(ls.drop_last()) + ls.last() + seq![10u8] }
}
pub proof fn lemma_data_lines(s: St, ls: Seq<Seq<u8>>, rest: Seq<u8>)
    requires s.buf.len() == 0, forall|i: int| 0 <= i < ls.len() ==> one_line(#[trigger] ls[i])
    ensures run(s, enc_data(ls) + rest) == run(St { data: s.data + join_nl(ls), ..s }, rest)
    decreases ls.len()
{
    if ls.len() == 0 {
        assert(enc_data(ls) + rest =~= rest);
        assert(s.data + join_nl(ls) =~= s.data);
    } else {
        let d = ls.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies one_line(#[trigger] d[i]) by { assert(d[i] == ls[i]); }
        let last = ln(S("data: "), ls.last());
        assert(enc_data(ls) + rest =~= enc_data(d) + (last + rest));
        lemma_data_lines(s, d, last + rest);
        let s1 = St { data: s.data + join_nl(d), ..s };
        assert(S("data: ") =~= S("data") + seq![58u8, 32u8]);
        assert(one_line(ls[ls.len() - 1]));
        lemma_field_line(s1, S("data"), ls.last(), rest);
        assert(s1.data + ls.last() + seq![10u8] =~= s.data + join_nl(ls));
    }
}
pub proof fn lemma_split_join(s: Seq<u8>)
    requires !s.contains(13u8)
    ensures
        split_spec(s, 10).len() > 0,
        forall|i: int| 0 <= i < split_spec(s, 10).len() ==> one_line(#[trigger] split_spec(s, 10)[i]),
        join_nl(split_spec(s, 10)) == s + seq![10u8],
    decreases s.len()
{
    let ls = split_spec(s, 10);
    match index_of(s, 10) {
        Some(i) => {
            let h = s.subrange(0, i);
            let t = s.subrange(i + 1, s.len() as int);
            assert(!t.contains(13u8)) by { if t.contains(13u8) { let k = choose|k: int| 0 <= k < t.len() && t[k] == 13u8; assert(s[i + 1 + k] == 13u8); } }
            assert(one_line(h)) by {
                if h.contains(10u8) { let k = choose|k: int| 0 <= k < h.len() && h[k] == 10u8; assert(s[k] == 10u8); }
                if h.contains(13u8) { let k = choose|k: int| 0 <= k < h.len() && h[k] == 13u8; assert(s[k] == 13u8); }
            }
            lemma_split_join(t);
            let lt = split_spec(t, 10);
            assert(ls == seq![h] + lt);
            lemma_join_cons(h, lt);
            assert(h + seq![10u8] + (t + seq![10u8]) =~= s + seq![10u8]);
        },
        None => {
            assert(ls =~= seq![s]);
            assert(ls.drop_last() =~= Seq::<Seq<u8>>::empty());
            assert(join_nl(ls.drop_last()) =~= Seq::<u8>::empty());
            assert(join_nl(ls) =~= s + seq![10u8]);
        },
    }
}
pub proof fn lemma_join_cons(h: Seq<u8>, l: Seq<Seq<u8>>)
    ensures join_nl(seq![h] + l) == h + seq![10u8] + join_nl(l)
    decreases l.len()
{
    if l.len() == 0 {
        assert(seq![h] + l =~= seq![h]);
        assert(seq![h].drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(join_nl(seq![h].drop_last()) =~= Seq::<u8>::empty());
        assert(join_nl(seq![h]) =~= h + seq![10u8] + join_nl(l));
    } else {
        lemma_join_cons(h, l.drop_last());
        assert((seq![h] + l).drop_last() =~= seq![h] + l.drop_last());
        assert(join_nl(seq![h] + l) =~= h + seq![10u8] + join_nl(l));
    }
}
proof fn lemma_id_line(s: St, v: Seq<u8>, rest: Seq<u8>)
    requires s.buf.len() == 0, one_line(v), !v.contains(0u8)
    ensures run(s, ln(S("id: "), v) + rest) == run(St { last: Some(v), ..s }, rest)
{
    assert(S("id: ") =~= S("id") + seq![58u8, 32u8]);
    lemma_field_line(s, S("id"), v, rest);
}
proof fn lemma_event_line(s: St, v: Seq<u8>, rest: Seq<u8>)
    requires s.buf.len() == 0, one_line(v)
    ensures run(s, ln(S("event: "), v) + rest) == run(St { event: Some(v), ..s }, rest)
{
    assert(S("event: ") =~= S("event") + seq![58u8, 32u8]);
    lemma_field_line(s, S("event"), v, rest);
}
proof fn lemma_retry_line(s: St, n: u64, rest: Seq<u8>)
    requires s.buf.len() == 0
    ensures run(s, ln(S("retry: "), dec(n as int)) + rest) == run(St { retry: Some(n), ..s }, rest)
{
    assert(S("retry: ") =~= S("retry") + seq![58u8, 32u8]);
    axiom_dec(n as int, u64::MAX as int);
    let t = dec(n as int);
    assert(one_line(t)) by {
        if t.contains(10u8) { let k = choose|k: int| 0 <= k < t.len() && t[k] == 10u8; assert(48 <= t[k]); }
        if t.contains(13u8) { let k = choose|k: int| 0 <= k < t.len() && t[k] == 13u8; assert(48 <= t[k]); }
    }
    lemma_field_line(s, S("retry"), t, rest);
}
proof fn lemma_blank_line(s: St, rest: Seq<u8>)
    requires s.buf.len() == 0, s.data.len() > 0
    ensures run(s, S("\n") + rest) == run(St { out: s.out.push(ev_of(s)), ..clear(s) }, rest)
{
    let em = Seq::<u8>::empty();
    assert(!em.contains(10u8));
    lemma_run_full_line(s, em, rest);
    assert(S("\n") + rest =~= em + seq![10u8] + rest);
    assert(s.buf + em =~= em);
    assert(s.buf =~= em);
}
/// Decoding an encoded event, wherever it stands in a stream, yields that event (with the stream's last id when it has none).
pub proof fn theorem_roundtrip(s: St, e: Ev, rest: Seq<u8>)
    requires idle(s), carriable(e)
    ensures idle(after(s, e)), run(s, enc(e) + rest) == run(after(s, e), rest)
{
    hide(on_line); hide(index_of); hide(split_spec); hide(on_field); hide(join_nl); hide(run); hide(enc_data);
    let a = enc_id(e); let b = enc_event(e); let c = enc_retry(e);
    let ls = split_spec(e.data, 10);
    let d = enc_data(ls);
    let nl = S("\n");
    let r4 = nl + rest; let r3 = d + r4; let r2 = c + r3; let r1 = b + r2;
    assert(enc(e) + rest =~= a + r1);
    let s1 = match e.id { Some(i) => St { last: Some(i), ..s }, None => s };
    match e.id { Some(i) => { lemma_id_line(s, i, r1); }, None => { assert(a + r1 =~= r1); } }
    let s2 = St { event: e.event, ..s1 };
    match e.event { Some(i) => { lemma_event_line(s1, i, r2); }, None => { assert(b + r2 =~= r2); } }
    let s3 = St { retry: e.retry, ..s2 };
    match e.retry { Some(i) => { lemma_retry_line(s2, i, r3); }, None => { assert(c + r3 =~= r3); } }
    lemma_split_join(e.data);
    lemma_data_lines(s3, ls, r4);
    let s4 = St { data: s3.data + join_nl(ls), ..s3 };
    assert(s4.data =~= e.data + seq![10u8]);
    lemma_blank_line(s4, rest);
    assert(s4.data.subrange(0, s4.data.len() - 1) =~= e.data);
    assert(clear(s4).data =~= s.data);
}

//@fn SseEvent::new ret=r
    ensures r.ev() == (Ev { id: None, event: None, data: data.txt(), retry: None })
//@end
//@fn SseEvent::with_id ret=r
    ensures r.ev() == (Ev { id: Some(id.txt()), ..self.ev() })
//@end
//@fn SseEvent::with_event ret=r
    ensures r.ev() == (Ev { event: Some(event.txt()), ..self.ev() })
//@end
//@fn SseEvent::with_retry ret=r
    ensures r.ev() == (Ev { retry: Some(retry), ..self.ev() })
//@end
//@fn SseEvent::fmt ret=r
    ensures r is Ok, final(f)@ == old(f)@ + enc(self.ev())
//@start
    broadcast use group_cat;
    let ghost __f0 = f@;
//@beforeloop 0
    let ghost __p = f@;
    assert(__p == __f0 + enc_id(self.ev()) + enc_event(self.ev()) + enc_retry(self.ev()));
//@loop 0
    invariant
        __it0.wf(),
        texts(__it0.seq()) == split_spec(self.data@, 10),
        f@ == __p + enc_data(split_spec(self.data@, 10).subrange(0, __it0.pos())),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost __k = __it0.pos();
    let ghost __ls = split_spec(self.data@, 10);
    proof {
        broadcast use group_cat;
        assert(__ls.subrange(0, __k).drop_last() =~= __ls.subrange(0, __k - 1));
        assert(texts(__it0.seq())[__k - 1] == __it0.seq()[__k - 1]@);
    }
//@loopend 0
    proof {
        assert(f@ == __p + enc_data(__ls.subrange(0, __k)));
    }
//@tail
    proof {
        let ls = split_spec(self.data@, 10);
        assert(ls.subrange(0, ls.len() as int) =~= ls);
    }
//@end
//@fn SseStream::new ret=r
    ensures r.events@.len() == 0
//@end
//@fn SseStream::event ret=r
    ensures evs(r.events@) == evs(self.events@).push(event.ev())
//@tail
    assert(evs(__tail.events@) =~= evs(self.events@).push(event.ev()));
//@end
//@fn SseStream::data ret=r
    ensures evs(r.events@) == evs(self.events@).push(Ev { id: None, event: None, data: data.txt(), retry: None })
//@end
//@fn SseStream::typed_event ret=r
    ensures evs(r.events@) == evs(self.events@).push(Ev { id: None, event: Some(event_type.txt()), data: data.txt(), retry: None })
//@end
//@fn SseStream::build ret=r
    ensures r@ == enc_all(evs(self.events@))
//@start
    let ghost __ev = evs(self.events@);
//@loop 0
    invariant
        __it0.wf(), evs(__it0.seq()) == __ev,
        __out0@ == enc_all(__ev.subrange(0, __it0.pos())),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost __k = __it0.pos();
    proof {
        assert(__ev.subrange(0, __k).drop_last() =~= __ev.subrange(0, __k - 1));
        assert(evs(__it0.seq())[__k - 1] == __it0.seq()[__k - 1].ev());
    }
//@tail
    assert(__ev.subrange(0, __ev.len() as int) =~= __ev);
//@end
//@extract src/shared/sse_parser.rs impl:SseEvent::{new,with_id,with_event,with_retry,fmt} impl:SseStream::{new,event,data,typed_event,build}
