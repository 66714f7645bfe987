// ---------------------------------------------------------------- specification (EventSource, byte at a time)
pub struct Ev { pub id: Option<Seq<u8>>, pub event: Option<Seq<u8>>, pub data: Seq<u8>, pub retry: Option<u64> }
/// The observable state of the decoder: unfinished line, unfinished event, last id, and what was emitted.
pub struct St {
    pub buf: Seq<u8>,
    pub event: Option<Seq<u8>>, pub data: Seq<u8>, pub retry: Option<u64>,
    pub last: Option<Seq<u8>>,
    pub out: Seq<Ev>,
}
pub open spec fn st_init() -> St {
    St { buf: Seq::empty(), event: None, data: Seq::empty(), retry: None, last: None, out: Seq::empty() }
}
pub open spec fn strip_space(v: Seq<u8>) -> Seq<u8> {
    if v.len() > 0 && v[0] == 32 { v.subrange(1, v.len() as int) } else { v }
}
pub open spec fn strip_cr(v: Seq<u8>) -> Seq<u8> {
    if v.len() > 0 && v[v.len() - 1] == 13 { v.subrange(0, v.len() - 1) } else { v }
}
pub open spec fn field_of(l: Seq<u8>) -> Seq<u8> {
    match index_of(l, 58) { Some(i) => l.subrange(0, i), None => l }
}
pub open spec fn value_of(l: Seq<u8>) -> Seq<u8> {
    match index_of(l, 58) { Some(i) => strip_space(l.subrange(i + 1, l.len() as int)), None => Seq::empty() }
}
/// One field line of an event.
pub open spec fn on_field(s: St, f: Seq<u8>, v: Seq<u8>) -> St {
    if f == S("event") { St { event: Some(v), ..s } }
    else if f == S("data") { St { data: s.data + v + seq![10u8], ..s } }
    else if f == S("id") { if v.contains(0u8) { s } else { St { last: Some(v), ..s } } }
    else if f == S("retry") { match parse_dec(v, 0, u64::MAX as int) { Some(n) => St { retry: Some(n as u64), ..s }, None => s } }
    else { s }
}
pub open spec fn clear(s: St) -> St { St { event: None, data: Seq::empty(), retry: None, ..s } }
pub open spec fn ev_of(s: St) -> Ev {
    Ev { id: s.last, event: s.event, data: s.data.subrange(0, s.data.len() - 1), retry: s.retry }
}
/// One complete line (already without its line ending).
pub open spec fn on_line(s: St, l: Seq<u8>) -> St {
    if l.len() == 0 {
        if s.data.len() == 0 { clear(s) } else { St { out: s.out.push(ev_of(s)), ..clear(s) } }
    } else if l[0] == 58 { s }
    else { on_field(s, field_of(l), value_of(l)) }
}
pub open spec fn on_byte(s: St, b: u8) -> St {
    if b == 10 { on_line(St { buf: Seq::empty(), ..s }, strip_cr(s.buf)) } else { St { buf: s.buf.push(b), ..s } }
}
pub open spec fn run(s: St, d: Seq<u8>) -> St decreases d.len() {
    if d.len() == 0 { s } else { on_byte(run(s, d.drop_last()), d.last()) }
}
/// Feeding a stream in pieces is feeding it whole.
pub proof fn lemma_run_app(s: St, a: Seq<u8>, b: Seq<u8>)
    ensures run(s, a + b) == run(run(s, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_run_app(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn lemma_run_line(s: St, l: Seq<u8>)
    requires !l.contains(10u8)
    ensures run(s, l) == (St { buf: s.buf + l, ..s }),
    decreases l.len()
{
    if l.len() == 0 { assert(s.buf + l =~= s.buf); }
    else {
        assert forall|x: u8| #[trigger] l.drop_last().contains(x) implies l.contains(x) by {
            let i = choose|i: int| 0 <= i < l.len() - 1 && l.drop_last()[i] == x;
            assert(l[i] == x);
        }
        lemma_run_line(s, l.drop_last());
        assert(l[l.len() - 1] == l.last());
        assert(l.last() != 10u8);
        assert((s.buf + l.drop_last()).push(l.last()) =~= s.buf + l);
    }
}
/// A finished line, whatever follows it.
pub proof fn lemma_run_full_line(s: St, l: Seq<u8>, rest: Seq<u8>)
    requires !l.contains(10u8)
    ensures run(s, l + seq![10u8] + rest) == run(on_line(St { buf: Seq::empty(), ..s }, strip_cr(s.buf + l)), rest),
{
    lemma_run_app(s, l + seq![10u8], rest);
    lemma_run_app(s, l, seq![10u8]);
    lemma_run_line(s, l);
    let s1 = run(s, l);
    assert(seq![10u8].drop_last() =~= Seq::<u8>::empty());
    assert(run(s1, seq![10u8].drop_last()) == s1);
    assert(run(s1, seq![10u8]) == on_byte(s1, 10u8));
}
pub proof fn lemma_out_frame(s: St, d: Seq<u8>)
    ensures run(s, d) == (St { out: s.out + run(St { out: Seq::empty(), ..s }, d).out, ..run(St { out: Seq::empty(), ..s }, d) })
    decreases d.len()
{
    let z = St { out: Seq::empty(), ..s };
    if d.len() == 0 { assert(s.out + Seq::<Ev>::empty() =~= s.out); }
    else {
        lemma_out_frame(s, d.drop_last());
        let a = run(s, d.drop_last());
        let b = run(z, d.drop_last());
        if d.last() == 10 && strip_cr(a.buf).len() == 0 && a.data.len() != 0 {
            assert((s.out + b.out).push(ev_of(a)) =~= s.out + b.out.push(ev_of(b)));
        }
    }
}
/// Chunk independence, stated over the decoder contract itself: what two calls emit, and the state they leave,
/// is what one call with the concatenated text would emit and leave.
pub proof fn theorem_chunks(s: St, a: Seq<u8>, b: Seq<u8>)
    requires s.out.len() == 0
    ensures
        ({ let s1 = run(s, a); let s2 = run(St { out: Seq::empty(), ..s1 }, b); let w = run(s, a + b);
           w.out == s1.out + s2.out && w == (St { out: w.out, ..s2 }) })
{
    lemma_run_app(s, a, b);
    lemma_out_frame(run(s, a), b);
}

