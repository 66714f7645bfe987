//@include core.rs
//@include text.rs
//@include bytebuf.rs
//@include json.rs
//@include simd.rs
//@include simd_spec.rs
//@type JsonError = SerdeError
//@call serde_json::from_slice = v_from_slice
//@call serde_json::to_vec = v_to_vec
//@call serde_json::to_string_pretty = v_to_string_pretty
//@call crate::simd::json::validate_utf8_simd = validate_utf8_simd
//@call crate::simd::json::find_whitespace_simd = find_whitespace_simd
//@call crate::simd::json::find_escapes_simd = find_escapes_simd
//@call serde_json::Error::io = v_json_io
//@call std::io::Error::new = v_io_error
//@call serde::ser::Error::custom = v_json_custom
//@call Error::custom = v_json_custom
//@expr std::io::ErrorKind::InvalidData => ()
//@method binary_search = v_binary_search
//@broadcast vshim_simd::axiom_sl_eq
#[verifier::external_body]
pub fn v_cpu_feature() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn v_json_io(e: ()) -> (r: SerdeError) { unimplemented!() }
#[verifier::external_body]
pub fn v_json_custom<E>(e: E) -> (r: SerdeError) { unimplemented!() }
pub fn v_io_error<A>(k: (), m: A) {}
// proved in units/p34.rs
#[verifier::external_body]
pub fn validate_utf8_simd(input: &[u8]) -> (r: bool) ensures r == well_formed(input@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn find_whitespace_simd(input: &[u8]) -> (r: Vec<usize>) ensures r@ == found(input@, 0, input@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn find_escapes_simd(input: &[u8]) -> (r: Vec<usize>) ensures r@ == found(input@, 1, input@.len() as int) { unimplemented!() }
// ---- serde_json ----
/// the bytes serde_json writes for a value, and the value it reads from bytes
pub uninterp spec fn json_bytes(v: Value) -> Seq<u8>;
pub uninterp spec fn json_read<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body]
pub fn v_to_vec<T: Serialize>(x: &T) -> (r: core::result::Result<Vec<u8>, SerdeError>)
    ensures r is Ok ==> r->Ok_0@ == json_bytes(x.ser()) && well_formed(r->Ok_0@, 0) && r->Ok_0@.len() <= isize::MAX, r is Ok == writable(x.ser())
{ unimplemented!() }
pub uninterp spec fn writable(v: Value) -> bool;
#[verifier::external_body]
pub fn v_from_slice<T>(b: &[u8]) -> (r: core::result::Result<T, SerdeError>)
    ensures match r { Ok(v) => json_read::<T>(b@) == Some(v), Err(_) => json_read::<T>(b@) is None }
{ unimplemented!() }
/// serde_json's own layout differs from the compact text in white space outside strings only
#[verifier::external_body]
pub fn v_to_string_pretty(x: &Value) -> (r: core::result::Result<String, SerdeError>)
    ensures r is Ok == writable(x.ser()), r is Ok ==> strip(r->Ok_0@).out == strip(json_bytes(x.ser())).out
{ unimplemented!() }
impl String {
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: core::result::Result<String, SerdeError>)
        ensures r is Ok == well_formed(v@, 0), r is Ok ==> r->Ok_0@ == v@
    { unimplemented!() }
}
pub trait VSorted { spec fn sv(&self) -> Seq<usize>;
    fn v_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>)
        requires forall|i: int, j: int| 0 <= i < j < self.sv().len() ==> #[trigger] self.sv()[i] < #[trigger] self.sv()[j]
        ensures r is Ok == self.sv().contains(*x); }
impl VSorted for Vec<usize> { open spec fn sv(&self) -> Seq<usize> { self@ }
    #[verifier::external_body] fn v_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>) { unimplemented!() } }
// ---- reading a JSON text byte by byte: in a string or not, after a backslash or not ----
pub struct Scan { pub out: Seq<u8>, pub instr: bool, pub esc: bool }
/// keep = true: white space outside strings becomes one space; false: it is dropped
pub open spec fn step(p: Scan, c: u8, keep: bool) -> Scan {
    let o = p.out.push(c);
    if p.esc { Scan { out: o, esc: false, instr: p.instr } }
    else if c == 0x5c && p.instr { Scan { out: o, esc: true, instr: true } }
    else if c == 0x22 { Scan { out: o, esc: false, instr: !p.instr } }
    else if !p.instr && is_ws(c) { if keep && !(p.out.len() > 0 && p.out.last() == 0x20) { Scan { out: p.out.push(0x20), ..p } } else { p } }
    else { Scan { out: o, ..p } }
}
pub open spec fn scan(s: Seq<u8>, keep: bool) -> Scan decreases s.len() {
    if s.len() == 0 { Scan { out: Seq::empty(), instr: false, esc: false } } else { step(scan(s.drop_last(), keep), s.last(), keep) }
}
pub open spec fn squeeze(s: Seq<u8>) -> Scan { scan(s, true) }
pub open spec fn strip(s: Seq<u8>) -> Scan { scan(s, false) }
/// JSON (RFC 8259): any amount of white space outside strings means as much as one space; a text that is not UTF-8 is no JSON
#[verifier::external_body]
pub proof fn axiom_json<T>(s: Seq<u8>)
    ensures json_read::<T>(squeeze(s).out) == json_read::<T>(s), !well_formed(s, 0) ==> json_read::<T>(s) is None
{}
pub proof fn lemma_push(s: Seq<u8>, c: u8, keep: bool)
    ensures scan(s.push(c), keep) == step(scan(s, keep), c, keep)
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_next(s: Seq<u8>, i: int, keep: bool)
    requires 0 <= i < s.len()
    ensures scan(s.subrange(0, i + 1), keep) == step(scan(s.subrange(0, i), keep), s[i], keep)
{ assert(s.subrange(0, i + 1) =~= s.subrange(0, i).push(s[i])); lemma_push(s.subrange(0, i), s[i], keep); }
pub proof fn lemma_sorted(s: Seq<u8>, k: int, n: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX
    ensures
        forall|i: int, j: int| 0 <= i < j < found(s, k, n).len() ==> #[trigger] found(s, k, n)[i] < #[trigger] found(s, k, n)[j],
        forall|x: usize| #[trigger] found(s, k, n).contains(x) == (x < n && hit(k, s[x as int])),
        found(s, k, n).len() <= n,
    decreases n
{
    if n > 0 {
        lemma_sorted(s, k, n - 1);
        let (f, g) = (found(s, k, n - 1), found(s, k, n));
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] < n - 1 by { assert(f.contains(f[i])); }
        if hit(k, s[n - 1]) {
            assert(g == f.push((n - 1) as usize));
            assert forall|x: usize| #[trigger] g.contains(x) == (x < n && hit(k, s[x as int])) by {
                if g.contains(x) { let i = choose|i: int| 0 <= i < g.len() && g[i] == x; if i < f.len() { assert(f[i] == x); assert(f.contains(x)); } }
                if x < n && hit(k, s[x as int]) { if x < n - 1 { assert(f.contains(x)); let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(g[i] == x); } else { assert(g[f.len() as int] == x); } }
            }
        }
    }
}
//@fn parse_json_fast ret=r
    requires input@.len() <= isize::MAX
    ensures match r { Ok(v) => json_read::<T>(input@) == Some(v), Err(_) => json_read::<T>(input@) is None }
//@start
    proof { axiom_json::<T>(input@); lemma_sorted(input@, 0, input@.len() as int); }
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == input@, __cnt1 == __it0.pos(),
        ws_positions@ == found(input@, 0, input@.len() as int), input@.len() <= isize::MAX,
        ({ let z = squeeze(input@.subrange(0, __it0.pos())); cleaned@ == z.out && in_string == z.instr && escape_next == z.esc }),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { lemma_next(input@, __it0.pos() - 1, true); lemma_sorted(input@, 0, input@.len() as int); }
//@afterloop 0
    proof { assert(input@.subrange(0, input@.len() as int) =~= input@); }
//@end
//@extract src/utils/json_simd.rs fn:parse_json_fast
//@fn serialize_json_fast ret=r
    ensures match r { Ok(b) => writable(value.ser()) && b@ == json_bytes(value.ser()), Err(_) => !writable(value.ser()) }
//@end
//@extract src/utils/json_simd.rs fn:serialize_json_fast
//@fn parse_json_batch ret=r
    requires forall|i: int| 0 <= i < inputs@.len() ==> (#[trigger] inputs@[i])@.len() <= isize::MAX
    ensures r@.len() == inputs@.len(), forall|i: int| 0 <= i < r@.len() ==> (match #[trigger] r@[i] { Ok(v) => json_read::<T>(inputs@[i]@) == Some(v), Err(_) => json_read::<T>(inputs@[i]@) is None })
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == inputs@, forall|i: int| 0 <= i < inputs@.len() ==> (#[trigger] inputs@[i])@.len() <= isize::MAX,
        __out0@.len() == __it0.pos(), forall|i: int| 0 <= i < __out0@.len() ==> (match #[trigger] __out0@[i] { Ok(v) => json_read::<T>(inputs@[i]@) == Some(v), Err(_) => json_read::<T>(inputs@[i]@) is None }),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@end
//@extract src/utils/json_simd.rs fn:parse_json_batch
// ---- pretty printing ----
pub proof fn lemma_esc(s: Seq<u8>, keep: bool)
    ensures scan(s, keep).esc ==> scan(s, keep).instr
    decreases s.len()
{ if s.len() > 0 { lemma_esc(s.drop_last(), keep); } }
/// white space added outside strings is stripped again
pub proof fn lemma_blank(a: Seq<u8>, w: Seq<u8>)
    requires !strip(a).instr, forall|i: int| 0 <= i < w.len() ==> is_ws(#[trigger] w[i])
    ensures strip(a + w) == strip(a)
    decreases w.len()
{
    if w.len() == 0 { assert(a + w =~= a); } else {
        lemma_blank(a, w.drop_last());
        lemma_esc(a, false);
        assert(a + w =~= (a + w.drop_last()).push(w.last()));
        lemma_push(a + w.drop_last(), w.last(), false);
    }
}
pub proof fn lemma_suffix(s: Seq<u8>, t: Seq<u8>, i: int, d: int)
    requires 0 <= i <= s.len(), 0 <= i + d, s.len() + d == t.len(), forall|j: int| i <= j < s.len() ==> #[trigger] s[j] == t[j + d]
    ensures well_formed(t, i + d) == well_formed(s, i)
    decreases s.len() - i
{
    if i < s.len() {
        assert(s[i] == t[i + d]);
        assert(i + 1 < s.len() ==> s[i + 1] == t[i + 1 + d]); assert(i + 2 < s.len() ==> s[i + 2] == t[i + 2 + d]); assert(i + 3 < s.len() ==> s[i + 3] == t[i + 3 + d]);
        assert(char_at(s, i) == char_at(t, i + d));
        if char_at(s, i) is Some { let n = char_at(s, i)->0; lemma_suffix(s, t, i + n, d); }
    }
}
/// ASCII text put in front of an ASCII byte (or at the end) leaves UTF-8 well formed
pub proof fn lemma_insert(s: Seq<u8>, k: int, w: Seq<u8>, i: int)
    requires 0 <= i <= k <= s.len(), well_formed(s, i), k < s.len() ==> s[k] < 0x80, forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]) < 0x80
    ensures well_formed(s.subrange(0, k) + w + s.subrange(k, s.len() as int), i)
    decreases k - i
{
    let t = s.subrange(0, k) + w + s.subrange(k, s.len() as int);
    if i == k {
        lemma_ascii(t, k, k + w.len());
        lemma_suffix(s, t, k, w.len() as int);
    } else {
        let n = char_at(s, i)->0;
        assert(char_at(s, i) is Some);
        assert(i + n <= k);
        assert(char_at(t, i) == Some(n)) by {
            assert(t[i] == s[i]);
            assert(i + 1 < k ==> t[i + 1] == s[i + 1]); assert(i + 2 < k ==> t[i + 2] == s[i + 2]); assert(i + 3 < k ==> t[i + 3] == s[i + 3]);
        }
        lemma_insert(s, k, w, i + n);
    }
}
/// the step of the printer: w1, the byte, w2 (both blank and only outside strings), or nothing when the byte is blank itself
pub proof fn lemma_emit(out: Seq<u8>, c: Seq<u8>, i: int, w1: Seq<u8>, w2: Seq<u8>)
    requires
        0 <= i < c.len(), strip(out) == strip(c.subrange(0, i)), well_formed(out + c.subrange(i, c.len() as int), 0),
        w1.len() + w2.len() > 0 ==> c[i] < 0x80 && !strip(c.subrange(0, i)).instr && c[i] != 0x22 && c[i] != 0x5c && !is_ws(c[i]),
        forall|j: int| 0 <= j < w1.len() ==> is_ws(#[trigger] w1[j]), forall|j: int| 0 <= j < w2.len() ==> is_ws(#[trigger] w2[j]),
    ensures
        strip((out + w1).push(c[i]) + w2) == strip(c.subrange(0, i + 1)),
        well_formed((out + w1).push(c[i]) + w2 + c.subrange(i + 1, c.len() as int), 0),
        is_ws(c[i]) && !strip(c.subrange(0, i)).instr ==> strip(out) == strip(c.subrange(0, i + 1)) && well_formed(out + c.subrange(i + 1, c.len() as int), 0),
{
    let p = c.subrange(0, i); let n = c.len() as int;
    lemma_esc(p, false); lemma_next(c, i, false);
    let rest = c.subrange(i, n); let rest1 = c.subrange(i + 1, n);
    let s = out + rest;
    assert(rest =~= seq![c[i]] + rest1);
    let a = (out + w1).push(c[i]);
    let o = out.len() as int;
    if w1.len() + w2.len() > 0 {
        lemma_blank(out, w1);
        lemma_push(out + w1, c[i], false);
        lemma_blank(a, w2);
        lemma_insert(s, o, w1, 0);
        let t = s.subrange(0, o) + w1 + s.subrange(o, s.len() as int);
        assert(t =~= a + rest1);
        lemma_after(t, o + w1.len(), w2);
        assert(t.subrange(0, o + w1.len() + 1) + w2 + t.subrange(o + w1.len() + 1, t.len() as int) =~= a + w2 + rest1);
    } else {
        assert(a + w2 =~= out.push(c[i]));
        lemma_push(out, c[i], false);
        assert(a + w2 + rest1 =~= s);
    }
    if is_ws(c[i]) && !strip(p).instr {
        lemma_remove(s, o, 0);
        assert(s.subrange(0, o) + s.subrange(o + 1, s.len() as int) =~= out + rest1);
    }
}
/// after an ASCII byte likewise
pub proof fn lemma_after(s: Seq<u8>, k: int, w: Seq<u8>)
    requires 0 <= k < s.len(), well_formed(s, 0), s[k] < 0x80, forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]) < 0x80
    ensures well_formed(s.subrange(0, k + 1) + w + s.subrange(k + 1, s.len() as int), 0)
{
    lemma_insert(s, k, seq![s[k]] + w, 0);
    let t = s.subrange(0, k) + (seq![s[k]] + w) + s.subrange(k, s.len() as int);
    let u = s.subrange(0, k + 1) + w + s.subrange(k + 1, s.len() as int);
    lemma_remove(t, k + 1 + w.len(), 0);
    assert(t.subrange(0, k + 1 + w.len()) + t.subrange(k + 1 + w.len() + 1, t.len() as int) =~= u);
}
/// an ASCII byte can be taken out
pub proof fn lemma_remove(s: Seq<u8>, k: int, i: int)
    requires 0 <= i <= k < s.len(), well_formed(s, i), s[k] < 0x80
    ensures well_formed(s.subrange(0, k) + s.subrange(k + 1, s.len() as int), i)
    decreases k - i
{
    let t = s.subrange(0, k) + s.subrange(k + 1, s.len() as int);
    if i == k {
        assert(well_formed(s, k + 1));
        lemma_suffix(s, t, k + 1, -1);
    } else {
        let n = char_at(s, i)->0;
        assert(char_at(s, i) is Some);
        assert(i + n <= k);
        assert(char_at(t, i) == Some(n)) by {
            assert(t[i] == s[i]);
            assert(i + 1 < k ==> t[i + 1] == s[i + 1]); assert(i + 2 < k ==> t[i + 2] == s[i + 2]); assert(i + 3 < k ==> t[i + 3] == s[i + 3]);
        }
        lemma_remove(s, k, i + n);
    }
}
//@fn pretty_print_fast ret=r
    ensures match r { Ok(t) => writable(*value) && strip(t@).out == strip(json_bytes(*value)).out, Err(_) => !writable(*value) }
//@beforeloop 0
    proof { assert(Seq::<u8>::empty() + compact@.subrange(0, compact@.len() as int) =~= compact@); assert(compact@.subrange(0, 0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == compact@, __cnt1 == __it0.pos(),
        escapes@ == found(compact@, 1, compact@.len() as int), compact@.len() <= isize::MAX, indent <= 2 * __it0.pos(),
        ({ let z = strip(compact@.subrange(0, __it0.pos())); strip(result@) == z && in_string == z.instr && escape_next == z.esc }),
        well_formed(result@ + compact@.subrange(__it0.pos(), compact@.len() as int), 0),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p = __it0.pos() - 1; let ghost o0 = result@;
    proof { lemma_next(compact@, p, false); lemma_esc(compact@.subrange(0, p), false); lemma_sorted(compact@, 1, compact@.len() as int); lemma_emit(o0, compact@, p, Seq::empty(), Seq::empty()); assert((o0 + Seq::<u8>::empty()).push(compact@[p]) + Seq::<u8>::empty() =~= o0.push(compact@[p])); }
//@loopend 0
    proof {
        let (n, m) = (o0.len() as int, result@.len() as int);
        if m > n + 1 {
            let (w1, w2) = if result@[n] == compact@[p] { (Seq::empty(), result@.subrange(n + 1, m)) } else { (result@.subrange(n, m - 1), Seq::empty()) };
            assert(result@ =~= (o0 + w1).push(compact@[p]) + w2);
            lemma_emit(o0, compact@, p, w1, w2);
        }
    }
//@afterloop 0
    proof { assert(compact@.subrange(0, compact@.len() as int) =~= compact@); assert(result@ + compact@.subrange(compact@.len() as int, compact@.len() as int) =~= result@); }
//@end
//@extract src/utils/json_simd.rs fn:pretty_print_fast
