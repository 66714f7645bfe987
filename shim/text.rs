pub mod vshim_text {
use vstd::prelude::*;
use super::*;
// ---- shim/text.rs: String/&str as UTF-8 byte sequences (TRUSTED contracts of std's string API) ----
/// One type stands for both `String` and `str`; its value is the sequence of its bytes.
#[verifier::external_body]
pub struct String { x: std::vec::Vec<u8> }
pub type str = String;
impl View for String {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
/// Strings with the same bytes are the same value.
impl PartialEq for String {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl Eq for String { }

pub open spec fn cont(b: u8) -> bool { 0x80 <= b && b < 0xC0 }
/// is_char_boundary
pub open spec fn boundary(s: Seq<u8>, i: int) -> bool {
    0 <= i <= s.len() && (i == 0 || i == s.len() || !cont(s[i]))
}
pub open spec fn matches_at(s: Seq<u8>, p: Seq<u8>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
pub open spec fn is_ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
/// the text without any byte c
pub open spec fn without(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == c { without(s.drop_last(), c) } else { without(s.drop_last(), c).push(s.last()) }
}
pub open spec fn texts(v: Seq<&String>) -> Seq<Seq<u8>> { v.map_values(|e: &String| e@) }
/// the pieces between the separators (always at least one)
pub open spec fn split_spec(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() {
    match index_of(s, c) {
        Some(i) if 0 <= i < s.len() => seq![s.subrange(0, i)] + split_spec(s.subrange(i + 1, s.len() as int), c),
        _ => seq![s],
    }
}
/// str::lines: the pieces between line feeds without a trailing empty piece; a CR before a LF belongs to the line ending
/// the words between white space
pub uninterp spec fn words(s: Seq<u8>) -> Seq<Seq<u8>>;
pub uninterp spec fn lines_spec(s: Seq<u8>) -> Seq<Seq<u8>>;
pub open spec fn ov(o: Option<String>) -> Option<Seq<u8>> {
    match o { Some(s) => Some(s@), None => None }
}
/// UTF-8 encoding of one char; only its ASCII case is specified.
pub uninterp spec fn utf8(c: char) -> Seq<u8>;
impl VPat for char { open spec fn pat(&self) -> Seq<u8> { utf8(*self) } }
impl VPat for &String { open spec fn pat(&self) -> Seq<u8> { self@ } }
impl VPat for &&String { open spec fn pat(&self) -> Seq<u8> { self@ } }

/// position of the first byte c
pub open spec fn index_of(s: Seq<u8>, c: u8) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == c { Some(0) }
    else { match index_of(s.subrange(1, s.len() as int), c) { Some(i) => Some(i + 1), None => None } }
}
pub open spec fn split2(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> {
    match index_of(s, c) {
        Some(i) => seq![s.subrange(0, i), s.subrange(i + 1, s.len() as int)],
        None => seq![s],
    }
}
pub proof fn lemma_index_of(s: Seq<u8>, c: u8, i: int)
    requires 0 <= i < s.len(), s[i] == c, forall|j: int| 0 <= j < i ==> s[j] != c
    ensures index_of(s, c) == Some(i)
    decreases i
{
    if i > 0 { lemma_index_of(s.subrange(1, s.len() as int), c, i - 1); }
}
pub open spec fn is_prefix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<u8>, s: Seq<u8>) -> bool {
    p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p
}
// broadcast lemmas live in a module of their own (Verus forbids self-reference)
mod vtext {
use super::*;
use vstd::prelude::*;
/// no allocation is larger than isize::MAX bytes
#[verifier::external_body]
pub broadcast proof fn axiom_string_len(a: String)
    ensures #[trigger] a@.len() <= isize::MAX
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{ }
impl vstd::std_specs::cmp::PartialEqSpecImpl for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<&String> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&String) -> bool { self@ == o@ }
}
impl PartialEq<&String> for String { #[verifier::external_body] fn eq(&self, o: &&String) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<String> for &String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ }
}
impl PartialEq<String> for &String { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_ascii(c: char)
    requires (c as u32) < 128
    ensures #[trigger] utf8(c) == seq![c as u8]
{ }
pub trait VPat {
    spec fn pat(&self) -> Seq<u8>;
}
pub broadcast proof fn lemma_matches_1(s: Seq<u8>, c: u8, i: int)
    ensures #[trigger] matches_at(s, seq![c], i) <==> (0 <= i < s.len() && s[i] == c)
{
    if 0 <= i < s.len() && s[i] == c { assert(s.subrange(i, i + 1) =~= seq![c]); }
    if matches_at(s, seq![c], i) { assert(s.subrange(i, i + 1)[0] == seq![c][0]); }
}
pub broadcast proof fn lemma_prefix_1(s: Seq<u8>, c: u8)
    ensures #[trigger] is_prefix(seq![c], s) <==> (s.len() > 0 && s[0] == c)
{
    if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); }
    if is_prefix(seq![c], s) { assert(s.subrange(0, 1)[0] == seq![c][0]); }
}
pub broadcast proof fn lemma_suffix_1(s: Seq<u8>, c: u8)
    ensures #[trigger] is_suffix(seq![c], s) <==> (s.len() > 0 && s[s.len() - 1] == c)
{
    if s.len() > 0 && s[s.len() - 1] == c { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![c]); }
    if is_suffix(seq![c], s) { assert(s.subrange(s.len() - 1, s.len() as int)[0] == seq![c][0]); }
}
pub broadcast proof fn lemma_index_of_props(s: Seq<u8>, c: u8)
    ensures match #[trigger] index_of(s, c) {
        Some(i) => 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c,
        None => !s.contains(c) && forall|j: int| 0 <= j < s.len() ==> s[j] != c,
    }
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.subrange(1, s.len() as int);
        lemma_index_of_props(t, c);
        match index_of(t, c) {
            Some(i) => { assert forall|j: int| 0 <= j < i + 1 implies s[j] != c by { if j > 0 { assert(t[j - 1] == s[j]); } } },
            None => { assert forall|j: int| 0 <= j < s.len() implies s[j] != c by { if j > 0 { assert(t[j - 1] == s[j]); } } },
        }
    }
}
/// not in the default group: `broadcast use lemma_assoc` where concatenations have to be regrouped
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_app_empty(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a, 
{ assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn lemma_empty_app(a: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + a) == a, 
{ assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast group group_cat { lemma_assoc, lemma_app_empty, lemma_empty_app }
pub broadcast group group_text { axiom_string_len, axiom_string_ext, axiom_utf8_ascii, lemma_matches_1, lemma_prefix_1, lemma_suffix_1, lemma_index_of_props }
}
pub use vtext::*;

/// `impl Into<String>` arguments
pub trait VIntoString: Sized {
    spec fn txt(&self) -> Seq<u8>;
    fn v_into(self) -> (r: String) ensures r@ == self.txt();
}
impl VIntoString for String {
    open spec fn txt(&self) -> Seq<u8> { self@ }
    fn v_into(self) -> (r: String) { self }
}
impl VIntoString for &String {
    open spec fn txt(&self) -> Seq<u8> { self@ }
    fn v_into(self) -> (r: String) { self.to_string() }
}
/// decimal digits of an integer, as `Display` prints them
pub open spec fn lower1(b: u8) -> u8 { if 65 <= b && b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn lower(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| lower1(b)) }
pub uninterp spec fn dec(n: int) -> Seq<u8>;
pub trait VDisp { spec fn disp(&self) -> Seq<u8>; }
impl VDisp for String { open spec fn disp(&self) -> Seq<u8> { self@ } }
impl VDisp for u64 { open spec fn disp(&self) -> Seq<u8> { dec(*self as int) } }
impl VDisp for u32 { open spec fn disp(&self) -> Seq<u8> { dec(*self as int) } }
impl VDisp for i32 { open spec fn disp(&self) -> Seq<u8> { dec(*self as int) } }
impl VDisp for i64 { open spec fn disp(&self) -> Seq<u8> { dec(*self as int) } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<u8> { dec(*self as int) } }
impl VDisp for char { open spec fn disp(&self) -> Seq<u8> { utf8(*self) } }
impl<T: VDisp> VDisp for &T { open spec fn disp(&self) -> Seq<u8> { (*self).disp() } }
pub uninterp spec fn dbg_text<T>(x: T) -> Seq<u8>;

/// str::parse::<u64> etc.: Some(value) exactly on the texts the std grammar accepts (left abstract).
pub uninterp spec fn parse_dec(s: Seq<u8>, lo: int, hi: int) -> Option<int>;
/// what `Display` prints is read back as the same number, and is made of digits
#[verifier::external_body]
pub proof fn axiom_dec(n: int, hi: int)
    requires 0 <= n <= hi
    ensures parse_dec(dec(n), 0, hi) == Some(n), dec(n).len() > 0,
        forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57
{ }

/// the same for signed 64-bit numbers (a leading minus sign is printed and read)
#[verifier::external_body]
pub proof fn axiom_dec_i64(n: i64)
    ensures parse_dec(dec(n as int), i64::MIN as int, i64::MAX as int) == Some(n as int)
{ }

#[verifier::external_body]
pub struct ParseError { x: u8 }
impl core::fmt::Debug for ParseError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }

impl String {
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    pub fn as_str(&self) -> (r: &String) ensures r@ == self@ { self }
    pub fn as_ref(&self) -> (r: &String) ensures r@ == self@ { self }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &String) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@ + utf8(c) { unimplemented!() }
    /// String::pop
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<char>)
        ensures
            r is None <==> old(self)@.len() == 0,
            match r { Some(c) => old(self)@ == final(self)@ + utf8(c), None => final(self)@ == old(self)@ },
            old(self)@.len() > 0 && old(self)@.last() < 128 ==> final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures
            match r {
                Some(i) => matches_at(self@, p.pat(), i as int) && (forall|j: int| 0 <= j < i ==> !#[trigger] matches_at(self@, p.pat(), j))
                    && boundary(self@, i as int) && boundary(self@, i + p.pat().len()),
                None => forall|j: int| !#[trigger] matches_at(self@, p.pat(), j),
            },
            p.pat().len() == 1 ==> (match r { Some(i) => index_of(self@, p.pat()[0]) == Some(i as int), None => index_of(self@, p.pat()[0]) is None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<P: VPat>(&self, p: P) -> (r: bool)
        ensures
            r == exists|j: int| #[trigger] matches_at(self@, p.pat(), j),
            p.pat().len() == 1 ==> r == self@.contains(p.pat()[0]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&String>)
        ensures match r {
            Some(t) => is_prefix(p.pat(), self@) && t@ == self@.subrange(p.pat().len() as int, self@.len() as int),
            None => !is_prefix(p.pat(), self@),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&String>)
        ensures match r {
            Some(t) => is_suffix(p.pat(), self@) && t@ == self@.subrange(0, self@.len() - p.pat().len()),
            None => !is_suffix(p.pat(), self@),
        }
    { unimplemented!() }
    /// `&s[a..b]` (panics off a char boundary: excluded by the precondition)
    #[verifier::external_body]
    pub fn v_slice(&self, a: usize, b: usize) -> (r: &String)
        requires a <= b <= self@.len(), boundary(self@, a as int), boundary(self@, b as int)
        ensures r@ == self@.subrange(a as int, b as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_slice_to(&self, b: usize) -> (r: &String)
        requires b <= self@.len(), boundary(self@, b as int)
        ensures r@ == self@.subrange(0, b as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_slice_from(&self, a: usize) -> (r: &String)
        requires a <= self@.len(), boundary(self@, a as int)
        ensures r@ == self@.subrange(a as int, self@.len() as int)
    { unimplemented!() }
    /// `s.get(a..b)` and the like: nothing off a char boundary or past the end
    #[verifier::external_body]
    pub fn v_get(&self, a: usize, b: usize) -> (r: Option<&String>)
        ensures match r { Some(t) => a <= b <= self@.len() && boundary(self@, a as int) && boundary(self@, b as int) && t@ == self@.subrange(a as int, b as int),
            None => !(a <= b <= self@.len() && boundary(self@, a as int) && boundary(self@, b as int)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get_to(&self, b: usize) -> (r: Option<&String>)
        ensures match r { Some(t) => b <= self@.len() && boundary(self@, b as int) && t@ == self@.subrange(0, b as int), None => !(b <= self@.len() && boundary(self@, b as int)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get_from(&self, a: usize) -> (r: Option<&String>)
        ensures match r { Some(t) => a <= self@.len() && boundary(self@, a as int) && t@ == self@.subrange(a as int, self@.len() as int), None => !(a <= self@.len() && boundary(self@, a as int)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_char_boundary(&self, a: usize) -> (r: bool) ensures r == (a <= self@.len() && boundary(self@, a as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ascii(&self) -> (r: bool) ensures r == is_ascii(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain_to_incl(&mut self, b: usize)
        requires b < old(self)@.len(), boundary(old(self)@, b + 1)
        ensures final(self)@ == old(self)@.subrange(b + 1, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain_to(&mut self, b: usize)
        requires b <= old(self)@.len(), boundary(old(self)@, b as int)
        ensures final(self)@ == old(self)@.subrange(b as int, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parse_u64(&self) -> (r: core::result::Result<u64, ParseError>)
        ensures match r { Ok(v) => parse_dec(self@, 0, u64::MAX as int) == Some(v as int), Err(_) => parse_dec(self@, 0, u64::MAX as int) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parse_i64(&self) -> (r: core::result::Result<i64, ParseError>)
        ensures match r { Ok(v) => parse_dec(self@, i64::MIN as int, i64::MAX as int) == Some(v as int), Err(_) => parse_dec(self@, i64::MIN as int, i64::MAX as int) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parse_usize(&self) -> (r: core::result::Result<usize, ParseError>)
        ensures match r { Ok(v) => parse_dec(self@, 0, usize::MAX as int) == Some(v as int), Err(_) => parse_dec(self@, 0, usize::MAX as int) is None }
    { unimplemented!() }
    /// str::trim (Unicode whitespace; left abstract)
    pub uninterp spec fn trim_spec(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &String) ensures r@ == String::trim_spec(self@) { unimplemented!() }
    // formatting
    #[verifier::external_body]
    pub fn v_push_lit(&mut self, s: &String) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push_disp<T: VDisp>(&mut self, s: &T) ensures final(self)@ == old(self)@ + s.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push_any<T: VDisp>(&mut self, s: &T) ensures final(self)@ == old(self)@ + s.disp() { unimplemented!() }
    /// str::split by a one-byte pattern
    pub uninterp spec fn trim_end_matches_spec(s: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn trim_end_matches<P: VPat>(&self, p: P) -> (r: &String) ensures r@ == String::trim_end_matches_spec(self@, p.pat()) { unimplemented!() }
    pub uninterp spec fn trim_start_matches_spec(s: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn trim_start_matches<P: VPat>(&self, p: P) -> (r: &String) ensures r@ == String::trim_start_matches_spec(self@, p.pat()) { unimplemented!() }
    pub uninterp spec fn trim_matches_spec(s: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn trim_matches<P: VPat>(&self, p: P) -> (r: &String) ensures r@ == String::trim_matches_spec(self@, p.pat()) { unimplemented!() }
    pub uninterp spec fn trim_end_spec(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn trim_end(&self) -> (r: &String) ensures r@ == String::trim_end_spec(self@) { unimplemented!() }
    pub uninterp spec fn trim_start_spec(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn trim_start(&self) -> (r: &String) ensures r@ == String::trim_start_spec(self@) { unimplemented!() }
    pub uninterp spec fn to_lowercase_spec(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: String) ensures r@ == String::to_lowercase_spec(self@) { unimplemented!() }
    pub uninterp spec fn to_uppercase_spec(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_uppercase(&self) -> (r: String) ensures r@ == String::to_uppercase_spec(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_ignore_ascii_case(&self, o: &String) -> (r: bool) ensures r == (lower(self@) == lower(o@)) { unimplemented!() }
    pub uninterp spec fn replace_spec(s: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn replace<P: VPat>(&self, p: P, q: &String) -> (r: String) ensures r@ == String::replace_spec(self@, p.pat(), q@),
            p.pat().len() == 1 && p.pat()[0] < 128 && q@.len() == 0 ==> r@ == without(self@, p.pat()[0]) { unimplemented!() }
    pub uninterp spec fn rfind_spec(s: Seq<u8>, p: Seq<u8>) -> Option<usize>;
    #[verifier::external_body]
    pub fn rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) ensures r == String::rfind_spec(self@, p.pat()), r is Some ==> r->0 <= self@.len() && boundary(self@, r->0 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) requires n <= old(self)@.len() ==> boundary(old(self)@, n as int)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn split<P: VPat>(&self, p: P) -> (r: VInto<&String>)
        ensures r.wf(), r.pos() == 0,
            p.pat().len() == 1 ==> texts(r.seq()) == split_spec(self@, p.pat()[0]),
    { unimplemented!() }
    /// str::splitn(2, one-byte pattern): before and after the first occurrence
    #[verifier::external_body]
    pub fn splitn<P: VPat>(&self, n: usize, p: P) -> (r: VInto<&String>)
        ensures r.wf(), r.pos() == 0,
            n == 2 && p.pat().len() == 1 ==> texts(r.seq()) == split2(self@, p.pat()[0]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_once<P: VPat>(&self, p: P) -> (r: Option<(&String, &String)>)
        ensures
            p.pat().len() == 1 ==> (match r {
                Some((a, b)) => split2(self@, p.pat()[0]) == seq![a@, b@],
                None => split2(self@, p.pat()[0]) == seq![self@] }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn repeat(&self, n: usize) -> (r: String) ensures self@.len() == 1 ==> r@ == Seq::new(n as nat, |i: int| self@[0]) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split_whitespace(&self) -> (r: VInto<&String>)
        ensures r.wf(), r.pos() == 0, texts(r.seq()) == words(self@),
    { unimplemented!() }
    /// str::lines
    #[verifier::external_body]
    pub fn lines(&self) -> (r: VInto<&String>)
        ensures r.wf(), r.pos() == 0, texts(r.seq()) == lines_spec(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push_dbg<T>(&mut self, s: &T) ensures final(self)@ == old(self)@ + dbg_text(*s) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_str_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VOptStr { fn v_as_deref(&self) -> Option<&String>; }
impl VOptStr for Option<String> {
    #[verifier::external_body]
    fn v_as_deref(&self) -> (r: Option<&String>)
        ensures match *self { Some(s) => r == Some(&s), None => r is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_opt_str_eq(a: Option<&String>, b: &String) -> (r: bool) ensures r == (a is Some && a->0@ == b@) { unimplemented!() }
pub open spec fn join_spec(v: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join_spec(v.drop_last(), sep) + sep + v.last() }
}
pub trait VJoin { spec fn jtexts(&self) -> Seq<Seq<u8>>; fn join(&self, sep: &String) -> (r: String) ensures r@ == join_spec(self.jtexts(), sep@); }
impl VJoin for Vec<String> {
    open spec fn jtexts(&self) -> Seq<Seq<u8>> { self@.map_values(|s: String| s@) }
    #[verifier::external_body]
    fn join(&self, sep: &String) -> (r: String) { unimplemented!() }
}
impl VJoin for Vec<&String> {
    open spec fn jtexts(&self) -> Seq<Seq<u8>> { self@.map_values(|s: &String| s@) }
    #[verifier::external_body]
    fn join(&self, sep: &String) -> (r: String) { unimplemented!() }
}
pub fn v_fmt_ok() -> (r: core::result::Result<(), ParseError>) ensures r is Ok { Ok(()) }

}
pub use vshim_text::*;
//@broadcast vshim_text::group_text
