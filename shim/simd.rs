pub mod vshim_simd {
use vstd::prelude::*;
use super::*;
// ---- shim/simd.rs: slices of bytes and the AVX2 intrinsics (TRUSTED contracts: Intel's definitions, lane by lane) ----
pub trait VBytes { 
    spec fn bv(&self) -> Seq<u8>;
    fn v_slice_from(&self, a: usize) -> (r: &[u8]) requires a <= self.bv().len() ensures r@ == self.bv().subrange(a as int, self.bv().len() as int);
    fn v_slice_to(&self, b: usize) -> (r: &[u8]) requires b <= self.bv().len() ensures r@ == self.bv().subrange(0, b as int);
    fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.bv().len() ensures r@ == self.bv().subrange(a as int, b as int);
    /// reads 32 bytes: all of them have to lie inside the slice
    fn v_load256(&self, a: usize) -> (r: __m256i) requires a + 32 <= self.bv().len() ensures r.b() == self.bv().subrange(a as int, a + 32);
}
impl VBytes for [u8] {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_load256(&self, a: usize) -> (r: __m256i) { unimplemented!() }
}
impl VBytes for Vec<u8> {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_load256(&self, a: usize) -> (r: __m256i) { unimplemented!() }
}
impl<const N: usize> VBytes for [u8; N] {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_load256(&self, a: usize) -> (r: __m256i) { unimplemented!() }
}
pub trait VBytesMut {
    spec fn bmv(&self) -> Seq<u8>;
    /// writes 32 bytes: all of them have to lie inside the slice
    fn v_store256(&mut self, a: usize, d: __m256i) requires a + 32 <= old(self).bmv().len()
        ensures final(self).bmv() == old(self).bmv().subrange(0, a as int) + d.b() + old(self).bmv().subrange(a + 32, old(self).bmv().len() as int), d.b().len() == 32;
    fn v_copy_at(&mut self, a: usize, b: usize, s: &[u8]) requires a <= b <= old(self).bmv().len(), s@.len() == b - a
        ensures final(self).bmv() == old(self).bmv().subrange(0, a as int) + s@ + old(self).bmv().subrange(b as int, old(self).bmv().len() as int);
}
impl VBytesMut for Vec<u8> {
    open spec fn bmv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_store256(&mut self, a: usize, d: __m256i) { unimplemented!() }
    #[verifier::external_body] fn v_copy_at(&mut self, a: usize, b: usize, s: &[u8]) { unimplemented!() }
}
pub trait VWords {
    fn v_load256(&self, a: usize) -> (r: VW256) requires a + 8 <= self.wv().len() ensures r.w() == self.wv().subrange(a as int, a + 8);
    spec fn wv(&self) -> Seq<u32>;
    fn v_slice_from(&self, a: usize) -> (r: &[u32]) requires a <= self.wv().len() ensures r@ == self.wv().subrange(a as int, self.wv().len() as int);
}
impl VWords for [u32] {
    open spec fn wv(&self) -> Seq<u32> { self@ }
    #[verifier::external_body] fn v_load256(&self, a: usize) -> (r: VW256) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u32]) { unimplemented!() }
}
/// 32 lanes of 8 bits
#[allow(non_camel_case_types)]
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct __m256i { x: u8 }
impl __m256i { pub uninterp spec fn b(&self) -> Seq<u8>; }
/// 8 lanes of 32 bits
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VW256 { x: u8 }
impl VW256 { pub uninterp spec fn w(&self) -> Seq<u32>; }
#[verifier::external_body]
pub fn _mm256_set1_epi8(v: i8) -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| v as u8) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setzero_si256() -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| 0u8) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cmpeq_epi8(a: __m256i, b: __m256i) -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| if a.b()[i] == b.b()[i] { 0xffu8 } else { 0u8 }) { unimplemented!() }
/// signed comparison
#[verifier::external_body]
pub fn _mm256_cmpgt_epi8(a: __m256i, b: __m256i) -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| if a.b()[i] as i8 > b.b()[i] as i8 { 0xffu8 } else { 0u8 }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_or_si256(a: __m256i, b: __m256i) -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| a.b()[i] | b.b()[i]) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_and_si256(a: __m256i, b: __m256i) -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| a.b()[i] & b.b()[i]) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_xor_si256(a: __m256i, b: __m256i) -> (r: __m256i) ensures r.b() == Seq::new(32, |i: int| a.b()[i] ^ b.b()[i]) { unimplemented!() }
pub open spec fn bit(m: u32, i: int) -> bool { (m >> (i as u32)) & 1u32 == 1u32 }
/// the top bit of every lane
#[verifier::external_body]
pub fn _mm256_movemask_epi8(a: __m256i) -> (r: i32) ensures forall|i: int| 0 <= i < 32 ==> #[trigger] bit(r as u32, i) == (a.b()[i] >= 0x80), r == 0 <==> (forall|i: int| 0 <= i < 32 ==> (#[trigger] a.b()[i]) < 0x80) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_epi32(v: i32) -> (r: VW256) ensures r.w() == Seq::new(8, |i: int| v as u32) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_max_epu32(a: VW256, b: VW256) -> (r: VW256) ensures r.w() == Seq::new(8, |i: int| if a.w()[i] >= b.w()[i] { a.w()[i] } else { b.w()[i] }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_min_epu32(a: VW256, b: VW256) -> (r: VW256) ensures r.w() == Seq::new(8, |i: int| if a.w()[i] <= b.w()[i] { a.w()[i] } else { b.w()[i] }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cmpeq_epi32(a: VW256, b: VW256) -> (r: VW256) ensures r.w() == Seq::new(8, |i: int| if a.w()[i] == b.w()[i] { 0xffff_ffffu32 } else { 0u32 }) { unimplemented!() }
/// signed comparison
#[verifier::external_body]
pub fn _mm256_cmpgt_epi32(a: VW256, b: VW256) -> (r: VW256) ensures r.w() == Seq::new(8, |i: int| if a.w()[i] as i32 > b.w()[i] as i32 { 0xffff_ffffu32 } else { 0u32 }) { unimplemented!() }
pub fn _mm256_castsi256_ps(a: VW256) -> (r: VW256) ensures r == a { a }
#[verifier::external_body]
pub fn _mm256_movemask_ps(a: VW256) -> (r: i32) ensures forall|i: int| 0 <= i < 8 ==> #[trigger] bit(r as u32, i) == (a.w()[i] >= 0x8000_0000) { unimplemented!() }
/// 4 lanes of 64 bits
#[verifier::external_body]
pub struct VQ256 { x: u8 }
impl VQ256 { pub uninterp spec fn q(&self) -> Seq<u64>; }
pub open spec fn absdiff(a: u8, b: u8) -> int { if a >= b { a - b } else { b - a } }
pub open spec fn sad8(a: Seq<u8>, b: Seq<u8>, i: int) -> int {
    absdiff(a[i], b[i]) + absdiff(a[i + 1], b[i + 1]) + absdiff(a[i + 2], b[i + 2]) + absdiff(a[i + 3], b[i + 3])
    + absdiff(a[i + 4], b[i + 4]) + absdiff(a[i + 5], b[i + 5]) + absdiff(a[i + 6], b[i + 6]) + absdiff(a[i + 7], b[i + 7])
}
/// sums of absolute differences, eight bytes at a time
#[verifier::external_body]
pub fn _mm256_sad_epu8(a: __m256i, b: __m256i) -> (r: VQ256) ensures r.q().len() == 4, forall|k: int| 0 <= k < 4 ==> #[trigger] r.q()[k] == sad8(a.b(), b.b(), 8 * k) { unimplemented!() }
/// `mem::transmute::<__m256i, [u64; 4]>`
#[verifier::external_body]
pub fn v_lanes64(a: VQ256) -> (r: [u64; 4]) ensures r@ == a.q() { unimplemented!() }
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r == (a + b - 1) / b as int;
/// `a..b` as a sequence of values
pub fn v_range(a: usize, b: usize) -> (r: Vec<usize>)
    ensures r@ == Seq::new((if a <= b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize)
{
    let mut r = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, a <= b ==> i <= b, a > b ==> i == a, r@.len() == i - a, forall|k: int| 0 <= k < i - a ==> #[trigger] r@[k] == a + k
        decreases b - i
    { r.push(i); i = i + 1; }
    proof { assert(r@ =~= Seq::new((if a <= b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize)); }
    r
}
/// slices of bytes are equal when their bytes are
#[verifier::external_body]
pub broadcast proof fn axiom_sl_eq<'a>(a: &'a [u8], b: &'a [u8])
    ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'a [u8]>>::eq_spec(&a, &b) == (a@ == b@), <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'a [u8]>>::obeys_eq_spec()
{}
pub proof fn lemma_i8(c: u8)
    ensures (c as i8) as u8 == c
{ assert((c as i8) as u8 == c) by(bit_vector); }
pub proof fn lemma_i32(c: u32)
    ensures (c as i32) as u32 == c
{ assert((c as i32) as u32 == c) by(bit_vector); }
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn v_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub trait VOnes32 { spec fn m32(&self) -> u32;
    fn v_trailing_ones(&self) -> (r: u32) ensures r <= 32, forall|i: int| 0 <= i < r ==> bit(self.m32(), i), r < 32 ==> !bit(self.m32(), r as int); }
impl VOnes32 for i32 { open spec fn m32(&self) -> u32 { *self as u32 }
    #[verifier::external_body] fn v_trailing_ones(&self) -> (r: u32) { unimplemented!() } }
impl VOnes32 for u32 { open spec fn m32(&self) -> u32 { *self }
    #[verifier::external_body] fn v_trailing_ones(&self) -> (r: u32) { unimplemented!() } }
}
pub use vshim_simd::*;
