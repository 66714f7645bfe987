// ---- shim/float.rs: f64 as an opaque type with uninterpreted arithmetic (TRUSTED only to be deterministic) ----
pub mod vshim_float {
use vstd::prelude::*;
use super::*;
use core::cmp::Ordering;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: f64 }
pub uninterp spec fn f_bits(b: u64) -> F64;
pub uninterp spec fn f_int(n: int) -> F64;
pub uninterp spec fn f_mul(a: F64, b: F64) -> F64;
pub uninterp spec fn f_add(a: F64, b: F64) -> F64;
pub uninterp spec fn f_sub(a: F64, b: F64) -> F64;
pub uninterp spec fn f_div(a: F64, b: F64) -> F64;
pub uninterp spec fn f_fma(a: F64, b: F64, c: F64) -> F64;
pub uninterp spec fn f_neg(a: F64) -> F64;
pub uninterp spec fn f_min(a: F64, b: F64) -> F64;
pub uninterp spec fn f_max(a: F64, b: F64) -> F64;
pub uninterp spec fn f_pow(a: F64, b: F64) -> F64;
pub uninterp spec fn f_powi(a: F64, b: int) -> F64;
pub uninterp spec fn f_cmp(a: F64, b: F64) -> Option<Ordering>;
pub uninterp spec fn f_floor(a: F64) -> int;
pub uninterp spec fn f_nan(a: F64) -> bool;
macro_rules! op { ($spec:ident, $tr:ident, $m:ident, $ob:ident, $rq:ident, $sp:ident, $f:ident) => { verus!{
impl vstd::std_specs::ops::$spec<F64> for F64 {
    open spec fn $ob() -> bool { true }
    open spec fn $rq(self, o: F64) -> bool { true }
    open spec fn $sp(self, o: F64) -> F64 { $f(self, o) }
}
impl core::ops::$tr<F64> for F64 { type Output = F64; #[verifier::external_body] fn $m(self, o: F64) -> F64 { unimplemented!() } }
} } }
op!(AddSpecImpl, Add, add, obeys_add_spec, add_req, add_spec, f_add);
op!(SubSpecImpl, Sub, sub, obeys_sub_spec, sub_req, sub_spec, f_sub);
op!(MulSpecImpl, Mul, mul, obeys_mul_spec, mul_req, mul_spec, f_mul);
op!(DivSpecImpl, Div, div, obeys_div_spec, div_req, div_spec, f_div);
impl vstd::std_specs::ops::NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F64 { f_neg(self) } }
impl core::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> F64 { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F64 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { f_cmp(*self, *o) == Some(Ordering::Equal) }
}
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { f_cmp(*self, *o) }
}
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl F64 {
    #[verifier::external_body]
    pub fn mul_add(self, a: F64, b: F64) -> (r: F64) ensures r == f_fma(self, a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(b: u64) -> (r: F64) ensures r == f_bits(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: F64) -> (r: F64) ensures r == f_min(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: F64) -> (r: F64) ensures r == f_max(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn powf(self, o: F64) -> (r: F64) ensures r == f_pow(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn powi(self, o: i32) -> (r: F64) ensures r == f_powi(self, o as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == f_nan(self) { unimplemented!() }
}
pub trait VToF64 { fn v_to_f64(self) -> (r: F64); }
macro_rules! tof { ($($t:ty)*) => { $( verus!{ impl VToF64 for $t { #[verifier::external_body] fn v_to_f64(self) -> (r: F64) ensures r == f_int(self as int) { unimplemented!() } } } )* } }
tof!(u8 u16 u32 u64 usize i32 i64);
}
pub use vshim_float::*;
