// ---- shim/time.rs: Duration / Instant / SystemTime as whole nanoseconds (TRUSTED contracts of std::time) ----
pub mod vshim_time {
use vstd::prelude::*;
use super::*;
use core::cmp::Ordering;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u128 }
impl View for Duration { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { x: u128 }
impl View for Instant { type V = int; uninterp spec fn view(&self) -> int; }
/// the readings of the clock during one call
pub uninterp spec fn is_now(t: int) -> bool;
pub open spec fn ms(n: int) -> int { n * 1000000 }
pub open spec fn sec(n: int) -> int { n * 1000000000 }
pub open spec fn dmax() -> int { (u64::MAX as int) * 1000000000 + 999999999 }
#[verifier::external_body]
pub broadcast proof fn axiom_dur(d: Duration)
    ensures 0 <= #[trigger] d@ <= dmax()
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_dur_ext(a: Duration, b: Duration)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_inst_ext(a: Instant, b: Instant)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{ }
pub broadcast group group_time { axiom_dur, axiom_dur_ext, axiom_inst_ext, axiom_inst_at, axiom_dur_at }
pub open spec fn cmp_int(a: int, b: int) -> Option<Ordering> {
    if a < b { Some(Ordering::Less) } else if a == b { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { cmp_int(self@, o@) }
}
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { cmp_int(self@, o@) }
}
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
// `instant + duration` (std panics on overflow of the clock's range; TRUSTED not to happen)
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Duration) -> bool { true }
    open spec fn add_spec(self, o: Duration) -> Instant { inst_at(self@ + o@) }
}
/// conversions between durations and floating-point seconds: uninterpreted
pub uninterp spec fn secs_f64(n: int) -> F64;
pub uninterp spec fn dur_of_f64(x: F64) -> Duration;
pub uninterp spec fn inst_at(t: int) -> Instant;
pub uninterp spec fn dur_at(t: int) -> Duration;
#[verifier::external_body]
pub broadcast proof fn axiom_dur_at(t: int) requires 0 <= t <= dmax() ensures #[trigger] dur_at(t)@ == t { }
#[verifier::external_body]
pub broadcast proof fn axiom_inst_at(t: int) ensures #[trigger] inst_at(t)@ == t { }
/// doubling and the like: must not overflow
impl vstd::std_specs::ops::MulSpecImpl<u32> for Duration {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, k: u32) -> bool { self@ * k <= dmax() }
    open spec fn mul_spec(self, k: u32) -> Duration { dur_at(self@ * k) }
}
impl core::ops::Mul<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn mul(self, k: u32) -> Duration { unimplemented!() }
}
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, o: Duration) -> Instant { unimplemented!() }
}
impl Instant {
    #[verifier::external_body]
    pub fn now() -> (r: Instant) ensures is_now(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration)
        ensures exists|t: int| #[trigger] is_now(t) && r@ == (if t >= self@ { t - self@ } else { 0 })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Duration) ensures r@ == sec(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Duration) ensures r@ == ms(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r as int == self@ / 1000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r as int == self@ / 1000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r as int == self@ % 1000000000, r < 1000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Duration) -> (r: Duration) ensures r@ == (if o@ < self@ { o@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, k: u32) -> (r: Duration) ensures r@ == (if self@ * k > dmax() { dmax() } else { self@ * k }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs_f64(&self) -> (r: F64) ensures r == secs_f64(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs_f64(x: F64) -> (r: Duration) ensures r == dur_of_f64(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_f64(self, x: F64) -> (r: Duration) ensures r == dur_of_f64(f_mul(secs_f64(self@), x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Duration) -> (r: Duration) ensures r@ == (if o@ > self@ { o@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Duration) -> (r: Duration) ensures r@ == (if self@ + o@ > dmax() { dmax() } else { self@ + o@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
}
}
pub use vshim_time::*;
//@broadcast vshim_time::group_time
