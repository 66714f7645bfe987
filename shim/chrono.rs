// ---- shim/chrono.rs: chrono timestamps and durations as whole nanoseconds (TRUSTED; overflow of the calendar range ignored) ----
//@type DateTime<Utc> = DateTime
//@type chrono::DateTime<chrono::Utc> = DateTime
//@type chrono::Duration = CDuration
pub mod vshim_chrono {
use vstd::prelude::*;
use super::*;
use core::cmp::Ordering;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DateTime { x: u128 }
impl View for DateTime { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CDuration { x: u128 }
impl View for CDuration { type V = int; uninterp spec fn view(&self) -> int; }
pub struct Utc;
pub uninterp spec fn dt_at(t: int) -> DateTime;
pub uninterp spec fn cd_of(t: int) -> CDuration;
#[verifier::external_body]
pub broadcast proof fn axiom_dt_at(t: int) ensures #[trigger] dt_at(t)@ == t { }
#[verifier::external_body]
pub broadcast proof fn axiom_cd_of(t: int) ensures #[trigger] cd_of(t)@ == t { }
#[verifier::external_body]
pub broadcast proof fn axiom_dt_ext(a: DateTime, b: DateTime) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
#[verifier::external_body]
pub broadcast proof fn axiom_cd_ext(a: CDuration, b: CDuration) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
pub broadcast group group_chrono { axiom_dt_at, axiom_cd_of, axiom_dt_ext, axiom_cd_ext }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DateTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for DateTime { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for DateTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { cmp_int(self@, o@) }
}
impl PartialOrd for DateTime { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for CDuration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for CDuration { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for CDuration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { cmp_int(self@, o@) }
}
impl PartialOrd for CDuration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<CDuration> for DateTime {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: CDuration) -> bool { true }
    open spec fn add_spec(self, o: CDuration) -> DateTime { dt_at(self@ + o@) }
}
impl core::ops::Add<CDuration> for DateTime { type Output = DateTime; #[verifier::external_body] fn add(self, o: CDuration) -> DateTime { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<CDuration> for DateTime {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: CDuration) -> bool { true }
    open spec fn sub_spec(self, o: CDuration) -> DateTime { dt_at(self@ - o@) }
}
impl core::ops::Sub<CDuration> for DateTime { type Output = DateTime; #[verifier::external_body] fn sub(self, o: CDuration) -> DateTime { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<DateTime> for DateTime {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: DateTime) -> bool { true }
    open spec fn sub_spec(self, o: DateTime) -> CDuration { cd_of(self@ - o@) }
}
impl core::ops::Sub<DateTime> for DateTime { type Output = CDuration; #[verifier::external_body] fn sub(self, o: DateTime) -> CDuration { unimplemented!() } }
impl Utc {
    #[verifier::external_body]
    pub fn now() -> (r: DateTime) ensures is_now(r@) { unimplemented!() }
}
impl DateTime {
    #[verifier::external_body]
    pub fn signed_duration_since(self, o: DateTime) -> (r: CDuration) ensures r@ == self@ - o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp(&self) -> (r: i64) ensures r as int == self@ / 1000000000 { unimplemented!() }
}
impl CDuration {
    #[verifier::external_body]
    pub fn hours(n: i64) -> (r: CDuration) ensures r@ == sec(n * 3600) { unimplemented!() }
    #[verifier::external_body]
    pub fn minutes(n: i64) -> (r: CDuration) ensures r@ == sec(n * 60) { unimplemented!() }
    #[verifier::external_body]
    pub fn seconds(n: i64) -> (r: CDuration) ensures r@ == sec(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn milliseconds(n: i64) -> (r: CDuration) ensures r@ == ms(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn days(n: i64) -> (r: CDuration) ensures r@ == sec(n * 86400) { unimplemented!() }
}
}
pub use vshim_chrono::*;
//@broadcast vshim_chrono::group_chrono
