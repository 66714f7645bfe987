// ---- shim/systime.rs: the wall clock, in nanoseconds since 1970 (TRUSTED contracts of std::time::SystemTime); after time.rs ----
//@expr UNIX_EPOCH => v_epoch()
//@expr std::time::UNIX_EPOCH => v_epoch()
/// whole seconds since 1970 read from the clock during this call
pub open spec fn is_now_s(s: int) -> bool { exists|t: int| #[trigger] is_now(t) && s == t / 1000000000 && 0 <= s < 0x4000_0000_0000_0000 }
#[verifier::external_body]
pub struct SystemTime { x: u8 }
#[verifier::external_body]
pub struct SystemTimeError { x: u8 }
impl core::fmt::Debug for SystemTimeError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl View for SystemTime { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
pub fn v_epoch() -> (r: SystemTime) ensures r@ == 0 { unimplemented!() }
impl SystemTime {
    /// TRUSTED: the clock reads a time after 1970 and before the year 10^11
    #[verifier::external_body]
    pub fn now() -> (r: SystemTime) ensures is_now(r@), 0 <= r@ < 0x4000_0000_0000_0000 * 1000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: SystemTime) -> (r: core::result::Result<Duration, SystemTimeError>)
        ensures r is Ok <==> self@ >= o@, r is Ok ==> r->Ok_0@ == self@ - o@
    { unimplemented!() }
}
