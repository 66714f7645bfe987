// ---- shim/cancel.rs: tokio_util's cancellation token. `cancel()` calls are recorded (ghost) in the handle passed as `cancels`;
// whether a token is cancelled right now is an uninterpreted fact about the token's identity ----
#[verifier::external_body]
pub struct CancellationToken { x: u8 }
/// has been cancelled by now
pub uninterp spec fn tok_cancelled(id: int) -> bool;
#[verifier::external_body]
pub struct Cancels { x: u8 }
impl Cancels {
    /// identities of the tokens `cancel()` was called on
    pub uninterp spec fn log(&self) -> Set<int>;
    /// identities handed out so far
    pub uninterp spec fn made(&self) -> Set<int>;
    #[verifier::external_body]
    pub fn cancel(&mut self, t: &CancellationToken) ensures final(self).log() == old(self).log().insert(t.id()), final(self).made() == old(self).made() { unimplemented!() }
    #[verifier::external_body]
    pub fn fresh(&mut self) -> (r: CancellationToken) ensures final(self).log() == old(self).log(), !old(self).made().contains(r.id()), final(self).made() == old(self).made().insert(r.id()) { unimplemented!() }
}
impl CancellationToken {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_cancelled(&self) -> (r: bool) ensures r == tok_cancelled(self.id()) { unimplemented!() }
}
