// ---- shim/notify.rs: server notifications and the callback they are handed to (its calls are recorded, ghost) ----
//@type dyn Fn(ServerNotification) + Send + Sync = Sender
//@extract src/types/protocol.rs struct:ResourceUpdatedParams enum:ServerNotification
#[verifier::external_body]
pub struct Progress { x: u8 }
#[verifier::external_body]
pub struct LogMessageParams { x: u8 }
#[verifier::external_body]
pub struct Sender { x: u8 }
impl Sender {
    pub uninterp spec fn log(&self) -> Seq<ServerNotification>;
    #[verifier::external_body]
    pub fn call(&mut self, n: ServerNotification) ensures final(self).log() == old(self).log().push(n) { unimplemented!() }
}
pub open spec fn slog(o: Option<Sender>) -> Seq<ServerNotification> { match o { Some(s) => s.log(), None => Seq::empty() } }
/// what was handed to the callback between two states
pub open spec fn sent_none(a: Option<Sender>, b: Option<Sender>) -> bool { b == a || (a is Some && b is Some && slog(b) == slog(a)) }
pub open spec fn sent_one(a: Option<Sender>, b: Option<Sender>, n: ServerNotification) -> bool {
    match a { Some(s) => b is Some && b->0.log() == s.log().push(n), None => b is None }
}
