//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include jsonrpc.rs
//@include cancel.rs
//@type dyn Fn(Notification) + Send + Sync = Sender
#[verifier::external_body]
pub struct ServerNotification { x: u8 }
#[verifier::external_body]
pub struct ProgressNotification { x: u8 }
#[verifier::external_body]
pub struct AuthInfo { x: u8 }
pub type Progress = ProgressNotification;
//@extract src/types/protocol.rs struct:CancelledNotification enum:ClientNotification enum:Notification
pub type CancelledParams = CancelledNotification;
#[verifier::external_body]
pub struct Sender { x: u8 }
impl Sender {
    pub uninterp spec fn log(&self) -> Seq<Notification>;
    #[verifier::external_body]
    pub fn call(&mut self, n: Notification) ensures final(self).log() == old(self).log().push(n) { unimplemented!() }
}
pub open spec fn slog(o: Option<Sender>) -> Seq<Notification> { match o { Some(s) => s.log(), None => Seq::empty() } }
//@call sender = sender.call
//@expr &self.notification_sender => &mut self.notification_sender
//@expr token.cancel() => cancels.cancel(&token)
//@call CancellationToken::new = cancels.fresh
//@extract src/server/cancellation.rs struct:CancellationManager struct:RequestHandlerExtra impl:CancellationManager::{new,create_token,cancel_request,remove_token,is_cancelled,get_token,clear} impl:RequestHandlerExtra::{new,with_session_id,with_auth_info,is_cancelled}
impl CancellationManager {
    #[verifier::inline]
    pub open spec fn m(&self) -> Map<String, CancellationToken> { self.tokens.v@ }
}
/// the notification tells exactly that this request was cancelled, and why
pub open spec fn told(n: Notification, id: String, reason: Option<String>) -> bool {
    &&& n is Client && n->Client_0 is Cancelled
    &&& n->Client_0->Cancelled_0.request_id == RequestId::String(id)
    &&& n->Client_0->Cancelled_0.reason is Some
    &&& match reason { Some(t) => n->Client_0->Cancelled_0.reason->0 == t, None => n->Client_0->Cancelled_0.reason->0@ == S("Cancelled by server") }
}
pub open spec fn same_sender(a: Option<Sender>, b: Option<Sender>) -> bool { b == a || (a is Some && b is Some && slog(b) == slog(a)) }
//@fn CancellationManager::new ret=r
    ensures r.m() == Map::<String, CancellationToken>::empty(), r.notification_sender is None
//@end
//@fn CancellationManager::create_token ret=r mutself
//@addparam cancels: &mut Cancels
    ensures final(self).m() == old(self).m().insert(request_id, r), final(self).notification_sender == old(self).notification_sender,
        !old(cancels).made().contains(r.id()), final(cancels).log() == old(cancels).log(),
//@end
//@fn CancellationManager::cancel_request ret=r mutself
//@addparam cancels: &mut Cancels
    ensures r is Ok,
        final(self).m() == old(self).m().remove(request_id),
        !old(self).m().contains_key(request_id) ==> final(cancels).log() == old(cancels).log() && same_sender(old(self).notification_sender, final(self).notification_sender),
        old(self).m().contains_key(request_id) ==> final(cancels).log() == old(cancels).log().insert(old(self).m()[request_id].id())
            && (old(self).notification_sender is None ==> final(self).notification_sender is None)
            && (old(self).notification_sender is Some ==> final(self).notification_sender is Some
                && slog(final(self).notification_sender).len() == slog(old(self).notification_sender).len() + 1
                && slog(final(self).notification_sender).drop_last() == slog(old(self).notification_sender)
                && told(slog(final(self).notification_sender).last(), request_id, reason)),
//@end
//@fn CancellationManager::remove_token mutself
    ensures final(self).m() == old(self).m().remove(*request_id), final(self).notification_sender == old(self).notification_sender
//@end
//@fn CancellationManager::is_cancelled ret=r
    ensures r == (self.m().contains_key(*request_id) && tok_cancelled(self.m()[*request_id].id()))
//@end
//@fn CancellationManager::get_token ret=r
    ensures r == (if self.m().contains_key(*request_id) { Some(self.m()[*request_id]) } else { None })
//@end
//@fn CancellationManager::clear mutself
//@addparam cancels: &mut Cancels
    ensures final(self).m() == Map::<String, CancellationToken>::empty(), final(self).notification_sender == old(self).notification_sender,
        forall|id: int| #[trigger] final(cancels).log().contains(id) <==> (old(cancels).log().contains(id) || exists|k: String| old(self).m().contains_key(k) && (#[trigger] old(self).m()[k]).id() == id),
//@loop 0
    invariant __it0.wf(), exists|ks: Seq<String>| #[trigger] lists_v(__it0.seq(), ks, old(self).m()),
        forall|id: int| #[trigger] cancels.log().contains(id) <==> (old(cancels).log().contains(id) || exists|j: int| 0 <= j < __it0.pos() && (#[trigger] __it0.seq()[j]).id() == id),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost l0 = cancels.log(); let ghost p = __it0.pos() - 1;
//@loopend 0
    proof {
        assert(cancels.log() == l0.insert(__it0.seq()[p].id()));
        assert forall|id: int| #[trigger] cancels.log().contains(id) <==> (old(cancels).log().contains(id) || exists|j: int| 0 <= j < __it0.pos() && (#[trigger] __it0.seq()[j]).id() == id) by {
            if l0.contains(id) && !old(cancels).log().contains(id) { let j = choose|j: int| 0 <= j < p && (#[trigger] __it0.seq()[j]).id() == id; assert(0 <= j < __it0.pos()); }
            if id == __it0.seq()[p].id() { assert(0 <= p < __it0.pos()); }
        }
    }
//@afterloop 0
    proof {
        let ks = choose|ks: Seq<String>| #[trigger] lists_v(__it0.seq(), ks, old(self).m());
        assert forall|id: int| #[trigger] cancels.log().contains(id) <==> (old(cancels).log().contains(id) || exists|k: String| old(self).m().contains_key(k) && (#[trigger] old(self).m()[k]).id() == id) by {
            if cancels.log().contains(id) && !old(cancels).log().contains(id) {
                let j = choose|j: int| 0 <= j < __it0.pos() && (#[trigger] __it0.seq()[j]).id() == id;
                assert(old(self).m().contains_key(ks[j]) && old(self).m()[ks[j]].id() == id);
            }
            if exists|k: String| old(self).m().contains_key(k) && (#[trigger] old(self).m()[k]).id() == id {
                let k = choose|k: String| old(self).m().contains_key(k) && (#[trigger] old(self).m()[k]).id() == id;
                let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k;
                assert(__it0.seq()[i].id() == id);
            }
        }
    }
//@end
//@fn RequestHandlerExtra::new ret=r
    ensures r.request_id == request_id, r.cancellation_token == cancellation_token, r.session_id is None, r.auth_info is None
//@end
//@fn RequestHandlerExtra::with_session_id ret=r
    ensures r.session_id == session_id, r.request_id == self.request_id, r.cancellation_token == self.cancellation_token, r.auth_info == self.auth_info
//@end
//@fn RequestHandlerExtra::with_auth_info ret=r
    ensures r.auth_info == auth_info, r.request_id == self.request_id, r.cancellation_token == self.cancellation_token, r.session_id == self.session_id
//@end
//@fn RequestHandlerExtra::is_cancelled ret=r
    ensures r == tok_cancelled(self.cancellation_token.id())
//@end
