//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include float.rs
//@include time.rs
//@include sync.rs
//@include coll.rs
//@include uuid.rs
//@call oneshot::channel = request.channel
//@type oneshot::Sender<ElicitInputResponse> = OneSender
//@type mpsc::Sender<ServerRequest> = ReqTx
//@ghostarg send/1 = out
//@ghostarg timeout/2 = &mut self.pending
//@ghostarg timeout/2 = Ghost(self.timeout_duration.view())
//@ghostarg elicit_input/1 = out
#[verifier::external_body]
pub struct ListRootsX { x: u8 }
#[verifier::external_body]
pub struct InputType { x: u8 }
#[verifier::external_body]
pub struct InputValidation { x: u8 }
//@extract src/types/elicitation.rs struct:ElicitInputRequest struct:ElicitInputResponse
pub enum ServerRequest { ElicitInput(ElicitInputRequest), Other(ListRootsX) }
/// what the manager did: put a question to the client (and whether that worked), hand an answer to the asker behind channel c
pub enum Ev { Asked(ServerRequest, bool), Told(int, ElicitInputResponse) }
#[verifier::external_body]
pub struct Out { x: u8 }
impl Out { pub uninterp spec fn log(&self) -> Seq<Ev>; }
#[verifier::external_body]
pub struct SendError { x: u8 }
impl VDisp for SendError { uninterp spec fn disp(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct RecvError { x: u8 }
#[verifier::external_body]
pub struct Elapsed { x: u8 }
/// the channel questions go out on
#[verifier::external_body]
pub struct ReqTx { x: u8 }
impl ReqTx {
    #[verifier::external_body]
    pub fn send(&self, q: ServerRequest, out: &mut Out) -> (r: core::result::Result<(), SendError>) ensures final(out).log() == old(out).log().push(Ev::Asked(q, r is Ok)) { unimplemented!() }
}
/// One end of a oneshot channel: `chan` identifies it, `key` is the ghost name of the question it was made for.
#[verifier::external_body]
pub struct OneSender { x: u8 }
#[verifier::external_body]
pub struct OneReceiver { x: u8 }
impl OneSender {
    pub uninterp spec fn chan(&self) -> int;
    pub uninterp spec fn key(&self) -> Seq<u8>;
    /// only an answer to its question may be put into a channel
    #[verifier::external_body]
    pub fn send(self, v: ElicitInputResponse, out: &mut Out) -> (r: core::result::Result<(), ElicitInputResponse>)
        requires v.elicitation_id@ == self.key()
        ensures final(out).log() == old(out).log().push(Ev::Told(self.chan(), v))
    { unimplemented!() }
}
impl OneReceiver { pub uninterp spec fn chan(&self) -> int; pub uninterp spec fn key(&self) -> Seq<u8>; }
impl ElicitInputRequest {
    /// oneshot::channel(), with its ghost name
    #[verifier::external_body]
    pub fn channel(&self) -> (r: (OneSender, OneReceiver)) ensures r.0.chan() == r.1.chan(), r.0.key() == self.elicitation_id@, r.1.key() == self.elicitation_id@ { unimplemented!() }
}
/// every waiting channel is filed under the name of its own question
pub open spec fn filed(m: Map<String, OneSender>) -> bool { forall|k: String| #[trigger] m.contains_key(k) ==> m[k].key() == k@ }
pub open spec fn waiting(m: Map<String, OneSender>, c: int) -> bool { exists|k: String| #[trigger] m.contains_key(k) && m[k].chan() == c }
/// Waiting for an answer, at most d. Meanwhile other tasks use the manager: they keep its invariant (each of its functions does), and a channel
/// put in once is never filed under another name. Only an answer to the question comes out of its channel (the `requires` of OneSender::send);
/// a channel that was answered or closed is not filed any more (sending and dropping consume its sender).
#[verifier::external_body]
pub fn timeout(d: Duration, rx: OneReceiver, pending: &mut RwLock<HashMap<String, OneSender>>, Ghost(limit): Ghost<int>) -> (r: core::result::Result<core::result::Result<ElicitInputResponse, RecvError>, Elapsed>)
    // what is waited for is the configured time
    requires filed(old(pending).v@), d@ == limit
    ensures filed(final(pending).v@),
        r is Ok ==> !waiting(final(pending).v@, rx.chan()),
        r is Err ==> forall|k: String| #[trigger] final(pending).v@.contains_key(k) && final(pending).v@[k].chan() == rx.chan() ==> k@ == rx.key(),
        r is Ok && r->Ok_0 is Ok ==> r->Ok_0->Ok_0.elicitation_id@ == rx.key(),
{ unimplemented!() }
//@extract src/server/elicitation.rs struct:ElicitationManager struct:ElicitationContext impl:ElicitationManager::{new,set_request_channel,set_timeout,elicit_input,handle_response,cancel,cancel_all,pending_count}
pub open spec fn cancelled(id: Seq<u8>, m: Seq<u8>, r: ElicitInputResponse) -> bool { r.elicitation_id@ == id && r.value is None && r.cancelled && r.error is Some && r.error->0@ == m }
//@fn ElicitationManager::new ret=r
    ensures r.pending.v@ == Map::<String, OneSender>::empty(), r.request_tx is None, r.timeout_duration@ == sec(300)
//@end
//@fn ElicitationManager::set_request_channel
    ensures *final(self) == (ElicitationManager { request_tx: Some(tx), ..*old(self) })
//@end
//@fn ElicitationManager::set_timeout
    ensures *final(self) == (ElicitationManager { timeout_duration: duration, ..*old(self) })
//@end
//@fn ElicitationManager::pending_count ret=r
    ensures r == self.pending.v@.dom().len()
//@end
//@fn ElicitationManager::handle_response ret=r mutself
//@addparam out: &mut Out
    requires filed(old(self).pending.v@)
    ensures *final(self) == (ElicitationManager { pending: final(self).pending, ..*old(self) }), filed(final(self).pending.v@),
        final(self).pending.v@ == old(self).pending.v@.remove(response.elicitation_id),
        old(self).pending.v@.contains_key(response.elicitation_id) ==> r is Ok && final(out).log() == old(out).log().push(Ev::Told(old(self).pending.v@[response.elicitation_id].chan(), response)),
        !old(self).pending.v@.contains_key(response.elicitation_id) ==> r is Err && code_of(r->Err_0) == Some(ErrorCode::INVALID_REQUEST) && final(out).log() == old(out).log(),
//@end
//@fn ElicitationManager::cancel ret=r mutself
//@addparam out: &mut Out
    requires filed(old(self).pending.v@)
    ensures *final(self) == (ElicitationManager { pending: final(self).pending, ..*old(self) }), filed(final(self).pending.v@),
        final(self).pending.v@ == old(self).pending.v@.remove(*elicitation_id),
        old(self).pending.v@.contains_key(*elicitation_id) ==> r is Ok && final(out).log().len() == old(out).log().len() + 1 && final(out).log().drop_last() == old(out).log()
            && final(out).log().last() is Told && final(out).log().last()->Told_0 == old(self).pending.v@[*elicitation_id].chan() && cancelled(elicitation_id@, S("Cancelled by server"), final(out).log().last()->Told_1),
        !old(self).pending.v@.contains_key(*elicitation_id) ==> r is Err && code_of(r->Err_0) == Some(ErrorCode::INVALID_REQUEST) && final(out).log() == old(out).log(),
//@end
/// everyone waiting is told once, under its own name
pub open spec fn told_all(s: Seq<(String, OneSender)>, n: int, l: Seq<Ev>, b: Seq<Ev>) -> bool {
    b.len() == l.len() + n && (forall|j: int| 0 <= j < l.len() ==> #[trigger] b[j] == l[j]) && forall|i: int| 0 <= i < n ==> told_at(b, l.len() + i, #[trigger] s[i])
}
pub open spec fn told_at(b: Seq<Ev>, p: int, x: (String, OneSender)) -> bool {
    b[p] is Told && b[p]->Told_0 == x.1.chan() && cancelled(x.0@, S("Server shutting down"), b[p]->Told_1)
}
//@fn ElicitationManager::cancel_all mutself
//@addparam out: &mut Out
    requires filed(old(self).pending.v@)
    ensures *final(self) == (ElicitationManager { pending: final(self).pending, ..*old(self) }), final(self).pending.v@ == Map::<String, OneSender>::empty(),
        exists|s: Seq<(String, OneSender)>| #[trigger] lists_kv(s, old(self).pending.v@) && told_all(s, s.len() as int, old(out).log(), final(out).log()),
//@loop 0
    invariant __it0.wf(), lists_kv(__it0.seq(), old(self).pending.v@), filed(old(self).pending.v@), told_all(__it0.seq(), __it0.pos() as int, old(out).log(), out.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn ElicitationManager::elicit_input ret=r mutself
//@addparam out: &mut Out
    requires filed(old(self).pending.v@)
    ensures *final(self) == (ElicitationManager { pending: final(self).pending, ..*old(self) }), filed(final(self).pending.v@),
        old(self).request_tx is None ==> r is Err && code_of(r->Err_0) == Some(ErrorCode::INTERNAL_ERROR) && final(out).log() == old(out).log() && final(self).pending == old(self).pending,
        old(self).request_tx is Some ==> {
            &&& final(out).log().len() == old(out).log().len() + 1
            &&& final(out).log() == old(out).log().push(Ev::Asked(ServerRequest::ElicitInput(request), final(out).log().last()->Asked_1))
            &&& !final(out).log().last()->Asked_1 ==> r is Err && code_of(r->Err_0) == Some(ErrorCode::INTERNAL_ERROR) && !final(self).pending.v@.contains_key(request.elicitation_id)
            &&& r is Ok ==> final(out).log().last()->Asked_1 && r->Ok_0.elicitation_id@ == request.elicitation_id@
            &&& r is Err ==> code_of(r->Err_0) == Some(ErrorCode::INTERNAL_ERROR) || (code_of(r->Err_0) == Some(ErrorCode::REQUEST_TIMEOUT) && !final(self).pending.v@.contains_key(request.elicitation_id))
        },
//@end
