//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include json.rs
//@include coll.rs
//@include notify.rs
//@call sender = sender.call
//@expr &self.notification_sender => &mut self.notification_sender
//@expr roots.clone() => roots
//@expr notification_sender.clone() => notification_sender
//@lift RootsManager::register_root unregister roots: &mut RwLock<Vec<Root>>; notification_sender: &mut Option<Sender>; unregister_uri: String
/// a shared lock: `id` names the shared cell, handles made by `clone` have the same one
pub struct RwLock<T> { pub v: T, pub id: Ghost<int> }
impl<T> RwLock<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { RwLock { v, id: Ghost(0) } }
    pub fn read(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn write(&mut self) -> (r: &mut T) ensures *r == old(self).v, *final(r) == final(self).v, final(self).id == old(self).id { &mut self.v }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@call request_sender = request_sender.ask
//@extract src/server/roots.rs struct:Root struct:RootsManager struct:ListRootsResult impl:RootsManager::{new,register_root,unregister,get_roots,has_roots,request_client_roots,send_roots_list_changed}

impl Deserialize for ListRootsResult { uninterp spec fn de(v: Value) -> Option<Self>; }
/// the client: whatever it answers; what it is asked is recorded
#[verifier::external_body]
pub struct CreateMessageParams { x: u8 }
#[verifier::external_body]
pub struct ElicitInputRequest { x: u8 }
//@extract src/types/protocol.rs enum:ServerRequest
#[verifier::external_body]
pub struct Peer { x: u8 }
impl Peer {
    pub uninterp spec fn asked(&self) -> Seq<ServerRequest>;
    pub uninterp spec fn ans(&self, q: ServerRequest) -> VResult<Value>;
    #[verifier::external_body]
    pub fn ask(&mut self, q: ServerRequest) -> (r: VResult<Value>) ensures r == old(self).ans(q), final(self).asked() == old(self).asked().push(q) { unimplemented!() }
}
impl RootsManager {
    #[verifier::inline]
    pub open spec fn all(&self) -> Seq<Root> { self.roots.v@ }
}
//@fn RootsManager::new ret=r
    ensures r.all().len() == 0, r.notification_sender is None
//@end
//@fn RootsManager::get_roots ret=r
    ensures r@ == self.all()
//@end
//@fn RootsManager::has_roots ret=r
    ensures r == (self.all().len() > 0)
//@end
//@fn RootsManager::send_roots_list_changed ret=r mutself
    ensures final(self).roots == old(self).roots, sent_one(old(self).notification_sender, final(self).notification_sender, ServerNotification::RootsListChanged)
//@end
/// the handle that takes a root back holds the same list, the same callback and the uri
//@fn RootsManager::register_root ret=r mutself dropgenerics
//@param uri: impl VIntoString
    ensures
        r is Ok <==> S("file://").is_prefix_of(uri.txt()),
        r is Err ==> *final(self) == *old(self) && r->Err_0 is Protocol,
        r is Ok ==> {
            &&& final(self).all().len() == old(self).all().len() + 1 && final(self).all().drop_last() == old(self).all()
            &&& final(self).all().last().uri@ == uri.txt() && final(self).all().last().name == name
            &&& final(self).roots.id == old(self).roots.id
            &&& sent_one(old(self).notification_sender, final(self).notification_sender, ServerNotification::RootsListChanged)
            &&& r->Ok_0.0.id == final(self).roots.id && r->Ok_0.1 == final(self).notification_sender && r->Ok_0.2@ == uri.txt()
        },
//@end
pub open spec fn listed(s: Seq<Root>, u: String, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).uri == u }
//@fn RootsManager::unregister
    ensures
        listed(old(roots).v@, unregister_uri, old(roots).v@.len() as int) ==> exists|i: int| 0 <= i < old(roots).v@.len() && (#[trigger] old(roots).v@[i]).uri == unregister_uri && final(roots).v@ == old(roots).v@.remove(i)
            && sent_one(*old(notification_sender), *final(notification_sender), ServerNotification::RootsListChanged),
        !listed(old(roots).v@, unregister_uri, old(roots).v@.len() as int) ==> final(roots).v@ == old(roots).v@ && *final(notification_sender) == *old(notification_sender),
//@loop 0
    invariant_except_break
        __out0 is None, __it0.wf(), __it0.seq() == roots_guard@, __pos0 == __it0.pos(), !listed(roots_guard@, uri, __it0.pos() as int),
    invariant uri == unregister_uri,
    ensures
        __out0 is None ==> !listed(roots_guard@, uri, roots_guard@.len() as int),
        __out0 is Some ==> __out0->0 < roots_guard@.len() && roots_guard@[__out0->0 as int].uri == uri,
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn RootsManager::request_client_roots ret=r dropgenerics
//@param request_sender: &mut Peer
    ensures final(request_sender).asked() == old(request_sender).asked().push(ServerRequest::ListRoots),
        match old(request_sender).ans(ServerRequest::ListRoots) {
            Err(e) => r == Err::<ListRootsResult, Error>(e),
            Ok(v) => match ListRootsResult::de(v) { Some(x) => r == Ok::<ListRootsResult, Error>(x), None => r is Err && r->Err_0 is Protocol },
        }
//@end
