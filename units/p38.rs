//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include jsonrpc.rs
//@include sync.rs
//@dropfield Server.info Server.capabilities Server.tools Server.prompts Server.resources Server.sampling Server.client_capabilities Server.initialized Server.elicitation_manager
//@type mpsc::Sender<Notification> = NTx
//@type mpsc::Receiver<Notification> = NRx
//@type cancellation::CancellationManager = CancellationManager
//@type Arc<RwLock<roots::RootsManager>> = RwLock<RootsManager>
//@type Arc<RwLock<subscriptions::SubscriptionManager>> = RwLock<SubscriptionManager>
//@type Arc<RwLock<Protocol>> = RwLock<Protocol>
//@type Arc<Server> = Server
//@type roots::Root = Root
//@type impl FnOnce() + Send + 'static = Unregister
//@type T = Wire
//@call mpsc::channel = v_channel
//@call tokio::spawn = v_spawn
//@call crate::log = v_log
//@call log = v_log
//@call tokio::time::sleep = v_sleep
//@call tokio::time::Duration::from_secs = v_secs
//@call crate::shared::StdioTransport::new = v_stdio
//@expr &transport => &mut transport
//@expr server.clone() => server.v_clone()
//@expr &self.notification_tx => &self.notification_tx
//@lift Server::spawn_notification_handler notify async; transport: RwLock<Wire>; notification_rx: NRx
//@lift Server::spawn_message_handler serve async; server: Server; transport: RwLock<Wire>
//@lift Server::register_root announce_root arg server_notification: ServerNotification; tx: NTx
//@lift Server::subscribe_resource announce_subscribed arg notification: ServerNotification; tx: NTx
//@lift Server::notify_resource_updated announce_updated arg notification: ServerNotification; tx: NTx
//@ghostarg v_spawn/1 = w
//@ghostarg send/1 = w
//@ghostarg try_send/1 = w
//@ghostarg recv/0 = w
//@ghostarg receive/0 = w
//@ghostarg handle_request/2 = w
//@ghostarg send_notification_through_transport/2 = w
//@ghostarg receive_message_from_transport/1 = w
//@ghostarg handle_transport_message/3 = w
//@ghostarg handle_request_message/4 = w
//@ghostarg spawn_notification_handler/2 = w
//@ghostarg spawn_message_handler/3 = w
//@ghostarg run/1 = w
//@ghostarg register_root/2 = w
//@ghostarg subscribe/2 = w
//@ghostarg unsubscribe/2 = w
//@ghostarg notify_resource_updated/1 = w
//@ghostarg cancel_request/2 = w
#[verifier::external_body]
pub struct Request { x: u8 }
#[verifier::external_body]
pub struct ServerNotification { x: u8 }
#[verifier::external_body]
pub struct ClientNotification { x: u8 }
#[verifier::external_body]
pub struct ProgressNotification { x: u8 }
#[verifier::external_body]
pub struct CancelledNotification { x: u8 }
//@extract src/types/protocol.rs enum:Notification enum:LogLevel
//@extract src/shared/transport.rs enum:TransportMessage
// ---- the world: what came in, what went out, what the server answered, what was queued, asked of the managers and started ----
pub enum Call {
    Register(Seq<u8>, Option<String>, Option<int>, VResult<Unregister>),
    Subscribe(Seq<u8>, Seq<u8>, Option<int>, VResult<()>),
    Unsubscribe(Seq<u8>, Seq<u8>, VResult<()>),
    Updated(Seq<u8>, Option<int>, VResult<usize>),
    Cancel(Seq<u8>, Option<String>, VResult<()>),
}
pub enum Task { Notify(int, int), Serve(int, Option<int>) }
pub struct World {
    pub heard: Ghost<Seq<Option<TransportMessage>>>, pub sent: Ghost<Seq<TransportMessage>>, pub failed: Ghost<bool>,
    pub asked: Ghost<Seq<(RequestId, Request, JSONRPCResponse)>>, pub queued: Ghost<Seq<(int, Notification)>>, pub took: Ghost<Seq<Notification>>, pub no_more: Ghost<bool>,
    pub calls: Ghost<Seq<Call>>, pub tasks: Ghost<Seq<Task>>,
}
#[verifier::external_body]
pub struct Wire { x: u8 }
impl Wire {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: TransportMessage, w: &mut World) -> (r: VResult<()>)
        ensures final(self).id() == old(self).id(), *final(w) == (World { sent: Ghost(old(w).sent@.push(m)), failed: Ghost(r is Err), ..*old(w) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn receive(&mut self, w: &mut World) -> (r: VResult<TransportMessage>)
        ensures final(self).id() == old(self).id(), *final(w) == (World { heard: Ghost(old(w).heard@.push(match r { Ok(m) => Some(m), Err(_) => None })), ..*old(w) })
    { unimplemented!() }
}
impl VDisp for Error { open spec fn disp(&self) -> Seq<u8> { err_text(*self) } }
#[verifier::external_body]
pub fn v_stdio() -> Wire { unimplemented!() }
#[verifier::external_body]
pub struct NTx { x: u8 }
#[verifier::external_body]
pub struct NRx { x: u8 }
#[verifier::external_body]
pub struct SendError { x: u8 }
impl NTx {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn send(&self, n: Notification, w: &mut World) -> (r: core::result::Result<(), SendError>) ensures *final(w) == (World { queued: Ghost(old(w).queued@.push((self.chan(), n))), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_send(&self, n: Notification, w: &mut World) -> (r: core::result::Result<(), SendError>) ensures *final(w) == (World { queued: Ghost(old(w).queued@.push((self.chan(), n))), ..*old(w) }) { unimplemented!() }
}
impl NRx {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut World) -> (r: Option<Notification>)
        ensures final(self).chan() == old(self).chan(), *final(w) == (match r { Some(n) => World { took: Ghost(old(w).took@.push(n)), ..*old(w) }, None => World { no_more: Ghost(true), ..*old(w) } })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_channel(n: usize) -> (r: (NTx, NRx)) requires n > 0 ensures r.0.chan() == r.1.chan() { unimplemented!() }
pub trait VTask { spec fn task(&self) -> Task; }
impl VTask for (RwLock<Wire>, NRx) { open spec fn task(&self) -> Task { Task::Notify(self.0.v.id(), self.1.chan()) } }
impl VTask for (Server, RwLock<Wire>) { open spec fn task(&self) -> Task { Task::Serve(self.1.v.id(), chan_of(self.0.notification_tx)) } }
#[verifier::external_body]
pub fn v_spawn<C: VTask>(c: C, w: &mut World) ensures *final(w) == (World { tasks: Ghost(old(w).tasks@.push(c.task())), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub fn v_log(l: LogLevel, s: &String, d: Option<Value>) { unimplemented!() }
#[verifier::external_body]
pub struct Nap { x: u8 }
#[verifier::external_body]
pub fn v_secs(n: u64) -> Nap { unimplemented!() }
#[verifier::external_body]
pub fn v_sleep(n: Nap) { unimplemented!() }
#[verifier::external_body]
#[verifier::external_body]
pub struct Protocol { x: u8 }
#[verifier::external_body]
pub struct ProtocolOptions { x: u8 }
impl ProtocolOptions { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
impl Protocol { #[verifier::external_body] pub fn new(o: ProtocolOptions) -> Self { unimplemented!() } }
// ---- the managers (P18, P19, P28): what they are asked, and over which queue they would announce ----
#[verifier::external_body]
pub struct Root { x: u8 }
#[verifier::external_body]
pub struct Unregister { x: u8 }
#[verifier::external_body]
pub struct RootsManager { x: u8 }
#[verifier::external_body]
pub struct SubscriptionManager { x: u8 }
#[verifier::external_body]
pub struct CancellationManager { x: u8 }
pub open spec fn chan_of(t: Option<NTx>) -> Option<int> { match t { Some(t) => Some(t.chan()), None => None } }
impl RootsManager {
    pub uninterp spec fn told(&self) -> Option<int>;
    pub uninterp spec fn list(&self) -> Seq<Root>;
    #[verifier::external_body]
    pub fn set_notification_sender(&mut self, s: (NTx,)) ensures final(self).told() == Some(s.0.chan()), final(self).list() == old(self).list() { unimplemented!() }
    #[verifier::external_body]
    pub fn register_root(&self, uri: String, name: Option<String>, w: &mut World) -> (r: VResult<Unregister>)
        ensures *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Register(uri@, name, self.told(), r))), ..*old(w) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_roots(&self) -> (r: Vec<Root>) ensures r@ == self.list() { unimplemented!() }
}
impl SubscriptionManager {
    pub uninterp spec fn told(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn set_notification_sender(&mut self, s: (NTx,)) ensures final(self).told() == Some(s.0.chan()) { unimplemented!() }
    #[verifier::external_body]
    pub fn subscribe(&self, uri: String, who: String, w: &mut World) -> (r: VResult<()>)
        ensures *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Subscribe(uri@, who@, self.told(), r))), ..*old(w) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&self, uri: String, who: String, w: &mut World) -> (r: VResult<()>)
        ensures *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Unsubscribe(uri@, who@, r))), ..*old(w) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_resource_updated(&self, uri: String, w: &mut World) -> (r: VResult<usize>)
        ensures *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Updated(uri@, self.told(), r))), ..*old(w) })
    { unimplemented!() }
}
impl CancellationManager {
    #[verifier::external_body]
    pub fn cancel_request(&self, id: String, reason: Option<String>, w: &mut World) -> (r: VResult<()>)
        ensures *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Cancel(id@, reason, r))), ..*old(w) })
    { unimplemented!() }
}
//@extract src/server/mod.rs struct:Server
impl Server {
    /// what the server answers (P25): its answers carry the id they were asked under
    #[verifier::external_body]
    pub fn handle_request(&self, id: RequestId, q: Request, w: &mut World) -> (r: JSONRPCResponse)
        ensures r.id == id, *final(w) == (World { asked: Ghost(old(w).asked@.push((id, q, r))), ..*old(w) })
    { unimplemented!() }
}
// ---- what the two tasks do ----
/// the requests among what was received, in order
pub open spec fn requests(h: Seq<Option<TransportMessage>>) -> Seq<(RequestId, Request)> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { requests(h.drop_last()) + request1(h.last()) }
}
pub open spec fn request1(m: Option<TransportMessage>) -> Seq<(RequestId, Request)> {
    match m { Some(TransportMessage::Request { id, request }) => seq![(id, request)], _ => Seq::empty() }
}
proof fn lemma_requests(h: Seq<Option<TransportMessage>>)
    ensures forall|m: Option<TransportMessage>| requests(#[trigger] h.push(m)) == requests(h) + request1(m)
{ assert forall|m: Option<TransportMessage>| requests(#[trigger] h.push(m)) == requests(h) + request1(m) by { assert(h.push(m).drop_last() =~= h); } }
pub open spec fn put(a: Seq<(RequestId, Request, JSONRPCResponse)>) -> Seq<(RequestId, Request)> { a.map_values(|x: (RequestId, Request, JSONRPCResponse)| (x.0, x.1)) }
pub open spec fn answers(a: Seq<(RequestId, Request, JSONRPCResponse)>) -> Seq<TransportMessage> { a.map_values(|x: (RequestId, Request, JSONRPCResponse)| TransportMessage::Response(x.2)) }
pub open spec fn passed(n: Seq<Notification>) -> Seq<TransportMessage> { n.map_values(|x: Notification| TransportMessage::Notification(x)) }
/// every request received was put to the server once, in order, and every answer sent, in order
pub open spec fn served(w: World) -> bool { put(w.asked@) == requests(w.heard@) && w.sent@ == answers(w.asked@) }
pub open spec fn silent(w: World) -> bool { w.heard@.len() == 0 && w.sent@.len() == 0 && w.asked@.len() == 0 && w.took@.len() == 0 && !w.failed@ && !w.no_more@ }
//@fn Server::send_notification_through_transport ret=r
//@param transport: &mut RwLock<Wire>
//@addparam w: &mut World
    ensures final(transport).v.id() == old(transport).v.id(), *final(w) == (World { sent: Ghost(old(w).sent@.push(TransportMessage::Notification(notification))), failed: Ghost(r is Err), ..*old(w) })
//@end
//@fn Server::receive_message_from_transport ret=r
//@param transport: &mut RwLock<Wire>
//@addparam w: &mut World
    ensures final(transport).v.id() == old(transport).v.id(), *final(w) == (World { heard: Ghost(old(w).heard@.push(match r { Ok(m) => Some(m), Err(_) => None })), ..*old(w) })
//@end
//@fn Server::handle_request_message ret=r
//@param server: &Server
//@param transport: &mut RwLock<Wire>
//@addparam w: &mut World
    ensures final(transport).v.id() == old(transport).v.id(), final(w).failed@ == r is Err,
        exists|a: JSONRPCResponse| a.id == id && *final(w) == (World { asked: Ghost(old(w).asked@.push((id, request, a))), sent: Ghost(#[trigger] old(w).sent@.push(TransportMessage::Response(a))), failed: final(w).failed, ..*old(w) })
//@end
//@fn Server::handle_transport_message ret=r
//@param server: &Server
//@param transport: &mut RwLock<Wire>
//@addparam w: &mut World
    ensures final(transport).v.id() == old(transport).v.id(),
        match message {
            TransportMessage::Request { id, request } => final(w).failed@ == (r is Err)
                && exists|a: JSONRPCResponse| a.id == id && *final(w) == (World { asked: Ghost(old(w).asked@.push((id, request, a))), sent: Ghost(#[trigger] old(w).sent@.push(TransportMessage::Response(a))), failed: final(w).failed, ..*old(w) }),
            _ => r is Ok && *final(w) == *old(w),
        }
//@end
//@fn Server::serve
//@addparam w: &mut World
    requires silent(*old(w))
    ensures served(*final(w)), final(w).failed@ || (final(w).heard@.len() > 0 && final(w).heard@.last() is None), final(w).took@ == old(w).took@, final(w).queued@ == old(w).queued@
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@beforeloop 0
    proof { assert(put(w.asked@) =~= requests(w.heard@)); assert(w.sent@ =~= answers(w.asked@)); }
//@loop 0
    invariant_except_break !w.failed@
    invariant served(*w), w.took@ == old(w).took@, w.queued@ == old(w).queued@
    ensures w.failed@ || (w.heard@.len() > 0 && w.heard@.last() is None)
//@loopstart 0
    let ghost w0 = *w;
    proof {
        lemma_requests(w0.heard@);
        assert forall|x: (RequestId, Request, JSONRPCResponse)| put(#[trigger] w0.asked@.push(x)) == put(w0.asked@).push((x.0, x.1)) && answers(w0.asked@.push(x)) == answers(w0.asked@).push(TransportMessage::Response(x.2)) by {
            assert(put(w0.asked@.push(x)) =~= put(w0.asked@).push((x.0, x.1)));
            assert(answers(w0.asked@.push(x)) =~= answers(w0.asked@).push(TransportMessage::Response(x.2)));
        }
        assert forall|s: Seq<(RequestId, Request)>, x: (RequestId, Request)| #[trigger] (s + seq![x]) == s.push(x) by { assert(s + seq![x] =~= s.push(x)); }
        assert(requests(w0.heard@) + Seq::<(RequestId, Request)>::empty() =~= requests(w0.heard@));
    }
//@end
//@fn Server::notify mutself
//@addparam w: &mut World
    requires silent(*old(w))
    ensures final(w).sent@ == passed(final(w).took@), final(w).no_more@, final(w).heard@ == old(w).heard@, final(w).asked@ == old(w).asked@
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@beforeloop 0
    proof { assert(w.sent@ =~= passed(w.took@)); }
//@loop 0
    invariant_except_break w.sent@ == passed(w.took@), w.heard@ == old(w).heard@, w.asked@ == old(w).asked@
    ensures w.sent@ == passed(w.took@), w.no_more@, w.heard@ == old(w).heard@, w.asked@ == old(w).asked@
//@loopend 0
    proof { assert(w.sent@ =~= passed(w.took@)); }
//@end
//@fn Server::spawn_notification_handler
//@param transport: RwLock<Wire>
//@addparam w: &mut World
    ensures *final(w) == (World { tasks: Ghost(old(w).tasks@.push(Task::Notify(transport.v.id(), notification_rx.chan()))), ..*old(w) })
//@end
//@fn Server::spawn_message_handler
//@param server: Server
//@param transport: RwLock<Wire>
//@addparam w: &mut World
    ensures *final(w) == (World { tasks: Ghost(old(w).tasks@.push(Task::Serve(transport.v.id(), chan_of(server.notification_tx)))), ..*old(w) })
//@end
//@fn Server::run_main_loop ret=r noprobe
    ensures false
//@attr #[verifier::exec_allows_no_decreases_clause]
//@end
//@fn Server::run ret=r dropgenerics noprobe
//@param transport: Wire
//@addparam w: &mut World
//@start
    let ghost (w0, t0) = (*w, transport.id());
//@before run_main_loop#0
    proof {
        let c = chan_of(server.notification_tx);
        assert(c is Some && w.tasks@.len() == w0.tasks@.len() + 2 && w.tasks@.subrange(0, w0.tasks@.len() as int) =~= w0.tasks@);
        assert(w.tasks@.contains(Task::Notify(t0, c->0)) && w.tasks@.contains(Task::Serve(t0, c))) by {
            let n = w0.tasks@.len() as int;
            let (x, y) = (w.tasks@[n], w.tasks@[n + 1]);
            assert(w.tasks@.contains(x) && w.tasks@.contains(y));
        }
        assert(*w == (World { tasks: w.tasks, ..w0 }));
    }
//@end
//@fn Server::send_notification
//@addparam w: &mut World
    ensures *final(w) == (match self.notification_tx { Some(t) => World { queued: Ghost(old(w).queued@.push((t.chan(), Notification::Server(notification)))), ..*old(w) }, None => *old(w) })
//@end
//@fn Server::announce_root
//@addparam w: &mut World
    ensures *final(w) == (World { queued: Ghost(old(w).queued@.push((tx.chan(), Notification::Server(server_notification)))), ..*old(w) })
//@end
//@fn Server::announce_subscribed
//@addparam w: &mut World
    ensures *final(w) == (World { queued: Ghost(old(w).queued@.push((tx.chan(), Notification::Server(notification)))), ..*old(w) })
//@end
//@fn Server::announce_updated
//@addparam w: &mut World
    ensures *final(w) == (World { queued: Ghost(old(w).queued@.push((tx.chan(), Notification::Server(notification)))), ..*old(w) })
//@end
/// the queue changes are announced on: the running server's, else the one set before
pub open spec fn heard_on(s: Server, before: Option<int>) -> Option<int> { match s.notification_tx { Some(t) => Some(t.chan()), None => before } }
//@fn Server::register_root ret=r mutself
//@addparam w: &mut World
    ensures final(self).roots_manager.v.list() == old(self).roots_manager.v.list(), final(self).roots_manager.v.told() == heard_on(*old(self), old(self).roots_manager.v.told()),
        *final(self) == (Server { roots_manager: final(self).roots_manager, ..*old(self) }),
        *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Register(uri.txt(), name, heard_on(*old(self), old(self).roots_manager.v.told()), r))), ..*old(w) })
//@end
//@fn Server::get_roots ret=r
    ensures r@ == self.roots_manager.v.list()
//@end
//@fn Server::subscribe_resource ret=r mutself
//@addparam w: &mut World
    ensures if uri@.len() == 0 || client_id@.len() == 0 { r is Err && *final(w) == *old(w) && *final(self) == *old(self) } else {
        &&& *final(self) == (Server { subscription_manager: final(self).subscription_manager, ..*old(self) })
        &&& *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Subscribe(uri@, client_id@, heard_on(*old(self), old(self).subscription_manager.v.told()), r))), ..*old(w) })
    }
//@end
//@fn Server::unsubscribe_resource ret=r
//@addparam w: &mut World
    ensures if uri@.len() == 0 || client_id@.len() == 0 { r is Err && *final(w) == *old(w) } else {
        *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Unsubscribe(uri@, client_id@, r))), ..*old(w) })
    }
//@end
//@fn Server::notify_resource_updated ret=r mutself
//@addparam w: &mut World
    ensures *final(self) == (Server { subscription_manager: final(self).subscription_manager, ..*old(self) }),
        *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Updated(uri@, heard_on(*old(self), old(self).subscription_manager.v.told()), r))), ..*old(w) })
//@end
//@fn Server::cancel_request ret=r
//@addparam w: &mut World
    ensures if request_id@.len() == 0 { r is Err && *final(w) == *old(w) } else { *final(w) == (World { calls: Ghost(old(w).calls@.push(Call::Cancel(request_id@, reason, r))), ..*old(w) }) }
//@end
//@extract src/server/mod.rs impl:Server::{notify,serve,announce_root,announce_subscribed,announce_updated,run,spawn_notification_handler,spawn_message_handler,send_notification_through_transport,receive_message_from_transport,handle_transport_message,handle_request_message,run_main_loop,send_notification,register_root,get_roots,subscribe_resource,unsubscribe_resource,notify_resource_updated,cancel_request}
