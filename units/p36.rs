//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include float.rs
//@include time.rs
//@type mpsc::Sender<TransportMessage> = Tx<TransportMessage>
//@type mpsc::Receiver<TransportMessage> = Rx<TransportMessage>
//@type Arc<Mutex<Option<mpsc::Receiver<TransportMessage>>>> = Mutex<Option<Rx<TransportMessage>>>
//@type Arc<Mutex<Option<mpsc::Sender<TransportMessage>>>> = Mutex<Option<Tx<TransportMessage>>>
//@type mpsc::Sender<Message> = Tx<WsMessage>
//@type mpsc::Receiver<Message> = Rx<WsMessage>
//@type Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>> = Mutex<Rx<TransportMessage>>
//@type Message = WsMessage
//@call AsyncMutex::new = RwLock::new
//@call tokio::time::sleep = sleep
//@call serde_json::from_str = v_json
//@call crate::error::TransportError::from = v_ws_err
//@call TransportError::from = v_ws_err
//@expr "ws://localhost:8080".parse().expect("Valid default URL") => v_default_url()
//@expr "127.0.0.1:9001".parse().expect("Valid default address") => v_default_addr()
//@lift WebSocketTransport::connect_once reader async; stream: Source; message_tx: Tx<TransportMessage>
//@lift WebSocketTransport::connect_once writer async; sink: Sink; write_rx: Rx<WsMessage>
//@lift WebSocketTransport::connect_once ping async; ping_interval: Duration; write_tx: Tx<WsMessage>
//@call protocol::WebSocketConfig::default = WsConfig::default
//@call Message::Frame = WsMessage::Frame
//@call Message::Text = WsMessage::Text
//@call Message::Pong = WsMessage::Pong
//@call Message::Ping = WsMessage::Ping
//@call Message::Binary = WsMessage::Binary
//@call Message::Close = WsMessage::Close
//@call mpsc::channel = v_channel
//@call tokio::spawn = v_spawn
//@call TcpListener::bind = v_bind
//@call String::from_utf8 = v_from_utf8
//@call crate::shared::stdio::StdioTransport::parse_message = parse_message
//@call crate::shared::stdio::StdioTransport::serialize_message = serialize_message
//@method split = v_halves
//@method to_vec = v_bytes
//@lift WebSocketServerTransport::accept write async; outgoing_rx: Rx<TransportMessage>; pong_rx: Rx<Vec<u8>>; ws_sink: Sink
//@lift WebSocketServerTransport::accept read async; ws_stream: Source; incoming_tx: Tx<TransportMessage>; pong_tx: Tx<Vec<u8>>
//@ghostarg v_spawn/1 = w
//@ghostarg send/1 = w
//@ghostarg recv/0 = w
//@ghostarg next/0 = w
//@ghostarg tick/0 = w
//@ghostarg sleep/1 = w
//@ghostarg connect_async/1 = w
//@ghostarg connect_once/0 = w
//@ghostarg connect_with_retry/0 = w
//@extract src/server/transport/websocket.rs struct:WebSocketServerConfig struct:WebSocketServerTransport struct:WebSocketServerBuilder
//@extract src/shared/websocket.rs struct:WebSocketConfig struct:WebSocketTransport enum:ConnectionState

// ---- the world: what was taken from the queues and sent over the socket, what was read from it and passed on, the tasks started ----
/// the frame forms of the protocol (tungstenite)
pub enum Frame { Text(Seq<u8>), Binary(Seq<u8>), Ping(Seq<u8>), Pong(Seq<u8>), Close, Raw }
pub enum Pick { Message(TransportMessage), Answer(Seq<u8>), Frame(Frame) }
pub enum Task { CRead(int, int), CWrite(int, int), Ping(int, int), Write(int, int, int), Read(int, int, int) }
pub struct World {
    pub picked: Ghost<Seq<Pick>>, pub wire: Ghost<Seq<Frame>>, pub failed: Ghost<bool>, pub no_more: Ghost<Set<int>>,
    pub read: Ghost<Seq<Option<Frame>>>, pub over: Ghost<bool>, pub passed: Ghost<Seq<(int, Pick)>>, pub stuck: Ghost<bool>,
    pub tasks: Ghost<Seq<Task>>, pub tries: Ghost<Seq<Seq<u8>>>, pub waits: Ghost<Seq<int>>, pub ticks: Ghost<Seq<int>>,
}
pub trait VBytes { fn v_bytes(&self) -> Vec<u8>; }
impl VBytes for Vec<u8> { #[verifier::external_body] fn v_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub struct CloseFrame { x: u8 }
#[verifier::external_body]
pub struct RawFrame { x: u8 }
pub enum WsMessage { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<CloseFrame>), Frame(RawFrame) }
pub open spec fn frame(m: WsMessage) -> Frame {
    match m { WsMessage::Text(t) => Frame::Text(t@), WsMessage::Binary(t) => Frame::Binary(t@), WsMessage::Ping(t) => Frame::Ping(t@), WsMessage::Pong(t) => Frame::Pong(t@), WsMessage::Close(_) => Frame::Close, WsMessage::Frame(_) => Frame::Raw }
}
impl VDisp for WsError { uninterp spec fn disp(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
impl VDisp for Utf8Error { uninterp spec fn disp(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Socket { x: u8 }
impl Socket { pub uninterp spec fn id(&self) -> int; pub open spec fn limits(&self) -> Limits { limits_of(self.id()) } }
/// the limits of a connection
pub uninterp spec fn limits_of(s: int) -> Limits;
#[verifier::external_body]
pub struct Sink { x: u8 }
#[verifier::external_body]
pub struct Source { x: u8 }
impl Socket {
    #[verifier::external_body]
    pub fn v_halves(self) -> (r: (Sink, Source)) ensures r.0.id() == self.id(), r.1.id() == self.id() { unimplemented!() }
}
impl Sink {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: WsMessage, w: &mut World) -> (r: core::result::Result<(), WsError>)
        ensures final(self).id() == old(self).id(), *final(w) == (World { wire: Ghost(old(w).wire@.push(frame(m))), failed: Ghost(r is Err), ..*old(w) })
    { unimplemented!() }
}
impl Source {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<core::result::Result<WsMessage, WsError>>)
        ensures final(self).id() == old(self).id(), *final(w) == (match r {
            None => World { over: Ghost(true), ..*old(w) },
            Some(Ok(m)) => World { read: Ghost(old(w).read@.push(Some(frame(m)))), ..*old(w) },
            Some(Err(_)) => World { read: Ghost(old(w).read@.push(None)), ..*old(w) },
        })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SocketAddr { x: u8 }
impl VDisp for SocketAddr { uninterp spec fn disp(&self) -> Seq<u8>; }
impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct TcpStream { x: u8 }
impl TcpStream { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub struct TcpListener { x: u8 }
impl TcpListener {
    pub uninterp spec fn at(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn accept(&self) -> (r: core::result::Result<(TcpStream, SocketAddr), WsError>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_bind(a: &SocketAddr) -> (r: core::result::Result<TcpListener, WsError>) ensures match r { Ok(l) => l.at() == *a, Err(_) => true } { unimplemented!() }
/// tungstenite's configuration; the limits the handshake is given
#[verifier::external_body]
pub struct WsConfig { x: u8 }
pub struct Limits { pub message: Option<usize>, pub frame: Option<usize>, pub unmasked: bool }
impl WsConfig {
    pub uninterp spec fn limits(&self) -> Limits;
    #[verifier::external_body]
    pub fn default() -> WsConfig { unimplemented!() }
    #[verifier::external_body]
    pub fn max_message_size(self, n: Option<usize>) -> (r: WsConfig) ensures r.limits() == (Limits { message: n, ..self.limits() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn max_frame_size(self, n: Option<usize>) -> (r: WsConfig) ensures r.limits() == (Limits { frame: n, ..self.limits() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn accept_unmasked_frames(self, b: bool) -> (r: WsConfig) ensures r.limits() == (Limits { unmasked: b, ..self.limits() }) { unimplemented!() }
}
#[verifier::external_body]
pub fn accept_async_with_config(t: TcpStream, c: Option<WsConfig>) -> (r: core::result::Result<Socket, WsError>) ensures r is Ok && c is Some ==> r->Ok_0.limits() == c->0.limits() { unimplemented!() }
/// without a configuration the limits are the library's
#[verifier::external_body]
pub fn accept_async(t: TcpStream) -> (r: core::result::Result<Socket, WsError>) { unimplemented!() }
// ---- what P27 proves of the message forms: reading and writing are functions of the bytes ----
#[verifier::external_body]
pub struct TransportMessage { x: u8 }
pub uninterp spec fn mtext(m: TransportMessage) -> Option<Seq<u8>>;
pub uninterp spec fn mread(s: Seq<u8>) -> Option<TransportMessage>;
pub trait VMb { spec fn mb(&self) -> Seq<u8>; }
impl VMb for &[u8] { open spec fn mb(&self) -> Seq<u8> { self@ } }
impl VMb for &Vec<u8> { open spec fn mb(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn parse_message<B: VMb>(b: B) -> (r: core::result::Result<TransportMessage, Error>) ensures match r { Ok(m) => mread(b.mb()) == Some(m), Err(_) => mread(b.mb()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn serialize_message(m: &TransportMessage) -> (r: core::result::Result<Vec<u8>, Error>) ensures match r { Ok(b) => mtext(*m) == Some(b@) && is_utf8(b@), Err(_) => mtext(*m) is None } { unimplemented!() }
pub uninterp spec fn is_utf8(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn v_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, Utf8Error>) ensures match r { Ok(s) => s@ == b@, Err(_) => !is_utf8(b@) } { unimplemented!() }
// ---- tokio channels (external): first in, first out ----
#[verifier::external_body]
pub struct SendError { x: u8 }
impl VDisp for SendError { uninterp spec fn disp(&self) -> Seq<u8>; }
pub trait VMsg: Sized { spec fn pick(&self) -> Pick; }
impl VMsg for TransportMessage { open spec fn pick(&self) -> Pick { Pick::Message(*self) } }
impl VMsg for WsMessage { open spec fn pick(&self) -> Pick { Pick::Frame(frame(*self)) } }
impl VMsg for Vec<u8> { open spec fn pick(&self) -> Pick { Pick::Answer(self@) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Tx<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Rx<T> { x: core::marker::PhantomData<T> }
impl<T: VMsg> Tx<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// an error says that nobody receives any more
    #[verifier::external_body]
    pub fn send(&self, x: T, w: &mut World) -> (r: core::result::Result<(), SendError>)
        ensures *final(w) == (World { passed: Ghost(old(w).passed@.push((self.chan(), x.pick()))), stuck: Ghost(r is Err), ..*old(w) })
    { unimplemented!() }
}
impl<T: VMsg> Rx<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// None says that nobody sends any more and all was taken
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut World) -> (r: Option<T>)
        ensures final(self).chan() == old(self).chan(), *final(w) == (match r {
            Some(x) => World { picked: Ghost(old(w).picked@.push(x.pick())), ..*old(w) },
            None => World { no_more: Ghost(old(w).no_more@.insert(old(self).chan())), ..*old(w) },
        })
    { unimplemented!() }
}
/// each call makes a channel of its own
#[verifier::external_body]
pub fn v_channel<T: VMsg>(n: usize) -> (r: (Tx<T>, Rx<T>)) requires n > 0 ensures r.0.chan() == r.1.chan() { unimplemented!() }
pub trait VTask { spec fn task(&self) -> Task; spec fn fit(&self) -> bool; }
impl VTask for (Source, Tx<TransportMessage>) { open spec fn task(&self) -> Task { Task::CRead(self.1.chan(), self.0.id()) } open spec fn fit(&self) -> bool { true } }
impl VTask for (Sink, Rx<WsMessage>) { open spec fn task(&self) -> Task { Task::CWrite(self.1.chan(), self.0.id()) } open spec fn fit(&self) -> bool { true } }
impl VTask for (Duration, Tx<WsMessage>) { open spec fn task(&self) -> Task { Task::Ping(self.1.chan(), self.0@) } open spec fn fit(&self) -> bool { self.0@ > 0 } }
impl VTask for (Rx<TransportMessage>, Rx<Vec<u8>>, Sink) { open spec fn task(&self) -> Task { Task::Write(self.0.chan(), self.1.chan(), self.2.id()) } open spec fn fit(&self) -> bool { true } }
impl VTask for (Source, Tx<TransportMessage>, Tx<Vec<u8>>) { open spec fn task(&self) -> Task { Task::Read(self.1.chan(), self.2.chan(), self.0.id()) } open spec fn fit(&self) -> bool { true } }
#[verifier::external_body]
pub fn v_spawn<C: VTask>(c: C, w: &mut World) requires c.fit() ensures *final(w) == (World { tasks: Ghost(old(w).tasks@.push(c.task())), ..*old(w) }) { unimplemented!() }
/// which branch of a `select!` completes first is not known
#[verifier::external_body]
pub fn v_ready(n: usize) -> bool { unimplemented!() }
// ---- what the two tasks do with what they take ----
/// one frame for each message that can be written and each answer, in order
pub open spec fn framed(s: Seq<Pick>) -> Seq<Frame> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { framed(s.drop_last()) + framed1(s.last()) }
}
pub open spec fn framed1(p: Pick) -> Seq<Frame> {
    match p { Pick::Message(m) => match mtext(m) { Some(t) => seq![Frame::Text(t)], None => Seq::empty() }, Pick::Answer(d) => seq![Frame::Pong(d)], Pick::Frame(f) => seq![f] }
}
proof fn lemma_framed(s: Seq<Pick>)
    ensures forall|p: Pick| framed(#[trigger] s.push(p)) == (if framed1(p).len() == 0 { framed(s) } else { framed(s).push(framed1(p)[0]) })
{
    assert(framed(s) + Seq::<Frame>::empty() =~= framed(s));
    assert forall|f: Frame| framed(s) + seq![f] == #[trigger] framed(s).push(f) by { assert(framed(s) + seq![f] =~= framed(s).push(f)); }
    assert forall|p: Pick| framed(#[trigger] s.push(p)) == framed(s) + framed1(p) by { assert(s.push(p).drop_last() =~= s); }
}
/// each text that is a message is passed on, each ping is to be answered, in order; the rest is skipped
pub open spec fn heard(s: Seq<Option<Frame>>, msgs: int, pongs: int) -> Seq<(int, Pick)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { heard(s.drop_last(), msgs, pongs) + heard1(s.last(), msgs, pongs) }
}
pub open spec fn heard1(f: Option<Frame>, msgs: int, pongs: int) -> Seq<(int, Pick)> {
    match f {
        Some(Frame::Text(t)) => match mread(t) { Some(m) => seq![(msgs, Pick::Message(m))], None => Seq::empty() },
        Some(Frame::Ping(d)) => seq![(pongs, Pick::Answer(d))],
        _ => Seq::empty(),
    }
}
proof fn lemma_heard(s: Seq<Option<Frame>>, msgs: int, pongs: int)
    ensures forall|f: Option<Frame>| heard(#[trigger] s.push(f), msgs, pongs) == (if heard1(f, msgs, pongs).len() == 0 { heard(s, msgs, pongs) } else { heard(s, msgs, pongs).push(heard1(f, msgs, pongs)[0]) })
{
    let h = heard(s, msgs, pongs);
    assert(h + Seq::<(int, Pick)>::empty() =~= h);
    assert forall|x: (int, Pick)| h + seq![x] == #[trigger] h.push(x) by { assert(h + seq![x] =~= h.push(x)); }
    assert forall|f: Option<Frame>| heard(#[trigger] s.push(f), msgs, pongs) == heard(s, msgs, pongs) + heard1(f, msgs, pongs) by { assert(s.push(f).drop_last() =~= s); }
}
/// why reading ended: the stream is over, the peer closed, the socket failed, or nobody receives what is passed on
pub open spec fn done_reading(w: World) -> bool {
    w.over@ || w.stuck@ || (w.read@.len() > 0 && (w.read@.last() is None || w.read@.last() == Some(Frame::Close)))
}
//@fn WebSocketServerTransport::write mutself
//@addparam w: &mut World
    requires old(w).picked@.len() == 0, old(w).wire@.len() == 0, !old(w).failed@
    ensures final(w).wire@ == framed(final(w).picked@), final(w).failed@ || (final(w).no_more@.contains(outgoing_rx.chan()) && final(w).no_more@.contains(pong_rx.chan()))
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@beforeloop 0
    proof { assert(w.wire@ =~= framed(w.picked@)); }
    let ghost (c1, c2) = (outgoing_rx.chan(), pong_rx.chan());
//@loop 0
    invariant_except_break !w.failed@
    invariant w.wire@ == framed(w.picked@), outgoing_rx.chan() == c1, pong_rx.chan() == c2
    ensures w.failed@ || (w.no_more@.contains(c1) && w.no_more@.contains(c2))
//@loopstart 0
    proof { lemma_framed(w.picked@); }
//@end
//@fn WebSocketServerTransport::read mutself
//@addparam w: &mut World
    requires old(w).read@.len() == 0, old(w).passed@.len() == 0, !old(w).over@, !old(w).stuck@
    ensures final(w).passed@ == heard(final(w).read@, incoming_tx.chan(), pong_tx.chan()), done_reading(*final(w))
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost mut r0 = w.read@;
//@beforeloop 0
    proof { assert(w.passed@ =~= heard(w.read@, incoming_tx.chan(), pong_tx.chan())); }
//@loop 0
    invariant_except_break !w.stuck@
    invariant w.passed@ == heard(w.read@, incoming_tx.chan(), pong_tx.chan()), r0 == w.read@
    ensures done_reading(*w)
//@loopstart 0
    proof { lemma_heard(r0, incoming_tx.chan(), pong_tx.chan()); r0 = w.read@; }
//@end
pub open spec fn both(s: int, p: int) -> bool { true }
//@fn WebSocketServerTransport::new ret=r
    ensures r.config == config, r.listener is None, r.incoming_rx.v is None, r.outgoing_tx.v is None
//@end
#[verifier::external_body]
pub fn v_default_addr() -> (r: SocketAddr) ensures r == default_addr() { unimplemented!() }
/// 127.0.0.1:9001
pub uninterp spec fn default_addr() -> SocketAddr;
pub open spec fn server_defaults(c: WebSocketServerConfig) -> bool { c.bind_addr == default_addr() && c.max_frame_size == Some(67108864usize) && c.max_message_size == Some(67108864usize) && !c.accept_unmasked_frames }
//@fn WebSocketServerConfig::default ret=r
    ensures server_defaults(r)
//@end
//@fn WebSocketServerTransport::default_server ret=r
    ensures server_defaults(r.config), r.listener is None, r.incoming_rx.v is None, r.outgoing_tx.v is None
//@end
//@fn WebSocketServerBuilder::new ret=r
    ensures server_defaults(r.config)
//@end
//@fn WebSocketServerTransport::bind ret=r
    ensures match r {
        Ok(_) => final(self).listener is Some && final(self).listener->0.at() == old(self).config.bind_addr && *final(self) == (WebSocketServerTransport { listener: final(self).listener, ..*old(self) }),
        Err(_) => *final(self) == *old(self),
    }
//@end
//@fn WebSocketServerTransport::accept ret=r
//@addparam w: &mut World
    ensures old(self).listener is None ==> r is Err, match r {
        Err(_) => *final(self) == *old(self) && *final(w) == *old(w),
        Ok(_) => exists|s: int, p: int| {
            &&& limits_of(s) == (Limits { message: old(self).config.max_message_size, frame: old(self).config.max_frame_size, unmasked: old(self).config.accept_unmasked_frames })
            &&& #[trigger] both(s, p) && final(self).incoming_rx.v is Some && final(self).outgoing_tx.v is Some && *final(self) == (WebSocketServerTransport { incoming_rx: final(self).incoming_rx, outgoing_tx: final(self).outgoing_tx, ..*old(self) })
            &&& final(w).tasks@ == old(w).tasks@.push(Task::Write(final(self).outgoing_tx.v->0.chan(), p, s)).push(Task::Read(final(self).incoming_rx.v->0.chan(), p, s))
            &&& *final(w) == (World { tasks: final(w).tasks, ..*old(w) })
        },
    }
//@tail
    proof { assert(both(w.tasks@.last()->Read_2, w.tasks@.last()->Read_1)); }
//@end
//@fn WebSocketServerTransport::send ret=r
//@addparam w: &mut World
    ensures *final(self) == *old(self), match old(self).outgoing_tx.v {
        None => r is Err && *final(w) == *old(w),
        Some(t) => *final(w) == (World { passed: Ghost(old(w).passed@.push((t.chan(), Pick::Message(message)))), stuck: Ghost(r is Err), ..*old(w) }),
    }
//@end
//@fn WebSocketServerTransport::receive ret=r
//@addparam w: &mut World
    ensures *final(self) == (WebSocketServerTransport { incoming_rx: final(self).incoming_rx, ..*old(self) }), match old(self).incoming_rx.v {
        None => r is Err && *final(w) == *old(w) && final(self).incoming_rx.v is None,
        Some(t) => final(self).incoming_rx.v is Some && final(self).incoming_rx.v->0.chan() == t.chan() && *final(w) == (match r {
            Ok(m) => World { picked: Ghost(old(w).picked@.push(Pick::Message(m))), ..*old(w) },
            Err(_) => World { no_more: Ghost(old(w).no_more@.insert(t.chan())), ..*old(w) },
        }),
    }
//@end
//@fn WebSocketServerTransport::close ret=r
    ensures r is Ok, final(self).incoming_rx.v is None, final(self).outgoing_tx.v is None, *final(self) == (WebSocketServerTransport { incoming_rx: final(self).incoming_rx, outgoing_tx: final(self).outgoing_tx, ..*old(self) })
//@end
//@fn WebSocketServerTransport::is_connected ret=r mutself
    ensures r == (old(self).outgoing_tx.v is Some), *final(self) == *old(self)
//@end
//@fn WebSocketServerBuilder::bind_addr ret=r
    ensures r.config == (WebSocketServerConfig { bind_addr: addr, ..self.config })
//@end
//@fn WebSocketServerBuilder::max_frame_size ret=r
    ensures r.config == (WebSocketServerConfig { max_frame_size: Some(size), ..self.config })
//@end
//@fn WebSocketServerBuilder::max_message_size ret=r
    ensures r.config == (WebSocketServerConfig { max_message_size: Some(size), ..self.config })
//@end
//@fn WebSocketServerBuilder::accept_unmasked_frames ret=r
    ensures r.config == (WebSocketServerConfig { accept_unmasked_frames: accept, ..self.config })
//@end
//@fn WebSocketServerBuilder::build ret=r
    ensures r.config == self.config, r.listener is None, r.incoming_rx.v is None, r.outgoing_tx.v is None
//@end
// ---- the client ----
#[verifier::external_body]
pub struct Url { x: u8 }
impl Url {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub fn v_default_url() -> (r: Url) ensures r.text() == S("ws://localhost:8080") { unimplemented!() }
#[verifier::external_body]
pub struct Handshake { x: u8 }
#[verifier::external_body]
pub fn connect_async(u: &String, w: &mut World) -> (r: core::result::Result<(Socket, Handshake), WsError>) ensures *final(w) == (World { tries: Ghost(old(w).tries@.push(u@)), ..*old(w) }) { unimplemented!() }
pub trait VErr: Sized { spec fn as_err(&self) -> Error; fn v_err(self) -> (r: Error) ensures r == self.as_err(); }
impl VErr for Error { open spec fn as_err(&self) -> Error { *self } fn v_err(self) -> (r: Error) { self } }
impl VErr for TransportError { open spec fn as_err(&self) -> Error { Error::Transport(*self) } fn v_err(self) -> (r: Error) { Error::Transport(self) } }
/// `TransportError: From<tungstenite::Error>` (thiserror)
pub fn v_ws_err(e: WsError) -> (r: TransportError) ensures r == TransportError::WebSocket(e) { TransportError::WebSocket(e) }
impl vstd::std_specs::convert::FromSpecImpl<TransportError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TransportError) -> Error { Error::Transport(v) }
}
impl From<TransportError> for Error { fn from(v: TransportError) -> (r: Error) { Error::Transport(v) } }
/// what P27 and P35 prove of reading: a text that is no JSON is no message
#[verifier::external_body]
pub fn v_json<T>(s: &String) -> (r: core::result::Result<T, WsError>) ensures r is Err ==> mread(s@) is None { unimplemented!() }
/// a wait of more than half of the longest duration (2^64 s) never ends, nor do 2^32 waits
#[verifier::external_body]
pub fn sleep(d: Duration, w: &mut World) ensures *final(w) == (World { waits: Ghost(old(w).waits@.push(d@)), ..*old(w) }), d@ * 2 <= dmax(), old(w).waits@.len() + 2 <= u32::MAX { unimplemented!() }
#[verifier::external_body]
pub struct Interval { x: u8 }
#[verifier::external_body]
pub fn interval(d: Duration) -> (r: Interval) requires d@ > 0 ensures r.every() == d@ { unimplemented!() }
impl Interval {
    /// the time between two ticks
    pub uninterp spec fn every(&self) -> int;
    #[verifier::external_body]
    pub fn tick(&mut self, w: &mut World) ensures final(self).every() == old(self).every(), *final(w) == (World { ticks: Ghost(old(w).ticks@.push(old(self).every())), ..*old(w) }) { unimplemented!() }
}
/// the waits after n failures: the first as configured, each next twice as long but at most the maximum
pub open spec fn delay_no(c: WebSocketConfig, n: int) -> int decreases n {
    if n <= 0 { c.reconnect_delay@ } else { let d = delay_no(c, n - 1) * 2; if c.max_reconnect_delay@ < d { c.max_reconnect_delay@ } else { d } }
}
pub open spec fn delays(c: WebSocketConfig, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| delay_no(c, i)) }
pub open spec fn same_url(u: Seq<u8>, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |i: int| u) }
proof fn lemma_more(c: WebSocketConfig, n: int) requires n >= 0
    ensures same_url(c.url.text(), n).push(c.url.text()) == same_url(c.url.text(), n + 1), delays(c, n).push(delay_no(c, n)) == delays(c, n + 1)
{
    assert(same_url(c.url.text(), n).push(c.url.text()) =~= same_url(c.url.text(), n + 1));
    assert(delays(c, n).push(delay_no(c, n)) =~= delays(c, n + 1));
}
/// the tasks of one connection
pub open spec fn started(t: WebSocketTransport, s: int, c: int) -> Seq<Task> {
    let two = seq![Task::CRead(t.message_tx.chan(), s), Task::CWrite(c, s)];
    match t.config.ping_interval { Some(d) => two.push(Task::Ping(c, d@)), None => two }
}
pub open spec fn config_ok(c: WebSocketConfig) -> bool { c.ping_interval is Some ==> c.ping_interval->0@ > 0 }
pub open spec fn connected(t: WebSocketTransport, u: WebSocketTransport, a: World, b: World) -> bool {
    u.state.v is Connected && u == (WebSocketTransport { state: u.state, ..t }) && exists|s: int, c: int| #[trigger] both(s, c) && b.tasks@ == a.tasks@ + started(t, s, c)
}
//@fn WebSocketConfig::default ret=r
    ensures r.url.text() == S("ws://localhost:8080"), client_defaults(r)
//@end
pub open spec fn client_defaults(r: WebSocketConfig) -> bool {
    r.auto_reconnect && r.reconnect_delay@ == sec(1) && r.max_reconnect_delay@ == sec(60) && r.max_reconnect_attempts is None && r.ping_interval is Some && r.ping_interval->0@ == sec(30) && r.request_timeout@ == sec(30)
}
//@fn WebSocketTransport::new ret=r
    ensures r.config == config, r.state.v is Disconnected, r.message_tx.chan() == r.message_rx.v.chan()
//@end
//@fn WebSocketTransport::with_url ret=r
//@param url: Url
    ensures r is Ok, r->Ok_0.config.url == url, client_defaults(r->Ok_0.config), r->Ok_0.state.v is Disconnected
//@end
//@fn WebSocketTransport::connect_once ret=r mutself tryconv
//@addparam w: &mut World
    requires config_ok(old(self).config)
    ensures final(w).tries@ == old(w).tries@.push(old(self).config.url.text()), *final(w) == (World { tries: final(w).tries, tasks: final(w).tasks, ..*old(w) }), match r {
        Ok(_) => connected(*old(self), *final(self), *old(w), *final(w)),
        Err(e) => e is Transport && e->Transport_0 is WebSocket && !(final(self).state.v is Connected) && final(w).tasks == old(w).tasks && *final(self) == (WebSocketTransport { state: final(self).state, ..*old(self) }),
    }
//@tail
    proof { let k = old(w).tasks@.len() as int; assert(w.tasks@ =~= old(w).tasks@ + started(*self, w.tasks@[k]->CRead_1, w.tasks@[k + 1]->CWrite_0)); assert(both(w.tasks@[k]->CRead_1, w.tasks@[k + 1]->CWrite_0)); }
//@end
//@fn WebSocketTransport::connect_with_retry ret=r mutself
//@addparam w: &mut World
    requires config_ok(old(self).config), old(w).waits@.len() == 0, old(w).tries@.len() == 0
    ensures retried(*old(self), *final(self), *old(w), *final(w), r)
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@beforeloop 0
    proof { assert(w.tries@ =~= same_url(self.config.url.text(), 0)); assert(w.waits@ =~= delays(self.config, 0)); }
//@loop 0
    invariant *self == (WebSocketTransport { state: self.state, ..*old(self) }), *w == (World { tries: w.tries, waits: w.waits, ..*old(w) }), attempts as int == w.waits@.len(), attempts < u32::MAX,
        w.tries@ == same_url(self.config.url.text(), attempts as int), w.waits@ == delays(self.config, attempts as int), delay@ == delay_no(self.config, attempts as int),
        self.config.max_reconnect_attempts is Some ==> attempts == 0 || attempts < self.config.max_reconnect_attempts->0
//@loopstart 0
    proof { lemma_more(self.config, attempts as int); }
//@end
/// connecting tries until it succeeds or all attempts are used up, and waits in between
pub open spec fn retried(t: WebSocketTransport, u: WebSocketTransport, a: World, b: World, r: VResult<()>) -> bool {
    &&& b.tries@.len() > 0 && b.tries@ == same_url(t.config.url.text(), b.tries@.len() as int) && b.waits@ == delays(t.config, b.tries@.len() - 1)
    &&& b == (World { tries: b.tries, waits: b.waits, tasks: b.tasks, ..a })
    &&& t.config.max_reconnect_attempts is Some ==> b.tries@.len() <= 1 || b.tries@.len() <= t.config.max_reconnect_attempts->0
    &&& match r {
        Ok(_) => connected(t, u, a, b),
        Err(_) => !(u.state.v is Connected) && u == (WebSocketTransport { state: u.state, ..t }) && b.tasks == a.tasks && t.config.max_reconnect_attempts is Some && b.tries@.len() >= t.config.max_reconnect_attempts->0,
    }
}
//@fn WebSocketTransport::connect ret=r mutself
//@addparam w: &mut World
    requires config_ok(old(self).config), old(w).waits@.len() == 0, old(w).tries@.len() == 0
    ensures retried(*old(self), *final(self), *old(w), *final(w), r)
//@end
//@fn WebSocketTransport::reader mutself
//@addparam w: &mut World
    requires old(w).read@.len() == 0, old(w).passed@.len() == 0, !old(w).over@, !old(w).stuck@
    ensures final(w).passed@ == delivered(final(w).read@, message_tx.chan()), done_reading(*final(w))
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost mut r0 = w.read@;
//@beforeloop 0
    proof { assert(w.passed@ =~= delivered(w.read@, message_tx.chan())); }
//@loop 0
    invariant_except_break !w.stuck@
    invariant w.passed@ == delivered(w.read@, message_tx.chan()), r0 == w.read@
    ensures done_reading(*w)
//@loopstart 0
    proof { lemma_delivered(r0, message_tx.chan()); r0 = w.read@; }
//@end
/// each text that is a message, in order
pub open spec fn delivered(s: Seq<Option<Frame>>, msgs: int) -> Seq<(int, Pick)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match text_message(s.last()) { Some(m) => delivered(s.drop_last(), msgs).push((msgs, Pick::Message(m))), None => delivered(s.drop_last(), msgs) } }
}
pub open spec fn text_message(f: Option<Frame>) -> Option<TransportMessage> { match f { Some(Frame::Text(t)) => mread(t), _ => None } }
proof fn lemma_delivered(s: Seq<Option<Frame>>, msgs: int)
    ensures forall|f: Option<Frame>| delivered(#[trigger] s.push(f), msgs) == (match text_message(f) { Some(m) => delivered(s, msgs).push((msgs, Pick::Message(m))), None => delivered(s, msgs) })
{
    assert forall|f: Option<Frame>| delivered(#[trigger] s.push(f), msgs) == (match text_message(f) { Some(m) => delivered(s, msgs).push((msgs, Pick::Message(m))), None => delivered(s, msgs) }) by { assert(s.push(f).drop_last() =~= s); }
}
//@fn WebSocketTransport::writer mutself
//@addparam w: &mut World
    requires old(w).picked@.len() == 0, old(w).wire@.len() == 0, !old(w).failed@
    ensures same_frames(final(w).picked@, final(w).wire@), final(w).failed@ || final(w).no_more@.contains(write_rx.chan())
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost c = write_rx.chan();
//@loop 0
    invariant_except_break !w.failed@
    invariant same_frames(w.picked@, w.wire@), write_rx.chan() == c
    ensures w.failed@ || w.no_more@.contains(c)
//@end
pub open spec fn same_frames(s: Seq<Pick>, f: Seq<Frame>) -> bool { s.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] s[i] == Pick::Frame(f[i]) }
//@fn WebSocketTransport::ping mutself
//@addparam w: &mut World
    requires ping_interval@ > 0, old(w).ticks@.len() == 0, old(w).passed@.len() == 0, !old(w).stuck@
    ensures final(w).stuck@, pinged(*final(w), write_tx.chan(), ping_interval@)
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 0
    invariant_except_break !w.stuck@
    invariant pinged(*w, write_tx.chan(), ping_interval@), ticker.every() == ping_interval@
    ensures w.stuck@
//@end
/// one empty ping for each tick, the ticks `d` apart
pub open spec fn pinged(w: World, c: int, d: int) -> bool { w.passed@.len() == w.ticks@.len() && (forall|i: int| 0 <= i < w.ticks@.len() ==> #[trigger] w.ticks@[i] == d) && forall|i: int| 0 <= i < w.passed@.len() ==> #[trigger] w.passed@[i] == (c, Pick::Frame(Frame::Ping(Seq::<u8>::empty()))) }
pub open spec fn is_closed(e: Error) -> bool { e is Transport && e->Transport_0 is ConnectionClosed }
//@fn WebSocketTransport::send ret=r
    ensures *final(self) == *old(self), mtext(message) is None ==> r is Err, mtext(message) is Some && !(old(self).state.v is Connected) ==> r is Err && is_closed(r->Err_0)
//@end
//@fn WebSocketTransport::receive ret=r
//@addparam w: &mut World
    ensures *final(self) == (WebSocketTransport { message_rx: final(self).message_rx, ..*old(self) }), final(self).message_rx.v.chan() == old(self).message_rx.v.chan(), *final(w) == (match r {
        Ok(m) => World { picked: Ghost(old(w).picked@.push(Pick::Message(m))), ..*old(w) },
        Err(_) => World { no_more: Ghost(old(w).no_more@.insert(old(self).message_rx.v.chan())), ..*old(w) },
    }), r is Err ==> is_closed(r->Err_0)
//@end
//@fn WebSocketTransport::close ret=r
    ensures r is Ok, final(self).state.v is Disconnected, *final(self) == (WebSocketTransport { state: final(self).state, ..*old(self) })
//@end
//@fn WebSocketTransport::is_connected ret=r
    ensures r == (self.state.v is Connected)
//@end
//@extract src/server/transport/websocket.rs impl:WebSocketServerConfig::{default} impl:WebSocketServerTransport::{new,default_server,bind,write,read,accept,send,receive,close,is_connected} impl:WebSocketServerBuilder::{new,bind_addr,max_frame_size,max_message_size,accept_unmasked_frames,build}
//@extract src/shared/websocket.rs impl:WebSocketConfig::{default} impl:WebSocketTransport::{new,with_url,connect,connect_with_retry,connect_once,reader,writer,ping,send,receive,close,is_connected}
