//@include core.rs
//@include text.rs
//@type str = String
//@type Path = String
//@type PathBuf = String
//@include errctor.rs
//@include float.rs
//@include time.rs
//@include sync.rs
//@include coll.rs
//@type mpsc::Sender<ServerNotification> = Tx<ServerNotification>
//@type mpsc::Sender<FileEvent> = Tx<FileEvent>
//@type mpsc::Receiver<FileEvent> = Rx<FileEvent>
//@type mpsc::Sender<()> = Tx<()>
//@type mpsc::Receiver<()> = Rx<()>
//@type Progress = ProgressNotification
//@call RecommendedWatcher::new = v_notify
//@expr self.resources.clone() => &mut self.resources
//@expr self.pending_events.clone() => &mut self.pending_events
//@expr self.event_rx.clone() => &mut self.event_rx
//@call mpsc::channel = v_channel
//@call tokio::spawn = v_spawn
//@call glob_match::glob_match = v_glob
//@method strip_prefix = v_under
//@method to_string_lossy = v_lossy
//@method display = v_lossy
//@method to_path_buf = v_path
//@method as_ref = v_ref
//@retainloop
//@lift ResourceWatcher::start watch async; base_dir: PathBuf; patterns: Vec<String>; ignore_patterns: Vec<String>; event_tx_clone: Tx<FileEvent>; shutdown_rx: Rx<()>
//@lift ResourceWatcher::start process async; use resources: &mut RwLock<HashMap<String, ResourceInfo>>; use pending_events: &mut RwLock<HashMap<PathBuf, FileEvent>>; use event_rx: &mut RwLock<Option<Rx<FileEvent>>>; notification_tx: Tx<ServerNotification>; debounce: Duration
//@lift ResourceWatcher::watch_filesystem noticed arg res: core::result::Result<Event, NotifyError>; has try_send; tx: Tx<Event>
//@ghostarg v_spawn/1 = w
//@ghostarg v_notify/2 = w
//@ghostarg watch/2 = w
//@ghostarg watch_filesystem/5 = w
//@ghostarg process_events/5 = w
//@ghostarg send/1 = w
//@ghostarg recv/0 = w
//@ghostarg try_recv/0 = w
//@ghostarg try_send/1 = w
//@ghostarg tick/0 = resources
//@ghostarg tick/0 = pending_events
//@ghostarg tick/0 = event_rx
//@ghostarg tick/0 = w
pub type PathBuf = String;
#[verifier::external_body]
pub struct LogMessageParams { x: u8 }
//@extract src/types/protocol.rs enum:ProgressToken struct:ProgressNotification struct:ResourceUpdatedParams enum:ServerNotification struct:ResourceInfo
//@extract src/server/resource_watcher.rs enum:FileEventKind +derive=Clone,Copy
//@extract src/server/resource_watcher.rs struct:WatchConfig struct:FileEvent struct:ResourceWatcher struct:ResourceWatcherBuilder
// ---- the world: what was announced, which file changes were noticed and passed on, the tasks started ----
pub enum Note { Updated(Seq<u8>), Other }
pub enum Task { Watch(Seq<u8>, Seq<Seq<u8>>, Seq<Seq<u8>>, int, int), Process(int) }
pub struct World {
    pub sent: Ghost<Seq<Note>>, pub queue: Ghost<Seq<FileEvent>>,
    pub offered: Ghost<Seq<Event>>, pub seen: Ghost<Seq<Event>>, pub fwd: Ghost<Seq<(int, Seq<u8>, FileEventKind)>>,
    pub tasks: Ghost<Seq<Task>>, pub job: Ghost<Option<Task>>, pub stops: Ghost<Seq<int>>, pub heard: Ghost<bool>,
    pub callback: Ghost<Option<int>>, pub watched: Ghost<Option<(Seq<u8>, bool)>>,
}
// ---- the notify crate (external): kinds of event, the watcher ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct AccessKind { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CreateKind { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ModifyKind { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct RemoveKind { x: u8 }
pub enum EventKind { Any, Access(AccessKind), Create(CreateKind), Modify(ModifyKind), Remove(RemoveKind), Other }
pub struct Event { pub kind: EventKind, pub paths: Vec<PathBuf> }
#[verifier::external_body]
pub struct NotifyError { x: u8 }
impl VDisp for NotifyError { uninterp spec fn disp(&self) -> Seq<u8>; }
pub enum RecursiveMode { Recursive, NonRecursive }
#[verifier::external_body]
pub struct Config { x: u8 }
impl Config { #[verifier::external_body] pub fn default() -> Config { unimplemented!() } }
#[verifier::external_body]
pub struct RecommendedWatcher { x: u8 }
#[verifier::external_body]
pub fn v_notify(f: (Tx<Event>,), c: Config, w: &mut World) -> (r: core::result::Result<RecommendedWatcher, NotifyError>)
    ensures *final(w) == (World { callback: Ghost(Some(f.0.chan())), ..*old(w) })
{ unimplemented!() }
impl RecommendedWatcher {
    #[verifier::external_body]
    pub fn watch(&mut self, p: &PathBuf, m: RecursiveMode, w: &mut World) -> (r: core::result::Result<(), NotifyError>)
        ensures *final(w) == (World { watched: Ghost(if r is Ok { Some((p@, m is Recursive)) } else { old(w).watched@ }), ..*old(w) })
    { unimplemented!() }
}
// ---- tokio channels (external) ----
#[verifier::external_body]
pub struct SendError { x: u8 }
impl VDisp for SendError { uninterp spec fn disp(&self) -> Seq<u8>; }
pub trait VMsg: Sized {
    spec fn fit(&self) -> bool;
    /// what the world looks like once it is in the channel
    spec fn put(w: World, chan: int, x: Self) -> World;
    spec fn taken(w: World, x: Option<Self>) -> World;
}
impl VMsg for () {
    open spec fn fit(&self) -> bool { true }
    open spec fn put(w: World, chan: int, x: Self) -> World { World { stops: Ghost(w.stops@.push(chan)), ..w } }
    open spec fn taken(w: World, x: Option<Self>) -> World { World { heard: Ghost(true), ..w } }
}
impl VMsg for ServerNotification {
    open spec fn fit(&self) -> bool { true }
    open spec fn put(w: World, chan: int, x: Self) -> World { World { sent: Ghost(w.sent@.push(note(x))), ..w } }
    open spec fn taken(w: World, x: Option<Self>) -> World { w }
}
impl VMsg for Event {
    open spec fn fit(&self) -> bool { true }
    open spec fn put(w: World, chan: int, x: Self) -> World { World { offered: Ghost(w.offered@.push(x)), ..w } }
    open spec fn taken(w: World, x: Option<Self>) -> World { match x { Some(e) => World { seen: Ghost(w.seen@.push(e)), ..w }, None => w } }
}
impl VMsg for FileEvent {
    open spec fn fit(&self) -> bool { is_now(self.timestamp@) }
    open spec fn put(w: World, chan: int, x: Self) -> World { World { fwd: Ghost(w.fwd@.push((chan, x.path@, x.kind))), ..w } }
    open spec fn taken(w: World, x: Option<Self>) -> World { w }
}
pub open spec fn note(n: ServerNotification) -> Note { match n { ServerNotification::ResourceUpdated(p) => Note::Updated(p.uri@), _ => Note::Other } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Tx<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Rx<T> { x: core::marker::PhantomData<T> }
impl<T: VMsg> Tx<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// an error says that nobody receives any more: what was sent then does not matter
    #[verifier::external_body]
    pub fn send(&self, x: T, w: &mut World) -> (r: core::result::Result<(), SendError>) requires x.fit() ensures *final(w) == T::put(*old(w), self.chan(), x) { unimplemented!() }
    /// an error says that the channel is full or nobody receives any more
    #[verifier::external_body]
    pub fn try_send(&self, x: T, w: &mut World) -> (r: core::result::Result<(), SendError>) requires x.fit() ensures *final(w) == T::put(*old(w), self.chan(), x) { unimplemented!() }
}
impl<T: VMsg> Rx<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// None says that nobody sends any more
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut World) -> (r: Option<T>) ensures *final(w) == T::taken(*old(w), r), final(self).chan() == old(self).chan() { unimplemented!() }
}
impl Rx<FileEvent> {
    #[verifier::external_body]
    pub fn try_recv(&mut self, w: &mut World) -> (r: core::result::Result<FileEvent, SendError>)
        ensures final(self).chan() == old(self).chan(), match r {
            Ok(e) => old(w).queue@.len() > 0 && e == old(w).queue@[0] && *final(w) == (World { queue: Ghost(old(w).queue@.skip(1)), ..*old(w) }),
            Err(_) => old(w).queue@.len() == 0 && *final(w) == *old(w),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_channel<T: VMsg>(n: usize) -> (r: (Tx<T>, Rx<T>)) requires n > 0 ensures r.0.chan() == r.1.chan() { unimplemented!() }
pub trait VTask { spec fn task(&self) -> Task; }
impl VTask for (PathBuf, Vec<String>, Vec<String>, Tx<FileEvent>, Rx<()>) { open spec fn task(&self) -> Task { Task::Watch(self.0@, texts(self.1@), texts(self.2@), self.3.chan(), self.4.chan()) } }
impl VTask for (Tx<ServerNotification>, Duration) { open spec fn task(&self) -> Task { Task::Process(self.1@) } }
#[verifier::external_body]
pub fn v_spawn<C: VTask>(c: C, w: &mut World) ensures *final(w) == (World { tasks: Ghost(old(w).tasks@.push(c.task())), ..*old(w) }) { unimplemented!() }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|x: String| x@) }
#[verifier::external_body]
pub struct Interval { x: u8 }
#[verifier::external_body]
pub fn interval(d: Duration) -> (r: Interval) requires d@ > 0 { unimplemented!() }
impl Interval {
    /// until the next tick others use the watcher
    #[verifier::external_body]
    pub fn tick(&mut self, resources: &mut RwLock<HashMap<String, ResourceInfo>>, pending: &mut RwLock<HashMap<PathBuf, FileEvent>>, rx: &mut RwLock<Option<Rx<FileEvent>>>, w: &mut World) { unimplemented!() }
}
/// which branch of a `select!` completes first is not known
#[verifier::external_body]
pub fn v_ready(n: usize) -> bool { unimplemented!() }
// ---- paths (external: std::path, glob_match) ----
pub uninterp spec fn path_text(p: Seq<u8>) -> Seq<u8>;
/// the part of p below b, when p is b or below it
pub uninterp spec fn under(p: Seq<u8>, b: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn glob(pat: Seq<u8>, s: Seq<u8>) -> bool;
pub trait VPath {
    fn v_lossy(&self) -> (r: String);
    fn v_path(&self) -> (r: PathBuf);
    fn v_ref(&self) -> (r: &Self);
    fn v_under(&self, b: &PathBuf) -> (r: core::result::Result<PathBuf, SendError>);
}
impl VPath for String {
    #[verifier::external_body]
    fn v_lossy(&self) -> (r: String) ensures r@ == path_text(self@) { unimplemented!() }
    #[verifier::external_body]
    fn v_path(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn v_ref(&self) -> (r: &Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn v_under(&self, b: &PathBuf) -> (r: core::result::Result<PathBuf, SendError>)
        ensures match under(self@, b@) { Some(q) => r is Ok && r->Ok_0@ == q, None => r is Err }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_glob(p: &String, s: &String) -> (r: bool) ensures r == glob(p@, s@) { unimplemented!() }
// ---- which files, and what is said about them ----
pub open spec fn any_glob(pats: Seq<Seq<u8>>, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < pats.len() && glob(#[trigger] pats[i], s) }
pub open spec fn wanted(p: Seq<u8>, base: Seq<u8>, pats: Seq<Seq<u8>>, ign: Seq<Seq<u8>>) -> bool {
    match under(p, base) { Some(q) => !any_glob(ign, path_text(q)) && any_glob(pats, path_text(q)), None => false }
}
pub open spec fn kind_of(k: EventKind) -> Option<FileEventKind> {
    match k { EventKind::Create(_) => Some(FileEventKind::Created), EventKind::Modify(_) => Some(FileEventKind::Modified), EventKind::Remove(_) => Some(FileEventKind::Deleted), _ => None }
}
pub struct Watch { pub base: Seq<u8>, pub pats: Seq<Seq<u8>>, pub ign: Seq<Seq<u8>>, pub chan: int }
/// the first n paths of one event, those that are wanted
pub open spec fn passed(x: Watch, k: FileEventKind, ps: Seq<PathBuf>, n: int) -> Seq<(int, Seq<u8>, FileEventKind)> decreases n {
    if n <= 0 { Seq::empty() } else if wanted(ps[n - 1]@, x.base, x.pats, x.ign) { passed(x, k, ps, n - 1).push((x.chan, ps[n - 1]@, k)) } else { passed(x, k, ps, n - 1) }
}
pub open spec fn passed1(x: Watch, e: Event) -> Seq<(int, Seq<u8>, FileEventKind)> {
    match kind_of(e.kind) { Some(k) => passed(x, k, e.paths@, e.paths@.len() as int), None => Seq::empty() }
}
pub open spec fn passed_all(x: Watch, es: Seq<Event>) -> Seq<(int, Seq<u8>, FileEventKind)> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { passed_all(x, es.drop_last()) + passed1(x, es.last()) }
}
pub open spec fn file_uri(p: Seq<u8>) -> Seq<u8> { S("file://") + path_text(p) }
pub open spec fn listed(r: Map<String, ResourceInfo>, u: Seq<u8>) -> bool { exists|x: String| x@ == u && #[trigger] r.contains_key(x) }
/// what is announced for the first n of these files
pub open spec fn told(r: Map<String, ResourceInfo>, ks: Seq<PathBuf>, n: int) -> Seq<Note> decreases n {
    if n <= 0 { Seq::empty() } else if listed(r, file_uri(ks[n - 1]@)) { told(r, ks, n - 1).push(Note::Updated(file_uri(ks[n - 1]@))) } else { told(r, ks, n - 1) }
}
/// the last event of each file counts
pub open spec fn put_all(m: Map<PathBuf, FileEvent>, q: Seq<FileEvent>) -> Map<PathBuf, FileEvent> decreases q.len() {
    if q.len() == 0 { m } else { put_all(m.insert(q[0].path, q[0]), q.skip(1)) }
}
pub open spec fn since(now: int, t: int) -> int { if now > t { now - t } else { 0 } }
pub open spec fn due(now: int, d: int, e: FileEvent) -> bool { since(now, e.timestamp@) >= d }
pub open spec fn once(ks: Seq<PathBuf>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j] }
/// after one tick: what is due is pending no more and announced if it is listed, each file once; the rest waits
pub open spec fn ticked(d: int, r: Map<String, ResourceInfo>, m: Map<PathBuf, FileEvent>, q: Seq<FileEvent>, after: Map<PathBuf, FileEvent>, a: World, b: World) -> bool {
    exists|ks: Seq<PathBuf>, now: int| is_now(now) && #[trigger] announced(r, put_all(m, q), after, a, b, ks) && #[trigger] only_due(now, d, put_all(m, q), ks)
}
pub open spec fn announced(r: Map<String, ResourceInfo>, m: Map<PathBuf, FileEvent>, after: Map<PathBuf, FileEvent>, a: World, b: World, ks: Seq<PathBuf>) -> bool {
    &&& once(ks) && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]))
    &&& after == m.remove_keys(ks.to_set())
    &&& b.sent@ == a.sent@ + told(r, ks, ks.len() as int)
}
pub open spec fn only_due(now: int, d: int, m: Map<PathBuf, FileEvent>, ks: Seq<PathBuf>) -> bool {
    forall|k: PathBuf| #[trigger] m.contains_key(k) ==> ks.contains(k) == due(now, d, m[k])
}
pub open spec fn decided(now: int, d: int, m: Map<PathBuf, FileEvent>, kk: Seq<PathBuf>, n: int, ks: Seq<PathBuf>) -> bool {
    &&& once(ks) && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]))
    &&& forall|j: int| 0 <= j < kk.len() ==> ks.contains(#[trigger] kk[j]) == (j < n && due(now, d, m[kk[j]]))
}
proof fn lemma_push_set(ks: Seq<PathBuf>, k: PathBuf) ensures ks.push(k).to_set() =~= ks.to_set().insert(k) {
    assert forall|x: PathBuf| ks.push(k).contains(x) == (ks.contains(x) || x == k) by {
        if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(ks.push(k)[i] == x); }
        assert(ks.push(k)[ks.len() as int] == k);
    }
}
proof fn lemma_decided(now: int, d: int, m: Map<PathBuf, FileEvent>, kk: Seq<PathBuf>, n: int, a: Seq<PathBuf>, b: Seq<PathBuf>)
    requires lists_o(kk, m), 0 < n <= kk.len(), decided(now, d, m, kk, n - 1, a), b == (if due(now, d, m[kk[n - 1]]) { a.push(kk[n - 1]) } else { a })
    ensures decided(now, d, m, kk, n, b)
{
    let k = kk[n - 1];
    assert(!a.contains(k));
    assert forall|j: int| 0 <= j < kk.len() implies b.contains(#[trigger] kk[j]) == (j < n && due(now, d, m[kk[j]])) by {
        assert(kk[j] == k <==> j == n - 1) by { if j < n - 1 { assert(kk[j] != kk[n - 1]); } else if j > n - 1 { assert(kk[n - 1] != kk[j]); } }
        if due(now, d, m[k]) {
            assert(b[a.len() as int] == k);
            if a.contains(kk[j]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == kk[j]; assert(b[i] == kk[j]); }
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } else { assert(b[i] == k); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } else { assert(b[j] == k); assert(a.contains(a[i])); } }
}
proof fn lemma_only(now: int, d: int, m: Map<PathBuf, FileEvent>, kk: Seq<PathBuf>, ks: Seq<PathBuf>)
    requires lists_o(kk, m), decided(now, d, m, kk, kk.len() as int, ks)
    ensures only_due(now, d, m, ks)
{
    assert forall|k: PathBuf| #[trigger] m.contains_key(k) implies ks.contains(k) == due(now, d, m[k]) by {
        let i = choose|i: int| 0 <= i < kk.len() && #[trigger] kk[i] == k;
        assert(kk[i] == k);
    }
}
pub open spec fn firsts(s: Seq<(PathBuf, FileEventKind)>, ks: Seq<PathBuf>) -> bool { s.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> (#[trigger] s[i]).0 == ks[i] }
pub open spec fn taken_of(rx: Option<Rx<FileEvent>>, q: Seq<FileEvent>) -> Seq<FileEvent> { if rx is Some { q } else { Seq::empty() } }
//@fn process_events noprobe
//@param resources: &mut RwLock<HashMap<String, ResourceInfo>>
//@param pending_events: &mut RwLock<HashMap<PathBuf, FileEvent>>
//@param event_rx: &mut RwLock<Option<Rx<FileEvent>>>
//@addparam w: &mut World
    requires old(w).job@ == Some(Task::Process(debounce@))
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost mut r0 = resources.v@; let ghost mut p0 = pending_events.v@; let ghost mut x0 = event_rx.v; let ghost mut w0 = *w;
    let ghost mut q0 = Seq::<FileEvent>::empty(); let ghost mut m0 = p0; let ghost mut ks = Seq::<PathBuf>::empty(); let ghost mut t0 = 0int;
//@after tick#0
    proof { r0 = resources.v@; p0 = pending_events.v@; x0 = event_rx.v; w0 = *w; q0 = taken_of(event_rx.v, w.queue@); m0 = put_all(p0, q0); ks = Seq::<PathBuf>::empty(); }
//@loop 0
    invariant true
//@loop 1
    invariant_except_break put_all(pending_events.v@, w.queue@) == m0, *w == (World { queue: w.queue, ..w0 }), resources.v@ == r0
    ensures w.queue@.len() == 0, pending_events.v@ == m0, *w == (World { queue: w.queue, ..w0 }), resources.v@ == r0
    decreases w.queue@.len()
//@beforeloop 2
    proof { t0 = now@; assert(pending@ == m0); assert(m0.remove_keys(ks.to_set()) =~= m0); }
//@loop 2
    invariant __it2.wf(), lists_o(__it2.seq(), m0), decided(t0, debounce@, m0, __it2.seq(), __it2.pos() as int, ks), pending@ == m0.remove_keys(ks.to_set()),
        firsts(events_to_process@, ks)
    ensures __it2.pos() == __it2.seq().len()
    decreases __it2.seq().len() - __it2.pos()
//@loopend 2
    proof {
        let k0 = ks;
        if events_to_process@.len() > ks.len() { ks = ks.push(__k2); lemma_push_set(k0, __k2); }
        assert(pending@ =~= m0.remove_keys(ks.to_set()));
        lemma_decided(t0, debounce@, m0, __it2.seq(), __it2.pos() as int, k0, ks);
    }
//@afterloop 2
    proof { lemma_only(t0, debounce@, m0, __it2.seq(), ks); }
//@beforeloop 3
    proof { assert(w0.sent@ + Seq::<Note>::empty() =~= w0.sent@); }
//@loop 3
    invariant __it3.wf(), __it3.seq() == events_to_process@, w.sent@ == w0.sent@ + told(r0, ks, __it3.pos() as int)
    ensures __it3.pos() == __it3.seq().len()
    decreases __it3.seq().len() - __it3.pos()
//@loopend 3
    proof { assert(w.sent@ =~= w0.sent@ + told(r0, ks, __it3.pos() as int)); }
//@loopend 0
    proof { assert(announced(r0, m0, pending_events.v@, w0, *w, ks)); assert(ticked(debounce@, r0, p0, q0, pending_events.v@, w0, *w)); assert(resources.v@ == r0); }
//@end
//@fn ResourceWatcher::new ret=r
//@param base_dir: PathBuf
    ensures r.config == config, r.base_dir@ == base_dir@, r.notification_tx == notification_tx, r.shutdown_tx is None, r.resources.v@ == Map::<String, ResourceInfo>::empty(), r.pending_events.v@ == Map::<PathBuf, FileEvent>::empty(), r.event_rx.v is None
//@end
//@fn ResourceWatcher::start ret=r mutself
//@addparam w: &mut World
    ensures r is Ok, final(self).shutdown_tx is Some, final(self).event_rx.v is Some,
        *final(self) == (ResourceWatcher { shutdown_tx: final(self).shutdown_tx, event_rx: final(self).event_rx, ..*old(self) }),
        *final(w) == (World { tasks: Ghost(old(w).tasks@.push(Task::Watch(old(self).base_dir@, texts(old(self).config.patterns@), texts(old(self).config.ignore_patterns@), final(self).event_rx.v->0.chan(), final(self).shutdown_tx->0.chan())).push(Task::Process(old(self).config.debounce@))), ..*old(w) })
//@end
//@fn ResourceWatcher::watch mutself
//@addparam w: &mut World
    requires old(w).seen@.len() == 0, old(w).fwd@.len() == 0, !old(w).heard@
    ensures final(w).heard@ ==> watched_all(Watch { base: base_dir@, pats: texts(patterns@), ign: texts(ignore_patterns@), chan: event_tx_clone.chan() }, *final(w))
//@end
//@fn ResourceWatcher::process
//@addparam w: &mut World
    requires old(w).job@ == Some(Task::Process(debounce@))
//@end
//@fn ResourceWatcher::noticed
//@addparam w: &mut World
    ensures *final(w) == (match res { Ok(e) => World { offered: Ghost(old(w).offered@.push(e)), ..*old(w) }, Err(_) => *old(w) })
//@end
//@fn ResourceWatcher::stop mutself
//@addparam w: &mut World
    ensures *final(self) == (ResourceWatcher { shutdown_tx: None, ..*old(self) }),
        *final(w) == (World { stops: Ghost(match old(self).shutdown_tx { Some(t) => old(w).stops@.push(t.chan()), None => old(w).stops@ }), ..*old(w) })
//@end
//@fn ResourceWatcher::add_resource ret=r mutself
    requires old(self).resources.v@.dom().len() <= old(self).config.max_resources
    ensures r is Ok, *final(self) == (ResourceWatcher { resources: final(self).resources, ..*old(self) }),
        final(self).resources.v@ == (if old(self).resources.v@.dom().len() < old(self).config.max_resources || old(self).resources.v@.contains_key(uri) { old(self).resources.v@.insert(uri, info) } else { old(self).resources.v@ }),
        final(self).resources.v@.dom().len() <= final(self).config.max_resources
//@end
//@fn ResourceWatcher::remove_resource ret=r mutself
    ensures r is Ok, *final(self) == (ResourceWatcher { resources: final(self).resources, ..*old(self) }), final(self).resources.v@ == old(self).resources.v@.remove(*uri)
//@end
//@fn ResourceWatcher::get_resources ret=r
    ensures exists|ks: Seq<String>, s: Seq<&ResourceInfo>| #[trigger] lists_v(s, ks, self.resources.v@) && r@ == derefs(s)
//@end
/// everything noticed below the directory is passed on as wanted, in order
pub open spec fn watched_all(x: Watch, w: World) -> bool {
    w.watched@ == Some((x.base, true)) && w.callback@ is Some && w.fwd@ == passed_all(x, w.seen@)
}
proof fn lemma_seen(x: Watch, s: Seq<Event>)
    ensures forall|e: Event| passed_all(x, #[trigger] s.push(e)) == passed_all(x, s) + passed1(x, e), forall|e: Event| kind_of(e.kind) is None ==> passed_all(x, #[trigger] s.push(e)) == passed_all(x, s)
{
    assert forall|e: Event| passed_all(x, #[trigger] s.push(e)) == passed_all(x, s) + passed1(x, e) by { assert(s.push(e).drop_last() =~= s); }
    assert(passed_all(x, s) + Seq::<(int, Seq<u8>, FileEventKind)>::empty() =~= passed_all(x, s));
}
//@fn ResourceWatcher::watch_filesystem ret=r
//@addparam w: &mut World
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires old(w).seen@.len() == 0, old(w).fwd@.len() == 0, !old(w).heard@
    ensures final(w).heard@ == (r is Ok), r is Ok ==> watched_all(Watch { base: base_dir@, pats: texts(patterns@), ign: texts(ignore_patterns@), chan: event_tx.chan() }, *final(w))
//@start
    let ghost x = Watch { base: base_dir@, pats: texts(patterns@), ign: texts(ignore_patterns@), chan: event_tx.chan() };
    let ghost mut f0 = w.fwd@; let ghost mut w1 = *w;
//@loop 0
    invariant_except_break !w.heard@
    invariant w.callback@ == Some(rx.chan()), w.watched@ == Some((x.base, true)), w.fwd@ == passed_all(x, w.seen@)
    ensures w.heard@
//@beforeloop 0
    proof { assert(w.fwd@ =~= passed_all(x, w.seen@)); }
//@loopstart 0
    proof { lemma_seen(x, w.seen@); }
//@beforeloop 1
    let ghost ev = w.seen@.last();
    proof { f0 = w.fwd@; w1 = *w; assert(f0 + Seq::<(int, Seq<u8>, FileEventKind)>::empty() =~= f0); }
//@loop 1
    invariant __it1.wf(), __it1.seq() == ev.paths@, *w == (World { fwd: w.fwd, ..w1 }), w.fwd@ == f0 + passed(x, kind, ev.paths@, __it1.pos() as int)
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@loopend 1
    proof { assert(w.fwd@ =~= f0 + passed(x, kind, ev.paths@, __it1.pos() as int)); }
//@end
//@fn ResourceWatcher::matches_patterns ret=r
    ensures r == wanted(path@, base_dir@, texts(patterns@), texts(ignore_patterns@))
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 0
    invariant __it0.wf(), __it0.seq() == ignore_patterns@, forall|i: int| 0 <= i < __it0.pos() ==> !glob(#[trigger] texts(ignore_patterns@)[i], path_str@)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { assert(texts(ignore_patterns@)[__it0.pos() as int - 1] == pattern@); }
//@loopstart 1
    proof { assert(texts(patterns@)[__it1.pos() as int - 1] == pattern@); }
//@loop 1
    invariant __it1.wf(), __it1.seq() == patterns@, forall|i: int| 0 <= i < __it1.pos() ==> !glob(#[trigger] texts(patterns@)[i], path_str@)
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@end
pub open spec fn default_config(c: WatchConfig) -> bool {
    &&& c.debounce@ == ms(500) && c.max_resources == 10000
    &&& texts(c.patterns@) =~= seq![S("**/*")]
    &&& texts(c.ignore_patterns@) =~= seq![S("**/.git/**"), S("**/node_modules/**"), S("**/.DS_Store"), S("**/target/**")]
}
//@fn WatchConfig::default ret=r
    ensures default_config(r)
//@end
//@fn ResourceWatcherBuilder::new ret=r
    ensures r.base_dir is None, default_config(r.config)
//@end
//@fn ResourceWatcherBuilder::base_dir ret=r
    ensures r.base_dir is Some, r.base_dir->0@ == dir@, r.config == self.config
//@end
//@fn ResourceWatcherBuilder::debounce ret=r
    ensures r == (ResourceWatcherBuilder { config: WatchConfig { debounce: duration, ..self.config }, ..self })
//@end
//@fn ResourceWatcherBuilder::pattern ret=r
    ensures texts(r.config.patterns@) =~= texts(self.config.patterns@).push(pattern.txt()), r == (ResourceWatcherBuilder { config: WatchConfig { patterns: r.config.patterns, ..self.config }, ..self })
//@end
//@fn ResourceWatcherBuilder::ignore ret=r
    ensures texts(r.config.ignore_patterns@) =~= texts(self.config.ignore_patterns@).push(pattern.txt()), r == (ResourceWatcherBuilder { config: WatchConfig { ignore_patterns: r.config.ignore_patterns, ..self.config }, ..self })
//@end
//@fn ResourceWatcherBuilder::max_resources ret=r
    ensures r == (ResourceWatcherBuilder { config: WatchConfig { max_resources: max, ..self.config }, ..self })
//@end
//@fn ResourceWatcherBuilder::build ret=r
    ensures match self.base_dir {
        Some(b) => r is Ok && r->Ok_0.base_dir@ == b@ && r->Ok_0.config == self.config && r->Ok_0.notification_tx == notification_tx && r->Ok_0.shutdown_tx is None && r->Ok_0.resources.v@ == Map::<String, ResourceInfo>::empty(),
        None => r is Err && proto(r->Err_0, -32602, S("Base directory not specified")),
    }
//@end
//@extract src/server/resource_watcher.rs fn:process_events impl:WatchConfig::{default} impl:ResourceWatcher::{new,watch,process,noticed,start,stop,add_resource,remove_resource,get_resources,watch_filesystem,matches_patterns} impl:ResourceWatcherBuilder::{new,base_dir,debounce,pattern,ignore,max_resources,build}
