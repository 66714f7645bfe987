//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include float.rs
//@include time.rs
//@include sync.rs
//@include coll.rs
//@include mem.rs
//@type f64 = F64
//@type Progress = ProgressNotification
//@type mpsc::Sender<ServerNotification> = NTx
//@type mpsc::Sender<Vec<ServerNotification>> = LTx
//@type mpsc::Sender<()> = STx
//@expr self.pending.clone() => &mut self.pending
//@expr self.batches.clone() => &mut self.batches
//@call mpsc::channel = v_signal
//@call tokio::spawn = v_spawn
//@retainloop
//@lift NotificationDebouncer::start run async; use pending: &mut RwLock<HashMap<String, PendingNotification>>; use output_tx: NTx; config: NotificationDebouncerConfig; shutdown_rx: SRx
//@lift NotificationBatcher::add fire async; use batches_clone: &mut RwLock<HashMap<String, Vec<ServerNotification>>>; use output_tx: LTx; key: String; timeout: Duration
//@expr flush_pending(&pending, &output_tx, &config) => flush_pending(pending, &output_tx, &config, w)
//@expr flush_all(&pending, &output_tx) => flush_all(pending, &output_tx, w)
//@expr flush_all(&self.pending, &self.output_tx) => flush_all(&mut self.pending, &self.output_tx, w)
//@ghostarg v_spawn/1 = w
//@ghostarg send/1 = w
//@ghostarg recv/0 = w
//@ghostarg tick/0 = pending
//@ghostarg tick/0 = w
//@ghostarg sleep/1 = w
#[verifier::external_body]
pub struct LogMessageParams { x: u8 }
//@extract src/types/protocol.rs enum:ProgressToken struct:ProgressNotification struct:ResourceUpdatedParams enum:ServerNotification
//@extract src/server/notification_debouncer.rs struct:NotificationDebouncerConfig struct:NotificationDebouncer struct:PendingNotification struct:NotificationBatcher
// ---- the world: what was put into the output channels, the tasks started, whether stopping was asked for ----
pub enum Task { Flusher(int, NotificationDebouncerConfig), Timer(Seq<u8>, int) }
pub struct World { pub sent: Ghost<Seq<ServerNotification>>, pub lists: Ghost<Seq<Seq<ServerNotification>>>, pub tasks: Ghost<Seq<Task>>, pub stops: Ghost<Seq<int>>, pub slept: Ghost<int>, pub heard: Ghost<bool> }
#[verifier::external_body]
pub struct SendError { x: u8 }
impl VDisp for SendError { uninterp spec fn disp(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct NTx { x: u8 }
impl Clone for NTx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct LTx { x: u8 }
impl Clone for LTx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct STx { x: u8 }
#[verifier::external_body]
pub struct SRx { x: u8 }
impl NTx {
    /// an error says that nobody receives any more: what was sent then does not matter
    #[verifier::external_body]
    pub fn send(&self, n: ServerNotification, w: &mut World) -> (r: core::result::Result<(), SendError>)
        ensures *final(w) == (World { sent: Ghost(old(w).sent@.push(n)), ..*old(w) })
    { unimplemented!() }
}
impl LTx {
    #[verifier::external_body]
    pub fn send(&self, n: Vec<ServerNotification>, w: &mut World) -> (r: core::result::Result<(), SendError>)
        ensures *final(w) == (World { lists: Ghost(old(w).lists@.push(n@)), ..*old(w) })
    { unimplemented!() }
}
impl STx {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn send(&self, n: (), w: &mut World) -> (r: core::result::Result<(), SendError>)
        ensures *final(w) == (World { stops: Ghost(old(w).stops@.push(self.chan())), ..*old(w) })
    { unimplemented!() }
}
impl SRx {
    pub uninterp spec fn chan(&self) -> int;
    /// comes back once stopping was asked for or the debouncer is gone
    #[verifier::external_body]
    pub fn recv(&self, w: &mut World) -> (r: Option<()>) ensures *final(w) == (World { heard: Ghost(true), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_signal<T>(n: usize) -> (r: (STx, SRx)) requires n > 0 ensures r.0.chan() == r.1.chan() { unimplemented!() }
pub trait VTask { spec fn task(&self) -> Task; }
impl VTask for (NotificationDebouncerConfig, SRx) { open spec fn task(&self) -> Task { Task::Flusher(self.1.chan(), self.0) } }
impl VTask for (String, Duration) { open spec fn task(&self) -> Task { Task::Timer(self.0@, self.1@) } }
#[verifier::external_body]
pub fn v_spawn<C: VTask>(c: C, w: &mut World) ensures *final(w) == (World { tasks: Ghost(old(w).tasks@.push(c.task())), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub fn sleep(d: Duration, w: &mut World) ensures *final(w) == (World { slept: Ghost(old(w).slept@ + d@), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub struct Interval { x: u8 }
#[verifier::external_body]
pub fn interval(d: Duration) -> (r: Interval) requires d@ > 0 { unimplemented!() }
impl Interval {
    /// until the next tick others use the debouncer
    #[verifier::external_body]
    pub fn tick(&mut self, pending: &mut RwLock<HashMap<String, PendingNotification>>, w: &mut World) ensures final(w).heard == old(w).heard { unimplemented!() }
}
/// which branch of a `select!` completes first is not known
#[verifier::external_body]
pub fn v_ready(n: usize) -> bool { unimplemented!() }
// ---- groups ----
pub open spec fn key_of(n: ServerNotification) -> Seq<u8> {
    match n {
        ServerNotification::Progress(p) => S("progress:") + dbg_text(p.progress_token),
        ServerNotification::ResourceUpdated(p) => S("resource_updated:") + p.uri@,
        ServerNotification::ResourcesChanged => S("resource_list_changed"),
        ServerNotification::ToolsChanged => S("tool_list_changed"),
        ServerNotification::PromptsChanged => S("prompt_list_changed"),
        ServerNotification::RootsListChanged => S("root_list_changed"),
        ServerNotification::LogMessage(_) => S("log"),
    }
}
pub open spec fn type_of(n: ServerNotification) -> Seq<u8> {
    match n {
        ServerNotification::Progress(_) => S("progress"),
        ServerNotification::ResourceUpdated(_) => S("resources/updated"),
        ServerNotification::ResourcesChanged => S("resources/list_changed"),
        ServerNotification::ToolsChanged => S("tools/list_changed"),
        ServerNotification::PromptsChanged => S("prompts/list_changed"),
        ServerNotification::RootsListChanged => S("roots/list_changed"),
        ServerNotification::LogMessage(_) => S("log"),
    }
}
/// about the same thing: the same kind, and for progress the same token, for an updated resource the same one
pub open spec fn alike(a: ServerNotification, b: ServerNotification) -> bool {
    match (a, b) {
        (ServerNotification::Progress(p), ServerNotification::Progress(q)) => p.progress_token == q.progress_token,
        (ServerNotification::ResourceUpdated(p), ServerNotification::ResourceUpdated(q)) => p.uri@ == q.uri@,
        (ServerNotification::ResourcesChanged, ServerNotification::ResourcesChanged) => true,
        (ServerNotification::ToolsChanged, ServerNotification::ToolsChanged) => true,
        (ServerNotification::PromptsChanged, ServerNotification::PromptsChanged) => true,
        (ServerNotification::RootsListChanged, ServerNotification::RootsListChanged) => true,
        (ServerNotification::LogMessage(_), ServerNotification::LogMessage(_)) => true,
        _ => false,
    }
}
/// the derived Debug text names the variant and quotes the text
#[verifier::external_body]
pub proof fn axiom_dbg_token(a: ProgressToken, b: ProgressToken) requires dbg_text(a) == dbg_text(b) ensures a == b { }
pub open spec fn kind(n: ServerNotification) -> int {
    match n { ServerNotification::Progress(_) => 0, ServerNotification::ResourceUpdated(_) => 1, ServerNotification::ResourcesChanged => 2, ServerNotification::ToolsChanged => 3, ServerNotification::PromptsChanged => 4, ServerNotification::RootsListChanged => 5, ServerNotification::LogMessage(_) => 6 }
}
proof fn lemma_kinds(a: ServerNotification, b: ServerNotification)
    requires key_of(a) == key_of(b)
    ensures kind(a) == kind(b)
{
    // the first letters tell: pro:prog/prom, res…_u/_l, too, roo, log
    assert(letters(key_of(a)) == letters(key_of(b)));
    lemma_letters(a); lemma_letters(b);
}
pub open spec fn letters(k: Seq<u8>) -> int {
    if k[0] == 108 { 6 } else if k[0] == 116 { 3 } else if k[0] == 112 { if k[3] == 103 { 0 } else { 4 } } else if k[1] == 111 { 5 } else if k[9] == 117 { 1 } else { 2 }
}
proof fn lemma_letters(a: ServerNotification) ensures letters(key_of(a)) == kind(a) {
    assert(S("progress:")[0] == 112 && S("progress:")[3] == 103 && S("progress:").len() == 9);
    assert(S("resource_updated:")[0] == 114 && S("resource_updated:")[1] == 101 && S("resource_updated:")[9] == 117 && S("resource_updated:").len() == 17);
    assert(S("resource_list_changed")[0] == 114 && S("resource_list_changed")[1] == 101 && S("resource_list_changed")[9] == 108);
    assert(S("tool_list_changed")[0] == 116);
    assert(S("prompt_list_changed")[0] == 112 && S("prompt_list_changed")[3] == 109);
    assert(S("root_list_changed")[0] == 114 && S("root_list_changed")[1] == 111);
    assert(S("log")[0] == 108);
}
/// one group for what is alike, and only for that
proof fn lemma_groups(a: ServerNotification, b: ServerNotification) ensures (key_of(a) == key_of(b)) == alike(a, b) {
    if key_of(a) == key_of(b) {
        lemma_kinds(a, b);
        match (a, b) {
            (ServerNotification::Progress(p), ServerNotification::Progress(q)) => {
                assert(dbg_text(p.progress_token) =~= key_of(a).skip(9)); assert(dbg_text(q.progress_token) =~= key_of(b).skip(9));
                axiom_dbg_token(p.progress_token, q.progress_token);
            },
            (ServerNotification::ResourceUpdated(p), ServerNotification::ResourceUpdated(q)) => {
                assert(p.uri@ =~= key_of(a).skip(17)); assert(q.uri@ =~= key_of(b).skip(17));
            },
            _ => {},
        }
    }
}
// ---- what is due, and what is then sent ----
pub open spec fn wait_of(c: NotificationDebouncerConfig, k: Seq<u8>, n: ServerNotification) -> int {
    let m = c.type_intervals@;
    if exists|x: String| x@ == k && #[trigger] m.contains_key(x) { m[choose|x: String| x@ == k && #[trigger] m.contains_key(x)]@ }
    else if exists|x: String| x@ == type_of(n) && #[trigger] m.contains_key(x) { m[choose|x: String| x@ == type_of(n) && #[trigger] m.contains_key(x)]@ }
    else { c.default_interval@ }
}
pub open spec fn since(now: int, t: int) -> int { if now > t { now - t } else { 0 } }
pub open spec fn due(c: NotificationDebouncerConfig, now: int, k: Seq<u8>, p: PendingNotification) -> bool {
    since(now, p.last_updated@) >= wait_of(c, k, p.notification) || since(now, p.first_seen@) >= c.max_wait_time@
}
pub open spec fn all(p: PendingNotification) -> Seq<ServerNotification> { seq![p.notification] + p.mergeable@ }
/// everything of the groups ks, one after the other
pub open spec fn cat(ks: Seq<String>, m: Map<String, PendingNotification>) -> Seq<ServerNotification> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { cat(ks.drop_last(), m) + all(m[ks.last()]) }
}
pub open spec fn once(ks: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j] }
pub open spec fn nearly(a: World, b: World, x: Seq<ServerNotification>) -> bool { b == (World { sent: Ghost(a.sent@ + x), ..a }) }
/// the groups ks of m, and no others, are sent whole and are pending no more
pub open spec fn flushed(m: Map<String, PendingNotification>, after: Map<String, PendingNotification>, ks: Seq<String>, a: World, b: World) -> bool {
    &&& once(ks) && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]))
    &&& nearly(a, b, cat(ks, m))
    &&& after == m.remove_keys(ks.to_set())
}
pub open spec fn flushed_due(c: NotificationDebouncerConfig, m: Map<String, PendingNotification>, after: Map<String, PendingNotification>, a: World, b: World) -> bool {
    exists|ks: Seq<String>, now: int| is_now(now) && #[trigger] flushed(m, after, ks, a, b) && #[trigger] only_due(c, now, m, ks)
}
pub open spec fn only_due(c: NotificationDebouncerConfig, now: int, m: Map<String, PendingNotification>, ks: Seq<String>) -> bool {
    forall|k: String| #[trigger] m.contains_key(k) ==> ks.contains(k) == due(c, now, k@, m[k])
}
pub open spec fn flushed_all(m: Map<String, PendingNotification>, after: Map<String, PendingNotification>, a: World, b: World) -> bool {
    exists|ks: Seq<String>| #[trigger] flushed(m, after, ks, a, b) && forall|k: String| #[trigger] m.contains_key(k) ==> ks.contains(k)
}
//@fn notification_key ret=r
    ensures r@ == key_of(*notification)
//@end
//@fn notification_type ret=r
    ensures r@ == type_of(*notification)
//@end
//@fn NotificationDebouncer::new ret=r
    ensures r.config == config, r.output_tx == output_tx, r.pending.v@ == Map::<String, PendingNotification>::empty(), r.shutdown_tx is None
//@end
//@fn NotificationDebouncer::submit ret=r mutself
    requires forall|k: String| #[trigger] old(self).pending.v@.contains_key(k) ==> old(self).pending.v@[k].count < usize::MAX
    ensures r is Ok, *final(self) == (NotificationDebouncer { pending: final(self).pending, ..*old(self) }),
        exists|now: Instant, k: String| is_now(now@) && k@ == key_of(notification) && #[trigger] submitted(old(self).config, old(self).pending.v@, final(self).pending.v@, k, notification, now)
//@start
    let ghost c = self.config; let ghost m0 = self.pending.v@;
//@after now#0
    let ghost k = key; let ghost n = notification;
//@tail
    proof { if m0.contains_key(k) { assert(self.pending.v@ =~= m0.insert(k, self.pending.v@[k])); } assert(submitted(c, m0, self.pending.v@, k, n, now)); }
//@end
pub open spec fn submitted(c: NotificationDebouncerConfig, m: Map<String, PendingNotification>, after: Map<String, PendingNotification>, k: String, n: ServerNotification, now: Instant) -> bool {
    after.contains_key(k) && after == m.insert(k, after[k]) && (if m.contains_key(k) {
        let (p, q) = (m[k], after[k]);
        &&& q.first_seen == p.first_seen && q.last_updated == now && q.count == p.count + 1
        &&& q.notification == (if c.enable_merging { p.notification } else { n })
        &&& q.mergeable@ == (if c.enable_merging && p.mergeable@.len() < c.max_batch_size { p.mergeable@.push(n) } else { p.mergeable@ })
    } else {
        let q = after[k];
        q.notification == n && q.first_seen == now && q.last_updated == now && q.count == 1 && q.mergeable@.len() == 0
    })
}
//@fn flush_pending
//@param pending: &mut RwLock<HashMap<String, PendingNotification>>
//@addparam w: &mut World
    ensures flushed_due(*config, old(pending).v@, final(pending).v@, *old(w), *final(w))
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost m0 = pending.v@; let ghost w0 = *w; let ghost mut ks = Seq::<String>::empty();
    proof { assert(m0.remove_keys(ks.to_set()) =~= m0); }
//@loop 0
    invariant __it0.wf(), lists_o(__it0.seq(), m0), picked(config, now@, m0, __it0.seq(), __it0.pos() as int, ks, pending_map@, to_flush@)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopend 0
    proof {
        let k0 = ks;
        if to_flush@.len() > ks.len() { ks = ks.push(__k0); lemma_push_set(k0, __k0); }
        assert(pending_map@ =~= m0.remove_keys(ks.to_set()));
        lemma_picked(config, now@, m0, __it0.seq(), __it0.pos() as int, k0, ks);
    }
//@afterloop 0
    proof { lemma_only(config, now@, m0, __it0.seq(), ks); assert(ks.subrange(0, 0) =~= Seq::<String>::empty()); assert(w0.sent@ + Seq::<ServerNotification>::empty() =~= w0.sent@); assert(ks.subrange(0, ks.len() as int) =~= ks); }
//@loop 1
    invariant __it1.wf(), __it1.seq() == to_flush@, nearly(w0, *w, cat(ks.subrange(0, __it1.pos() as int), m0))
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@loopstart 1
    let ghost p = pending_notif; let ghost s1 = w.sent@;
    proof { lemma_cat(ks, m0, __it1.pos() as int - 1); }
//@beforeloop 2
    proof { assert(s1.push(p.notification) + p.mergeable@.subrange(0, 0) =~= s1.push(p.notification)); }
//@loop 2
    invariant __it2.wf(), __it2.seq() == p.mergeable@, *w == (World { sent: Ghost(s1.push(p.notification) + p.mergeable@.subrange(0, __it2.pos() as int)), ..w0 })
    ensures __it2.pos() == __it2.seq().len()
    decreases __it2.seq().len() - __it2.pos()
//@loopend 2
    proof { assert(w.sent@ =~= s1.push(p.notification) + p.mergeable@.subrange(0, __it2.pos() as int)); }
//@loopend 1
    proof { assert(w.sent@ =~= w0.sent@ + cat(ks.subrange(0, __it1.pos() as int), m0)); }
//@tail
    proof { assert(only_due(*config, now@, m0, ks)); assert(flushed(m0, pending.v@, ks, w0, *w)); }
//@end
/// what the scan has decided after n of the keys K
pub open spec fn picked(c: &NotificationDebouncerConfig, now: int, m: Map<String, PendingNotification>, kk: Seq<String>, n: int, ks: Seq<String>, left: Map<String, PendingNotification>, out: Seq<PendingNotification>) -> bool {
    &&& left == m.remove_keys(ks.to_set())
    &&& decided(c, now, m, kk, n, ks)
    &&& out.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == m[ks[i]]
}
pub open spec fn decided(c: &NotificationDebouncerConfig, now: int, m: Map<String, PendingNotification>, kk: Seq<String>, n: int, ks: Seq<String>) -> bool {
    &&& once(ks) && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]))
    &&& forall|j: int| 0 <= j < kk.len() ==> ks.contains(#[trigger] kk[j]) == (j < n && due(*c, now, kk[j]@, m[kk[j]]))
}
proof fn lemma_push_set(ks: Seq<String>, k: String) ensures ks.push(k).to_set() =~= ks.to_set().insert(k) {
    assert forall|x: String| ks.push(k).contains(x) == (ks.contains(x) || x == k) by {
        if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(ks.push(k)[i] == x); }
        assert(ks.push(k)[ks.len() as int] == k);
    }
}
proof fn lemma_picked(c: &NotificationDebouncerConfig, now: int, m: Map<String, PendingNotification>, kk: Seq<String>, n: int, a: Seq<String>, b: Seq<String>)
    requires lists_o(kk, m), 0 < n <= kk.len(), decided(c, now, m, kk, n - 1, a), b == (if due(*c, now, kk[n - 1]@, m[kk[n - 1]]) { a.push(kk[n - 1]) } else { a })
    ensures decided(c, now, m, kk, n, b)
{
    let k = kk[n - 1];
    assert(!a.contains(k));
    assert forall|j: int| 0 <= j < kk.len() implies b.contains(#[trigger] kk[j]) == (j < n && due(*c, now, kk[j]@, m[kk[j]])) by {
        assert(kk[j] == k <==> j == n - 1) by { if j < n - 1 { assert(kk[j] != kk[n - 1]); } else if j > n - 1 { assert(kk[n - 1] != kk[j]); } }
        if due(*c, now, k@, m[k]) {
            assert(b[a.len() as int] == k);
            if a.contains(kk[j]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == kk[j]; assert(b[i] == kk[j]); }
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } else { assert(b[i] == k); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } else { assert(b[j] == k); assert(a.contains(a[i])); } }
}
proof fn lemma_only(c: &NotificationDebouncerConfig, now: int, m: Map<String, PendingNotification>, kk: Seq<String>, ks: Seq<String>)
    requires lists_o(kk, m), decided(c, now, m, kk, kk.len() as int, ks)
    ensures only_due(*c, now, m, ks)
{
    assert forall|k: String| #[trigger] m.contains_key(k) implies ks.contains(k) == due(*c, now, k@, m[k]) by {
        let i = choose|i: int| 0 <= i < kk.len() && #[trigger] kk[i] == k;
        assert(kk[i] == k);
    }
}
proof fn lemma_cat(ks: Seq<String>, m: Map<String, PendingNotification>, n: int)
    requires 0 <= n < ks.len()
    ensures cat(ks.subrange(0, n + 1), m) == cat(ks.subrange(0, n), m) + all(m[ks[n]])
{
    assert(ks.subrange(0, n + 1).drop_last() =~= ks.subrange(0, n));
    assert(ks.subrange(0, n + 1).last() == ks[n]);
}
//@fn flush_all
//@param pending: &mut RwLock<HashMap<String, PendingNotification>>
//@addparam w: &mut World
    ensures flushed_all(old(pending).v@, final(pending).v@, *old(w), *final(w)), final(pending).v@ == Map::<String, PendingNotification>::empty()
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost m0 = pending.v@; let ghost w0 = *w;
    let ghost mut kv = Seq::<(String, PendingNotification)>::empty();
//@beforeloop 0
    proof { kv = __it0.seq(); lemma_keys(kv, m0); assert(keys(kv).subrange(0, 0) =~= Seq::<String>::empty()); assert(w0.sent@ + Seq::<ServerNotification>::empty() =~= w0.sent@); assert(keys(kv).subrange(0, kv.len() as int) =~= keys(kv)); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == kv, nearly(w0, *w, cat(keys(kv).subrange(0, __it0.pos() as int), m0))
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p = pending_notif; let ghost s1 = w.sent@;
    proof { lemma_cat(keys(kv), m0, __it0.pos() as int - 1); }
//@beforeloop 1
    proof { assert(s1.push(p.notification) + p.mergeable@.subrange(0, 0) =~= s1.push(p.notification)); }
//@loop 1
    invariant __it1.wf(), __it1.seq() == p.mergeable@, *w == (World { sent: Ghost(s1.push(p.notification) + p.mergeable@.subrange(0, __it1.pos() as int)), ..w0 })
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@loopend 1
    proof { assert(w.sent@ =~= s1.push(p.notification) + p.mergeable@.subrange(0, __it1.pos() as int)); }
//@loopend 0
    proof { assert(w.sent@ =~= w0.sent@ + cat(keys(kv).subrange(0, __it0.pos() as int), m0)); }
//@tail
    proof { assert(flushed(m0, pending.v@, keys(kv), w0, *w)); }
//@end
pub open spec fn keys(kv: Seq<(String, PendingNotification)>) -> Seq<String> { kv.map_values(|x: (String, PendingNotification)| x.0) }
proof fn lemma_keys(kv: Seq<(String, PendingNotification)>, m: Map<String, PendingNotification>)
    requires lists_kv(kv, m)
    ensures once(keys(kv)), forall|k: String| #[trigger] m.contains_key(k) ==> keys(kv).contains(k), forall|i: int| 0 <= i < kv.len() ==> m.contains_key(#[trigger] keys(kv)[i]) && m[keys(kv)[i]] == kv[i].1,
        m.remove_keys(keys(kv).to_set()) =~= Map::<String, PendingNotification>::empty()
{
    assert forall|k: String| #[trigger] m.contains_key(k) implies keys(kv).contains(k) by { let i = choose|i: int| 0 <= i < kv.len() && (#[trigger] kv[i]).0 == k; assert(keys(kv)[i] == k); }
    assert forall|i: int, j: int| 0 <= i < j < keys(kv).len() implies #[trigger] keys(kv)[i] != #[trigger] keys(kv)[j] by { assert(kv[i].0 != kv[j].0); }
}
//@fn NotificationDebouncer::flush ret=r mutself
//@addparam w: &mut World
    ensures r is Ok, *final(self) == (NotificationDebouncer { pending: final(self).pending, ..*old(self) }), flushed_all(old(self).pending.v@, final(self).pending.v@, *old(w), *final(w)), final(self).pending.v@ == Map::<String, PendingNotification>::empty()
//@end
//@fn NotificationDebouncer::stop mutself
//@addparam w: &mut World
    ensures *final(self) == (NotificationDebouncer { shutdown_tx: None, ..*old(self) }),
        *final(w) == (World { stops: Ghost(match old(self).shutdown_tx { Some(t) => old(w).stops@.push(t.chan()), None => old(w).stops@ }), ..*old(w) })
//@end
//@fn NotificationDebouncer::run
//@addparam w: &mut World
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires !old(w).heard@
    ensures final(w).heard@, final(pending).v@ == Map::<String, PendingNotification>::empty()
//@loop 0
    invariant_except_break !w.heard@
    ensures w.heard@
//@after tick#0
    proof { p0 = pending.v@; w0 = *w; }
//@start
    let ghost mut p0 = pending.v@; let ghost mut w0 = *w;
//@loopend 0
    proof { assert(flushed_due(config, p0, pending.v@, w0, *w)); }
//@end
//@fn NotificationDebouncer::start ret=r mutself
//@addparam w: &mut World
    ensures r is Ok, final(self).shutdown_tx is Some, *final(self) == (NotificationDebouncer { shutdown_tx: final(self).shutdown_tx, ..*old(self) }),
        *final(w) == (World { tasks: Ghost(old(w).tasks@.push(Task::Flusher(final(self).shutdown_tx->0.chan(), old(self).config))), ..*old(w) })
//@end
//@fn NotificationBatcher::new ret=r
    ensures r.batches.v@ == Map::<String, Vec<ServerNotification>>::empty(), r.max_batch_size == max_batch_size, r.batch_timeout == batch_timeout, r.output_tx == output_tx
//@end
//@fn NotificationBatcher::add ret=r mutself
//@addparam w: &mut World
    ensures r is Ok, *final(self) == (NotificationBatcher { batches: final(self).batches, ..*old(self) }),
        exists|k: String| k@ == key_of(notification) && #[trigger] added(*old(self), *final(self), k, notification, *old(w), *final(w))
//@start
    let ghost s0 = *self; let ghost n = notification; let ghost w0 = *w;
//@after notification_key#0
    let ghost k = key;
//@tail
    proof { assert(self.batches.v@ =~= s0.batches.v@.insert(k, self.batches.v@[k])); assert(added(s0, *self, k, n, w0, *w)); }
//@end
pub open spec fn held(b: NotificationBatcher, k: String) -> Seq<ServerNotification> { if b.batches.v@.contains_key(k) { b.batches.v@[k]@ } else { Seq::empty() } }
pub open spec fn added(b: NotificationBatcher, c: NotificationBatcher, k: String, n: ServerNotification, v: World, w: World) -> bool {
    let x = held(b, k).push(n);
    c.batches.v@.contains_key(k) && c.batches.v@ == b.batches.v@.insert(k, c.batches.v@[k]) && (if x.len() >= b.max_batch_size {
        held(c, k).len() == 0 && w == (World { lists: Ghost(v.lists@.push(x)), ..v })
    } else {
        // a batch that is not new has its timer already
        held(c, k) == x && (w == (World { tasks: Ghost(v.tasks@.push(Task::Timer(k@, b.batch_timeout@))), ..v }) || (x.len() > 1 && w == v))
    })
}
//@fn NotificationBatcher::fire
//@addparam w: &mut World
    ensures final(batches_clone).v@ == old(batches_clone).v@.remove(key),
        *final(w) == (World { slept: Ghost(old(w).slept@ + timeout@), lists: Ghost(if old(batches_clone).v@.contains_key(key) && old(batches_clone).v@[key]@.len() > 0 { old(w).lists@.push(old(batches_clone).v@[key]@) } else { old(w).lists@ }), ..*old(w) })
//@end
/// every list of the map that is not empty, one after the other
pub open spec fn nonempty(s: Seq<(String, Vec<ServerNotification>)>, n: int) -> Seq<Seq<ServerNotification>> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1].1@.len() > 0 { nonempty(s, n - 1).push(s[n - 1].1@) } else { nonempty(s, n - 1) }
}
//@fn NotificationBatcher::flush ret=r mutself
//@addparam w: &mut World
    ensures r is Ok, *final(self) == (NotificationBatcher { batches: final(self).batches, ..*old(self) }), final(self).batches.v@ == Map::<String, Vec<ServerNotification>>::empty(),
        exists|s: Seq<(String, Vec<ServerNotification>)>| #[trigger] lists_kv(s, old(self).batches.v@) && *final(w) == (World { lists: Ghost(old(w).lists@ + nonempty(s, s.len() as int)), ..*old(w) })//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost w0 = *w;
//@beforeloop 0
    proof { assert(w0.lists@ + Seq::<Seq<ServerNotification>>::empty() =~= w0.lists@); }
//@loop 0
    invariant __it0.wf(), lists_kv(__it0.seq(), old(self).batches.v@), *w == (World { lists: Ghost(w0.lists@ + nonempty(__it0.seq(), __it0.pos() as int)), ..w0 })
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopend 0
    proof { assert(w.lists@ =~= w0.lists@ + nonempty(__it0.seq(), __it0.pos() as int)); }
//@end
//@extract src/server/notification_debouncer.rs fn:notification_key fn:notification_type fn:flush_pending fn:flush_all impl:NotificationDebouncer::{new,run,start,stop,submit,flush} impl:NotificationBatcher::{new,fire,add,flush}
