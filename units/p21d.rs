//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include float.rs
//@include time.rs
//@include sync.rs
//@include coll.rs
//@type Arc<Mutex<mpsc::Receiver<Notification>>> = Mutex<DRx>
//@type mpsc::Sender<Notification> = DTx
//@type tokio::task::JoinHandle<()> = Task
//@expr self.pending.clone() => &mut self.pending
//@expr self.timers.clone() => &mut self.timers
//@call mpsc::channel = v_channel
//@call tokio::spawn = v_spawn
//@lift MessageDebouncer::add fire async; use pending: &mut Mutex<HashMap<String, Notification>>; use tx: DTx; use timers: &mut Mutex<HashMap<String, Task>>; wait_time: Duration; key_clone: String
//@ghostarg v_spawn/1 = w
//@ghostarg abort/0 = w
//@ghostarg sleep/1 = pending
//@ghostarg sleep/1 = w
//@ghostarg reserve/0 = pending
//@ghostarg reserve/0 = w
//@ghostarg send/1 = &key_clone
//@ghostarg send/1 = w
//@ghostarg recv/0 = w
#[verifier::external_body]
pub struct Notification { x: u8 }
//@extract src/utils/batching.rs struct:DebouncingConfig struct:MessageDebouncer
// ---- the world of a debouncer ----
/// a timer task: the key it sends, how long it waits first
pub struct T { pub key: Seq<u8>, pub wait: int }
/// what was sent (under which key), how much was taken out, the tasks aborted, what is still owed to the receiver, how long this task slept
pub struct World { pub sent: Ghost<Seq<(Seq<u8>, Notification)>>, pub taken: Ghost<nat>, pub aborted: Ghost<Seq<T>>, pub owed: Ghost<Map<String, Notification>>, pub slept: Ghost<int>, pub gone: Ghost<bool> }
#[verifier::external_body]
pub struct Task { x: u8 }
impl Task {
    pub uninterp spec fn t(&self) -> T;
    #[verifier::external_body]
    pub fn abort(&self, w: &mut World) ensures *final(w) == (World { aborted: Ghost(old(w).aborted@.push(self.t())), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_spawn(c: (Duration, String), w: &mut World) -> (r: Task) ensures r.t() == (T { key: c.1@, wait: c.0@ }), *final(w) == *old(w) { unimplemented!() }
/// A task may be aborted at any wait: whatever is owed then must be pending, not in its hands.
#[verifier::external_body]
pub fn sleep(d: Duration, pending: &Mutex<HashMap<String, Notification>>, w: &mut World)
    requires old(w).owed@ == pending.v@
    ensures *final(w) == (World { slept: Ghost(old(w).slept@ + d@), ..*old(w) })
{ unimplemented!() }
#[verifier::external_body]
pub struct DTx { x: u8 }
impl Clone for DTx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct DRx { x: u8 }
#[verifier::external_body]
pub struct Permit { x: u8 }
#[verifier::external_body]
pub struct SendError { x: u8 }
#[verifier::external_body]
pub fn v_channel(n: usize) -> (DTx, DRx) requires n > 0 { unimplemented!() }
/// what happens to the world when n is sent under key k
pub open spec fn w_sent(a: World, b: World, k: String, n: Notification) -> bool {
    b == (World { sent: Ghost(a.sent@.push((k@, n))), owed: Ghost(a.owed@.remove(k)), ..a })
}
impl DTx {
    /// the receiving end belongs to the debouncer: there is room sooner or later, unless that is gone
    #[verifier::external_body]
    pub fn reserve(&self, pending: &Mutex<HashMap<String, Notification>>, w: &mut World) -> (r: core::result::Result<Permit, SendError>)
        requires old(w).owed@ == pending.v@
        ensures *final(w) == *old(w), r is Err ==> old(w).gone@
    { unimplemented!() }
    /// waits for room with the notification in hand
    #[verifier::external_body]
    pub fn send(&self, n: Notification, k: &String, w: &mut World) -> (r: core::result::Result<(), SendError>)
        requires !old(w).owed@.contains_key(*k)
        ensures w_sent(*old(w), *final(w), *k, n)
    { unimplemented!() }
}
impl Permit {
    /// does not wait; only what is owed under this key may be sent
    #[verifier::external_body]
    pub fn send(self, n: Notification, k: &String, w: &mut World)
        requires old(w).owed@.contains_key(*k) && old(w).owed@[*k] == n
        ensures w_sent(*old(w), *final(w), *k, n)
    { unimplemented!() }
}
impl DRx {
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut World) -> (r: Option<Notification>)
        ensures match r {
            Some(n) => old(w).taken@ < old(w).sent@.len() && n == old(w).sent@[old(w).taken@ as int].1 && *final(w) == (World { taken: Ghost(old(w).taken@ + 1), ..*old(w) }),
            None => old(w).taken@ == old(w).sent@.len() && *final(w) == *old(w) }
    { unimplemented!() }
}
/// how long key k has to be quiet
pub open spec fn wait_of(c: DebouncingConfig, k: String) -> int { if c.debounced_methods@.contains_key(k) { c.debounced_methods@[k]@ } else { c.wait_time@ } }
/// every task is filed under the key it sends
pub open spec fn filed(m: Map<String, Task>) -> bool { forall|k: String| #[trigger] m.contains_key(k) ==> m[k].t().key == k@ }
/// everything pending has a task that will send it
pub open spec fn covered(d: MessageDebouncer) -> bool { filed(d.timers.v@) && forall|k: String| #[trigger] d.pending.v@.contains_key(k) ==> d.timers.v@.contains_key(k) }
//@fn MessageDebouncer::new ret=r
    ensures r.config == config, r.pending.v@ == Map::<String, Notification>::empty(), r.timers.v@ == Map::<String, Task>::empty(), covered(r)
//@end
//@fn MessageDebouncer::fire
//@addparam w: &mut World
    requires old(w).owed@ == old(pending).v@
    ensures !final(w).gone@ ==> {
        &&& final(w).slept@ == old(w).slept@ + wait_time@ && final(w).taken == old(w).taken && final(w).aborted == old(w).aborted
        &&& final(pending).v@ == old(pending).v@.remove(key_clone) && final(timers).v@ == old(timers).v@.remove(key_clone)
        &&& final(w).owed@ == final(pending).v@
        &&& final(w).sent@ == (if old(pending).v@.contains_key(key_clone) { old(w).sent@.push((key_clone@, old(pending).v@[key_clone])) } else { old(w).sent@ }) }
//@start
    proof { if !pending.v@.contains_key(key_clone) { assert(pending.v@.remove(key_clone) =~= pending.v@); } }
//@end
//@fn MessageDebouncer::add ret=r mutself
//@addparam w: &mut World
    requires covered(*old(self))
    ensures r is Ok, covered(*final(self)), *final(self) == (MessageDebouncer { pending: final(self).pending, timers: final(self).timers, ..*old(self) }),
        final(self).pending.v@ == old(self).pending.v@.insert(key, notification),
        final(self).timers.v@.contains_key(key) && final(self).timers.v@ == old(self).timers.v@.insert(key, final(self).timers.v@[key]),
        final(self).timers.v@[key].t() == (T { key: key@, wait: wait_of(old(self).config, key) }),
        *final(w) == (World { aborted: Ghost(if old(self).timers.v@.contains_key(key) { old(w).aborted@.push(old(self).timers.v@[key].t()) } else { old(w).aborted@ }), ..*old(w) }),
//@end
//@fn MessageDebouncer::receive ret=r mutself
//@addparam w: &mut World
    ensures *final(self) == (MessageDebouncer { rx: final(self).rx, ..*old(self) }), match r {
        Some(n) => old(w).taken@ < old(w).sent@.len() && n == old(w).sent@[old(w).taken@ as int].1 && *final(w) == (World { taken: Ghost(old(w).taken@ + 1), ..*old(w) }),
        None => old(w).taken@ == old(w).sent@.len() && *final(w) == *old(w) }
//@end
/// every task of m was aborted once
pub open spec fn aborts(s: Seq<(String, Task)>, n: int) -> Seq<T> { s.subrange(0, n).map_values(|x: (String, Task)| x.1.t()) }
pub open spec fn second(s: Seq<(String, Notification)>) -> Seq<Notification> { s.map_values(|x: (String, Notification)| x.1) }
//@fn MessageDebouncer::flush ret=r mutself
//@addparam w: &mut World
    requires covered(*old(self))
    ensures *final(self) == (MessageDebouncer { pending: final(self).pending, timers: final(self).timers, ..*old(self) }),
        final(self).pending.v@ == Map::<String, Notification>::empty(), final(self).timers.v@ == Map::<String, Task>::empty(),
        exists|s: Seq<(String, Notification)>| #[trigger] lists_kv(s, old(self).pending.v@) && r@ == second(s),
        exists|s: Seq<(String, Task)>| #[trigger] lists_kv(s, old(self).timers.v@) && *final(w) == (World { aborted: Ghost(old(w).aborted@ + aborts(s, s.len() as int)), ..*old(w) }),
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 0
    invariant __it0.wf(), lists_kv(__it0.seq(), old(self).timers.v@), *w == (World { aborted: Ghost(old(w).aborted@ + aborts(__it0.seq(), __it0.pos() as int)), ..*old(w) })
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost a0 = w.aborted@;
//@loopend 0
    proof {
        let s = __it0.seq(); let n = __it0.pos() as int;
        assert(aborts(s, n) =~= aborts(s, n - 1).push(s[n - 1].1.t()));
        assert(w.aborted@ =~= old(w).aborted@ + aborts(s, n));
    }
//@beforeloop 0
    proof { assert(aborts(__it0.seq(), 0) =~= Seq::<T>::empty()); assert(old(w).aborted@ + Seq::<T>::empty() =~= old(w).aborted@); }
//@loop 1
    invariant __it1.wf(), lists_kv(__it1.seq(), old(self).pending.v@), __out1@ == second(__it1.seq().subrange(0, __it1.pos() as int))
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@loopend 1
    proof { assert(__out1@ =~= second(__it1.seq().subrange(0, __it1.pos() as int))); assert(__it1.seq().subrange(0, __it1.seq().len() as int) =~= __it1.seq()); }
//@end
//@extract src/utils/batching.rs impl:MessageDebouncer::{new,fire,add,receive,flush}
