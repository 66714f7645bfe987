//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include float.rs
//@include time.rs
//@include sync.rs
//@include coll.rs
//@include mem.rs
//@type Arc<Mutex<mpsc::Receiver<Vec<Notification>>>> = Mutex<BRx>
//@type mpsc::Sender<Vec<Notification>> = BTx
//@expr self.pending.clone() => &mut self.pending
//@call mpsc::channel = v_channel
//@call tokio::spawn = v_spawn
//@lift MessageBatcher::start_timer timer async; use pending: &mut Mutex<Vec<Notification>>; use tx: BTx; max_wait: Duration
//@ghostarg v_spawn/1 = w
//@ghostarg tick/0 = pending
//@ghostarg tick/0 = w
//@ghostarg interval/1 = w
//@ghostarg send/1 = w
//@ghostarg recv/0 = w
#[verifier::external_body]
pub struct Notification { x: u8 }
//@extract src/utils/batching.rs struct:BatchingConfig struct:MessageBatcher
// ---- the world of a batcher: the batches put into its channel, how many of them were taken out, the timer tasks started with their waits ----
pub struct World { pub sent: Ghost<Seq<Seq<Notification>>>, pub taken: Ghost<nat>, pub timers: Ghost<Seq<int>>, pub period: Ghost<int>, pub gone: Ghost<bool> }
#[verifier::external_body]
pub struct BTx { x: u8 }
impl Clone for BTx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct BRx { x: u8 }
#[verifier::external_body]
pub struct SendError { x: u8 }
#[verifier::external_body]
pub fn v_channel(n: usize) -> (BTx, BRx) requires n > 0 { unimplemented!() }
impl BTx {
    /// the receiving end belongs to the batcher: sending fails only once that is gone
    #[verifier::external_body]
    pub fn send(&self, b: Vec<Notification>, w: &mut World) -> (r: core::result::Result<(), SendError>)
        ensures r is Err ==> old(w).gone@, r is Ok ==> *final(w) == (World { sent: Ghost(old(w).sent@.push(b@)), ..*old(w) }), r is Err ==> *final(w) == *old(w)
    { unimplemented!() }
}
impl BRx {
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut World) -> (r: Option<Vec<Notification>>)
        ensures match r {
            Some(b) => old(w).taken@ < old(w).sent@.len() && b@ == old(w).sent@[old(w).taken@ as int] && *final(w) == (World { taken: Ghost(old(w).taken@ + 1), ..*old(w) }),
            None => old(w).taken@ == old(w).sent@.len() && *final(w) == *old(w) }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_spawn(c: (Duration,), w: &mut World) ensures *final(w) == (World { timers: Ghost(old(w).timers@.push(c.0@)), ..*old(w) }) { unimplemented!() }
pub open spec fn max_i(a: int, b: int) -> int { if a > b { a } else { b } }
#[verifier::external_body]
pub struct Interval { x: u8 }
/// tokio panics without a period
#[verifier::external_body]
pub fn interval(d: Duration, w: &mut World) -> (r: Interval)
    requires d@ > 0
    ensures *final(w) == (World { period: Ghost(d@), ..*old(w) })
{ unimplemented!() }
impl Interval {
    /// until the next tick others use the batcher: what is pending and what was sent may be anything then
    #[verifier::external_body]
    pub fn tick(&mut self, pending: &mut Mutex<Vec<Notification>>, w: &mut World)
        ensures final(w).period == old(w).period
    { unimplemented!() }
}
//@fn MessageBatcher::new ret=r
    ensures r.config == config, r.pending.v@.len() == 0
//@end
//@fn MessageBatcher::add ret=r mutself
//@addparam w: &mut World
    requires !old(w).gone@
    ensures r is Ok, *final(self) == (MessageBatcher { pending: final(self).pending, ..*old(self) }), ({
        let all = old(self).pending.v@.push(notification);
        if all.len() >= old(self).config.max_batch_size {
            final(self).pending.v@.len() == 0 && *final(w) == (World { sent: Ghost(old(w).sent@.push(all)), ..*old(w) })
        } else {
            final(self).pending.v@ == all && *final(w) == *old(w)
        } })
//@end
//@fn MessageBatcher::timer
//@addparam w: &mut World
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    ensures final(w).gone@
//@loop 0
    invariant w.period@ == max_i(max_wait@, ms(1))
    ensures w.gone@
//@after tick#0
    let ghost p0 = pending.v@; let ghost w0 = *w;
//@loopend 0
    proof {
        if p0.len() > 0 { assert(*w == (World { sent: Ghost(w0.sent@.push(p0)), ..w0 })); } else { assert(*w == w0); }
        assert(pending.v@.len() == 0);
    }
//@end
//@fn MessageBatcher::start_timer mutself
//@addparam w: &mut World
    ensures *final(self) == *old(self), *final(w) == (World { timers: Ghost(old(w).timers@.push(old(self).config.max_wait_time@)), ..*old(w) })
//@end
//@fn MessageBatcher::receive_batch ret=r mutself
//@addparam w: &mut World
    ensures *final(self) == (MessageBatcher { rx: final(self).rx, ..*old(self) }), match r {
        Some(b) => old(w).taken@ < old(w).sent@.len() && b@ == old(w).sent@[old(w).taken@ as int] && *final(w) == (World { taken: Ghost(old(w).taken@ + 1), ..*old(w) }),
        None => old(w).taken@ == old(w).sent@.len() && *final(w) == *old(w) }
//@end
//@extract src/utils/batching.rs impl:MessageBatcher::{new,add,timer,start_timer,receive_batch}
