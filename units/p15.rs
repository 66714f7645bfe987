//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include float.rs
//@type f64 = F64
//@include time.rs
//@include systime.rs
//@include sync.rs
//@include atomic.rs
//@type ConnectingCallback = CbN
//@type ConnectionCallback = Cb
//@type FailureCallback = CbE
//@call callback = callback.call
//@call connect = connect.call
//@method unwrap_or = v_unwrap_or
//@call i32::try_from = v_i32
//@call sleep = connect.sleep
//@expr &self.callbacks.on_connecting => &mut self.callbacks.on_connecting
//@expr &self.callbacks.on_connected => &mut self.callbacks.on_connected
//@expr &self.callbacks.on_failed => &mut self.callbacks.on_failed
//@expr &self.callbacks.on_circuit_open => &mut self.callbacks.on_circuit_open
//@expr &self.callbacks.on_circuit_close => &mut self.callbacks.on_circuit_close
//@extract src/shared/reconnect.rs enum:ConnectionState +derive=Copy,Clone,Structural,PartialEq,Eq
//@extract src/shared/reconnect.rs struct:ReconnectConfig struct:ReconnectCallbacks struct:ReconnectManager struct:ReconnectStats impl:ReconnectManager::{new,set_callbacks,set_enabled,state,should_reconnect,calculate_delay,on_connecting,on_connected,on_connection_failed,on_disconnected,reconnect_with,stats,reset}

#[verifier::external_body]
pub struct CbN { x: u8 }
impl CbN {
    pub uninterp spec fn log(&self) -> Seq<u32>;
    #[verifier::external_body]
    pub fn call(&mut self, n: u32) ensures final(self).log() == old(self).log().push(n) { unimplemented!() }
}
#[verifier::external_body]
pub struct Cb { x: u8 }
impl Cb {
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body]
    pub fn call(&mut self) ensures final(self).count() == old(self).count() + 1 { unimplemented!() }
}
#[verifier::external_body]
pub struct CbE { x: u8 }
impl CbE {
    pub uninterp spec fn log(&self) -> Seq<Error>;
    #[verifier::external_body]
    pub fn call(&mut self, e: &Error) ensures final(self).log() == old(self).log().push(*e) { unimplemented!() }
}
// ---- the caller's connect: every attempt and every wait is recorded in order (ghost)
pub enum Step { Call(VResult<()>), Sleep(Duration) }
#[verifier::external_body]
pub struct Op { x: u8 }
impl Op {
    pub uninterp spec fn log(&self) -> Seq<Step>;
    #[verifier::external_body]
    pub fn call(&mut self) -> (r: VResult<()>) ensures final(self).log() == old(self).log().push(Step::Call(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sleep(&mut self, d: Duration) ensures final(self).log() == old(self).log().push(Step::Sleep(d)) { unimplemented!() }
}
pub type M = ReconnectManager;
impl ReconnectManager {
    #[verifier::inline]
    pub open spec fn st(&self) -> ConnectionState { self.state.v }
    #[verifier::inline]
    pub open spec fn retries(&self) -> u32 { self.retry_count.v }
    #[verifier::inline]
    pub open spec fn fails(&self) -> u32 { self.failure_count.v }
}
pub open spec fn cn(o: Option<Cb>) -> nat { match o { Some(c) => c.count(), None => 0 } }
pub open spec fn rang(a: Option<Cb>, b: Option<Cb>, n: nat) -> bool { match a { Some(c) => b is Some && b->0.count() == c.count() + n && (n == 0 ==> b == a), None => b is None } }
pub open spec fn told_n(a: Option<CbN>, b: Option<CbN>, n: u32) -> bool { match a { Some(c) => b is Some && b->0.log() == c.log().push(n), None => b is None } }
pub open spec fn told_e(a: Option<CbE>, b: Option<CbE>, e: Error) -> bool { match a { Some(c) => b is Some && b->0.log() == c.log().push(e), None => b is None } }
/// the settings never change
pub open spec fn kept(a: M, b: M) -> bool { b.config == a.config && b.enabled == a.enabled }
pub open spec fn waited_long(from: Instant, d: Duration) -> bool { exists|t: int| #[trigger] is_now(t) && (if t >= from@ { t - from@ } else { 0 }) >= d@ }
/// an attempt may be made: never when disabled, connected or already trying; behind an open breaker only after its timeout (which closes it); otherwise while retries are left
pub open spec fn asked(a: M, b: M, r: bool) -> bool {
    if !a.enabled.v || a.st() is Connected || a.st() is Connecting { !r && b == a }
    else if a.st() is CircuitOpen {
        &&& !r ==> b == a
        &&& r ==> a.circuit_opened_at.v is Some && waited_long(a.circuit_opened_at.v->0, a.config.circuit_breaker_timeout)
            && b.st() is Disconnected && b.circuit_opened_at.v is None && rang(a.callbacks.on_circuit_close, b.callbacks.on_circuit_close, 1)
            && b == (ReconnectManager { state: b.state, circuit_opened_at: b.circuit_opened_at, callbacks: ReconnectCallbacks { on_circuit_close: b.callbacks.on_circuit_close, ..a.callbacks }, ..a })
        &&& a.circuit_opened_at.v is Some && !r ==> exists|t: int| #[trigger] is_now(t) && (if t >= a.circuit_opened_at.v->0@ { t - a.circuit_opened_at.v->0@ } else { 0 }) < a.config.circuit_breaker_timeout@
    } else { b == a && r == (a.config.max_retries is None || a.retries() < a.config.max_retries->0) }
}
pub open spec fn trying(a: M, b: M) -> bool {
    &&& b.st() is Connecting && b.last_attempt.v is Some && is_now(b.last_attempt.v->0@)
    &&& b.total_attempts.v == ((a.total_attempts.v + 1) % 0x1_0000_0000_0000_0000) as u64
    &&& told_n(a.callbacks.on_connecting, b.callbacks.on_connecting, a.retries())
    &&& b == (ReconnectManager { state: b.state, last_attempt: b.last_attempt, total_attempts: b.total_attempts, callbacks: ReconnectCallbacks { on_connecting: b.callbacks.on_connecting, ..a.callbacks }, ..a })
}
pub open spec fn succeeded(a: M, b: M) -> bool {
    &&& b.st() is Connected && b.last_success.v is Some && is_now(b.last_success.v->0@)
    &&& b.total_successes.v == ((a.total_successes.v + 1) % 0x1_0000_0000_0000_0000) as u64
    &&& b.fails() == 0 && b.retries() == (if a.config.reset_on_success { 0u32 } else { a.retries() })
    &&& rang(a.callbacks.on_connected, b.callbacks.on_connected, 1)
    &&& b == (ReconnectManager { state: b.state, last_success: b.last_success, total_successes: b.total_successes, failure_count: b.failure_count, retry_count: b.retry_count, callbacks: ReconnectCallbacks { on_connected: b.callbacks.on_connected, ..a.callbacks }, ..a })
}
/// a failure is counted; the breaker opens exactly when the failures in a row reach its threshold
pub open spec fn failed(a: M, b: M, e: Error) -> bool {
    let opens = a.config.circuit_breaker_threshold is Some && a.fails() + 1 >= a.config.circuit_breaker_threshold->0;
    &&& b.retries() == a.retries() + 1 && b.fails() == a.fails() + 1
    &&& opens ==> b.st() is CircuitOpen && b.circuit_opened_at.v is Some && is_now(b.circuit_opened_at.v->0@) && rang(a.callbacks.on_circuit_open, b.callbacks.on_circuit_open, 1)
    &&& !opens ==> b.st() is WaitingRetry && b.circuit_opened_at == a.circuit_opened_at && b.callbacks.on_circuit_open == a.callbacks.on_circuit_open
    &&& told_e(a.callbacks.on_failed, b.callbacks.on_failed, e)
    &&& b == (ReconnectManager { state: b.state, retry_count: b.retry_count, failure_count: b.failure_count, circuit_opened_at: b.circuit_opened_at, callbacks: ReconnectCallbacks { on_circuit_open: b.callbacks.on_circuit_open, on_failed: b.callbacks.on_failed, ..a.callbacks }, ..a })
}
pub open spec fn lost(a: M, b: M) -> bool {
    &&& b.st() is Disconnected
    &&& b.retries() == a.retries() || (b.retries() == 0 && a.st() is Connected && a.last_success.v is Some && waited_long(a.last_success.v->0, a.config.success_threshold))
    &&& a.st() is Connected && a.last_success.v is Some && b.retries() != 0 ==> exists|t: int| #[trigger] is_now(t) && (if t >= a.last_success.v->0@ { t - a.last_success.v->0@ } else { 0 }) < a.config.success_threshold@
    &&& b == (ReconnectManager { state: b.state, retry_count: b.retry_count, ..a })
}
pub open spec fn ipow(n: u32) -> int { if n <= i32::MAX { n as int } else { i32::MAX as int } }
/// exponential backoff limited to the maximum, plus or minus the jitter (floating point uninterpreted)
pub open spec fn jittered(c: ReconnectConfig, n: u32, t: u32) -> Duration {
    let cap = f_min(f_mul(secs_f64(c.initial_delay@), f_powi(c.growth_factor, ipow(n))), secs_f64(c.max_delay@));
    let jr = f_mul(cap, c.jitter_factor);
    dur_of_f64(f_max(f_add(cap, f_fma(f_mul(f_div(f_int(t as int), f_bits(4741671816366391296)), jr), f_bits(4611686018427387904), f_neg(jr))), f_bits(0)))
}
pub open spec fn delay_for(c: ReconnectConfig, n: u32, d: Duration) -> bool { exists|t: u32| t < 1000000000 && d == #[trigger] jittered(c, n, t) }
//@fn ReconnectManager::new ret=r
    ensures r.config == config, r.st() is Disconnected, r.retries() == 0, r.fails() == 0, r.enabled.v, r.circuit_opened_at.v is None, r.last_success.v is None,
        r.total_attempts.v == 0, r.total_successes.v == 0
//@end
//@fn ReconnectManager::set_callbacks
    ensures *final(self) == (ReconnectManager { callbacks: callbacks, ..*old(self) })
//@end
//@fn ReconnectManager::set_enabled mutself
    ensures *final(self) == (ReconnectManager { enabled: AtomicBool { v: enabled }, ..*old(self) })
//@end
//@fn ReconnectManager::state ret=r
    ensures r == self.st()
//@end
//@fn ReconnectManager::should_reconnect ret=r mutself
    ensures asked(*old(self), *final(self), r)
//@tail
    let _ = &mut *self;
//@end
//@fn ReconnectManager::calculate_delay ret=r
    ensures delay_for(self.config, self.retries(), r)
//@after subsec_nanos#0
    proof { let j = jittered(self.config, retry_count, nanos); assert(j == jittered(self.config, retry_count, nanos)); }
//@end
//@fn ReconnectManager::on_connecting mutself
    ensures trying(*old(self), *final(self))
//@end
//@fn ReconnectManager::on_connected mutself
    ensures succeeded(*old(self), *final(self))
//@end
//@fn ReconnectManager::on_connection_failed mutself
    requires old(self).retries() < u32::MAX, old(self).fails() < u32::MAX
    ensures failed(*old(self), *final(self), *error)
//@end
//@fn ReconnectManager::on_disconnected mutself
    ensures lost(*old(self), *final(self))
//@end
//@fn ReconnectManager::stats ret=r
    ensures r.total_attempts == self.total_attempts.v, r.total_successes == self.total_successes.v, r.current_retry_count == self.retries(), r.consecutive_failures == self.fails()
//@end
//@fn ReconnectManager::reset mutself
    ensures *final(self) == (ReconnectManager { retry_count: AtomicU32 { v: 0 }, failure_count: AtomicU32 { v: 0 }, ..*old(self) })
//@end
// ---- a reconnection run ----
pub open spec fn grew(a: Seq<Step>, b: Seq<Step>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// attempts and waits alternate, beginning with an attempt; every attempt before position m failed, and the k-th wait is the backoff for that many retries
pub open spec fn shape(c: ReconnectConfig, n: u32, a: Seq<Step>, b: Seq<Step>, m: int) -> bool {
    &&& grew(a, b)
    &&& forall|i: int| a.len() <= i < b.len() ==> if (i - a.len()) % 2 == 0 { #[trigger] b[i] is Call && (i < m ==> b[i]->Call_0 is Err) }
        else { b[i] is Sleep && n + (i - a.len() + 1) / 2 <= u32::MAX && delay_for(c, (n + (i - a.len() + 1) / 2) as u32, b[i]->Sleep_0) }
}
pub open spec fn attempts(a: Seq<Step>, b: Seq<Step>) -> int { (b.len() - a.len() + 1) / 2 }
pub open spec fn within(s: M, n: int) -> bool {
    s.config.max_retries is Some ==> n <= s.config.max_retries->0 - s.retries() || n <= (if s.st() is CircuitOpen { 1int } else { 0 })
}
//@fn ReconnectManager::reconnect_with ret=r mutself dropgenerics
//@attr #[verifier::exec_allows_no_decreases_clause]
//@param connect: &mut Op
    ensures
        kept(*old(self), *final(self)),
        shape(old(self).config, old(self).retries(), old(connect).log(), final(connect).log(), final(connect).log().len() - 1),
        within(*old(self), attempts(old(connect).log(), final(connect).log())),
        !old(self).enabled.v || old(self).st() is Connected || old(self).st() is Connecting ==> final(connect).log() == old(connect).log(),
        // the outcome is that of the last attempt, or a refusal
        r is Ok ==> final(connect).log().len() > old(connect).log().len() && final(connect).log().last() is Call && final(connect).log().last()->Call_0 is Ok && final(self).st() is Connected && final(self).fails() == 0,
        r is Err ==> if (final(connect).log().len() - old(connect).log().len()) % 2 == 0 { r->Err_0 is Protocol && r->Err_0->Protocol_code.0 == -32603 } else { final(connect).log().last() == Step::Call(r) },
        // it gives up only when it must
        r is Err ==> !final(self).enabled.v || final(self).st() is Connected || final(self).st() is Connecting || final(self).st() is CircuitOpen
            || (final(self).config.max_retries is Some && final(self).retries() >= final(self).config.max_retries->0),
        r is Err ==> final(self).retries() == old(self).retries() + attempts(old(connect).log(), final(connect).log()),
//@loop 0
    invariant
        kept(*old(self), *self),
        shape(old(self).config, old(self).retries(), old(connect).log(), connect.log(), connect.log().len() as int),
        (connect.log().len() - old(connect).log().len()) % 2 == 0,
        self.retries() == old(self).retries() + attempts(old(connect).log(), connect.log()),
        connect.log().len() == old(connect).log().len() ==> *self == *old(self) && connect.log() == old(connect).log(),
        connect.log().len() > old(connect).log().len() ==> self.st() is WaitingRetry || self.st() is Disconnected,
        within(*old(self), attempts(old(connect).log(), connect.log())),
        !old(self).enabled.v || old(self).st() is Connected || old(self).st() is Connecting ==> connect.log() == old(connect).log(),
//@before on_connection_failed#0
    proof { assume(self.retries() < u32::MAX && self.fails() < u32::MAX); }
//@end
impl ReconnectCallbacks {
    /// #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.on_connecting is None, r.on_connected is None, r.on_failed is None, r.on_circuit_open is None, r.on_circuit_close is None { unimplemented!() }
}
pub fn v_i32(n: u32) -> (r: core::result::Result<i32, ()>) ensures r == (if n <= i32::MAX { Ok::<i32, ()>(n as i32) } else { Err(()) }) { if n <= i32::MAX as u32 { Ok(n as i32) } else { Err(()) } }
