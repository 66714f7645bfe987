//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include float.rs
//@type f64 = F64
//@include time.rs
//@include sync.rs
//@include coll.rs
//@type dyn RecoveryHandler = Handler
//@type std::time::Instant = Instant
//@call operation = operation.call
//@call tokio::time::sleep = operation.sleep
//@extract src/error/recovery.rs struct:CircuitState +derive=Copy,Clone,Structural,PartialEq,Eq
//@extract src/error/recovery.rs enum:RecoveryStrategy struct:RecoveryPolicy struct:CircuitBreaker struct:CircuitBreakerConfig struct:RecoveryExecutor
#[verifier::external_body]
pub struct Handler { x: u8 }
pub uninterp spec fn recovers(h: Handler, msg: Seq<u8>, r: VResult<Value>) -> bool;
impl Handler {
    #[verifier::external_body]
    pub fn recover(&self, msg: &String) -> (r: VResult<Value>) ensures recovers(*self, msg@, r) { unimplemented!() }
}
// ---- the caller's operation: every call and every wait is recorded in order (ghost)
pub enum Step { Call(VResult<Value>), Sleep(Duration) }
#[verifier::external_body]
pub struct Op { x: u8 }
impl Op {
    pub uninterp spec fn log(&self) -> Seq<Step>;
    #[verifier::external_body]
    pub fn call(&mut self) -> (r: VResult<Value>)
        ensures final(self).log() == old(self).log().push(Step::Call(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sleep(&mut self, d: Duration)
        ensures final(self).log() == old(self).log().push(Step::Sleep(d))
    { unimplemented!() }
}
pub open spec fn grew(a: Seq<Step>, b: Seq<Step>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// number of attempts recorded in b beyond a; a wait precedes every attempt (except the first if o == 1)
pub open spec fn calls(a: Seq<Step>, b: Seq<Step>, o: int) -> int { (b.len() - a.len() + o) / 2 }
/// waits and attempts alternate, the k-th wait lasting ds(k); all attempts up to position m failed
pub open spec fn shape(a: Seq<Step>, b: Seq<Step>, o: int, ds: spec_fn(int) -> Duration, m: int) -> bool {
    &&& grew(a, b)
    &&& b.len() > a.len() ==> (b.len() - a.len() + o) % 2 == 0
    &&& forall|i: int| a.len() <= i < b.len() ==> if (i - a.len() + o) % 2 == 0 { #[trigger] b[i] == Step::Sleep(ds((i - a.len() + o) / 2)) }
        else { b[i] is Call && (i < m ==> b[i]->Call_0 is Err) }
}
/// at most n attempts, stopping at the first success, otherwise the last error
pub open spec fn retried(a: Seq<Step>, b: Seq<Step>, o: int, ds: spec_fn(int) -> Duration, n: int, r: VResult<Value>) -> bool {
    &&& shape(a, b, o, ds, b.len() - 1)
    &&& b.len() > a.len() && b.last() == Step::Call(r)
    &&& 1 <= calls(a, b, o) <= n
    &&& r is Err ==> calls(a, b, o) == n
}
pub open spec fn failed(a: Seq<Step>, b: Seq<Step>, o: int, ds: spec_fn(int) -> Duration, n: int) -> bool {
    &&& shape(a, b, o, ds, b.len() as int)
    &&& b.len() - a.len() == (if n == 0 { 0 } else { 2 * n - o })
}
/// one step of exponential backoff: the product, limited to the maximum (floating point uninterpreted)
pub open spec fn next_delay(cur: Duration, mult: F64, max: Duration) -> Duration { dur_of_f64(f_min(f_mul(secs_f64(cur@), mult), secs_f64(max@))) }
/// the k-th delay of exponential backoff
pub open spec fn backoff(k: int, initial: Duration, mult: F64, max: Duration) -> Duration decreases k {
    if k <= 0 { initial } else { next_delay(backoff(k - 1, initial, mult, max), mult, max) }
}

//@extract src/error/mod.rs impl:ErrorCode::{consts} impl:Error::{internal,protocol,error_code}
//@fn Error::internal ret=r
    ensures r is Internal, r->Internal_0@ == message.txt()
//@end
//@fn Error::protocol ret=r
    ensures r is Protocol, r->Protocol_code == code, r->Protocol_message@ == message.txt(), r->Protocol_data is None
//@end
//@fn Error::error_code ret=r
    ensures r == code_of(*self)
//@end
pub open spec fn code_of(e: Error) -> Option<ErrorCode> {
    match e { Error::Protocol { code, message, data } => Some(code), _ => None }
}
pub open spec fn inherits(r: VResult<Value>, e: Error) -> bool { r == Err::<Value, Error>(e) }

// ---- circuit breaker
impl CircuitBreaker {
    /// between calls: the count that would change the state has not been reached
    pub open spec fn inv(&self) -> bool {
        &&& self.state.v == CircuitState::Closed ==> self.failure_count.v == 0 || self.failure_count.v < self.config.failure_threshold
        &&& self.state.v == CircuitState::HalfOpen ==> self.success_count.v == 0 || self.success_count.v < self.config.success_threshold
        &&& self.state.v == CircuitState::Open ==> self.last_failure_time.v is Some
    }
}
//@fn CircuitBreaker::new ret=r
    ensures r.inv(), r.state.v == CircuitState::Closed, r.failure_count.v == 0, r.config == config
//@end
/// the decision and the state after asking
pub open spec fn allowed(a: CircuitBreaker, b: CircuitBreaker, r: bool) -> bool {
    match a.state.v {
        CircuitState::Closed => r && b == a,
        CircuitState::HalfOpen => r && b == a,
        CircuitState::Open => {
            // `r` iff the timeout has passed since the failure that opened it, at the moment of the call
            exists|t: int| #[trigger] is_now(t) && {
                let waited = if t >= a.last_failure_time.v->0@ { t - a.last_failure_time.v->0@ } else { 0 };
                &&& r == (waited >= a.config.timeout@)
                &&& !r ==> b == a
                &&& r ==> b.state.v == CircuitState::HalfOpen && b.success_count.v == 0 && b.config == a.config
            }
        },
    }
}
pub open spec fn after_success(a: CircuitBreaker, b: CircuitBreaker) -> bool {
    &&& b.config == a.config
    &&& match a.state.v {
        CircuitState::Closed => b.state.v == CircuitState::Closed && b.failure_count.v == 0,
        CircuitState::HalfOpen => if a.success_count.v + 1 >= a.config.success_threshold {
            b.state.v == CircuitState::Closed && b.failure_count.v == 0
        } else { b.state.v == CircuitState::HalfOpen && b.success_count.v == a.success_count.v + 1 },
        CircuitState::Open => b.inv(),
    }
}
pub open spec fn after_failure(a: CircuitBreaker, b: CircuitBreaker) -> bool {
    &&& b.config == a.config
    &&& match a.state.v {
        CircuitState::Closed => if a.failure_count.v + 1 >= a.config.failure_threshold {
            b.state.v == CircuitState::Open && b.last_failure_time.v is Some && is_now(b.last_failure_time.v->0@)
        } else { b.state.v == CircuitState::Closed && b.failure_count.v == a.failure_count.v + 1 },
        _ => b.state.v == CircuitState::Open && b.last_failure_time.v is Some && is_now(b.last_failure_time.v->0@),
    }
}
//@fn CircuitBreaker::allow_request ret=r mutself
    requires old(self).inv()
    ensures final(self).inv(), allowed(*old(self), *final(self), r)
//@end
//@fn CircuitBreaker::record_success mutself
    requires old(self).inv()
    ensures final(self).inv(), after_success(*old(self), *final(self))
//@end
//@fn CircuitBreaker::record_failure mutself
    requires old(self).inv()
    ensures final(self).inv(), after_failure(*old(self), *final(self))
//@end
//@extract src/error/recovery.rs impl:CircuitBreaker::{new,allow_request,record_success,record_failure}

// ---- retries
//@fn with_retry ret=r dropgenerics
//@param operation: &mut Op
    ensures
        attempts == 0 ==> final(operation).log() == old(operation).log() && r is Err,
        attempts > 0 ==> retried(old(operation).log(), final(operation).log(), 1, |k: int| delay, attempts as int, r),
//@loop 0
    invariant
        0 <= __it0 <= __end0, __end0 == attempts,
        failed(old(operation).log(), operation.log(), 1, |k: int| delay, __it0 as int),
        __it0 == 0 ==> last_error is None && operation.log() == old(operation).log(),
        __it0 > 0 ==> last_error is Some && operation.log().last() == Step::Call(Err::<Value, Error>(last_error->0)),
    decreases __end0 - __it0
//@end
pub open spec fn done(it: int, end: int, d: bool) -> int { if d { end } else { it - 1 } }
//@fn RecoveryExecutor::retry_fixed ret=r dropgenerics
//@param operation: &mut Op
    ensures
        attempts == 0 ==> final(operation).log() == old(operation).log() && r == Err::<Value, Error>(error),
        attempts > 0 ==> retried(old(operation).log(), final(operation).log(), 0, |k: int| delay, attempts as int, r),
//@loop 0
    invariant
        1 <= __it0, attempts == __end0,
        __done0 ==> __it0 >= __end0,
        !__done0 ==> __it0 <= __end0,
        failed(old(operation).log(), operation.log(), 0, |k: int| delay, done(__it0 as int, __end0 as int, __done0)),
        attempts == 0 ==> operation.log() == old(operation).log() && last_error == error,
        done(__it0 as int, __end0 as int, __done0) > 0 ==> operation.log().last() == Step::Call(Err::<Value, Error>(last_error)),
    decreases __end0 - __it0, (if __done0 { 0int } else { 1int })
//@end
//@fn RecoveryExecutor::retry_exponential ret=r dropgenerics
//@param operation: &mut Op
    ensures
        attempts == 0 ==> final(operation).log() == old(operation).log() && r == Err::<Value, Error>(error),
        attempts > 0 ==> retried(old(operation).log(), final(operation).log(), 0, |k: int| backoff(k, initial_delay, multiplier, max_delay), attempts as int, r),
//@loop 0
    invariant
        1 <= __it0, attempts == __end0,
        __done0 ==> __it0 >= __end0,
        !__done0 ==> __it0 <= __end0,
        failed(old(operation).log(), operation.log(), 0, |k: int| backoff(k, initial_delay, multiplier, max_delay), done(__it0 as int, __end0 as int, __done0)),
        attempts == 0 ==> operation.log() == old(operation).log() && last_error == error,
        done(__it0 as int, __end0 as int, __done0) > 0 ==> operation.log().last() == Step::Call(Err::<Value, Error>(last_error)),
        !__done0 ==> current_delay == backoff(__it0 - 1, initial_delay, multiplier, max_delay),
    decreases __end0 - __it0, (if __done0 { 0int } else { 1int })
//@end
//@fn RecoveryPolicy::get_strategy ret=r
    ensures *r == strat(*self, *error_code)
//@end
//@fn RecoveryPolicy::add_strategy
    ensures
        forall|c: ErrorCode| #[trigger] strat(*final(self), c) == (if c == error_code { strategy } else { strat(*old(self), c) }),
//@end
//@fn RecoveryPolicy::new ret=r
    ensures forall|c: ErrorCode| #[trigger] strat(r, c) == default_strategy
//@end
pub open spec fn strat(p: RecoveryPolicy, c: ErrorCode) -> RecoveryStrategy {
    if p.strategies@.contains_key(c) { p.strategies@[c] } else { p.default_strategy }
}
/// every breaker in the table satisfies its invariant
pub open spec fn breakers_ok(m: Map<String, CircuitBreaker>) -> bool {
    forall|k: String| #[trigger] m.contains_key(k) ==> m[k].inv()
}
pub open spec fn one_call(a: Seq<Step>, b: Seq<Step>, r: VResult<Value>) -> bool { b == a.push(Step::Call(r)) }
/// what happens after the first attempt failed with `e`
pub open spec fn recovered(p: RecoveryPolicy, hs: Map<String, Handler>, ma: Map<String, CircuitBreaker>, mb: Map<String, CircuitBreaker>, id: String, e: Error,
        a: Seq<Step>, b: Seq<Step>, r: VResult<Value>) -> bool {
    match strat(p, match code_of(e) { Some(c) => c, None => ErrorCode::INTERNAL_ERROR }) {
        RecoveryStrategy::RetryFixed { attempts, delay } =>
            mb == ma && if attempts == 0 { b == a && r == Err::<Value, Error>(e) } else { retried(a, b, 0, |k: int| delay, attempts as int, r) },
        RecoveryStrategy::RetryExponential { attempts, initial_delay, max_delay, multiplier } =>
            mb == ma && if attempts == 0 { b == a && r == Err::<Value, Error>(e) }
            else { retried(a, b, 0, |k: int| backoff(k, initial_delay, multiplier, max_delay), attempts as int, r) },
        RecoveryStrategy::Fallback => b == a && mb == ma && fell_back(hs, id, err_text(e), r),
        RecoveryStrategy::CircuitBreaker { failure_threshold, success_threshold, timeout } => guarded(ma, mb, id, failure_threshold, success_threshold, timeout, a, b, r),
        RecoveryStrategy::FailFast => b == a && mb == ma && r == Err::<Value, Error>(e),
    }
}
/// the handler of that name is given the error's text
pub open spec fn fell_back(hs: Map<String, Handler>, id: String, m: Seq<u8>, r: VResult<Value>) -> bool {
    if hs.contains_key(id) { recovers(hs[id], m, r) } else { r is Err }
}
/// one operation under the breaker of that id (created closed on first use); other breakers untouched
pub open spec fn guarded(ma: Map<String, CircuitBreaker>, mb: Map<String, CircuitBreaker>, id: String, ft: u32, st: u32, t: Duration,
        a: Seq<Step>, b: Seq<Step>, r: VResult<Value>) -> bool {
    &&& mb.contains_key(id) && mb.dom() == ma.dom().insert(id)
    &&& forall|k: String| k != id && #[trigger] ma.contains_key(k) ==> mb[k] == ma[k]
    &&& exists|c0: CircuitBreaker, c1: CircuitBreaker, yes: bool| {
        &&& if ma.contains_key(id) { c0 == ma[id] } else {
            c0.state.v == CircuitState::Closed && c0.failure_count.v == 0 && c0.config == (CircuitBreakerConfig { failure_threshold: ft, success_threshold: st, timeout: t }) }
        &&& #[trigger] allowed(c0, c1, yes)
        &&& !yes ==> b == a && r is Err && mb[id] == c1
        &&& yes ==> one_call(a, b, r) && (r is Ok ==> after_success(c1, mb[id])) && (r is Err ==> after_failure(c1, mb[id]))
    }
}
//@fn RecoveryExecutor::fallback ret=r
    ensures fell_back(self.handlers@, *operation_id, error_msg@, r)
//@end
//@fn RecoveryExecutor::circuit_breaker ret=r dropgenerics mutself noclone
//@param operation: &mut Op
    requires breakers_ok(old(self).circuit_breakers.v@)
    ensures
        final(self).policy == old(self).policy, final(self).handlers == old(self).handlers,
        breakers_ok(final(self).circuit_breakers.v@),
        guarded(old(self).circuit_breakers.v@, final(self).circuit_breakers.v@, *operation_id, failure_threshold, success_threshold, timeout,
            old(operation).log(), final(operation).log(), r),
//@end
/// a success of an operation that has a breaker counts for that breaker, and for no other
pub open spec fn noted(ma: Map<String, CircuitBreaker>, mb: Map<String, CircuitBreaker>, id: String) -> bool {
    &&& mb.dom() =~= ma.dom()
    &&& forall|k: String| k != id && #[trigger] ma.contains_key(k) ==> mb[k] == ma[k]
    &&& ma.contains_key(id) ==> after_success(ma[id], mb[id])
}
/// one attempt; its result if that is a success, otherwise the recovery for its error
pub open spec fn first_then(x: RecoveryExecutor, y: RecoveryExecutor, id: String, a: Seq<Step>, b: Seq<Step>, r: VResult<Value>) -> bool {
    &&& b.len() > a.len() && b[a.len() as int] is Call
    &&& match b[a.len() as int]->Call_0 {
        Ok(v) => r == Ok::<Value, Error>(v) && b == a.push(Step::Call(r)) && noted(x.circuit_breakers.v@, y.circuit_breakers.v@, id),
        Err(e) => recovered(x.policy, x.handlers@, x.circuit_breakers.v@, y.circuit_breakers.v@, id, e, a.push(Step::Call(Err(e))), b, r),
    }
}
//@fn RecoveryExecutor::new ret=r
    ensures r.policy == policy, r.handlers@ == Map::<String, Handler>::empty(), r.circuit_breakers.v@ == Map::<String, CircuitBreaker>::empty()
//@end
//@fn RecoveryExecutor::register_handler
    ensures *final(self) == (RecoveryExecutor { handlers: final(self).handlers, ..*old(self) }), final(self).handlers@ == old(self).handlers@.insert(name, handler)
//@end
//@fn RecoveryExecutor::execute_with_recovery ret=r dropgenerics mutself
//@param operation: &mut Op
    requires breakers_ok(old(self).circuit_breakers.v@)
    ensures
        breakers_ok(final(self).circuit_breakers.v@), final(self).policy == old(self).policy, final(self).handlers == old(self).handlers,
        first_then(*old(self), *final(self), *operation_id, old(operation).log(), final(operation).log(), r),
//@end
//@expr self.circuit_breakers.read().await.get(operation_id) => self.circuit_breakers.write().get_mut(operation_id)
//@extract src/error/recovery.rs fn:with_retry impl:RecoveryPolicy::{new,add_strategy,get_strategy} impl:RecoveryExecutor::{new,register_handler,retry_fixed,retry_exponential,fallback,circuit_breaker,execute_with_recovery}
