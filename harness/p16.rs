#[path = "common.rs"]
mod common;
use common::*;
use pmcp::error::recovery::*;
use pmcp::error::{Error, ErrorCode};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use serde_json::{json, Value};

fn text(r: &Result<Value, Error>) -> String { match r { Ok(v) => format!("Ok({})", v), Err(e) => format!("Err({})", e) } }
#[derive(Clone, Copy, Debug, PartialEq)]
enum St { C(u32), O, H(u32) }
fn breaker(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let (ft, st) = (r.below(5) as u32, r.below(4) as u32);
    // timeout: zero, or far away, or short with real waiting
    let mode = if r.chance(12) { 2 } else { r.below(2) };
    let to = [Duration::ZERO, Duration::from_secs(3600), Duration::from_millis(25)][mode];
    let n = 1 + r.below(if mode == 2 { 12 } else { 40 });
    let bias = 20 + r.below(60);
    let ops: Vec<usize> = (0..n).map(|_| if r.chance(bias) { 1 } else if mode == 2 && r.chance(20) { 3 } else { r.below(3) }).collect();
    let desc = format!("breaker failure_threshold={} success_threshold={} timeout={:?}, calls (0 allow, 1 failure, 2 success, 3 wait 30ms) {:?}", ft, st, to, ops);
    case(&desc, true, || {
        let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: ft, success_threshold: st, timeout: to });
        let mut s = St::C(0);
        let (mut opened0, mut opened) = (Instant::now(), Instant::now());
        for (i, o) in ops.iter().enumerate() {
            match o {
                0 => {
                    let w0 = opened.elapsed();
                    let got = rt.block_on(cb.allow_request());
                    let w1 = opened0.elapsed();
                    let want = match s {
                        St::O => if w0 >= to { s = St::H(0); true } else if w1 < to { false } else { if got { s = St::H(0) } got },
                        _ => true,
                    };
                    ensure(&desc, want == got, &format!("allow_request at call {} gives {} (state {:?})", i, want, s), got);
                },
                1 => {
                    s = match s { St::C(k) if k + 1 >= ft => St::O, St::C(k) => St::C(k + 1), _ => St::O };
                    let b = Instant::now();
                    rt.block_on(cb.record_failure());
                    if s == St::O { opened0 = b; opened = Instant::now(); }
                },
                2 => {
                    if s == St::O { continue }  // unspecified: a success reported while open
                    s = match s { St::C(_) => St::C(0), St::H(k) if k + 1 >= st => St::C(0), St::H(k) => St::H(k + 1), St::O => unreachable!() };
                    rt.block_on(cb.record_success());
                },
                _ => std::thread::sleep(Duration::from_millis(30)),
            }
        }
        // a far timeout makes the state observable
        if mode == 1 { let want = s != St::O; let got = rt.block_on(cb.allow_request()); ensure(&desc, want == got, &format!("finally allow_request is {}", want), got); }
    })
}
/// walks guided towards trial periods: a short timeout, waiting whenever the breaker is open
fn guided(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let (ft, st) = (1 + r.below(3) as u32, 1 + r.below(3) as u32);
    let to = Duration::from_millis(3);
    let seed = r.next();
    let n = 6 + r.below(24);
    let desc = format!("breaker failure_threshold={} success_threshold={} timeout=3ms, {} guided calls (seed {})", ft, st, n, seed);
    let mut g = Rng(seed | 1);
    case(&desc, true, || {
        let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: ft, success_threshold: st, timeout: to });
        let (mut s, mut opened0, mut opened, mut hist) = (St::C(0), Instant::now(), Instant::now(), Vec::new());
        for _ in 0..n {
            match s {
                St::O => {
                    if g.chance(70) { std::thread::sleep(Duration::from_millis(4)); hist.push("wait 4ms"); }
                    let w0 = opened.elapsed();
                    let got = rt.block_on(cb.allow_request());
                    let w1 = opened0.elapsed();
                    hist.push("allow");
                    let want = if w0 >= to { true } else if w1 < to { false } else { got };
                    ensure(&desc, want == got, &format!("allow_request {} after {:?} (waited {:?})", want, hist, w0), got);
                    if got { s = St::H(0) }
                },
                St::C(k) | St::H(k) => {
                    let half = matches!(s, St::H(_));
                    if g.chance(55) {
                        s = if half || k + 1 >= ft { St::O } else { St::C(k + 1) };
                        let b = Instant::now();
                        rt.block_on(cb.record_failure()); hist.push("failure");
                        if s == St::O { opened0 = b; opened = Instant::now(); }
                    } else {
                        s = if !half { St::C(0) } else if k + 1 >= st { St::C(0) } else { St::H(k + 1) };
                        rt.block_on(cb.record_success()); hist.push("success");
                    }
                    // an open breaker refuses at once (unless 3 ms have already passed)
                    let got = rt.block_on(cb.allow_request());
                    let early = opened0.elapsed() < to;
                    hist.push("allow");
                    if s == St::O { if early { ensure(&desc, !got, &format!("allow_request false after {:?}", hist), got) } else if got { s = St::H(0) } }
                    else { ensure(&desc, got, &format!("allow_request true after {:?}", hist), got) }
                },
            }
        }
    })
}
/// delays of exponential retry on real (short) timers
fn delays(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let a = 1 + r.below(4) as u32;
    let init = 1 + r.below(5) as u64;
    let max = 1 + r.below(12) as u64;
    let mult = *r.pick(&[1.0, 2.0, 3.0, 2000.0, 4000.0]);
    let fixed = r.chance(25);
    let desc = format!("delays of {} retries, initial {} ms, max {} ms, multiplier {}, fixed {}", a, init, max, mult, fixed);
    case(&desc, true, || {
        let st = if fixed { RecoveryStrategy::RetryFixed { attempts: a, delay: Duration::from_millis(init) } }
            else { RecoveryStrategy::RetryExponential { attempts: a, initial_delay: Duration::from_millis(init), max_delay: Duration::from_millis(max), multiplier: mult } };
        let ex = RecoveryExecutor::new(RecoveryPolicy::new(st));
        let times = std::sync::Mutex::new(Vec::new());
        let got = rt.block_on(ex.execute_with_recovery("op", || { times.lock().unwrap().push(Instant::now()); async { Err::<Value, Error>(Error::internal("e")) } }));
        let t = times.into_inner().unwrap();
        ensure(&desc, got.is_err() && t.len() == a as usize + 1, "an error after all attempts", (text(&got), t.len()));
        let mut want = init as f64;
        for k in 1..t.len() {
            let d = t[k].duration_since(t[k - 1]);
            ensure(&desc, d.as_secs_f64() * 1000.0 >= want - 0.01, &format!("at least {} ms before retry {}", want, k), d);
            ensure(&desc, d < Duration::from_millis(1800), &format!("about {} ms before retry {}", want, k), d);
            if !fixed { want = (want * mult).min(max as f64); }
        }
    })
}
fn fails(i: usize) -> Result<Value, Error> {
    Err(match i % 4 { 0 => Error::internal(format!("e{}", i)), 1 => Error::protocol(ErrorCode::INVALID_REQUEST, format!("e{}", i)), 2 => Error::validation(format!("e{}", i)), _ => Error::protocol(ErrorCode::REQUEST_TIMEOUT, format!("e{}", i)) })
}
fn retries(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let attempts = r.below(6) as u32;
    let ok_at = if r.chance(25) { usize::MAX } else { r.below(8) };
    let timed = r.chance(8);
    let delay = if timed { Duration::from_millis(10) } else { Duration::ZERO };
    let desc = format!("with_retry({}, {:?}) of an operation first succeeding at call {}", attempts, delay, ok_at);
    case(&desc, true, || {
        let n = AtomicUsize::new(0);
        let t = Instant::now();
        let got = rt.block_on(with_retry(attempts, delay, || { let i = n.fetch_add(1, SeqCst); async move { if i == ok_at { Ok(json!(i)) } else { fails(i) } } }));
        let calls = n.load(SeqCst);
        let want_calls = if ok_at < attempts as usize { ok_at + 1 } else { attempts as usize };
        ensure(&desc, calls == want_calls, &format!("{} calls", want_calls), calls);
        let want = if ok_at < attempts as usize { Ok(json!(ok_at)) } else if attempts == 0 { return ensure(&desc, got.is_err(), "an error", text(&got)) } else { fails(want_calls - 1) };
        check(&desc, text(&want), text(&got));
        if timed && want_calls > 1 { ensure(&desc, t.elapsed() >= delay * (want_calls as u32 - 1), "waits the delay before every retry", t.elapsed()) }
    })
}
struct Fixed(&'static str);
#[async_trait::async_trait]
impl RecoveryHandler for Fixed { async fn recover(&self, _m: &str) -> Result<Value, Error> { Ok(json!(self.0)) } }
fn strat(i: usize, a: u32) -> RecoveryStrategy {
    match i {
        0 => RecoveryStrategy::RetryFixed { attempts: a, delay: Duration::ZERO },
        1 => RecoveryStrategy::RetryExponential { attempts: a, initial_delay: Duration::ZERO, max_delay: Duration::from_micros(10), multiplier: 2.0 },
        2 => RecoveryStrategy::Fallback,
        3 => RecoveryStrategy::CircuitBreaker { failure_threshold: a, success_threshold: 1, timeout: Duration::from_secs(3600) },
        _ => RecoveryStrategy::FailFast,
    }
}
fn executor(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let (d, s, a) = (r.below(5), r.below(5), r.below(4) as u32);
    let (first, ok_at) = (r.below(4), if r.chance(30) { 999 } else { 1 + r.below(6) });
    let reg = r.chance(50);
    let code = *r.pick(&[ErrorCode::INVALID_REQUEST, ErrorCode::INTERNAL_ERROR, ErrorCode::REQUEST_TIMEOUT]);
    let runs = 1 + r.below(5);
    let desc = format!("executor default strategy {}, strategy {} (attempts/threshold {}) for {:?}, first error kind {}, success at call {}, fallback registered {}, {} runs", d, s, a, code, first, ok_at, reg, runs);
    case(&desc, true, || {
        let mut p = RecoveryPolicy::new(strat(d, a));
        p.add_strategy(code, strat(s, a));
        let mut ex = RecoveryExecutor::new(p);
        if reg { ex.register_handler("op".into(), Arc::new(Fixed("fallback"))); }
        ex.register_handler("other".into(), Arc::new(Fixed("wrong")));
        let ecode = match first { 1 => ErrorCode::INVALID_REQUEST, 3 => ErrorCode::REQUEST_TIMEOUT, _ => ErrorCode::INTERNAL_ERROR };
        let st = if ecode == code { s } else { d };
        let mut open = false; let mut fcount = 0u32;
        for run in 0..runs {
            let n = AtomicUsize::new(0);
            let op = |i: usize| if i == ok_at { Ok(json!(i)) } else if i == 0 { fails(first) } else { fails(i) };
            let got = rt.block_on(ex.execute_with_recovery("op", || { let i = n.fetch_add(1, SeqCst); async move { op(i) } }));
            let calls = n.load(SeqCst);
            let a_ = a as usize;
            let (wc, want): (usize, Result<Value, Error>) = match st {
                0 | 1 => { let last = (1..=a_).find(|&i| i == ok_at).unwrap_or(a_); (1 + last, op(last)) },
                2 => if reg { (1, Ok(json!("fallback"))) } else { ensure(&desc, calls == 1 && got.is_err(), "one call and an error", (calls, text(&got))); continue },
                3 => {
                    if open { ensure(&desc, calls == 1 && got.is_err(), &format!("run {}: the open breaker admits no further attempt", run), (calls, text(&got))); continue }
                    let x = op(1);
                    if x.is_err() { fcount += 1; if fcount >= a { open = true } } else { fcount = 0 }
                    (2, x)
                },
                _ => (1, op(0)),
            };
            ensure(&desc, calls == wc, &format!("run {}: {} calls", run, wc), calls);
            check(&desc, text(&want), text(&got));
        }
    })
}
/// several operations under one executor: a breaker per operation, told of every success of its operation and of every trial
fn shared(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let (ft, st, quick) = (1 + r.below(3) as u32, 1 + r.below(3) as u32, r.chance(50));
    let runs: Vec<(usize, bool, bool)> = (0..4 + r.below(20)).map(|_| (r.below(2), r.chance(40), r.chance(50))).collect();
    let desc = format!("executor with a breaker (failures {}, successes {}, timeout {}); (operation, first call succeeds, trial succeeds): {:?}", ft, st, if quick { "over at once" } else { "an hour" }, runs);
    case(&desc, true, || {
        let t = if quick { Duration::from_nanos(1) } else { Duration::from_secs(3600) };
        let ex = RecoveryExecutor::new(RecoveryPolicy::new(RecoveryStrategy::CircuitBreaker { failure_threshold: ft, success_threshold: st, timeout: t }));
        #[derive(Clone, Copy, Debug)] enum M { None, Closed(u32), Open, Half(u32) }
        let mut m = [M::None, M::None];
        for (k, &(w, a, b)) in runs.iter().enumerate() {
            if quick { std::thread::sleep(Duration::from_micros(20)); }
            let n = AtomicUsize::new(0);
            let got = rt.block_on(ex.execute_with_recovery(["op", "op2"][w], || { let i = n.fetch_add(1, SeqCst); async move { if [a, b, false, false][i.min(3)] { Ok(json!(i)) } else { Err(Error::internal("e")) } } }));
            let won = |x: M| match x { M::Closed(_) => M::Closed(0), M::Half(c) => if c + 1 >= st { M::Closed(0) } else { M::Half(c + 1) }, y => y };
            let (calls, ok);
            if a {
                // what a success does to a breaker that is open is left open
                if let M::Open = m[w] { return }
                m[w] = won(m[w]); calls = 1; ok = true;
            } else {
                let here = match m[w] { M::None => M::Closed(0), M::Open if quick => M::Half(0), x => x };
                if let M::Open = here { calls = 1; ok = false; m[w] = here; } else {
                    calls = 2; ok = b;
                    m[w] = if b { won(here) } else { match here { M::Closed(c) if c + 1 < ft => M::Closed(c + 1), _ => M::Open } };
                }
            }
            ensure(&desc, n.load(SeqCst) == calls && got.is_ok() == ok, &format!("run {}: {} calls, success {}", k, calls, ok), (n.load(SeqCst), text(&got)));
        }
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(16);
    let mut k = 0;
    while k < 60 || time_left() { k += 1; if k % 8 == 0 { guided(&rt, &mut r); delays(&rt, &mut r); } breaker(&rt, &mut r); retries(&rt, &mut r); executor(&rt, &mut r); shared(&rt, &mut r); }
    done()
}
