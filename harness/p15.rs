#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::reconnect::*;
use pmcp::{Error, ErrorCode};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
enum Ev { Connecting(u32), Connected, Failed(String), Open, Close, Call(bool), }
type Log = Arc<Mutex<Vec<Ev>>>;
fn cbs(l: &Log, which: u8) -> ReconnectCallbacks {
    let (a, b, c, d, e) = (l.clone(), l.clone(), l.clone(), l.clone(), l.clone());
    let mut k = ReconnectCallbacks::default();
    if which & 1 != 0 { k.on_connecting = Some(Box::new(move |n| a.lock().unwrap().push(Ev::Connecting(n)))); }
    if which & 2 != 0 { k.on_connected = Some(Box::new(move || b.lock().unwrap().push(Ev::Connected))); }
    if which & 4 != 0 { k.on_failed = Some(Box::new(move |x: &Error| c.lock().unwrap().push(Ev::Failed(x.to_string())))); }
    if which & 8 != 0 { k.on_circuit_open = Some(Box::new(move || d.lock().unwrap().push(Ev::Open))); }
    if which & 16 != 0 { k.on_circuit_close = Some(Box::new(move || e.lock().unwrap().push(Ev::Close))); }
    k
}
fn wanted(v: Vec<Ev>, which: u8) -> Vec<Ev> {
    v.into_iter().filter(|e| match e { Ev::Connecting(_) => which & 1 != 0, Ev::Connected => which & 2 != 0, Ev::Failed(_) => which & 4 != 0, Ev::Open => which & 8 != 0, Ev::Close => which & 16 != 0, Ev::Call(_) => true }).collect()
}
struct Model { c: ReconnectConfig, on: bool, st: ConnectionState, retries: u32, fails: u32, att: u64, succ: u64, opened: Option<(Instant, Instant)>, succ_at: Option<(Instant, Instant)>, ev: Vec<Ev> }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tri { Yes, No, Either }
/// has `d` passed since a moment inside the interval `t`, seen by a call that ran from a to b?
fn passed(t: (Instant, Instant), d: Duration, a: Instant, b: Instant) -> Tri {
    if a.saturating_duration_since(t.1) >= d { Tri::Yes } else if b.saturating_duration_since(t.0) < d { Tri::No } else { Tri::Either }
}
impl Model {
    fn may(&mut self, got: bool, a: Instant, b: Instant, desc: &str) {
        let w = if !self.on { Tri::No } else { match self.st {
            ConnectionState::Connected | ConnectionState::Connecting => Tri::No,
            ConnectionState::CircuitOpen => passed(self.opened.unwrap(), self.c.circuit_breaker_timeout, a, b),
            _ => if self.c.max_retries.map_or(true, |m| self.retries < m) { Tri::Yes } else { Tri::No },
        } };
        ensure(desc, w == Tri::Either || (w == Tri::Yes) == got, &format!("should_reconnect {:?}", w), got);
        if got && self.st == ConnectionState::CircuitOpen { self.st = ConnectionState::Disconnected; self.opened = None; self.ev.push(Ev::Close); }
    }
    fn trying(&mut self) { self.st = ConnectionState::Connecting; self.att += 1; self.ev.push(Ev::Connecting(self.retries)); }
    fn ok(&mut self, t: (Instant, Instant)) { self.st = ConnectionState::Connected; self.succ += 1; self.fails = 0; if self.c.reset_on_success { self.retries = 0; } self.succ_at = Some(t); self.ev.push(Ev::Connected); }
    fn failed(&mut self, e: &str, t: (Instant, Instant)) {
        self.retries += 1; self.fails += 1; self.st = ConnectionState::WaitingRetry;
        if self.c.circuit_breaker_threshold.map_or(false, |x| self.fails >= x) { self.st = ConnectionState::CircuitOpen; self.opened = Some(t); self.ev.push(Ev::Open); }
        self.ev.push(Ev::Failed(e.to_string()));
    }
    /// the backoff after `n` failures, without jitter
    fn cap(&self, n: u32) -> f64 { (self.c.initial_delay.as_secs_f64() * self.c.growth_factor.powi(n.min(i32::MAX as u32) as i32)).min(self.c.max_delay.as_secs_f64()) }
}
fn delay_ok(desc: &str, m: &Model, n: u32, d: Duration) {
    let cap = m.cap(n);
    let (lo, hi) = ((cap * (1.0 - m.c.jitter_factor)).max(0.0), cap * (1.0 + m.c.jitter_factor));
    let x = d.as_secs_f64();
    ensure(desc, x >= lo - 1e-6 - lo * 1e-9 && x <= hi + 1e-6 + hi * 1e-9, &format!("a delay of {}..{} s for {} retries", lo, hi, n), d);
}
fn state_ok(rt: &tokio::runtime::Runtime, desc: &str, m: &Model, g: &ReconnectManager, log: &Log, which: u8) {
    let s = g.stats();
    check(&format!("{}: (attempts, successes, retries, failures in a row)", desc), (m.att, m.succ, m.retries, m.fails), (s.total_attempts, s.total_successes, s.current_retry_count, s.consecutive_failures));
    check(&format!("{}: state", desc), m.st, rt.block_on(g.state()));
    check(&format!("{}: callbacks and attempts", desc), wanted(m.ev.clone(), which), log.lock().unwrap().clone());
}
fn conf(r: &mut Rng) -> ReconnectConfig {
    ReconnectConfig {
        initial_delay: *r.pick(&[Duration::ZERO, Duration::from_micros(200), Duration::from_micros(900)]),
        max_delay: *r.pick(&[Duration::ZERO, Duration::from_millis(1), Duration::from_millis(2)]),
        growth_factor: *r.pick(&[1.0, 2.0, 1.5, 0.5, 10.0]),
        max_retries: *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(5)]),
        jitter_factor: *r.pick(&[0.0, 0.1, 0.5, 1.0]),
        reset_on_success: r.chance(60),
        success_threshold: *r.pick(&[Duration::ZERO, Duration::from_millis(3), Duration::from_secs(3600)]),
        circuit_breaker_threshold: *r.pick(&[None, None, Some(1), Some(2), Some(3), Some(4), Some(0)]),
        circuit_breaker_timeout: *r.pick(&[Duration::ZERO, Duration::from_millis(2), Duration::from_millis(4), Duration::from_secs(3600)]),
    }
}
fn fail(n: usize) -> Error { match n % 3 { 0 => Error::protocol(ErrorCode::REQUEST_TIMEOUT, format!("t{}", n)), 1 => Error::internal(format!("i{}", n)), _ => Error::validation(format!("v{}", n)) } }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let c = conf(r);
    let which = if r.chance(70) { 31 } else { r.below(32) as u8 };
    let ops: Vec<(usize, usize)> = (0..1 + r.below(16)).map(|_| (r.below(20), r.below(1000))).collect();
    let desc0 = format!("{:?}, callbacks {:#b}, ops {:?}", c, which, ops);
    case(&desc0, ops.len() > 1, || {
        let log: Log = Arc::new(Mutex::new(vec![]));
        let mut g = ReconnectManager::new(c.clone());
        g.set_callbacks(cbs(&log, which));
        let mut m = Model { c: c.clone(), on: true, st: ConnectionState::Disconnected, retries: 0, fails: 0, att: 0, succ: 0, opened: None, succ_at: None, ev: vec![] };
        state_ok(rt, &desc0, &m, &g, &log, which);
        for (k, (op, x)) in ops.iter().enumerate() {
            let desc = format!("{}; after op {}", desc0, k);
            let a = Instant::now();
            match op {
                0..=2 => { let got = rt.block_on(g.should_reconnect()); m.may(got, a, Instant::now(), &desc); },
                3..=4 => { rt.block_on(g.on_connecting()); m.trying(); },
                5..=6 => { rt.block_on(g.on_connected()); m.ok((a, Instant::now())); },
                7..=10 => { let e = fail(*x); rt.block_on(g.on_connection_failed(&e)); m.failed(&e.to_string(), (a, Instant::now())); },
                11..=12 => {
                    rt.block_on(g.on_disconnected());
                    let now = g.stats().current_retry_count;
                    let w = match (m.st, m.succ_at) { (ConnectionState::Connected, Some(t)) => passed(t, m.c.success_threshold, a, Instant::now()), _ => Tri::No };
                    let old = m.retries;
                    match w { Tri::Yes => m.retries = 0, Tri::No => {}, Tri::Either => if now == 0 { m.retries = 0; } }
                    let _ = old;
                    m.st = ConnectionState::Disconnected;
                },
                13 => { let on = x % 2 == 0; g.set_enabled(on); m.on = on; },
                14 => { if x % 3 == 0 { g.reset(); m.retries = 0; m.fails = 0; } },
                15 => delay_ok(&desc, &m, m.retries, g.calculate_delay()),
                16 => std::thread::sleep(Duration::from_millis((x % 4) as u64)),
                _ => {
                    // a whole run; the attempts from number `stop` on succeed
                    let stop = x % 5;
                    let times: Mutex<Vec<(Instant, Instant)>> = Mutex::new(vec![]);
                    let n = Mutex::new(0usize);
                    // an unlimited run of failures would never end
                    let cap = 6;
                    let (l2, seed) = (log.clone(), *x);
                    let got = rt.block_on(g.reconnect_with(|| {
                        let i = { let mut k = n.lock().unwrap(); *k += 1; *k - 1 };
                        let ok = i >= stop && stop != 4 || i >= cap;
                        times.lock().unwrap().push((Instant::now(), Instant::now()));
                        l2.lock().unwrap().push(Ev::Call(ok));
                        async move { if ok { Ok(()) } else { Err(fail(seed + i)) } }
                    }));
                    let end = Instant::now();
                    let times = times.into_inner().unwrap();
                    // replay the run on the model
                    let mut i = 0;
                    let mut want: Result<(), String> = Err("refused".into());
                    loop {
                        let at = |i: usize| times.get(i).map(|t| t.0).unwrap_or(end);
                        let before = if i == 0 { a } else { at(i - 1) };
                        let more = i < times.len();
                        m.may(more, before, at(i), &format!("{}: before attempt {}", desc, i));
                        if !more { break; }
                        m.trying();
                        let ok = i >= stop && stop != 4 || i >= cap;
                        m.ev.push(Ev::Call(ok));
                        if ok { m.ok((at(i), end)); want = Ok(()); i += 1; break; }
                        let e = fail(seed + i).to_string();
                        m.failed(&e, (at(i), at(i + 1)));
                        i += 1;
                        // refused after the failure: its error is the outcome; refused after the wait: a refusal
                        let again = match (m.on, m.st) {
                            (false, _) => false,
                            (_, ConnectionState::CircuitOpen) => i < times.len() || matches!(&got, Err(x) if x.to_string() != e),
                            _ => m.c.max_retries.map_or(true, |x| m.retries < x),
                        };
                        if !again { m.may(false, at(i - 1), at(i), &format!("{}: after attempt {}", desc, i)); want = Err(e); break; }
                        m.may(true, at(i - 1), at(i), &format!("{}: after attempt {}", desc, i));
                        want = Err("refused".into());
                        if i < times.len() {
                            let d = times[i].0 - times[i - 1].0;
                            let lo = (m.cap(m.retries) * (1.0 - m.c.jitter_factor)).max(0.0);
                            ensure(&desc, d.as_secs_f64() >= lo - 1e-4, &format!("a wait of at least {} s before attempt {}", lo, i), d);
                        }
                    }
                    check(&format!("{}: number of attempts", desc), i, times.len());
                    match (&want, &got) {
                        (Ok(()), Ok(())) => {},
                        (Err(w), Err(g)) if w == "refused" => ensure(&desc, matches!(g, Error::Protocol { code, .. } if *code == ErrorCode::INTERNAL_ERROR), "a refusal", g.to_string()),
                        (Err(w), Err(g)) => check(&format!("{}: outcome", desc), w.clone(), g.to_string()),
                        _ => cex(&desc, &format!("{:?}", want), &format!("{:?}", got.map_err(|e| e.to_string()))),
                    }
                },
            }
            state_ok(rt, &desc, &m, &g, &log, which);
        }
    });
}
fn delays(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let c = ReconnectConfig {
        initial_delay: *r.pick(&[Duration::ZERO, Duration::from_millis(1), Duration::from_millis(100), Duration::from_secs(7), Duration::from_secs(1000)]),
        max_delay: *r.pick(&[Duration::ZERO, Duration::from_millis(50), Duration::from_secs(30), Duration::from_secs(100_000)]),
        growth_factor: *r.pick(&[1.0, 2.0, 1.1, 3.0, 1e10, 0.0, 0.5]), jitter_factor: *r.pick(&[0.0, 0.1, 0.25, 1.0]), circuit_breaker_threshold: None, max_retries: None, ..Default::default()
    };
    let n = *r.pick(&[0u32, 1, 2, 3, 5, 10, 31, 32, 33, 64, 200]);
    let desc = format!("calculate_delay after {} failures with {:?}", n, c);
    case(&desc, true, || {
        let g = ReconnectManager::new(c.clone());
        let m = Model { c: c.clone(), on: true, st: ConnectionState::Disconnected, retries: n, fails: 0, att: 0, succ: 0, opened: None, succ_at: None, ev: vec![] };
        let e = fail(1);
        rt.block_on(async { for _ in 0..n { g.on_connection_failed(&e).await; } });
        for _ in 0..3 { delay_ok(&desc, &m, n, g.calculate_delay()); }
    });
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(15);
    while time_left() { if r.chance(15) { delays(&rt, &mut r) } else { run(&rt, &mut r) } }
    done()
}
