#[path = "common.rs"]
mod common;
use common::*;
use futures::FutureExt;
use pmcp::types::{Notification, ProgressNotification, ProgressToken};
use pmcp::utils::batching::{BatchingConfig, DebouncingConfig, MessageBatcher, MessageDebouncer};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn note(i: i64) -> Notification { Notification::Progress(ProgressNotification { progress_token: ProgressToken::Number(i), progress: i as f64, message: None }) }
fn num(n: &Notification) -> i64 { match n { Notification::Progress(p) => match &p.progress_token { ProgressToken::Number(i) => *i, _ => -1 }, _ => -1 } }
fn nums(b: &[Notification]) -> Vec<i64> { b.iter().map(num).collect() }
const LONG: Duration = Duration::from_secs(3600);
async fn soon<T>(d: &str, what: &str, f: impl std::future::Future<Output = Option<T>>) -> T {
    match tokio::time::timeout(Duration::from_secs(10), f).await { Ok(Some(x)) => x, Ok(None) => { cex(d, what, "the channel is closed"); unreachable!() }, Err(_) => { cex(d, what, "nothing within ten seconds"); unreachable!() } }
}
/// without a timer: exactly the full batches
async fn plain(r: &mut Rng) {
    let max = r.below(7);
    let n = r.below(40) as i64;
    let b = MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: LONG, batched_methods: vec![] });
    let d = format!("max_batch_size {}, {} notifications, no timer", max, n);
    let (mut all, mut want): (Vec<i64>, Vec<Vec<i64>>) = (vec![], vec![]);
    for i in 0..n {
        ensure(&d, b.add(note(i)).await.is_ok(), "accepted", "an error");
        all.push(i);
        if all.len() >= max { want.push(std::mem::take(&mut all)); }
        if r.chance(30) { for w in want.drain(..) { check(&d, Some(w), tokio::task::unconstrained(b.receive_batch()).now_or_never().flatten().map(|x| nums(&x))); } }
    }
    for w in want.drain(..) { check(&d, Some(w), tokio::task::unconstrained(b.receive_batch()).now_or_never().flatten().map(|x| nums(&x))); }
    check(&d, None, tokio::task::unconstrained(b.receive_batch()).now_or_never().flatten().map(|x| nums(&x)));
}
/// more full batches than the queue holds: adding waits, nothing is lost
async fn full(r: &mut Rng) {
    let max = 1 + r.below(2);
    let n = (max * (100 + r.below(30))) as i64;
    let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: LONG, batched_methods: vec![] }));
    let d = format!("max_batch_size {}, {} notifications added while nobody receives at first", max, n);
    let b2 = b.clone();
    let h = tokio::spawn(async move { for i in 0..n { b2.add(note(i)).await.unwrap(); } });
    for _ in 0..5 { tokio::task::yield_now().await; }
    let mut got = vec![];
    while got.len() < n as usize { got.extend(nums(&soon(&d, "every notification", b.receive_batch()).await)); }
    h.await.unwrap();
    check(&d, (0..n).collect::<Vec<_>>(), got);
}
/// with a timer: everything comes, in order, in batches of at most the size, also after quiet ticks
async fn timed(r: &mut Rng) {
    let max = 1 + r.below(6);
    let wait = Duration::from_millis(r.below(4) as u64);
    let b = MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: wait, batched_methods: vec![] });
    let early = r.chance(50);
    let mut d = format!("max_batch_size {}, max_wait_time {:?}, timer started {}", max, wait, if early { "first" } else { "after the first round" });
    if early { b.start_timer(); }
    let mut next = 0i64;
    let (mut got, mut want) = (vec![], vec![]);
    for round in 0..1 + r.below(3) {
        let k = r.below(9) as i64;
        d.push_str(&format!("; add {}", k));
        for _ in 0..k {
            ensure(&d, b.add(note(next)).await.is_ok(), "accepted", "an error");
            want.push(next);
            next += 1;
            if r.chance(20) { tokio::time::sleep(Duration::from_millis(1)).await; }
        }
        if round == 0 && !early { b.start_timer(); }
        while got.len() < want.len() {
            let x = soon(&d, "every notification is sent at a tick at the latest", b.receive_batch()).await;
            ensure(&d, !x.is_empty() && x.len() <= max, &format!("batches of 1 to {}", max), format!("{:?}", nums(&x)));
            got.extend(nums(&x));
        }
        check(&d, &want, &got);
        tokio::time::sleep(Duration::from_millis(r.below(6) as u64)).await;
        if let Some(x) = tokio::task::unconstrained(b.receive_batch()).now_or_never().flatten() { cex(&d, "no further batch", &format!("{:?}", nums(&x))); }
    }
}
/// one value handed to the debouncer: when adding started and ended
struct V { n: i64, a: Instant, b: Instant }
struct Deb { d: String, m: MessageDebouncer, waits: HashMap<String, Duration>, default: Duration, vals: BTreeMap<String, Vec<V>>, got: BTreeMap<String, Vec<i64>>, of: HashMap<i64, String> }
impl Deb {
    fn new(r: &mut Rng, keys: &[&str], short: u64) -> Deb {
        let mut waits = HashMap::new();
        for k in keys { if r.chance(50) { waits.insert(k.to_string(), if r.chance(40) { LONG } else { Duration::from_millis(r.below(short as usize + 1) as u64) }); } }
        let default = if r.chance(40) { LONG } else { Duration::from_millis(r.below(short as usize + 1) as u64) };
        Deb { d: format!("wait {:?}, per key {:?}", default, waits), m: MessageDebouncer::new(DebouncingConfig { wait_time: default, debounced_methods: waits.clone() }), waits, default, vals: BTreeMap::new(), got: BTreeMap::new(), of: HashMap::new() }
    }
    fn wait(&self, k: &str) -> Duration { self.waits.get(k).copied().unwrap_or(self.default) }
    async fn add(&mut self, k: &str, n: i64) {
        if self.d.len() < 1500 { self.d.push_str(&format!("; add {:?}={}", k, n)); }
        let a = Instant::now();
        ensure(&self.d, self.m.add(k.to_string(), note(n)).await.is_ok(), "accepted", "an error");
        self.vals.entry(k.to_string()).or_default().push(V { n, a, b: Instant::now() });
        self.of.insert(n, k.to_string());
    }
    fn sent(&mut self, n: i64) {
        let Some(k) = self.of.get(&n).cloned() else { cex(&self.d, "only what was added", &format!("{}", n)); return };
        let w = self.wait(&k);
        let vs = &self.vals[&k];
        let i = vs.iter().position(|v| v.n == n).unwrap();
        let until = if i + 1 < vs.len() { vs[i + 1].b } else { Instant::now() };
        ensure(&self.d, until.duration_since(vs[i].a) + Duration::from_millis(1) >= w, &format!("{} sent only after {:?} without another under {:?}", n, w, k), format!("sent after at most {:?}", until.duration_since(vs[i].a)));
        let g = self.got.entry(k.clone()).or_default();
        let before = g.last().copied();
        g.push(n);
        ensure(&self.d, before.map_or(true, |b| b < n), &format!("each notification of {:?} once and in order", k), format!("{} after {:?}", n, before));
    }
    fn take(&mut self) { while let Some(n) = tokio::task::unconstrained(self.m.receive()).now_or_never().flatten() { self.sent(num(&n)); } }
    fn last_got(&self, k: &str) -> Option<i64> { self.got.get(k).and_then(|g| g.last().copied()) }
    /// everything whose wait is short arrives
    async fn settle(&mut self) {
        loop {
            let owed: Vec<_> = self.vals.iter().filter(|(k, v)| self.wait(k) < LONG && self.last_got(k) != Some(v.last().unwrap().n)).map(|(k, v)| format!("{:?}={}", k, v.last().unwrap().n)).collect();
            if owed.is_empty() { return; }
            let d = self.d.clone();
            let n = soon(&d, &format!("the latest of {:?}", owed), self.m.receive()).await;
            self.sent(num(&n));
        }
    }
    /// flush: with what was sent, the latest of every key, once
    async fn flush(&mut self) {
        self.d.push_str("; flush");
        let f = nums(&self.m.flush().await);
        self.take();
        let mut owed: Vec<i64> = self.vals.iter().filter(|(k, v)| self.last_got(k) != Some(v.last().unwrap().n)).map(|(_, v)| v.last().unwrap().n).collect();
        let mut f2 = f.clone();
        owed.sort();
        f2.sort();
        check(&format!("{}: what flush returns", self.d), owed, f2);
        for n in f { let k = self.of[&n].clone(); self.got.entry(k).or_default().push(n); }
        self.d.push_str("; later");
        tokio::time::sleep(Duration::from_millis(8)).await;
        if let Some(n) = tokio::task::unconstrained(self.m.receive()).now_or_never().flatten() { cex(&self.d, "nothing is sent after the flush", &format!("{}", num(&n))); }
    }
}
async fn debounced(r: &mut Rng) {
    let keys = ["a", "b", "", "A", "a "];
    let mut s = Deb::new(r, &keys, 5);
    let mut n = 0i64;
    for _ in 0..1 + r.below(12) {
        match r.below(10) {
            0..=6 => { let k = *r.pick(&keys); n += 1; s.add(k, n).await; },
            7 => { let ms = r.below(7) as u64; s.d.push_str(&format!("; {} ms", ms)); tokio::time::sleep(Duration::from_millis(ms)).await; s.take(); },
            8 => { s.d.push_str("; all sent"); s.settle().await; },
            _ => s.flush().await,
        }
    }
    s.settle().await;
    s.flush().await;
}
/// more keys than the queue holds
async fn crowded(r: &mut Rng) {
    let names: Vec<String> = (0..101 + r.below(8)).map(|i| format!("k{}", i)).collect();
    let mut s = Deb { d: format!("no wait, {} keys, nobody receives", names.len()), m: MessageDebouncer::new(DebouncingConfig { wait_time: Duration::ZERO, debounced_methods: HashMap::new() }), waits: HashMap::new(), default: Duration::ZERO, vals: BTreeMap::new(), got: BTreeMap::new(), of: HashMap::new() };
    let mut n = 0;
    let d = s.d.clone();
    for k in &names { n += 1; s.add(k, n).await; }
    s.d = d.clone();
    tokio::time::sleep(Duration::from_millis(6)).await;
    for k in &names { if r.chance(5) { n += 1; s.add(k, n).await; } }
    s.d = format!("{}; one notification each, then {} more", d, n - names.len() as i64);
    if r.chance(50) { tokio::time::sleep(Duration::from_millis(3)).await; }
    if r.chance(60) { s.flush().await } else { s.settle().await; s.flush().await }
}
fn main() {
    start();
    let mut r = Rng::new(21);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut k = 0u64;
    while time_left() {
        k += 1;
        let which = k % 16;
        match which {
            0 => case("more batches than the queue holds", true, || rt.block_on(full(&mut r))),
            1 => case("more keys than the queue holds", true, || rt.block_on(crowded(&mut r))),
            2..=5 => case("batches with a timer", true, || rt.block_on(timed(&mut r))),
            6..=10 => case("batches without a timer", true, || rt.block_on(plain(&mut r))),
            _ => case("debounced", true, || rt.block_on(debounced(&mut r))),
        }
    }
    done();
}
