// P33: the server's notification debouncer and notification batcher
#[path = "common.rs"]
mod common;
use common::*;
use futures::FutureExt;
use pmcp::server::notification_debouncer::{NotificationBatcher, NotificationDebouncer, NotificationDebouncerConfig};
use pmcp::types::protocol::ResourceUpdatedParams;
use pmcp::types::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

type N = ServerNotification;
const LONG: Duration = Duration::from_secs(3600);
fn ms(n: u64) -> Duration { Duration::from_millis(n) }
/// what it is about
fn group(n: &N) -> String {
    match n {
        N::Progress(p) => match &p.progress_token { ProgressToken::String(s) => format!("progress of the text {:?}", s), ProgressToken::Number(i) => format!("progress of the number {}", i) },
        N::ResourceUpdated(p) => format!("updated resource {:?}", p.uri),
        N::LogMessage(_) => "log".into(),
        x => format!("{:?}", x),
    }
}
fn type_name(n: &N) -> &'static str {
    match n { N::Progress(_) => "progress", N::ResourceUpdated(_) => "resources/updated", N::ResourcesChanged => "resources/list_changed", N::ToolsChanged => "tools/list_changed", N::PromptsChanged => "prompts/list_changed", N::RootsListChanged => "roots/list_changed", N::LogMessage(_) => "log" }
}
fn show(n: &N) -> String { format!("{:?}", n) }
fn texts(r: &mut Rng) -> String { match r.below(6) { 0 => "1".into(), 1 => "a".into(), 2 => "b".into(), 3 => "".into(), 4 => "a\"".into(), _ => g_text(r) } }
struct Source { k: i64, uris: Vec<String> }
impl Source {
    fn next(&mut self, r: &mut Rng) -> N {
        self.k += 1;
        match r.below(9) {
            0..=2 => N::Progress(ProgressNotification { progress_token: if r.chance(50) { ProgressToken::Number(r.below(2) as i64) } else { ProgressToken::String(r.pick(&self.uris).clone()) }, progress: self.k as f64, message: None }),
            3..=4 => N::ResourceUpdated(ResourceUpdatedParams { uri: r.pick(&self.uris).clone() }),
            5 => r.pick(&[N::ResourcesChanged, N::ToolsChanged, N::PromptsChanged]).clone(),
            6 => N::RootsListChanged,
            _ => N::LogMessage(serde_json::from_value(json!({"level": "info", "message": format!("m{}", self.k), "data": self.k})).unwrap()),
        }
    }
}
fn source(r: &mut Rng) -> Source {
    let mut uris = vec!["1".to_string(), "0".to_string(), "file:///a".to_string()];
    for _ in 0..r.below(3) { let t = if r.chance(50) { texts(r) } else { let b = r.pick(&uris).clone(); near(r, &b) }; uris.push(t); }
    if r.chance(60) { let b = r.pick(&uris).clone(); uris = vec![near(r, &b), b.clone(), near(r, &b)]; }
    Source { k: 0, uris }
}
struct Pending { n: N, merged: Vec<N>, first: Instant, last: Instant, ended: Instant }
struct D { d: String, c: NotificationDebouncerConfig, deb: Option<NotificationDebouncer>, rx: mpsc::Receiver<N>, pend: BTreeMap<String, Pending>, started: bool }
impl D {
    fn wait(&self, n: &N) -> Duration { self.c.type_intervals.get(type_name(n)).copied().unwrap_or(self.c.default_interval) }
    async fn submit(&mut self, n: N) {
        self.d.push_str(&format!("; {}", show(&n)));
        let a = Instant::now();
        ensure(&self.d, tokio::task::unconstrained(self.deb.as_ref().unwrap().submit(n.clone())).await.is_ok(), "accepted", "an error");
        let b = Instant::now();
        match self.pend.get_mut(&group(&n)) {
            Some(p) => { p.last = a; p.ended = b; if !self.c.enable_merging { p.n = n } else if p.merged.len() < self.c.max_batch_size { p.merged.push(n) } },
            None => { self.pend.insert(group(&n), Pending { n, merged: vec![], first: a, last: a, ended: b }); },
        }
    }
    /// everything sent so far; whole groups, none too early unless asked for
    fn take(&mut self, asked: bool) {
        while let Some(n) = tokio::task::unconstrained(self.rx.recv()).now_or_never().flatten() { self.whole(n, asked); }
    }
    fn whole(&mut self, n: N, asked: bool) {
        let now = Instant::now();
        let Some(p) = self.pend.remove(&group(&n)) else { cex(&self.d, &format!("only what is pending: {:?}", self.pend.keys().collect::<Vec<_>>()), &show(&n)); return };
        check(&self.d, show(&p.n), show(&n));
        if !asked {
            let (a, b) = (now.duration_since(p.last) + ms(1), now.duration_since(p.first) + ms(1));
            ensure(&self.d, a >= self.wait(&n) || b >= self.c.max_wait_time, &format!("{} is sent after {:?} without another one or {:?} in all", group(&n), self.wait(&n), self.c.max_wait_time), format!("sent {:?} after the last, {:?} after the first", a, b));
        }
        for m in p.merged { check(&format!("{}; after {}", self.d, show(&n)), Some(show(&m)), tokio::task::unconstrained(self.rx.recv()).now_or_never().flatten().map(|x| show(&x))); }
    }
    async fn sleep(&mut self, n: u64) { self.d.push_str(&format!("; {} ms", n)); tokio::time::sleep(ms(n)).await; self.take(false); }
    async fn flush(&mut self) {
        self.take(false);
        self.d.push_str("; flush");
        ensure(&self.d, tokio::task::unconstrained(self.deb.as_ref().unwrap().flush()).await.is_ok(), "flushed", "an error");
        self.take(true);
        self.nothing_left();
    }
    fn nothing_left(&self) { if let Some(k) = self.pend.keys().next() { cex(&self.d, &format!("{} is sent", k), "nothing"); } }
    async fn settle(&mut self) {
        self.d.push_str("; wait for what is due");
        loop {
            let owed: Vec<String> = self.pend.iter().filter(|(_, p)| self.wait(&p.n) < LONG || self.c.max_wait_time < LONG).map(|(k, _)| k.clone()).collect();
            if owed.is_empty() { return; }
            match tokio::time::timeout(Duration::from_secs(10), self.rx.recv()).await {
                Ok(Some(n)) => { tokio::time::sleep(ms(1)).await; self.whole(n, false); },
                _ => { cex(&self.d, &format!("{} is sent", owed[0]), "nothing within ten seconds"); },
            }
        }
    }
}
fn config(r: &mut Rng) -> NotificationDebouncerConfig {
    if r.chance(10) { return NotificationDebouncerConfig::default(); }
    let mut w = |r: &mut Rng| match r.below(4) { 0 => LONG, 1 => Duration::ZERO, _ => ms(10 + r.below(120) as u64) };
    let mut t = HashMap::new();
    for k in ["progress", "resources/updated", "resources/list_changed", "tools/list_changed", "prompts/list_changed", "roots/list_changed", "log", "unknown", "x"] { if r.chance(40) { t.insert(k.to_string(), w(r)); } }
    NotificationDebouncerConfig { default_interval: w(r), type_intervals: t, max_batch_size: if r.chance(80) { r.below(5) } else { 5 + r.below(20) }, enable_merging: r.chance(60), max_wait_time: match r.below(4) { 0 => ms(60 + r.below(80) as u64), _ => LONG } }
}
fn debouncer(r: &mut Rng) -> D {
    let c = config(r);
    let (tx, rx) = mpsc::channel(10_000);
    D { d: format!("{:?}", c), deb: Some(NotificationDebouncer::new(c.clone(), tx)), c, rx, pend: BTreeMap::new(), started: false }
}
enum Op { Submit(N), Sleep(u64), Flush, Start }
async fn debounce(mut s: D, ops: Vec<Op>, stop: bool) {
    for o in ops {
        match o {
            Op::Submit(n) => s.submit(n).await,
            Op::Sleep(n) => s.sleep(n).await,
            Op::Flush => s.flush().await,
            Op::Start => if !s.started { s.started = true; s.d.push_str("; start"); ensure(&s.d, s.deb.as_mut().unwrap().start().await.is_ok(), "started", "an error"); },
        }
    }
    s.take(false);
    if s.started { s.settle().await; s.take(false); }
    if stop && s.started {
        s.d.push_str("; stop");
        let mut d = s.deb.take().unwrap();
        d.stop().await;
        drop(d);
        // all senders go away with the flush task
        loop { match tokio::time::timeout(Duration::from_secs(10), s.rx.recv()).await { Ok(Some(n)) => { tokio::time::sleep(ms(1)).await; s.whole(n, true) }, Ok(None) => break, Err(_) => { cex(&s.d, "the flush task ends", "still running after ten seconds") } } }
        s.nothing_left();
    } else {
        s.flush().await;
        s.flush().await;
        s.d.push_str("; later");
        tokio::time::sleep(ms(if s.started { 60 } else { 0 })).await;
        s.take(true);
    }
}
/// something new all the time: sent once the longest wait is over
async fn busy(merging: bool, longest: u64, gap: u64, every: usize) {
    let c = NotificationDebouncerConfig { default_interval: LONG, type_intervals: HashMap::new(), max_batch_size: 100_000, enable_merging: merging, max_wait_time: ms(longest) };
    let (tx, mut rx) = mpsc::channel(100_000);
    let mut d = NotificationDebouncer::new(c, tx);
    d.start().await.unwrap();
    let desc = format!("an interval of an hour, max_wait_time {} ms, merging {}: a progress notification every {} ms", longest, merging, gap);
    let mut got = 0;
    for round in 0..every {
        let (t0, mut sent) = (Instant::now(), 0);
        let first = loop {
            d.submit(N::Progress(ProgressNotification { progress_token: ProgressToken::Number(1), progress: sent as f64, message: None })).await.unwrap();
            sent += 1;
            tokio::time::sleep(ms(gap)).await;
            if let Some(n) = tokio::task::unconstrained(rx.recv()).now_or_never().flatten() { break n; }
            if t0.elapsed() > Duration::from_secs(6) { cex(&desc, "sent once the longest wait is over", &format!("nothing in {:?}", t0.elapsed())); }
        };
        let mut all = vec![first];
        while let Some(n) = tokio::task::unconstrained(rx.recv()).now_or_never().flatten() { all.push(n); }
        ensure(&desc, t0.elapsed() + ms(1) >= ms(longest), "not before the longest wait", format!("{:?}", t0.elapsed()));
        let ps: Vec<i64> = all.iter().map(|n| if let N::Progress(p) = n { p.progress as i64 } else { -1 }).collect();
        if merging { check(&format!("{}; round {}", desc, round), (0..sent).collect::<Vec<_>>(), ps); } else { check(&format!("{}; round {}", desc, round), vec![sent - 1], ps); }
        got += 1;
    }
    check(&desc, every, got);
}
struct B { d: String, b: NotificationBatcher, rx: mpsc::Receiver<Vec<N>>, max: usize, wait: Duration, held: BTreeMap<String, Vec<(N, Instant)>>, first: BTreeMap<String, Instant> }
impl B {
    fn list(&mut self, l: Vec<N>, asked: bool) {
        let l2: Vec<String> = l.iter().map(show).collect();
        ensure(&self.d, !l.is_empty() && l.len() <= self.max.max(1), &format!("batches of 1 to {}", self.max.max(1)), format!("{:?}", l2));
        let k = group(&l[0]);
        let h = self.held.remove(&k).unwrap_or_default();
        check(&self.d, h.iter().map(|x| show(&x.0)).collect::<Vec<_>>(), l2);
        if !asked && l.len() < self.max { let t = self.first[&k].elapsed() + ms(1); ensure(&self.d, t >= self.wait, &format!("a batch of {} that is not full only after {:?}", k, self.wait), format!("after {:?}", t)); }
    }
    fn take(&mut self, asked: bool) { while let Some(l) = tokio::task::unconstrained(self.rx.recv()).now_or_never().flatten() { self.list(l, asked); } }
    async fn add(&mut self, n: N) {
        self.d.push_str(&format!("; {}", show(&n)));
        let k = group(&n);
        let now = Instant::now();
        self.first.entry(k.clone()).or_insert(now);
        ensure(&self.d, tokio::task::unconstrained(self.b.add(n.clone())).await.is_ok(), "accepted", "an error");
        let h = self.held.entry(k.clone()).or_default();
        h.push((n, now));
        if h.len() >= self.max {
            // full: it is sent at once, before anything else
            let l = tokio::task::unconstrained(self.rx.recv()).now_or_never().flatten();
            match l { Some(l) => { ensure(&self.d, l.first().map(group) == Some(k.clone()), &format!("the full batch of {}", k), format!("{:?}", l)); self.list(l, false) }, None => cex(&self.d, &format!("the full batch of {} is sent", k), "nothing") }
        }
        self.take(false);
    }
    async fn flush(&mut self) {
        self.take(false);
        self.d.push_str("; flush");
        ensure(&self.d, tokio::task::unconstrained(self.b.flush()).await.is_ok(), "flushed", "an error");
        self.take(true);
        if let Some(k) = self.held.keys().next() { cex(&self.d, &format!("{} is sent", k), "nothing"); }
    }
}
async fn batch(mut s: B, ops: Vec<Op>) {
    for o in ops { match o { Op::Submit(n) => s.add(n).await, Op::Sleep(n) => { s.take(false); s.d.push_str(&format!("; {} ms", n)); tokio::time::sleep(ms(n)).await; s.take(false) }, Op::Flush => s.flush().await, Op::Start => {} } }
    s.d.push_str("; wait for the rest");
    while s.wait < LONG && !s.held.is_empty() {
        match tokio::time::timeout(Duration::from_secs(10), s.rx.recv()).await { Ok(Some(l)) => s.list(l, false), _ => cex(&s.d, &format!("{} is sent", s.held.keys().next().unwrap()), "nothing within ten seconds") }
    }
    s.flush().await;
    s.flush().await;
    s.d.push_str("; later");
    tokio::time::sleep(ms(if s.wait < LONG { 12 } else { 0 })).await;
    s.take(true);
}
fn main() {
    start();
    let mut r = Rng::new(33);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut k = 0;
    while time_left() {
        k += 1;
        match k % 4 {
            0 | 1 => {
                let many = r.below(150) + 1;
                let runs: Vec<_> = (0..many).map(|_| {
                    let s = debouncer(&mut r);
                    let mut src = source(&mut r);
                    let start = r.chance(80);
                    let mut ops = vec![];
                    let n = r.below(14);
                    let late = r.below(n + 1);
                    for i in 0..n {
                        if start && i == late { ops.push(Op::Start); }
                        ops.push(match r.below(12) { 0 | 1 => Op::Sleep(r.below(130) as u64), 2 => Op::Flush, _ => Op::Submit(src.next(&mut r)) });
                    }
                    debounce(s, ops, r.chance(40))
                }).collect();
                case("many debouncers at the same time", true, || rt.block_on(async { futures::future::join_all(runs).await; }));
            },
            2 => { let runs: Vec<_> = (0..1 + r.below(4)).map(|_| busy(r.chance(50), 55 + r.below(80) as u64, 1 + r.below(20) as u64, 1 + r.below(2))).collect(); case("always something new", true, || rt.block_on(async { futures::future::join_all(runs).await; })) },
            _ => {
                let runs: Vec<_> = (0..1 + r.below(150)).map(|_| {
                    let (max, wait) = (if r.chance(60) { r.below(5) } else { 5 + r.below(20) }, if r.chance(50) { LONG } else { ms(r.below(12) as u64) });
                    let (tx, rx) = mpsc::channel(10_000);
                    let mut src = source(&mut r);
                    let n = if r.chance(70) { r.below(30) } else { r.below(120) };
                    let ops = (0..n).map(|_| match r.below(14) { 0 | 1 => Op::Sleep(r.below(12) as u64), 2 => Op::Flush, _ => Op::Submit(src.next(&mut r)) }).collect();
                    batch(B { d: format!("NotificationBatcher of up to {}, timeout {:?}", max, wait), b: NotificationBatcher::new(max, wait, tx), rx, max, wait, held: BTreeMap::new(), first: BTreeMap::new() }, ops)
                }).collect();
                case("many batchers at the same time", true, || rt.block_on(async { futures::future::join_all(runs).await; }));
            },
        }
    }
    done();
}
