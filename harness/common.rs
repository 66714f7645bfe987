// shared by the replay/search harnesses
#![allow(dead_code)]
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(salt: u64) -> Self {
        let s: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt.wrapping_mul(0xD1B5_4A32_D192_ED03) | 1);
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n.max(1) }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
static LIMIT_MS: AtomicU64 = AtomicU64::new(60_000);
/// how long one case may take
pub fn limit_ms(n: u64) { LIMIT_MS.store(n, Ordering::SeqCst); }
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASES: AtomicU64 = AtomicU64::new(0);
static NONTRIV: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());
static T0: Mutex<Option<Instant>> = Mutex::new(None);
static KNOWN: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn start() {
    *T0.lock().unwrap() = Some(Instant::now());
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = T0.lock().unwrap().unwrap().elapsed().as_millis() as u64;
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now > s + LIMIT_MS.load(Ordering::SeqCst) {
            let c = CUR.lock().unwrap().clone();
            cex(&c, "the call returns", "no answer within the time limit (a minute unless this harness sets another)");
        }
    });
}
pub fn seconds() -> u64 { std::env::var("H_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(4) }
pub fn time_left() -> bool { T0.lock().unwrap().unwrap().elapsed() < Duration::from_secs(seconds()) }
pub fn time_left_frac(f: f64) -> bool { T0.lock().unwrap().unwrap().elapsed().as_secs_f64() < seconds() as f64 * f }
pub fn cex(case: &str, want: &str, got: &str) -> ! {
    let f = |s: &str| s.replace('\n', "\\n").replace('\r', "\\r");
    println!("CEX input: {} | expected: {} | got: {}", f(case), f(want), f(got));
    done_quiet();
    std::process::exit(1)
}
pub fn known(key: &str) {
    let mut k = KNOWN.lock().unwrap();
    if !k.contains(&key.to_string()) { k.push(key.to_string()); println!("KNOWN {}", key); }
}
fn done_quiet() { println!("CASES {} {}", CASES.load(Ordering::SeqCst), NONTRIV.load(Ordering::SeqCst)); }
pub fn done() -> ! { done_quiet(); std::process::exit(0) }
/// Run one case; a panic of the code under test is a failing input.
pub fn case<T>(desc: &str, nontrivial: bool, f: impl FnOnce() -> T) -> T {
    let now = T0.lock().unwrap().unwrap().elapsed().as_millis() as u64;
    CASE_START.store(now.max(1), Ordering::SeqCst);
    { let mut c = CUR.lock().unwrap(); c.clear(); c.push_str(desc); }
    let n = CASES.fetch_add(1, Ordering::SeqCst);
    if nontrivial { NONTRIV.fetch_add(1, Ordering::SeqCst); }
    if n < 3 || n == 50 || n == 500 { println!("SAMPLE {}", desc.replace('\n', "\\n").replace('\r', "\\r").chars().take(300).collect::<String>()); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CASE_START.store(0, Ordering::SeqCst);
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            cex(desc, "no panic", &format!("panic: {}", m))
        },
    }
}
pub fn check<A: PartialEq + std::fmt::Debug>(desc: &str, want: A, got: A) {
    if want != got { cex(desc, &format!("{:?}", want), &format!("{:?}", got)) }
}
pub fn ensure(desc: &str, ok: bool, want: &str, got: impl std::fmt::Debug) {
    if !ok { cex(desc, want, &format!("{:?}", got)) }
}

// ---- generators ----
const TEXTS: [&str; 40] = ["", " ", "a", "A", "b", "x y", "\t", "\n", "\r\n", "é", "日本", "\u{1F600}", "\"", "\\", "null", "true", "0", "-1", "1", "2.0", "1e3", "result", "error", "tools/list", "file:///a b?c#d", "a/b/", "..", "%20", "%", "{x}", "\u{0}", "\u{feff}", "Bearer x", "=", "a=b", ";", ",", "a,b", "*", "default"];
pub fn g_text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => (0..r.below(6)).map(|_| char::from_u32([r.below(128) as u32, r.below(0x800) as u32, r.below(0xD800) as u32, 0x1F600 + r.below(80) as u32][r.below(4)]).unwrap()).collect(),
        1 => { let b = r.pick(&TEXTS).to_string(); near(r, &b) },
        2 => { let n = [63, 64, 65, 255, 256, 257, 1024][r.below(7)]; "k".repeat(n) },
        _ => r.pick(&TEXTS).to_string(),
    }
}
/// a text easily confused with the given one (never equal to it)
pub fn near(r: &mut Rng, b: &str) -> String {
    for _ in 0..20 {
        let x = match r.below(26) {
            0 => b.to_uppercase(), 1 => b.to_lowercase(), 2 => format!("{} ", b), 3 => format!(" {}", b), 4 => format!("{}/", b), 5 => format!("/{}", b),
            6 => { let mut c: Vec<char> = b.chars().collect(); c.pop(); c.into_iter().collect() }, 7 => { let mut c: Vec<char> = b.chars().collect(); if !c.is_empty() { c.remove(0); } c.into_iter().collect() },
            8 => format!("{}{}", b, b), 9 => format!("{}s", b), 10 => format!("{}\u{0}", b), 11 => format!("{}:x", b), 12 => format!("{}.x", b), 13 => format!("{}/x", b), 14 => format!("{}x", b), 15 => format!("x{}", b),
            16 => { let mut c: Vec<char> = b.chars().collect(); if !c.is_empty() { let i = r.below(c.len()); c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }; } c.into_iter().collect() },
            17 => format!("{}?x", b), 18 => format!("{}\n", b), 19 => format!("\t{}", b), 20 => format!("{},{}", b, b), 21 => b.replace('/', "."), 22 => b.replace(['-', '_', '/', ':', '.'], ""), 23 => b.chars().rev().collect(),
            // something like a pattern for it
            24 => match b.rfind([':', '/', '.', '-', '_']) { Some(i) => format!("{}*", &b[..i + 1]), None => format!("{}*", b) }, _ => r.pick(&["*", "**", ".*", "%", "?"]).to_string(),
        };
        if x != b { return x; }
    }
    format!("{}~", b)
}
/// the given texts and some easily confused with them, in random order
pub fn pool(r: &mut Rng, bases: &[&str], extra: usize) -> Vec<String> {
    let mut v: Vec<String> = bases.iter().map(|s| s.to_string()).collect();
    for _ in 0..extra { let b = r.pick(bases).to_string(); let x = near(r, &b); if !v.contains(&x) { v.push(x); } }
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    v
}
pub fn g_json(r: &mut Rng, d: usize) -> serde_json::Value {
    use serde_json::{json, Value};
    match r.below(if d == 0 { 9 } else { 13 }) {
        0 | 1 => Value::Null, 2 => json!(r.chance(50)), 3 => json!(g_text(r)), 4 => json!(r.next() as i64), 5 => r.pick(&[json!(0), json!(-1), json!(1.5), json!(-0.0), json!(u64::MAX), json!(i64::MIN), json!(1e300), json!("")]).clone(), 6 => json!({}), 7 => json!([]), 8 => json!(r.below(5)),
        9 | 10 => { let n = r.below(4); Value::Array((0..n).map(|_| g_json(r, d - 1)).collect()) },
        _ => { let n = r.below(4); let mut m = serde_json::Map::new(); for _ in 0..n { let k = if r.chance(30) { r.pick(&["error", "result", "id", "method", "jsonrpc", "code", "message", "data", "_meta"]).to_string() } else { g_text(r) }; let v = g_json(r, d - 1); m.insert(k, v); } Value::Object(m) },
    }
}
