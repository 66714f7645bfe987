// P26: the resource watcher (files of its own scratch directory only)
#[path = "common.rs"]
mod common;
use common::*;
use futures::FutureExt;
use pmcp::server::resource_watcher::{ResourceWatcher, ResourceWatcherBuilder, WatchConfig};
use pmcp::types::{ResourceInfo, ServerNotification};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

type N = ServerNotification;
fn ms(n: u64) -> Duration { Duration::from_millis(n) }
fn info(uri: &str, name: &str) -> ResourceInfo { ResourceInfo { uri: uri.into(), name: name.into(), description: None, mime_type: None } }
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn scratch() -> Scratch {
    static K: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::var("H_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir()).join(format!("p26-{}-{}", std::process::id(), K.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p.canonicalize().unwrap())
}
const FILES: [&str; 14] = ["a.txt", "a.json", "A.txt", "aa.txt", "a.txt.bak", "sub/b.json", "sub/a.txt", "sub/deep/c.json", "tmp/d.txt", "sub/tmp/e.json", "sub2/b.json", ".git/x", "node_modules/y.json", "with space #?.txt"];
const GLOBS: [&str; 15] = ["**/*", "*.json", "**/*.json", "sub/*", "sub/**", "a.txt", "**/tmp/**", "**/.git/**", "**/node_modules/**", "nothing", "*.bak", "*.txt", "sub/b.json", "sub/a.txt", "tmp/d.txt"];
fn matches(g: &str, f: &str) -> bool {
    let parts: Vec<&str> = f.split('/').collect();
    let below = |d: &str| parts[..parts.len() - 1].contains(&d);
    match g {
        "**/*" => true, "*.json" => parts.len() == 1 && f.ends_with(".json"), "**/*.json" => f.ends_with(".json"), "sub/*" => parts.len() == 2 && parts[0] == "sub", "sub/**" => parts[0] == "sub" && parts.len() > 1,
        "a.txt" => f == "a.txt", "**/tmp/**" => below("tmp"), "**/.git/**" => below(".git"), "**/node_modules/**" => below("node_modules"), "*.bak" => parts.len() == 1 && f.ends_with(".bak"), "*.txt" => parts.len() == 1 && f.ends_with(".txt"), _ => g == f,
    }
}
#[derive(Clone, Debug)]
enum Op { Write(usize), Append(usize), Remove(usize), Rename(usize, usize), Read(usize), Touch(usize), Add(usize), Drop(usize), Sleep(u64) }
#[derive(Clone, Debug)]
struct Plan { debounce: u64, patterns: Vec<String>, ignore: Vec<String>, built: bool, listed: Vec<usize>, there: Vec<usize>, rounds: Vec<Vec<Op>>, stop: bool, twice: bool }
fn plan(r: &mut Rng) -> Plan {
    let some = |r: &mut Rng, most: usize| -> Vec<String> { let n = r.below(most + 1); (0..n).map(|_| r.pick(&GLOBS).to_string()).collect() };
    let built = r.chance(50);
    let (mut patterns, mut ignore) = (some(r, 3), some(r, 2));
    if !built && r.chance(60) { patterns.push("**/*".into()); }
    let here = |r: &mut Rng, pct: usize| -> Vec<usize> { (0..FILES.len()).filter(|_| r.chance(pct)).collect() };
    let (mut listed, mut there) = (here(r, 70), here(r, 60));
    // a file the patterns, and what happens, are mostly about
    let focus = r.below(FILES.len());
    let about: Vec<&str> = GLOBS.iter().copied().filter(|g| matches(g, FILES[focus])).collect();
    if r.chance(60) { patterns.push(r.pick(&about).to_string()); }
    if r.chance(35) { ignore.push(r.pick(&about).to_string()); }
    if r.chance(80) { listed.push(focus); there.push(focus); }
    let debounce = *r.pick(&[0, 150, 400, 700]);
    let n = 1 + r.below(3);
    let rounds = (0..n).map(|_| {
        let mut ops = vec![];
        let pool: Vec<usize> = (0..1 + r.below(4)).map(|_| if r.chance(50) { focus } else { r.below(FILES.len()) }).collect();
        let pause = *r.pick(&[30, 30, 250]);
        for _ in 0..1 + r.below(8) {
            let i = *r.pick(&pool);
            ops.push(match r.below(13) { 0..=3 => Op::Write(i), 4 => Op::Append(i), 5 => Op::Remove(i), 6 => Op::Rename(i, *r.pick(&pool)), 7 => Op::Read(i), 8 => Op::Touch(i), 9 => Op::Add(i), 10 => Op::Drop(i), _ => Op::Sleep(5 + r.below(pause) as u64) });
        }
        ops
    }).collect();
    Plan { debounce, patterns, ignore, built, listed, there, rounds, stop: r.chance(25), twice: r.chance(15) }
}
fn uri(base: &Path, i: usize) -> String { format!("file://{}", base.join(FILES[i]).display()) }
type Fail = (String, String, String);
/// what is announced until nothing was for a while; every announcement with the time it came
async fn gather(rx: &mut mpsc::Receiver<N>, need: &BTreeSet<String>, quiet: Duration) -> Vec<(N, Instant)> {
    let (mut got, t0): (Vec<(N, Instant)>, _) = (vec![], Instant::now());
    loop {
        let missing = need.iter().any(|u| !got.iter().any(|(n, _)| matches!(n, N::ResourceUpdated(p) if &p.uri == u)));
        let wait = if missing && t0.elapsed() < Duration::from_secs(8) { Duration::from_secs(8).saturating_sub(t0.elapsed()).max(quiet) } else { quiet };
        match tokio::time::timeout(wait, rx.recv()).await { Ok(Some(n)) => got.push((n, Instant::now())), Ok(None) => return got, Err(_) => { if !missing || t0.elapsed() >= Duration::from_secs(8) { return got; } } }
    }
}
async fn watch(p: Plan) -> Result<(), Fail> {
    let dir = scratch();
    // beside the watched directory: one whose name begins the same
    let (base, beside) = (dir.0.join("base"), dir.0.join("base2"));
    for d in ["", "sub/deep", "sub/tmp", "tmp", "sub2", ".git", "node_modules"] { std::fs::create_dir_all(base.join(d)).unwrap(); }
    std::fs::create_dir_all(&beside).unwrap();
    for i in &p.there { std::fs::write(base.join(FILES[*i]), "0").unwrap(); }
    let (tx, mut rx) = mpsc::channel(10_000);
    let mut w = if p.built {
        let mut b = ResourceWatcherBuilder::new().base_dir(&base).debounce(ms(p.debounce));
        for x in &p.patterns { b = b.pattern(x.as_str()); }
        for x in &p.ignore { b = b.ignore(x.as_str()); }
        b.build(tx).unwrap()
    } else {
        ResourceWatcher::new(&base, WatchConfig { debounce: ms(p.debounce), patterns: p.patterns.clone(), ignore_patterns: p.ignore.clone(), max_resources: 1000 }, tx)
    };
    let (mut pats, mut ign) = (p.patterns.clone(), p.ignore.clone());
    if p.built { pats.push("**/*".into()); for x in ["**/.git/**", "**/node_modules/**"] { ign.push(x.into()); } }
    let wanted = |i: usize| !ign.iter().any(|g| matches(g, FILES[i])) && pats.iter().any(|g| matches(g, FILES[i]));
    let mut listed: BTreeSet<usize> = p.listed.iter().copied().collect();
    for i in &listed { w.add_resource(uri(&base, *i), info(&uri(&base, *i), "r")).await.unwrap(); }
    // listed, and easily confused with what is below
    for u in [format!("file://{}", base.display()), format!("file://{}/", base.display()), base.join("a.txt").display().to_string(), format!("file://{}/a.txt", beside.display()), "file:///a.txt".to_string(), format!("FILE://{}/a.txt", base.display())] { w.add_resource(u.clone(), info(&u, "other")).await.unwrap(); }
    let d = format!("{:?} in {}", p, base.display());
    let fail = |d: &str, want: String, got: String| Err((d.to_string(), want, got));
    if w.start().await.is_err() { return fail(&d, "started".into(), "an error".into()); }
    if p.twice { if w.start().await.is_err() { return fail(&d, "started again".into(), "an error".into()); } }
    tokio::time::sleep(ms(250)).await;
    let mut last_round = p.rounds.len();
    if p.stop { last_round += 1; }
    for k in 0..last_round {
        let stopped = p.stop && k == p.rounds.len();
        let ops = if stopped { vec![Op::Write(0), Op::Write(1), Op::Append(5)] } else { p.rounds[k].clone() };
        let d = format!("{}; round {}{}", d, k, if stopped { " (after stop)" } else { "" });
        if stopped { w.stop().await; tokio::time::sleep(ms(400)).await; }
        let mut touched: BTreeMap<usize, (Instant, Instant)> = BTreeMap::new();
        let mut events = 0;
        let mut changed = false;
        for o in &ops {
            let mut hit = |i: usize, t: Instant| { events += 1; touched.entry(i).and_modify(|x| x.1 = t).or_insert((t, t)); };
            let t = Instant::now();
            match o {
                Op::Write(i) => { std::fs::write(base.join(FILES[*i]), format!("{:?}", t)).unwrap(); hit(*i, t) },
                Op::Append(i) => { use std::io::Write; std::fs::OpenOptions::new().create(true).append(true).open(base.join(FILES[*i])).unwrap().write_all(b"x").unwrap(); hit(*i, t) },
                Op::Remove(i) => if std::fs::remove_file(base.join(FILES[*i])).is_ok() { hit(*i, t) },
                Op::Rename(i, j) => if i != j && std::fs::rename(base.join(FILES[*i]), base.join(FILES[*j])).is_ok() { hit(*i, t); hit(*j, t) },
                Op::Touch(i) => { use std::os::unix::fs::PermissionsExt; if std::fs::set_permissions(base.join(FILES[*i]), std::fs::Permissions::from_mode(0o600)).is_ok() { hit(*i, t) } },
                Op::Read(i) => { let _ = std::fs::read(base.join(FILES[*i])); std::fs::write(beside.join("a.txt"), "x").unwrap(); },
                Op::Add(i) => { changed = true; listed.insert(*i); w.add_resource(uri(&base, *i), info(&uri(&base, *i), "added")).await.unwrap(); },
                Op::Drop(i) => { changed = true; listed.remove(i); w.remove_resource(&uri(&base, *i)).await.unwrap(); },
                Op::Sleep(n) => tokio::time::sleep(ms(*n)).await,
            }
        }
        let took = touched.values().map(|x| x.0).min().map(|t| t.elapsed()).unwrap_or_default();
        // what was listed meanwhile may or may not have been announced already
        if changed && took + ms(100) >= ms(p.debounce) { gather(&mut rx, &BTreeSet::new(), ms(p.debounce + 700)).await; continue; }
        let due: BTreeSet<String> = if stopped { BTreeSet::new() } else { touched.keys().filter(|i| wanted(**i) && listed.contains(i)).map(|i| uri(&base, *i)).collect() };
        let got = gather(&mut rx, &due, ms(p.debounce + 450)).await;
        let shown: Vec<String> = got.iter().map(|(n, _)| format!("{:?}", n)).collect();
        for (n, t) in &got {
            let N::ResourceUpdated(x) = n else { return fail(&d, "only updated resources are announced".into(), format!("{:?}", n)) };
            if !due.contains(&x.uri) { return fail(&d, format!("announced are only {:?}", due), format!("{:?}", shown)); }
            let i = *touched.keys().find(|i| uri(&base, **i) == x.uri).unwrap();
            let last = touched[&i].1;
            let only = got.iter().filter(|(m, _)| matches!(m, N::ResourceUpdated(y) if y.uri == x.uri)).count() == 1;
            if only && *t + ms(1) < last + ms(p.debounce) { return fail(&d, format!("{} is announced {} ms after its last change", x.uri, p.debounce), format!("after {:?}", t.duration_since(last))); }
        }
        for u in &due {
            let n = got.iter().filter(|(n, _)| matches!(n, N::ResourceUpdated(x) if &x.uri == u)).count();
            if n == 0 { return fail(&d, format!("{} is announced", u), format!("{:?}", shown)); }
            // several changes within the debounce time are announced once
            if n > 1 && (took + ms(300) < ms(p.debounce) || n > 4 * events) { return fail(&d, format!("{} is announced once", u), format!("{:?}", shown)); }
        }
    }
    Ok(())
}
/// registrations against a model
async fn lists(r: &mut Rng) {
    let max = r.below(5);
    let (tx, _rx) = mpsc::channel(10);
    let dir = scratch();
    let w = if r.chance(50) { ResourceWatcherBuilder::new().max_resources(max).base_dir(&dir.0).build(tx).unwrap() } else { ResourceWatcher::new(&dir.0, WatchConfig { max_resources: max, ..Default::default() }, tx) };
    let uris = pool(r, &["file:///a", "file:///b", "x"], 4);
    let mut model: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut d = format!("at most {} resources", max);
    for k in 0..r.below(40) {
        let u = r.pick(&uris).clone();
        match r.below(6) {
            0 | 1 => { d.push_str(&format!("; remove {:?}", u)); tokio::task::unconstrained(w.remove_resource(&u)).now_or_never().unwrap().unwrap(); model.remove(&u); },
            _ => {
                let (n, told) = (format!("n{}", k), if r.chance(20) { r.pick(&uris).clone() } else { u.clone() });
                d.push_str(&format!("; add {:?} described as {:?} named {}", u, told, n));
                ensure(&d, tokio::task::unconstrained(w.add_resource(u.clone(), info(&told, &n))).now_or_never().unwrap().is_ok(), "accepted", "an error");
                if model.len() < max || model.contains_key(&u) { model.insert(u, (told, n)); }
            },
        }
        let got: Vec<ResourceInfo> = tokio::task::unconstrained(w.get_resources()).now_or_never().unwrap();
        let mut got: Vec<(String, String)> = got.into_iter().map(|x| (x.uri, x.name)).collect();
        got.sort();
        let mut want: Vec<(String, String)> = model.values().cloned().collect();
        want.sort();
        check(&d, want, got);
    }
}
fn builders() {
    let (tx, _rx) = mpsc::channel(1);
    let c = WatchConfig::default();
    check("default configuration", (ms(500), vec!["**/*".to_string()], ["**/.git/**", "**/node_modules/**", "**/.DS_Store", "**/target/**"].map(String::from).to_vec(), 10000), (c.debounce, c.patterns, c.ignore_patterns, c.max_resources));
    match ResourceWatcherBuilder::new().pattern("x").build(tx) { Ok(_) => cex("a builder without base directory", "an error", "a watcher"), Err(e) => ensure("a builder without base directory", e.to_string().contains("Base directory not specified"), "an error that says so", e.to_string()) }
}
fn main() {
    start();
    let mut r = Rng::new(26);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    case("the builder", true, builders);
    for _ in 0..300 { case("registrations", true, || rt.block_on(lists(&mut r))); }
    while time_left() {
        let ps: Vec<Plan> = (0..30).map(|_| plan(&mut r)).collect();
        case(&format!("watching: {:?}", ps[0]), true, || {
            let bad: Vec<(Plan, Result<(), Fail>)> = rt.block_on(async { futures::future::join_all(ps.iter().map(|p| { let p = p.clone(); async move { let x = watch(p.clone()).await; (p, x) } })).await });
            for (p, x) in bad {
                // what depends on how fast the machine is does not happen every time
                if x.is_err() { let again = (0..2).map(|_| rt.block_on(watch(p.clone()))).find(|y| y.is_ok()); if again.is_none() { let (d, want, got) = x.unwrap_err(); cex(&d, &want, &got); } }
            }
        });
        for _ in 0..40 { case("registrations", true, || rt.block_on(lists(&mut r))); }
    }
    done()
}
