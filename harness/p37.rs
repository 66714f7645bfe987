// P37: completions, arguments, questions and capability sets (files of its own scratch directory only)
#[path = "common.rs"]
mod common;
use common::*;
use futures::FutureExt;
use pmcp::types::capabilities::*;
use pmcp::types::completable::*;
use pmcp::types::elicitation::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::ffi::OsString;
use std::path::{Path, PathBuf};

fn now<T>(f: impl std::future::Future<Output = T>) -> T { tokio::task::unconstrained(f).now_or_never().expect("answered at once") }
fn ask(partial: &str) -> CompletionRequest { CompletionRequest { argument: "a".into(), partial: partial.into(), context: HashMap::new() } }
fn row(i: &CompletionItem) -> Value { json!([i.value, i.label, i.description, i.icon, i.metadata]) }
fn fixed(r: &mut Rng) {
    let texts = pool(r, &["ab", "a", "abc", "", "Ab", "é", "b", " ab"], 6);
    let strings = r.chance(30);
    let items: Vec<CompletionItem> = (0..r.below(12)).map(|k| CompletionItem {
        value: r.pick(&texts).clone(), label: if !strings && r.chance(50) { Some(r.pick(&texts).clone()) } else { None },
        description: if !strings && r.chance(30) { Some(r.pick(&texts).clone()) } else { None }, icon: if !strings && r.chance(20) { Some("i".into()) } else { None },
        metadata: if !strings && r.chance(20) { HashMap::from([("k".to_string(), json!(k))]) } else { HashMap::new() },
    }).collect();
    let rows: Vec<Value> = items.iter().map(row).collect();
    let p = if strings { StaticCompletionProvider::from_strings(items.iter().map(|i| i.value.clone()).collect()) } else { StaticCompletionProvider::new(items) };
    for _ in 0..4 {
        let t = match r.below(4) { 0 => near(r, "ab"), 1 => String::new(), _ => r.pick(&texts).clone() };
        let want: Vec<Value> = rows.iter().filter(|i| [&i[0], &i[1]].iter().any(|x| x.as_str().is_some_and(|x| x.as_bytes().starts_with(t.as_bytes())))).cloned().collect();
        let a = now(p.complete(ask(&t)));
        let got = a.as_ref().map(|a| (a.completions.iter().map(row).collect::<Vec<_>>(), a.has_more, a.continuation_token.clone())).map_err(|e| e.to_string());
        check(&format!("offered from {:?} for {:?}", rows, t), Ok((want, false, None)), got);
    }
}
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn scratch() -> Scratch {
    static K: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::var("H_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir()).join(format!("p37-{}-{}", std::process::id(), K.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p.canonicalize().unwrap())
}
const NAMES: [&str; 22] = ["a", "a.txt", "a.json", "a.TXT", "ab.txt", "b.txt", ".txt", "txt", "a.txt.bak", "a.tar.txt", "A.txt", "é.txt", "with space.txt", ".hidden", "sub", "sub2", "sub.txt", "s", "a.", "z", "..a", "Z.json"];
fn files(r: &mut Rng) {
    let s = scratch();
    let base = s.0.join("base");
    std::fs::create_dir_all(&base).unwrap();
    let (mut told, mut dirs) = (vec![], vec![base.clone()]);
    for d in ["sub", "sub2", "sub/deep", "sub.txt"] { if r.chance(70) { std::fs::create_dir_all(base.join(d)).unwrap(); dirs.push(base.join(d)); } }
    for d in dirs.clone() {
        for n in NAMES {
            let f = d.join(n);
            if r.chance(45) && !f.exists() {
                match r.below(8) { 0 => { std::fs::create_dir(&f).unwrap(); }, 1 => { let _ = std::os::unix::fs::symlink(r.pick(&["sub", "a", "nowhere"]), &f); }, _ => std::fs::write(&f, "").unwrap() }
                told.push(f.strip_prefix(&base).unwrap().display().to_string());
            }
        }
        if r.chance(20) { use std::os::unix::ffi::OsStringExt; std::fs::write(d.join(OsString::from_vec(b"a\xff.txt".to_vec())), "").unwrap(); }
    }
    for _ in 0..6 {
        let exts: Option<Vec<String>> = if r.chance(50) { Some((0..r.below(3)).map(|_| r.pick(&["txt", "json", "TXT", "bak", "", ".txt", "tar.txt", "a"]).to_string()).collect()) } else { None };
        let mut t = r.pick(&["", "a", "a.", "a.t", "A", "s", "sub", "sub/", "sub/a", "sub2/", "./", "./a", ".", "..", "sub/..", "sub/../a", "sub//a", "sub/deep/", "missing/a", "é", ".t", "z", "b", "sub/deep/a.txt", "w", "a/", "sub/."]).to_string();
        if r.chance(15) { t = g_text(r).replace(['/', '\0'], ""); }
        let absolute = r.chance(20);
        if absolute { t = base.join(&t).display().to_string(); }
        // relative ones never below the working directory: a base is always given
        let given = if absolute && r.chance(50) { s.0.join("elsewhere") } else { base.clone() };
        let mut p = if r.chance(50) { FileCompletionProvider::new() } else { FileCompletionProvider::default() };
        if !absolute || r.chance(70) { p = p.with_base_dir(given.clone()); }
        if let Some(e) = &exts { p = p.with_extensions(e.clone()); }
        let (dir, prefix) = if t.ends_with('/') { (PathBuf::from(&t), String::new()) } else { (Path::new(&t).parent().map_or(PathBuf::from("."), Path::to_path_buf), Path::new(&t).file_name().map_or(String::new(), |n| n.to_str().unwrap().to_string())) };
        let at = if dir.is_absolute() { dir.clone() } else { given.join(&dir) };
        let mut want: Vec<Value> = vec![];
        for e in std::fs::read_dir(&at).into_iter().flatten().flatten() {
            let Ok(n) = e.file_name().into_string() else { continue };
            if !n.as_bytes().starts_with(prefix.as_bytes()) { continue; }
            let is_dir = e.file_type().unwrap().is_dir();
            // the extension: what follows the last dot, unless the name starts with it
            let x = match n.rfind('.') { Some(i) if i > 0 && n != ".." => Some(n[i + 1..].to_string()), _ => None };
            if !is_dir && exts.as_ref().is_some_and(|l| x.is_none() || !l.contains(x.as_ref().unwrap())) { continue; }
            let v = if t.is_empty() { n.clone() } else { dir.join(&n).display().to_string() };
            want.push(json!([v, n, if is_dir { "Directory" } else { "File" }, if is_dir { "📁" } else { "📄" }, {}]));
        }
        want.sort_by(|a, b| a[0].as_str().unwrap().as_bytes().cmp(b[0].as_str().unwrap().as_bytes()));
        let a = now(p.complete(ask(&t)));
        let got = a.as_ref().map(|a| (a.completions.iter().map(row).collect::<Vec<_>>(), a.has_more, a.continuation_token.clone())).map_err(|e| e.to_string());
        check(&format!("files {:?} below {}, extensions {:?}, {:?} typed", told, base.display(), exts, t), Ok((want, false, None)), got);
    }
}
fn argument(r: &mut Rng) {
    let n = g_text(r);
    let mut b = if r.chance(50) { completable(n.as_str()) } else { CompletableBuilder::new(n.clone()) };
    let (mut d, mut want) = (format!("argument {:?}", n), json!({"name": n, "required": false}));
    for _ in 0..r.below(6) {
        match r.below(4) {
            0 => { let t = g_text(r); d += &format!(".description({:?})", t); b = b.description(t.clone()); want["description"] = json!(t); },
            1 => { d += ".required()"; b = b.required(); want["required"] = json!(true); },
            2 => { let v: Vec<String> = (0..r.below(4)).map(|_| g_text(r)).collect(); d += &format!(".static_completions({:?})", v); b = b.static_completions(v.clone()); want["completion"] = json!({"provider": "static", "values": v}); },
            _ => { d += ".file_completions()"; b = b.file_completions(); want["completion"] = json!({"provider": "file"}); },
        }
    }
    check(&d, want, serde_json::to_value(b.build()).unwrap());
}
fn option(r: &mut Rng) -> SelectOption { SelectOption { value: g_json(r, 1), label: g_text(r), description: if r.chance(30) { Some(g_text(r)) } else { None }, disabled: r.chance(30) } }
fn question(r: &mut Rng) {
    let p = g_text(r);
    let kinds = [(InputType::Text, "text"), (InputType::Textarea, "textarea"), (InputType::Boolean, "boolean"), (InputType::Number, "number"), (InputType::Select, "select"), (InputType::MultiSelect, "multiSelect"), (InputType::FilePath, "filePath"), (InputType::DirectoryPath, "directoryPath"), (InputType::Password, "password"), (InputType::Date, "date"), (InputType::Time, "time"), (InputType::DateTime, "dateTime"), (InputType::Color, "color"), (InputType::Url, "url"), (InputType::Email, "email")];
    let rule = |v: &mut Value, k: &str, x: Value| { if v["validation"].is_null() { v["validation"] = json!({"required": false}); } v["validation"][k] = x; };
    let (mut b, mut d, mut want) = match r.below(7) {
        0 => (elicit_text(p.as_str()), "elicit_text".to_string(), json!({"inputType": "text"})),
        1 => (elicit_boolean(p.clone()), "elicit_boolean".to_string(), json!({"inputType": "boolean"})),
        2 => (elicit_number(p.clone()), "elicit_number".to_string(), json!({"inputType": "number"})),
        3 => (elicit_file(p.clone()), "elicit_file".to_string(), json!({"inputType": "filePath"})),
        4 => { let o: Vec<SelectOption> = (0..r.below(4)).map(|_| option(r)).collect(); let mut w = json!({"inputType": "select"}); rule(&mut w, "options", json!(o)); (elicit_select(p.clone(), o), "elicit_select".to_string(), w) },
        _ => { let (k, n) = r.pick(&kinds).clone(); (ElicitInputBuilder::new(k, p.clone()), format!("new({})", n), json!({"inputType": n})) },
    };
    d += &format!(" {:?}", p);
    want["prompt"] = json!(p);
    let mut id: Option<String> = None;
    let mut extra = Map::new();
    for _ in 0..r.below(9) {
        match r.below(9) {
            0 => { let t = g_text(r); d += &format!(".id({:?})", t); b = b.id(t.clone()); id = Some(t); },
            1 => { let t = g_text(r); d += &format!(".description({:?})", t); b = b.description(t.clone()); want["description"] = json!(t); },
            2 => { let v = match r.below(3) { 0 => json!(g_text(r)), 1 => json!(7), _ => json!([g_json(r, 1)]) }; d += &format!(".default({})", v); b = b.default(v.clone()); want["default"] = v; },
            3 => { d += ".required()"; b = b.required(); rule(&mut want, "required", json!(true)); },
            4 => { let x = r.below(9) as f64 / 2.0 - 1.0; d += &format!(".min({})", x); b = b.min(x); rule(&mut want, "min", json!(x)); },
            5 => { let x = r.below(9) as f64 / 2.0 - 1.0; d += &format!(".max({})", x); b = b.max(x); rule(&mut want, "max", json!(x)); },
            6 => { let t = g_text(r); d += &format!(".pattern({:?})", t); b = b.pattern(t.clone()); rule(&mut want, "pattern", json!(t)); },
            7 => { let o: Vec<SelectOption> = (0..r.below(3)).map(|_| option(r)).collect(); d += &format!(".options({})", json!(o)); b = b.options(o.clone()); rule(&mut want, "options", json!(o)); },
            _ => { let (k, v) = (format!("x{}", r.pick(&["", "1", "é", "X"])), g_json(r, 1)); d += &format!(".metadata({:?}, {})", k, v); b = b.metadata(k.clone(), v.clone()); extra.insert(k, v); },
        }
    }
    let q = b.build();
    match &id { Some(i) => check(&d, i.clone(), q.elicitation_id.clone()), None => ensure(&d, uuid::Uuid::parse_str(&q.elicitation_id).is_ok_and(|u| u.get_version_num() == 4), "a random id", q.elicitation_id.clone()) }
    check(&d, Value::Object(extra), json!(q.metadata));
    let mut got = serde_json::to_value(&q).unwrap();
    for k in q.metadata.keys() { got.as_object_mut().unwrap().remove(k); }
    got.as_object_mut().unwrap().remove("elicitationId");
    check(&d, want, got);
}
fn sets() {
    let (l, s) = (json!({"listChanged": true}), json!({"subscribe": true, "listChanged": true}));
    check("ServerCapabilities::minimal", json!({}), json!(ServerCapabilities::minimal()));
    check("ServerCapabilities::tools_only", json!({"tools": l}), json!(ServerCapabilities::tools_only()));
    check("ServerCapabilities::prompts_only", json!({"prompts": l}), json!(ServerCapabilities::prompts_only()));
    check("ServerCapabilities::resources_only", json!({"resources": s}), json!(ServerCapabilities::resources_only()));
    check("ClientCapabilities::minimal", json!({}), json!(ClientCapabilities::minimal()));
    check("ClientCapabilities::full", json!({"tools": l, "prompts": l, "resources": s, "logging": {"levels": ["debug", "info", "warning", "error"]}, "sampling": {}, "roots": l}), json!(ClientCapabilities::full()));
    for bits in 0..64u8 {
        let on = |i: u8| bits >> i & 1 == 1;
        let s = ServerCapabilities { tools: on(0).then(Default::default), prompts: on(1).then(Default::default), resources: on(2).then(Default::default), sampling: on(3).then(Default::default), logging: on(4).then(Default::default), completions: on(5).then(Default::default), ..Default::default() };
        check(&format!("provided: {}", json!(s)), (on(0), on(1), on(2)), (s.provides_tools(), s.provides_prompts(), s.provides_resources()));
        let c = ClientCapabilities { tools: on(0).then(Default::default), prompts: on(1).then(Default::default), resources: on(2).then(Default::default), sampling: on(3).then(Default::default), logging: on(4).then(Default::default), roots: on(5).then(Default::default), ..Default::default() };
        check(&format!("supported: {}", json!(c)), (on(0), on(1), on(2), on(3)), (c.supports_tools(), c.supports_prompts(), c.supports_resources(), c.supports_sampling()));
    }
}
fn main() {
    start();
    let mut r = Rng::new(37);
    case("capability sets", true, sets);
    while time_left() {
        case("a fixed list", true, || fixed(&mut r));
        case("files", true, || files(&mut r));
        case("an argument", true, || argument(&mut r));
        case("a question", true, || question(&mut r));
    }
    done()
}
