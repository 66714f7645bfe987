#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::UriTemplate;
use std::collections::HashMap;

/// RFC 6570 over string variables, written from the RFC's table
fn pct(s: &str, reserved: bool) -> String {
    let b = s.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let unres = c.is_ascii_alphanumeric() || b"-._~".contains(&c);
        let res = b":/?#[]@!$&'()*+,;=".contains(&c);
        if unres || (reserved && res) { o.push(c as char); i += 1; }
        else if reserved && c == b'%' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() { o.push_str(&s[i..i + 3]); i += 3; }
        else { o.push_str(&format!("%{:02X}", c)); i += 1; }
    }
    o
}
enum Part { Lit(String), Ex(char, Vec<(String, Option<usize>)>) }
fn name_ok(n: &str) -> bool {
    let b = n.as_bytes();
    !b.is_empty() && (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
fn parse(t: &str) -> Option<Vec<Part>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut rest = t;
    while let Some(c) = rest.chars().next() {
        let inner = if c == '{' { rest[1..].find('}').filter(|k| *k > 0).map(|k| &rest[1..1 + k]) } else { None };
        match inner {
            None => { lit.push(c); rest = &rest[c.len_utf8()..]; },
            Some(e) => {
                if !lit.is_empty() { out.push(Part::Lit(std::mem::take(&mut lit))); }
                let op = e.chars().next().unwrap();
                let (op, vars) = if "+#./;?&".contains(op) { (op, &e[1..]) } else { (' ', e) };
                let mut v = vec![];
                for s in vars.split(',') {
                    let s = s.trim();
                    if s.is_empty() { return None; }
                    if let Some(n) = s.strip_suffix('*') { if !name_ok(n) { return None; } v.push((n.to_string(), None)); }
                    else if let Some(k) = s.find(':') {
                        let l: usize = s[k + 1..].parse().ok()?;
                        if !name_ok(&s[..k]) || l == 0 || l > 10000 { return None; }
                        v.push((s[..k].to_string(), Some(l)));
                    } else { if !name_ok(s) { return None; } v.push((s.to_string(), None)); }
                }
                out.push(Part::Ex(op, v));
                rest = &rest[e.len() + 2..];
            },
        }
    }
    if !lit.is_empty() { out.push(Part::Lit(lit)); }
    Some(out)
}
fn expand(p: &[Part], vars: &HashMap<String, String>) -> String {
    let mut o = String::new();
    for x in p {
        match x {
            Part::Lit(t) => o.push_str(t),
            Part::Ex(op, v) => {
                let (first, sep, named, ifemp, res) = match op {
                    '+' => ("", ",", false, "", true), '#' => ("#", ",", false, "", true), '.' => (".", ".", false, "", false), '/' => ("/", "/", false, "", false),
                    ';' => (";", ";", true, "", false), '?' => ("?", "&", true, "=", false), '&' => ("&", "&", true, "=", false), _ => ("", ",", false, "", false),
                };
                let mut n = 0;
                for (name, len) in v {
                    let Some(val) = vars.get(name) else { continue };
                    o.push_str(if n == 0 { first } else { sep });
                    n += 1;
                    let e: String = match len { Some(l) => val.chars().take(*l).collect(), None => val.clone() };
                    if named { o.push_str(name); o.push_str(if val.is_empty() { ifemp } else { "=" }); }
                    o.push_str(&pct(&e, res));
                }
            },
        }
    }
    o
}
const NAMES: &[&str] = &["a", "b", "var", "x_1", "_p", "AB", "id"];
fn g_expr(r: &mut Rng) -> String {
    let mut s = String::from("{");
    s.push_str(["", "", "", "+", "#", ".", "/", ";", "?", "&"][r.below(10)]);
    let n = 1 + r.below(4);
    for i in 0..n {
        if i > 0 { s.push_str(if r.chance(85) { "," } else { " , " }); }
        s.push_str(NAMES[r.below(NAMES.len())]);
        match r.below(10) { 0 => s.push('*'), 1 | 2 => s.push_str(&format!(":{}", [1, 2, 3, 5, 30, 9999, 10000][r.below(7)])), _ => {} }
    }
    s.push('}');
    s
}
fn g_bad(r: &mut Rng) -> String {
    ["{1a}", "{a-b}", "{}", "{ }", "{a,}", "{,a}", "{+}", "{a:0}", "{a:10001}", "{a:}", "{a:x}", "{a:-1}", "{a**}", "{*}", "{a:3*}", "{a*:3}", "{a b}", "{é}", "{aé}", "{=a}", "{{a}}", "{a", "a}", "{a{b}", "{}}", "{+ a}", "{a\n}", "{?a,1}", "{a:99999999999999999999}", "{:3}", "{a:+4}", "{a:007}", "{!a}", "{++a}", "{:}", "{a.b}"][r.below(36)].to_string()
}
fn g_val(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => ["é", "日本語", "aé日b", "😀x", "%41", "%4", "%", "100%", "%zz", "a%2", "%C3%A9", "%-41"][r.below(12)].to_string(),
        2 => ":/?#[]@!$&'()*+,;=-._~%".chars().collect::<Vec<_>>()[r.below(23)].to_string(),
        3 => "a b\"<>\\^`{|}\u{0}\u{7f}\n\t".to_string(),
        4 => ":/?#[]@!$&'()*+,;=-._~09azAZ".to_string(),
        5 => (0..r.below(40)).map(|_| char::from_u32([0x41, 0xe9, 0x65e5, 0x1f600, 0x25, 0x2f][r.below(6)]).unwrap()).collect(),
        _ => g_text(r),
    }
}
fn main() {
    start();
    let mut r = Rng::new(28);
    while time_left() {
        let mut t = String::new();
        let mut bad = false;
        for _ in 0..(1 + r.below(5)) {
            match r.below(10) {
                0..=2 => t.push_str(["/", "http://h/", "x", "é", "%20", "?q=1", " ", "}", "日", "a,b"][r.below(10)]),
                3 => t.push_str(&g_text(&mut r).replace('{', "(")),
                4 if r.chance(30) => { bad = true; t.push_str(&g_bad(&mut r)) },
                _ => t.push_str(&g_expr(&mut r)),
            }
        }
        let mut vars: HashMap<String, String> = HashMap::new();
        for n in NAMES { if r.chance(60) { vars.insert(n.to_string(), g_val(&mut r)); } }
        let desc = format!("template {:?} with {:?}", t, vars.iter().collect::<std::collections::BTreeMap<_, _>>());
        case(&desc, !bad, || {
            let want = parse(&t);
            let got = UriTemplate::new(t.clone());
            ensure(&desc, want.is_some() == got.is_ok(), if want.is_some() { "a well-formed template" } else { "refused" }, got.as_ref().err().map(|e| e.to_string()));
            let (Some(p), Ok(u)) = (want, got) else { return };
            let e = expand(&p, &vars);
            check(&desc, e.clone(), u.expand_with_map(&vars).unwrap());
            // pairs: a later value for a name replaces an earlier one
            let mut pairs: Vec<(String, String)> = vars.iter().filter(|(k, _)| k.as_str() < "b").map(|(k, _)| (k.clone(), "old".to_string())).collect();
            pairs.extend(vars.iter().map(|(k, v)| (k.clone(), v.clone())));
            check(&desc, e, u.expand(&pairs).unwrap());
            let names: Vec<String> = p.iter().flat_map(|x| match x { Part::Ex(_, v) => v.iter().map(|x| x.0.clone()).collect(), _ => vec![] }).collect();
            check(&format!("variables of {}", desc), names, u.variables());
            check(&desc, t.clone(), u.to_string());
        });
    }
    done()
}
