// P39: matching a URI against a template
#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::uri_template::UriTemplate;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
enum Part { Text(Vec<char>), One(char, String), Many }
fn lead(op: char, n: &str) -> Vec<char> {
    match op { '#' | '.' | '/' => vec![op], ';' | '?' | '&' => format!("{}{}=", op, n).chars().collect(), _ => vec![] }
}
fn stops(op: char, c: char) -> bool {
    match op { '#' | '*' => c == '\n', '.' => c == '.', ';' => c == ';' || c == '&', '?' | '&' => c == '&', _ => c == '/' }
}
/// every way to read u[at..] as the parts from i on
fn ways(ps: &[Part], i: usize, u: &[char], at: usize, cur: &mut BTreeMap<String, String>, out: &mut BTreeSet<BTreeMap<String, String>>, steps: &mut usize) {
    *steps += 1;
    if *steps > 60_000 { return; }
    if i == ps.len() { if at == u.len() { out.insert(cur.clone()); } return; }
    let (op, name) = match &ps[i] {
        Part::Text(t) => { if u[at..].starts_with(t) { ways(ps, i + 1, u, at + t.len(), cur, out, steps); } return; },
        Part::One(op, n) => (*op, Some(n)),
        Part::Many => ('*', None),
    };
    let l = name.map(|n| lead(op, n)).unwrap_or_default();
    if !u[at..].starts_with(&l) { return; }
    let b = at + l.len();
    let mut e = b;
    while e < u.len() && !stops(op, u[e]) {
        e += 1;
        let p: String = u[b..e].iter().collect();
        match name {
            Some(n) => { let old = cur.insert(n.clone(), p); ways(ps, i + 1, u, e, cur, out, steps); match old { Some(o) => { cur.insert(n.clone(), o); }, None => { cur.remove(n); } } },
            None => ways(ps, i + 1, u, e, cur, out, steps),
        }
    }
}
fn piece(r: &mut Rng, simple: bool) -> String {
    if simple || r.chance(50) { let n = 1 + r.below(4); return (0..n).map(|_| *r.pick(&['a', 'b', '1', '-', '~', 'é'])).collect(); }
    let mut s = g_text(r);
    if r.chance(30) { s.push(*r.pick(&['/', '.', '&', ';', '\n', '=', '?', '#'])); }
    s.chars().take(6).collect()
}
fn main() {
    start();
    let mut r = Rng::new(39);
    while time_left() {
        let names = ["a", "b", "id", "A", "_x1", "x_y"];
        let mut t = String::new();
        let mut ps: Vec<Part> = vec![];
        let n = 1 + r.below(5);
        let tame = r.chance(40);
        let mut u = String::new();
        // sometimes exactly one expression is written almost right
        let wrong = if r.chance(45) { r.below(n) } else { n };
        for k in 0..n {
            if r.chance(45) {
                let l: String = if tame || r.chance(50) { r.pick(&["/", "/users/", "x", "://", "a.b", "(+)", "[^/]", "|", "\\d", "^", "$", "?", ".*"]).to_string() } else { g_text(&mut r).chars().filter(|c| *c != '{' && *c != '}').take(6).collect() };
                if l.is_empty() { continue; }
                t.push_str(&l); u.push_str(&l); ps.push(Part::Text(l.chars().collect()));
            } else {
                let op = *r.pick(&[' ', ' ', ' ', '+', '#', '.', '/', ';', '?', '&']);
                let o = if op == ' ' { String::new() } else { op.to_string() };
                if r.chance(25) {
                    t.push_str(&format!("{{{}{},{}}}", o, r.pick(&names), r.pick(&names)));
                    if !(k == wrong && r.chance(50)) { u.push_str(&piece(&mut r, tame)); }
                    ps.push(Part::Many);
                } else {
                    let v = r.pick(&names).to_string();
                    t.push_str(&format!("{{{}{}{}}}", o, v, r.pick(&["", "", ":3", "*"])));
                    let (mut l, mut p) = (lead(op, &v), piece(&mut r, tame));
                    if k == wrong {
                        match r.below(5) {
                            0 => p.clear(),
                            1 | 2 if !l.is_empty() => { let i = r.below(l.len()); l[i] = *r.pick(&['x', '.', '/', '#', 'a', '=', '&', '?', 'X']); },
                            3 if !l.is_empty() => { let i = r.below(l.len()); if r.chance(50) { l.remove(i); } else { let c = l[i]; l.insert(i, c); } },
                            _ => { let at = r.below(p.chars().count() + 1); p = p.chars().take(at).chain(std::iter::once(*r.pick(&['/', '.', '&', ';', '\n', '\r', ',', '?', '#', '=']))).chain(p.chars().skip(at)).collect(); },
                        }
                    }
                    u.extend(l); u.push_str(&p); ps.push(Part::One(op, v));
                }
            }
        }
        if r.chance(12) { u = near(&mut r, &u); }
        if r.chance(3) { u.clear(); }
        let desc = format!("template {:?} matched against {:?}", t, u);
        let uc: Vec<char> = u.chars().collect();
        let (mut out, mut steps) = (BTreeSet::new(), 0);
        ways(&ps, 0, &uc, 0, &mut BTreeMap::new(), &mut out, &mut steps);
        if steps > 60_000 { continue; }
        let got = case(&desc, n > 1 && !out.is_empty(), || UriTemplate::new(t.clone()).map(|x| x.match_uri(&u)));
        match got {
            Err(e) => cex(&desc, "a template", &e.to_string()),
            Ok(None) => ensure(&desc, out.is_empty(), &format!("a match such as {:?}", out.iter().next()), "no match"),
            Ok(Some(m)) => {
                let m: BTreeMap<String, String> = m.into_iter().collect();
                ensure(&desc, out.contains(&m), &match out.len() { 0 => "no match".to_string(), _ => format!("one of {:?}", out.iter().take(4).collect::<Vec<_>>()) }, format!("{:?}", m));
            },
        }
    }
    done()
}
