#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::sse_parser::{SseEvent, SseParser, SseStream};

type Ev = (Option<String>, Option<String>, String, Option<u64>);
/// Reference decoder (EventSource rules for LF / CRLF line ends) over a whole stream.
#[derive(Clone, Default)]
struct Ref { line: String, event: Option<String>, data: String, retry: Option<u64>, last: Option<String>, out: Vec<Ev> }
impl Ref {
    fn feed(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                let mut l = std::mem::take(&mut self.line);
                if l.ends_with('\r') { l.pop(); }
                self.on_line(&l);
            } else { self.line.push(c) }
        }
    }
    fn on_line(&mut self, l: &str) {
        if l.is_empty() {
            if !self.data.is_empty() {
                let mut d = std::mem::take(&mut self.data);
                d.pop();
                self.out.push((self.last.clone(), self.event.clone(), d, self.retry));
            }
            self.event = None; self.data.clear(); self.retry = None;
            return;
        }
        if l.starts_with(':') { return }
        let (f, v) = match l.split_once(':') { Some((f, v)) => (f, v.strip_prefix(' ').unwrap_or(v)), None => (l, "") };
        match f {
            "event" => self.event = Some(v.to_string()),
            "data" => { self.data.push_str(v); self.data.push('\n') },
            "id" => if !v.contains('\0') { self.last = Some(v.to_string()) },
            "retry" => if let Ok(n) = v.parse::<u64>() { self.retry = Some(n) },
            _ => {},
        }
    }
}
fn ev(e: &SseEvent) -> Ev { (e.id.clone(), e.event.clone(), e.data.clone(), e.retry) }
const TOK: &[&str] = &[
    "data", "data:", "data: ", "event: ", "event", "id: ", "id", "retry: ", "retry:", ":", " ", "\n", "\r\n", "\n\n", "\r", "x", "é", "日本", "\u{1F600}",
    "\0", "12", "99999999999999999999", "18446744073709551615", "+3", "-1", "foo: bar", "data: a\n", "data:\n", "id: 7\n", "event: m\n", "retry: 5\n", "a:b", "\t", "DATA: y\n", "data : z\n", " data: q\n", ": c\n",
];
fn stream(r: &mut Rng) -> String {
    let n = 1 + r.below(14);
    (0..n).map(|_| *r.pick(TOK)).collect()
}
fn one(s: &str, cuts: &[usize], reset_at: Option<usize>) {
    let desc = format!("text {:?} fed in pieces cut at {:?}{}", s, cuts, match reset_at { Some(i) => format!(", reset before piece {}", i), None => String::new() });
    case(&desc, !cuts.is_empty(), || {
        let mut p = SseParser::new();
        let mut q = Ref::default();
        let mut a = 0;
        for (k, &c) in cuts.iter().chain(std::iter::once(&s.len())).enumerate() {
            if reset_at == Some(k) {
                p.reset();
                q.line.clear(); q.event = None; q.data.clear(); q.retry = None;
            }
            let piece = &s[a..c];
            a = c;
            let got: Vec<Ev> = p.feed(piece).iter().map(ev).collect();
            q.out.clear();
            q.feed(piece);
            check(&desc, q.out.clone(), got);
            check(&desc, q.last.clone(), p.last_event_id().map(|s| s.to_string()));
        }
    })
}
fn boundaries(s: &str) -> Vec<usize> { (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect() }
fn field(r: &mut Rng) -> String {
    const P: &[&str] = &["", "a", " a", "é", ":", "日", "data: x", "id", "  ", "7", "message", "\t"];
    let n = r.below(4);
    (0..n).map(|_| *r.pick(P)).collect()
}
fn payload(r: &mut Rng) -> String {
    const P: &[&str] = &["", "a", "\n", "\n\n", " ", "é", ":", "data: x", "日本", "id: 3", "{\"a\":1}"];
    let n = r.below(6);
    (0..n).map(|_| *r.pick(P)).collect()
}
fn main() {
    start();
    let mut r = Rng::new(1);
    for s in ["data: é\r\n\r\n", "data: 日本\r\nid: é\r\n\r\n", "data\n\n", "data:\n\n", "data:\ndata: x\n\n", "data: x\ndata:\n\n", "event: e\n\nid: 1\n\ndata: y\n\n", "id: 1\ndata: a\n\ndata: b\n\n", "id: a\0b\ndata: x\n\n", "id\ndata: x\n\n", "data:  two\n\n", "retry: 10\ndata: x\n\nretry: x\ndata: y\n\n"] {
        let b = boundaries(s);
        one(s, &[], None);
        for &i in &b { one(s, &[i], None); one(s, &[i], Some(1)); }
        one(s, &b, None);
    }
    while time_left_frac(0.6) {
        let s = stream(&mut r);
        let b = boundaries(&s);
        let n = r.below(4);
        let mut cuts: Vec<usize> = (0..n).map(|_| *r.pick(&b)).collect();
        cuts.sort();
        let reset = if r.chance(10) { Some(r.below(n + 1)) } else { None };
        one(&s, &cuts, reset);
    }
    // encode / decode
    let fixed: Vec<Vec<Ev>> = vec![
        vec![(None, None, "".into(), None)], vec![(None, None, "\n".into(), None)], vec![(None, None, "a\n".into(), None)],
        vec![(None, None, "\na".into(), Some(0))], vec![(Some("".into()), Some("".into()), "x\n\ny".into(), Some(u64::MAX))],
    ];
    let mut k = 0;
    while k < fixed.len() || time_left() {
        let es: Vec<Ev> = if k < fixed.len() { fixed[k].clone() } else {
            (0..1 + r.below(3)).map(|_| (
                if r.chance(50) { Some(field(&mut r)) } else { None }, if r.chance(50) { Some(field(&mut r)) } else { None }, payload(&mut r),
                if r.chance(40) { Some(*r.pick(&[0u64, 1, 3000, u64::MAX, 10])) } else { None })).collect()
        };
        k += 1;
        let desc = format!("encode then decode {:?}", es);
        case(&desc, true, || {
            let mut want = vec![]; let mut last = None;
            let mut st = SseStream::new(); let mut text = String::new();
            for e in &es {
                let mut x = SseEvent::new(e.2.clone());
                if let Some(i) = &e.0 { x = x.with_id(i.clone()); last = Some(i.clone()); }
                if let Some(i) = &e.1 { x = x.with_event(i.clone()); }
                if let Some(i) = e.3 { x = x.with_retry(i); }
                check(&desc, e.clone(), ev(&x));
                text.push_str(&x.to_string());
                st = st.event(x);
                want.push((last.clone(), e.1.clone(), e.2.clone(), e.3));
            }
            check(&desc, text.clone(), st.build());
            let got: Vec<Ev> = SseParser::new().feed(&text).iter().map(ev).collect();
            check(&desc, want, got);
        });
    }
    done()
}
