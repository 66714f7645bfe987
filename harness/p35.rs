#[path = "common.rs"]
mod common;
use common::*;
use pmcp::utils::json_simd::{parse_json_batch, parse_json_fast, pretty_print_fast, serialize_json_fast};
use serde_json::Value;

/// a JSON text (often valid) with white space in odd places
fn g_src(r: &mut Rng) -> Vec<u8> {
    let d = 1 + r.below(3);
    let v = g_json(r, d);
    let mut b = if r.chance(40) { serde_json::to_vec_pretty(&v).unwrap() } else { serde_json::to_vec(&v).unwrap() };
    let dense = *r.pick(&[0, 0, 10, 40, 90]);
    if dense > 0 {
        // white space anywhere: also inside strings, numbers and words
        let mut o = vec![];
        let struct_only = r.chance(60);
        let (mut ins, mut esc) = (false, false);
        for c in b {
            let free = !ins && (!struct_only || b"{}[],:\"".contains(&c));
            if free || !struct_only { if r.below(100) < dense { for _ in 0..1 + r.below(3) { o.push(*r.pick(b"  \t\n\r")); } } }
            o.push(c);
            if ins { if esc { esc = false } else if c == b'\\' { esc = true } else if c == b'"' { ins = false } } else if c == b'"' { ins = true }
            if free && !ins && r.below(100) < dense { o.push(*r.pick(b" \t\n\r")); }
        }
        b = o;
    }
    if r.chance(15) { let n = r.below(40); let mut o = vec![b' '; n]; o.extend(b); b = o; }
    if r.chance(15) { for _ in 0..r.below(40) { b.push(*r.pick(b" \n")); } }
    match r.below(14) {
        0 if !b.is_empty() => { let i = r.below(b.len()); b[i] = r.next() as u8; },
        1 if !b.is_empty() => { b.pop(); },
        2 => { let i = r.below(b.len() + 1); b.insert(i, *r.pick(b"\\\" 1,]}\x80\xff\xc3\x0b\x0c")); },
        3 => { b.extend_from_slice(r.pick(&[&b" 2"[..], b" true", b"\"", b" \"x\"", b"\x0b", b"\xef\xbb\xbf", b"\xed\xa0\x80"])); },
        _ => {},
    }
    b
}
fn strip(b: &[u8]) -> Vec<u8> {
    let (mut o, mut ins, mut esc) = (vec![], false, false);
    for &c in b {
        if ins { o.push(c); if esc { esc = false } else if c == b'\\' { esc = true } else if c == b'"' { ins = false } }
        else if !b" \t\n\r".contains(&c) { o.push(c); if c == b'"' { ins = true } }
    }
    o
}
fn show(x: &Result<Value, serde_json::Error>) -> Option<String> { x.as_ref().ok().map(|v| v.to_string()) }
fn main() {
    start();
    limit_ms(5000);
    let mut r = Rng::new(35);
    while time_left() {
        let b = g_src(&mut r);
        match r.below(4) {
            0 | 1 => {
                let s = format!("parse_json_fast of the text {:?} (bytes {:?})", String::from_utf8_lossy(&b), b);
                let got: Result<Value, _> = case(&s, b.len() > 32, || parse_json_fast(&b));
                let want: Result<Value, _> = serde_json::from_slice(&b);
                check(&s, show(&want), show(&got));
            },
            2 => {
                let bs: Vec<Vec<u8>> = (0..r.below(5)).map(|_| if r.chance(20) { vec![] } else { g_src(&mut r) }).collect();
                let s = format!("parse_json_batch of the texts {:?}", bs.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>());
                let rs: Vec<&[u8]> = bs.iter().map(|b| &b[..]).collect();
                let got: Vec<Result<Value, _>> = case(&s, bs.len() > 1, || parse_json_batch(&rs));
                let want: Vec<_> = bs.iter().map(|b| show(&serde_json::from_slice(b))).collect();
                check(&s, want, got.iter().map(show).collect::<Vec<_>>());
            },
            _ => {
                let d = 1 + r.below(3);
                let v = g_json(&mut r, d);
                let s = format!("serialize_json_fast of {}", v);
                let got = case(&s, true, || serialize_json_fast(&v));
                check(&s, serde_json::to_vec(&v).ok(), got.ok());
                let s = format!("pretty_print_fast of {}", v);
                let got = case(&s, true, || pretty_print_fast(&v)).ok();
                check(&s, Some(String::from_utf8(strip(&serde_json::to_vec(&v).unwrap())).unwrap()), got.as_ref().map(|t| String::from_utf8(strip(t.as_bytes())).unwrap()));
                check(&format!("{}, read back", s), Some(v), got.and_then(|t| serde_json::from_str(&t).ok()));
            },
        }
    }
    done()
}
