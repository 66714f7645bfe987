#[path = "common.rs"]
mod common;
use common::*;
use pmcp::simd::{batch, compression, json, serialization};

/// bytes that look like the interesting thing in some places
fn g_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) { 0 => r.below(6), 1 => 31 + r.below(4), 2 => 63 + r.below(4), 3 => 95 + r.below(4), 4 => r.below(200), _ => 32 * r.below(5) };
    let mode = r.below(7);
    let a: &[u8] = *r.pick(&[b" \t\n\rx{" as &[u8], b"\\\"a", b"ab", b"a", b"\x00\xff", b"a \x80\xff\x7f", b"!\x0b\x0c\x1f\x21\x0e"]);
    let mut v: Vec<u8> = (0..n).map(|_| match mode { 0 => r.next() as u8, 1 => b'x', 2 => (r.next() as u8) & 0x7f, _ => *r.pick(a) }).collect();
    // one interesting byte at an interesting place
    if !v.is_empty() && r.chance(60) {
        let i = *r.pick(&[0, 31, 32, 63, 64, 15, 16, 7, 8]);
        let i = if r.chance(20) { v.len() - 1 } else { i.min(v.len() - 1) };
        v[i] = *r.pick(a);
    }
    v
}
fn g_utf8(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = r.below(60);
    let wide = r.chance(40);
    for _ in 0..n {
        let c = if wide || r.chance(20) { [r.below(0x800) as u32, 0x800 + r.below(0x800) as u32, 0xD7FF - r.below(3) as u32, 0xE000 + r.below(0x2000) as u32, 0x10000 + r.below(0x10000) as u32, 0x10FFFF - r.below(4) as u32][r.below(6)] } else { r.below(128) as u32 };
        v.extend_from_slice(char::from_u32(c).unwrap_or('x').to_string().as_bytes());
    }
    // then damaged in one place, or not
    if r.chance(60) {
        let bad: &[u8] = *r.pick(&[b"\x80" as &[u8], b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\xc2", b"\xe1\x80", b"\xf1\x80\x80", b"\xc3\x28", b"\xe2\x28\xa1", b"\xe2\x82\x28", b"\xf0\x90\x28\xbc", b"\xf0\x90\x8c\x28", b"\xf8\x88\x80\x80\x80"]);
        match r.below(3) {
            0 if !v.is_empty() => { let i = r.below(v.len()); v[i] = r.next() as u8; },
            1 => { v.extend_from_slice(bad); let m = r.below(40); v.extend(std::iter::repeat(b'z').take(m)); },
            _ => { let i = r.below(v.len() + 1); let t = v.split_off(i); v.extend_from_slice(bad); v.extend_from_slice(&t); },
        }
    }
    if r.chance(10) { let n = v.len(); v.truncate(n.saturating_sub(1)); }
    v
}
fn b64(s: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 { if k <= c.len() { o.push(T[(n >> (18 - 6 * k)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}
fn main() {
    start();
    limit_ms(2500);
    if !is_x86_feature_detected!("avx2") { done(); }
    let mut r = Rng::new(34);
    while time_left() {
        let v = g_bytes(&mut r);
        let d = format!("{:?}", v);
        match r.below(10) {
            0 => {
                let s = format!("find_whitespace_simd of the bytes {}", d);
                let got = case(&s, v.len() >= 32, || unsafe { json::find_whitespace_simd(&v) });
                check(&s, (0..v.len()).filter(|i| b" \t\n\r".contains(&v[*i])).collect::<Vec<_>>(), got);
            },
            1 => {
                let s = format!("find_escapes_simd of the bytes {}", d);
                let got = case(&s, v.len() >= 32, || unsafe { json::find_escapes_simd(&v) });
                check(&s, (0..v.len()).filter(|i| b"\\\"".contains(&v[*i])).collect::<Vec<_>>(), got);
            },
            2 | 3 => {
                let v = g_utf8(&mut r);
                let s = format!("validate_utf8_simd of the bytes {:?}", v);
                let got = case(&s, v.len() >= 32, || unsafe { json::validate_utf8_simd(&v) });
                check(&s, std::str::from_utf8(&v).is_ok(), got);
            },
            4 => {
                let extra = if r.chance(50) { 0 } else { r.below(40) };
                let dst: Vec<u8> = (0..v.len() + extra).map(|i| (i * 7) as u8 ^ 0x55).collect();
                let s = format!("copy_simd of the bytes {} over {} bytes", d, dst.len());
                let got = case(&s, v.len() >= 32, || { let mut o = dst.clone(); unsafe { serialization::copy_simd(&v, &mut o) }; o });
                let mut want = v.clone();
                want.extend_from_slice(&dst[v.len()..]);
                check(&s, want, got);
            },
            5 => {
                let pre = if r.chance(70) { vec![] } else { b"x=".to_vec() };
                let s = format!("base64_encode_simd of the bytes {} after {:?}", d, pre);
                let got = case(&s, v.len() >= 3, || { let mut o = pre.clone(); unsafe { serialization::base64_encode_simd(&v, &mut o) }; o });
                let mut want = pre.clone();
                want.extend_from_slice(b64(&v).as_bytes());
                check(&s, want, got);
            },
            6 => {
                let m = [r.next() as u8, r.next() as u8, r.next() as u8, r.next() as u8];
                let s = format!("xor_mask_simd of the bytes {} with {:?}", d, m);
                let got = case(&s, v.len() >= 32, || { let mut o = v.clone(); unsafe { serialization::xor_mask_simd(&mut o, m) }; o });
                check(&s, v.iter().enumerate().map(|(i, b)| b ^ m[i % 4]).collect::<Vec<u8>>(), got);
            },
            7 => {
                // long runs, and runs around 32, 255 and 256 bytes
                let mut w = vec![];
                for _ in 0..1 + r.below(5) { let n = [1, 2, 3, 31, 32, 33, 64, 254, 255, 256, 257, 510, 511, 600][r.below(14)]; let b = *r.pick(b"aab\x00\xff"); w.extend(std::iter::repeat(b).take(n)); }
                let w = if r.chance(70) { w } else { v.clone() };
                let pre = if r.chance(70) { vec![] } else { vec![9u8] };
                let s = format!("rle_encode_simd of the bytes {:?} after {:?}", w, pre);
                let got = case(&s, w.len() >= 32, || { let mut o = pre.clone(); unsafe { compression::rle_encode_simd(&w, &mut o) }; o });
                let mut want = pre.clone();
                let mut i = 0;
                while i < w.len() { let mut n = 0; while n < 255 && i + n < w.len() && w[i + n] == w[i] { n += 1; } want.push(n as u8); want.push(w[i]); i += n; }
                check(&s, want, got);
            },
            8 => {
                let n = match r.below(4) { 0 => vec![], 1 => g_bytes(&mut r), _ => { if v.is_empty() { vec![b'a'] } else { let i = r.below(v.len()); let k = 1 + r.below((v.len() - i).min(40)); let mut n = v[i..i + k].to_vec(); if r.chance(20) { n.push(b'q'); } n } } };
                let s = format!("find_pattern_simd in the bytes {} of {:?}", d, n);
                let got = case(&s, v.len() >= 32 && !n.is_empty(), || unsafe { compression::find_pattern_simd(&v, &n) });
                let want = if n.is_empty() || n.len() > v.len() { None } else { (0..=v.len() - n.len()).find(|i| v[*i..*i + n.len()] == n[..]) };
                check(&s, want, got);
            },
            _ => {
                let max = *r.pick(&[0u32, 1, 10, 100, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX]);
                let l: Vec<u32> = (0..r.below(30)).map(|_| match r.below(4) { 0 => max, 1 => max.wrapping_add(1), 2 => max.wrapping_sub(1), _ => r.next() as u32 }).collect();
                let s = format!("batch_validate_lengths of {:?} against {}", l, max);
                let got = case(&s, l.len() >= 8, || unsafe { batch::batch_validate_lengths(&l, max) });
                check(&s, l.iter().map(|x| *x <= max).collect::<Vec<_>>(), got);
                let bs: Vec<Vec<u8>> = (0..r.below(4)).map(|_| { let mut b = g_bytes(&mut r); if r.chance(20) { b = vec![255; b.len()]; } b }).collect();
                let s = format!("batch_checksum_simd of {:?}", bs);
                let rs: Vec<&[u8]> = bs.iter().map(|b| &b[..]).collect();
                let got = case(&s, bs.len() >= 2, || unsafe { batch::batch_checksum_simd(&rs) });
                check(&s, bs.iter().map(|b| b.iter().fold(0u32, |a, x| a.wrapping_add(*x as u32))).collect::<Vec<_>>(), got);
            },
        }
    }
    done()
}
