// ---- shim/simd_spec.rs: what the vectorised byte scans mean (shared by P34, which proves it, and P35, which uses it) ----
pub open spec fn is_ws(b: u8) -> bool { b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d }
pub open spec fn is_esc(b: u8) -> bool { b == 0x5c || b == 0x22 }
pub open spec fn hit(k: int, b: u8) -> bool { if k == 0 { is_ws(b) } else { is_esc(b) } }
/// the positions before n of the bytes of kind k, in order
pub open spec fn found(s: Seq<u8>, k: int, n: int) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if hit(k, s[n - 1]) { found(s, k, n - 1).push((n - 1) as usize) } else { found(s, k, n - 1) }
}
// ---- UTF-8 (the Unicode standard's table of well-formed byte sequences) ----
pub open spec fn cb(s: Seq<u8>, i: int, lo: u8, hi: u8) -> bool { i < s.len() && lo <= s[i] <= hi }
/// the length of the well-formed character at i
pub open spec fn char_at(s: Seq<u8>, i: int) -> Option<int> {
    let c = s[i];
    if c <= 0x7f { Some(1) }
    else if 0xc2 <= c <= 0xdf && cb(s, i + 1, 0x80, 0xbf) { Some(2) }
    else if c == 0xe0 && cb(s, i + 1, 0xa0, 0xbf) && cb(s, i + 2, 0x80, 0xbf) { Some(3) }
    else if (0xe1 <= c <= 0xec || c == 0xee || c == 0xef) && cb(s, i + 1, 0x80, 0xbf) && cb(s, i + 2, 0x80, 0xbf) { Some(3) }
    else if c == 0xed && cb(s, i + 1, 0x80, 0x9f) && cb(s, i + 2, 0x80, 0xbf) { Some(3) }
    else if c == 0xf0 && cb(s, i + 1, 0x90, 0xbf) && cb(s, i + 2, 0x80, 0xbf) && cb(s, i + 3, 0x80, 0xbf) { Some(4) }
    else if 0xf1 <= c <= 0xf3 && cb(s, i + 1, 0x80, 0xbf) && cb(s, i + 2, 0x80, 0xbf) && cb(s, i + 3, 0x80, 0xbf) { Some(4) }
    else if c == 0xf4 && cb(s, i + 1, 0x80, 0x8f) && cb(s, i + 2, 0x80, 0xbf) && cb(s, i + 3, 0x80, 0xbf) { Some(4) }
    else { None }
}
pub open spec fn well_formed(s: Seq<u8>, i: int) -> bool decreases s.len() - i {
    if i < 0 || i >= s.len() { true } else { match char_at(s, i) { Some(n) if n > 0 => well_formed(s, i + n), _ => false } }
}
pub proof fn lemma_ascii(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> (#[trigger] s[i]) < 0x80
    ensures well_formed(s, a) == well_formed(s, b)
    decreases b - a
{ if a < b { lemma_ascii(s, a + 1, b); } }
