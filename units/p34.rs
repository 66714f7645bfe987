//@include core.rs
//@include simd.rs
//@include simd_spec.rs
//@broadcast vshim_simd::axiom_sl_eq
//@call std::cmp::min = v_min
//@call std::cmp::max = v_max
//@static src/simd/mod.rs TABLE b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
//@expr TABLE => v_table()
//@method trailing_ones = v_trailing_ones
//@call mem::transmute::<__m256i, [u64; 4]> = v_lanes64
pub proof fn lemma_found(s: Seq<u8>, k: int, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> !hit(k, #[trigger] s[i])
    ensures found(s, k, b) == found(s, k, a)
    decreases b
{ if a < b { lemma_found(s, k, a, b - 1); } }
pub proof fn lemma_bits(m: u32, b: u32)
    requires b < 32
    ensures ((m >> b) & 1 != 0) == bit(m, b as int), (m >> b) >> 1 == (if b + 1 < 32 { m >> ((b + 1) as u32) } else { 0 }), m >> b == 0 ==> forall|i: int| b <= i < 32 ==> !#[trigger] bit(m, i)
{
    assert((m >> b) & 1 != 0 <==> (m >> b) & 1 == 1) by(bit_vector);
    assert(b < 31 ==> (m >> b) >> 1 == m >> ((b + 1) as u32)) by(bit_vector);
    assert(b == 31 ==> (m >> b) >> 1 == 0) by(bit_vector);
    if m >> b == 0 { assert forall|i: int| b <= i < 32 implies !#[trigger] bit(m, i) by { let j = i as u32; assert(m >> b == 0 && b <= j && j < 32 ==> (m >> j) & 1 != 1) by(bit_vector); } }
}
pub proof fn lemma_or(a: u8, b: u8)
    requires a == 0 || a == 0xff, b == 0 || b == 0xff
    ensures (a | b) == (if a == 0xff || b == 0xff { 0xffu8 } else { 0u8 })
{ assert((a == 0 || a == 0xff) && (b == 0 || b == 0xff) ==> (a | b) == (if a == 0xff || b == 0xff { 0xffu8 } else { 0u8 })) by(bit_vector); }
pub open spec fn splat(v: __m256i, c: u8) -> bool { v.b().len() == 32 && forall|i: int| 0 <= i < 32 ==> #[trigger] v.b()[i] == c }
/// the mask's bits say which of the 32 bytes from `at` on are of kind k
pub open spec fn marks(m: u32, s: Seq<u8>, k: int, at: int) -> bool { at + 32 <= s.len() && forall|i: int| 0 <= i < 32 ==> #[trigger] bit(m, i) == hit(k, s[at + i]) }
pub open spec fn rest(m: u32, b: int) -> u32 { if b < 32 { m >> (b as u32) } else { 0 } }
pub proof fn lemma_step(m: u32, s: Seq<u8>, k: int, at: int, b: int)
    requires marks(m, s, k, at), 0 <= at, 0 <= b <= 32
    ensures b < 32 ==> ((rest(m, b) & 1 != 0) == hit(k, s[at + b]) && rest(m, b) >> 1 == rest(m, b + 1)),
        rest(m, b) == 0 ==> found(s, k, at + 32) == found(s, k, at + b)
{
    if b < 32 { lemma_bits(m, b as u32); }
    if rest(m, b) == 0 {
        if b < 32 { assert forall|j: int| at + b <= j < at + 32 implies !hit(k, #[trigger] s[j]) by { assert(!bit(m, j - at)); } }
        lemma_found(s, k, at + b, at + 32);
    }
}
//@fn find_whitespace_simd ret=r
    ensures r@ == found(input@, 0, input@.len() as int)
//@loop 0
    invariant
        __end0 == input@.len() / 32, __it0 <= __end0, len == input@.len(), splat(space, 0x20), splat(tab, 9), splat(newline, 10), splat(carriage, 13),
        positions@ == found(input@, 0, __it0 * 32),
    decreases __end0 - __it0
//@beforeloop 1
    proof {
        assert(rest(mask as u32, 0) == mask as u32) by { let m0 = mask as u32; assert(m0 >> 0 == m0) by(bit_vector); }
        assert forall|i: int| 0 <= i < 32 implies #[trigger] bit(mask as u32, i) == hit(0, input@[offset + i]) by {
            let d = data.b()[i];
            assert(d == input@[offset + i]);
            let f = |c: u8| if d == c { 0xffu8 } else { 0u8 };
            lemma_or(f(0x20), f(9)); lemma_or(f(10), f(13)); lemma_or(f(0x20) | f(9), f(10) | f(13));
        }
    }
//@loop 1
    invariant
        marks(mask as u32, input@, 0, offset as int), bit_pos <= 32, m as u32 == rest(mask as u32, bit_pos as int), offset + 32 <= len, len == input@.len(),
        positions@ == found(input@, 0, offset + bit_pos),
    decreases 32 - bit_pos
//@loopstart 1
    proof { lemma_step(mask as u32, input@, 0, offset as int, bit_pos as int); }
//@afterloop 1
    proof { lemma_step(mask as u32, input@, 0, offset as int, bit_pos as int); }
//@loop 2
    invariant
        __it2.wf(), __it2.seq() == input@, __cnt1 == __it2.pos(), __skip3 == (if __cnt1 < chunks * 32 { chunks * 32 - __cnt1 } else { 0 }), chunks == input@.len() / 32,
        positions@ == found(input@, 0, if __cnt1 < chunks * 32 { chunks * 32 } else { __cnt1 as int }),
    ensures __it2.pos() == __it2.seq().len()
    decreases __it2.seq().len() - __it2.pos()
//@end
//@fn find_escapes_simd ret=r
    ensures r@ == found(input@, 1, input@.len() as int)
//@loop 0
    invariant
        __end0 == input@.len() / 32, __it0 <= __end0, len == input@.len(), splat(backslash, 0x5c), splat(quote, 0x22),
        positions@ == found(input@, 1, __it0 * 32),
    decreases __end0 - __it0
//@beforeloop 1
    proof {
        assert(rest(mask as u32, 0) == mask as u32) by { let m0 = mask as u32; assert(m0 >> 0 == m0) by(bit_vector); }
        assert forall|i: int| 0 <= i < 32 implies #[trigger] bit(mask as u32, i) == hit(1, input@[offset + i]) by {
            let d = data.b()[i];
            assert(d == input@[offset + i]);
            let f = |c: u8| if d == c { 0xffu8 } else { 0u8 };
            lemma_or(f(0x5c), f(0x22));
        }
    }
//@loop 1
    invariant
        marks(mask as u32, input@, 1, offset as int), bit_pos <= 32, m as u32 == rest(mask as u32, bit_pos as int), offset + 32 <= len, len == input@.len(),
        positions@ == found(input@, 1, offset + bit_pos),
    decreases 32 - bit_pos
//@loopstart 1
    proof { lemma_step(mask as u32, input@, 1, offset as int, bit_pos as int); }
//@afterloop 1
    proof { lemma_step(mask as u32, input@, 1, offset as int, bit_pos as int); }
//@loop 2
    invariant
        __it2.wf(), __it2.seq() == input@, __cnt1 == __it2.pos(), __skip3 == (if __cnt1 < chunks * 32 { chunks * 32 - __cnt1 } else { 0 }), chunks == input@.len() / 32,
        positions@ == found(input@, 1, if __cnt1 < chunks * 32 { chunks * 32 } else { __cnt1 as int }),
    ensures __it2.pos() == __it2.seq().len()
    decreases __it2.seq().len() - __it2.pos()
//@end
//@fn is_valid_continuation_byte ret=r
    ensures r == (0x80 <= byte <= 0xbf)
//@start
    assert((byte & 0xC0 == 0x80) == (0x80 <= byte && byte <= 0xbf)) by(bit_vector);
//@end
//@fn get_utf8_sequence_length ret=r
    ensures r == (if first_byte < 0xe0 { 2int } else if first_byte < 0xf0 { 3 } else { 4 })
//@end
//@fn validate_multibyte_sequence ret=r
    requires start < input@.len(), first_byte == input@[start as int], first_byte >= 0x80, input@.len() <= isize::MAX
    ensures r == (char_at(input@, start as int) is Some)
//@end
//@fn validate_2byte_sequence ret=r
    requires len == input@.len(), len <= isize::MAX, start < len
    ensures r == cb(input@, start + 1, 0x80, 0xbf)
//@end
//@fn validate_3byte_sequence ret=r
    requires len == input@.len(), len <= isize::MAX, start < len, 0xe0 <= input@[start as int] < 0xf0
    ensures r == (char_at(input@, start as int) is Some)
//@end
//@fn validate_4byte_sequence ret=r
    requires len == input@.len(), len <= isize::MAX, start < len, 0xf0 <= input@[start as int] < 0xf5
    ensures r == (char_at(input@, start as int) is Some)
//@end
//@fn process_simd_chunk ret=r
    requires offset + 32 <= input@.len(), input@.len() <= isize::MAX
    ensures match r { Some(n) => offset < n <= input@.len() && well_formed(input@, n as int) == well_formed(input@, offset as int), None => !well_formed(input@, offset as int) }
//@after _mm256_cmpgt_epi8#0
    proof {
        assert forall|i: int| 0 <= i < 32 implies (#[trigger] non_ascii_mask.b()[i] >= 0x80) == (input@[offset + i] >= 0x80) by {
            let d = data.b()[i];
            assert(d == input@[offset + i]);
            assert((0u8 as i8 > d as i8) == (d >= 0x80)) by(bit_vector);
        }
        if forall|i: int| 0 <= i < 32 ==> non_ascii_mask.b()[i] < 0x80 {
            assert forall|i: int| offset <= i < offset + 32 implies (#[trigger] input@[i]) < 0x80 by { assert(non_ascii_mask.b()[i - offset] < 0x80); }
            lemma_ascii(input@, offset as int, offset + 32);
        }
    }
//@end
//@fn validate_chunk_scalar ret=r
    requires start + chunk_size <= input@.len(), chunk_size > 0, input@.len() <= isize::MAX
    ensures match r { Some(n) => start < n <= input@.len() && well_formed(input@, n as int) == well_formed(input@, start as int), None => !well_formed(input@, start as int) }
//@loop 0
    invariant
        start <= i <= len, len == input@.len(), len <= isize::MAX, end == start + chunk_size, end <= len,
        well_formed(input@, i as int) == well_formed(input@, start as int),
    decreases len - i
//@end
//@fn validate_utf8_simd ret=r
    requires input@.len() <= isize::MAX
    ensures r == well_formed(input@, 0)
//@loop 0
    invariant i <= len, len == input@.len(), len <= isize::MAX, well_formed(input@, i as int) == well_formed(input@, 0)
    decreases len - i
//@end
//@fn validate_remaining_bytes ret=r
    requires start <= input@.len(), input@.len() <= isize::MAX
    ensures r == well_formed(input@, start as int)
//@loop 0
    invariant start <= i <= len, len == input@.len(), len <= isize::MAX, well_formed(input@, i as int) == well_formed(input@, start as int)
    decreases len - i
//@end
// ---- copying, base64, masking ----
//@fn copy_simd
//@param dst: &mut Vec<u8>
    requires old(dst)@.len() >= src@.len()
    ensures final(dst)@ == src@ + old(dst)@.subrange(src@.len() as int, old(dst)@.len() as int)
//@start
    let ghost d0 = dst@;
//@loop 0
    invariant
        __end0 == src@.len() / 32, chunks == __end0, __it0 <= __end0, len == src@.len(), d0.len() >= len, dst@.len() == d0.len(),
        dst@ =~= src@.subrange(0, __it0 * 32) + d0.subrange(__it0 * 32, d0.len() as int),
    decreases __end0 - __it0
//@tail
    proof { assert(dst@ =~= src@ + d0.subrange(src@.len() as int, d0.len() as int)); }
//@end
/// the base64 alphabet
pub open spec fn b64(v: int) -> u8 {
    if v < 26 { (0x41 + v) as u8 } else if v < 52 { (0x61 + v - 26) as u8 } else if v < 62 { (0x30 + v - 52) as u8 } else if v == 62 { 0x2b } else { 0x2f }
}
#[verifier::external_body]
pub fn v_table() -> (r: &'static [u8; 64]) ensures forall|i: int| 0 <= i < 64 ==> #[trigger] r@[i] == b64(i) { unimplemented!() }
/// the encoding of the first n groups of three bytes
pub open spec fn groups(s: Seq<u8>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else {
        let (a, b, c) = (s[3 * n - 3] as int, s[3 * n - 2] as int, s[3 * n - 1] as int);
        groups(s, n - 1).push(b64(a / 4)).push(b64(a % 4 * 16 + b / 16)).push(b64(b % 16 * 4 + c / 64)).push(b64(c % 64))
    }
}
/// with padding to a multiple of four characters
pub open spec fn base64(s: Seq<u8>) -> Seq<u8> {
    let n = s.len() as int / 3;
    let g = groups(s, n);
    if s.len() % 3 == 1 { let a = s[3 * n] as int; g.push(b64(a / 4)).push(b64(a % 4 * 16)).push(0x3d).push(0x3d) }
    else if s.len() % 3 == 2 { let (a, b) = (s[3 * n] as int, s[3 * n + 1] as int); g.push(b64(a / 4)).push(b64(a % 4 * 16 + b / 16)).push(b64(b % 16 * 4)).push(0x3d) }
    else { g }
}
pub proof fn lemma_sextets(a: u8, b: u8, c: u8)
    ensures a >> 2 == a / 4, (((a & 0x03) << 4) | (b >> 4)) as int == a % 4 * 16 + b / 16, ((a & 0x03) << 4) as int == a % 4 * 16,
        (((b & 0x0F) << 2) | (c >> 6)) as int == b % 16 * 4 + c / 64, ((b & 0x0F) << 2) as int == b % 16 * 4, c & 0x3F == c % 64
{
    assert(a >> 2 == a / 4) by(bit_vector);
    assert(((a & 0x03) << 4) | (b >> 4) == add(mul(a % 4, 16), b / 16)) by(bit_vector);
    assert((a & 0x03) << 4 == mul(a % 4, 16)) by(bit_vector);
    assert(((b & 0x0F) << 2) | (c >> 6) == add(mul(b % 16, 4), c / 64)) by(bit_vector);
    assert((b & 0x0F) << 2 == mul(b % 16, 4)) by(bit_vector);
    assert(c & 0x3F == c % 64) by(bit_vector);
}
//@fn base64_encode_simd
    requires input@.len() <= isize::MAX
    ensures final(output)@ == old(output)@ + base64(input@)
//@start
    let ghost o0 = output@;
//@loop 0
    invariant
        __end0 == input@.len() / 3, __it0 <= __end0, input@.len() <= isize::MAX,
        output@ =~= o0 + groups(input@, __it0 as int),
    decreases __end0 - __it0
//@loopstart 0
    proof { let n = __it0 as int; lemma_sextets(input@[3 * n], input@[3 * n + 1], input@[3 * n + 2]); }
//@afterloop 0
    proof { let n = 3 * (len / 3) as int; if len % 3 == 1 { lemma_sextets(input@[n], 0, 0); } if len % 3 == 2 { lemma_sextets(input@[n], input@[n + 1], 0); } }
//@tail
    proof { assert(output@ =~= o0 + base64(input@)); }
//@end
#[verifier::opaque]
pub open spec fn masked(d: Seq<u8>, mask: Seq<u8>, i: int) -> u8 { d[i] ^ mask[i % 4] }
pub proof fn lemma_masked(d: Seq<u8>, mask: Seq<u8>, o: int, i: int)
    requires o % 32 == 0, 0 <= i < 32
    ensures masked(d, mask, o + i) == d[o + i] ^ mask[i % 4]
{ reveal(masked); assert((o + i) % 4 == i % 4); }
//@fn xor_mask_simd
//@param data: &mut Vec<u8>
    ensures final(data)@ == Seq::new(old(data)@.len(), |i: int| old(data)@[i] ^ mask@[i % 4])
//@start
    let ghost d0 = data@;
//@loop 0
    invariant
        __end0 == len / 32, chunks == __end0, __it0 <= __end0, len == data@.len(), data@.len() == d0.len(),
        mask_vec.b().len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] mask_vec.b()[i] == mask@[i % 4],
        forall|i: int| 0 <= i < len ==> #[trigger] data@[i] == (if i < __it0 * 32 { masked(d0, mask@, i) } else { d0[i] }),
    decreases __end0 - __it0
//@loopend 0
    proof {
        assert forall|i: int| 0 <= i < len implies #[trigger] data@[i] == (if i < offset + 32 { masked(d0, mask@, i) } else { d0[i] }) by {
            if offset <= i < offset + 32 {
                lemma_masked(d0, mask@, offset as int, i - offset);
                assert(data@[i] == result.b()[i - offset]);
                assert(data_vec.b()[i - offset] == d0[i]);
                assert(mask_vec.b()[i - offset] == mask@[(i - offset) % 4]);
            }
        }
    }
//@loop 1
    invariant
        chunks * 32 <= __it1 <= __end1, __end1 == len, len == data@.len(), data@.len() == d0.len(),
        forall|i: int| 0 <= i < len ==> #[trigger] data@[i] == (if i < __it1 { masked(d0, mask@, i) } else { d0[i] }),
    decreases __end1 - __it1
//@loopend 1
    proof { reveal(masked); }
//@tail
    proof { reveal(masked); assert(data@ =~= Seq::new(d0.len(), |i: int| d0[i] ^ mask@[i % 4])); }
//@end
//@extract src/simd/mod.rs fn:copy_simd fn:base64_encode_simd fn:xor_mask_simd
//@extract src/simd/mod.rs fn:find_whitespace_simd fn:find_escapes_simd fn:is_valid_continuation_byte fn:get_utf8_sequence_length fn:validate_multibyte_sequence fn:validate_2byte_sequence fn:validate_3byte_sequence fn:validate_4byte_sequence fn:process_simd_chunk fn:validate_chunk_scalar fn:validate_utf8_simd fn:validate_remaining_bytes
// ---- run-length encoding, search, batches ----
/// how many bytes from i on equal c, at most `most`
pub open spec fn run_len(s: Seq<u8>, i: int, c: u8, most: int) -> int decreases most {
    if most > 0 && 0 <= i < s.len() && s[i] == c { 1 + run_len(s, i + 1, c, most - 1) } else { 0 }
}
pub open spec fn runs(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {
    if i < 0 || i >= s.len() { Seq::empty() } else {
        let n = run_len(s, i, s[i], 255);
        if n <= 0 || i + n > s.len() { Seq::empty() } else { seq![n as u8, s[i]] + runs(s, i + n) }
    }
}
pub proof fn lemma_run(s: Seq<u8>, i: int, c: u8, n: int, most: int)
    requires 0 <= n <= most, 0 <= i, i + n <= s.len(), forall|j: int| i <= j < i + n ==> #[trigger] s[j] == c
    ensures run_len(s, i, c, most) == n + run_len(s, i + n, c, most - n)
    decreases n
{ if n > 0 { lemma_run(s, i + 1, c, n - 1, most - 1); } }
//@fn rle_encode_simd
    requires input@.len() <= isize::MAX
    ensures final(output)@ == old(output)@ + runs(input@, 0)
//@start
    let ghost o0 = output@;
//@loop 0
    invariant
        len == input@.len(), i <= len, len <= isize::MAX, output@ + runs(input@, i as int) =~= o0 + runs(input@, 0),
    decreases len - i
//@before trailing_ones#0
    proof {
        lemma_i8(current);
        assert forall|j: int| i <= j < i + 32 implies bit(mask as u32, j - i) == (#[trigger] input@[j] == current) by { assert(data.b()[j - i] == input@[j]); }
    }
//@loop 1
    invariant
        len == input@.len(), i < len, len <= isize::MAX, i + count <= len, 1 <= count <= 255, current == input@[i as int],
        forall|j: int| i <= j < i + count ==> #[trigger] input@[j] == current,
    ensures !(i + count < len && count < 255 && input@[i + count] == current)
    decreases len - count
//@afterloop 1
    proof { lemma_run(input@, i as int, current, count as int, 255); assert(run_len(input@, i + count, current, 255 - count) == 0); }
//@end
//@extract src/simd/mod.rs fn:rle_encode_simd
pub open spec fn at(h: Seq<u8>, n: Seq<u8>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n }
pub proof fn lemma_at(h: Seq<u8>, n: Seq<u8>, i: int)
    requires at(h, n, i), n.len() > 0
    ensures h[i] == n[0]
{ assert(h.subrange(i, i + n.len())[0] == h[i]); }
//@fn find_pattern_simd ret=r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires haystack@.len() <= isize::MAX
    ensures match r { Some(i) => needle@.len() > 0 && at(haystack@, needle@, i as int) && forall|j: int| 0 <= j < i ==> !#[trigger] at(haystack@, needle@, j), None => needle@.len() == 0 || forall|j: int| !#[trigger] at(haystack@, needle@, j) }
//@loop 0
    invariant
        __end0 == (haystack@.len() - needle@.len() + 1) / 32, chunks == __end0, __it0 <= __end0,
        forall|j: int| 0 <= j < __it0 * 32 ==> !#[trigger] at(haystack@, needle@, j),
    decreases __end0 - __it0
//@start
    proof { if needle@.len() > 0 { lemma_i8(needle@[0]); } }
//@beforeloop 1
    proof { assert(rest(mask as u32, 0) == mask as u32) by { let m0 = mask as u32; assert(m0 >> 0 == m0) by(bit_vector); } }
//@loop 1
    invariant
        bit_pos <= 32, m as u32 == rest(mask as u32, bit_pos as int),
        forall|j: int| 0 <= j < offset + bit_pos ==> !#[trigger] at(haystack@, needle@, j),
    decreases 32 - bit_pos
//@loopstart 1
    proof { lemma_bits(mask as u32, bit_pos as u32); if at(haystack@, needle@, offset + bit_pos) { lemma_at(haystack@, needle@, offset + bit_pos); assert(bit(mask as u32, bit_pos as int)); } }
//@loopend 0
    proof { assert forall|j: int| offset <= j < offset + 32 implies !#[trigger] at(haystack@, needle@, j) by { if at(haystack@, needle@, j) { lemma_at(haystack@, needle@, j); assert(data.b()[j - offset] == first); assert(bit(mask as u32, j - offset)); } } }
//@afterloop 1
    proof { if bit_pos < 32 { lemma_bits(mask as u32, bit_pos as u32); } }
//@loop 2
    invariant_except_break
        __out2 is None, forall|j: int| 0 <= j < chunks * 32 + __it2.pos() ==> !#[trigger] at(haystack@, needle@, j),
    invariant
        __it2.wf(), __it2.seq() == Seq::new((haystack@.len() - needle@.len() + 1 - chunks * 32) as nat, |i: int| (chunks * 32 + i) as usize),
    ensures match __out2 { Some(i) => at(haystack@, needle@, i as int) && forall|j: int| 0 <= j < i ==> !#[trigger] at(haystack@, needle@, j), None => forall|j: int| 0 <= j < haystack@.len() - needle@.len() + 1 ==> !#[trigger] at(haystack@, needle@, j) }
    decreases __it2.seq().len() - __it2.pos()
//@end
//@extract src/simd/mod.rs fn:find_pattern_simd
pub proof fn lemma_mask(m: i32, j: i32)
    requires 0 <= j < 8
    ensures ((m & (1i32 << j)) != 0) == bit(m as u32, j as int)
{
    let k = j as u32;
    assert(k < 8 ==> (((m & (1i32 << k)) != 0) == (((m as u32) >> k) & 1u32 == 1u32))) by(bit_vector);
}
//@fn batch_validate_lengths ret=r
    requires lengths@.len() <= isize::MAX
    ensures r@ == Seq::new(lengths@.len(), |i: int| lengths@[i] <= max_length)
//@start
    proof { lemma_i32(max_length); }
//@loop 0
    invariant
        __end0 == lengths@.len() / 8, chunks == __end0, __it0 <= __end0, lengths@.len() <= isize::MAX, max_vec.w() == Seq::new(8, |i: int| max_length),
        results@ =~= Seq::new((__it0 * 8) as nat, |i: int| lengths@[i] <= max_length),
    decreases __end0 - __it0
//@loop 1
    invariant
        0 <= __it1 <= __end1, __end1 == 8, offset + 8 <= lengths@.len(),
        forall|i: int| 0 <= i < 8 ==> #[trigger] bit(mask as u32, i) == (lengths@[offset + i] <= max_length),
        results@ =~= Seq::new((offset + __it1) as nat, |i: int| lengths@[i] <= max_length),
    decreases __end1 - __it1
//@loopstart 1
    proof { lemma_mask(mask, __it1); }
//@loop 2
    invariant
        __it2.wf(), __it2.seq() == lengths@.subrange(chunks * 8, lengths@.len() as int), chunks * 8 <= lengths@.len(),
        results@ =~= Seq::new((chunks * 8 + __it2.pos()) as nat, |i: int| lengths@[i] <= max_length),
    ensures __it2.pos() == __it2.seq().len()
    decreases __it2.seq().len() - __it2.pos()
//@end
//@extract src/simd/mod.rs fn:batch_validate_lengths
pub open spec fn bytesum(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { bytesum(s, n - 1) + s[n - 1] } }
pub open spec fn checksum(s: Seq<u8>, n: int) -> int { bytesum(s, n) % 0x1_0000_0000 }
pub proof fn lemma_sum(s: Seq<u8>, n: int)
    ensures 0 <= bytesum(s, n) <= 255 * (if n > 0 { n } else { 0 })
    decreases n
{ if n > 0 { lemma_sum(s, n - 1); } }
pub proof fn lemma_8(s: Seq<u8>, d: Seq<u8>, z: Seq<u8>, o: int, k: int)
    requires d.len() == 32, z.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] z[i] == 0, 0 <= o, o + 32 <= s.len(), d == s.subrange(o, o + 32), 0 <= k < 4
    ensures bytesum(s, o + 8 * k + 8) == bytesum(s, o + 8 * k) + sad8(d, z, 8 * k), 0 <= sad8(d, z, 8 * k) <= 8 * 255
{
    reveal_with_fuel(bytesum, 9);
    let b = o + 8 * k;
    assert(d[8 * k] == s[b] && d[8 * k + 1] == s[b + 1] && d[8 * k + 2] == s[b + 2] && d[8 * k + 3] == s[b + 3] && d[8 * k + 4] == s[b + 4] && d[8 * k + 5] == s[b + 5] && d[8 * k + 6] == s[b + 6] && d[8 * k + 7] == s[b + 7]);
}
pub proof fn lemma_32(s: Seq<u8>, d: Seq<u8>, z: Seq<u8>, o: int, q: Seq<u64>)
    requires d.len() == 32, z.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] z[i] == 0, 0 <= o, o + 32 <= s.len(), d == s.subrange(o, o + 32), q.len() == 4, forall|k: int| 0 <= k < 4 ==> #[trigger] q[k] == sad8(d, z, 8 * k)
    ensures bytesum(s, o + 32) == bytesum(s, o) + q[0] + q[1] + q[2] + q[3], forall|k: int| 0 <= k < 4 ==> 0 <= #[trigger] q[k] <= 8 * 255
{ lemma_8(s, d, z, o, 0); lemma_8(s, d, z, o, 1); lemma_8(s, d, z, o, 2); lemma_8(s, d, z, o, 3); }
pub open spec fn wrap(a: int, b: int) -> int { (a + b) % 0x1_0000_0000 }
pub proof fn lemma_add(a: u32, b: u32)
    ensures a.wrapping_add(b) == wrap(a as int, b as int)
{}
pub proof fn lemma_wrap(s: int, a: int, b: int, c: int, d: int)
    ensures wrap(wrap(wrap(wrap(s % 0x1_0000_0000, a), b), c), d) == (s + a + b + c + d) % 0x1_0000_0000
{}
//@fn batch_checksum_simd ret=r
    requires forall|i: int| 0 <= i < buffers@.len() ==> (#[trigger] buffers@[i])@.len() <= isize::MAX
    ensures r@ == Seq::new(buffers@.len(), |i: int| checksum(buffers@[i]@, buffers@[i]@.len() as int) as u32)
//@loop 0
    invariant
        __it0.wf(), __it0.seq() == buffers@, forall|i: int| 0 <= i < buffers@.len() ==> (#[trigger] buffers@[i])@.len() <= isize::MAX,
        __out0@ =~= Seq::new(__it0.pos() as nat, |i: int| checksum(buffers@[i]@, buffers@[i]@.len() as int) as u32),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loop 1
    invariant
        __end1 == buf@.len() / 32, __it1 <= __end1, buf@.len() <= isize::MAX, len == buf@.len(),
        sum == checksum(buf@, __it1 * 32),
    decreases __end1 - __it1
//@loopstart 1
    let ghost s0 = sum;
//@loopend 1
    proof {
        lemma_32(buf@, data.b(), zero.b(), offset as int, sums@);
        lemma_add(s0, sums@[0] as u32); lemma_add(s0.wrapping_add(sums@[0] as u32), sums@[1] as u32);
        lemma_add(s0.wrapping_add(sums@[0] as u32).wrapping_add(sums@[1] as u32), sums@[2] as u32);
        lemma_add(s0.wrapping_add(sums@[0] as u32).wrapping_add(sums@[1] as u32).wrapping_add(sums@[2] as u32), sums@[3] as u32);
        lemma_wrap(bytesum(buf@, offset as int), sums@[0] as int, sums@[1] as int, sums@[2] as int, sums@[3] as int);
    }
//@loop 2
    invariant
        __end2 == buf@.len(), __it2 <= __end2, len == buf@.len(),
        sum == checksum(buf@, __it2 as int),
    decreases __end2 - __it2
//@end
//@extract src/simd/mod.rs fn:batch_checksum_simd
