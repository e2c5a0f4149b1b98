//@include prelude.inc
//@include core.inc
//@include bytes.inc
//@include zio.inc
use vstd::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
// ===== C18: JPEG Huffman tables (ISO 10918-1 annex C) =====
// bits[l] is the number of codes of length l (1 <= l <= 16), symbols are numbered in order of increasing code length
/// number of symbols whose code has at most l bits
pub open spec fn tot(bits: Seq<u8>, l: int) -> int decreases l { if l <= 0 { 0 } else { tot(bits, l - 1) + bits[l] as int } }
/// the first (smallest) code of length l of the canonical code
pub open spec fn fc(bits: Seq<u8>, l: int) -> int decreases l { if l <= 1 { 0 } else { 2 * (fc(bits, l - 1) + bits[l - 1] as int) } }
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
/// the lengths do not over-subscribe the code space, and no code consists of ones only
pub open spec fn dht_ok(bits: Seq<u8>) -> bool { forall|l: int| 1 <= l <= 16 ==> (#[trigger] fc(bits, l)) + (bits[l] as int) < p2(l) }
pub open spec fn lnf(bits: Seq<u8>, q: int, l: int) -> int decreases 17 - l { if l > 16 { 0 } else if q < tot(bits, l) { l } else { lnf(bits, q, l + 1) } }
/// the code length of symbol number q (0: there is no such symbol)
pub open spec fn ln(bits: Seq<u8>, q: int) -> int { lnf(bits, q, 1) }
/// the code word of symbol number q
pub open spec fn cw(bits: Seq<u8>, q: int) -> int { fc(bits, ln(bits, q)) + q - tot(bits, ln(bits, q) - 1) }
/// the k-bit number v starts with the code word of symbol q
pub open spec fn starts(bits: Seq<u8>, q: int, v: int, k: int) -> bool { 0 <= q < tot(bits, 16) && ln(bits, q) <= k && cw(bits, q) * p2(k - ln(bits, q)) <= v < (cw(bits, q) + 1) * p2(k - ln(bits, q)) }
pub proof fn lemma_p2(n: int) requires n >= 0 ensures p2(n) >= 1, p2(n + 1) == 2 * p2(n), p2(n) == pow2(n as nat) decreases n { if n > 0 { lemma_p2(n - 1); lemma_pow2_unfold(n as nat); } else { lemma2_to64(); } }
pub proof fn lemma_p2v() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536 { reveal_with_fuel(p2, 17); }
pub proof fn lemma_tot_mono(bits: Seq<u8>, a: int, b: int) requires 0 <= a <= b ensures 0 <= tot(bits, a) <= tot(bits, b) decreases b { if a < b { lemma_tot_mono(bits, a, b - 1); } else if a > 0 { lemma_tot_mono(bits, a - 1, a - 1); } }
pub proof fn lemma_lnf(bits: Seq<u8>, q: int, l: int, k: int) requires 1 <= k <= l <= 16, tot(bits, l - 1) <= q < tot(bits, l) ensures lnf(bits, q, k) == l decreases l - k { if k < l { lemma_tot_mono(bits, k, l - 1); lemma_lnf(bits, q, l, k + 1); } }
pub proof fn lemma_ln(bits: Seq<u8>, q: int, l: int) requires 1 <= l <= 16, tot(bits, l - 1) <= q < tot(bits, l) ensures ln(bits, q) == l { lemma_lnf(bits, q, l, 1); }
pub proof fn lemma_lnf_conv(bits: Seq<u8>, q: int, k: int) requires 1 <= k <= 17, tot(bits, k - 1) <= q < tot(bits, 16) ensures k <= lnf(bits, q, k) <= 16, tot(bits, lnf(bits, q, k) - 1) <= q < tot(bits, lnf(bits, q, k)) decreases 17 - k { if q < tot(bits, k) {} else { lemma_lnf_conv(bits, q, k + 1); } }
/// every symbol number below the total has a length, and lies in the block of that length
pub proof fn lemma_ln_conv(bits: Seq<u8>, q: int) requires 0 <= q < tot(bits, 16) ensures 1 <= ln(bits, q) <= 16, tot(bits, ln(bits, q) - 1) <= q < tot(bits, ln(bits, q)) { lemma_lnf_conv(bits, q, 1); }
pub proof fn lemma_lnf_zero(bits: Seq<u8>, q: int, k: int) requires 1 <= k <= 17, q >= tot(bits, 16) ensures lnf(bits, q, k) == 0 decreases 17 - k { if k <= 16 { lemma_tot_mono(bits, k, 16); lemma_lnf_zero(bits, q, k + 1); } }
pub proof fn lemma_fc_bounds(bits: Seq<u8>, l: int, n: int) requires 1 <= l <= n, forall|k: int| 1 <= k < n ==> (#[trigger] fc(bits, k)) + (bits[k] as int) < p2(k) ensures 0 <= fc(bits, l) < p2(l) decreases l { lemma_p2(l - 1); if l > 1 { lemma_fc_bounds(bits, l - 1, n); assert(fc(bits, l - 1) + (bits[l - 1] as int) < p2(l - 1)); lemma_p2(l - 1); } }
/// before the first used length everything is zero
pub proof fn lemma_zero_before(bits: Seq<u8>, l: int) requires l >= 0, tot(bits, l) == 0 ensures forall|k: int| 1 <= k <= l ==> #[trigger] bits[k] == 0, fc(bits, l + 1) == 0, forall|k: int| 1 <= k <= l + 1 ==> #[trigger] fc(bits, k) == 0 decreases l { if l > 0 { lemma_tot_mono(bits, l - 1, l); lemma_tot_mono(bits, 0, l - 1); lemma_zero_before(bits, l - 1); } else { assert(fc(bits, 1) == 0); } }
pub proof fn lemma_shl_i(c: int, s: int) requires 0 <= c <= 66000, 0 <= s <= 16, c * p2(s) <= 0x7fffffff ensures ((c as u32) << (s as u32)) as int == c * p2(s) { lemma_p2(s); lemma_u32_shl_is_mul(c as u32, s as u32); }
pub proof fn lemma_shl_us(c: int, s: int) requires 0 <= c <= 66000, 0 <= s <= 16, c * p2(s) <= 0x7fffffff ensures ((c as usize) << (s as usize)) as int == c * p2(s), ((c as usize) << (s as u8)) as int == c * p2(s) { lemma_p2(s); lemma_u64_shl_is_mul(c as u64, s as u64); let a = c as usize; let b = s as usize; let d = s as u8; assert(a << b == (a as u64) << (b as u64)) by(bit_vector) requires b <= 16; assert(a << d == (a as u64) << (d as u64)) by(bit_vector) requires d <= 16; }
#[derive(Debug)]
pub enum DecodeErrors { HuffmanDecode(String), Format(String), IoErrors(ZByteIoError) }
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for DecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> DecodeErrors { DecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for DecodeErrors { fn from(value: ZByteIoError) -> DecodeErrors { DecodeErrors::IoErrors(value) } }
pub const HUFF_LOOKAHEAD: u8 = 9;
//@type crates/zune-jpeg/src/huffman.rs :: HuffmanTable
//@end
pub const TOO_LONG: i32 = 5120;
/// the categories of a DC table are at most 15
pub open spec fn dc_vals(bits: Seq<u8>, vals: Seq<u8>) -> bool { forall|q: int| 0 <= q < tot(bits, 16) ==> #[trigger] vals[q] <= 15 }
/// entry of the lookup table for symbol q
pub open spec fn lk(bits: Seq<u8>, vals: Seq<u8>, q: int) -> int { ln(bits, q) * 512 + vals[q] as int }
/// the m bits that follow the first n of the nine bits i, and their JPEG sign extension
pub open spec fn magbits(i: i16, n: i16, m: i16) -> i16 { (i >> (9 - n - m) as i16) & ((1i16 << m) - 1) as i16 }
pub open spec fn ext(v: int, m: int) -> int { if v < p2(m - 1) { v - p2(m) + 1 } else { v } }
pub open spec fn fast_entry(bits: Seq<u8>, vals: Seq<u8>, i: int, e: int, q: int) -> bool {
    let n = ln(bits, q); let m = (vals[q] & 15) as int;
    starts(bits, q, i, 9) && m > 0 && n + m <= 9 && e == ext(magbits(i as i16, n as i16, m as i16) as int, m) * 256 + ((vals[q] >> 4) & 15) as int * 16 + n + m
}
pub proof fn lemma_tail(bits: Seq<u8>, s: int, l: int) requires 1 <= s <= l <= 16, forall|k: int| 1 <= k < s ==> (#[trigger] fc(bits, k)) + (bits[k] as int) < p2(k), forall|k: int| s <= k <= 16 ==> #[trigger] bits[k] == 0 ensures 0 <= fc(bits, l) < p2(l) decreases l { lemma_p2(l - 1); lemma_p2(l); if l > s { lemma_tail(bits, s, l - 1); assert(bits[l - 1] == 0); } else { lemma_fc_bounds(bits, l, s); } }
pub proof fn lemma_tail_zero(bits: Seq<u8>, a: int, b: int) requires 0 <= a <= b, tot(bits, a) == tot(bits, b) ensures forall|k: int| a < k <= b ==> #[trigger] bits[k] == 0 decreases b { if a < b { lemma_tot_mono(bits, a, b - 1); lemma_tot_mono(bits, b - 1, b); lemma_tail_zero(bits, a, b - 1); } }
pub proof fn lemma_p2mul(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a) * p2(b) == p2(a + b) decreases a { if a > 0 { lemma_p2mul(a - 1, b); lemma_p2(a - 1); lemma_p2(a + b - 1); assert(2 * p2(a - 1) * p2(b) == 2 * (p2(a - 1) * p2(b))) by(nonlinear_arith); } else { assert(1 * p2(b) == p2(b)); } }
pub proof fn lemma_scale(c: int, l: int, n: int) requires 0 <= c, 0 <= l <= n ensures c < p2(l) ==> c * p2(n - l) + p2(n - l) <= p2(n), 0 <= c * p2(n - l), (c + 1) * p2(n - l) == c * p2(n - l) + p2(n - l), p2(n - l) >= 1 { lemma_p2mul(l, n - l); lemma_p2(n - l); let w = p2(n - l); let m = p2(l); assert((c + 1) * w == c * w + w) by(nonlinear_arith); assert(0 <= c * w) by(nonlinear_arith) requires c >= 0, w >= 1; if c < m { assert((c + 1) * w <= m * w) by(nonlinear_arith) requires c + 1 <= m, w >= 1; } }
pub proof fn lemma_step(f: int, l: int, n: int) requires 0 <= f, 0 <= l < n ensures f * p2(n - l) == (2 * f) * p2(n - l - 1) { lemma_p2(n - l - 1); let w = p2(n - l - 1); assert(f * (2 * w) == (2 * f) * w) by(nonlinear_arith); }
pub proof fn lemma_one(s: int) requires 0 <= s <= 16 ensures (1i32 << (s as u32)) as int == p2(s), (1usize << (s as usize)) as int == p2(s), (1i32 << (s as u8)) as int == p2(s) { lemma_p2v(); let t = s as u32; let u = s as usize; let b = s as u8; lemma_shl_us(1, s); lemma_shl_i(1, s); assert((1i32 << t) == (1u32 << t) as i32 && (1u32 << t) <= 0x10000) by(bit_vector) requires t <= 16; assert((1i32 << b) == (1u32 << (b as u32)) as i32) by(bit_vector) requires b <= 16; assert(b as u32 == t); }
/// the lookup table: short codes are there, everything else is marked as too long
pub open spec fn lk_ok(bits: Seq<u8>, vals: Seq<u8>, lookup: Seq<i32>) -> bool {
    &&& forall|q: int, i: int| 0 <= i < 512 && #[trigger] starts(bits, q, i, 9) ==> lookup[i] == lk(bits, vals, q)
    &&& forall|i: int| fc(bits, 9) + bits[9] as int <= i < 512 ==> #[trigger] lookup[i] == 5120
}
pub proof fn lemma_fast(i: i16, n: i16, m: i16) requires 0 <= i < 512, 1 <= n, 1 <= m, n + m <= 9
    ensures ((i << n) & (((1i16 << 9u8) - 1) as i16)) >> ((9 - m) as i16) == magbits(i, n, m), 0 <= magbits(i, n, m) < p2(m as int), (1i16 << ((m - 1) as i16)) as int == p2(m - 1), ((!0i16 << m) as int) == -p2(m as int)
{
    let a = (9 - m) as u16; let b = (9 - n - m) as u16; let c = (m - 1) as u16; let mu = m as u16; let nu = n as u16; lemma_p2v();
    assert((1i16 << 9u8) == 512) by(bit_vector);
    let w = (((1i16 << mu) - 1) as i16);
    assert((1i16 << mu) == (if mu == 1 { 2i16 } else if mu == 2 { 4i16 } else if mu == 3 { 8i16 } else if mu == 4 { 16i16 } else if mu == 5 { 32i16 } else if mu == 6 { 64i16 } else if mu == 7 { 128i16 } else { 256i16 })) by(bit_vector) requires 1 <= mu <= 8;
    assert((1i16 << c) == (if c == 0 { 1i16 } else if c == 1 { 2i16 } else if c == 2 { 4i16 } else if c == 3 { 8i16 } else if c == 4 { 16i16 } else if c == 5 { 32i16 } else if c == 6 { 64i16 } else { 128i16 })) by(bit_vector) requires 0 <= c <= 7;
    assert((!0i16 << mu) == (if mu == 1 { -2i16 } else if mu == 2 { -4i16 } else if mu == 3 { -8i16 } else if mu == 4 { -16i16 } else if mu == 5 { -32i16 } else if mu == 6 { -64i16 } else if mu == 7 { -128i16 } else { -256i16 })) by(bit_vector) requires 1 <= mu <= 8;
    assert(((i << nu) & 511i16) >> a == ((i >> b) & w) && 0 <= ((i >> b) & w) && ((i >> b) & w) <= w) by(bit_vector) requires 0 <= i < 512, 1 <= nu <= 8, 1 <= mu <= 8, nu + mu <= 9, a == 9 - mu, b == 9 - nu - mu, w == (1i16 << mu) - 1;
}
impl HuffmanTable {
pub open spec fn fast_ok(&self, bits: Seq<u8>, f: Seq<i16>, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] f[i] != 0 ==> exists|q: int| #[trigger] fast_entry(bits, self.values@, i, f[i] as int, q) }
/// the tables describe the canonical code of `bits` with the symbol values of the table
pub open spec fn codes(&self, bits: Seq<u8>) -> bool {
    &&& dht_ok(bits) &&& bits.len() == 17 &&& bits[0] == 0 &&& tot(bits, 16) <= 256
    &&& lk_ok(bits, self.values@, self.lookup@)
    // the other lengths are found through their limits
    &&& forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bits[l] == 0 { -1 } else { (fc(bits, l) + bits[l] as int) * p2(16 - l) }
    &&& forall|l: int| 1 <= l <= 16 && bits[l] != 0 ==> #[trigger] self.offset@[l] == tot(bits, l - 1) - fc(bits, l)
    &&& self.maxcode@[17] == 0xFFFFF
    // an entry of the AC shortcut is the symbol, its magnitude bits extended, its run and the number of bits used
    &&& self.ac_lookup.is_some() ==> self.fast_ok(bits, self.ac_lookup.unwrap()@, 512)
}
pub open spec fn dc_codes(&self, bits: Seq<u8>) -> bool { self.codes(bits) && dc_vals(bits, self.values@) }
pub open spec fn bits_ac(&self) -> Seq<u8> { choose|b: Seq<u8>| #[trigger] self.codes(b) }
pub open spec fn bits_of(&self) -> Seq<u8> { choose|b: Seq<u8>| #[trigger] self.dc_codes(b) }
//@fn crates/zune-jpeg/src/huffman.rs :: HuffmanTable::make_derived_table
//@ret r
//@sub "Bad Huffman Table".to_string() => vx_format()
//@sub (code << (16 - si)) as i32 => (code << ((16 - si) as u32)) as i32
//@sub HUFF_LOOKAHEAD + 1 => (HUFF_LOOKAHEAD as usize) + 1
//@sub << (HUFF_LOOKAHEAD - l) => << ((HUFF_LOOKAHEAD as usize) - l)
//@sub i32::from(bits[usize::from(l)]) + 1 => (bits[l] as usize) + 1
//@sub (1 << si) => (1i32 << (si as u32))
//@spec
    requires bits@[0] == 0, tot(bits@, 16) <= 256, old(self).ac_lookup.is_none(), forall|i: int| 0 <= i < 512 ==> #[trigger] old(self).lookup@[i] == 5120,
    ensures final(self).values == old(self).values,
        r.is_ok() ==> final(self).codes(bits@) && final(self).ac_lookup.is_some() == !is_dc && (is_dc ==> dc_vals(bits@, final(self).values@)),
        // lengths that over-subscribe the code space are rejected, and nothing else but a DC category above 15
        !dht_ok(bits@) ==> r.is_err(),
        dht_ok(bits@) && (is_dc ==> forall|q: int| 0 <= q < tot(bits@, 16) ==> #[trigger] old(self).values@[q] <= 15) ==> r.is_ok(),
//@at begin
    let ghost bs = bits@; let ghost mut g = 0int;
//@loop 0
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, vx_r0lo == 1, vx_c0 == 16, p == tot(bs, vx_i0 as int), p <= 256, self.lookup == old(self).lookup,
    forall|q: int| 0 <= q < p ==> #[trigger] huff_size@[q] as int == ln(bs, q), forall|q: int| p <= q < 257 ==> #[trigger] huff_size@[q] == 0,
//@at loop 0 body
    proof { lemma_tot_mono(bs, vx_k0 + 1, 16); lemma_tot_mono(bs, 0, vx_k0 as int); }
//@loop 1
    invariant bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, 1 <= l <= 16, 0 <= i <= bs[l as int], p == tot(bs, l as int) - i, p <= 256, tot(bs, l as int) <= 256, tot(bs, l as int) == tot(bs, l - 1) + bs[l as int], tot(bs, l - 1) >= 0, self.lookup == old(self).lookup,
        forall|q: int| 0 <= q < p ==> #[trigger] huff_size@[q] as int == ln(bs, q), forall|q: int| p <= q < 257 ==> #[trigger] huff_size@[q] == 0,
    decreases i
//@at loop 1 body
    proof { lemma_ln(bs, p as int, l as int); }
//@at after let si
    let ghost s0 = si as int; let ghost n16 = tot(bs, 16);
    proof {
        assert forall|q: int| 0 <= q < 257 implies #[trigger] huff_size@[q] as int == ln(bs, q) by { if q >= n16 { lemma_lnf_zero(bs, q, 1); } }
        lemma_tot_mono(bs, 0, 16);
        if n16 > 0 { lemma_ln_conv(bs, 0); lemma_tot_mono(bs, 0, s0 - 1); lemma_zero_before(bs, s0 - 1);
            assert forall|l: int| 1 <= l < s0 implies (#[trigger] fc(bs, l)) + (bs[l] as int) < p2(l) by { lemma_p2(l); assert(bs[l] == 0); assert(fc(bs, l) == 0); }
        } else { lemma_zero_before(bs, 16); lemma_lnf_zero(bs, 0, 1); }
    }
//@loop 2
    invariant bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), n16 >= 0, forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), self.lookup == old(self).lookup, p <= n16, n16 == 0 ==> p == 0,
        n16 > 0 ==> 1 <= s0 <= si <= 17 && p == tot(bs, si - 1) && code as int == fc(bs, si as int) && s0 == ln(bs, 0) && tot(bs, s0 - 1) == 0,
        n16 > 0 ==> forall|l: int| 1 <= l < si ==> (#[trigger] fc(bs, l)) + (bs[l] as int) < p2(l),
        n16 > 0 ==> forall|l: int| s0 <= l < si ==> #[trigger] self.maxcode@[l] == (fc(bs, l) + bs[l] as int) * p2(16 - l),
        forall|q: int| 0 <= q < p ==> #[trigger] huff_code@[q] as int == cw(bs, q),
    decreases 17 - si
//@at loop 2 body
    let ghost s = si as int;
    proof { if p >= n16 { lemma_lnf_zero(bs, p as int, 1); } lemma_ln_conv(bs, p as int); if ln(bs, p as int) < s { lemma_tot_mono(bs, ln(bs, p as int), s - 1); } lemma_tot_mono(bs, s, 16); lemma_tot_mono(bs, 0, s - 1); lemma_fc_bounds(bs, s, s); lemma_p2v(); }
//@loop 3
    invariant bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), self.lookup == old(self).lookup, n16 > 0, 1 <= s0 <= s <= 16, si as int == s, tot(bs, s - 1) <= p <= tot(bs, s) <= n16, tot(bs, s - 1) >= 0, code as int == fc(bs, s) + p - tot(bs, s - 1), 0 <= fc(bs, s) <= 0x10000, n16 <= 256,
        forall|q: int| 0 <= q < p ==> #[trigger] huff_code@[q] as int == cw(bs, q),
    decreases 257 - p
//@at loop 3 body
    proof { if p >= n16 { lemma_lnf_zero(bs, p as int, 1); } lemma_ln_conv(bs, p as int); }
//@at after loop 3
    proof {
        if p < tot(bs, s) { lemma_ln(bs, p as int, s); }
        lemma_scale(fc(bs, s), s, 16); lemma_p2v(); let c = code as int; let w = p2(16 - s);
        assert(c * w <= 0x7fffffff) by { lemma_scale(fc(bs, s), s, 16); let b = bs[s] as int; assert((fc(bs, s) + b) * w == fc(bs, s) * w + b * w) by(nonlinear_arith); assert(b * w <= 255 * 32768) by(nonlinear_arith) requires 0 <= b <= 255, 1 <= w <= 32768; }
        lemma_shl_i(c, 16 - s); lemma_one(s);
        let cc = code; assert(cc < 0x10000 ==> (cc << 1) == 2 * cc) by(bit_vector);
    }
//@at after loop 2
    proof {
        if p < n16 { lemma_ln_conv(bs, p as int); }
        if n16 > 0 {
            lemma_tot_mono(bs, si - 1, 16); lemma_tail_zero(bs, si - 1, 16);
            assert forall|l: int| 1 <= l <= 16 implies (#[trigger] fc(bs, l)) + (bs[l] as int) < p2(l) by { if l >= si { lemma_tail(bs, si as int, l); } }
            lemma_zero_before(bs, s0 - 1);
            assert forall|l: int| 1 <= l <= 16 && bs[l] != 0 implies s0 <= l < si by {}
        } else { lemma_zero_before(bs, 16); assert forall|l: int| 1 <= l <= 16 implies (#[trigger] fc(bs, l)) + (bs[l] as int) < p2(l) by { lemma_p2(l); assert(bs[l] == 0); assert(fc(bs, l) == 0); } }
        assert(dht_ok(bs));
    }
//@loop 4
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), n16 >= 0, forall|q: int| 0 <= q < tot(bs, 16) ==> #[trigger] huff_code@[q] as int == cw(bs, q), self.lookup == old(self).lookup, dht_ok(bs), vx_r4lo == 0, vx_c4 == 17, p == tot(bs, vx_i4 - 1), p <= 256,
    forall|l: int| 1 <= l < vx_i4 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) },
    forall|l: int| vx_i4 <= l <= 16 && bs[l] != 0 && l > 0 ==> #[trigger] self.maxcode@[l] == (fc(bs, l) + bs[l] as int) * p2(16 - l),
    forall|l: int| 1 <= l < vx_i4 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l),
//@at loop 4 body
    proof { let l = vx_k4 as int; lemma_p2v(); if l > 0 { lemma_tot_mono(bs, l, 16); lemma_tot_mono(bs, 0, l - 1); if bs[l] != 0 { lemma_ln(bs, tot(bs, l - 1), l); lemma_fc_bounds(bs, l, 16); assert(huff_code@[p as int] as int == cw(bs, p as int)); } } }
//@at after loop 4
    proof { lemma_p2v(); g = 0; }
//@loop 5
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), forall|q: int| 0 <= q < tot(bs, 16) ==> #[trigger] huff_code@[q] as int == cw(bs, q), forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), dht_ok(bs), forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) }, forall|l: int| 1 <= l <= 16 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l), self.maxcode@[17] == 0xFFFFF, vx_r5lo == 1, vx_c5 == 9, p == tot(bs, vx_i5 as int), p <= 256,
    vx_i5 < 9 ==> g == fc(bs, 1 + vx_i5) * p2(8 - vx_i5), vx_i5 == 9 ==> g == fc(bs, 9) + bs[9], 0 <= g,
    forall|i: int| g <= i < 512 ==> #[trigger] self.lookup@[i] == 5120, forall|q: int, i: int| 0 <= i < 512 && #[trigger] starts(bs, q, i, 9) && q < p ==> i < g && self.lookup@[i] == lk(bs, self.values@, q),
//@at loop 5 body
    proof { let l = vx_k5 + 1; lemma_tot_mono(bs, l, 16); lemma_tot_mono(bs, 0, l - 1); lemma_fc_bounds(bs, l, 16); lemma_p2v(); assert(g == (fc(bs, l) + 0) * p2(9 - l)); }
//@loop 6
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), forall|q: int| 0 <= q < tot(bs, 16) ==> #[trigger] huff_code@[q] as int == cw(bs, q), forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), dht_ok(bs), forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) }, forall|l: int| 1 <= l <= 16 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l), self.maxcode@[17] == 0xFFFFF, 1 <= l <= 9, vx_c6 == bs[l as int], p == tot(bs, l - 1) + vx_i6, tot(bs, l as int) == tot(bs, l - 1) + bs[l as int], 0 <= tot(bs, l - 1), tot(bs, l as int) <= n16 <= 256, 
    g == (fc(bs, l as int) + vx_i6) * p2(9 - l), 0 <= g, 0 <= fc(bs, l as int),
    forall|i: int| g <= i < 512 ==> #[trigger] self.lookup@[i] == 5120, forall|q: int, i: int| 0 <= i < 512 && #[trigger] starts(bs, q, i, 9) && q < p ==> i < g && self.lookup@[i] == lk(bs, self.values@, q),
//@at loop 6 body
    let ghost g0 = g;
    proof { let li = l as int; lemma_ln(bs, p as int, li); assert(cw(bs, p as int) == fc(bs, li) + vx_k6); let c = cw(bs, p as int);
        assert(fc(bs, li) + bs[li] < p2(li)); lemma_scale(c, li, 9); lemma_p2v(); lemma_shl_us(c, 9 - li); lemma_one(9 - li); assert(huff_code@[p as int] as int == c); }
//@loop 7
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), forall|q: int| 0 <= q < tot(bs, 16) ==> #[trigger] huff_code@[q] as int == cw(bs, q), forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), dht_ok(bs), forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) }, forall|l: int| 1 <= l <= 16 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l), self.maxcode@[17] == 0xFFFFF, 1 <= l <= 9, vx_c7 == p2(9 - l), look_bits == g0 + vx_i7, 0 <= p < 256, ln(bs, p as int) == l, g0 >= 0, g0 + p2(9 - l) <= 512, g == g0,
    forall|i: int| g0 + vx_i7 <= i < 512 ==> #[trigger] self.lookup@[i] == 5120, forall|i: int| g0 <= i < g0 + vx_i7 ==> #[trigger] self.lookup@[i] == lk(bs, self.values@, p as int), forall|q: int, i: int| 0 <= i < 512 && #[trigger] starts(bs, q, i, 9) && q < p ==> i < g && self.lookup@[i] == lk(bs, self.values@, q),
//@at loop 7 body
    proof { let li = l as i32; let v = self.values@[p as int] as i32; assert(((li << 9u8) | v) == li * 512 + v) by(bit_vector) requires 1 <= li <= 9, 0 <= v <= 255; }
//@at after loop 7
    proof { let li = l as int; let c = cw(bs, p as int); g = g0 + p2(9 - li); lemma_scale(c, li, 9);
        assert forall|q: int, i: int| 0 <= i < 512 && #[trigger] starts(bs, q, i, 9) && q < p + 1 implies i < g && self.lookup@[i] == lk(bs, self.values@, q) by { lemma_ln(bs, p as int, li); if q < p {} else { assert(q == p); assert(g0 <= i < g); } } }
//@at after loop 6
    proof { let li = l as int; if li < 9 { lemma_step(fc(bs, li) + bs[li], li, 9); } lemma_p2v(); assert((fc(bs, li) + bs[li]) * 1 == fc(bs, li) + bs[li]); }
//@at after loop 5
    proof { assert forall|q: int, i: int| 0 <= i < 512 && #[trigger] starts(bs, q, i, 9) implies self.lookup@[i] == lk(bs, self.values@, q) by { lemma_ln_conv(bs, q); lemma_tot_mono(bs, ln(bs, q), 9); } assert(lk_ok(bs, self.values@, self.lookup@)); }
//@loop 8
    vx_r8lo == 0, vx_c8 == n16,     bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), num_symbols == n16, forall|q: int| 0 <= q < tot(bs, 16) ==> #[trigger] huff_code@[q] as int == cw(bs, q), forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), dht_ok(bs), forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) }, forall|l: int| 1 <= l <= 16 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l), self.maxcode@[17] == 0xFFFFF, lk_ok(bs, self.values@, self.lookup@),
    forall|x: int| 0 <= x < 512 ==> #[trigger] fast@[x] == 255 || (0 <= fast@[x] < n16 && starts(bs, fast@[x] as int, x, 9)),
//@at loop 8 body
    proof { let i = vx_k8 as int; lemma_ln_conv(bs, i); let n = ln(bs, i); if n <= 9 { let c = cw(bs, i); assert(fc(bs, n) + bs[n] < p2(n)); lemma_fc_bounds(bs, n, 16); lemma_scale(c, n, 9); lemma_p2v(); lemma_shl_i(c, 9 - n); lemma_one(9 - n); let hc = huff_code@[i]; let t = (9 - n) as u8; assert(hc << t == hc << (t as u32)) by(bit_vector) requires t <= 16; } }
//@loop 9
    vx_r9lo == 0, vx_c9 == m,     n16 == tot(bs, 16), n16 <= 256, 0 <= i < n16, s as int == ln(bs, i as int), s <= 9, c as int == cw(bs, i as int) * p2(9 - s), (cw(bs, i as int) + 1) * p2(9 - s) == c + p2(9 - s), m as int == p2(9 - s), c + m <= 512,
    forall|x: int| 0 <= x < 512 ==> #[trigger] fast@[x] == 255 || (0 <= fast@[x] < n16 && starts(bs, fast@[x] as int, x, 9)),
//@at before loop 10
    proof { assert((1usize << 9u8) == 512) by(bit_vector); assert((1i32 << 9u8) == 512) by(bit_vector);  assert((1i16 << 9u8) == 512) by(bit_vector); }
//@loop 10
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, self.ac_lookup == old(self).ac_lookup, n16 == tot(bs, 16), forall|q: int| 0 <= q < 257 ==> #[trigger] huff_size@[q] as int == ln(bs, q), dht_ok(bs), forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) }, forall|l: int| 1 <= l <= 16 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l), self.maxcode@[17] == 0xFFFFF, lk_ok(bs, self.values@, self.lookup@), vx_c10 == 512, vx_r10lo == 0,
    forall|x: int| 0 <= x < 512 ==> #[trigger] fast@[x] == 255 || (0 <= fast@[x] < n16 && starts(bs, fast@[x] as int, x, 9)),
    self.fast_ok(bs, fast_ac@, vx_i10 as int), forall|x: int| vx_i10 <= x < 512 ==> #[trigger] fast_ac@[x] == 0,
//@at loop 10 body
    proof { assert((1i16 << 9u8) == 512) by(bit_vector); if fast@[vx_k10 as int] < 255 { lemma_ln_conv(bs, fast@[vx_k10 as int] as int); } }
//@at after let fast_v
    let ghost q = fast_v as int; let ghost old_f = fast_ac@;
//@at after assign fast_ac
    proof { assert((k << 8) == k * 256) by(bit_vector) requires -128 <= k <= 127; assert((run << 4) == run * 16) by(bit_vector) requires 0 <= run <= 15;
        assert(fast_entry(bs, self.values@, i as int, fast_ac@[i as int] as int, q)); 
        assert forall|x: int| 0 <= x < i + 1 && #[trigger] fast_ac@[x] != 0 implies exists|q: int| #[trigger] fast_entry(bs, self.values@, x, fast_ac@[x] as int, q) by { if x < i { assert(fast_ac@[x] == old_f[x]); } } }
//@at before tail
    proof { assert(dht_ok(bs)); assert(lk_ok(bs, self.values@, self.lookup@)); assert(self.maxcode@[17] == 0xFFFFF); assert(self.ac_lookup.is_some() ==> self.fast_ok(bs, self.ac_lookup.unwrap()@, 512)); assert(self.codes(bs)); }
//@at after let m 2
    proof { lemma_fast(i as i16, len, mag_bits); lemma_p2v(); let rs8 = rs; assert((rs8 & 15u8) <= 15 && ((rs8 >> 4u8) & 15u8) <= 15) by(bit_vector); assert((run << 4) == run * 16) by(bit_vector) requires 0 <= run <= 15; assert(forall|k: i16| -128 <= k <= 127 ==> (#[trigger] (k << 8u16)) == k * 256) by(bit_vector); }
//@loop 11
    bs == bits@, bs[0] == 0, tot(bs, 16) <= 256, self.values == old(self).values, n16 == tot(bs, 16), num_symbols == n16, dht_ok(bs), forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l] == if bs[l] == 0 { -1 } else { (fc(bs, l) + bs[l] as int) * p2(16 - l) }, forall|l: int| 1 <= l <= 16 && bs[l] != 0 ==> #[trigger] self.offset@[l] == tot(bs, l - 1) - fc(bs, l), self.maxcode@[17] == 0xFFFFF, lk_ok(bs, self.values@, self.lookup@), self.ac_lookup.is_some() ==> self.fast_ok(bs, self.ac_lookup.unwrap()@, 512), is_dc, vx_r11lo == 0, vx_c11 == n16, forall|q: int| 0 <= q < vx_i11 ==> #[trigger] self.values@[q] <= 15,
//@at loop 11 body
    proof { assert(old(self).values@[vx_k11 as int] == self.values@[vx_k11 as int]); }
//@end
//@fn crates/zune-jpeg/src/huffman.rs :: HuffmanTable::new
//@ret r
//@spec
    requires codes@[0] == 0, tot(codes@, 16) <= 256,
    ensures r matches Ok(t) ==> t.codes(codes@) && t.values == values && t.ac_lookup.is_some() == !is_dc && (is_dc ==> dc_vals(codes@, values@)),
        !dht_ok(codes@) ==> r.is_err(),
        dht_ok(codes@) && (is_dc ==> forall|q: int| 0 <= q < tot(codes@, 16) ==> #[trigger] values@[q] <= 15) ==> r.is_ok(),
//@at after let too_long_code
    proof { assert((10i32 << 9u8) == 5120) by(bit_vector); }
//@end
//@fn crates/zune-jpeg/src/huffman.rs :: HuffmanTable::new_unfilled
//@ret r
//@spec
    requires codes@[0] == 0, tot(codes@, 16) <= 256, values@.len() <= 256,
    ensures r matches Ok(t) ==> t.codes(codes@) && (forall|i: int| 0 <= i < values@.len() ==> #[trigger] t.values@[i] == values@[i]) && t.ac_lookup.is_some() == !is_dc, !dht_ok(codes@) ==> r.is_err(),
//@end
}
// ===== the bit reader =====
//@type crates/zune-jpeg/src/marker.rs :: Marker
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Debug)]
//@end
use crate::Marker::{APP, COM, DAC, DHT, DNL, DQT, DRI, EOI, RST, SOF, SOI, SOS, UNKNOWN};
impl Marker {
//@fn crates/zune-jpeg/src/marker.rs :: Marker::from_u8
//@ret r
//@end
}
//@type crates/zune-jpeg/src/bitstream.rs :: BitStream
//@end
//TRUST: u64::rotate_left is assumed to rotate
pub open spec fn rotl(x: u64, n: u32) -> u64 { if n == 0 { x } else { (x << n) | (x >> ((64 - n) as u32)) } }
pub assume_specification [u64::rotate_left](x: u64, n: u32) -> (r: u64) ensures n < 64 ==> r == rotl(x, n);
//@fn crates/zune-jpeg/src/bitstream.rs :: huff_extend
//@ret r
//@spec
    requires 1 <= s <= 15, 0 <= x < p2(s as int),
    ensures r as int == ext(x as int, s as int),
//@at begin
    proof { lemma_p2v(); lemma_one(s - 1); lemma_neg(s as u32); let y = (x - p2(s - 1)) as i32; assert(y < 0 ==> (y >> 31u32) == -1) by(bit_vector); assert(y >= 0 ==> (y >> 31u32) == 0) by(bit_vector); let z = (1 - p2(s as int)) as i32; assert(-1i32 & z == z) by(bit_vector); assert(0i32 & z == 0) by(bit_vector); }
//@end
pub proof fn lemma_neg(s: u32) requires 1 <= s <= 15 ensures (-1i32 << s) as int == -p2(s as int) { lemma_p2v();
    assert((-1i32 << s) == (if s == 1 { -2i32 } else if s == 2 { -4i32 } else if s == 3 { -8i32 } else if s == 4 { -16i32 } else if s == 5 { -32i32 } else if s == 6 { -64i32 } else if s == 7 { -128i32 } else if s == 8 { -256i32 } else if s == 9 { -512i32 } else if s == 10 { -1024i32 } else if s == 11 { -2048i32 } else if s == 12 { -4096i32 } else if s == 13 { -8192i32 } else if s == 14 { -16384i32 } else { -32768i32 })) by(bit_vector) requires 1 <= s <= 15; }
pub proof fn lemma_peek(a: u64, n: u8) requires 1 <= n <= 16 ensures (a >> ((64 - n) as u8)) == (a >> ((64 - n) as u64)), (a >> ((64 - n) as u64)) < 65536, n <= 9 ==> (a >> ((64 - n) as u64)) < 512 { let k = (64 - n) as u8; let l = (64 - n) as u64; assert((a >> k) == (a >> l) && (a >> l) < 65536) by(bit_vector) requires k == l, 48 <= k <= 63; assert(n <= 9 ==> (a >> l) < 512) by(bit_vector) requires l == 64 - n, 1 <= n <= 16; }
pub proof fn lemma_get(a: u64, n: u64) requires n <= 16 ensures (1u64 << n) as int == p2(n as int), 1 <= (1u64 << n) <= 0x10000,
    n > 0 ==> (rotl(a, n as u32) & (((1u64 << n) - 1) as u64)) == (a >> ((64 - n) as u64)), n == 0 ==> (rotl(a, n as u32) & (((1u64 << n) - 1) as u64)) == 0, n > 0 ==> (a >> ((64 - n) as u64)) < (1u64 << n)
{ lemma_p2(n as int); lemma_p2v(); lemma_p2mul(n as int, 16 - n); lemma_p2(16 - n); assert(p2(n as int) <= 65536) by(nonlinear_arith) requires p2(n as int) * p2(16 - n) == 65536, p2(16 - n) >= 1, p2(n as int) >= 1; lemma_u64_shl_is_mul(1, n); assert(1 <= (1u64 << n) <= 0x10000) by(bit_vector) requires n <= 16; let m = ((1u64 << n) - 1) as u64; let k = (64 - n) as u64; let nn = n as u32; let kk = (64 - nn) as u32;
    if n > 0 { assert((((a << nn) | (a >> kk)) & m) == (a >> k) && (a >> k) < (1u64 << n)) by(bit_vector) requires 0 < n <= 16, k == 64 - n, nn == n, kk == 64 - nn, m == (1u64 << n) - 1; }
    else { assert((1u64 << 0u64) == 1) by(bit_vector); assert(m == 0); assert(a & 0 == 0) by(bit_vector); } }
pub open spec fn by(v: u32, k: int) -> u8 { ((v >> ((24 - 8 * k) as u32)) & 255u32) as u8 }
//@fn crates/zune-jpeg/src/bitstream.rs :: has_zero
//@ret r
//@spec
    ensures r == (by(v, 0) == 0 || by(v, 1) == 0 || by(v, 2) == 0 || by(v, 3) == 0),
//@at begin
    proof { lemma_hz(v); assert((v & 0x7F7F_7F7Fu32) <= 0x7F7F_7F7Fu32) by(bit_vector); }
//@end
pub proof fn lemma_hz(v: u32) ensures (!(((((v & 0x7F7F_7F7F) + 0x7F7F_7F7F) as u32) | v) | 0x7F7F_7F7F) != 0) == (by(v, 0) == 0 || by(v, 1) == 0 || by(v, 2) == 0 || by(v, 3) == 0) {
    assert((!((((add(v & 0x7F7F_7F7F, 0x7F7F_7F7F))) | v) | 0x7F7F_7F7F) != 0) == (((v >> 24u32) & 255u32) as u8 == 0 || ((v >> 16u32) & 255u32) as u8 == 0 || ((v >> 8u32) & 255u32) as u8 == 0 || ((v >> 0u32) & 255u32) as u8 == 0)) by(bit_vector);
    assert((v & 0x7F7F_7F7Fu32) <= 0x7F7F_7F7Fu32) by(bit_vector);
}
//@fn crates/zune-jpeg/src/bitstream.rs :: has_byte
//@ret r
//@spec
    ensures val == 255 ==> r == (by(b, 0) == 255 || by(b, 1) == 255 || by(b, 2) == 255 || by(b, 3) == 255),
//@at begin
    proof { lemma_hb(b); assert((!0u32) == 0xFFFF_FFFFu32) by(bit_vector); assert(0xFFFF_FFFFu32 / 255 == 0x0101_0101) by(compute); assert(0x0101_0101 * (val as int) <= 0xFFFF_FFFF); }
//@end
pub proof fn lemma_hb(b: u32) ensures (by(b ^ 0xFFFF_FFFFu32, 0) == 0) == (by(b, 0) == 255), (by(b ^ 0xFFFF_FFFFu32, 1) == 0) == (by(b, 1) == 255), (by(b ^ 0xFFFF_FFFFu32, 2) == 0) == (by(b, 2) == 255), (by(b ^ 0xFFFF_FFFFu32, 3) == 0) == (by(b, 3) == 255) {
    assert((((((b ^ 0xFFFF_FFFFu32) >> 24u32) & 255u32) as u8) == 0) == (((b >> 24u32) & 255u32) as u8 == 255)) by(bit_vector);
    assert((((((b ^ 0xFFFF_FFFFu32) >> 16u32) & 255u32) as u8) == 0) == (((b >> 16u32) & 255u32) as u8 == 255)) by(bit_vector);
    assert((((((b ^ 0xFFFF_FFFFu32) >> 8u32) & 255u32) as u8) == 0) == (((b >> 8u32) & 255u32) as u8 == 255)) by(bit_vector);
    assert((((((b ^ 0xFFFF_FFFFu32) >> 0u32) & 255u32) as u8) == 0) == (((b >> 0u32) & 255u32) as u8 == 255)) by(bit_vector);
}
// ----- the bytes of the entropy coded segment -----
pub open spec fn byte_at(d: Seq<u8>, p: int) -> u8 { if p < d.len() { d[p] } else { 0 } }
pub open spec fn adv(d: Seq<u8>, p: int) -> int { if p < d.len() { p + 1 } else { d.len() as int } }
pub open spec fn npos(d: Seq<u8>, p: int) -> int { if p < d.len() { p } else { d.len() as int } }
/// the first byte that is not a fill byte 0xFF at or after p, and the position behind it
pub open spec fn ffskip(d: Seq<u8>, p: int) -> (u8, int) decreases d.len() - p { if p < d.len() && d[p] == 0xFF { ffskip(d, p + 1) } else { (byte_at(d, p), adv(d, p)) } }
/// the next byte of the segment: (true, code, position) for a marker; 0xFF 0x00 stands for the data byte 0xFF
pub open spec fn unst(d: Seq<u8>, p: int) -> (bool, u8, int) { let b = byte_at(d, p); if b != 0xFF { (false, b, adv(d, p)) } else { let (nb, q) = ffskip(d, p + 1); (nb != 0, if nb == 0 { 0xFF } else { nb }, q) } }
/// position behind the first k data bytes
pub open spec fn pk(d: Seq<u8>, p: int, k: int) -> int decreases k { if k <= 0 { npos(d, p) } else { unst(d, pk(d, p, k - 1)).2 } }
pub open spec fn nomark(d: Seq<u8>, p: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> !(#[trigger] unst(d, pk(d, p, j))).0 }
/// the first k data bytes, left aligned
pub open spec fn uq(d: Seq<u8>, p: int, k: int) -> u64 decreases k { if k <= 0 { 0 } else { uq(d, p, k - 1) | ((unst(d, pk(d, p, k - 1)).1 as u64) << ((64 - 8 * k) as u64)) } }
pub open spec fn fb(buf: u64, d: Seq<u8>, p: int, k: int) -> u64 decreases k { if k <= 0 { buf } else { (fb(buf, d, p, k - 1) << 8u64) | (unst(d, pk(d, p, k - 1)).1 as u64) } }
/// the pending bits, left aligned
pub open spec fn al(buf: u64, n: int) -> u64 { if n <= 0 { 0 } else { buf << ((64 - n) as u64) } }
pub proof fn lemma_fb(buf: u64, n: int, d: Seq<u8>, p: int, k: int) requires 0 <= n < 32, 0 <= k <= 4
    ensures al(fb(buf, d, p, k), n + 8 * k) == al(buf, n) | (uq(d, p, k) >> (n as u64)), n + 8 * k + 8 <= 64 ==> al(((fb(buf, d, p, k) << 8u64) | 255u64) >> 8u64, n + 8 * k) == al(buf, n) | (uq(d, p, k) >> (n as u64)),
        n + 8 * k + 8 <= 64 ==> al((((fb(buf, d, p, k) << 8u64) | 255u64) >> 8u64) << 8u64, n + 8 * k + 8) == al(buf, n) | (uq(d, p, k) >> (n as u64)),
    decreases k
{
    let x = fb(buf, d, p, k); let t = (n + 8 * k) as u64; let nn = n as u64;
    if k > 0 {
        lemma_fb(buf, n, d, p, k - 1);
        let y = fb(buf, d, p, k - 1); let u = uq(d, p, k - 1); let b = unst(d, pk(d, p, k - 1)).1 as u64; let s1 = (64 - t) as u64; let s2 = (64 - 8 * k) as u64; let a = al(buf, n); let s3 = (72 - t) as u64;
        assert(x == (y << 8u64) | b);
        if t == 8 {
            assert(al(y, 0) == 0); assert(nn == 0);
            assert((a | (u >> nn)) == 0 ==> a == 0 && (u >> nn) == 0) by(bit_vector);
            assert(u >> 0u64 == u) by(bit_vector);
            assert((((y << 8u64) | b) << 56u64) == (b << 56u64)) by(bit_vector) requires b < 256;
            assert(0u64 | ((0u64 | (b << 56u64)) >> 0u64) == (b << 56u64)) by(bit_vector);
        } else {
            assert((((y << 8u64) | b) << s1) == (a | ((u | (b << s2)) >> nn))) by(bit_vector) requires b < 256, (y << s3) == (a | (u >> nn)), s1 == 64 - t, s3 == 72 - t, t > 8, t <= 63, nn < 32, s2 == s1 + nn, s2 <= 56, s1 < 56;
        }
    } else { assert(x == buf); assert(al(buf, n) | (0u64 >> nn) == al(buf, n)) by { let a = al(buf, n); assert(a | (0u64 >> nn) == a) by(bit_vector) requires nn < 32; } }
    if t > 0 { let s1 = (64 - t) as u64;
        if t + 8 <= 64 { assert(((((x << 8u64) | 255u64) >> 8u64) << s1) == (x << s1)) by(bit_vector) requires 8 <= s1 < 64; let s4 = (56 - t) as u64; assert((((((x << 8u64) | 255u64) >> 8u64) << 8u64) << s4) == (x << s1)) by(bit_vector) requires s1 == s4 + 8, s1 < 64; } }
    else { assert((((((x << 8u64) | 255u64) >> 8u64) << 8u64) << 56u64) == 0) by(bit_vector); assert(al(x, 0) == 0); }
}
pub proof fn lemma_fb4(buf: u64, d: Seq<u8>, p: int) requires 0 <= p, p + 4 <= d.len()
    ensures by(be32(d.subrange(p, p + 4)), 0) == d[p], by(be32(d.subrange(p, p + 4)), 1) == d[p + 1], by(be32(d.subrange(p, p + 4)), 2) == d[p + 2], by(be32(d.subrange(p, p + 4)), 3) == d[p + 3],
        d[p] != 255 && d[p + 1] != 255 && d[p + 2] != 255 && d[p + 3] != 255 ==> fb(buf, d, p, 4) == (buf << 32u64) | (be32(d.subrange(p, p + 4)) as u64) && pk(d, p, 4) == p + 4 && nomark(d, p, 4)
{
    let s = d.subrange(p, p + 4); assert(s[0] == d[p] && s[1] == d[p + 1] && s[2] == d[p + 2] && s[3] == d[p + 3]); let (a, b, c, e) = (s[0], s[1], s[2], s[3]);
    let w = ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (e as u32); assert(w == be32(s));
    assert(((w >> 24u32) & 255u32) as u8 == a && ((w >> 16u32) & 255u32) as u8 == b && ((w >> 8u32) & 255u32) as u8 == c && ((w >> 0u32) & 255u32) as u8 == e) by(bit_vector) requires w == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (e as u32);
    reveal_with_fuel(fb, 5); reveal_with_fuel(pk, 5);
    assert(((((((((buf << 8u64) | (a as u64)) << 8u64) | (b as u64)) << 8u64) | (c as u64)) << 8u64) | (e as u64)) == (buf << 32u64) | (w as u64)) by(bit_vector) requires w == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (e as u32);
    if d[p] != 255 && d[p + 1] != 255 && d[p + 2] != 255 && d[p + 3] != 255 { assert(pk(d, p, 0) == p && pk(d, p, 1) == p + 1 && pk(d, p, 2) == p + 2 && pk(d, p, 3) == p + 3); assert forall|j: int| 0 <= j < 4 implies !(#[trigger] unst(d, pk(d, p, j))).0 by { assert(j == 0 || j == 1 || j == 2 || j == 3); } }
}
pub proof fn lemma_steps(buf: u64, d: Seq<u8>, p: int) ensures pk(d, p, 0) == npos(d, p), pk(d, p, 1) == unst(d, pk(d, p, 0)).2, pk(d, p, 2) == unst(d, pk(d, p, 1)).2, pk(d, p, 3) == unst(d, pk(d, p, 2)).2, pk(d, p, 4) == unst(d, pk(d, p, 3)).2,
    fb(buf, d, p, 0) == buf, fb(buf, d, p, 1) == (buf << 8u64) | (unst(d, pk(d, p, 0)).1 as u64), fb(buf, d, p, 2) == (fb(buf, d, p, 1) << 8u64) | (unst(d, pk(d, p, 1)).1 as u64), fb(buf, d, p, 3) == (fb(buf, d, p, 2) << 8u64) | (unst(d, pk(d, p, 2)).1 as u64), fb(buf, d, p, 4) == (fb(buf, d, p, 3) << 8u64) | (unst(d, pk(d, p, 3)).1 as u64),
    nomark(d, p, 0), nomark(d, p, 1) == !unst(d, pk(d, p, 0)).0, nomark(d, p, 2) == (nomark(d, p, 1) && !unst(d, pk(d, p, 1)).0), nomark(d, p, 3) == (nomark(d, p, 2) && !unst(d, pk(d, p, 2)).0), nomark(d, p, 4) == (nomark(d, p, 3) && !unst(d, pk(d, p, 3)).0)
{
    lemma_nomark(d, p, 0); lemma_nomark(d, p, 1); lemma_nomark(d, p, 2); lemma_nomark(d, p, 3);
}
pub proof fn lemma_nomark(d: Seq<u8>, p: int, k: int) requires k >= 0 ensures nomark(d, p, k + 1) == (nomark(d, p, k) && !unst(d, pk(d, p, k)).0) { if nomark(d, p, k) && !unst(d, pk(d, p, k)).0 { assert forall|j: int| 0 <= j < k + 1 implies !(#[trigger] unst(d, pk(d, p, j))).0 by { if j == k {} } } if nomark(d, p, k + 1) { assert(!unst(d, pk(d, p, k)).0); assert forall|j: int| 0 <= j < k implies !(#[trigger] unst(d, pk(d, p, j))).0 by {} } }
/// what refill does: nothing if 32 bits are pending; zero bits behind a marker or the end; otherwise up to four data bytes of the segment are appended
pub open spec fn refilled(s0: BitStream, d: Seq<u8>, p0: int, s1: BitStream, p1: int, k: int) -> bool {
    &&& s1.successive_low_mask == s0.successive_low_mask && s1.spec_start == s0.spec_start && s1.spec_end == s0.spec_end && s1.eob_run == s0.eob_run && s1.seen_eoi == s0.seen_eoi
    &&& if s0.bits_left >= 32 { s1 == s0 && p1 == p0 }
        else if s0.marker.is_some() || s0.overread_by > 0 || s0.seen_eoi { s1.bits_left == s0.bits_left + 32 && s1.aligned_buffer == al(s0.buffer, s0.bits_left as int) && s1.buffer == s0.buffer << 32u64 && p1 == p0 && s1.marker == s0.marker && s1.overread_by == s0.overread_by }
        else { 0 <= k <= 4 && nomark(d, p0, k) && (k < 4 ==> unst(d, pk(d, p0, k)).0 && npos(d, p1) == unst(d, pk(d, p0, k)).2 && s1.bits_left == s0.bits_left + 8 * k + (if unst(d, pk(d, p0, k)).1 == 0xD9 { 8int } else { 0 })) && (k == 4 ==> npos(d, p1) == pk(d, p0, 4) && s1.bits_left == s0.bits_left + 32 && s1.marker == s0.marker)
            && (s1.bits_left > 0 ==> s1.aligned_buffer == al(s0.buffer, s0.bits_left as int) | (uq(d, p0, k) >> (s0.bits_left as u64))) && al(s1.buffer, s1.bits_left as int) == al(s0.buffer, s0.bits_left as int) | (uq(d, p0, k) >> (s0.bits_left as u64)) }
}
// ----- decoding one code -----
pub proof fn lemma_at(bits: Seq<u8>, v: int, k: int, l: int) requires dht_ok(bits), 1 <= l <= 16, l <= k <= 16, fc(bits, l) * p2(k - l) <= v < (fc(bits, l) + bits[l] as int) * p2(k - l)
    ensures starts(bits, tot(bits, l - 1) + v / p2(k - l) - fc(bits, l), v, k), ln(bits, tot(bits, l - 1) + v / p2(k - l) - fc(bits, l)) == l, fc(bits, l) <= v / p2(k - l) < fc(bits, l) + bits[l]
{
    let w = p2(k - l); let c = v / w; let f = fc(bits, l); let b = bits[l] as int; lemma_p2(k - l); lemma_fc_bounds(bits, l, 16); lemma_scale(f, l, k); 
    assert(v == w * c + v % w && 0 <= v % w < w) by(nonlinear_arith) requires w >= 1, c == v / w;
    assert(f <= c) by(nonlinear_arith) requires f * w <= v, v == w * c + v % w, v % w < w, w >= 1;
    assert(c < f + b) by(nonlinear_arith) requires v < (f + b) * w, v == w * c + v % w, v % w >= 0, w >= 1;
    let q = tot(bits, l - 1) + c - f; lemma_tot_mono(bits, 0, l - 1); lemma_tot_mono(bits, l, 16); lemma_ln(bits, q, l);
    assert(c * w <= v < (c + 1) * w) by(nonlinear_arith) requires v == w * c + v % w, 0 <= v % w < w;
}
pub proof fn lemma_find(bits: Seq<u8>, v: int, l: int) -> (q: int) requires dht_ok(bits), 1 <= l <= 9, fc(bits, l) * p2(9 - l) <= v < fc(bits, 9) + bits[9] ensures starts(bits, q, v, 9) decreases 10 - l {
    lemma_p2v(); if v < (fc(bits, l) + bits[l] as int) * p2(9 - l) { lemma_at(bits, v, 9, l); tot(bits, l - 1) + v / p2(9 - l) - fc(bits, l) }
    else { if l == 9 { assert((fc(bits, 9) + bits[9] as int) * 1 == fc(bits, 9) + bits[9] as int); } lemma_fc_bounds(bits, l, 16); lemma_step(fc(bits, l) + bits[l], l, 9); lemma_find(bits, v, l + 1) }
}
/// nine bits that start with a code, continued to sixteen
pub proof fn lemma_longer(bits: Seq<u8>, q: int, v: int, w: int) requires starts(bits, q, v, 9), v * 128 <= w < (v + 1) * 128 ensures starts(bits, q, w, 16) {
    lemma_ln_conv(bits, q); let l = ln(bits, q); lemma_p2mul(9 - l, 7); lemma_p2v(); let c = cw(bits, q); let a = p2(9 - l); assert(p2(16 - l) == a * 128);
    assert(c * (a * 128) == (c * a) * 128 && (c + 1) * (a * 128) == ((c + 1) * a) * 128) by(nonlinear_arith);
}
/// the codes of length l end where the longer ones begin
pub proof fn lemma_ends(bits: Seq<u8>, l: int, m: int) requires dht_ok(bits), 1 <= l < m <= 17 ensures (fc(bits, l) + bits[l] as int) * p2(16 - l) <= (if m == 17 { fc(bits, 16) + bits[16] as int } else { fc(bits, m) * p2(16 - m) }) decreases m - l {
    lemma_fc_bounds(bits, l, 16); lemma_p2v(); 
    if l == 16 { assert((fc(bits, 16) + bits[16] as int) * 1 == fc(bits, 16) + bits[16] as int); }
    else { lemma_step(fc(bits, l) + bits[l], l, 16); assert(fc(bits, l + 1) == 2 * (fc(bits, l) + bits[l] as int)); if m > l + 1 { lemma_ends(bits, l + 1, m); let f = fc(bits, l + 1); let b = bits[l + 1] as int; let w = p2(15 - l); lemma_p2(15 - l); assert(f * w <= (f + b) * w) by(nonlinear_arith) requires b >= 0, w >= 1; } }
}
pub proof fn lemma_starts_lt(bits: Seq<u8>, q: int, v: int, m: int) requires dht_ok(bits), starts(bits, q, v, 16), ln(bits, q) < m <= 17 ensures v < (if m == 17 { fc(bits, 16) + bits[16] as int } else { fc(bits, m) * p2(16 - m) }) {
    lemma_ln_conv(bits, q); let l = ln(bits, q); lemma_ends(bits, l, m); let c = cw(bits, q); let w = p2(16 - l); lemma_p2(16 - l); assert((c + 1) * w <= (fc(bits, l) + bits[l] as int) * w) by(nonlinear_arith) requires c + 1 <= fc(bits, l) + bits[l] as int, w >= 1; }
pub proof fn lemma_starts_ge(bits: Seq<u8>, q: int, v: int) requires starts(bits, q, v, 16) ensures v >= fc(bits, ln(bits, q)) * p2(16 - ln(bits, q)) { lemma_ln_conv(bits, q); let l = ln(bits, q); let c = cw(bits, q); let w = p2(16 - l); lemma_p2(16 - l); assert(fc(bits, l) * w <= c * w) by(nonlinear_arith) requires fc(bits, l) <= c, w >= 1; }
/// a bit string starts with at most one code
pub proof fn lemma_unique(bits: Seq<u8>, q: int, r: int, v: int) requires dht_ok(bits), starts(bits, q, v, 16), starts(bits, r, v, 16) ensures q == r {
    lemma_ln_conv(bits, q); lemma_ln_conv(bits, r); lemma_starts_ge(bits, q, v); lemma_starts_ge(bits, r, v);
    if ln(bits, q) < ln(bits, r) { lemma_starts_lt(bits, q, v, ln(bits, r)); } else if ln(bits, r) < ln(bits, q) { lemma_starts_lt(bits, r, v, ln(bits, q)); }
    else { let a = cw(bits, q); let b = cw(bits, r); let w = p2(16 - ln(bits, q)); lemma_p2(16 - ln(bits, q)); assert(a == b) by(nonlinear_arith) requires a * w <= v < (a + 1) * w, b * w <= v < (b + 1) * w, w >= 1; }
}
pub proof fn lemma_shr(x: i32, n: u32) requires 0 <= x, n <= 6 ensures (x >> n) as int == (x as int) / p2(n as int) { lemma_p2v(); assert((x >> 0u32) == x) by(bit_vector); assert((x >> 1u32) == x / 2 && (x >> 2u32) == x / 4 && (x >> 3u32) == x / 8 && (x >> 4u32) == x / 16 && (x >> 5u32) == x / 32 && (x >> 6u32) == x / 64) by(bit_vector) requires 0 <= x; }
pub open spec fn wrapi(x: int) -> int { if x > 0x7fff_ffff { x - 0x1_0000_0000 } else if x < -0x8000_0000 { x + 0x1_0000_0000 } else { x } }
pub open spec fn refilled5(s0: BitStream, d: Seq<u8>, p0: int, s1: BitStream, p1: int) -> bool { refilled(s0, d, p0, s1, p1, 0) || refilled(s0, d, p0, s1, p1, 1) || refilled(s0, d, p0, s1, p1, 2) || refilled(s0, d, p0, s1, p1, 3) || refilled(s0, d, p0, s1, p1, 4) }
/// the difference that follows code q in the stream, and the stream behind it
pub open spec fn diff_at(s1: BitStream, l: int, m: int) -> int { let s2 = (s1.aligned_buffer << (l as u64)); if m == 0 { 0 } else { ext((s2 >> ((64 - m) as u64)) as int, m) } }
pub open spec fn dc_step(bits: Seq<u8>, vals: Seq<u8>, s0: BitStream, d: Seq<u8>, p0: int, pred0: int, s1: BitStream, q: int, s2: BitStream, p1: int, pred1: int) -> bool {
    dc_skip(bits, vals, s0, d, p0, s1, q, s2, p1) && pred1 == wrapi(pred0 + diff_at(s1, ln(bits, q), vals[q] as int))
}
pub open spec fn dc_skip(bits: Seq<u8>, vals: Seq<u8>, s0: BitStream, d: Seq<u8>, p0: int, s1: BitStream, q: int, s2: BitStream, p1: int) -> bool {
    &&& refilled5(s0, d, p0, s1, p1) &&& starts(bits, q, s1.next(16), 16) &&& ln(bits, q) <= s1.bits_left
    &&& s2.aligned_buffer == (if vals[q] == 0 { s1.aligned_buffer << (ln(bits, q) as u64) } else { rotl(s1.aligned_buffer << (ln(bits, q) as u64), vals[q] as u32) })
    &&& s2.bits_left as int == (if s1.bits_left - ln(bits, q) >= vals[q] { s1.bits_left - ln(bits, q) - vals[q] } else { s1.bits_left - ln(bits, q) - vals[q] + 256 })
}
// ----- one block -----
//@const crates/zune-jpeg/src/misc.rs :: UN_ZIGZAG
//@end
//@const crates/zune-jpeg/src/mcu.rs :: DCT_BLOCK
//@end
/// the zig-zag walk over the 8x8 block (T.81 figure A.6): the next position after (x, y)
pub open spec fn zstep(x: int, y: int) -> (int, int) { if (x + y) % 2 == 0 { if x == 7 { (x, y + 1) } else if y == 0 { (x + 1, y) } else { (x + 1, y - 1) } } else { if y == 7 { (x + 1, y) } else if x == 0 { (x, y + 1) } else { (x - 1, y + 1) } } }
pub open spec fn zpos(k: int) -> (int, int) decreases k { if k <= 0 { (0, 0) } else { let (x, y) = zpos(k - 1); zstep(x, y) } }
pub open spec fn zz(k: int) -> int { zpos(k).1 * 8 + zpos(k).0 }
pub proof fn lemma_zpos() ensures zpos(0) == (0int, 0int), zpos(1) == (1int, 0int), zpos(2) == (0int, 1int), zpos(3) == (0int, 2int), zpos(4) == (1int, 1int), zpos(5) == (2int, 0int), zpos(6) == (3int, 0int), zpos(7) == (2int, 1int), zpos(8) == (1int, 2int), zpos(9) == (0int, 3int), zpos(10) == (0int, 4int), zpos(11) == (1int, 3int), zpos(12) == (2int, 2int), zpos(13) == (3int, 1int), zpos(14) == (4int, 0int), zpos(15) == (5int, 0int), zpos(16) == (4int, 1int), zpos(17) == (3int, 2int), zpos(18) == (2int, 3int), zpos(19) == (1int, 4int), zpos(20) == (0int, 5int), zpos(21) == (0int, 6int), zpos(22) == (1int, 5int), zpos(23) == (2int, 4int), zpos(24) == (3int, 3int), zpos(25) == (4int, 2int), zpos(26) == (5int, 1int), zpos(27) == (6int, 0int), zpos(28) == (7int, 0int), zpos(29) == (6int, 1int), zpos(30) == (5int, 2int), zpos(31) == (4int, 3int), zpos(32) == (3int, 4int), zpos(33) == (2int, 5int), zpos(34) == (1int, 6int), zpos(35) == (0int, 7int), zpos(36) == (1int, 7int), zpos(37) == (2int, 6int), zpos(38) == (3int, 5int), zpos(39) == (4int, 4int), zpos(40) == (5int, 3int), zpos(41) == (6int, 2int), zpos(42) == (7int, 1int), zpos(43) == (7int, 2int), zpos(44) == (6int, 3int), zpos(45) == (5int, 4int), zpos(46) == (4int, 5int), zpos(47) == (3int, 6int), zpos(48) == (2int, 7int), zpos(49) == (3int, 7int), zpos(50) == (4int, 6int), zpos(51) == (5int, 5int), zpos(52) == (6int, 4int), zpos(53) == (7int, 3int), zpos(54) == (7int, 4int), zpos(55) == (6int, 5int), zpos(56) == (5int, 6int), zpos(57) == (4int, 7int), zpos(58) == (5int, 7int), zpos(59) == (6int, 6int), zpos(60) == (7int, 5int), zpos(61) == (7int, 6int), zpos(62) == (6int, 7int), zpos(63) == (7int, 7int) { reveal_with_fuel(zpos, 2); assert(zpos(0) == (0int, 0int)); assert(zpos(1) == (1int, 0int)); assert(zpos(2) == (0int, 1int)); assert(zpos(3) == (0int, 2int)); assert(zpos(4) == (1int, 1int)); assert(zpos(5) == (2int, 0int)); assert(zpos(6) == (3int, 0int)); assert(zpos(7) == (2int, 1int)); assert(zpos(8) == (1int, 2int)); assert(zpos(9) == (0int, 3int)); assert(zpos(10) == (0int, 4int)); assert(zpos(11) == (1int, 3int)); assert(zpos(12) == (2int, 2int)); assert(zpos(13) == (3int, 1int)); assert(zpos(14) == (4int, 0int)); assert(zpos(15) == (5int, 0int)); assert(zpos(16) == (4int, 1int)); assert(zpos(17) == (3int, 2int)); assert(zpos(18) == (2int, 3int)); assert(zpos(19) == (1int, 4int)); assert(zpos(20) == (0int, 5int)); assert(zpos(21) == (0int, 6int)); assert(zpos(22) == (1int, 5int)); assert(zpos(23) == (2int, 4int)); assert(zpos(24) == (3int, 3int)); assert(zpos(25) == (4int, 2int)); assert(zpos(26) == (5int, 1int)); assert(zpos(27) == (6int, 0int)); assert(zpos(28) == (7int, 0int)); assert(zpos(29) == (6int, 1int)); assert(zpos(30) == (5int, 2int)); assert(zpos(31) == (4int, 3int)); assert(zpos(32) == (3int, 4int)); assert(zpos(33) == (2int, 5int)); assert(zpos(34) == (1int, 6int)); assert(zpos(35) == (0int, 7int)); assert(zpos(36) == (1int, 7int)); assert(zpos(37) == (2int, 6int)); assert(zpos(38) == (3int, 5int)); assert(zpos(39) == (4int, 4int)); assert(zpos(40) == (5int, 3int)); assert(zpos(41) == (6int, 2int)); assert(zpos(42) == (7int, 1int)); assert(zpos(43) == (7int, 2int)); assert(zpos(44) == (6int, 3int)); assert(zpos(45) == (5int, 4int)); assert(zpos(46) == (4int, 5int)); assert(zpos(47) == (3int, 6int)); assert(zpos(48) == (2int, 7int)); assert(zpos(49) == (3int, 7int)); assert(zpos(50) == (4int, 6int)); assert(zpos(51) == (5int, 5int)); assert(zpos(52) == (6int, 4int)); assert(zpos(53) == (7int, 3int)); assert(zpos(54) == (7int, 4int)); assert(zpos(55) == (6int, 5int)); assert(zpos(56) == (5int, 6int)); assert(zpos(57) == (4int, 7int)); assert(zpos(58) == (5int, 7int)); assert(zpos(59) == (6int, 6int)); assert(zpos(60) == (7int, 5int)); assert(zpos(61) == (7int, 6int)); assert(zpos(62) == (6int, 7int)); assert(zpos(63) == (7int, 7int)); }
pub proof fn lemma_zz(k: int) requires 0 <= k < 64 ensures UN_ZIGZAG@[k] == zz(k), 0 <= zz(k) < 64, UN_ZIGZAG@[k] & 63 == zz(k) { lemma_zpos(); let x = UN_ZIGZAG@[k]; assert(x < 64 ==> x & 63 == x) by(bit_vector); }
/// state of the decoder of a block: bit reader, reader position, next coefficient, the block
pub struct Tr { pub s: BitStream, pub p: int, pub k: int, pub blk: Seq<i32> }
/// one AC symbol: run and size from the code, the value from the bits behind it
pub open spec fn ac_step(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, qt: Seq<i32>, a: Tr, s1: BitStream, q: int, b: Tr) -> bool {
    let l = ln(bits, q); let m = (vals[q] & 15) as int; let r = (vals[q] >> 4) as int; let z = zz(a.k + r);
    &&& refilled5(a.s, d, a.p, s1, b.p) &&& starts(bits, q, s1.next(16), 16) &&& a.blk.len() == 64 &&& b.blk.len() == 64
    &&& if m != 0 {
            b.k == a.k + r + 1 && (a.k + r <= 63 ==> b.blk == a.blk.update(z, (diff_at(s1, l, m) * qt[z]) as i32))
            && (b.s.aligned_buffer == s1.aligned_buffer << ((l + m) as u64) || b.s.aligned_buffer == rotl(s1.aligned_buffer << (l as u64), m as u32)) && (l + m <= s1.bits_left ==> b.s.bits_left == s1.bits_left - l - m)
        } else { r == 15 && b.k == a.k + 16 && b.blk == a.blk && b.s.aligned_buffer == s1.aligned_buffer << (l as u64) && l <= s1.bits_left && b.s.bits_left == s1.bits_left - l }
}
/// the end-of-block symbol: no coefficient follows
pub open spec fn eob_step(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, a: Tr, s1: BitStream, q: int, b: Tr) -> bool {
    let l = ln(bits, q);
    refilled5(a.s, d, a.p, s1, b.p) && starts(bits, q, s1.next(16), 16) && vals[q] & 15 == 0 && vals[q] >> 4 != 15 && b.k == a.k && b.blk == a.blk && b.s.aligned_buffer == s1.aligned_buffer << (l as u64) && l <= s1.bits_left && b.s.bits_left == s1.bits_left - l
}
pub open spec fn ac_next(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, qt: Seq<i32>, a: Tr, b: Tr) -> bool { exists|s1: BitStream, q: int| #[trigger] ac_step(bits, vals, d, qt, a, s1, q, b) }
pub open spec fn eob_next(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, a: Tr, b: Tr) -> bool { exists|s1: BitStream, q: int| #[trigger] eob_step(bits, vals, d, a, s1, q, b) }
/// b is reached from a through AC symbols
pub open spec fn ac_run(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, qt: Seq<i32>, a: Tr, b: Tr, n: nat) -> bool decreases n { if n == 0 { a == b } else { exists|c: Tr| c.k < 64 && #[trigger] ac_next(bits, vals, d, qt, c, b) && ac_run(bits, vals, d, qt, a, c, (n - 1) as nat) } }
/// AC symbols until the block is full or an end-of-block symbol
pub open spec fn ac_block(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, qt: Seq<i32>, a: Tr, b: Tr, ret: int) -> bool {
    exists|n: nat, c: Tr| #[trigger] ac_run(bits, vals, d, qt, a, c, n) && ((c.k >= 64 && b == c && ret == 64) || (c.k < 64 && eob_next(bits, vals, d, c, b) && ret == c.k))
}
pub open spec fn dc_first(s0: BitStream, d: Seq<u8>, p0: int, t: &HuffmanTable, qt: Seq<i32>, pr0: int, pr1: int, blk: Seq<i32>, s1: BitStream, q: int, a: Tr) -> bool {
    dc_step(t.bits_of(), t.values@, s0, d, p0, pr0, s1, q, a.s, a.p, pr1) && a.k == 1 && a.blk == blk.update(0, a.blk[0]) && (-0x8000_0000 <= pr1 * qt[0] <= 0x7fff_ffff ==> a.blk[0] == pr1 * qt[0])
}
pub open spec fn mcu_result(s0: BitStream, d: Seq<u8>, p0: int, dct: &HuffmanTable, act: &HuffmanTable, qt: Seq<i32>, pr0: int, pr1: int, blk: Seq<i32>, blk1: Seq<i32>, s2: BitStream, p2: int, n: int, s1: BitStream, q: int, a: Tr, b: Tr) -> bool {
    dc_first(s0, d, p0, dct, qt, pr0, pr1, blk, s1, q, a) && ac_block(act.bits_ac(), act.values@, d, qt, a, b, n) && b.s == s2 && b.p == p2 && b.blk == blk1
}
pub proof fn lemma_run(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, qt: Seq<i32>, a: Tr, c: Tr, b: Tr, n: nat) requires ac_run(bits, vals, d, qt, a, c, n), c.k < 64, ac_next(bits, vals, d, qt, c, b) ensures ac_run(bits, vals, d, qt, a, b, n + 1) { let k = (n + 1) as nat; assert((k - 1) as nat == n); assert(ac_run(bits, vals, d, qt, a, c, (k - 1) as nat) && c.k < 64 && ac_next(bits, vals, d, qt, c, b)); }
pub proof fn lemma_magb(a: u64, n: u64, m: u64) requires 1 <= n, 1 <= m, n + m <= 9 ensures magbits((a >> 55u64) as i16, n as i16, m as i16) as int == ((a << n) >> ((64 - m) as u64)) as int, (a >> 55u64) < 512 {
    let i = (a >> 55u64) as i16; let s = (9 - n - m) as u64; let t = (9 - n - m) as u16; let w = (64 - m) as u64; let mm = m as u16; lemma_p2v();
    assert((a >> 55u64) < 512) by(bit_vector);
    let x = a >> 55u64; let mk = ((1u64 << m) - 1) as u64;
    assert((1u64 << m) == (if m == 1 { 2u64 } else if m == 2 { 4u64 } else if m == 3 { 8u64 } else if m == 4 { 16u64 } else if m == 5 { 32u64 } else if m == 6 { 64u64 } else if m == 7 { 128u64 } else { 256u64 })) by(bit_vector) requires 1 <= m <= 8;
    assert((1i16 << mm) == (if mm == 1 { 2i16 } else if mm == 2 { 4i16 } else if mm == 3 { 8i16 } else if mm == 4 { 16i16 } else if mm == 5 { 32i16 } else if mm == 6 { 64i16 } else if mm == 7 { 128i16 } else { 256i16 })) by(bit_vector) requires 1 <= mm <= 8;
    assert(((a << n) >> w) == ((x >> s) & mk)) by(bit_vector) requires x == a >> 55u64, w == 64 - m, s == 9 - n - m, mk == (1u64 << m) - 1, 1 <= n <= 8, 1 <= m <= 8, n + m <= 9;
    let mi = mk as i16; assert(((x as i16 >> t) & mi) as u64 == ((x >> s) & mk) && ((x >> s) & mk) < 256) by(bit_vector) requires x < 512, mk < 256, mi == mk as i16, s < 9, t == s as u16;
}
pub proof fn lemma_fe(e: i16) ensures (e >> 8u16) as int * 256 + ((e >> 4u16) & 15) as int * 16 + (e & 15) as int == e as int, 0 <= ((e >> 4u16) & 15) <= 15, 0 <= (e & 15) <= 15, -128 <= (e >> 8u16) <= 127 {
    assert((e >> 8u16) * 256 + ((e >> 4u16) & 15) * 16 + (e & 15) == e) by(bit_vector); assert(0 <= ((e >> 4u16) & 15) && ((e >> 4u16) & 15) <= 15 && 0 <= (e & 15) && (e & 15) <= 15 && -128 <= (e >> 8u16) && (e >> 8u16) <= 127) by(bit_vector); }
// ----- progressive scans (T.81 G.1.2) -----
pub struct Tp { pub s: BitStream, pub p: int, pub k: int, pub blk: Seq<i16> }
pub open spec fn p_put(a: Seq<i16>, b: Seq<i16>, z: int, v: int, bit: int) -> bool { b == a.update(z, b[z]) && (-0x8000 <= v * bit <= 0x7fff ==> b[z] == v * bit) }
/// one symbol of a first AC scan: run and size from the code, the value from the bits behind it, scaled to its bit position
pub open spec fn p_step(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, a: Tp, s1: BitStream, q: int, b: Tp) -> bool {
    let l = ln(bits, q); let m = (vals[q] & 15) as int; let r = (vals[q] >> 4) as int;
    &&& refilled5(a.s, d, a.p, s1, b.p) &&& starts(bits, q, s1.next(16), 16) &&& a.blk.len() == 64 &&& b.blk.len() == 64 &&& b.s.eob_run == a.s.eob_run &&& b.s.successive_low_mask == a.s.successive_low_mask
    &&& if m != 0 {
            b.k == a.k + r + 1 && (a.k + r <= 63 ==> p_put(a.blk, b.blk, zz(a.k + r), diff_at(s1, l, m), a.s.successive_low_mask as int))
            && (b.s.aligned_buffer == s1.aligned_buffer << ((l + m) as u64) || b.s.aligned_buffer == rotl(s1.aligned_buffer << (l as u64), m as u32)) && (l + m <= s1.bits_left ==> b.s.bits_left == s1.bits_left - l - m)
        } else { r == 15 && b.k == a.k + 16 && b.blk == a.blk && b.s.aligned_buffer == s1.aligned_buffer << (l as u64) && l <= s1.bits_left && b.s.bits_left == s1.bits_left - l }
}
/// the end-of-band symbol: this block and 2^r + (the r bits behind the code) - 1 more have no further coefficient
pub open spec fn p_eob(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, a: Tp, s1: BitStream, q: int, b: Tp) -> bool {
    let l = ln(bits, q); let r = (vals[q] >> 4) as int; let s2 = s1.aligned_buffer << (l as u64);
    &&& refilled5(a.s, d, a.p, s1, b.p) &&& starts(bits, q, s1.next(16), 16) &&& vals[q] & 15 == 0 &&& r < 15 &&& b.k == a.k &&& b.blk == a.blk &&& l <= s1.bits_left
    &&& b.s.aligned_buffer == rotl(s2, r as u32) &&& (l + r <= s1.bits_left ==> b.s.bits_left == s1.bits_left - l - r)
    &&& b.s.eob_run == p2(r) + (if r == 0 { 0 } else { (s2 >> ((64 - r) as u64)) as int }) - 1
}
pub open spec fn p_next(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, a: Tp, b: Tp) -> bool { exists|s1: BitStream, q: int| #[trigger] p_step(bits, vals, d, a, s1, q, b) }
pub open spec fn p_end(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, a: Tp, b: Tp) -> bool { exists|s1: BitStream, q: int| #[trigger] p_eob(bits, vals, d, a, s1, q, b) }
pub open spec fn p_run(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, se: int, a: Tp, b: Tp, n: nat) -> bool decreases n { if n == 0 { a == b } else { exists|c: Tp| (n == 1 || c.k <= se) && #[trigger] p_next(bits, vals, d, c, b) && p_run(bits, vals, d, se, a, c, (n - 1) as nat) } }
/// symbols until the band is full or an end-of-band symbol
pub open spec fn p_block(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, se: int, a: Tp, b: Tp) -> bool {
    exists|n: nat, c: Tp| #[trigger] p_run(bits, vals, d, se, a, c, n) && ((n > 0 && c.k > se && b == c) || ((n == 0 || c.k <= se) && p_end(bits, vals, d, c, b)))
}
pub proof fn lemma_prun(bits: Seq<u8>, vals: Seq<u8>, d: Seq<u8>, se: int, a: Tp, c: Tp, b: Tp, n: nat) requires p_run(bits, vals, d, se, a, c, n), n == 0 || c.k <= se, p_next(bits, vals, d, c, b) ensures p_run(bits, vals, d, se, a, b, n + 1) { let k = (n + 1) as nat; assert((k - 1) as nat == n); assert((k == 1 || c.k <= se) && p_next(bits, vals, d, c, b) && p_run(bits, vals, d, se, a, c, (k - 1) as nat)); }
pub proof fn lemma_keep(s0: BitStream, d: Seq<u8>, p0: int, s1: BitStream, p1: int) requires refilled5(s0, d, p0, s1, p1) ensures s1.eob_run == s0.eob_run, s1.successive_low_mask == s0.successive_low_mask, s1.spec_start == s0.spec_start, s1.spec_end == s0.spec_end {}
pub open spec fn one_bit(s0: BitStream, d: Seq<u8>, p0: int, s1: BitStream, s2: BitStream, p1: int) -> bool { (if s0.bits_left < 1 { refilled5(s0, d, p0, s1, p1) } else { s1 == s0 && p1 == p0 }) && s1.bits_left >= 1 && s2 == (BitStream { bits_left: (s1.bits_left - 1) as u8, aligned_buffer: s1.aligned_buffer << 1u64, ..s1 }) }
impl BitStream {
/// the next n (at most 16) bits of the stream as a number
pub open spec fn next(&self, n: int) -> int { (self.aligned_buffer >> ((64 - n) as u64)) as int }
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::peek_bits
//@ret r
//@spec
    requires 1 <= LOOKAHEAD <= 16,
    ensures r as int == self.next(LOOKAHEAD as int), 0 <= r < 65536, LOOKAHEAD <= 9 ==> r < 512,
//@at begin
    proof { lemma_peek(self.aligned_buffer, LOOKAHEAD); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::drop_bits
//@spec
    requires n < 64,
    ensures *final(self) == (BitStream { bits_left: (if old(self).bits_left >= n { old(self).bits_left - n } else { 0 }) as u8, aligned_buffer: old(self).aligned_buffer << (n as u64), ..*old(self) }),
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::get_bit
//@ret r
//@spec
    ensures r as int == old(self).next(1), r <= 1,
        *final(self) == (BitStream { bits_left: (if old(self).bits_left >= 1 { old(self).bits_left - 1 } else { 0 }) as u8, aligned_buffer: old(self).aligned_buffer << 1u64, ..*old(self) }),
//@at begin
    proof { let a = self.aligned_buffer; assert((a >> 63u64) <= 1) by(bit_vector); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::get_bits
//@ret r
//@spec
    requires n_bits <= 16,
    ensures n_bits > 0 ==> r as int == old(self).next(n_bits as int), n_bits == 0 ==> r == 0, 0 <= r < p2(n_bits as int),
        // the bits read are gone, everything after them moves up
        *final(self) == (BitStream { bits_left: (if old(self).bits_left >= n_bits { old(self).bits_left - n_bits } else { old(self).bits_left - n_bits + 256 }) as u8, aligned_buffer: rotl(old(self).aligned_buffer, n_bits as u32), ..*old(self) }),
//@at begin
    proof { lemma_get(self.aligned_buffer, n_bits as u64); lemma_p2v(); }
//@at before tail
    proof { }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::refill
//@expand
//@ret r
//@sub "Unknown marker in bit stream".to_string() => vx_format()
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX,
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        r.is_ok() ==> refilled(*old(self), old(reader).data(), old(reader).pos(), *final(self), final(reader).pos(), 0) || refilled(*old(self), old(reader).data(), old(reader).pos(), *final(self), final(reader).pos(), 1) || refilled(*old(self), old(reader).data(), old(reader).pos(), *final(self), final(reader).pos(), 2) || refilled(*old(self), old(reader).data(), old(reader).pos(), *final(self), final(reader).pos(), 3) || refilled(*old(self), old(reader).data(), old(reader).pos(), *final(self), final(reader).pos(), 4),
//@at begin
    hide(nomark); hide(pk); hide(fb); hide(uq); hide(by); hide(be32); let ghost d = reader.data(); let ghost p = reader.pos(); let ghost s0 = *self; let ghost n = self.bits_left as int;
    proof { if n < 32 { let b = self.buffer; if p + 4 <= d.len() { lemma_fb4(b, d, p); } if n > 0 { let t = (64 - n) as u64; let t2 = (32 - n) as u64; assert(((b << 32u64) << t2) == (b << t)) by(bit_vector) requires t2 < 32, t == t2 + 32; } else { assert(((b << 32u64) << 32u64) == 0) by(bit_vector); } lemma_fb(b, n, d, p, 0); lemma_fb(b, n, d, p, 1); lemma_fb(b, n, d, p, 2); lemma_fb(b, n, d, p, 3); lemma_fb(b, n, d, p, 4); lemma_steps(b, d, p); } }
//@at after assign byte
    proof { assert(self.buffer == fb(s0.buffer, d, p, 0)); assert(self.bits_left == n + 0); assert(nomark(d, p, 0)); assert(byte == byte_at(d, pk(d, p, 0)) && npos(d, reader.pos()) == adv(d, pk(d, p, 0))); }
//@at after assign byte 2
    proof { assert(self.buffer == fb(s0.buffer, d, p, 1)); assert(self.bits_left == n + 8); assert(nomark(d, p, 1)); assert(byte == byte_at(d, pk(d, p, 1)) && npos(d, reader.pos()) == adv(d, pk(d, p, 1))); }
//@at after assign byte 3
    proof { assert(self.buffer == fb(s0.buffer, d, p, 2)); assert(self.bits_left == n + 16); assert(nomark(d, p, 2)); assert(byte == byte_at(d, pk(d, p, 2)) && npos(d, reader.pos()) == adv(d, pk(d, p, 2))); }
//@at after assign byte 4
    proof { assert(self.buffer == fb(s0.buffer, d, p, 3)); assert(self.bits_left == n + 24); assert(nomark(d, p, 3)); assert(byte == byte_at(d, pk(d, p, 3)) && npos(d, reader.pos()) == adv(d, pk(d, p, 3))); }
//@loop 0

    invariant reader.wf(), reader.data() == d, unst(d, pk(d, p, 0)) == (if next_byte == 0xFF { let (nb, q) = ffskip(d, npos(d, reader.pos())); (nb != 0, if nb == 0 { 0xFFu8 } else { nb }, q) } else { (next_byte != 0, if next_byte == 0 { 0xFFu8 } else { next_byte as u8 }, npos(d, reader.pos())) }), next_byte < 256,
    decreases d.len() - npos(d, reader.pos()) + (if next_byte == 0xFF { 1int } else { 0 })
//@loop 1

    invariant reader.wf(), reader.data() == d, unst(d, pk(d, p, 1)) == (if next_byte == 0xFF { let (nb, q) = ffskip(d, npos(d, reader.pos())); (nb != 0, if nb == 0 { 0xFFu8 } else { nb }, q) } else { (next_byte != 0, if next_byte == 0 { 0xFFu8 } else { next_byte as u8 }, npos(d, reader.pos())) }), next_byte < 256,
    decreases d.len() - npos(d, reader.pos()) + (if next_byte == 0xFF { 1int } else { 0 })
//@loop 2

    invariant reader.wf(), reader.data() == d, unst(d, pk(d, p, 2)) == (if next_byte == 0xFF { let (nb, q) = ffskip(d, npos(d, reader.pos())); (nb != 0, if nb == 0 { 0xFFu8 } else { nb }, q) } else { (next_byte != 0, if next_byte == 0 { 0xFFu8 } else { next_byte as u8 }, npos(d, reader.pos())) }), next_byte < 256,
    decreases d.len() - npos(d, reader.pos()) + (if next_byte == 0xFF { 1int } else { 0 })
//@loop 3

    invariant reader.wf(), reader.data() == d, unst(d, pk(d, p, 3)) == (if next_byte == 0xFF { let (nb, q) = ffskip(d, npos(d, reader.pos())); (nb != 0, if nb == 0 { 0xFFu8 } else { nb }, q) } else { (next_byte != 0, if next_byte == 0 { 0xFFu8 } else { next_byte as u8 }, npos(d, reader.pos())) }), next_byte < 256,
    decreases d.len() - npos(d, reader.pos()) + (if next_byte == 0xFF { 1int } else { 0 })
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::decode_dc
//@expand
//@ret res
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX, exists|b: Seq<u8>| #[trigger] dc_table.dc_codes(b),
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        // the code at the head of the stream selects the category, the difference follows it
        res.is_ok() ==> exists|s1: BitStream, q: int| #[trigger] dc_step(dc_table.bits_of(), dc_table.values@, *old(self), old(reader).data(), old(reader).pos(), *old(dc_prediction) as int, s1, q, *final(self), final(reader).pos(), *final(dc_prediction) as int),
        // a code that is there is not rejected
        res.is_err() && old(self).bits_left >= 32 ==> forall|q: int| #[trigger] starts(dc_table.bits_of(), q, old(self).next(16), 16) ==> ln(dc_table.bits_of(), q) > old(self).bits_left,
//@at begin
    hide(refilled); hide(HuffmanTable::fast_ok);
    let ghost s0 = *self; let ghost d = reader.data(); let ghost p0 = reader.pos(); let ghost pr0 = *dc_prediction as int;
    let ghost bs = dc_table.bits_of(); let ghost mut q = 0int; let ghost vals = dc_table.values@;
    proof { assert(dc_table.dc_codes(bs)); assert((1i32 << 9u8) == 512) by(bit_vector); }
//@at after assign symbol
    let ghost s1 = *self; let ghost v9 = symbol as int; let ghost v16 = s1.next(16);
    proof { if s0.bits_left >= 32 { reveal(refilled); assert(refilled(s0, d, p0, s1, reader.pos(), 0)); } assert(refilled5(s0, d, p0, s1, reader.pos()));
        let a = s1.aligned_buffer; assert((a >> 55u64) == ((a >> 48u64) >> 7u64) && (a >> 48u64) < 65536) by(bit_vector); let w = a >> 48u64; assert(w >> 7u64 == w / 128) by(bit_vector); assert(v9 == v16 / 128);
        assert(fc(bs, 1) == 0); assert(0 * p2(8) == 0); if v9 < fc(bs, 9) + bs[9] { q = lemma_find(bs, v9, 1); lemma_longer(bs, q, v9, v16); lemma_ln_conv(bs, q); assert(dc_table.lookup@[v9] == lk(bs, vals, q)); } else { assert(dc_table.lookup@[v9] == 5120); } }
//@at after assign symbol 2
    let ghost e = symbol;
    proof { assert((e >> 9u8) == e / 512 && (e & 511) == e % 512) by(bit_vector) requires 0 <= e < 65536; }
//@at after assign symbol 4
    proof { lemma_p2v(); lemma_fc_bounds(bs, 9, 16); assert(fc(bs, 10) == 2 * (fc(bs, 9) + bs[9] as int)); assert(v16 >= 128 * v9); assert(fc(bs, 10) * 64 <= v16); assert(fc(bs, 10) * p2(6) <= v16); }
//@loop 0
    invariant 10 <= code_length <= 17, symbol as int == v16, v16 == self.next(16), *self == s1, dc_table.dc_codes(bs), dht_ok(bs), 0 <= v16 < 65536, code_length <= 16 ==> v16 >= fc(bs, code_length as int) * p2(16 - code_length), code_length == 17 ==> v16 >= fc(bs, 16) + bs[16],
    ensures code_length <= 16 ==> symbol < dc_table.maxcode@[code_length as int],
    decreases 17 - code_length
//@at loop 0 body
    proof { let l = code_length as int; lemma_p2v(); lemma_fc_bounds(bs, l, 16); if bs[l] == 0 { assert((fc(bs, l) + 0) * p2(16 - l) == fc(bs, l) * p2(16 - l)); } if l == 16 { assert((fc(bs, 16) + bs[16] as int) * 1 == fc(bs, 16) + bs[16] as int); } else { lemma_step(fc(bs, l) + bs[l], l, 16); } }
//@at after loop 0
    proof { let l = code_length as int; if l == 17 { assert forall|r: int| #[trigger] starts(bs, r, v16, 16) implies false by { lemma_ln_conv(bs, r); lemma_starts_lt(bs, r, v16, 17); } } else { lemma_at(bs, v16, 16, l); q = tot(bs, l - 1) + v16 / p2(16 - l) - fc(bs, l); let sy = symbol; let t = (16 - l) as i32; lemma_shr(sy, t as u32); lemma_fc_bounds(bs, l, 16); lemma_p2v(); lemma_p2(l); lemma_p2(16 - l); assert(p2(l) <= 65536); let i = q as i32; assert((i & 255) == i) by(bit_vector) requires 0 <= i < 256; } }
//@at after assign dc_prediction
    proof { assert(dc_step(bs, vals, s0, d, p0, pr0, s1, q, *self, reader.pos(), *dc_prediction as int)); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::discard_dc
//@expand
//@ret res
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX, exists|b: Seq<u8>| #[trigger] dc_table.dc_codes(b),
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        // exactly the code and the difference bits behind it are passed over
        res.is_ok() ==> exists|s1: BitStream, q: int| #[trigger] dc_skip(dc_table.bits_of(), dc_table.values@, *old(self), old(reader).data(), old(reader).pos(), s1, q, *final(self), final(reader).pos()),
        // a code that is there is not rejected
        res.is_err() && old(self).bits_left >= 32 ==> forall|q: int| #[trigger] starts(dc_table.bits_of(), q, old(self).next(16), 16) ==> ln(dc_table.bits_of(), q) > old(self).bits_left,
//@at begin
    hide(refilled); hide(HuffmanTable::fast_ok);
    let ghost s0 = *self; let ghost d = reader.data(); let ghost p0 = reader.pos();
    let ghost bs = dc_table.bits_of(); let ghost mut q = 0int; let ghost vals = dc_table.values@;
    proof { assert(dc_table.dc_codes(bs)); assert((1i32 << 9u8) == 512) by(bit_vector); }
//@at after assign symbol
    let ghost s1 = *self; let ghost v9 = symbol as int; let ghost v16 = s1.next(16);
    proof { if s0.bits_left >= 32 { reveal(refilled); assert(refilled(s0, d, p0, s1, reader.pos(), 0)); } assert(refilled5(s0, d, p0, s1, reader.pos()));
        let a = s1.aligned_buffer; assert((a >> 55u64) == ((a >> 48u64) >> 7u64) && (a >> 48u64) < 65536) by(bit_vector); let w = a >> 48u64; assert(w >> 7u64 == w / 128) by(bit_vector); assert(v9 == v16 / 128);
        assert(fc(bs, 1) == 0); assert(0 * p2(8) == 0); if v9 < fc(bs, 9) + bs[9] { q = lemma_find(bs, v9, 1); lemma_longer(bs, q, v9, v16); lemma_ln_conv(bs, q); assert(dc_table.lookup@[v9] == lk(bs, vals, q)); } else { assert(dc_table.lookup@[v9] == 5120); } }
//@at after assign symbol 2
    let ghost e = symbol;
    proof { assert((e >> 9u8) == e / 512 && (e & 511) == e % 512) by(bit_vector) requires 0 <= e < 65536; }
//@at after assign symbol 4
    proof { lemma_p2v(); lemma_fc_bounds(bs, 9, 16); assert(fc(bs, 10) == 2 * (fc(bs, 9) + bs[9] as int)); assert(v16 >= 128 * v9); assert(fc(bs, 10) * 64 <= v16); assert(fc(bs, 10) * p2(6) <= v16); }
//@loop 0
    invariant 10 <= code_length <= 17, symbol as int == v16, v16 == self.next(16), *self == s1, dc_table.dc_codes(bs), dht_ok(bs), 0 <= v16 < 65536, code_length <= 16 ==> v16 >= fc(bs, code_length as int) * p2(16 - code_length), code_length == 17 ==> v16 >= fc(bs, 16) + bs[16],
    ensures code_length <= 16 ==> symbol < dc_table.maxcode@[code_length as int],
    decreases 17 - code_length
//@at loop 0 body
    proof { let l = code_length as int; lemma_p2v(); lemma_fc_bounds(bs, l, 16); if bs[l] == 0 { assert((fc(bs, l) + 0) * p2(16 - l) == fc(bs, l) * p2(16 - l)); } if l == 16 { assert((fc(bs, 16) + bs[16] as int) * 1 == fc(bs, 16) + bs[16] as int); } else { lemma_step(fc(bs, l) + bs[l], l, 16); } }
//@at after loop 0
    proof { let l = code_length as int; if l == 17 { assert forall|r: int| #[trigger] starts(bs, r, v16, 16) implies false by { lemma_ln_conv(bs, r); lemma_starts_lt(bs, r, v16, 17); } } else { lemma_at(bs, v16, 16, l); q = tot(bs, l - 1) + v16 / p2(16 - l) - fc(bs, l); let sy = symbol; let t = (16 - l) as i32; lemma_shr(sy, t as u32); lemma_fc_bounds(bs, l, 16); lemma_p2v(); lemma_p2(l); lemma_p2(16 - l); assert(p2(l) <= 65536); let i = q as i32; assert((i & 255) == i) by(bit_vector) requires 0 <= i < 256; } }
//@at before return 3
    proof { assert(dc_skip(bs, vals, s0, d, p0, s1, q, *self, reader.pos())); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::decode_mcu_block
//@expand
//@ret res
//@sub "No more bytes left in stream before marker".to_string() => vx_format()
//@sub min(pos, 63) => vx_min(pos, 63)
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX, exists|b: Seq<u8>| #[trigger] dc_table.dc_codes(b), exists|b: Seq<u8>| #[trigger] ac_table.codes(b), ac_table.ac_lookup.is_some(), forall|i: int| 0 <= i < 64 ==> 0 <= #[trigger] qt_table@[i] <= 65535,
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        // the DC difference, then AC symbols up to the end of the block, from the bits of the segment
        res.is_ok() ==> exists|s1: BitStream, q: int, a: Tr, b: Tr, n: int| n == res.unwrap() && #[trigger] mcu_result(*old(self), old(reader).data(), old(reader).pos(), dc_table, ac_table, qt_table@, *old(dc_prediction) as int, *final(dc_prediction) as int, old(block)@, final(block)@, *final(self), final(reader).pos(), n, s1, q, a, b),
//@at begin
    hide(refilled); hide(HuffmanTable::fast_ok);
    let ghost s0 = *self; let ghost d = reader.data(); let ghost p0 = reader.pos(); let ghost pr0 = *dc_prediction as int; let ghost qt = qt_table@;
    let ghost bs = ac_table.bits_ac(); let ghost mut q = 0int; let ghost vals = ac_table.values@; let ghost mut cnt = 0nat;
    proof { assert(ac_table.codes(bs)); assert((1i32 << 9u8) == 512) by(bit_vector); }
//@at after assign block
    let ghost a0 = Tr { s: *self, p: reader.pos(), k: 1, blk: block@ }; let ghost mut cur = a0;
    let ghost (x1, x2) = choose|x1: BitStream, x2: int| #[trigger] dc_step(dc_table.bits_of(), dc_table.values@, s0, d, p0, pr0, x1, x2, *self, reader.pos(), *dc_prediction as int);
    proof { assert(dc_first(s0, d, p0, dc_table, qt, pr0, *dc_prediction as int, old(block)@, x1, x2, a0)); assert(ac_run(bs, vals, d, qt, a0, cur, 0)); }
    let ghost pr1 = *dc_prediction as int;
//@loop 0
    invariant reader.wf(), reader.data() == d, d.len() <= i64::MAX, d == old(reader).data(), *dc_prediction as int == pr1, dc_first(s0, d, p0, dc_table, qt, pr0, pr1, old(block)@, x1, x2, a0), s0 == *old(self), p0 == old(reader).pos(), pr0 == *old(dc_prediction), bs == ac_table.bits_ac(), ac_table.codes(bs), ac_table.values@ == vals, ac_table.ac_lookup == Some(*ac_lookup), qt == qt_table@, forall|i: int| 0 <= i < 64 ==> 0 <= #[trigger] qt_table@[i] <= 65535,
        cur == (Tr { s: *self, p: reader.pos(), k: pos as int, blk: block@ }), ac_run(bs, vals, d, qt, a0, cur, cnt), 1 <= pos <= 79,
        (1i32 << 9u8) == 512,
    decreases 79 - pos
//@at after assign symbol
    let ghost s1 = *self; let ghost v9 = symbol as int; let ghost v16 = s1.next(16); let ghost p1 = reader.pos();
    proof { assert(refilled5(cur.s, d, cur.p, s1, p1));
        let a = s1.aligned_buffer; assert((a >> 55u64) == ((a >> 48u64) >> 7u64) && (a >> 48u64) < 65536) by(bit_vector); let w = a >> 48u64; assert(w >> 7u64 == w / 128) by(bit_vector); assert(v9 == v16 / 128); assert(v16 >= 128 * v9); }
//@at after assign fast_ac
    proof { if fast_ac != 0 { reveal(HuffmanTable::fast_ok); q = choose|q: int| #[trigger] fast_entry(bs, vals, v9, fast_ac as int, q); assert(fast_entry(bs, vals, v9, fast_ac as int, q)); lemma_longer(bs, q, v9, v16); lemma_ln_conv(bs, q); lemma_fe(fast_ac);
            let l = ln(bs, q); let m = (vals[q] & 15) as int; let vq = vals[q]; assert((vq & 15) <= 15 && ((vq >> 4) & 15) == (vq >> 4) && (vq >> 4) <= 15) by(bit_vector); lemma_magb(s1.aligned_buffer, l as u64, m as u64);
            assert((fast_ac >> 8) as int == diff_at(s1, l, m)); assert(((fast_ac >> 4) & 15) as int == (vals[q] >> 4) as int); assert((fast_ac & 15) as int == l + m);
            if pos + (vals[q] >> 4) <= 63 { lemma_zz(pos + (vals[q] >> 4)); } lemma_zz(63); assert forall|x: i32, y: i32| -128 <= x <= 127 && 0 <= y <= 65535 implies -0x7fff_ffff <= #[trigger] (x * y) <= 0x7fff_ffff by { assert(-128 * 65535 <= x * y <= 127 * 65535) by(nonlinear_arith) requires -128 <= x <= 127, 0 <= y <= 65535; } }
        else { assert(fc(bs, 1) == 0); assert(0 * p2(8) == 0); if v9 < fc(bs, 9) + bs[9] { q = lemma_find(bs, v9, 1); lemma_longer(bs, q, v9, v16); lemma_ln_conv(bs, q); assert(ac_table.lookup@[v9] == lk(bs, vals, q)); } else { assert(ac_table.lookup@[v9] == 5120); } } }
//@at after assign symbol 2
    let ghost e = symbol;
    proof { assert((e >> 9u8) == e / 512 && (e & 511) == e % 512) by(bit_vector) requires 0 <= e < 65536; }
//@at after assign symbol 4
    proof { lemma_p2v(); lemma_fc_bounds(bs, 9, 16); assert(fc(bs, 10) == 2 * (fc(bs, 9) + bs[9] as int)); assert(fc(bs, 10) * 64 <= v16); assert(fc(bs, 10) * p2(6) <= v16); }
//@loop 1
    invariant 10 <= code_length <= 17, symbol as int == v16, v16 == self.next(16), *self == s1, ac_table.codes(bs), dht_ok(bs), 0 <= v16 < 65536, code_length <= 16 ==> v16 >= fc(bs, code_length as int) * p2(16 - code_length), code_length == 17 ==> v16 >= fc(bs, 16) + bs[16],
    ensures code_length <= 16 ==> symbol < ac_table.maxcode@[code_length as int],
    decreases 17 - code_length
//@at loop 1 body
    proof { let l = code_length as int; lemma_p2v(); lemma_fc_bounds(bs, l, 16); if bs[l] == 0 { assert((fc(bs, l) + 0) * p2(16 - l) == fc(bs, l) * p2(16 - l)); } if l == 16 { assert((fc(bs, 16) + bs[16] as int) * 1 == fc(bs, 16) + bs[16] as int); } else { lemma_step(fc(bs, l) + bs[l], l, 16); } }
//@at after loop 1
    proof { let l = code_length as int; if l != 17 { lemma_at(bs, v16, 16, l); q = tot(bs, l - 1) + v16 / p2(16 - l) - fc(bs, l); let sy = symbol; let t = (16 - l) as i32; lemma_shr(sy, t as u32); lemma_fc_bounds(bs, l, 16); lemma_p2v(); lemma_p2(l); lemma_p2(16 - l); assert(p2(l) <= 65536); let i = q as i32; assert((i & 255) == i) by(bit_vector) requires 0 <= i < 256; } }
//@at after call drop_bits 2
    let ghost vq = vals[q];
    proof { let vs = symbol; assert((vs >> 4) == (vq >> 4) && (vs & 15) == (vq & 15) && (vs & 15) <= 15 && (vs >> 4) <= 15) by(bit_vector) requires vs == vq; }
//@at after assign symbol 8
    proof { if pos <= 63 { lemma_zz(pos as int); } let x = symbol; lemma_p2v(); assert(-32767 <= x <= 32767);
        let ps = pos; assert((ps & 63) < 64) by(bit_vector); assert(ps < 64 ==> (ps & 63) == ps) by(bit_vector); lemma_zz((ps & 63) as int);
        assert forall|x: i32, y: i32| -32767 <= x <= 32767 && 0 <= y <= 65535 implies -0x7fff_ffff <= #[trigger] (x * y) <= 0x7fff_ffff by { assert(-32767 * 65535 <= x * y <= 32767 * 65535) by(nonlinear_arith) requires -32767 <= x <= 32767, 0 <= y <= 65535; } }
//@at before return 4
    proof { let b = Tr { s: *self, p: reader.pos(), k: pos as int, blk: block@ }; assert(eob_step(bs, vals, d, cur, s1, q, b)); assert(eob_next(bs, vals, d, cur, b)); assert(ac_block(bs, vals, d, qt, a0, b, pos as int)); assert(mcu_result(s0, d, p0, dc_table, ac_table, qt, pr0, pr1, old(block)@, block@, *self, reader.pos(), pos as int, x1, x2, a0, b)); }
//@at loop 0 end
    let ghost nw = Tr { s: *self, p: reader.pos(), k: pos as int, blk: block@ };
    proof { assert(ac_step(bs, vals, d, qt, cur, s1, q, nw)); assert(ac_next(bs, vals, d, qt, cur, nw)); lemma_run(bs, vals, d, qt, a0, cur, nw, cnt); cur = nw; cnt = cnt + 1; }
//@at before return 5
    proof { assert(ac_block(bs, vals, d, qt, a0, cur, 64)); let b = cur; assert(mcu_result(s0, d, p0, dc_table, ac_table, qt, pr0, pr1, old(block)@, block@, *self, reader.pos(), 64, x1, x2, a0, b)); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::update_progressive_params
//@spec
    requires al < 15,
    ensures final(self).successive_low_mask == p2(al as int), final(self).spec_start == spec_start, final(self).spec_end == spec_end,
        *final(self) == (BitStream { successive_low_mask: final(self).successive_low_mask, spec_start, spec_end, ..*old(self) }),
//@at begin
    proof { lemma_p2v(); assert((1i16 << 0u8) == 1 && (1i16 << 1u8) == 2 && (1i16 << 2u8) == 4 && (1i16 << 3u8) == 8 && (1i16 << 4u8) == 16 && (1i16 << 5u8) == 32 && (1i16 << 6u8) == 64 && (1i16 << 7u8) == 128 && (1i16 << 8u8) == 256 && (1i16 << 9u8) == 512 && (1i16 << 10u8) == 1024 && (1i16 << 11u8) == 2048 && (1i16 << 12u8) == 4096 && (1i16 << 13u8) == 8192 && (1i16 << 14u8) == 16384) by(bit_vector); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::reset
//@spec
    ensures *final(self) == (BitStream { bits_left: 0, marker: None, buffer: 0, aligned_buffer: 0, eob_run: 0, ..*old(self) }),
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::decode_prog_dc_first
//@ret res
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX, exists|b: Seq<u8>| #[trigger] dc_table.dc_codes(b),
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        res.is_ok() ==> exists|s1: BitStream, q: int| #[trigger] dc_step(dc_table.bits_of(), dc_table.values@, *old(self), old(reader).data(), old(reader).pos(), *old(dc_prediction) as int, s1, q, *final(self), final(reader).pos(), *final(dc_prediction) as int),
        // the DC value, scaled to its bit position
        res.is_ok() && -0x8000 <= *final(dc_prediction) <= 0x7fff && -0x8000 <= *final(dc_prediction) * final(self).successive_low_mask <= 0x7fff ==> *final(block) == *final(dc_prediction) * final(self).successive_low_mask,
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::decode_prog_dc_refine
//@ret res
//@sub "Marker found where not expected in refine bit".to_string() => vx_format()
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX,
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        // one bit is read; it sets the bit of the scan
        res.is_ok() ==> exists|s1: BitStream| #[trigger] one_bit(*old(self), old(reader).data(), old(reader).pos(), s1, *final(self), final(reader).pos()) && (s1.next(1) == 0 ==> *final(block) == *old(block)) && (s1.next(1) == 1 && *old(block) + old(self).successive_low_mask <= 0x7fff && *old(block) + old(self).successive_low_mask >= -0x8000 ==> *final(block) == *old(block) + old(self).successive_low_mask),
//@at begin
    hide(refilled);
    let ghost d = reader.data(); let ghost p0 = reader.pos(); let ghost mut s1 = *self;
//@at after call refill
    proof { s1 = *self; lemma_keep(*old(self), d, p0, s1, reader.pos()); }
//@at before tail
    proof { assert(one_bit(*old(self), d, p0, s1, *self, reader.pos())); }
//@end
//@fn crates/zune-jpeg/src/bitstream.rs :: BitStream::decode_mcu_ac_first
//@expand
//@ret res
//@sub min(k, 63) => vx_min(k, 63)
//@spec
    requires old(reader).wf(), old(reader).data().len() <= i64::MAX, exists|b: Seq<u8>| #[trigger] ac_table.codes(b), ac_table.ac_lookup.is_some(), old(self).spec_start <= 63, old(self).spec_end <= 63,
    ensures final(reader).wf(), final(reader).data() == old(reader).data(),
        // AC symbols of the band, from the bits of the segment
        res.is_ok() ==> exists|a: Tp, b: Tp| a == (Tp { s: *old(self), p: old(reader).pos(), k: old(self).spec_start as int, blk: old(block)@ }) && #[trigger] p_block(ac_table.bits_ac(), ac_table.values@, old(reader).data(), old(self).spec_end as int, a, b) && b.s == *final(self) && b.p == final(reader).pos() && b.blk == final(block)@,
//@at begin
    hide(refilled); hide(HuffmanTable::fast_ok);
    let ghost d = reader.data(); let ghost se = self.spec_end as int; let ghost lm = self.successive_low_mask;
    let ghost bs = ac_table.bits_ac(); let ghost mut q = 0int; let ghost vals = ac_table.values@; let ghost mut cnt = 0nat;
    let ghost a0 = Tp { s: *self, p: reader.pos(), k: self.spec_start as int, blk: block@ }; let ghost mut cur = a0;
    proof { assert(ac_table.codes(bs)); assert((1i32 << 9u8) == 512) by(bit_vector); assert(p_run(bs, vals, d, se, a0, cur, 0)); }
//@loop 0
    invariant_except_break cur == (Tp { s: *self, p: reader.pos(), k: k as int, blk: block@ }), p_run(bs, vals, d, se, a0, cur, cnt), k <= 63, cnt == 0 || k <= se,
    invariant reader.wf(), reader.data() == d, d.len() <= i64::MAX, d == old(reader).data(), bs == ac_table.bits_ac(), ac_table.codes(bs), ac_table.values@ == vals, ac_table.ac_lookup == Some(*fast_ac), (1i32 << 9u8) == 512, se == self.spec_end, se == old(self).spec_end, se <= 63, bit == lm, self.successive_low_mask == lm,
        a0 == (Tp { s: *old(self), p: old(reader).pos(), k: old(self).spec_start as int, blk: old(block)@ }),
    ensures p_block(bs, vals, d, se, a0, Tp { s: *self, p: reader.pos(), k: k as int, blk: block@ }),
    decreases 80 - k
//@at after assign symbol
    let ghost s1 = *self; let ghost v9 = symbol as int; let ghost v16 = s1.next(16); let ghost p1 = reader.pos();
    proof { assert(refilled5(cur.s, d, cur.p, s1, p1)); lemma_keep(cur.s, d, cur.p, s1, p1);
        let a = s1.aligned_buffer; assert((a >> 55u64) == ((a >> 48u64) >> 7u64) && (a >> 48u64) < 65536) by(bit_vector); let w = a >> 48u64; assert(w >> 7u64 == w / 128) by(bit_vector); assert(v9 == v16 / 128); assert(v16 >= 128 * v9); }
//@at after assign fac
    proof { if fac != 0 { reveal(HuffmanTable::fast_ok); q = choose|q: int| #[trigger] fast_entry(bs, vals, v9, fac as int, q); assert(fast_entry(bs, vals, v9, fac as int, q)); lemma_longer(bs, q, v9, v16); lemma_ln_conv(bs, q); lemma_fe(fac);
            let l = ln(bs, q); let m = (vals[q] & 15) as int; let vq = vals[q]; assert((vq & 15) <= 15 && ((vq >> 4) & 15) == (vq >> 4) && (vq >> 4) <= 15) by(bit_vector); lemma_magb(s1.aligned_buffer, l as u64, m as u64);
            assert((fac >> 8) as int == diff_at(s1, l, m)); assert(((fac >> 4) & 15) as int == (vals[q] >> 4) as int); assert((fac & 15) as int == l + m);
            if k + (vals[q] >> 4) <= 63 { lemma_zz(k + (vals[q] >> 4)); } lemma_zz(63); assert forall|x: i32, y: i32| -128 <= x <= 127 && 0 <= y <= 65535 implies -0x7fff_ffff <= #[trigger] (x * y) <= 0x7fff_ffff by { assert(-128 * 65535 <= x * y <= 127 * 65535) by(nonlinear_arith) requires -128 <= x <= 127, 0 <= y <= 65535; } }
        else { assert(fc(bs, 1) == 0); assert(0 * p2(8) == 0); if v9 < fc(bs, 9) + bs[9] { q = lemma_find(bs, v9, 1); lemma_longer(bs, q, v9, v16); lemma_ln_conv(bs, q); assert(ac_table.lookup@[v9] == lk(bs, vals, q)); } else { assert(ac_table.lookup@[v9] == 5120); } } }
//@at after assign symbol 2
    let ghost e = symbol;
    proof { assert((e >> 9u8) == e / 512 && (e & 511) == e % 512) by(bit_vector) requires 0 <= e < 65536; }
//@at after assign symbol 4
    proof { lemma_p2v(); lemma_fc_bounds(bs, 9, 16); assert(fc(bs, 10) == 2 * (fc(bs, 9) + bs[9] as int)); assert(fc(bs, 10) * 64 <= v16); assert(fc(bs, 10) * p2(6) <= v16); }
//@loop 1
    invariant 10 <= code_length <= 17, symbol as int == v16, v16 == self.next(16), *self == s1, ac_table.codes(bs), dht_ok(bs), 0 <= v16 < 65536, code_length <= 16 ==> v16 >= fc(bs, code_length as int) * p2(16 - code_length), code_length == 17 ==> v16 >= fc(bs, 16) + bs[16],
    ensures code_length <= 16 ==> symbol < ac_table.maxcode@[code_length as int],
    decreases 17 - code_length
//@at loop 1 body
    proof { let l = code_length as int; lemma_p2v(); lemma_fc_bounds(bs, l, 16); if bs[l] == 0 { assert((fc(bs, l) + 0) * p2(16 - l) == fc(bs, l) * p2(16 - l)); } if l == 16 { assert((fc(bs, 16) + bs[16] as int) * 1 == fc(bs, 16) + bs[16] as int); } else { lemma_step(fc(bs, l) + bs[l], l, 16); } }
//@at after loop 1
    proof { let l = code_length as int; if l != 17 { lemma_at(bs, v16, 16, l); q = tot(bs, l - 1) + v16 / p2(16 - l) - fc(bs, l); let sy = symbol; let t = (16 - l) as i32; lemma_shr(sy, t as u32); lemma_fc_bounds(bs, l, 16); lemma_p2v(); lemma_p2(l); lemma_p2(16 - l); assert(p2(l) <= 65536); let i = q as i32; assert((i & 255) == i) by(bit_vector) requires 0 <= i < 256; } }
//@at after call drop_bits 2
    let ghost vq = vals[q];
    proof { let vs = symbol; assert((vs >> 4) == (vq >> 4) && (vs & 15) == (vq & 15) && (vs & 15) <= 15 && (vs >> 4) <= 15) by(bit_vector) requires vs == vq; }
//@at after assign symbol 7
    proof { lemma_p2v(); assert((1i32 << 0i32) == 1 && (1i32 << 1i32) == 2 && (1i32 << 2i32) == 4 && (1i32 << 3i32) == 8 && (1i32 << 4i32) == 16 && (1i32 << 5i32) == 32 && (1i32 << 6i32) == 64 && (1i32 << 7i32) == 128 && (1i32 << 8i32) == 256 && (1i32 << 9i32) == 512 && (1i32 << 10i32) == 1024 && (1i32 << 11i32) == 2048 && (1i32 << 12i32) == 4096 && (1i32 << 13i32) == 8192 && (1i32 << 14i32) == 16384) by(bit_vector); assert(r < 15 ==> (1i32 << r) == p2(r as int) && p2(r as int) <= 16384) by { assert(r >= 15 || r == 0 || r == 1 || r == 2 || r == 3 || r == 4 || r == 5 || r == 6 || r == 7 || r == 8 || r == 9 || r == 10 || r == 11 || r == 12 || r == 13 || r == 14); } }
//@at after assign symbol 8
    proof { if k <= 63 { lemma_zz(k as int); } let x = symbol; lemma_p2v(); assert(-32767 <= x <= 32767);
        let ps = k; assert((ps & 63) < 64) by(bit_vector); assert(ps < 64 ==> (ps & 63) == ps) by(bit_vector); lemma_zz((ps & 63) as int);
        assert forall|x: i32, y: i32| -32767 <= x <= 32767 && 0 <= y <= 65535 implies -0x7fff_ffff <= #[trigger] (x * y) <= 0x7fff_ffff by { assert(-32767 * 65535 <= x * y <= 32767 * 65535) by(nonlinear_arith) requires -32767 <= x <= 32767, 0 <= y <= 65535; } }
//@at after assign eob_run 3
    proof { let b = Tp { s: *self, p: reader.pos(), k: k as int, blk: block@ }; assert(p_eob(bs, vals, d, cur, s1, q, b)); assert(p_end(bs, vals, d, cur, b)); assert(p_block(bs, vals, d, se, a0, b)); }
//@at after assign k 2
    let ghost nw = Tp { s: *self, p: reader.pos(), k: k as int, blk: block@ };
    proof { assert(p_step(bs, vals, d, cur, s1, q, nw)); assert(p_next(bs, vals, d, cur, nw)); lemma_prun(bs, vals, d, se, a0, cur, nw, cnt); cur = nw; cnt = cnt + 1; if k > se { assert(p_block(bs, vals, d, se, a0, cur)); } }
//@at after assign k 4
    let ghost nw = Tp { s: *self, p: reader.pos(), k: k as int, blk: block@ };
    proof { assert(p_step(bs, vals, d, cur, s1, q, nw)); assert(p_next(bs, vals, d, cur, nw)); lemma_prun(bs, vals, d, se, a0, cur, nw, cnt); cur = nw; cnt = cnt + 1; if k > se { assert(p_block(bs, vals, d, se, a0, cur)); } }
//@at after assign k 5
    let ghost nw = Tp { s: *self, p: reader.pos(), k: k as int, blk: block@ };
    proof { assert(p_step(bs, vals, d, cur, s1, q, nw)); assert(p_next(bs, vals, d, cur, nw)); lemma_prun(bs, vals, d, se, a0, cur, nw, cnt); cur = nw; cnt = cnt + 1; if k > se { assert(p_block(bs, vals, d, se, a0, cur)); } }
//@end
}
//@include prelude_end.inc
