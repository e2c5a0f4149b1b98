//@include prelude.inc
//@include bytes.inc
//@include crci.inc
// ===== C10: the bit reader =====
/// bit j of x
pub open spec fn bb(x: u64, j: int) -> bool { (x >> (j as u64)) & 1 == 1 }
/// bit k of a byte string, least significant first (RFC 1951 3.1.1); zero after the end
pub open spec fn sb(s: Seq<u8>, k: int) -> bool { 0 <= k < 8 * s.len() && (s[k / 8] >> ((k % 8) as u8)) & 1 == 1 }
//@type crates/zune-inflate/src/bitstream.rs :: BitStreamReader
//@end
impl<'src> BitStreamReader<'src> {
    /// absolute position (in bits) of the next bit to deliver
    pub open spec fn cur(&self) -> int { 8 * (self.position + self.over_read) - self.bits_left }
    pub open spec fn bit(&self, k: int) -> bool { sb(self.src@, k) }
    pub open spec fn inv(&self) -> bool {
        &&& self.bits_left <= 63 && self.position <= self.src@.len() && self.src@.len() <= 0x7fff_ffff_ffff_ffff && self.cur() >= 0
        &&& (self.over_read > 0 ==> self.position == self.src@.len()) && self.over_read <= 0x0fff_ffff_ffff_ffff
        &&& forall|j: int| 0 <= j < 64 && #[trigger] bb(self.buffer, j) ==> self.bit(self.cur() + j)
        &&& forall|j: int| 0 <= j < self.bits_left ==> #[trigger] bb(self.buffer, j) == self.bit(self.cur() + j)
    }
    /// same stream, same position, more bits at hand
    pub open spec fn refilled(&self, o: &BitStreamReader<'src>) -> bool { self.inv() && self.src == o.src && self.cur() == o.cur() }
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::new
//@ret r
//@spec
    requires in_buffer@.len() <= 0x7fff_ffff_ffff_ffff
    ensures r.inv(), r.cur() == 0, r.src@ == in_buffer@, r.over_read == 0, r.position == 0
//@at begin
    proof { assert forall|j: int| 0 <= j < 64 implies !#[trigger] bb(0, j) by { let k = j as u64; assert((0u64 >> k) & 1 == 0) by(bit_vector) requires k < 64; } }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::refill
//@spec
    requires old(self).inv(), old(self).over_read <= 0x0fff_ffff_ffff_fff0
    ensures final(self).refilled(old(self)), final(self).bits_left >= 56, final(self).over_read <= old(self).over_read + 8
//@at begin
    let ghost s0 = *self;
//@at after assign bits_left
    proof { lemma_fast(s0, *self, bytes@, new_buffer); }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::refill_inner_loop
//@spec
    requires old(self).inv()
    ensures final(self).refilled(old(self)), final(self).over_read == old(self).over_read, old(self).position + 8 <= old(self).src@.len() ==> final(self).bits_left >= 56, old(self).position + 8 > old(self).src@.len() ==> *final(self) == *old(self)
//@at begin
    let ghost s0 = *self;
//@at after assign bits_left
    proof { lemma_fast(s0, *self, bytes@, new_buffer); }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::refill_slow
//@iter bytes ref
//@spec
    requires old(self).inv(), old(self).over_read <= 0x0fff_ffff_ffff_fff0
    ensures final(self).refilled(old(self)), final(self).bits_left >= 56, final(self).over_read <= old(self).over_read + 8
//@at begin
    let vx_l = self.src.len();
    let ghost s0 = *self;
//@loop 0
    self.refilled(&s0), self.over_read == s0.over_read, (self.position == s0.position + vx_i0 || self.bits_left >= 56), bytes@ == s0.src@.subrange(s0.position as int, s0.src@.len() as int), vx_c0 == bytes@.len(),
    ensures self.position == self.src@.len() || self.bits_left >= 56,
//@at loop 0 body
    let ghost s1 = *self;
//@at loop 0 end
    proof { lemma_byte(s1, *self, *byte); }
//@loop 1
    invariant self.refilled(&s0), self.bits_left >= 56 || self.position == self.src@.len(), self.over_read >= s0.over_read, self.bits_left < 56 ==> self.over_read + (64 - self.bits_left) / 8 <= s0.over_read + 8, self.over_read <= s0.over_read + 8, s0.over_read <= 0x0fff_ffff_ffff_fff0,
    decreases 64 - self.bits_left
//@at loop 1 begin
    let ghost s1 = *self;
//@at loop 1 end
    proof { assert(self.cur() == s1.cur()); assert forall|j: int| 0 <= j < self.bits_left implies #[trigger] bb(self.buffer, j) == self.bit(self.cur() + j) by { if j < s1.bits_left { assert(bb(s1.buffer, j) == s1.bit(s1.cur() + j)); } } }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::peek_bits
//@ret r
//@spec
    requires self.inv(), LOOKAHEAD <= self.bits_left, LOOKAHEAD < 32
    ensures num_is(r as u64, LOOKAHEAD as int, self.src@, self.cur())
//@at begin
    proof { lemma_mask(self.buffer, LOOKAHEAD as u64); }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::peek_var_bits
//@ret r
//@spec
    requires self.inv(), lookahead <= self.bits_left, lookahead < 32
    ensures num_is(r as u64, lookahead as int, self.src@, self.cur())
//@at begin
    proof { lemma_mask(self.buffer, lookahead as u64); }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::get_bits
//@ret r
//@spec
    requires old(self).inv(), num_bits <= old(self).bits_left
    ensures num_is(r, num_bits as int, old(self).src@, old(self).cur()), final(self).inv(), final(self).src == old(self).src, final(self).cur() == old(self).cur() + num_bits, final(self).bits_left == old(self).bits_left - num_bits,
        final(self).position == old(self).position, final(self).over_read == old(self).over_read
//@at begin
    let ghost s0 = *self;
    proof { lemma_mask(self.buffer, num_bits as u64); }
//@at after assign bits_left
    proof { lemma_drop(s0, *self, num_bits); }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::drop_bits
//@spec
    requires old(self).inv(), bits <= old(self).bits_left
    ensures final(self).inv(), final(self).src == old(self).src, final(self).cur() == old(self).cur() + bits, final(self).bits_left == old(self).bits_left - bits, final(self).position == old(self).position, final(self).over_read == old(self).over_read
//@at begin
    let ghost s0 = *self;
//@at after assign buffer
    proof { lemma_drop(s0, *self, bits); }
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::get_bits_left
//@ret r
//@spec
    ensures r == self.bits_left
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::has
//@ret r
//@spec
    ensures r == (self.bits_left >= bits)
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::remaining_bytes
//@ret r
//@spec
    ensures r == (if self.src@.len() >= self.position { self.src@.len() - self.position } else { 0int })
//@end
//@fn crates/zune-inflate/src/bitstream.rs :: BitStreamReader::get_position
//@ret r
//@spec
    ensures r == (if self.position >= self.bits_left >> 3 { self.position - (self.bits_left >> 3) } else { 0int })
//@end
}
/// v is the n-bit number at bit position k, least significant bit first
pub open spec fn num_is(v: u64, n: int, s: Seq<u8>, k: int) -> bool { 0 <= n < 64 && v < pow2(n) && forall|j: int| 0 <= j < n ==> #[trigger] bb(v, j) == sb(s, k + j) }
pub open spec fn pow2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2(n - 1) } }
proof fn lemma_pow2(n: u64) requires n < 64 ensures pow2(n as int) == (1u64 << n) decreases n { if n > 0 { lemma_pow2((n - 1) as u64); let m = (n - 1) as u64; assert(1u64 << n == 2 * (1u64 << m) && (1u64 << m) <= 0x4000_0000_0000_0000u64) by(bit_vector) requires n == m + 1, m < 63; } else { assert(1u64 << 0 == 1) by(bit_vector); } }
proof fn lemma_mask(x: u64, n: u64) requires n < 64 ensures (1u64 << n) >= 1, ({ let v = x & sub(1u64 << n, 1); v < pow2(n as int) && v < (1u64 << n) && (n < 32 ==> v < 0x1_0000_0000u64 && (1u64 << n) <= 0x1_0000_0000) && forall|j: int| 0 <= j < n ==> #[trigger] bb(v, j) == bb(x, j) }) {
    lemma_pow2(n);
    let v = x & sub(1u64 << n, 1);
    assert((1u64 << n) >= 1 && v < (1u64 << n) && (n < 32 ==> v < 0x1_0000_0000u64 && (1u64 << n) <= 0x1_0000_0000)) by(bit_vector) requires n < 64, v == x & sub(1u64 << n, 1);
    assert forall|j: int| 0 <= j < n implies #[trigger] bb(v, j) == bb(x, j) by { let k = j as u64; assert((v >> k) & 1 == (x >> k) & 1) by(bit_vector) requires k < n, n < 64, v == x & sub(1u64 << n, 1); }
}
proof fn lemma_or(b: u64, n: u64, l: u64, k: u64) requires l < 64, k < 64 ensures bb(b | (n << l), k as int) == (bb(b, k as int) || (k >= l && bb(n, k - l))) {
    if k >= l { let i = (k - l) as u64; assert(((b | (n << l)) >> k) & 1 == ((b >> k) & 1) | ((n >> i) & 1)) by(bit_vector) requires l < 64, k < 64, k == add(i, l), i <= k;
        let p = (b >> k) & 1; let q = (n >> i) & 1; assert(p <= 1) by(bit_vector) requires p == (b >> k) & 1; assert(q <= 1) by(bit_vector) requires q == (n >> i) & 1; assert((p | q == 1) == (p == 1 || q == 1)) by(bit_vector) requires p <= 1, q <= 1; }
    else { assert(((b | (n << l)) >> k) & 1 == (b >> k) & 1) by(bit_vector) requires l < 64, k < l; }
}
/// the bits of a little endian word are the bits of its bytes in order
proof fn lemma_le64(s: Seq<u8>, j: int) requires s.len() == 8, 0 <= j < 64 ensures bb(le64(s), j) == ((s[j / 8] >> ((j % 8) as u8)) & 1 == 1) {
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    let v = le64(s); let k = j as u64; let m = (j % 8) as u8; let t = s[j / 8]; let h = (j / 8) as u64;
    assert(v == ((b7 as u64) << 56) | ((b6 as u64) << 48) | ((b5 as u64) << 40) | ((b4 as u64) << 32) | ((b3 as u64) << 24) | ((b2 as u64) << 16) | ((b1 as u64) << 8) | (b0 as u64));
    let y = (v >> (8 * h) as u64) as u8;
    assert(y == t) by {
        assert((v >> 0) as u8 == b0 && (v >> 8) as u8 == b1 && (v >> 16) as u8 == b2 && (v >> 24) as u8 == b3 && (v >> 32) as u8 == b4 && (v >> 40) as u8 == b5 && (v >> 48) as u8 == b6 && (v >> 56) as u8 == b7) by(bit_vector)
            requires v == ((b7 as u64) << 56) | ((b6 as u64) << 48) | ((b5 as u64) << 40) | ((b4 as u64) << 32) | ((b3 as u64) << 24) | ((b2 as u64) << 16) | ((b1 as u64) << 8) | (b0 as u64);
        assert(h == 0 || h == 1 || h == 2 || h == 3 || h == 4 || h == 5 || h == 6 || h == 7);
    }
    let h8 = (8 * h) as u64;
    assert(((v >> k) & 1 == 1) == ((y >> m) & 1 == 1)) by(bit_vector) requires k == add(h8, m as u64), m < 8, h8 <= 56, y == (v >> h8) as u8;
}
proof fn lemma_byte_bits(b: u8, j: int) requires 0 <= j < 64 ensures bb(b as u64, j) == (j < 8 && (b >> (j as u8)) & 1 == 1) {
    let k = j as u64; let m = j as u8;
    if j < 8 { assert((((b as u64) >> k) & 1 == 1) == ((b >> m) & 1 == 1)) by(bit_vector) requires k == m as u64, m < 8; } else { assert(((b as u64) >> k) & 1 == 0) by(bit_vector) requires k >= 8, k < 64; }
}
proof fn lemma_fast(s0: BitStreamReader, s1: BitStreamReader, bytes: Seq<u8>, nb: u64)
    requires s0.inv(), s0.position + 8 <= s0.src@.len(), bytes =~= s0.src@.subrange(s0.position as int, s0.position + 8), nb == le64(bytes),
        s1.src == s0.src, s1.over_read == s0.over_read, s1.position == s0.position + ((63u8 ^ s0.bits_left) >> 3), s1.buffer == s0.buffer | (nb << (s0.bits_left as u64)), s1.bits_left == s0.bits_left | 56
    ensures s1.refilled(&s0), s1.bits_left >= 56
{
    let l = s0.bits_left;
    assert((l | 56) >= 56 && (l | 56) <= 63 && (l | 56) - l == 8 * ((63u8 ^ l) >> 3) && ((63u8 ^ l) >> 3) <= 7) by { let m = (63u8 ^ l) >> 3; assert(m <= 7 && (l | 56) >= 56 && (l | 56) <= 63 && (l | 56) >= l && sub(l | 56, l) == mul(8, m)) by(bit_vector) requires l <= 63, m == (63u8 ^ l) >> 3; }
    assert(s1.cur() == s0.cur());
    assert forall|j: int| 0 <= j < 64 implies (#[trigger] bb(s1.buffer, j) == (bb(s0.buffer, j) || (j >= l && s0.bit(s0.cur() + j)))) by {
        lemma_or(s0.buffer, nb, l as u64, j as u64);
        if j >= l { let i = j - l; lemma_le64(bytes, i); assert(s0.cur() + j == 8 * s0.position + i); let k = s0.cur() + j; assert(k / 8 == s0.position + i / 8 && k % 8 == i % 8); assert(bytes[i / 8] == s0.src@[k / 8]); }
    }
    assert forall|j: int| 0 <= j < s1.bits_left implies #[trigger] bb(s1.buffer, j) == s1.bit(s1.cur() + j) by { if j < l { assert(bb(s0.buffer, j) == s0.bit(s0.cur() + j)); } }
}
proof fn lemma_byte(s0: BitStreamReader, s1: BitStreamReader, b: u8)
    requires s0.inv(), s0.position < s0.src@.len(), b == s0.src@[s0.position as int], s0.bits_left < 56, s1.src == s0.src, s1.over_read == s0.over_read, s1.position == s0.position + 1, s1.buffer == s0.buffer | ((b as u64) << (s0.bits_left as u64)), s1.bits_left == s0.bits_left + 8
    ensures s1.refilled(&s0)
{
    let l = s0.bits_left;
    assert forall|j: int| 0 <= j < 64 implies (#[trigger] bb(s1.buffer, j) == (bb(s0.buffer, j) || (l <= j < l + 8 && s0.bit(s0.cur() + j)))) by {
        lemma_or(s0.buffer, b as u64, l as u64, j as u64);
        if j >= l { let i = j - l; lemma_byte_bits(b, i); if i < 8 { let k = s0.cur() + j; assert(k == 8 * s0.position + i); assert(k / 8 == s0.position && k % 8 == i); } }
    }
    assert forall|j: int| 0 <= j < s1.bits_left implies #[trigger] bb(s1.buffer, j) == s1.bit(s1.cur() + j) by { if j < l { assert(bb(s0.buffer, j) == s0.bit(s0.cur() + j)); } }
}
proof fn lemma_drop(s0: BitStreamReader, s1: BitStreamReader, n: u8)
    requires s0.inv(), n <= s0.bits_left, s1.src == s0.src, s1.over_read == s0.over_read, s1.position == s0.position, s1.buffer == s0.buffer >> (n as u64), s1.bits_left == s0.bits_left - n
    ensures s1.inv(), s1.cur() == s0.cur() + n
{
    assert forall|j: int| 0 <= j < 64 implies (#[trigger] bb(s1.buffer, j) == (j + n < 64 && bb(s0.buffer, j + n))) by {
        let (x, k, m) = (s0.buffer, j as u64, n as u64); let t = (j + n) as u64;
        assert(((x >> m) >> k) & 1 == (if t < 64 { (x >> t) & 1 } else { 0 })) by(bit_vector) requires k < 64, m < 64, t == add(k, m);
    }
    assert forall|j: int| 0 <= j < 64 && #[trigger] bb(s1.buffer, j) implies s1.bit(s1.cur() + j) by { assert(bb(s0.buffer, j + n)); assert(s0.bit(s0.cur() + (j + n))); }
    assert forall|j: int| 0 <= j < s1.bits_left implies #[trigger] bb(s1.buffer, j) == s1.bit(s1.cur() + j) by { assert(bb(s0.buffer, j + n) == s0.bit(s0.cur() + (j + n))); }
}
use crc::crc32;
// ===== zlib and gzip containers =====
/// Adler-32 is computed by the simd-adler32 crate
pub uninterp spec fn adler(d: Seq<u8>) -> u32;
//TRUST: calc_adler_hash is a function of the data (its value is compared with an independent Adler-32 by the bounded part)
#[verifier::external_body] fn calc_adler_hash(d: &[u8]) -> (r: u32) ensures r == adler(d@) { unimplemented!() }
/// the raw deflate decoder, as a function of the bytes it is given and its options: the data and the number of bytes consumed
pub uninterp spec fn inflate(src: Seq<u8>, o: DeflateOptions) -> Option<(Seq<u8>, int)>;
pub struct DeflateHeaderTables { pub x: u8 }
//@type crates/zune-inflate/src/errors.rs :: DecodeErrorStatus
//@end
//@type crates/zune-inflate/src/errors.rs :: InflateDecodeErrors
//@end
impl InflateDecodeErrors {
#[verifier::external_body] pub fn new(error: DecodeErrorStatus, data: &Vec<u8>) -> InflateDecodeErrors { unimplemented!() }
#[verifier::external_body] pub fn new_with_error(error: DecodeErrorStatus) -> InflateDecodeErrors { unimplemented!() }
}
//@type crates/zune-inflate/src/decoder.rs :: DeflateOptions
//@attrs #[derive(Copy, Clone)]
//@end
//@type crates/zune-inflate/src/decoder.rs :: DeflateDecoder
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_ID1
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_ID2
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_CM_DEFLATE
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_FRESERVED
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_FEXTRA
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_FOOTER_SIZE
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_FHCRC
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_FNAME
//@end
//@const crates/zune-inflate/src/gzip_constants.rs :: GZIP_FCOMMENT
//@end
pub fn vx_arr4(s: &[u8]) -> (r: [u8; 4]) requires s@.len() == 4 ensures r@ == s@ { let r = [s[0], s[1], s[2], s[3]]; proof { assert(r@ =~= s@); } r }
pub fn vx_arr2(s: &[u8]) -> (r: [u8; 2]) requires s@.len() == 2 ensures r@ == s@ { let r = [s[0], s[1]]; proof { assert(r@ =~= s@); } r }
/// RFC 1950 2.2
pub open spec fn zlib_header(d: Seq<u8>) -> bool { d.len() >= 6 && d[0] & 0xf == 8 && d[0] >> 4 <= 7 && (d[0] as int * 256 + d[1] as int) % 31 == 0 }
pub open spec fn zlib(d: Seq<u8>, o: DeflateOptions) -> Option<Seq<u8>> {
    if !zlib_header(d) { None } else { match inflate(d.subrange(2, d.len() as int), o) { None => None,
        Some((x, n)) => if !o.confirm_checksum || (2 + n + 4 <= d.len() && be32(d.subrange(2 + n, 2 + n + 4)) == adler(x)) { Some(x) } else { None } } } }
/// position after the next zero byte
pub open spec fn zskip(d: Seq<u8>, p: int) -> Option<int> decreases d.len() - p { if p < 0 || p >= d.len() { None } else if d[p] == 0 { Some(p + 1) } else { zskip(d, p + 1) } }
/// RFC 1952 2.3: where the compressed data starts
pub open spec fn gz1(d: Seq<u8>) -> Option<int> {
    if d.len() < 18 || d[0] != 0x1f || d[1] != 0x8b || d[2] != 8 || d[3] & 0xe0 != 0 { None }
    else { let p1 = if d[3] & 4 != 0 { 12 + d[10] as int + 256 * d[11] as int } else { 10 }; if p1 + 8 > d.len() { None } else { Some(p1) } } }
pub open spec fn gz2(d: Seq<u8>) -> Option<int> { match gz1(d) { None => None, Some(p) => if d[3] & 8 != 0 { zskip(d, p) } else { Some(p) } } }
pub open spec fn gz3(d: Seq<u8>) -> Option<int> { match gz2(d) { None => None, Some(p) => if d[3] & 16 != 0 { zskip(d, p) } else { Some(p) } } }
pub open spec fn gzip_header(d: Seq<u8>) -> Option<int> { match gz3(d) { None => None, Some(p) => { let q = if d[3] & 2 != 0 { p + 2 } else { p }; if q + 8 > d.len() { None } else { Some(q) } } } }
pub open spec fn gzip(d: Seq<u8>, o: DeflateOptions) -> Option<Seq<u8>> {
    match gzip_header(d) { None => None, Some(p) => match inflate(d.subrange(p, d.len() as int), o) { None => None,
        Some((x, n)) => if p + n + 8 <= d.len() && (o.confirm_checksum ==> le32(d.subrange(p + n, p + n + 4)) == crc32_of(x)) && le32(d.subrange(p + n + 4, p + n + 8)) == x.len() { Some(x) } else { None } } } }
impl<'a> DeflateDecoder<'a> {
//@fn crates/zune-inflate/src/decoder.rs :: DeflateDecoder::decode_deflate
//@nobody
//@ret r
//@spec
    requires old(self).position <= old(self).data@.len()
    ensures final(self).data == old(self).data, final(self).options == old(self).options, final(self).position == old(self).position,
        match r { Ok(x) => inflate(old(self).data@.subrange(old(self).position as int, old(self).data@.len() as int), old(self).options) == Some((x@, used(final(self)))) && used(final(self)) <= old(self).data@.len() - old(self).position,
            Err(_) => inflate(old(self).data@.subrange(old(self).position as int, old(self).data@.len() as int), old(self).options) is None }
//@end
//@fn crates/zune-inflate/src/decoder.rs :: DeflateDecoder::decode_zlib
//@cfg on zlib
//@ret r
//@sub use crate::utils::calc_adler_hash; =>
//@sub adler.try_into().unwrap() => vx_arr4(adler)
//@spec
    requires old(self).data@.len() <= 0x7fff_ffff_ffff_ffff
    ensures r is Ok <==> zlib(old(self).data@, old(self).options) is Some, r matches Ok(x) ==> zlib(old(self).data@, old(self).options) == Some(x@)
//@at begin
    let vx_l = self.data.len();
//@end
//@fn crates/zune-inflate/src/decoder.rs :: DeflateDecoder::decode_gzip
//@cfg on gzip
//@ret r
//@sub crc.try_into().unwrap() => vx_arr4(crc)
//@sub val.try_into().unwrap() => vx_arr4(val)
//@sub self.data[self.position..self.position + 2].try_into().unwrap() => vx_arr2(&self.data[self.position..self.position + 2])
//@sub crate::crc::crc32(&data, !0) => crc32(data.as_slice(), !0)
//@spec
    requires old(self).data@.len() <= 0x7fff_ffff_ffff_ffff, old(self).position == 0
    ensures r is Ok <==> gzip(old(self).data@, old(self).options) is Some, r matches Ok(x) ==> gzip(old(self).data@, old(self).options) == Some(x@)
//@at begin
    let vx_l = self.data.len(); let ghost d = self.data@;
    assert(!0u32 == 0xffff_ffffu32) by(bit_vector);
//@loop 0
    invariant_except_break zskip(d, self.position as int) == zskip(d, q1),
    invariant self.data@ == d, self.options == old(self).options, vx_l == d.len(), gz1(d) == Some(q1), d[3] & 8 != 0, q1 <= self.position <= d.len(), vx_l <= 0x7fff_ffff_ffff_ffff, d == old(self).data@,
    ensures zskip(d, q1) == Some(self.position as int)
    decreases d.len() - self.position
//@at after let xlen
    proof { lemma_le16(d[10], d[11]); assert(d.subrange(10, 12)[0] == d[10] && d.subrange(10, 12)[1] == d[11]); }
//@at before loop 0
    let ghost q1 = self.position as int;
//@loop 1
    invariant_except_break zskip(d, self.position as int) == zskip(d, q2),
    invariant self.data@ == d, self.options == old(self).options, vx_l == d.len(), gz2(d) == Some(q2), d[3] & 16 != 0, q2 <= self.position <= d.len(), vx_l <= 0x7fff_ffff_ffff_ffff, d == old(self).data@,
    ensures zskip(d, q2) == Some(self.position as int)
    decreases d.len() - self.position
//@at before loop 1
    let ghost q2 = self.position as int;
//@end
}
proof fn lemma_le16(a: u8, b: u8) ensures ((b as u16) << 8) | (a as u16) == a as int + 256 * (b as int) { assert(((b as u16) << 8) | (a as u16) == add(a as u16, mul(256, b as u16))) by(bit_vector); }
pub open spec fn used(s: &DeflateDecoder) -> int { (if s.stream.position >= s.stream.bits_left >> 3 { s.stream.position - (s.stream.bits_left >> 3) } else { 0int }) + s.stream.over_read }
//@include prelude_end.inc
