//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
// ===== C26: Photoshop (PSD) composite images =====
use core::cmp::Ordering;
//@type crates/zune-psd/src/constants.rs :: ColorModes
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-psd/src/constants.rs :: CompressionMethod
//@attrs #[derive(Copy, Clone)]
//@end
//@const crates/zune-psd/src/constants.rs :: PSD_IDENTIFIER_BE
//@end
//@type crates/zune-psd/src/decoder.rs :: PSDDecoder
//@end
#[derive(Debug)]
pub enum PSDDecodeErrors { WrongMagicBytes(u32), UnsupportedFileType(u16), UnsupportedChannelCount(u16), UnsupportedBitDepth(u16), UnsupportedColorFormat(Option<ColorModes>), UnknownCompression, Generic(&'static str), LargeDimensions(usize, usize), ZeroDimensions, BadRLE, IoErrors(ZByteIoError) } //TRUST: PSDDecodeErrors re-declared; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for PSDDecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> PSDDecodeErrors { PSDDecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for PSDDecodeErrors { fn from(value: ZByteIoError) -> PSDDecodeErrors { PSDDecodeErrors::IoErrors(value) } }
pub fn vx_arr2(s: &[u8]) -> (r: [u8; 2]) requires s.len() == 2 ensures r@ == s@ { let r = [s[0], s[1]]; assert(r@ =~= s@); r } //TRUST: slice.try_into().unwrap() to an array is replaced by an indexing helper that requires the exact length
pub fn vx_is_gray(c: Option<ColorModes>) -> (r: bool) ensures r == (c == Some(ColorModes::Grayscale)) { match c { Some(ColorModes::Grayscale) => true, _ => false } }
// ---- the format ----
pub open spec fn at(d: Seq<u8>, p: int) -> u8 { if 0 <= p < d.len() { d[p] } else { 0 } }
pub open spec fn after(a: Seq<u8>, r: Option<(Seq<u8>, int)>) -> Option<(Seq<u8>, int)> { match r { Some((b, q)) => Some((a + b, q)), None => None } }
pub open spec fn lits(d: Seq<u8>, p: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| at(d, p + i)) }
pub open spec fn reps(v: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| v) }
/// PackBits: `n` bytes coded at `p` and where the codes end; None when a code goes past the `n` bytes. Bytes after the end of the file count as 0.
pub open spec fn pb(d: Seq<u8>, p: int, n: int) -> Option<(Seq<u8>, int)> decreases n, d.len() - p {
    if n <= 0 { Some((Seq::empty(), p)) } else if p < 0 { None } else {
        let c = at(d, p) as int;
        if c == 128 { pb(d, p + 1, n) }
        else if c < 128 { if c + 1 > n { None } else { after(lits(d, p + 1, c + 1), pb(d, p + 2 + c, n - (c + 1))) } }
        else { if 257 - c > n { None } else { after(reps(at(d, p + 1), 257 - c), pb(d, p + 2, n - (257 - c))) } } }
}
pub proof fn lemma_pb(d: Seq<u8>, p: int, n: int) requires p >= 0, n >= 0 ensures pb(d, p, n) is Some ==> pb(d, p, n).unwrap().0.len() == n && pb(d, p, n).unwrap().1 >= p decreases n, d.len() - p
{ if n > 0 { let c = at(d, p) as int; if c == 128 { lemma_pb(d, p + 1, n); } else if c < 128 { if c + 1 <= n { lemma_pb(d, p + 2 + c, n - (c + 1)); } } else if 257 - c <= n { lemma_pb(d, p + 2, n - (257 - c)); } } }
pub proof fn lemma_after(a: Seq<u8>, b: Seq<u8>, r: Option<(Seq<u8>, int)>) ensures after(a, after(b, r)) == after(a + b, r) { match r { Some((x, q)) => { assert(a + (b + x) =~= (a + b) + x); } None => {} } }
/// the first `m` samples of `v` are in place, nothing else changed
pub open spec fn placed(b: Seq<u8>, b0: Seq<u8>, v: Seq<u8>, m: int, c: int) -> bool { b.len() == b0.len() && (forall|i: int| 0 <= i < m ==> b[#[trigger] (i * c)] == v[i]) && forall|x: int| 0 <= x < b0.len() && (x % c != 0 || x >= m * c) ==> #[trigger] b[x] == b0[x] }
pub proof fn lemma_place(b: Seq<u8>, b0: Seq<u8>, v: Seq<u8>, m: int, c: int)
    requires placed(b, b0, v, m, c), 0 <= m < v.len(), c > 0, m * c < b0.len(),
    ensures placed(b.update(m * c, v[m]), b0, v, m + 1, c), 0 <= m * c, (m + 1) * c == m * c + c,
{
    assert(0 <= m * c && (m + 1) * c == m * c + c) by(nonlinear_arith) requires 0 <= m, c > 0;
    let t = b.update(m * c, v[m]);
    assert((m * c) % c == 0) by { lemma_mod_multiples_basic(m, c); }
    assert forall|i: int| 0 <= i < m + 1 implies t[#[trigger] (i * c)] == v[i] by { if i < m { assert(i * c < m * c && 0 <= i * c) by(nonlinear_arith) requires 0 <= i < m, c > 0; } }
}
/// where the stream is when the codes were read up to `p`
pub open spec fn pos_is(pos: int, p: int, len: int) -> bool { (p <= len ==> pos == p) && (p > len ==> pos >= len) }
/// where channel `k` starts
pub open spec fn start(d: Seq<u8>, q: int, n: int, k: int) -> int decreases k { if k <= 0 { q } else { pb(d, start(d, q, n, k - 1), n).unwrap().1 } }
pub open spec fn good(d: Seq<u8>, q: int, n: int, k: int) -> bool { pb(d, start(d, q, n, k), n) is Some && pb(d, start(d, q, n, k), n).unwrap().1 <= d.len() }
/// the first `k` channels are coded validly within the file
pub open spec fn pre(d: Seq<u8>, q: int, n: int, k: int) -> bool decreases k { k <= 0 || (pre(d, q, n, k - 1) && good(d, q, n, k - 1)) }
pub proof fn lemma_pre(d: Seq<u8>, q: int, n: int, j: int, k: int) requires 0 <= j <= k, pre(d, q, n, k) ensures pre(d, q, n, j) decreases k { if j < k { lemma_pre(d, q, n, j, k - 1); } }
/// sample `i` of channel `k`
pub open spec fn smp8(rle: bool, d: Seq<u8>, q: int, n: int, k: int, i: int) -> u8 { if rle { pb(d, start(d, q, n, k), n).unwrap().0[i] } else { d[q + k * n + i] } }
pub open spec fn smp16(d: Seq<u8>, q: int, n: int, k: int, i: int) -> u16 { be16(d.subrange(q + 2 * (k * n + i), q + 2 * (k * n + i) + 2)) }
/// the colour `v` of a pixel with the transparency `a`, the white background taken out
pub uninterp spec fn um8(v: u8, a: u8) -> u8; //TRUST: the floating point formula that removes the white background from a partly transparent pixel is an uninterpreted function; the bounded part compares it with the exact value
pub uninterp spec fn um16(v: u16, a: u16) -> u16;
#[verifier::external_body] fn vx_um8(v: u8, a: u8) -> (r: u8) ensures r == um8(v, a) { unimplemented!() }
#[verifier::external_body] fn vx_um16(v: u16, a: u16) -> (r: u16) ensures r == um16(v, a) { unimplemented!() }
pub open spec fn fin8(v: u8, a: u8, k: int, c: int) -> u8 { if c == 4 && k < 3 && a != 0 && a != 255 { um8(v, a) } else { v } }
pub open spec fn fin16(v: u16, a: u16, k: int, c: int) -> u16 { if c == 4 && k < 3 && a != 0 && a != 65535 { um16(v, a) } else { v } }
pub open spec fn g16(b: Seq<u8>, x: int) -> u16 { le16(seq![b[2 * x], b[2 * x + 1]]) }
pub proof fn lemma_le16(v: u16) ensures le16(le16b(v)) == v { assert(((((v >> 8) as u8) as u16) << 8) | ((v as u8) as u16) == v) by(bit_vector); }
/// an index of channel `j` seen from the slice that starts at `k`
pub proof fn lemma_ch(x: int, c: int, k: int) requires 0 <= x, 0 <= k < c
    ensures 0 <= x / c, x == (x / c) * c + x % c, 0 <= x % c < c, x % c < k && x >= k ==> (x - k) % c != 0, x % c == k ==> x - k == (x / c) * c
{ let i = x / c; let j = x % c; lemma_fundamental_div_mod(x, c); assert(c * i == i * c) by(nonlinear_arith); assert(i >= 0) by { lemma_div_pos_is_pos(x, c); }
  if j < k && x >= k { assert((i - 1) * c == i * c - c) by(nonlinear_arith); lemma_fundamental_div_mod_converse(x - k, c, i - 1, c + j - k); } }
pub proof fn lemma_ix(i: int, k: int, c: int, n: int) requires 0 <= i < n, 0 <= k < c ensures 0 <= i * c + k < n * c, (i * c + k) / c == i, (i * c + k) % c == k, i * c <= (n - 1) * c
{ lemma_fundamental_div_mod_converse(i * c + k, c, i, k); assert(i * c + c <= n * c && 0 <= i * c && i * c <= (n - 1) * c) by(nonlinear_arith) requires 0 <= i < n, c > 0; }
pub proof fn lemma_xn(x: int, c: int, n: int) requires 0 <= x < n * c, 0 < c ensures 0 <= x / c < n, 0 <= x % c < c
{ lemma_fundamental_div_mod(x, c); lemma_div_pos_is_pos(x, c); let i = x / c; if i >= n { assert(c * i >= n * c) by(nonlinear_arith) requires i >= n, c > 0; } }
pub proof fn lemma_pre_end(d: Seq<u8>, q: int, n: int, k: int) requires q >= 0, n >= 0, k >= 0, pre(d, q, n, k) ensures start(d, q, n, k) >= q, k > 0 ==> start(d, q, n, k) <= d.len() decreases k
{ if k > 0 { lemma_pre_end(d, q, n, k - 1); lemma_pb(d, start(d, q, n, k - 1), n); } }
pub open spec fn mode(d: Seq<u8>, p: int) -> int { be16(d.subrange(p + 24, p + 26)) as int }
pub open spec fn hch(d: Seq<u8>, p: int) -> int { be16(d.subrange(p + 12, p + 14)) as int }
pub open spec fn hh(d: Seq<u8>, p: int) -> int { be32(d.subrange(p + 14, p + 18)) as int }
pub open spec fn hw(d: Seq<u8>, p: int) -> int { be32(d.subrange(p + 18, p + 22)) as int }
pub open spec fn hdepth(d: Seq<u8>, p: int) -> int { be16(d.subrange(p + 22, p + 24)) as int }
/// the end of a length prefixed section
pub open spec fn sect(d: Seq<u8>, p: int) -> int { p + 4 + be32(d.subrange(p, p + 4)) }
pub open spec fn comp_at(d: Seq<u8>, p: int) -> int { sect(d, sect(d, sect(d, p + 26))) }
pub open spec fn hdr_ok(d: Seq<u8>, p: int, mw: int, mh: int) -> bool {
    &&& p + 26 <= d.len() && be32(d.subrange(p, p + 4)) == 0x38425053 && be16(d.subrange(p + 4, p + 6)) == 1 && 1 <= hch(d, p) <= 4
    &&& 1 <= hw(d, p) <= mw && 1 <= hh(d, p) <= mh && (hdepth(d, p) == 8 || hdepth(d, p) == 16) && (mode(d, p) == 1 || mode(d, p) == 3 || mode(d, p) == 4)
    &&& p + 30 <= d.len() && sect(d, p + 26) + 4 <= d.len() && sect(d, sect(d, p + 26)) + 4 <= d.len() && comp_at(d, p) + 2 <= d.len() && be16(d.subrange(comp_at(d, p), comp_at(d, p) + 2)) <= 1
}
impl ColorModes {
//@fn crates/zune-psd/src/constants.rs :: ColorModes::from_int
//@sub Some(Bitmap) => Some(ColorModes::Bitmap)
//@sub Some(Grayscale) => Some(ColorModes::Grayscale)
//@sub Some(IndexedColor) => Some(ColorModes::IndexedColor)
//@sub Some(RGB) => Some(ColorModes::RGB)
//@sub Some(CYMK) => Some(ColorModes::CYMK)
//@sub Some(DuoTone) => Some(ColorModes::DuoTone)
//@sub Some(LabColor) => Some(ColorModes::LabColor)
//@sub match int => match vx_int
//@sig
    fn from_int(vx_int: u16) -> (r: Option<ColorModes>)
//@spec
    ensures r is Some && (r.unwrap() is RGB || r.unwrap() is Grayscale || r.unwrap() is CYMK) <==> vx_int == 1 || vx_int == 3 || vx_int == 4, r == Some(ColorModes::RGB) <==> vx_int == 3, r == Some(ColorModes::Grayscale) <==> vx_int == 1, r == Some(ColorModes::CYMK) <==> vx_int == 4,
//@end
}
impl CompressionMethod {
//@fn crates/zune-psd/src/constants.rs :: CompressionMethod::from_int
//@sub match int => match vx_int
//@sig
    fn from_int(vx_int: u16) -> (r: Option<CompressionMethod>)
//@spec
    ensures r is Some <==> vx_int <= 1, r is Some ==> (r.unwrap() is RLE <==> vx_int == 1),
//@end
}
impl<T: ZByteReaderTrait> PSDDecoder<T> {
pub open spec fn ready(&self) -> bool { self.decoded_header ==> 1 <= self.width <= self.options.max_width && 1 <= self.height <= self.options.max_height && 1 <= self.channel_count <= self.file_channels <= 4 && self.width <= u32::MAX && self.height <= u32::MAX && (self.depth is Eight || self.depth is Sixteen) && self.color_type is Some && (self.color_type.unwrap() is Grayscale ==> self.channel_count == 1) }
pub open spec fn hdr_is(&self, d: Seq<u8>, p: int) -> bool {
    &&& self.decoded_header && self.width == hw(d, p) && self.height == hh(d, p) && self.file_channels == hch(d, p) && self.channel_count == (if mode(d, p) == 1 { 1 } else { hch(d, p) })
    &&& (self.depth is Eight <==> hdepth(d, p) == 8) && (self.depth is Sixteen <==> hdepth(d, p) == 16) && self.color_type is Some && (self.color_type.unwrap() is Grayscale <==> mode(d, p) == 1) && (self.color_type.unwrap() is RGB <==> mode(d, p) == 3) && (self.color_type.unwrap() is CYMK <==> mode(d, p) == 4)
    &&& (self.compression is RLE <==> be16(d.subrange(comp_at(d, p), comp_at(d, p) + 2)) == 1)
}
//@fn crates/zune-psd/src/decoder.rs :: PSDDecoder::decode_headers
//@ret r
//@sub self.color_type == Some(ColorModes::Grayscale) => vx_is_gray(self.color_type)
//@spec
    requires old(self).stream.wf(), old(self).ready(), old(self).stream.data().len() <= usize::MAX,
    ensures final(self).stream.wf(), final(self).stream.data() == old(self).stream.data(), final(self).options == old(self).options, r.is_ok() ==> final(self).ready() && final(self).decoded_header,
        old(self).decoded_header ==> r.is_ok() && *final(self) == *old(self),
        !old(self).decoded_header ==> ({ let d = old(self).stream.data(); let p = old(self).stream.pos();
            &&& r.is_ok() <==> hdr_ok(d, p, old(self).options.max_width as int, old(self).options.max_height as int)
            &&& r.is_ok() ==> final(self).hdr_is(d, p) && final(self).stream.pos() == comp_at(d, p) + 2 }),
//@end
//@fn crates/zune-psd/src/decoder.rs :: PSDDecoder::psd_decode_rle
//@ret r
//@spec
    requires old(self).stream.wf(), 1 <= old(self).channel_count <= 4, old(self).channel_count * pixel_count <= old(buffer).len(), old(self).channel_count * pixel_count + 2000 <= usize::MAX,
    ensures final(self).stream.wf(), final(self).stream.data() == old(self).stream.data(), final(buffer).len() == old(buffer).len(),
        final(self).width == old(self).width, final(self).height == old(self).height, final(self).channel_count == old(self).channel_count, final(self).file_channels == old(self).file_channels, final(self).options == old(self).options, final(self).depth == old(self).depth, final(self).compression == old(self).compression, final(self).color_type == old(self).color_type, final(self).decoded_header == old(self).decoded_header,
        ({ let d = old(self).stream.data(); let p = old(self).stream.pos(); let n = pixel_count as int; let c = old(self).channel_count as int;
            &&& pb(d, p, n) is Some && pb(d, p, n).unwrap().1 <= d.len() ==> r.is_ok() && final(self).stream.pos() == pb(d, p, n).unwrap().1
            &&& r.is_ok() ==> pb(d, p, n) is Some && (forall|i: int| 0 <= i < n ==> final(buffer)@[#[trigger] (i * c)] == pb(d, p, n).unwrap().0[i])
            &&& r.is_ok() ==> forall|x: int| 0 <= x < old(buffer).len() && (x % c != 0 || x >= n * c) ==> #[trigger] final(buffer)@[x] == old(buffer)@[x] }),
//@at begin
    let ghost d = self.stream.data(); let ghost p0 = self.stream.pos(); let ghost n = pixel_count as int; let ghost c = self.channel_count as int; let ghost mut p: int = p0; let ghost b0 = buffer@; let ghost mut done: Seq<u8> = Seq::empty(); let ghost me = *self;
    let ghost mut done2: Seq<u8> = Seq::empty(); let ghost mut len0: int = 0;
    proof { lemma_pb(d, p0, n); match pb(d, p0, n) { Some((b, q)) => { assert(Seq::<u8>::empty() + b =~= b); } None => {} } }
//@loop 0
    invariant d == old(self).stream.data(), p0 == old(self).stream.pos(), me == *old(self), b0 == old(buffer)@, self.width == me.width, self.height == me.height, self.channel_count == me.channel_count, self.file_channels == me.file_channels, self.options == me.options, self.depth == me.depth, self.compression == me.compression, self.color_type == me.color_type, self.decoded_header == me.decoded_header, self.stream.wf(), self.stream.data() == d, c == self.channel_count, 1 <= c <= 4, n == pixel_count, c * n <= b0.len(), c * n + 2000 <= usize::MAX, p0 >= 0, p >= p0, buffer.len() == b0.len(), 0 <= count <= pixel_count, nleft == pixel_count - count, position == count * c, done.len() == count, pb(d, p0, n) == after(done, pb(d, p, n - count)), pos_is(self.stream.pos(), p, d.len() as int), placed(buffer@, b0, done, count as int, c),
    decreases nleft, d.len() - p,
//@at loop 0 begin
    let ghost cnt0 = count as int;
    proof { lemma_pb(d, p, n - count); }
//@at after let len
    let ghost code = len as int;
    proof { assert(code == at(d, p)); assert(code != 0 ==> p < d.len()); assert(pos_is(self.stream.pos(), p + 1, d.len() as int)); assert(pb(d, p, n - count) == (if code == 128 { pb(d, p + 1, n - count) } else if code < 128 { if code + 1 > n - count { None } else { after(lits(d, p + 1, code + 1), pb(d, p + 2 + code, n - count - (code + 1))) } } else { if 257 - code > n - count { None } else { after(reps(at(d, p + 1), 257 - code), pb(d, p + 2, n - count - (257 - code))) } }));
        if code == 128 { p = p + 1; } }
//@at after assign count
    proof { len0 = len as int; done2 = done + lits(d, p + 1, len0); lemma_after(done, lits(d, p + 1, len0), pb(d, p + 1 + len0, n - count)); assert(position + c * len == count * c && c * len >= 0) by(nonlinear_arith) requires position == (count - len) * c, c > 0, len >= 0; assert(count * c <= n * c) by(nonlinear_arith) requires count <= n, c > 0;
        assert forall|i: int| 0 <= i < cnt0 implies buffer@[#[trigger] (i * c)] == done2[i] by {} }
//@loop 1
    invariant d == old(self).stream.data(), p0 == old(self).stream.pos(), me == *old(self), b0 == old(buffer)@, self.width == me.width, self.height == me.height, self.channel_count == me.channel_count, self.file_channels == me.file_channels, self.options == me.options, self.depth == me.depth, self.compression == me.compression, self.color_type == me.color_type, self.decoded_header == me.decoded_header, self.stream.wf(), self.stream.data() == d, c == self.channel_count, 1 <= c <= 4, n == pixel_count, c * n <= b0.len(), c * n + 2000 <= usize::MAX, p0 >= 0, p >= p0, buffer.len() == b0.len(), 0 <= len <= len0 <= cnt0 + len0 == count <= pixel_count, position == (count - len) * c, done2.len() == count, done2 == done + lits(d, p + 1, len0), done.len() == cnt0, pos_is(self.stream.pos(), p + 1 + (len0 - len), d.len() as int), placed(buffer@, b0, done2, count - len, c),
    decreases len,
//@at loop 1 begin
    proof { assert((count - len) * c < count * c <= c * n) by(nonlinear_arith) requires len > 0, c > 0, count <= n; lemma_place(buffer@, b0, done2, count - len, c); assert(done2[count - len] == at(d, p + 1 + (len0 - len))); }
//@at after loop 1
    proof { p = p + 1 + len0; done = done2; }
//@at after assign len 3
    proof { let y = (257 - code) as usize; assert(128 < code <= 255); assert(y & 255 == y) by(bit_vector) requires 2 <= y <= 128; assert(len == 257 - code); }
//@at after assign count 2
    proof { len0 = len as int; }
//@at after let val
    proof { done2 = done + reps(val, len0); lemma_after(done, reps(val, len0), pb(d, p + 2, n - count)); assert(position + c * len == count * c && c * len >= 0) by(nonlinear_arith) requires position == (count - len) * c, c > 0, len >= 0; assert(count * c <= n * c) by(nonlinear_arith) requires count <= n, c > 0;
        assert forall|i: int| 0 <= i < cnt0 implies buffer@[#[trigger] (i * c)] == done2[i] by {} }
//@loop 2
    invariant d == old(self).stream.data(), p0 == old(self).stream.pos(), me == *old(self), b0 == old(buffer)@, self.width == me.width, self.height == me.height, self.channel_count == me.channel_count, self.file_channels == me.file_channels, self.options == me.options, self.depth == me.depth, self.compression == me.compression, self.color_type == me.color_type, self.decoded_header == me.decoded_header, self.stream.wf(), self.stream.data() == d, c == self.channel_count, 1 <= c <= 4, n == pixel_count, c * n <= b0.len(), c * n + 2000 <= usize::MAX, p0 >= 0, p >= p0, buffer.len() == b0.len(), 0 <= len <= len0 <= cnt0 + len0 == count <= pixel_count, position == (count - len) * c, done2.len() == count, done2 == done + reps(val, len0), done.len() == cnt0, pos_is(self.stream.pos(), p + 2, d.len() as int), placed(buffer@, b0, done2, count - len, c),
    decreases len,
//@at loop 2 begin
    proof { assert((count - len) * c < count * c <= c * n) by(nonlinear_arith) requires len > 0, c > 0, count <= n; lemma_place(buffer@, b0, done2, count - len, c); assert(done2[count - len] == val); }
//@at after loop 2
    proof { p = p + 2; done = done2; }
//@at after loop 0
    proof { match pb(d, p, n - count) { Some((x, q)) => { assert(done + x =~= done); } None => {} } }
//@end
//@fn crates/zune-psd/src/decoder.rs :: PSDDecoder::decode_raw
//@ret r
//@sub &mut out_channel[channel..] => &mut out_channel.as_mut_slice()[channel..]
//@sub pixel[6..8].try_into().unwrap() => vx_arr2(&pixel[6..8])
//@sub pixel[0..2].try_into().unwrap() => vx_arr2(&pixel[0..2])
//@sub pixel[2..4].try_into().unwrap() => vx_arr2(&pixel[2..4])
//@sub pixel[4..6].try_into().unwrap() => vx_arr2(&pixel[4..6])
//@sub f32::from(px3) / 65535.0 => ()
//@sub f32::from(pixel[3]) / 255.0 => ()
//@sub 1.0 / a => ()
//@sub 65535.0 * (1.0 - ra) => ()
//@sub 255.0 * (1.0 - ra) => ()
//@sub (f32::from(px0) * ra + inv_a) as u16 => vx_um16(px0, px3)
//@sub (f32::from(px1) * ra + inv_a) as u16 => vx_um16(px1, px3)
//@sub (f32::from(px2) * ra + inv_a) as u16 => vx_um16(px2, px3)
//@sub (f32::from(pixel[0]) * ra + inv_a) as u8 => vx_um8(pixel[0], pixel[3])
//@sub (f32::from(pixel[1]) * ra + inv_a) as u8 => vx_um8(pixel[1], pixel[3])
//@sub (f32::from(pixel[2]) * ra + inv_a) as u8 => vx_um8(pixel[2], pixel[3])
//@iter out_chunks let
//@iter out_channel vec
//@iter result vec
//@spec
    requires old(self).stream.wf(), old(self).ready(), old(self).stream.data().len() <= usize::MAX, forall|w: int, h: int| 0 <= w <= old(self).options.max_width && 0 <= h <= old(self).options.max_height && w <= u32::MAX && h <= u32::MAX ==> 8 * #[trigger] (w * h) + 4000 <= usize::MAX,
    ensures final(self).stream.data() == old(self).stream.data(), final(self).options == old(self).options,
        old(self).decoded_header ==> final(self).width == old(self).width && final(self).height == old(self).height && final(self).channel_count == old(self).channel_count && final(self).depth == old(self).depth && final(self).compression == old(self).compression && final(self).color_type == old(self).color_type,
        ({ let d = old(self).stream.data(); let p = old(self).stream.pos(); let f = *final(self); let rle = f.compression is RLE;
           let n = f.width * f.height; let c = f.channel_count as int;
           let hok = old(self).decoded_header || hdr_ok(d, p, old(self).options.max_width as int, old(self).options.max_height as int);
           let q = (if old(self).decoded_header { p } else { comp_at(d, p) + 2 }) + (if rle { 2 * f.height * f.file_channels } else { 0int });
            &&& r.is_ok() ==> hok && f.ready() && (!old(self).decoded_header ==> f.hdr_is(d, p)) && r.unwrap().len() == (if f.depth is Sixteen { 2 * (n * c) } else { n * c })
            &&& r.is_ok() ==> !(rle && f.depth is Sixteen)
            // 8 bit: run length coded channels (a code past the end of a channel is an error), single uncompressed channels
            &&& r.is_ok() && rle ==> forall|k: int| 0 <= k < c && #[trigger] pre(d, q, n, k) ==> pb(d, start(d, q, n, k), n) is Some
            &&& r.is_ok() && f.depth is Eight && (if rle { pre(d, q, n, c) } else { c == 1 }) && !(f.color_type.unwrap() is CYMK) ==> forall|x: int| 0 <= x < n * c ==> #[trigger] r.unwrap()@[x] == fin8(smp8(rle, d, q, n, x % c, x / c), smp8(rle, d, q, n, 3, x / c), x % c, c)
            // 16 bit
            &&& r.is_ok() && f.depth is Sixteen && !(f.color_type.unwrap() is CYMK) ==> q + 2 * (n * c) <= d.len() && forall|x: int| 0 <= x < n * c ==> #[trigger] g16(r.unwrap()@, x) == fin16(smp16(d, q, n, x % c, x / c), smp16(d, q, n, 3, x / c), x % c, c)
            // what is in the file is accepted
            &&& hok && (old(self).decoded_header || f.hdr_is(d, p)) && (if rle { f.depth is Eight && pre(d, q, n, c) } else { q + (if f.depth is Sixteen { 2 * (n * c) } else { n * c }) <= d.len() }) ==> r.is_ok() }),
//@at after let pixel_count
    let ghost d = self.stream.data(); let ghost wid = self.width as int; let ghost hei = self.height as int; let ghost c = self.channel_count as int; let ghost fc = self.file_channels as int; let ghost n = wid * hei; let ghost rle = self.compression is RLE; let ghost q = self.stream.pos() + (if rle { 2 * hei * fc } else { 0int }); let ghost me = *self; let ghost p0 = old(self).stream.pos();
    proof { assert(n >= 1 && n >= wid && n >= hei) by(nonlinear_arith) requires n == wid * hei, wid >= 1, hei >= 1; assert(n * c <= 4 * n && n * c >= n && c * n == n * c) by(nonlinear_arith) requires 1 <= c <= 4, n >= 1; assert(hei * fc <= 4 * hei && hei * fc >= 0 && 2 * hei * fc == 2 * (hei * fc)) by(nonlinear_arith) requires 1 <= fc <= 4, hei >= 1; assert((2 * n) * c == 2 * (n * c)) by(nonlinear_arith); if rle && pre(d, q, n, c) { lemma_pre_end(d, q, n, c); lemma_pre(d, q, n, 0, c); } }
//@loop 0
    d == old(self).stream.data(), p0 == old(self).stream.pos(), me.options == old(self).options, me.decoded_header, me.ready(), old(self).decoded_header ==> me.width == old(self).width && me.height == old(self).height && me.channel_count == old(self).channel_count && me.file_channels == old(self).file_channels && me.depth == old(self).depth && me.compression == old(self).compression && me.color_type == old(self).color_type && me.stream.pos() == p0, !old(self).decoded_header ==> hdr_ok(d, p0, me.options.max_width as int, me.options.max_height as int) && me.hdr_is(d, p0) && me.stream.pos() == comp_at(d, p0) + 2, rle == (me.compression is RLE), q == me.stream.pos() + (if rle { 2 * hei * fc } else { 0int }), d == self.stream.data(), self.stream.wf(), d.len() <= usize::MAX, q >= 0, wid == self.width, hei == self.height, c == self.channel_count, fc == self.file_channels, 1 <= c <= 4, n == wid * hei, n >= 1, 2 * (n * c) + 4000 <= usize::MAX, n <= n * c <= 4 * n, c * n == n * c, self.width <= self.options.max_width, self.height <= self.options.max_height, me.width == self.width, me.height == self.height, me.channel_count == self.channel_count, me.file_channels == self.file_channels, me.options == self.options, me.depth == self.depth, me.compression == self.compression, me.color_type == self.color_type, me.decoded_header == self.decoded_header, out_channel@.len() == n * c + 10, rle, vx_c0 == c, vx_r0lo == 0, me.depth is Eight, pixel_count == n, pre(d, q, n, vx_i0 as int) ==> self.stream.pos() == start(d, q, n, vx_i0 as int), forall|k: int| 0 <= k < vx_i0 && #[trigger] pre(d, q, n, k) ==> pb(d, start(d, q, n, k), n) is Some,
    pre(d, q, n, vx_i0 as int) ==> forall|x: int| 0 <= x < n * c && x % c < vx_i0 ==> #[trigger] out_channel@[x] == smp8(true, d, q, n, x % c, x / c),
//@at loop 0 begin
    let ghost o0 = out_channel@; let ghost k = vx_k0 as int;
    proof { assert(c * n == n * c) by(nonlinear_arith); assert(n * c <= 4 * n); if pre(d, q, n, c) { lemma_pre(d, q, n, k, c); lemma_pre(d, q, n, k + 1, c); } if pre(d, q, n, k) { lemma_pre_end(d, q, n, k); lemma_pb(d, start(d, q, n, k), n); } }
//@at loop 0 end
    proof { if pre(d, q, n, k + 1) { assert(pre(d, q, n, k)); assert forall|x: int| 0 <= x < n * c && x % c < k + 1 implies #[trigger] out_channel@[x] == smp8(true, d, q, n, x % c, x / c) by {
        lemma_ch(x, c, k); lemma_xn(x, c, n); let v = pb(d, start(d, q, n, k), n).unwrap().0; let s = out_channel@.subrange(k, out_channel@.len() as int); assert forall|i: int| 0 <= i < n implies s[#[trigger] (i * c)] == v[i] by {} let i = x / c;
        if x % c == k { assert(s[i * c] == v[i]); } else { assert(o0[x] == smp8(true, d, q, n, x % c, x / c)); if x >= k { assert(s[x - k] == o0.subrange(k, o0.len() as int)[x - k]); } } } } }
//@loop 1
    d == old(self).stream.data(), p0 == old(self).stream.pos(), me.options == old(self).options, me.decoded_header, me.ready(), old(self).decoded_header ==> me.width == old(self).width && me.height == old(self).height && me.channel_count == old(self).channel_count && me.file_channels == old(self).file_channels && me.depth == old(self).depth && me.compression == old(self).compression && me.color_type == old(self).color_type && me.stream.pos() == p0, !old(self).decoded_header ==> hdr_ok(d, p0, me.options.max_width as int, me.options.max_height as int) && me.hdr_is(d, p0) && me.stream.pos() == comp_at(d, p0) + 2, rle == (me.compression is RLE), q == me.stream.pos() + (if rle { 2 * hei * fc } else { 0int }), d == self.stream.data(), self.stream.wf(), d.len() <= usize::MAX, q >= 0, wid == self.width, hei == self.height, c == self.channel_count, fc == self.file_channels, 1 <= c <= 4, n == wid * hei, n >= 1, 2 * (n * c) + 4000 <= usize::MAX, n <= n * c <= 4 * n, c * n == n * c, self.width <= self.options.max_width, self.height <= self.options.max_height, me.width == self.width, me.height == self.height, me.channel_count == self.channel_count, me.file_channels == self.file_channels, me.options == self.options, me.depth == self.depth, me.compression == self.compression, me.color_type == self.color_type, me.decoded_header == self.decoded_header, out_channel@.len() == n * c + 10, !rle, vx_c1 == c, vx_r1lo == 0, me.depth is Eight, pixel_count == n, q == me.stream.pos(), self.stream.pos() <= q + vx_i1 * n, vx_i1 == 0 ==> self.stream.pos() == q, c == 1 && vx_i1 == 1 ==> forall|x: int| 0 <= x < n ==> #[trigger] out_channel@[x] == d[q + x],
//@at loop 1 begin
    let ghost ps = self.stream.pos(); let ghost k = vx_k1 as int; let ghost mut reads: int = 0;
//@loop 2
    invariant d == old(self).stream.data(), p0 == old(self).stream.pos(), me.options == old(self).options, me.decoded_header, me.ready(), old(self).decoded_header ==> me.width == old(self).width && me.height == old(self).height && me.channel_count == old(self).channel_count && me.file_channels == old(self).file_channels && me.depth == old(self).depth && me.compression == old(self).compression && me.color_type == old(self).color_type && me.stream.pos() == p0, !old(self).decoded_header ==> hdr_ok(d, p0, me.options.max_width as int, me.options.max_height as int) && me.hdr_is(d, p0) && me.stream.pos() == comp_at(d, p0) + 2, rle == (me.compression is RLE), q == me.stream.pos() + (if rle { 2 * hei * fc } else { 0int }), d == self.stream.data(), self.stream.wf(), d.len() <= usize::MAX, q >= 0, wid == self.width, hei == self.height, c == self.channel_count, fc == self.file_channels, 1 <= c <= 4, n == wid * hei, n >= 1, 2 * (n * c) + 4000 <= usize::MAX, n <= n * c <= 4 * n, c * n == n * c, self.width <= self.options.max_width, self.height <= self.options.max_height, me.width == self.width, me.height == self.height, me.channel_count == self.channel_count, me.file_channels == self.file_channels, me.options == self.options, me.depth == self.depth, me.compression == self.compression, me.color_type == self.color_type, me.decoded_header == self.decoded_header, out_channel@.len() == n * c + 10, !rle, me.depth is Eight, pixel_count == n, i >= k, 0 <= k < c, reads >= 0, c * reads == i - k, reads > 0 ==> c * (reads - 1) + k < n, self.stream.pos() == ps + reads, ps <= q + k * n, k == 0 ==> ps == q, c == 1 ==> forall|x: int| 0 <= x < i ==> #[trigger] out_channel@[x] == d[q + x],
    decreases n + c - i,
//@at loop 2 begin
    proof { if c == 1 { assert(c * reads == reads) by(nonlinear_arith) requires c == 1; } assert(c * reads >= reads) by(nonlinear_arith) requires c >= 1, reads >= 0; assert(reads < n); assert(ps + reads < q + n * c) by { assert(k * n + n <= n * c) by(nonlinear_arith) requires k + 1 <= c, n >= 1; } assert(c * (reads + 1) == c * reads + c) by(nonlinear_arith); reads = reads + 1; }
//@at after loop 2
    proof { assert(reads <= n) by { if reads > 0 { assert(c * (reads - 1) >= reads - 1) by(nonlinear_arith) requires c >= 1, reads >= 1; } } assert((k + 1) * n == k * n + n) by(nonlinear_arith); }
//@loop 3
    d == old(self).stream.data(), p0 == old(self).stream.pos(), me.options == old(self).options, me.decoded_header, me.ready(), old(self).decoded_header ==> me.width == old(self).width && me.height == old(self).height && me.channel_count == old(self).channel_count && me.file_channels == old(self).file_channels && me.depth == old(self).depth && me.compression == old(self).compression && me.color_type == old(self).color_type && me.stream.pos() == p0, !old(self).decoded_header ==> hdr_ok(d, p0, me.options.max_width as int, me.options.max_height as int) && me.hdr_is(d, p0) && me.stream.pos() == comp_at(d, p0) + 2, rle == (me.compression is RLE), q == me.stream.pos() + (if rle { 2 * hei * fc } else { 0int }), d == self.stream.data(), self.stream.wf(), d.len() <= usize::MAX, q >= 0, wid == self.width, hei == self.height, c == self.channel_count, fc == self.file_channels, 1 <= c <= 4, n == wid * hei, n >= 1, 2 * (n * c) + 4000 <= usize::MAX, n <= n * c <= 4 * n, c * n == n * c, self.width <= self.options.max_width, self.height <= self.options.max_height, me.width == self.width, me.height == self.height, me.channel_count == self.channel_count, me.file_channels == self.file_channels, me.options == self.options, me.depth == self.depth, me.compression == self.compression, me.color_type == self.color_type, me.decoded_header == self.decoded_header, out_channel@.len() == 2 * (n * c + 10), !rle, vx_c3 == c, vx_r3lo == 0, me.depth is Sixteen, channel_dimensions == n, pixel_count == 2 * n, self.stream.pos() == q + 2 * (vx_i3 * n), vx_i3 > 0 ==> self.stream.pos() <= d.len(), forall|x: int| 0 <= x < n * c && x % c < vx_i3 ==> #[trigger] g16(out_channel@, x) == smp16(d, q, n, x % c, x / c),
//@at loop 3 begin
    let ghost k = vx_k3 as int;
//@at before loop 4
    proof { assert(k * n + n <= n * c) by(nonlinear_arith) requires k + 1 <= c, n >= 1; assert((2 * (n * c + 10) - 2 * k) / (2 * c) >= n) by(nonlinear_arith) requires 0 <= k < c, 1 <= c <= 4, n >= 1; }
//@loop 4
    d == old(self).stream.data(), p0 == old(self).stream.pos(), me.options == old(self).options, me.decoded_header, me.ready(), old(self).decoded_header ==> me.width == old(self).width && me.height == old(self).height && me.channel_count == old(self).channel_count && me.file_channels == old(self).file_channels && me.depth == old(self).depth && me.compression == old(self).compression && me.color_type == old(self).color_type && me.stream.pos() == p0, !old(self).decoded_header ==> hdr_ok(d, p0, me.options.max_width as int, me.options.max_height as int) && me.hdr_is(d, p0) && me.stream.pos() == comp_at(d, p0) + 2, rle == (me.compression is RLE), q == me.stream.pos() + (if rle { 2 * hei * fc } else { 0int }), d == self.stream.data(), self.stream.wf(), d.len() <= usize::MAX, q >= 0, wid == self.width, hei == self.height, c == self.channel_count, fc == self.file_channels, 1 <= c <= 4, n == wid * hei, n >= 1, 2 * (n * c) + 4000 <= usize::MAX, n <= n * c <= 4 * n, c * n == n * c, self.width <= self.options.max_width, self.height <= self.options.max_height, me.width == self.width, me.height == self.height, me.channel_count == self.channel_count, me.file_channels == self.file_channels, me.options == self.options, me.depth == self.depth, me.compression == self.compression, me.color_type == self.color_type, me.decoded_header == self.decoded_header, out_channel@.len() == 2 * (n * c + 10), vx_n4_1 == 2 * c, vx_lo4_0 == 2 * k, vx_c4 == n, !rle, me.depth is Sixteen, channel_dimensions == n, 0 <= k < c, i == 2 * k, self.stream.pos() == q + 2 * (k * n + vx_i4), vx_i4 > 0 || k > 0 ==> self.stream.pos() <= d.len(), forall|x: int| 0 <= x < n * c && (x % c < k || (x % c == k && x / c < vx_i4)) ==> #[trigger] g16(out_channel@, x) == smp16(d, q, n, x % c, x / c),
    // what is still to come
    k * n + n <= n * c,
//@at loop 4 begin
    let ghost t = vx_k4 as int; let ghost o0 = out_channel@; let ghost sp = self.stream.pos();
    proof { assert(vx_k4 * vx_n4_1 == t * (2 * c) && t * (2 * c) >= 0 && t * (2 * c) + 2 * c <= 2 * (n * c)) by(nonlinear_arith) requires vx_k4 == t, vx_n4_1 == 2 * c, 0 <= t < n, c >= 1; lemma_ix(t, k, c, n); assert(t * (2 * c) == 2 * (t * c)) by(nonlinear_arith); }
//@at loop 4 end
    proof { let v = smp16(d, q, n, k, t); lemma_le16(v); let x0 = t * c + k; assert(out_channel@[2 * x0] == le16b(v)[0] && out_channel@[2 * x0 + 1] == le16b(v)[1]); assert(seq![out_channel@[2 * x0], out_channel@[2 * x0 + 1]] =~= le16b(v));
        assert forall|x: int| 0 <= x < n * c && (x % c < k || (x % c == k && x / c < t + 1)) implies #[trigger] g16(out_channel@, x) == smp16(d, q, n, x % c, x / c) by {
            lemma_ch(x, c, k); if x != x0 { if x % c == k { assert(x / c != t); } assert(g16(o0, x) == smp16(d, q, n, x % c, x / c)); assert(out_channel@[2 * x] == o0[2 * x] && out_channel@[2 * x + 1] == o0[2 * x + 1]); } } }
//@at after loop 4
    proof { assert((k + 1) * n == k * n + n) by(nonlinear_arith); assert forall|x: int| 0 <= x < n * c && x % c < k + 1 implies #[trigger] g16(out_channel@, x) == smp16(d, q, n, x % c, x / c) by { lemma_xn(x, c, n); } }
//@at after let out_channel 3
    let ghost mut o3 = out_channel@;
//@at after loop 3
    proof { o3 = out_channel@; assert forall|x: int| 0 <= x < n * c implies #[trigger] g16(o3, x) == smp16(d, q, n, x % c, x / c) by { lemma_xn(x, c, n); } }
//@at after call truncate 3
    proof { assert forall|x: int| 0 <= x < n * c implies #[trigger] g16(out_channel@, x) == smp16(d, q, n, x % c, x / c) by { assert(g16(o3, x) == smp16(d, q, n, x % c, x / c)); assert(out_channel@[2 * x] == o3[2 * x] && out_channel@[2 * x + 1] == o3[2 * x + 1]); } }
//@at after let result
    let ghost g0 = result@;
    proof { assert(self.depth is Sixteen ==> !rle && g0.len() == 2 * (n * c) && forall|x: int| 0 <= x < n * c ==> #[trigger] g16(g0, x) == smp16(d, q, n, x % c, x / c)); assert(self.depth is Eight ==> g0.len() == n * c); assert(self.depth is Eight && rle && pre(d, q, n, c) ==> forall|x: int| 0 <= x < n * c ==> #[trigger] g0[x] == smp8(true, d, q, n, x % c, x / c)); assert(self.depth is Eight && !rle && c == 1 ==> forall|x: int| 0 <= x < n ==> #[trigger] g0[x] == d[q + x]); }
//@loop 5
    vx_c5 == n, g0.len() == 8 * n, result@.len() == 8 * n, n >= 1, 8 * n + 4000 <= usize::MAX, forall|x: int| 0 <= x < 4 * n ==> #[trigger] g16(result@, x) == (if x / 4 < vx_i5 { fin16(g16(g0, x), g16(g0, 4 * (x / 4) + 3), x % 4, 4) } else { g16(g0, x) }),
//@at loop 5 begin
    let ghost t = vx_k5 as int; let ghost o0 = result@;
    proof { assert(o0.subrange(8 * t, 8 * t + 8).subrange(0, 2) =~= seq![o0[2 * (4 * t + 0)], o0[2 * (4 * t + 0) + 1]]); assert(o0.subrange(8 * t, 8 * t + 8).subrange(2, 4) =~= seq![o0[2 * (4 * t + 1)], o0[2 * (4 * t + 1) + 1]]); assert(o0.subrange(8 * t, 8 * t + 8).subrange(4, 6) =~= seq![o0[2 * (4 * t + 2)], o0[2 * (4 * t + 2) + 1]]); assert(o0.subrange(8 * t, 8 * t + 8).subrange(6, 8) =~= seq![o0[2 * (4 * t + 3)], o0[2 * (4 * t + 3) + 1]]); assert(g16(o0, 4 * t) == g16(g0, 4 * t) && g16(o0, 4 * t + 1) == g16(g0, 4 * t + 1) && g16(o0, 4 * t + 2) == g16(g0, 4 * t + 2) && g16(o0, 4 * t + 3) == g16(g0, 4 * t + 3)); }
//@at loop 5 end
    proof { lemma_le16(um16(g16(g0, 4 * t), g16(g0, 4 * t + 3))); lemma_le16(um16(g16(g0, 4 * t + 1), g16(g0, 4 * t + 3))); lemma_le16(um16(g16(g0, 4 * t + 2), g16(g0, 4 * t + 3)));
        let al = g16(g0, 4 * t + 3); if al != 0 && al != 65535 { assert(result@[8 * t + 0] == le16b(um16(g16(g0, 4 * t + 0), al))[0]); assert(result@[8 * t + 1] == le16b(um16(g16(g0, 4 * t + 0), al))[1]); assert(seq![result@[8 * t + 0], result@[8 * t + 1]] =~= le16b(um16(g16(g0, 4 * t + 0), al))); assert(g16(result@, 4 * t + 0) == um16(g16(g0, 4 * t + 0), al)); assert(result@[8 * t + 2] == le16b(um16(g16(g0, 4 * t + 1), al))[0]); assert(result@[8 * t + 3] == le16b(um16(g16(g0, 4 * t + 1), al))[1]); assert(seq![result@[8 * t + 2], result@[8 * t + 3]] =~= le16b(um16(g16(g0, 4 * t + 1), al))); assert(g16(result@, 4 * t + 1) == um16(g16(g0, 4 * t + 1), al)); assert(result@[8 * t + 4] == le16b(um16(g16(g0, 4 * t + 2), al))[0]); assert(result@[8 * t + 5] == le16b(um16(g16(g0, 4 * t + 2), al))[1]); assert(seq![result@[8 * t + 4], result@[8 * t + 5]] =~= le16b(um16(g16(g0, 4 * t + 2), al))); assert(g16(result@, 4 * t + 2) == um16(g16(g0, 4 * t + 2), al)); } else { assert(result@ =~= o0); }
        assert(result@[8 * t + 6] == o0[8 * t + 6] && result@[8 * t + 7] == o0[8 * t + 7]); assert(g16(result@, 4 * t + 3) == al);
        assert forall|x: int| 0 <= x < 4 * n implies #[trigger] g16(result@, x) == (if x / 4 < t + 1 { fin16(g16(g0, x), g16(g0, 4 * (x / 4) + 3), x % 4, 4) } else { g16(g0, x) }) by {
            let k = x % 4; if x / 4 == t { assert(x == 4 * t + k); assert(k == 0 || k == 1 || k == 2 || k == 3); } else { assert(result@[2 * x] == o0[2 * x] && result@[2 * x + 1] == o0[2 * x + 1]); assert(g16(o0, x) == g16(result@, x)); } } }
//@loop 6
    vx_c6 == n, g0.len() == 4 * n, result@.len() == 4 * n, n >= 1, 8 * n + 4000 <= usize::MAX, forall|x: int| 0 <= x < 4 * n ==> #[trigger] result@[x] == (if x / 4 < vx_i6 { fin8(g0[x], g0[4 * (x / 4) + 3], x % 4, 4) } else { g0[x] }),
//@at loop 6 begin
    let ghost t = vx_k6 as int; let ghost o0 = result@;
    proof { assert(o0[4 * t] == g0[4 * t] && o0[4 * t + 1] == g0[4 * t + 1] && o0[4 * t + 2] == g0[4 * t + 2] && o0[4 * t + 3] == g0[4 * t + 3]); }
//@at loop 6 end
    proof { assert forall|x: int| 0 <= x < 4 * n implies #[trigger] result@[x] == (if x / 4 < t + 1 { fin8(g0[x], g0[4 * (x / 4) + 3], x % 4, 4) } else { g0[x] }) by { if x / 4 != t { assert(result@[x] == o0[x]); } } }
//@at before tail
    proof { if c == 4 { assert forall|x: int| 0 <= x < 4 * n implies #[trigger] (x / 4) * 4 + 3 < 4 * n && ((x / 4) * 4 + 3) % 4 == 3 && ((x / 4) * 4 + 3) / 4 == x / 4 by {}
        if self.depth is Eight && (rle ==> pre(d, q, n, c)) && rle { assert forall|x: int| 0 <= x < n * c implies #[trigger] result@[x] == fin8(smp8(rle, d, q, n, x % c, x / c), smp8(rle, d, q, n, 3, x / c), x % c, c) by { assert(result@[x] == fin8(g0[x], g0[4 * (x / 4) + 3], x % 4, 4)); assert(g0[4 * (x / 4) + 3] == smp8(rle, d, q, n, 3, x / c)); } }
        if self.depth is Sixteen { assert forall|x: int| 0 <= x < n * c implies #[trigger] g16(result@, x) == fin16(smp16(d, q, n, x % c, x / c), smp16(d, q, n, 3, x / c), x % c, c) by { assert(g16(g0, 4 * (x / 4) + 3) == smp16(d, q, n, 3, x / c)); } } }
        if c != 4 { assert(result@ == g0); }
        if self.depth is Eight && rle && pre(d, q, n, c) && !(self.color_type.unwrap() is CYMK) { assert forall|x: int| 0 <= x < n * c implies #[trigger] result@[x] == fin8(smp8(rle, d, q, n, x % c, x / c), smp8(rle, d, q, n, 3, x / c), x % c, c) by { if c != 4 { assert(result@[x] == g0[x]); } } }
        if self.depth is Eight && !rle && c == 1 { assert forall|x: int| 0 <= x < n * c implies #[trigger] result@[x] == fin8(smp8(rle, d, q, n, x % c, x / c), smp8(rle, d, q, n, 3, x / c), x % c, c) by { assert(n * c == n) by(nonlinear_arith) requires c == 1; assert(result@[x] == g0[x]); assert(g0[x] == d[q + x]); } }
        if self.depth is Sixteen && !(self.color_type.unwrap() is CYMK) { assert forall|x: int| 0 <= x < n * c implies #[trigger] g16(result@, x) == fin16(smp16(d, q, n, x % c, x / c), smp16(d, q, n, 3, x / c), x % c, c) by { if c != 4 { assert(g16(result@, x) == g16(g0, x)); } } }
    }
//@end
}
//@include prelude_end.inc
