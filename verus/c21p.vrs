//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
// ===== C21: BMP =====
//@type crates/zune-bmp/src/common.rs :: BmpCompression
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-bmp/src/common.rs :: BmpPixelFormat
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-bmp/src/decoder.rs :: PaletteEntry
//@attrs #[derive(Copy, Clone, PartialEq, Eq)]
//@end
pub struct ColorPrimaries { pub p: u8 } //TRUST: ColorPrimaries (colour metadata) is opaque
//@type crates/zune-bmp/src/decoder.rs :: BmpDecoder
//@end
#[derive(Debug)]
pub enum BmpDecoderErrors { InvalidMagicBytes, TooSmallBuffer(usize, usize), GenericStatic(&'static str), Generic(String), TooLargeDimensions(&'static str, usize, usize), OverFlowOccurred, IoErrors(ZByteIoError) } //TRUST: BmpDecoderErrors re-declared; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for BmpDecoderErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> BmpDecoderErrors { BmpDecoderErrors::IoErrors(v) } }
impl From<ZByteIoError> for BmpDecoderErrors { fn from(value: ZByteIoError) -> BmpDecoderErrors { BmpDecoderErrors::IoErrors(value) } }
/// an `n` bit value scaled to 8 bits: the smallest and the largest value map to 0 and 255, the others are off by less than one
pub open spec fn mx(n: int) -> int { if n == 1 { 1 } else if n == 2 { 3 } else if n == 3 { 7 } else if n == 4 { 15 } else if n == 5 { 31 } else if n == 6 { 63 } else if n == 7 { 127 } else { 255 } }
pub open spec fn scaled(r: int, v: int, n: int) -> bool { -mx(n) < r * mx(n) - v * 255 < mx(n) && 0 <= r <= 255 && (v == 0 ==> r == 0) && (v == mx(n) ==> r == 255) }
pub open spec fn shifted(v: u32, shift: i32) -> u32 { if shift < 0 { v << ((-shift) as u32) } else { v >> (shift as u32) } }
pub fn vx_clamp(x: u32, a: u32, b: u32) -> (r: u32) requires a <= b ensures r == (if x < a { a } else if x > b { b } else { x }) { if x < a { a } else if x > b { b } else { x } }
pub fn vx_shl(v: u32, s: i32) -> (r: u32) requires 0 <= s < 32 ensures r == v << (s as u32) { v << (s as u32) }
pub fn vx_shr(v: u32, s: i32) -> (r: u32) requires 0 <= s < 32 ensures r == v >> (s as u32) { v >> (s as u32) }
pub proof fn lemma_scale(v: u32, n: u32) requires v < 256, n <= 8
    ensures ({ let t = v >> ((8 - n) as u32); &&& t <= 255 &&& t * 255 <= u32::MAX &&& n == 0 ==> t == 0 &&& n > 0 ==> t <= mx(n as int)
        &&& n == 1 ==> scaled((((t * 0xff) as u32) >> 0u32) as int, t as int, 1) &&& n == 2 ==> scaled((((t * 0x55) as u32) >> 0u32) as int, t as int, 2) &&& n == 3 ==> scaled((((t * 0x49) as u32) >> 1u32) as int, t as int, 3) &&& n == 4 ==> scaled((((t * 0x11) as u32) >> 0u32) as int, t as int, 4) &&& n == 5 ==> scaled((((t * 0x21) as u32) >> 2u32) as int, t as int, 5)
        &&& n == 6 ==> scaled((((t * 0x41) as u32) >> 4u32) as int, t as int, 6) &&& n == 7 ==> scaled((((t * 0x81) as u32) >> 6u32) as int, t as int, 7) &&& n == 8 ==> scaled((((t * 1) as u32) >> 0u32) as int, t as int, 8) })
{
    let m = (8 - n) as u32; let t = v >> m;
    assert(t <= 255) by(bit_vector) requires t == v >> m, v < 256, m <= 8;
    assert(m == 8 ==> t == 0) by(bit_vector) requires t == v >> m, v < 256; assert(m == 7 ==> t <= 1) by(bit_vector) requires t == v >> m, v < 256; assert(m == 6 ==> t <= 3) by(bit_vector) requires t == v >> m, v < 256; assert(m == 5 ==> t <= 7) by(bit_vector) requires t == v >> m, v < 256; assert(m == 4 ==> t <= 15) by(bit_vector) requires t == v >> m, v < 256; assert(m == 3 ==> t <= 31) by(bit_vector) requires t == v >> m, v < 256; assert(m == 2 ==> t <= 63) by(bit_vector) requires t == v >> m, v < 256; assert(m == 1 ==> t <= 127) by(bit_vector) requires t == v >> m, v < 256;
    let a = (t * 0xff) as u32; let b = (t * 0x55) as u32; let c = (t * 0x49) as u32; let d = (t * 0x11) as u32; let e = (t * 0x21) as u32; let f = (t * 0x41) as u32; let g = (t * 0x81) as u32;
    assert(a >> 0u32 == a && b >> 0u32 == b && d >> 0u32 == d && t >> 0u32 == t) by(bit_vector);
    assert(c >> 1u32 == c / 2 && e >> 2u32 == e / 4 && f >> 4u32 == f / 16 && g >> 6u32 == g / 64) by(bit_vector);
}
//@fn crates/zune-bmp/src/decoder.rs :: shift_signed
//@ret r
//@sub bits.clamp(0, 8) => vx_clamp(bits, 0, 8)
//@sub v <<= -shift; => v = vx_shl(v, -shift);
//@sub v >>= shift; => v = vx_shr(v, shift);
//@sub (v * MUL_TABLE[bits as usize]) >> SHIFT_TABLE[bits as usize] => vx_shr(v * MUL_TABLE[bits as usize], SHIFT_TABLE[bits as usize])
//@spec
    requires -31 <= shift <= 31, shifted(v, shift) < 256,
    ensures ({ let n = if bits > 8 { 8 } else { bits as int }; n > 0 ==> scaled(r as int, (shifted(v, shift) >> ((8 - n) as u32)) as int, n) }), bits == 0 ==> r == 0,
//@at after assign bits
    proof { lemma_scale(v, bits); let t = v >> ((8 - bits) as u32); assert(MUL_TABLE@[0] == 0 && MUL_TABLE@[1] == 0xff && MUL_TABLE@[2] == 0x55 && MUL_TABLE@[3] == 0x49 && MUL_TABLE@[4] == 0x11 && MUL_TABLE@[5] == 0x21 && MUL_TABLE@[6] == 0x41 && MUL_TABLE@[7] == 0x81 && MUL_TABLE@[8] == 1); assert(SHIFT_TABLE@[0] == 0 && SHIFT_TABLE@[1] == 0 && SHIFT_TABLE@[2] == 0 && SHIFT_TABLE@[3] == 1 && SHIFT_TABLE@[4] == 0 && SHIFT_TABLE@[5] == 2 && SHIFT_TABLE@[6] == 4 && SHIFT_TABLE@[7] == 6 && SHIFT_TABLE@[8] == 0);
        assert(0u32 >> 0u32 == 0u32) by(bit_vector); assert(0 <= t * 255 <= u32::MAX); assert(bits == 0 ==> t == 0); }
//@end
/// the pad bytes that bring a row of `w` bytes to a multiple of four
pub open spec fn padding(w: int) -> int { (4 - w % 4) % 4 }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// the `n` bytes of `b` at `at` show the palette entry `e`
pub open spec fn px(b: Seq<u8>, at: int, e: PaletteEntry, n: int) -> bool { b[at] == e.red && b[at + 1] == e.green && b[at + 2] == e.blue && (n == 4 ==> b[at + 3] == e.alpha) }
/// row `y` of the file (the rows are stored bottom up) is row `y` from the end of `b`
pub open spec fn prow(b: Seq<u8>, y: int, w: int, n: int, inb: Seq<u8>, row: int, pal: Seq<PaletteEntry>) -> bool { forall|x: int| 0 <= x < w ==> #[trigger] px(b, b.len() - (y + 1) * (w * n) + x * n, pal[inb[y * row + x] as int], n) }
pub proof fn lemma_pad(w: usize) requires 1 <= w <= i32::MAX ensures (((-(w as i32)) as u32) & 3) == padding(w as int) { let i = w as i32; let j = sub(0i32, i); assert(j == -i); let u = w as u32; assert((j as u32) & 3 == sub(4u32, u % 4) & 3) by(bit_vector) requires j == sub(0i32, u as i32), u <= 0x7fff_ffffu32; let t = sub(4u32, u % 4); assert(t & 3 == t % 4) by(bit_vector); }
pub proof fn lemma_strip(k: int, wn: int, rows: int) requires 0 <= k < rows, wn >= 1 ensures (k + 1) * wn == k * wn + wn, 0 <= k * wn, (k + 1) * wn <= rows * wn { assert((k + 1) * wn == k * wn + wn && 0 <= k * wn && (k + 1) * wn <= rows * wn) by(nonlinear_arith) requires 0 <= k < rows, wn >= 1; }
pub proof fn lemma_rows(l: int, wn: int, rows: int) requires l >= 0, wn >= 1, rows <= l / wn ensures rows * wn <= l { assert(rows * wn <= l) by(nonlinear_arith) requires l >= 0, wn >= 1, rows <= l / wn; }
pub proof fn lemma_keep(b1: Seq<u8>, b2: Seq<u8>, y: int, k: int, w: int, n: int, inb: Seq<u8>, row: int, pal: Seq<PaletteEntry>)
    requires b1.len() == b2.len(), 0 <= y < k, w >= 1, n == 3 || n == 4, (k + 1) * (w * n) <= b1.len(), prow(b1, y, w, n, inb, row, pal), forall|i: int| b1.len() - k * (w * n) <= i < b1.len() ==> #[trigger] b2[i] == b1[i],
    ensures prow(b2, y, w, n, inb, row, pal)
{ let wn = w * n; assert((y + 1) * wn <= k * wn && k * wn <= (k + 1) * wn && y * wn >= 0 && (y + 1) * wn == y * wn + wn && wn >= 1) by(nonlinear_arith) requires 0 <= y < k, w >= 1, n >= 3, wn == w * n; assert forall|x: int| 0 <= x < w implies #[trigger] px(b2, b2.len() - (y + 1) * wn + x * n, pal[inb[y * row + x] as int], n) by { let at = b2.len() - (y + 1) * wn + x * n; assert(px(b1, at, pal[inb[y * row + x] as int], n)); assert(x * n + n <= wn && x * n >= 0) by(nonlinear_arith) requires 0 <= x < w, wn == w * n, n >= 3; } }
pub proof fn lemma_new(b: Seq<u8>, s: Seq<u8>, k: int, w: int, n: int, inb: Seq<u8>, row: int, pal: Seq<PaletteEntry>)
    requires 0 <= k, w >= 1, n == 3 || n == 4, (k + 1) * (w * n) <= b.len(), s.len() == w * n, s == b.subrange(b.len() - (k + 1) * (w * n), b.len() - k * (w * n)), forall|x: int| 0 <= x < w ==> #[trigger] px(s, x * n, pal[inb[k * row + x] as int], n),
    ensures prow(b, k, w, n, inb, row, pal)
{ let wn = w * n; assert((k + 1) * wn == k * wn + wn && k * wn >= 0 && wn >= 1) by(nonlinear_arith) requires 0 <= k, w >= 1, n >= 3, wn == w * n; assert forall|x: int| 0 <= x < w implies #[trigger] px(b, b.len() - (k + 1) * wn + x * n, pal[inb[k * row + x] as int], n) by { assert(px(s, x * n, pal[inb[k * row + x] as int], n)); assert(x * n + n <= wn && x * n >= 0) by(nonlinear_arith) requires 0 <= x < w, wn == w * n, n >= 3; } }
impl<T: ZByteReaderTrait> BmpDecoder<T> {
pub open spec fn same(&self, o: &Self) -> bool { self.width == o.width && self.height == o.height && self.options == o.options && self.flip_vertically == o.flip_vertically && self.rgb_bitfields == o.rgb_bitfields && self.decoded_headers == o.decoded_headers && self.pix_fmt == o.pix_fmt && self.comp == o.comp && self.palette == o.palette && self.depth == o.depth && self.is_alpha == o.is_alpha && self.image_in_bgra == o.image_in_bgra && self.convert_rgba_to_bgra == o.convert_rgba_to_bgra }
//@fn crates/zune-bmp/src/decoder.rs :: BmpDecoder::expand_palette
//@sub let palette: &[PaletteEntry; 256] = &self.palette[0..256].try_into().unwrap(); => vx_range_check(0, 256, self.palette.len()); let palette: &[PaletteEntry] = &self.palette.as_slice()[0..256];
//@spec
    requires 1 <= self.width <= i32::MAX, self.palette@.len() >= 256,
    ensures final(buf)@.len() == old(buf)@.len(),
        ({ let w = self.width as int; let n = if self.is_alpha { 4 } else { 3int }; let row = w + (if unpad { padding(w) } else { 0 }); let rows = imin(imin(old(buf)@.len() as int / (w * n), self.height as int), in_bytes@.len() as int / row);
           (forall|y: int| 0 <= y < rows ==> #[trigger] prow(final(buf)@, y, w, n, in_bytes@, row, self.palette@.subrange(0, 256))) && forall|i: int| 0 <= i < old(buf)@.len() - rows * (w * n) ==> #[trigger] final(buf)@[i] == old(buf)@[i] }),
//@at begin
    let ghost b0 = buf@; let ghost w = self.width as int; let ghost h = self.height as int; let ghost pal = self.palette@.subrange(0, 256); let ghost nn: int = if self.is_alpha { 4 } else { 3 }; let ghost wn = w * nn; let ghost row = w + (if unpad { padding(w) } else { 0 });
    proof { lemma_pad(self.width); assert(wn >= 1 && wn == w * nn && w * 3 <= usize::MAX && w * 4 <= usize::MAX && wn <= usize::MAX) by(nonlinear_arith) requires wn == w * nn, nn == 3 || nn == 4, 1 <= w <= i32::MAX, usize::MAX >= 0xffff_ffff_ffff; }
    let ghost inb = in_bytes@; let ghost rows = imin(imin(b0.len() as int / wn, h), inb.len() as int / row);
    proof { lemma_rows(b0.len() as int, wn, rows); lemma_rows(inb.len() as int, row, rows); }
//@loop 0
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == self.palette@.subrange(0, 256), self.is_alpha == true, nn == 4, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, buf@.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 4, rows == imin(imin(b0.len() as int / wn, h), inb.len() as int / row), rows * wn <= b0.len(), wn >= 1, inb == in_bytes@, vx_n0_0 == wn, vx_n0_0b == row, vx_rl0_2 == b0.len(), inb.len() <= usize::MAX, rows * row <= inb.len(), vx_c0 == rows,
     forall|y: int| 0 <= y < vx_i0 ==> #[trigger] prow(buf@, y, w, 4, inb, row, pal),
    forall|i: int| 0 <= i < b0.len() - vx_i0 * wn ==> #[trigger] buf@[i] == b0[i],
//@at loop 0 begin
    let ghost b1 = buf@; let ghost k = vx_k0 as int;
    proof { lemma_strip(k, wn, rows); lemma_strip(k, row, rows); }
//@loop 1
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == self.palette@.subrange(0, 256), self.is_alpha == true, nn == 4, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, b1.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 4, rows == imin(imin(b0.len() as int / wn, h), inb.len() as int / row), rows * wn <= b0.len(), wn >= 1, inb == in_bytes@, vx_n0_0 == wn, vx_n0_0b == row, vx_rl0_2 == b0.len(), inb.len() <= usize::MAX, rows * row <= inb.len(), vx_c1 == w, out_stride@.len() == wn, 0 <= k < rows, (k + 1) * wn == k * wn + wn, (k + 1) * row == k * row + row, (k + 1) * row <= rows * row, (k + 1) * wn <= rows * wn, k * row >= 0, in_stride@ == inb.subrange(k * row, k * row + row),
     forall|x: int| 0 <= x < vx_i1 ==> #[trigger] px(out_stride@, x * 4, pal[inb[k * row + x] as int], 4),
//@at loop 1 begin
    let ghost s1 = out_stride@; let ghost e = vx_k1 as int;
    proof { assert(e * 4 + 4 <= wn) by(nonlinear_arith) requires e + 1 <= w, wn == w * 4; }
//@at loop 1 end
    proof { assert forall|x: int| 0 <= x < vx_i1 && (true) implies #[trigger] px(out_stride@, x * 4, pal[inb[k * row + x] as int], 4) by { if x < e { assert(px(s1, x * 4, pal[inb[k * row + x] as int], 4)); } else { assert(x == e); } } }
//@at loop 0 end
    proof { if true { assert forall|y: int| 0 <= y < vx_i0 implies #[trigger] prow(buf@, y, w, 4, inb, row, pal) by {
        assert(b0.len() - (k + 1) * wn >= 0);
        if y < k { assert(prow(b1, y, w, 4, inb, row, pal)); lemma_keep(b1, buf@, y, k, w, 4, inb, row, pal); } else { lemma_new(buf@, out_stride@, k, w, 4, inb, row, pal); } } } }
//@loop 2
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == self.palette@.subrange(0, 256), self.is_alpha == false, nn == 3, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, buf@.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 3, rows == imin(imin(b0.len() as int / wn, h), inb.len() as int / row), rows * wn <= b0.len(), wn >= 1, inb == in_bytes@, vx_n2_0 == wn, vx_n2_0b == row, vx_rl2_2 == b0.len(), inb.len() <= usize::MAX, rows * row <= inb.len(), vx_c2 == rows,
     forall|y: int| 0 <= y < vx_i2 ==> #[trigger] prow(buf@, y, w, 3, inb, row, pal),
    forall|i: int| 0 <= i < b0.len() - vx_i2 * wn ==> #[trigger] buf@[i] == b0[i],
//@at loop 2 begin
    let ghost b1 = buf@; let ghost k = vx_k2 as int;
    proof { lemma_strip(k, wn, rows); lemma_strip(k, row, rows); }
//@loop 3
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == self.palette@.subrange(0, 256), self.is_alpha == false, nn == 3, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, b1.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 3, rows == imin(imin(b0.len() as int / wn, h), inb.len() as int / row), rows * wn <= b0.len(), wn >= 1, inb == in_bytes@, vx_n2_0 == wn, vx_n2_0b == row, vx_rl2_2 == b0.len(), inb.len() <= usize::MAX, rows * row <= inb.len(), vx_c3 == w, out_stride@.len() == wn, 0 <= k < rows, (k + 1) * wn == k * wn + wn, (k + 1) * row == k * row + row, (k + 1) * row <= rows * row, (k + 1) * wn <= rows * wn, k * row >= 0, in_stride@ == inb.subrange(k * row, k * row + row),
     forall|x: int| 0 <= x < vx_i3 ==> #[trigger] px(out_stride@, x * 3, pal[inb[k * row + x] as int], 3),
//@at loop 3 begin
    let ghost s1 = out_stride@; let ghost e = vx_k3 as int;
    proof { assert(e * 3 + 3 <= wn) by(nonlinear_arith) requires e + 1 <= w, wn == w * 3; }
//@at loop 3 end
    proof { assert forall|x: int| 0 <= x < vx_i3 && (true) implies #[trigger] px(out_stride@, x * 3, pal[inb[k * row + x] as int], 3) by { if x < e { assert(px(s1, x * 3, pal[inb[k * row + x] as int], 3)); } else { assert(x == e); } } }
//@at loop 2 end
    proof { if true { assert forall|y: int| 0 <= y < vx_i2 implies #[trigger] prow(buf@, y, w, 3, inb, row, pal) by {
        assert(b0.len() - (k + 1) * wn >= 0);
        if y < k { assert(prow(b1, y, w, 3, inb, row, pal)); lemma_keep(b1, buf@, y, k, w, 3, inb, row, pal); } else { lemma_new(buf@, out_stride@, k, w, 3, inb, row, pal); } } } }
//@end
//@fn crates/zune-bmp/src/decoder.rs :: BmpDecoder::expand_palette_from_remaining_bytes
//@ret r
//@sub let palette: &[PaletteEntry; 256] = &self.palette[0..256].try_into().unwrap(); => vx_range_check(0, 256, self.palette.len()); let palette: &[PaletteEntry] = &self.palette.as_slice()[0..256];
//@spec
    requires old(self).bytes.wf(), 1 <= old(self).width <= i32::MAX, old(self).palette@.len() >= 256, old(self).bytes.data().len() < 0x1_0000_0000_0000,
    ensures final(self).bytes.wf(), final(self).bytes.data() == old(self).bytes.data(), final(self).same(old(self)), r.is_ok() ==> final(buf)@.len() == old(buf)@.len(),
        ({ let o = *old(self); let w = o.width as int; let n = if o.is_alpha { 4 } else { 3int }; let row = w + (if unpad { padding(w) } else { 0 }); let rows = imin(old(buf)@.len() as int / (w * n), o.height as int); let d = o.bytes.data(); let p = o.bytes.pos();
           p + rows * row <= d.len() ==> r.is_ok() && final(self).bytes.pos() == p + rows * row && (forall|y: int| 0 <= y < rows ==> #[trigger] prow(final(buf)@, y, w, n, d.subrange(p, d.len() as int), row, o.palette@.subrange(0, 256))) && forall|i: int| 0 <= i < old(buf)@.len() - rows * (w * n) ==> #[trigger] final(buf)@[i] == old(buf)@[i] }),
//@at begin
    let ghost b0 = buf@; let ghost w = self.width as int; let ghost h = self.height as int; let ghost pal = self.palette@.subrange(0, 256); let ghost nn: int = if self.is_alpha { 4 } else { 3 }; let ghost wn = w * nn; let ghost row = w + (if unpad { padding(w) } else { 0 });
    proof { lemma_pad(self.width); assert(wn >= 1 && wn == w * nn && w * 3 <= usize::MAX && w * 4 <= usize::MAX && wn <= usize::MAX) by(nonlinear_arith) requires wn == w * nn, nn == 3 || nn == 4, 1 <= w <= i32::MAX, usize::MAX >= 0xffff_ffff_ffff; }
    let ghost d = self.bytes.data(); let ghost p0 = self.bytes.pos(); let ghost inb = d.subrange(p0, d.len() as int); let ghost rows = imin(b0.len() as int / wn, h); let ghost all = p0 + rows * row <= d.len();
    proof { lemma_rows(b0.len() as int, wn, rows); }
//@loop 0
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == old(self).palette@.subrange(0, 256), self.is_alpha == true, nn == 4, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, buf@.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 4, rows == imin(b0.len() as int / wn, h), rows * wn <= b0.len(), wn >= 1, self.bytes.wf(), self.bytes.data() == d, d.len() < 0x1_0000_0000_0000, d == old(self).bytes.data(), self.same(old(self)), vx_n0_0 == wn, vx_rl0_2 == b0.len(), all == (p0 + rows * row <= d.len()), p0 == old(self).bytes.pos(), p0 >= 0, inb == d.subrange(p0, d.len() as int), vx_c0 == rows,
    all ==> self.bytes.pos() == p0 + vx_i0 * row && forall|y: int| 0 <= y < vx_i0 ==> #[trigger] prow(buf@, y, w, 4, inb, row, pal),
    forall|i: int| 0 <= i < b0.len() - vx_i0 * wn ==> #[trigger] buf@[i] == b0[i],
//@at loop 0 begin
    let ghost b1 = buf@; let ghost k = vx_k0 as int;
    proof { lemma_strip(k, wn, rows); lemma_strip(k, row, rows); }
//@loop 1
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == old(self).palette@.subrange(0, 256), self.is_alpha == true, nn == 4, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, b1.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 4, rows == imin(b0.len() as int / wn, h), rows * wn <= b0.len(), wn >= 1, self.bytes.wf(), self.bytes.data() == d, d.len() < 0x1_0000_0000_0000, d == old(self).bytes.data(), self.same(old(self)), vx_n0_0 == wn, vx_rl0_2 == b0.len(), all == (p0 + rows * row <= d.len()), p0 == old(self).bytes.pos(), p0 >= 0, inb == d.subrange(p0, d.len() as int), vx_c1 == w, out_stride@.len() == wn, 0 <= k < rows, (k + 1) * wn == k * wn + wn, (k + 1) * row == k * row + row, (k + 1) * row <= rows * row, (k + 1) * wn <= rows * wn, k * row >= 0, 
    all ==> self.bytes.pos() == p0 + k * row + vx_i1 && forall|x: int| 0 <= x < vx_i1 ==> #[trigger] px(out_stride@, x * 4, pal[inb[k * row + x] as int], 4),
//@at loop 1 begin
    let ghost s1 = out_stride@; let ghost e = vx_k1 as int;
    proof { assert(e * 4 + 4 <= wn) by(nonlinear_arith) requires e + 1 <= w, wn == w * 4; }
//@at loop 1 end
    proof { assert forall|x: int| 0 <= x < vx_i1 && (all) implies #[trigger] px(out_stride@, x * 4, pal[inb[k * row + x] as int], 4) by { if x < e { assert(px(s1, x * 4, pal[inb[k * row + x] as int], 4)); } else { assert(x == e); } } }
//@at after loop 1
    proof { lemma_strip(k, row, rows); assert(out_stride@.len() == wn); assert(all ==> self.bytes.pos() == p0 + k * row + w); assert(all ==> self.bytes.pos() + pad <= usize::MAX); }
//@at loop 0 end
    proof { if all { assert forall|y: int| 0 <= y < vx_i0 implies #[trigger] prow(buf@, y, w, 4, inb, row, pal) by {
        assert(b0.len() - (k + 1) * wn >= 0);
        if y < k { assert(prow(b1, y, w, 4, inb, row, pal)); lemma_keep(b1, buf@, y, k, w, 4, inb, row, pal); } else { lemma_new(buf@, out_stride@, k, w, 4, inb, row, pal); } } } }
//@loop 2
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == old(self).palette@.subrange(0, 256), self.is_alpha == false, nn == 3, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, buf@.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 3, rows == imin(b0.len() as int / wn, h), rows * wn <= b0.len(), wn >= 1, self.bytes.wf(), self.bytes.data() == d, d.len() < 0x1_0000_0000_0000, d == old(self).bytes.data(), self.same(old(self)), vx_n2_0 == wn, vx_rl2_2 == b0.len(), all == (p0 + rows * row <= d.len()), p0 == old(self).bytes.pos(), p0 >= 0, inb == d.subrange(p0, d.len() as int), vx_c2 == rows,
    all ==> self.bytes.pos() == p0 + vx_i2 * row && forall|y: int| 0 <= y < vx_i2 ==> #[trigger] prow(buf@, y, w, 3, inb, row, pal),
    forall|i: int| 0 <= i < b0.len() - vx_i2 * wn ==> #[trigger] buf@[i] == b0[i],
//@at loop 2 begin
    let ghost b1 = buf@; let ghost k = vx_k2 as int;
    proof { lemma_strip(k, wn, rows); lemma_strip(k, row, rows); }
//@loop 3
    b0 == old(buf)@, w == self.width, 1 <= w <= i32::MAX, h == self.height, pal.len() == 256, palette@ == pal, pal == old(self).palette@.subrange(0, 256), self.is_alpha == false, nn == 3, pad == (if unpad { padding(w) } else { 0 }), 0 <= pad <= 3, w * nn <= usize::MAX, b1.len() == b0.len(), b0.len() <= usize::MAX, row == w + pad, wn == w * 3, rows == imin(b0.len() as int / wn, h), rows * wn <= b0.len(), wn >= 1, self.bytes.wf(), self.bytes.data() == d, d.len() < 0x1_0000_0000_0000, d == old(self).bytes.data(), self.same(old(self)), vx_n2_0 == wn, vx_rl2_2 == b0.len(), all == (p0 + rows * row <= d.len()), p0 == old(self).bytes.pos(), p0 >= 0, inb == d.subrange(p0, d.len() as int), vx_c3 == w, out_stride@.len() == wn, 0 <= k < rows, (k + 1) * wn == k * wn + wn, (k + 1) * row == k * row + row, (k + 1) * row <= rows * row, (k + 1) * wn <= rows * wn, k * row >= 0, 
    all ==> self.bytes.pos() == p0 + k * row + vx_i3 && forall|x: int| 0 <= x < vx_i3 ==> #[trigger] px(out_stride@, x * 3, pal[inb[k * row + x] as int], 3),
//@at loop 3 begin
    let ghost s1 = out_stride@; let ghost e = vx_k3 as int;
    proof { assert(e * 3 + 3 <= wn) by(nonlinear_arith) requires e + 1 <= w, wn == w * 3; }
//@at loop 3 end
    proof { assert forall|x: int| 0 <= x < vx_i3 && (all) implies #[trigger] px(out_stride@, x * 3, pal[inb[k * row + x] as int], 3) by { if x < e { assert(px(s1, x * 3, pal[inb[k * row + x] as int], 3)); } else { assert(x == e); } } }
//@at after loop 3
    proof { lemma_strip(k, row, rows); assert(out_stride@.len() == wn); assert(all ==> self.bytes.pos() == p0 + k * row + w); assert(all ==> self.bytes.pos() + pad <= usize::MAX); }
//@at loop 2 end
    proof { if all { assert forall|y: int| 0 <= y < vx_i2 implies #[trigger] prow(buf@, y, w, 3, inb, row, pal) by {
        assert(b0.len() - (k + 1) * wn >= 0);
        if y < k { assert(prow(b1, y, w, 3, inb, row, pal)); lemma_keep(b1, buf@, y, k, w, 3, inb, row, pal); } else { lemma_new(buf@, out_stride@, k, w, 3, inb, row, pal); } } } }
//@end
}
//@include prelude_end.inc
