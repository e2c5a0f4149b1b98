//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
// ===== C21: BMP =====
//@type crates/zune-bmp/src/common.rs :: BmpCompression
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-bmp/src/common.rs :: BmpPixelFormat
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-bmp/src/decoder.rs :: PaletteEntry
//@attrs #[derive(Copy, Clone, PartialEq, Eq)]
//@end
pub struct ColorPrimaries { pub p: u8 } //TRUST: ColorPrimaries (colour metadata) is opaque
//@type crates/zune-bmp/src/decoder.rs :: BmpDecoder
//@end
#[derive(Debug)]
pub enum BmpDecoderErrors { InvalidMagicBytes, TooSmallBuffer(usize, usize), GenericStatic(&'static str), Generic(String), TooLargeDimensions(&'static str, usize, usize), OverFlowOccurred, IoErrors(ZByteIoError) } //TRUST: BmpDecoderErrors re-declared; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for BmpDecoderErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> BmpDecoderErrors { BmpDecoderErrors::IoErrors(v) } }
impl From<ZByteIoError> for BmpDecoderErrors { fn from(value: ZByteIoError) -> BmpDecoderErrors { BmpDecoderErrors::IoErrors(value) } }
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T) //TRUST: slice::fill is assumed to set every element
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);
// ---- run lengths ----
#[verifier::opaque]
pub open spec fn paint(px: Seq<u8>, at: int, v: Seq<u8>) -> Seq<u8> { Seq::new(px.len(), |i: int| if at <= i < at + v.len() { v[i - at] } else { px[i] }) }
/// `n` pixels of 8 (or, for `four`, of 4) bits at `p`, high half first
#[verifier::opaque]
pub open spec fn lits(four: bool, d: Seq<u8>, p: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| if !four { d[p + i] } else if i % 2 == 0 { d[p + i / 2] >> 4 } else { d[p + i / 2] & 0x0F }) }
#[verifier::opaque]
pub open spec fn reps(four: bool, b: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| if !four { b } else if i % 2 == 0 { b >> 4 } else { b & 0x0F }) }
/// what the codes from `p` on paint over `px`, from column `x` of row `y` on (rows counted from the top); None if a code leaves the image or the codes do not end
#[verifier::opaque]
pub open spec fn rle(four: bool, d: Seq<u8>, p: int, px: Seq<u8>, w: int, y: int, x: int) -> Option<Seq<u8>> decreases d.len() - p {
    if p < 0 || p + 2 > d.len() { None } else { let (a, b) = (d[p] as int, d[p + 1] as int);
        if a == 0 {
            if b == 0 { if y == 0 { if p + 4 <= d.len() && d[p + 2] == 0 && d[p + 3] == 1 { Some(px) } else { None } } else { rle(four, d, p + 2, px, w, y - 1, 0) } }
            else if b == 1 { Some(px) }
            else if b == 2 { if p + 4 <= d.len() && x + d[p + 2] <= w && y >= d[p + 3] { rle(four, d, p + 4, px, w, y - d[p + 3], x + d[p + 2]) } else { None } }
            else { let nb = if four { (b + 1) / 2 } else { b }; if x + b <= w && p + 2 + nb + nb % 2 <= d.len() { rle(four, d, p + 2 + nb + nb % 2, paint(px, y * w + x, lits(four, d, p + 2, b)), w, y, x + b) } else { None } }
        } else if x + a <= w { rle(four, d, p + 2, paint(px, y * w + x, reps(four, d[p + 1], a)), w, y, x + a) } else { None } }
}
pub proof fn lemma_step(four: bool, d: Seq<u8>, p: int, px: Seq<u8>, w: int, y: int, x: int) ensures rle(four, d, p, px, w, y, x) == (if p < 0 || p + 2 > d.len() { None } else { let (a, b) = (d[p] as int, d[p + 1] as int);
        if a == 0 {
            if b == 0 { if y == 0 { if p + 4 <= d.len() && d[p + 2] == 0 && d[p + 3] == 1 { Some(px) } else { None } } else { rle(four, d, p + 2, px, w, y - 1, 0) } }
            else if b == 1 { Some(px) }
            else if b == 2 { if p + 4 <= d.len() && x + d[p + 2] <= w && y >= d[p + 3] { rle(four, d, p + 4, px, w, y - d[p + 3], x + d[p + 2]) } else { None } }
            else { let nb = if four { (b + 1) / 2 } else { b }; if x + b <= w && p + 2 + nb + nb % 2 <= d.len() { rle(four, d, p + 2 + nb + nb % 2, paint(px, y * w + x, lits(four, d, p + 2, b)), w, y, x + b) } else { None } }
        } else if x + a <= w { rle(four, d, p + 2, paint(px, y * w + x, reps(four, d[p + 1], a)), w, y, x + a) } else { None } }) { reveal_with_fuel(rle, 2); }
pub proof fn lemma_paint_len(px: Seq<u8>, at: int, v: Seq<u8>) ensures #[trigger] paint(px, at, v).len() == px.len() { reveal(paint); }
pub proof fn lemma_paint0(px: Seq<u8>, at: int, d: Seq<u8>, p: int, b: u8) ensures forall|four: bool| paint(px, at, #[trigger] lits(four, d, p, 0)) == px, forall|four: bool| paint(px, at, #[trigger] reps(four, b, 0)) == px
{ reveal(paint); reveal(lits); reveal(reps); assert forall|four: bool| paint(px, at, #[trigger] lits(four, d, p, 0)) == px by { assert(paint(px, at, lits(four, d, p, 0)) =~= px); } assert forall|four: bool| paint(px, at, #[trigger] reps(four, b, 0)) == px by { assert(paint(px, at, reps(four, b, 0)) =~= px); } }
pub proof fn lemma_lit(px: Seq<u8>, at: int, d: Seq<u8>, p: int, k: int) requires 0 <= at, 0 <= k, at + k < px.len()
    ensures paint(px, at, lits(true, d, p, k + 1)) == paint(px, at, lits(true, d, p, k)).update(at + k, if k % 2 == 0 { d[p + k / 2] >> 4 } else { d[p + k / 2] & 0x0F })
{ reveal(paint); reveal(lits); assert(paint(px, at, lits(true, d, p, k + 1)) =~= paint(px, at, lits(true, d, p, k)).update(at + k, if k % 2 == 0 { d[p + k / 2] >> 4 } else { d[p + k / 2] & 0x0F })); }
pub proof fn lemma_rep(px: Seq<u8>, at: int, b: u8, k: int) requires 0 <= at, 0 <= k, at + k < px.len()
    ensures paint(px, at, reps(true, b, k + 1)) == paint(px, at, reps(true, b, k)).update(at + k, if k % 2 == 0 { b >> 4 } else { b & 0x0F })
{ reveal(paint); reveal(reps); assert(paint(px, at, reps(true, b, k + 1)) =~= paint(px, at, reps(true, b, k)).update(at + k, if k % 2 == 0 { b >> 4 } else { b & 0x0F })); }
pub proof fn lemma_block(q: Seq<u8>, px: Seq<u8>, at: int, d: Seq<u8>, p: int, n: int) requires q.len() == px.len(), 0 <= n, forall|i: int| 0 <= i < px.len() ==> #[trigger] q[i] == (if at <= i < at + n { d[p + (i - at)] } else { px[i] }) ensures q == paint(px, at, lits(false, d, p, n)) { reveal(paint); reveal(lits); assert(q =~= paint(px, at, lits(false, d, p, n))); }
pub proof fn lemma_fill(q: Seq<u8>, px: Seq<u8>, at: int, b: u8, n: int) requires q.len() == px.len(), 0 <= n, forall|i: int| 0 <= i < px.len() ==> #[trigger] q[i] == (if at <= i < at + n { b } else { px[i] }) ensures q == paint(px, at, reps(false, b, n)) { reveal(paint); reveal(reps); assert(q =~= paint(px, at, reps(false, b, n))); }
pub fn vx_read_into<T: ZByteReaderTrait>(b: &mut ZReader<T>, px: &mut Vec<u8>, lo: usize, hi: usize) -> (r: Result<(), ZByteIoError>)
    requires old(b).wf(), old(b).data().len() < 0x1_0000_0000_0000, lo < hi <= old(px)@.len(),
    ensures final(b).wf(), final(b).data() == old(b).data(), old(b).pos() <= final(b).pos(), final(px)@.len() == old(px)@.len(),
        r.is_ok() <==> old(b).pos() + (hi - lo) <= old(b).data().len(), r.is_ok() ==> final(b).pos() == old(b).pos() + (hi - lo) && final(px)@ == paint(old(px)@, lo as int, lits(false, old(b).data(), old(b).pos(), hi - lo)),
{ let ghost o = px@; b.read_exact_bytes(&mut px.as_mut_slice()[lo..hi])?; proof { lemma_block(px@, o, lo as int, old(b).data(), old(b).pos(), hi - lo); } Ok(()) }
pub fn vx_fill_range(px: &mut Vec<u8>, lo: usize, hi: usize, v: u8) requires lo <= hi <= old(px)@.len(), ensures final(px)@.len() == old(px)@.len(), final(px)@ == paint(old(px)@, lo as int, reps(false, v, hi - lo))
{ let ghost o = px@; px.as_mut_slice()[lo..hi].fill(v); proof { lemma_fill(px@, o, lo as int, v, hi - lo); } }
pub fn vx_ix(b: usize, pos: usize, l: usize) -> (r: usize) requires pos < l, b + l <= usize::MAX ensures r == b + pos { b + pos }
pub fn vx_shr3(x: u16) -> (r: usize) ensures x == 8 ==> r == 1 { let r = (x >> 3) as usize; proof { assert(x == 8 ==> x >> 3u32 == 1) by(bit_vector); assert(x == 8 ==> x >> 3i32 == 1) by(bit_vector); } r }
pub fn vx_mul3(a: usize, b: usize, c: usize) -> (r: Option<usize>) ensures r is Some ==> r.unwrap() == (a * b) * c, (a * b) * c <= usize::MAX && c > 0 ==> r is Some
{ match a.checked_mul(b) { Some(v) => v.checked_mul(c), None => { proof { assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; if c > 0 { assert((a * b) * c >= a * b) by(nonlinear_arith) requires a * b >= 0, c > 0; } } None } } }
pub proof fn lemma_one() ensures forall|a: u8, b: u8| be16(#[trigger] seq![a, b]) == 1 <==> a == 0 && b == 1, forall|s: Seq<u8>| s.len() == 2 ==> (#[trigger] be16(s) == 1 <==> s[0] == 0 && s[1] == 1)
{ assert forall|s: Seq<u8>| s.len() == 2 implies (#[trigger] be16(s) == 1 <==> s[0] == 0 && s[1] == 1) by { let a = s[0]; let b = s[1]; assert((((a as u16) << 8) | (b as u16)) == 1 <==> a == 0 && b == 1) by(bit_vector); } }
pub proof fn lemma_row(y: int, w: int, h: int) requires 0 <= y < h, w >= 1 ensures 0 <= y * w, y * w + w <= h * w, (y + 1) * w == y * w + w { assert(0 <= y * w && y * w + w <= h * w && (y + 1) * w == y * w + w) by(nonlinear_arith) requires 0 <= y < h, w >= 1; }
pub proof fn lemma_shr3(x: usize) ensures x >> 3 == x / 8 { assert(x >> 3 == x / 8) by(bit_vector); }
pub proof fn lemma_bits(x: u16, y: u8) ensures x & 0x01 == x % 2, y & 1 == y % 2, forall|z: u16| z == 8 ==> #[trigger] (z >> 3) == 1 { assert(x & 0x01 == x % 2) by(bit_vector); assert(y & 1 == y % 2) by(bit_vector); assert forall|z: u16| z == 8 implies #[trigger] (z >> 3) == 1 by { assert(z >> 3 == 1) by(bit_vector) requires z == 8; } }
/// an `n` bit value scaled to 8 bits: the smallest and the largest value map to 0 and 255, the others are off by less than one
pub open spec fn scaled(r: int, v: int, n: int) -> bool { let m = (vstd::arithmetic::power2::pow2(n as nat) as int) - 1; m > 0 && -m < r * m - v * 255 < m && (v == 0 ==> r == 0) && (v == m ==> r == 255) }
impl<T: ZByteReaderTrait> BmpDecoder<T> {
pub open spec fn same(&self, o: &Self) -> bool { self.width == o.width && self.height == o.height && self.options == o.options && self.flip_vertically == o.flip_vertically && self.rgb_bitfields == o.rgb_bitfields && self.decoded_headers == o.decoded_headers && self.pix_fmt == o.pix_fmt && self.comp == o.comp && self.palette == o.palette && self.depth == o.depth && self.is_alpha == o.is_alpha && self.image_in_bgra == o.image_in_bgra && self.convert_rgba_to_bgra == o.convert_rgba_to_bgra }
//@fn crates/zune-bmp/src/decoder.rs :: BmpDecoder::decode_rle
//@ret r
//@sub self.width.checked_mul(self.height).and_then(|v| v.checked_mul(((depth) as usize))) => vx_mul3(self.width, self.height, depth as usize)
//@sub let mut output = &mut pixels[(line as usize) * self.width..]; => let mut vx_b: usize = (line as usize) * self.width; let mut vx_l: usize = pixels.len() - vx_b; let mut vx_none: [u8; 4] = [0; 4]; let output: &mut [u8] = &mut vx_none;
//@sub output = &mut pixels[line as usize * self.width..(line + 1) as usize * self.width]; => vx_b = line as usize * self.width; vx_l = (line + 1) as usize * self.width - vx_b; vx_range_check(vx_b, vx_b + vx_l, pixels.len());
//@sub output[pos] = => pixels[vx_ix(vx_b, pos, vx_l)] =
//@sub let vx_r1hi: usize = rle_code; => let vx_r1hi: usize = rle_code as usize;
//@sub let vx_r2hi: usize = rle_code; => let vx_r2hi: usize = rle_code as usize;
//@sub if i + 1 == rle_code && => if i + 1 == rle_code as usize &&
//@sub ((self.depth >> 3) as usize) => vx_shr3(self.depth)
//@sub > output.len() { => > vx_l {
//@sub self.bytes.read_exact_bytes(&mut output[pos..pos + size])?; => { vx_range_check(pos, pos + size, vx_l); vx_read_into(&mut self.bytes, &mut pixels, vx_b + pos, vx_b + pos + size)?; }
//@sub output[pos..pos + ((p1) as usize)].fill(pix[0]); => { vx_range_check(pos, pos + p1 as usize, vx_l); vx_fill_range(&mut pixels, vx_b + pos, vx_b + pos + p1 as usize, pix[0]); }
//@spec
    requires old(self).bytes.wf(), old(self).bytes.data().len() < 0x1_0000_0000_0000, 1 <= old(self).width <= i32::MAX, 1 <= old(self).height <= i32::MAX, old(self).depth == 8, (old(self).width * old(self).height) * 8 + 8 <= usize::MAX,
    ensures final(self).bytes.wf(), final(self).bytes.data() == old(self).bytes.data(), final(self).same(old(self)),
        r.is_ok() ==> r.unwrap()@.len() == old(self).width * old(self).height,
        ({ let (w, h) = (old(self).width as int, old(self).height as int); let g = rle(old(self).depth == 4, old(self).bytes.data(), old(self).bytes.pos(), vx_zeros((w * h) as nat), w, h - 1, 0); g is Some ==> r.is_ok() && r.unwrap()@ == g.unwrap() }),
//@at begin
    let ghost d = self.bytes.data(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost four = self.depth == 4; let ghost g = rle(four, d, self.bytes.pos(), vx_zeros((w * h) as nat), w, h - 1, 0);
    let ghost mut pp: int = 0; let ghost mut px0: Seq<u8> = Seq::empty(); let ghost mut x0: int = 0; let ghost mut n0: int = 0;
    proof { assert(w * h >= 0) by(nonlinear_arith) requires w >= 1, h >= 1; lemma_shr3(((w * h) * 8 + 7) as usize); lemma_row(h - 1, w, h); assert(h * w == w * h) by(nonlinear_arith); assert(((w * h) * 8 + 7) / 8 == w * h) by(nonlinear_arith) requires w * h >= 0; }
//@at after let pixels
    proof { assert(pixels@ =~= vx_zeros((w * h) as nat)); }
//@loop 0
    invariant false,
    decreases 0int,
//@loop 1
    false,
//@at after assign line 3
    proof { lemma_one(); }
//@at after assign line 4
    proof { if line >= 0 { lemma_row(line as int, w, h); } }
//@at after assign pos 8
    proof { if x0 + p2 <= w && pp + 2 + p2 + p2 % 2 <= d.len() { assert(pixels@ == paint(px0, line * w + x0, lits(false, d, pp + 2, p2 as int))); } lemma_bits(0, p2); }
//@at after assign p2
    proof { let z = self.depth; assert(z >> 3u16 == 1) by(bit_vector) requires z == 8; assert(self.depth >> 3 == 1); }
//@at after let pix
    proof { lemma_shr3((p1 as int * 8) as usize); }
//@at after assign pos 11
    proof { if x0 + p1 <= w && pp + 2 <= d.len() { assert(pixels@ == paint(px0, line * w + x0, reps(false, d[pp + 1], p1 as int))); } }
//@loop 2
    false,
//@loop 3
    invariant d == old(self).bytes.data(), self.bytes.data() == d, self.bytes.wf(), self.same(old(self)), d.len() < 0x1_0000_0000_0000, w == self.width, h == self.height, 1 <= w, 1 <= h <= i32::MAX, w <= i32::MAX, pixels@.len() == w * h, w * h + 8 <= usize::MAX, four == (old(self).depth == 4), g == rle(four, d, old(self).bytes.pos(), vx_zeros((w * h) as nat), w, h - 1, 0), self.depth == 8, !four, -1 < line < h, vx_b == line * w, vx_l == w, h * w == w * h, pos <= w || g is None, pos <= w + 256 * (if d.len() > self.bytes.pos() { self.bytes.pos() } else { d.len() as int }), g is Some ==> rle(false, d, self.bytes.pos(), pixels@, w, line as int, pos as int) == g,
    ensures g is Some ==> rle(false, d, self.bytes.pos(), pixels@, w, line as int, pos as int) == g, self.bytes.pos() >= d.len(),
    decreases (if d.len() > self.bytes.pos() { d.len() - self.bytes.pos() } else { 0 }),
//@at loop 3 begin
    proof { pp = self.bytes.pos(); px0 = pixels@; x0 = pos as int; lemma_step(four, d, pp, px0, w, line as int, x0); lemma_row(line as int, w, h); if line > 0 { lemma_row(line - 1, w, h); } lemma_bits(0, 0); let z = self.depth; assert(z >> 3 == 1) by(bit_vector) requires z == 8; }
//@at after loop 3
    proof { lemma_step(false, d, self.bytes.pos(), pixels@, w, line as int, pos as int); }
//@loop 4
    false,
//@loop 5
    false,
//@loop 6
    false,
//@loop 7
    false,
//@loop 8
    false,
//@end
}
//@include prelude_end.inc
