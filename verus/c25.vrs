//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
//@include slices.inc
// ===== C25: Radiance HDR scanlines =====
//@type crates/zune-hdr/src/decoder.rs :: HdrDecoder
//@sub BTreeMap<String, String> => ()
//@end
pub enum HdrDecodeErrors { Generic(&'static str), TooSmallOutputArray(usize, usize), IoErrors(ZByteIoError) } //TRUST: HdrDecodeErrors re-declared without its parse error variants; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for HdrDecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> HdrDecodeErrors { HdrDecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for HdrDecodeErrors { fn from(value: ZByteIoError) -> HdrDecodeErrors { HdrDecodeErrors::IoErrors(value) } }
// ---- the format ----
/// `n` bytes of one component, run length coded at `p`: the bytes and where the codes end
pub open spec fn comp_runs(d: Seq<u8>, p: int, n: int) -> Option<(Seq<u8>, int)> decreases d.len() - p {
    if n <= 0 { Some((Seq::empty(), p)) } else if p < 0 || p >= d.len() { None } else {
        let c = d[p] as int;
        if c > 128 { if p + 1 >= d.len() || c - 128 > n { None } else { after(Seq::new((c - 128) as nat, |i: int| d[p + 1]), comp_runs(d, p + 2, n - (c - 128))) } }
        else { if c > n || p + 1 + c > d.len() { None } else { after(d.subrange(p + 1, p + 1 + c), comp_runs(d, p + 1 + c, n - c)) } } }
}
/// `a` followed by what comes next, if anything valid does
pub open spec fn after(a: Seq<u8>, r: Option<(Seq<u8>, int)>) -> Option<(Seq<u8>, int)> { match r { Some((b, q)) => Some((a + b, q)), None => None } }
pub open spec fn is_marker(px: Seq<u8>) -> bool { px[0] == 1 && px[1] == 1 && px[2] == 1 }
pub open spec fn rep(px: Seq<u8>, n: int) -> Seq<u8> { Seq::new((4 * n) as nat, |i: int| px[i % 4]) }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// `w` pixels, flat or with old style runs that repeat the pixel `prev` before them
pub open spec fn old_row(d: Seq<u8>, p: int, w: int, prev: Seq<u8>, shift: u32) -> Option<(Seq<u8>, int)> decreases d.len() - p {
    if w <= 0 { Some((Seq::empty(), p)) } else if p < 0 || p + 4 > d.len() { None } else {
        let px = d.subrange(p, p + 4);
        if is_marker(px) {
            let n = imin(((px[3] as i32) << shift) as int, w);
            if prev.len() != 4 || (shift + 8 > 16 && w - n > 0) { None } else { after(rep(prev, n), old_row(d, p + 4, w - n, prev, (shift + 8) as u32)) }
        } else { after(px, old_row(d, p + 4, w - 1, px, 0)) } }
}
/// `k` components one after the other
pub open spec fn comps(d: Seq<u8>, p: int, w: int, k: int) -> Option<(Seq<Seq<u8>>, int)> decreases k {
    if k <= 0 { Some((Seq::empty(), p)) } else { match comp_runs(d, p, w) { None => None, Some((a, q)) => afterc(seq![a], comps(d, q, w, k - 1)) } }
}
pub open spec fn afterc(a: Seq<Seq<u8>>, r: Option<(Seq<Seq<u8>>, int)>) -> Option<(Seq<Seq<u8>>, int)> { match r { Some((b, q)) => Some((a + b, q)), None => None } }
/// the four components interleaved to pixels
pub open spec fn new_row(d: Seq<u8>, p: int, w: int) -> Option<(Seq<u8>, int)> { match comps(d, p, w, 4) { None => None, Some((c, q)) => Some((weave(c, w), q)) } }
pub open spec fn weave(c: Seq<Seq<u8>>, w: int) -> Seq<u8> { Seq::new((4 * w) as nat, |i: int| c[i % 4][i / 4]) }
pub proof fn lemma_afterc(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, r: Option<(Seq<Seq<u8>>, int)>) ensures afterc(a, afterc(b, r)) == afterc(a + b, r) { match r { Some((c, q)) => { assert(a + (b + c) =~= (a + b) + c); } None => {} } }
pub proof fn lemma_shown(f0: Seq<f32>, f1: Seq<f32>, d0: Seq<u8>, b: Seq<u8>, n: int, w: int)
    requires shown(f0, d0, n), d0.len() == 4 * n, b.len() == 4 * w, n >= 0, w >= 0, forall|k: int| 0 <= k < 3 * n ==> f1[k] == f0[k], forall|k: int| 0 <= k < 3 * w ==> #[trigger] f1[3 * n + k] == rgbe_val(b[4 * (k / 3) + k % 3], b[4 * (k / 3) + 3]),
    ensures shown(f1, d0 + b, n + w),
{
    assert forall|k: int| 0 <= k < 3 * (n + w) implies #[trigger] f1[k] == rgbe_val((d0 + b)[4 * (k / 3) + k % 3], (d0 + b)[4 * (k / 3) + 3]) by {
        if k < 3 * n { assert(f1[k] == f0[k]); } else { let j = k - 3 * n; assert(f1[3 * n + j] == rgbe_val(b[4 * (j / 3) + j % 3], b[4 * (j / 3) + 3])); assert(k / 3 == n + j / 3 && k % 3 == j % 3); } }
}
/// component `c` of the pixels in `s` starts with `a`
pub open spec fn placed(s: Seq<u8>, c: int, a: Seq<u8>) -> bool { forall|x: int| 0 <= x < a.len() ==> #[trigger] a[x] == s[4 * x + c] }
pub open spec fn all_placed(s: Seq<u8>, cl: Seq<Seq<u8>>, w: int, n: int) -> bool { forall|c: int| 0 <= c < n ==> (#[trigger] cl[c]).len() == w && placed(s, c, cl[c]) }
pub proof fn lemma_put(s: Seq<u8>, cl: Seq<Seq<u8>>, w: int, k: int, a: Seq<u8>, v: u8)
    requires all_placed(s, cl, w, k), placed(s, k, a), 0 <= k < 4, a.len() < w, s.len() == 4 * w,
    ensures all_placed(s.update(4 * a.len() + k, v), cl, w, k), placed(s.update(4 * a.len() + k, v), k, a.push(v)),
{
    let t = s.update(4 * a.len() + k, v);
    assert forall|c: int| 0 <= c < k implies (#[trigger] cl[c]).len() == w && placed(t, c, cl[c]) by { assert(placed(s, c, cl[c])); assert forall|x: int| 0 <= x < w implies #[trigger] cl[c][x] == t[4 * x + c] by { assert(4 * x + c != 4 * a.len() + k); assert(cl[c][x] == s[4 * x + c]); } }
    assert forall|x: int| 0 <= x < a.len() + 1 implies #[trigger] a.push(v)[x] == t[4 * x + k] by { if x < a.len() { assert(a[x] == s[4 * x + k]); } }
}
pub open spec fn a_row(d: Seq<u8>, p: int, w: int) -> Option<(Seq<u8>, int)> {
    if w < 8 || w > 0x7fff || p >= d.len() || d[p] != 2 || (p + 4 <= d.len() && (d[p + 1] != 2 || d[p + 2] >= 128)) { old_row(d, p, w, Seq::empty(), 0) }
    else if p + 4 > d.len() || d[p + 2] * 256 + d[p + 3] != w { None } else { new_row(d, p + 4, w) }
}
pub open spec fn rows(d: Seq<u8>, p: int, w: int, h: int) -> Option<(Seq<u8>, int)> decreases h {
    if h <= 0 { Some((Seq::empty(), p)) } else { match a_row(d, p, w) { None => None, Some((b, q)) => after(b, rows(d, q, w, h - 1)) } }
}
/// mantissa times power of two
pub uninterp spec fn ldexp_spec(m: u8, e: i32) -> f32; //TRUST: ldexp computes val * 2^exp (float bit patterns are outside the verifier); its 65280 argument pairs are enumerated by the bounded part
pub open spec fn rgbe_val(m: u8, e: u8) -> f32 { if e == 0 { 0.0f32 } else { ldexp_spec(m, (e - 136) as i32) } }
pub proof fn lemma_after(a: Seq<u8>, b: Seq<u8>, r: Option<(Seq<u8>, int)>) ensures after(a, after(b, r)) == after(a + b, r) { match r { Some((c, q)) => { assert(a + (b + c) =~= (a + b) + c); } None => {} } }
pub proof fn lemma_comp_len(d: Seq<u8>, p: int, n: int) ensures comp_runs(d, p, n).is_some() && n >= 0 ==> comp_runs(d, p, n).unwrap().0.len() == n && p <= comp_runs(d, p, n).unwrap().1 <= imax(p, d.len() as int) decreases d.len() - p
{ if n > 0 && 0 <= p < d.len() { let c = d[p] as int; if c > 128 { if p + 1 < d.len() && c - 128 <= n { lemma_comp_len(d, p + 2, n - (c - 128)); } } else if c <= n && p + 1 + c <= d.len() { lemma_comp_len(d, p + 1 + c, n - c); } } }
pub proof fn lemma_old_len(d: Seq<u8>, p: int, w: int, prev: Seq<u8>, shift: u32) requires 0 <= shift <= 16 ensures old_row(d, p, w, prev, shift).is_some() && w >= 0 ==> old_row(d, p, w, prev, shift).unwrap().0.len() == 4 * w && p <= old_row(d, p, w, prev, shift).unwrap().1 <= imax(p, d.len() as int) decreases d.len() - p
{ if w > 0 && 0 <= p && p + 4 <= d.len() { let px = d.subrange(p, p + 4); let v = px[3] as i32;
    assert(v <= 255 && 0 <= shift <= 16 && v >= 0 ==> 0 <= (v << shift) && (v << shift) <= 0xff0000) by(bit_vector);
    let n = imin((v << shift) as int, w); if is_marker(px) { if shift > 8 && w - n <= 0 { assert(old_row(d, p + 4, w - n, prev, (shift + 8) as u32) == Some((Seq::<u8>::empty(), p + 4))); assert(n == w); } if shift <= 8 { lemma_old_len(d, p + 4, w - n, prev, (shift + 8) as u32); } } else { lemma_old_len(d, p + 4, w - 1, px, 0); } } }
pub proof fn lemma_comps_len(d: Seq<u8>, p: int, w: int, k: int) ensures comps(d, p, w, k).is_some() && w >= 0 ==> p <= comps(d, p, w, k).unwrap().1 <= imax(p, d.len() as int) decreases k
{ if k > 0 { lemma_comp_len(d, p, w); match comp_runs(d, p, w) { Some((a, q)) => { lemma_comps_len(d, q, w, k - 1); } None => {} } } }
pub proof fn lemma_row_len(d: Seq<u8>, p: int, w: int) ensures a_row(d, p, w).is_some() && w >= 0 ==> a_row(d, p, w).unwrap().0.len() == 4 * w && p <= a_row(d, p, w).unwrap().1 <= imax(p, d.len() as int) { if p + 4 <= d.len() { lemma_comps_len(d, p + 4, w, 4); } lemma_old_len(d, p, w, Seq::empty(), 0); }
pub fn vx_some(x: Option<usize>) -> (r: usize) requires x.is_some() ensures r == x.unwrap() { x.unwrap() }
pub proof fn lemma_ext(s: Seq<u8>, t: Seq<u8>, o: int, e: int)
    requires 0 <= o <= e, e + 4 <= s.len(), s.len() == t.len(), forall|i: int| 0 <= i < e ==> s[i] == t[i],
    ensures t.subrange(0, o) == s.subrange(0, o), t.subrange(o, e) == s.subrange(o, e), t.subrange(o, e + 4) == s.subrange(o, e) + t.subrange(e, e + 4), e >= 4 ==> t.subrange(e - 4, e) == s.subrange(e - 4, e),
{ assert(t.subrange(0, o) =~= s.subrange(0, o)); assert(t.subrange(o, e) =~= s.subrange(o, e)); assert(t.subrange(o, e + 4) =~= s.subrange(o, e) + t.subrange(e, e + 4)); if e >= 4 { assert(t.subrange(e - 4, e) =~= s.subrange(e - 4, e)); } }
pub proof fn lemma_rep(done: Seq<u8>, px: Seq<u8>, m: int) requires px.len() == 4, m >= 0 ensures (done + rep(px, m)) + px == done + rep(px, m + 1)
{ assert((done + rep(px, m)) + px =~= done + rep(px, m + 1)); }
impl<T: ZByteReaderTrait> HdrDecoder<T> {
pub open spec fn small(&self) -> bool { self.width <= 0x7fff_ffff && self.width * self.height * 3 <= usize::MAX && self.buf.wf() && self.buf.data().len() <= usize::MAX && self.buf.pos() <= usize::MAX }
//@fn crates/zune-hdr/src/decoder.rs :: HdrDecoder::output_buffer_size
//@ret r
//@spec
    ensures r.is_some() ==> r.unwrap() as int == self.width * self.height * 3, self.decoded_headers && self.small() ==> r.is_some(),
//@at begin
    proof { let a = self.width as int; let b = self.height as int; assert(a * b <= a * b * 3) by(nonlinear_arith) requires a >= 0, b >= 0; }
//@end
//@fn crates/zune-hdr/src/decoder.rs :: HdrDecoder::decompress
//@sub let mut shift = 0; => let mut shift: u32 = 0;
//@sig
    fn decompress(&mut self, scanline: &mut [u8], vx_width: i32, vx_off: usize) -> (r: Result<(), HdrDecodeErrors>)
//@spec
    requires old(self).buf.wf(), vx_width >= 0, vx_off == 0 || vx_off >= 4, vx_off + 4 * vx_width == old(scanline)@.len(),
    ensures final(self).buf.wf(), final(self).buf.data() == old(self).buf.data(), final(self).width == old(self).width, final(self).height == old(self).height, final(self).decoded_headers == old(self).decoded_headers, final(scanline)@.len() == old(scanline)@.len(), final(self).options == old(self).options,
        ({ let o = vx_off as int; let prev = if o >= 4 { old(scanline)@.subrange(o - 4, o) } else { Seq::empty() };
           let want = old_row(old(self).buf.data(), old(self).buf.pos(), vx_width as int, prev, 0);
            &&& r.is_ok() <==> want.is_some()
            &&& r.is_ok() ==> final(scanline)@ == old(scanline)@.subrange(0, o) + want.unwrap().0 && final(self).buf.pos() == want.unwrap().1 }),
//@at begin
    let mut width = vx_width; let mut scanline_offset = vx_off;
    let ghost d = self.buf.data(); let ghost s0 = scanline@; let ghost w0 = width as int; let ghost o0 = scanline_offset as int; let ghost p0 = self.buf.pos();
    let ghost mut prev: Seq<u8> = if o0 >= 4 { s0.subrange(o0 - 4, o0) } else { Seq::empty() }; let ghost want = old_row(d, p0, w0, prev, 0);
    let ghost mut done: Seq<u8> = Seq::empty();
    proof { assert(scanline.len() == s0.len()); match want { Some((b, q)) => { assert(Seq::<u8>::empty() + b =~= b); } None => {} } }
//@loop 0
    invariant
    self.buf.wf(), self.buf.data() == d, self.width == old(self).width, self.height == old(self).height, self.decoded_headers == old(self).decoded_headers, self.options == old(self).options, scanline@.len() == s0.len(), s0.len() <= usize::MAX, s0 == old(scanline)@, p0 == old(self).buf.pos(), d == old(self).buf.data(),
    o0 == 0 || o0 >= 4, o0 <= scanline_offset, width >= 0, scanline_offset + 4 * width == scanline@.len(), shift == 0 || shift == 8 || (shift == 16) || (width == 0 && shift == 24), w0 == vx_width, o0 == vx_off,
    done.len() == scanline_offset - o0, scanline@.subrange(o0, scanline_offset as int) == done, scanline@.subrange(0, o0) == s0.subrange(0, o0), scanline_offset == 0 || scanline_offset >= 4,
    prev == (if scanline_offset >= 4 { scanline@.subrange(scanline_offset - 4, scanline_offset as int) } else { Seq::empty() }),
    want == old_row(d, p0, w0, if o0 >= 4 { s0.subrange(o0 - 4, o0) } else { Seq::empty() }, 0), 0 <= self.buf.pos(),
    want == after(done, old_row(d, self.buf.pos(), width as int, prev, shift)),
    decreases width, d.len() - self.buf.pos(),
//@at loop 0 begin
    let ghost sl0 = scanline@; let ghost off = scanline_offset as int; let ghost p = self.buf.pos(); let ghost sh = shift; let ghost done0 = done; let ghost wid0 = width as int;
//@at before loop 1
    let ghost px = d.subrange(p, p + 4); let ghost n = imin(((px[3] as i32) << sh) as int, wid0);
    proof {
        assert(scanline@.subrange(off, off + 4) =~= px); assert(is_marker(px));
        let v = px[3] as i32; assert(v <= 255 && (sh == 0 || sh == 8 || sh == 16) && v >= 0 ==> 0 <= (v << sh) && (v << sh) <= 0xff0000) by(bit_vector);
        lemma_ext(sl0, scanline@, o0, off);
        assert(done + rep(prev, 0) =~= done);
    }
//@loop 1
    invariant
    self.buf.wf(), self.buf.data() == d, self.buf.pos() == p + 4, self.width == old(self).width, self.height == old(self).height, self.decoded_headers == old(self).decoded_headers, self.options == old(self).options, scanline@.len() == s0.len(), s0.len() <= usize::MAX,
    0 <= width <= wid0, 0 <= i, i + (wid0 - width) == (px[3] as i32) << sh, scanline_offset == off + 4 * (wid0 - width), off >= 4, o0 <= off, o0 == 0 || o0 >= 4, off + 4 * wid0 == scanline@.len(), prev.len() == 4,
    done == done0, done.len() == off - o0, scanline@.subrange(o0, scanline_offset as int) == done + rep(prev, wid0 - width), scanline@.subrange(0, o0) == s0.subrange(0, o0), prev == scanline@.subrange(scanline_offset - 4, scanline_offset as int),
    decreases width,
//@at loop 1 begin
    let ghost a = scanline@; let ghost so = scanline_offset as int; let ghost m = wid0 - width;
//@at loop 1 end
    proof {
        lemma_ext(a, scanline@, o0, so); assert(scanline@.subrange(so, so + 4) =~= a.subrange(so - 4, so)); lemma_rep(done, prev, m);
    }
//@at after loop 1
    proof { assert(wid0 - width == n); done = done + rep(prev, n); lemma_after(done0, rep(prev, n), old_row(d, p + 4, wid0 - n, prev, (sh + 8) as u32));
        if sh == 16 && width == 0 { assert(old_row(d, p + 4, 0, prev, 24) == Some((Seq::<u8>::empty(), p + 4))); } }
//@at loop 0 end
    proof { if !is_marker(d.subrange(p, p + 4)) { let px = d.subrange(p, p + 4); assert(scanline@.subrange(off, off + 4) =~= px); lemma_after(done0, px, old_row(d, p + 4, wid0 - 1, px, 0)); done = done0 + px;
        lemma_ext(sl0, scanline@, o0, off);
        prev = px; } }
//@at after loop 0
    proof { assert(done + Seq::<u8>::empty() =~= done); assert(scanline@ =~= scanline@.subrange(0, o0) + scanline@.subrange(o0, scanline@.len() as int)); }
//@end
//@fn crates/zune-hdr/src/decoder.rs :: HdrDecoder::decode_headers
//@nobody
//@ret r
//@spec
    requires old(self).buf.wf(),
    ensures final(self).buf.data() == old(self).buf.data(), final(self).options == old(self).options, r.is_ok() ==> final(self).buf.wf() && final(self).decoded_headers && final(self).width <= final(self).options.max_width && final(self).height <= final(self).options.max_height && final(self).buf.pos() <= final(self).buf.data().len(),
        old(self).decoded_headers ==> r.is_ok() && final(self).width == old(self).width && final(self).height == old(self).height && final(self).buf.pos() == old(self).buf.pos(),
//@end
//@fn crates/zune-hdr/src/decoder.rs :: HdrDecoder::decode_into
//@ret r
//@sub let new_scanline = &mut scanline[i..]; =>
//@sub new_scanline[j] => scanline[i + j]
//@sub &mut scanline, => scanline.as_mut_slice(),
//@sub convert_scanline(&scanline, => convert_scanline(scanline.as_slice(),
//@spec
    requires old(self).decoded_headers, old(self).small(),
    ensures r.is_ok() ==> final(buffer)@.len() == old(buffer)@.len(), final(self).width == old(self).width, final(self).height == old(self).height,
        ({ let w = old(self).width as int; let h = old(self).height as int; let want = rows(old(self).buf.data(), old(self).buf.pos(), w, h);
            &&& r.is_ok() <==> w > 0 && old(buffer)@.len() >= w * h * 3 && want.is_some()
            &&& r.is_ok() ==> shown(final(buffer)@, want.unwrap().0, w * h) && (forall|k: int| w * h * 3 <= k < old(buffer)@.len() ==> #[trigger] final(buffer)@[k] == old(buffer)@[k]) }),
//@at begin
    let ghost d = self.buf.data(); let ghost p0 = self.buf.pos(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost want = rows(d, p0, w, h); let ghost b0 = buffer@;
    let ghost mut done: Seq<u8> = Seq::empty();
    proof { match want { Some((b, q)) => { assert(Seq::<u8>::empty() + b =~= b); } None => {} } assert(w * h * 3 == (w * 3) * h) by(nonlinear_arith); assert(w * h >= 0) by(nonlinear_arith) requires w >= 0, h >= 0; }
//@loop 0
    self.buf.wf(), self.buf.data() == d, d.len() <= usize::MAX, self.width == w, self.height == h, 0 < w <= 0x7fff_ffff, self.width == old(self).width, self.height == old(self).height, d == old(self).buf.data(), p0 == old(self).buf.pos(), b0 == old(buffer)@,
    scanline@.len() == 4 * w, output_scanline_size == 3 * w, buffer@.len() == b0.len(), buffer@.len() >= (w * 3) * h, w * h * 3 == (w * 3) * h, vx_c0 == h, want == rows(d, p0, w, h),
    done.len() == 4 * w * vx_i0, want == after(done, rows(d, self.buf.pos(), w, h - vx_i0)), shown(buffer@, done, w * vx_i0), forall|k: int| 3 * w * vx_i0 <= k < b0.len() ==> #[trigger] buffer@[k] == b0[k], self.buf.pos() <= usize::MAX, 0 <= self.buf.pos(),
//@at before loop 0
    proof { lemma_div_is_ordered((w * 3) * h, buffer@.len() as int, 3 * w); assert((w * 3) * h == h * (3 * w)) by(nonlinear_arith); lemma_div_by_multiple(h, 3 * w); assert(buffer.len() == buffer@.len()); assert(w * 0 == 0); assert(done.len() == 4 * w * 0 && 3 * w * 0 == 0) by(nonlinear_arith) requires done.len() == 0; }
//@at loop 0 begin
    let ghost mut cl: Seq<Seq<u8>> = Seq::empty(); let ghost p = self.buf.pos(); proof { if p + 4 <= d.len() { let x = d[p + 2]; assert((x & 128 != 0) <==> x >= 128) by(bit_vector);
        let a = d[p + 2] as usize; let b = d[p + 3] as usize; assert(a < 256 && b < 256 ==> (a << 8) | b == a * 256 + b) by(bit_vector);
        let px = d.subrange(p, p + 4); assert(d[p] == 2 ==> old_row(d, p, w, Seq::empty(), 0) == after(px, old_row(d, p + 4, w - 1, px, 0)));
        assert forall|s: Seq<u8>| s.len() >= 4 && s[0] == d[p] && s[1] == d[p + 1] && s[2] == d[p + 2] && s[3] == d[p + 3] implies #[trigger] s.subrange(0, 4) == px by { assert(s.subrange(0, 4) =~= px); } } } let ghost buf0 = buffer@; let ghost done0 = done; let ghost y = vx_k0 as int; let ghost ar = a_row(d, p, w);
    proof { assert((y + 1) * (3 * w) <= h * (3 * w)) by(nonlinear_arith) requires y + 1 <= h, w > 0; assert((y + 1) * (3 * w) == y * (3 * w) + 3 * w) by(nonlinear_arith); assert(h * (3 * w) == (w * 3) * h) by(nonlinear_arith); assert(buffer.len() == buffer@.len()); assert(vx_k0 * output_scanline_size == y * (3 * w)); assert(y * (3 * w) >= 0) by(nonlinear_arith) requires y >= 0, w > 0; lemma_row_len(d, p, w); }
//@loop 1
    self.buf.wf(), self.buf.data() == d, d.len() <= usize::MAX, self.width == w, self.height == h, 8 <= w <= 0x7fff, d == old(self).buf.data(), scanline@.len() == 4 * w, self.width == old(self).width, self.height == old(self).height, ar.is_none() ==> rows(d, old(self).buf.pos(), w, h).is_none(), 0 <= self.buf.pos() <= usize::MAX,
    ar == new_row(d, p + 4, w), cl.len() == vx_i1, comps(d, p + 4, w, 4) == afterc(cl, comps(d, self.buf.pos(), w, 4 - vx_i1)), vx_c1 == 4, vx_r1lo == 0,
    all_placed(scanline@, cl, w, vx_i1 as int),
//@at after call convert_scanline
    let ghost o1 = out_scanline@;
    proof { assert(scanline@.subrange(0, 0) =~= Seq::<u8>::empty()); let b = ar.unwrap().0; assert(scanline@ =~= b); lemma_after(done0, b, rows(d, self.buf.pos(), w, h - y - 1)); done = done0 + b;
        assert(forall|k: int| 0 <= k < 3 * w ==> buffer@[y * (3 * w) + k] == o1[k]);
        assert(3 * (w * y) == y * (3 * w)) by(nonlinear_arith); assert(4 * w * y + 4 * w == 4 * w * (y + 1)) by(nonlinear_arith); assert(4 * w * y == 4 * (w * y)) by(nonlinear_arith); assert(w * y + w == w * (y + 1)) by(nonlinear_arith); assert(3 * w * y == 3 * (w * y)) by(nonlinear_arith); assert(3 * w * (y + 1) == 3 * (w * y) + 3 * w) by(nonlinear_arith);
        lemma_shown(buf0, buffer@, done0, b, w * y, w); }
//@at after call convert_scanline 2
    let ghost o1 = out_scanline@;
    proof { assert(scanline@.subrange(0, 0) =~= Seq::<u8>::empty()); let b = ar.unwrap().0; assert(scanline@ =~= b); lemma_after(done0, b, rows(d, self.buf.pos(), w, h - y - 1)); done = done0 + b;
        assert(forall|k: int| 0 <= k < 3 * w ==> buffer@[y * (3 * w) + k] == o1[k]);
        assert(3 * (w * y) == y * (3 * w)) by(nonlinear_arith); assert(4 * w * y + 4 * w == 4 * w * (y + 1)) by(nonlinear_arith); assert(4 * w * y == 4 * (w * y)) by(nonlinear_arith); assert(w * y + w == w * (y + 1)) by(nonlinear_arith); assert(3 * w * y == 3 * (w * y)) by(nonlinear_arith); assert(3 * w * (y + 1) == 3 * (w * y) + 3 * w) by(nonlinear_arith);
        lemma_shown(buf0, buffer@, done0, b, w * y, w); }
//@at after call convert_scanline 3
    let ghost o1 = out_scanline@;
    proof { let b = ar.unwrap().0;  assert(scanline@ =~= b); lemma_after(done0, b, rows(d, self.buf.pos(), w, h - y - 1)); done = done0 + b;
        assert(forall|k: int| 0 <= k < 3 * w ==> buffer@[y * (3 * w) + k] == o1[k]);
        assert(3 * (w * y) == y * (3 * w)) by(nonlinear_arith); assert(4 * w * y + 4 * w == 4 * w * (y + 1)) by(nonlinear_arith); assert(4 * w * y == 4 * (w * y)) by(nonlinear_arith); assert(w * y + w == w * (y + 1)) by(nonlinear_arith); assert(3 * w * y == 3 * (w * y)) by(nonlinear_arith); assert(3 * w * (y + 1) == 3 * (w * y) + 3 * w) by(nonlinear_arith);
        lemma_shown(buf0, buffer@, done0, b, w * y, w); }
//@at after call convert_scanline 4
    let ghost o1 = out_scanline@;
    proof { let b = ar.unwrap().0; assert forall|k: int| 0 <= k < 4 * w implies #[trigger] scanline@[k] == b[k] by { let c = k % 4; let x = k / 4; assert(placed(scanline@, c, cl[c])); assert(cl[c][x] == scanline@[4 * x + c]); } assert(scanline@ =~= b); lemma_after(done0, b, rows(d, self.buf.pos(), w, h - y - 1)); done = done0 + b;
        assert(forall|k: int| 0 <= k < 3 * w ==> buffer@[y * (3 * w) + k] == o1[k]);
        assert(3 * (w * y) == y * (3 * w)) by(nonlinear_arith); assert(4 * w * y + 4 * w == 4 * w * (y + 1)) by(nonlinear_arith); assert(4 * w * y == 4 * (w * y)) by(nonlinear_arith); assert(w * y + w == w * (y + 1)) by(nonlinear_arith); assert(3 * w * y == 3 * (w * y)) by(nonlinear_arith); assert(3 * w * (y + 1) == 3 * (w * y) + 3 * w) by(nonlinear_arith);
        lemma_shown(buf0, buffer@, done0, b, w * y, w); }
//@at before loop 1
    proof { assert(ar == new_row(d, p + 4, w)); match comps(d, p + 4, w, 4) { Some((b, q)) => { assert(Seq::<Seq<u8>>::empty() + b =~= b); } None => {} } }
//@at loop 1 begin
    let ghost k1 = vx_k1 as int; let ghost pc = self.buf.pos(); let ghost mut cd: Seq<u8> = Seq::empty(); let ghost mut jj: int = 0;
    proof { match comp_runs(d, pc, w) { Some((b, q)) => { assert(Seq::<u8>::empty() + b =~= b); } None => {} } }
//@loop 2
    invariant_except_break self.buf.wf(), self.buf.data() == d, d.len() <= usize::MAX, self.width == w, self.height == h, 8 <= w <= 0x7fff, d == old(self).buf.data(), scanline@.len() == 4 * w, self.width == old(self).width, self.height == old(self).height, ar.is_none() ==> rows(d, old(self).buf.pos(), w, h).is_none(), 0 <= self.buf.pos() <= usize::MAX, i < 4, i == k1, cl.len() == k1, all_placed(scanline@, cl, w, k1), comp_runs(d, pc, w).is_none() ==> ar.is_none(), 0 <= jj <= w, j == 4 * jj, cd.len() == jj, comp_runs(d, pc, w) == after(cd, comp_runs(d, self.buf.pos(), w - jj)), placed(scanline@, k1, cd),
    ensures self.buf.wf(), self.buf.data() == d, d.len() <= usize::MAX, self.width == w, self.height == h, 8 <= w <= 0x7fff, d == old(self).buf.data(), scanline@.len() == 4 * w, self.width == old(self).width, self.height == old(self).height, ar.is_none() ==> rows(d, old(self).buf.pos(), w, h).is_none(), 0 <= self.buf.pos() <= usize::MAX, i < 4, i == k1, cl.len() == k1, all_placed(scanline@, cl, w, k1), comp_runs(d, pc, w).is_none() ==> ar.is_none(), cd.len() == w, comp_runs(d, pc, w) == Some((cd, self.buf.pos())), placed(scanline@, k1, cd),
    decreases d.len() - self.buf.pos(),
//@at loop 2 begin
    let ghost q0 = self.buf.pos(); let ghost cd0 = cd; let ghost j0 = jj;
    proof { if jj == w { assert(cd + Seq::<u8>::empty() =~= cd); } }
//@at before loop 3
    let ghost n = run as int; let ghost mut m: int = 0; proof { let r0 = d[q0] as i32; assert(r0 > 128 && r0 <= 255 ==> r0 & 127 == r0 - 128) by(bit_vector); assert(cd =~= cd0 + Seq::new(0, |i: int| d[q0 + 1])); }
//@loop 3
    invariant self.buf.wf(), self.buf.data() == d, d.len() <= usize::MAX, self.width == w, self.height == h, 8 <= w <= 0x7fff, d == old(self).buf.data(), scanline@.len() == 4 * w, self.width == old(self).width, self.height == old(self).height, ar.is_none() ==> rows(d, old(self).buf.pos(), w, h).is_none(), 0 <= self.buf.pos() <= usize::MAX, i < 4, i == k1, cl.len() == k1, all_placed(scanline@, cl, w, k1), comp_runs(d, pc, w).is_none() ==> ar.is_none(), self.buf.pos() == q0 + 2, 0 <= run, n == run + m, 0 < n <= 127, 0 <= m, j == 4 * (j0 + m), 0 <= j0 < w, 0 <= q0, j0 + m <= w, n > w - j0 ==> ar.is_none(), cd0.len() == j0, placed(scanline@, k1, cd), cd == cd0 + Seq::new(m as nat, |i: int| d[q0 + 1]), val == d[q0 + 1],
    decreases run,
//@at loop 3 begin
    let ghost sl0 = scanline@; let ghost jb = j as int; let ghost cdb = cd;
//@at loop 3 end
    proof { m = m + 1; cd = cdb.push(val); lemma_put(sl0, cl, w, k1, cdb, val); assert(scanline@ =~= sl0.update(4 * cdb.len() + k1, val)); assert(cd =~= cd0 + Seq::new(m as nat, |i: int| d[q0 + 1])); }
//@at after loop 3
    proof { let r = Seq::new(n as nat, |i: int| d[q0 + 1]); lemma_after(cd0, r, comp_runs(d, q0 + 2, w - j0 - n)); assert(cd =~= cd0 + r); jj = j0 + n; }
//@at before loop 4
    let ghost n = run as int; let ghost mut m: int = 0; proof { assert(cd =~= cd0 + d.subrange(q0 + 1, q0 + 1)); }
//@loop 4
    invariant self.buf.wf(), self.buf.data() == d, d.len() <= usize::MAX, self.width == w, self.height == h, 8 <= w <= 0x7fff, d == old(self).buf.data(), scanline@.len() == 4 * w, self.width == old(self).width, self.height == old(self).height, ar.is_none() ==> rows(d, old(self).buf.pos(), w, h).is_none(), 0 <= self.buf.pos() <= usize::MAX, i < 4, i == k1, cl.len() == k1, all_placed(scanline@, cl, w, k1), comp_runs(d, pc, w).is_none() ==> ar.is_none(), self.buf.pos() == q0 + 1 + m, 0 <= run, n == run + m, 0 < n <= 128, 0 <= m, j == 4 * (j0 + m), 0 <= j0 < w, 0 <= q0, j0 + m <= w, q0 + 1 + m <= d.len(), n > w - j0 || q0 + 1 + n > d.len() ==> ar.is_none(), cd0.len() == j0, placed(scanline@, k1, cd), cd == cd0 + d.subrange(q0 + 1, q0 + 1 + m),
    decreases run,
//@at loop 4 begin
    let ghost sl0 = scanline@; let ghost jb = j as int; let ghost cdb = cd;
//@at loop 4 end
    proof { let v = d[q0 + 1 + m]; m = m + 1; cd = cdb.push(v); lemma_put(sl0, cl, w, k1, cdb, v); assert(scanline@ =~= sl0.update(4 * cdb.len() + k1, v)); assert(cd =~= cd0 + d.subrange(q0 + 1, q0 + 1 + m)); }
//@at after loop 4
    proof { let r = d.subrange(q0 + 1, q0 + 1 + n); lemma_after(cd0, r, comp_runs(d, q0 + 1 + n, w - j0 - n)); assert(cd =~= cd0 + r); jj = j0 + n; }
//@at loop 1 end
    proof { lemma_afterc(cl, seq![cd], comps(d, self.buf.pos(), w, 4 - k1 - 1)); let c0 = cl; cl = cl + seq![cd]; assert forall|c: int| 0 <= c < k1 + 1 implies #[trigger] cl[c].len() == w && placed(scanline@, c, cl[c]) by { if c < k1 { assert(cl[c] == c0[c]); } else { assert(cl[c] == cd); } } }
//@end
}
//@fn crates/zune-hdr/src/decoder.rs :: ldexp
//@nobody
//@ret r
//@spec
    ensures r == ldexp_spec(val, exp),
//@end
/// the floats shown are those of the RGBE pixels
pub open spec fn shown(f: Seq<f32>, b: Seq<u8>, n: int) -> bool { forall|k: int| 0 <= k < 3 * n ==> #[trigger] f[k] == rgbe_val(b[4 * (k / 3) + k % 3], b[4 * (k / 3) + 3]) }
//@fn crates/zune-hdr/src/decoder.rs :: convert_scanline
//@sub out[0..3].fill(0.0); => out[0] = 0.0; out[1] = 0.0; out[2] = 0.0;
//@spec
    requires old(out_scanline)@.len() == 3 * (in_scanline@.len() / 4),
    ensures final(out_scanline)@.len() == old(out_scanline)@.len(), shown(final(out_scanline)@, in_scanline@, in_scanline@.len() as int / 4),
//@at begin
    proof { assert(in_scanline.len() == in_scanline@.len() && out_scanline.len() == out_scanline@.len()); }
//@loop 0
    in_scanline@.len() <= usize::MAX, out_scanline@.len() <= usize::MAX, vx_c0 == in_scanline@.len() / 4, out_scanline@.len() == 3 * vx_c0, shown(out_scanline@, in_scanline@, vx_i0 as int),
//@at loop 0 begin
    let ghost o0 = out_scanline@;
//@at loop 0 end
    proof { let k = vx_k0 as int; assert forall|j: int| 0 <= j < 3 * (k + 1) implies #[trigger] out_scanline@[j] == rgbe_val(in_scanline@[4 * (j / 3) + j % 3], in_scanline@[4 * (j / 3) + 3]) by {
        if j < 3 * k { assert(out_scanline@[j] == o0[j]); } else { assert(j / 3 == k); let c = j % 3; assert(j == 3 * k + c); assert(rgbe@ =~= in_scanline@.subrange(4 * k, 4 * k + 4)); assert(rgbe@[c] == in_scanline@[4 * k + c]); assert(rgbe@[3] == in_scanline@[4 * k + 3]); } } }
//@end
// ---- encoder ----
/// what a sequence of run length codes stands for
pub open spec fn expand(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else { let c = s[0] as int;
        if c > 128 { if s.len() < 2 { None } else { afterx(Seq::new((c - 128) as nat, |i: int| s[1]), expand(s.subrange(2, s.len() as int))) } }
        else if c == 0 || s.len() < 1 + c { None } else { afterx(s.subrange(1, 1 + c), expand(s.subrange(1 + c, s.len() as int))) } }
}
pub open spec fn afterx(a: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> { match r { Some(b) => Some(a + b), None => None } }
pub open spec fn comp_of(data: Seq<u8>, w: int) -> Seq<u8> { Seq::new(w as nat, |x: int| data[4 * x]) }
pub proof fn lemma_expand_cat(s: Seq<u8>, t: Seq<u8>) requires expand(s).is_some(), expand(t).is_some() ensures expand(s + t) == Some(expand(s).unwrap() + expand(t).unwrap()) decreases s.len()
{
    let st = s + t;
    if s.len() == 0 { assert(st =~= t); assert(expand(s).unwrap() + expand(t).unwrap() =~= expand(t).unwrap()); }
    else { let c = s[0] as int; let k = if c > 128 { 2 } else { 1 + c }; let r = s.subrange(k, s.len() as int);
        assert(st[0] == s[0]); assert(st.subrange(k, st.len() as int) =~= r + t); lemma_expand_cat(r, t);
        let a = if c > 128 { Seq::new((c - 128) as nat, |i: int| s[1]) } else { s.subrange(1, 1 + c) };
        if c > 128 { assert(st[1] == s[1]); assert(Seq::new((c - 128) as nat, |i: int| st[1]) =~= a); } else { assert(st.subrange(1, 1 + c) =~= a); }
        assert(a + (expand(r).unwrap() + expand(t).unwrap()) =~= (a + expand(r).unwrap()) + expand(t).unwrap()); }
}
pub proof fn lemma_expand_run(n: int, v: u8) requires 1 <= n <= 127 ensures expand(seq![(128 + n) as u8, v]) == Some(Seq::new(n as nat, |i: int| v))
{ let s = seq![(128 + n) as u8, v]; assert(s.subrange(2, 2) =~= Seq::empty()); assert(expand(Seq::<u8>::empty()) == Some(Seq::<u8>::empty())); assert(Seq::new(n as nat, |i: int| s[1]) + Seq::<u8>::empty() =~= Seq::new(n as nat, |i: int| v)); }
pub proof fn lemma_expand_lit(a: Seq<u8>) requires 1 <= a.len() <= 128 ensures expand(seq![a.len() as u8] + a) == Some(a)
{ let s = seq![a.len() as u8] + a; assert(s.subrange((1 + a.len()) as int, s.len() as int) =~= Seq::empty()); assert(expand(Seq::<u8>::empty()) == Some(Seq::<u8>::empty())); assert(s.subrange(1, (1 + a.len()) as int) + Seq::<u8>::empty() =~= a); }
/// the decoder's view of codes found inside a file
pub proof fn lemma_expand_decodes(d: Seq<u8>, p: int, s: Seq<u8>) requires 0 <= p, p + s.len() <= d.len(), d.subrange(p, p + s.len()) == s, expand(s).is_some()
    ensures comp_runs(d, p, expand(s).unwrap().len() as int) == Some((expand(s).unwrap(), (p + s.len()) as int)) decreases s.len()
{
    if s.len() > 0 { let c = s[0] as int; let k = if c > 128 { 2 } else { 1 + c }; let r = s.subrange(k, s.len() as int);
        assert(d[p] == d.subrange(p, p + s.len())[0]);
        assert(d.subrange(p + k, p + k + r.len()) =~= r) by { assert forall|i: int| 0 <= i < r.len() implies #[trigger] d.subrange(p + k, p + k + r.len())[i] == r[i] by { assert(d.subrange(p, p + s.len())[k + i] == s[k + i]); } }
        lemma_expand_decodes(d, p + k, r);
        if c > 128 { assert(d[p + 1] == d.subrange(p, p + s.len())[1]); assert(Seq::new((c - 128) as nat, |i: int| d[p + 1]) =~= Seq::new((c - 128) as nat, |i: int| s[1])); }
        else { assert(d.subrange(p + 1, p + 1 + c) =~= s.subrange(1, 1 + c)) by { assert forall|i: int| 0 <= i < c implies #[trigger] d.subrange(p + 1, p + 1 + c)[i] == s.subrange(1, 1 + c)[i] by { assert(d.subrange(p, p + s.len())[1 + i] == s[1 + i]); } } } }
}
//@fn crates/zune-hdr/src/encoder.rs :: rle
//@ret r
//@sub 128.min(beg_run - cur) => vx_min(128, beg_run - cur)
//@spec
    requires old(writer).bytes_written + 2 * width <= usize::MAX, width <= 0x7fff, 4 * width < data@.len() + 4,
    ensures r.is_ok() ==> exists|code: Seq<u8>| final(writer).out() == old(writer).out() + code && #[trigger] expand(code) == Some(comp_of(data@, width as int)) && final(writer).bytes_written == old(writer).bytes_written + code.len() && code.len() <= 2 * width,
//@at begin
    let ghost all = comp_of(data@, width as int); let ghost mut code: Seq<u8> = Seq::empty(); let ghost w0 = writer.out(); let ghost n0 = writer.bytes_written; let ghost mut exp: Seq<u8> = Seq::empty();
    proof { assert(w0 + code =~= w0); }
//@loop 0
    invariant
    writer.out() == w0 + code, code.len() <= 2 * cur, writer.bytes_written == n0 + code.len(), n0 + 2 * width <= usize::MAX, width <= 0x7fff, 4 * width < data@.len() + 4, cur <= width, expand(code) == Some(all.subrange(0, cur as int)), all == comp_of(data@, width as int), MIN_RLE == 4,
    decreases width - cur,
//@at loop 0 begin
    let ghost c0 = cur;
//@loop 1
    invariant
    width <= 0x7fff, 4 * width < data@.len() + 4, cur < width, cur <= beg_run <= width, run_count <= 127, old_run_count <= 127, MIN_RLE == 4, all == comp_of(data@, width as int), beg_run < width ==> beg_run + run_count <= width, beg_run == width ==> run_count == 1, beg_run > cur ==> run_count > 0,
    run_count == 0 ==> beg_run == cur && old_run_count == 0, forall|x: int| beg_run <= x < beg_run + run_count && x < width ==> all[x] == all[beg_run as int], old_run_count == beg_run - cur ==> forall|x: int| cur <= x < beg_run ==> all[x] == all[cur as int],
    decreases width - beg_run, (if run_count == 0 { 1int } else { 0 }),
//@loop 2
    invariant
    width <= 0x7fff, 4 * width < data@.len() + 4, beg_run <= width, 1 <= run_count <= 127, all == comp_of(data@, width as int), beg_run < width ==> beg_run + run_count <= width, beg_run == width ==> run_count == 1,
    forall|x: int| beg_run <= x < beg_run + run_count && x < width ==> all[x] == all[beg_run as int],
    decreases width - beg_run - run_count,
//@at loop 2 end
    proof { let x = beg_run + run_count - 1; assert(all[x as int] == data@[4 * x]); assert(all[beg_run as int] == data@[4 * beg_run]); }
//@at after call write_all
    proof { let r = seq![(128 + old_run_count) as u8, all[cur as int]]; assert(all[cur as int] == data@[4 * cur]); assert(buf@ =~= r); lemma_expand_run(old_run_count as int, all[cur as int]); lemma_expand_cat(code, r);
        assert(all.subrange(0, cur as int) + Seq::new(old_run_count as nat, |i: int| all[cur as int]) =~= all.subrange(0, beg_run as int)); assert((w0 + code) + r =~= w0 + (code + r)); code = code + r; }
//@loop 3
    invariant
    writer.out() == w0 + code, code.len() <= 2 * cur, writer.bytes_written == n0 + code.len(), n0 + 2 * width <= usize::MAX, width <= 0x7fff, 4 * width < data@.len() + 4, c0 <= cur <= beg_run <= width, expand(code) == Some(all.subrange(0, cur as int)), all == comp_of(data@, width as int),
    decreases beg_run - cur,
//@at loop 3 begin
    let ghost code0 = code; let ghost b0 = writer.out();
//@loop 4
    n0 + 2 * width <= usize::MAX, width <= 0x7fff, 4 * width < data@.len() + 4, cur + nonrun_count <= width, vx_c4 == nonrun_count, vx_r4lo == 0, nonrun_count <= 128, code0.len() <= 2 * cur, writer.bytes_written == n0 + code0.len() + 1 + vx_i4, all == comp_of(data@, width as int),
    writer.out() == w0 + (code0 + (seq![nonrun_count as u8] + all.subrange(cur as int, cur + vx_i4))),
//@at before loop 4
    proof { assert(w0 + code0 + seq![nonrun_count as u8] =~= w0 + (code0 + (seq![nonrun_count as u8] + all.subrange(cur as int, cur as int)))); }
//@at loop 4 end
    proof { let k = vx_k4 as int; assert(all[cur + k] == data@[4 * (cur + k)]); assert(all.subrange(cur as int, cur + k) + seq![all[cur + k]] =~= all.subrange(cur as int, cur + k + 1)); assert(w0 + (code0 + (seq![nonrun_count as u8] + all.subrange(cur as int, cur + k))) + seq![all[cur + k]] =~= w0 + (code0 + (seq![nonrun_count as u8] + all.subrange(cur as int, cur + k + 1)))); }
//@at after loop 4
    proof { let a = all.subrange(cur as int, cur + nonrun_count); lemma_expand_lit(a); lemma_expand_cat(code0, seq![nonrun_count as u8] + a); code = code0 + (seq![nonrun_count as u8] + a); assert(all.subrange(0, cur as int) + a =~= all.subrange(0, cur + nonrun_count)); }
//@at after call write_all 2
    proof { let r = seq![(128 + run_count) as u8, all[cur as int]]; assert(all[cur as int] == data@[4 * cur]); assert(buf@ =~= r); lemma_expand_run(run_count as int, all[cur as int]); lemma_expand_cat(code, r);
        assert(all.subrange(0, cur as int) + Seq::new(run_count as nat, |i: int| all[cur as int]) =~= all.subrange(0, cur + run_count)); assert((w0 + code) + r =~= w0 + (code + r)); code = code + r; }
//@at before tail
    proof { assert(all.subrange(0, width as int) =~= all); }
//@end
/// what `rle` writes for a component, found anywhere in a file, is what the decoder reads back
pub proof fn theorem_component_roundtrip(d: Seq<u8>, p: int, code: Seq<u8>, data: Seq<u8>, w: int)
    requires 0 <= p, w >= 0, p + code.len() <= d.len(), d.subrange(p, p + code.len()) == code, expand(code) == Some(comp_of(data, w)),
    ensures comp_runs(d, p, w) == Some((comp_of(data, w), (p + code.len()) as int)),
{ lemma_expand_decodes(d, p, code); }
//@include prelude_end.inc
