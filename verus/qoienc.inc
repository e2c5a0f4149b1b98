// ===== the encoder =====
//@type crates/zune-qoi/src/errors.rs :: QoiEncodeErrors
//@attrs #[derive(Debug)]
//@end
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for QoiEncodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> QoiEncodeErrors { QoiEncodeErrors::IoError(v) } }
impl From<ZByteIoError> for QoiEncodeErrors { fn from(value: ZByteIoError) -> QoiEncodeErrors { QoiEncodeErrors::IoError(value) } }
//@const crates/zune-qoi/src/encoder.rs :: SUPPORTED_COLORSPACES
//@end
//@type crates/zune-qoi/src/encoder.rs :: QoiEncoder
//@end
/// pixel k of the input as the format sees it (alpha of an RGB image is 255)
pub open spec fn epx(data: Seq<u8>, ch: int, k: int) -> Seq<u8> { seq![data[k * ch], data[k * ch + 1], data[k * ch + 2], if ch == 4 { data[k * ch + 3] } else { 255u8 }] }
pub open spec fn q_first() -> Seq<u8> { seq![0u8, 0u8, 0u8, 255u8] }
/// the bytes b decode to the first k - run pixels; the pending run repeats the last one; the encoder's table is the decoder's
pub open spec fn einv(b: Seq<u8>, data: Seq<u8>, ch: int, k: int, run: int, pp: Seq<u8>, eidx: Seq<Seq<u8>>) -> bool {
    let s = q_n(b, k - run);
    &&& 0 <= run <= k && run <= 62 && s.ok && s.pos == b.len() && s.run == 0 && s.px == pp && pp.len() == 4 && eidx.len() == 64
    &&& forall|j: int| 0 <= j < k - run ==> #[trigger] s.out[j] == epx(data, ch, j)
    &&& forall|j: int| k - run <= j < k ==> #[trigger] epx(data, ch, j) == pp
    &&& forall|j: int| 0 <= j < 64 ==> (#[trigger] eidx[j]) == s.idx[j] || (j == 53 && eidx[j] == q_zero())
    &&& eidx[q_hash(pp)] == pp || (pp == q_first() && eidx[53] == q_zero())
}
pub proof fn lemma_q_prefix(b: Seq<u8>, x: Seq<u8>, n: int)
    requires q_n(b, n).ok
    ensures q_n(b + x, n) == q_n(b, n)
    decreases n
{
    if n > 0 { let s = q_n(b, n - 1); assert(s.ok); lemma_q_prefix(b, x, n - 1); lemma_q_wf(b, n - 1);
        if s.run == 0 { assert forall|i: int| 0 <= i < b.len() implies (b + x)[i] == b[i] by {} assert(q_px(b + x, s) =~= q_px(b, s)); } }
}
/// a RUN operation of `run` pixels
pub proof fn lemma_enc_run(b: Seq<u8>, c: u8, data: Seq<u8>, ch: int, k: int, run: int, pp: Seq<u8>, eidx: Seq<Seq<u8>>)
    requires einv(b, data, ch, k, run, pp, eidx), 1 <= run <= 62, c as int == 191 + run
    ensures einv(b.push(c), data, ch, k, 0, pp, eidx)
{
    let b1 = b + seq![c]; assert(b1 =~= b.push(c)); let k0 = k - run;
    lemma_q_prefix(b, seq![c], k0); lemma_q_wf(b, k0); let s = q_n(b1, k0);
    lemma_q_wf(b1, k0 + 1);
    let s1 = q_n(b1, k0 + 1);
    assert(b1[s.pos] == c);
    assert(q_px(b1, s) == pp);
    assert(q_n(b1, k0 + 1) == q_step(b1, s));
    assert(s1.run == run - 1 && s1.px == pp && s1.pos == b1.len() && s1.ok);
    assert forall|j: int| 0 <= j < k0 + 1 implies #[trigger] s1.out[j] == epx(data, ch, j) by { if j < k0 { assert(s1.out[j] == s.out[j]); } else { assert(s1.out[j] == pp); } }
    lemma_runs(b1, data, ch, k0 + 1, k, pp);
    let s2 = q_n(b1, k);
    assert(s2.idx == s1.idx);
    assert(0 <= q_hash(pp) < 64);
    assert(q_hash(q_first()) == 53) by { assert((255 * 11) % 64 == 53) by(compute); }
    assert(s1.idx == s.idx.update(q_hash(pp), pp));
}
pub proof fn lemma_runs(b: Seq<u8>, data: Seq<u8>, ch: int, a: int, k: int, pp: Seq<u8>)
    requires 1 <= a <= k, q_n(b, a).ok, q_n(b, a).run == k - a, q_n(b, a).px == pp, q_n(b, a).pos == b.len(),
        forall|j: int| 0 <= j < a ==> #[trigger] q_n(b, a).out[j] == epx(data, ch, j), forall|j: int| a - 1 <= j < k ==> #[trigger] epx(data, ch, j) == pp,
    ensures q_n(b, k).ok, q_n(b, k).run == 0, q_n(b, k).px == pp, q_n(b, k).pos == b.len(), q_n(b, k).idx == q_n(b, a).idx, forall|j: int| 0 <= j < k ==> #[trigger] q_n(b, k).out[j] == epx(data, ch, j),
    decreases k - a
{
    if a < k { let s = q_n(b, a); lemma_q_wf(b, a); let s1 = q_n(b, a + 1); assert(s1 == q_step(b, s));
        assert forall|j: int| 0 <= j < a + 1 implies #[trigger] s1.out[j] == epx(data, ch, j) by { if j < a { assert(s1.out[j] == s.out[j]); } else { assert(s1.out[j] == pp); } }
        lemma_runs(b, data, ch, a + 1, k, pp); }
}
/// any operation that produces the next pixel
pub proof fn lemma_enc_op(b: Seq<u8>, op: Seq<u8>, data: Seq<u8>, ch: int, k: int, pp: Seq<u8>, eidx: Seq<Seq<u8>>, px: Seq<u8>)
    requires einv(b, data, ch, k, 0, pp, eidx), op.len() >= 1, op.len() == q_len(op[0] as int), !(192 <= op[0] < 254), px == epx(data, ch, k),
        q_px(b + op, q_n(b, k)) == px,
    ensures einv(b + op, data, ch, k + 1, 0, px, eidx.update(q_hash(px), px))
{
    let b1 = b + op; lemma_q_prefix(b, op, k); lemma_q_wf(b, k); lemma_q_wf(b1, k + 1);
    let s = q_n(b1, k); let s1 = q_n(b1, k + 1);
    assert(b1[s.pos] == op[0]);
    assert(s1 == q_step(b1, s));
    assert(0 <= q_hash(px) < 64);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] s1.out[j] == epx(data, ch, j) by { if j < k { assert(s1.out[j] == s.out[j]); } else { assert(s1.out[j] == px); } }
}
pub proof fn lemma_enc_init(data: Seq<u8>, ch: int)
    ensures einv(Seq::empty(), data, ch, 0, 0, q_first(), Seq::new(64, |i: int| q_zero()))
{ assert(q_hash(q_first()) == 53) by { assert((255 * 11) % 64 == 53) by(compute); } assert(q_n(Seq::empty(), 0) == q_init()); }
/// what the encoder leaves in the sink after the header
pub open spec fn enc_ok(body: Seq<u8>, data: Seq<u8>, ch: int, n: int) -> bool {
    let s = q_n(body, n);
    &&& s.ok && s.pos + 8 == body.len() && body.subrange(s.pos, s.pos + 8) == q_trailer()
    &&& forall|j: int| 0 <= j < n ==> #[trigger] s.out[j] == epx(data, ch, j)
}
pub proof fn lemma_enc_done(b: Seq<u8>, data: Seq<u8>, ch: int, k: int, pp: Seq<u8>, eidx: Seq<Seq<u8>>)
    requires einv(b, data, ch, k, 0, pp, eidx)
    ensures enc_ok(b + q_trailer(), data, ch, k)
{ lemma_q_prefix(b, q_trailer(), k); assert((b + q_trailer()).subrange(b.len() as int, b.len() as int + 8) =~= q_trailer()); }
pub open spec fn hdr_bytes(w: u32, h: u32, ch: u8) -> Seq<u8> { be32b(0x716f6966) + be32b(w) + be32b(h) + seq![ch] + seq![0u8] }
pub proof fn lemma_bits_enc()
    ensures forall|x: u8| x < 64 ==> #[trigger] (0xc0u8 | x) == 192 + x, forall|x: u8| x < 64 ==> #[trigger] (0x80u8 | x) == 128 + x, forall|x: u8| x < 64 ==> #[trigger] (0x00u8 | x) == x,
        forall|a: u8, b: u8, c: u8| a < 4 && b < 4 && c < 4 ==> #[trigger] (0x40u8 | (a << 4) | (b << 2) | c) == 64 + 16 * a + 4 * b + c,
        forall|a: u8, b: u8| a < 16 && b < 16 ==> #[trigger] ((a << 4) | b) == 16 * a + b,
{
    assert forall|x: u8| x < 64 implies #[trigger] (0xc0u8 | x) == 192 + x by { assert(x < 64 ==> (0xc0u8 | x) == add(192, x)) by(bit_vector); }
    assert forall|x: u8| x < 64 implies #[trigger] (0x80u8 | x) == 128 + x by { assert(x < 64 ==> (0x80u8 | x) == add(128, x)) by(bit_vector); }
    assert forall|x: u8| x < 64 implies #[trigger] (0x00u8 | x) == x by { assert(x < 64 ==> (0x00u8 | x) == x) by(bit_vector); }
    assert forall|a: u8, b: u8, c: u8| a < 4 && b < 4 && c < 4 implies #[trigger] (0x40u8 | (a << 4) | (b << 2) | c) == 64 + 16 * a + 4 * b + c by { assert(a < 4 && b < 4 && c < 4 ==> (0x40u8 | (a << 4) | (b << 2) | c) == add(add(64, mul(16, a)), add(mul(4, b), c)) && mul(16, a) == 16 * a && mul(4, b) == 4 * b) by(bit_vector); }
    assert forall|a: u8, b: u8| a < 16 && b < 16 implies #[trigger] ((a << 4) | b) == 16 * a + b by { assert(a < 16 && b < 16 ==> ((a << 4) | b) == add(mul(16, a), b) && mul(16, a) == 16 * a) by(bit_vector); }
}
/// the DIFF, LUMA fields the encoder computes decode to the pixel
pub proof fn lemma_enc_diff(p: u8, q: u8)
    ensures ({ let v = ws(p, q); (v < 2 || v > 253) ==> wa(v, 2) < 4 && w8(q + wa(v, 2) - 2) == p }),
{}
pub proof fn lemma_enc_luma(p: u8, q: u8, g: u8, h: u8)
    ensures ({ let v = ws(p, q); let vg = ws(g, h); let d = ws(v, vg);
        (d < 8 || d > 247) && (vg < 32 || vg > 223) ==> wa(d, 8) < 16 && wa(vg, 32) < 64 && w8(q + (wa(vg, 32) - 32) - 8 + wa(d, 8)) == p && w8(h + (wa(vg, 32) - 32)) == g }),
{}
/// the operation the encoder chooses for a pixel that differs from the previous one
pub open spec fn enc_op(pp: Seq<u8>, eidx: Seq<Seq<u8>>, px: Seq<u8>) -> Seq<u8> {
    let h = q_hash(px);
    if eidx[h] == px { seq![0x00u8 | (h as u8)] }
    else if px[3] == pp[3] {
        let vr = ws(px[0], pp[0]); let vg = ws(px[1], pp[1]); let vb = ws(px[2], pp[2]); let vg_r = ws(vr, vg); let vg_b = ws(vb, vg);
        if !(2 <= vr <= 253) && !(2 <= vg <= 253) && !(2 <= vb <= 253) { seq![0x40u8 | (wa(vr, 2) << 4) | (wa(vg, 2) << 2) | wa(vb, 2)] }
        else if !(8 <= vg_r <= 247) && !(32 <= vg <= 223) && !(8 <= vg_b <= 247) { seq![0x80u8 | wa(vg, 32), (wa(vg_r, 8) << 4) | wa(vg_b, 8)] }
        else { seq![0xfeu8, px[0], px[1], px[2]] }
    } else { seq![0xffu8, px[0], px[1], px[2], px[3]] }
}
pub proof fn lemma_be32(px: Seq<u8>)
    requires px.len() == 4
    ensures be32b(be32(px)) == px
{
    let a = px[0]; let b = px[1]; let c = px[2]; let d = px[3];
    assert((((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) >> 24) as u8 == a) && (((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) >> 16) as u8 == b) && (((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) >> 8) as u8 == c) && ((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) as u8 == d)) by(bit_vector);
    assert(be32b(be32(px)) =~= px);
}
pub proof fn lemma_be64() ensures be64b(1u64) == q_trailer() {
    assert((1u64 >> 56) as u8 == 0 && (1u64 >> 48) as u8 == 0 && (1u64 >> 40) as u8 == 0 && (1u64 >> 32) as u8 == 0 && (1u64 >> 24) as u8 == 0 && (1u64 >> 16) as u8 == 0 && (1u64 >> 8) as u8 == 0 && 1u64 as u8 == 1) by(bit_vector);
    assert(be64b(1u64) =~= q_trailer());
}
/// what the chosen operation decodes to, one lemma per operation
pub proof fn lemma_op_index(b: Seq<u8>, s: QS, h: int, px: Seq<u8>)
    requires q_wf(s), s.pos == b.len(), 0 <= h < 64, s.idx[h] == px
    ensures ({ let op = seq![0x00u8 | (h as u8)]; op.len() == q_len(op[0] as int) && op[0] == h && q_px(b + op, s) == px })
{ lemma_bits_enc(); let op = seq![0x00u8 | (h as u8)]; assert((b + op)[s.pos] == op[0]); }
pub proof fn lemma_op_diff(b: Seq<u8>, s: QS, pp: Seq<u8>, px: Seq<u8>)
    requires q_wf(s), s.pos == b.len(), s.px == pp, px.len() == 4, px[3] == pp[3], !(2 <= ws(px[0], pp[0]) <= 253), !(2 <= ws(px[1], pp[1]) <= 253), !(2 <= ws(px[2], pp[2]) <= 253),
    ensures ({ let op = seq![0x40u8 | (wa(ws(px[0], pp[0]), 2) << 4) | (wa(ws(px[1], pp[1]), 2) << 2) | wa(ws(px[2], pp[2]), 2)]; op.len() == q_len(op[0] as int) && 64 <= op[0] < 128 && q_px(b + op, s) == px })
{ lemma_bits_enc(); let x = wa(ws(px[0], pp[0]), 2); let y = wa(ws(px[1], pp[1]), 2); let z = wa(ws(px[2], pp[2]), 2); let op = seq![0x40u8 | (x << 4) | (y << 2) | z];
  lemma_enc_diff(px[0], pp[0]); lemma_enc_diff(px[1], pp[1]); lemma_enc_diff(px[2], pp[2]);
  assert(op[0] == 64 + 16 * x + 4 * y + z); let c = op[0] as int; assert((c / 16) % 4 == x && (c / 4) % 4 == y && c % 4 == z);
  assert((b + op)[s.pos] == op[0]); assert(q_px(b + op, s) =~= px); }
pub proof fn lemma_op_luma(b: Seq<u8>, s: QS, pp: Seq<u8>, px: Seq<u8>)
    requires q_wf(s), s.pos == b.len(), s.px == pp, px.len() == 4, px[3] == pp[3], !(8 <= ws(ws(px[0], pp[0]), ws(px[1], pp[1])) <= 247), !(32 <= ws(px[1], pp[1]) <= 223), !(8 <= ws(ws(px[2], pp[2]), ws(px[1], pp[1])) <= 247),
    ensures ({ let vg = ws(px[1], pp[1]); let op = seq![0x80u8 | wa(vg, 32), (wa(ws(ws(px[0], pp[0]), vg), 8) << 4) | wa(ws(ws(px[2], pp[2]), vg), 8)]; op.len() == q_len(op[0] as int) && 128 <= op[0] < 192 && q_px(b + op, s) == px })
{ lemma_bits_enc(); let vg = ws(px[1], pp[1]); let x = wa(ws(ws(px[0], pp[0]), vg), 8); let z = wa(ws(ws(px[2], pp[2]), vg), 8); let op = seq![0x80u8 | wa(vg, 32), (x << 4) | z];
  lemma_enc_luma(px[0], pp[0], px[1], pp[1]); lemma_enc_luma(px[2], pp[2], px[1], pp[1]);
  let c = op[0] as int; let e = op[1] as int;
  assert(c == 128 + wa(vg, 32) && c % 64 == wa(vg, 32));
  assert(e == 16 * x + z && e / 16 == x && e % 16 == z);
  assert((b + op)[s.pos] == op[0] && (b + op)[s.pos + 1] == op[1]); assert(q_px(b + op, s) =~= px); }
pub proof fn lemma_op_rgb(b: Seq<u8>, s: QS, pp: Seq<u8>, px: Seq<u8>)
    requires q_wf(s), s.pos == b.len(), s.px == pp, px.len() == 4,
    ensures px[3] == pp[3] ==> q_px(b + seq![0xfeu8, px[0], px[1], px[2]], s) == px, q_px(b + seq![0xffu8, px[0], px[1], px[2], px[3]], s) == px,
{ let op = seq![0xfeu8, px[0], px[1], px[2]]; assert((b + op)[s.pos] == op[0] && (b + op)[s.pos + 1] == op[1] && (b + op)[s.pos + 2] == op[2] && (b + op)[s.pos + 3] == op[3]); if px[3] == pp[3] { assert(q_px(b + op, s) =~= px); }
  let oq = seq![0xffu8, px[0], px[1], px[2], px[3]]; assert((b + oq)[s.pos] == oq[0] && (b + oq)[s.pos + 1] == oq[1] && (b + oq)[s.pos + 2] == oq[2] && (b + oq)[s.pos + 3] == oq[3] && (b + oq)[s.pos + 4] == oq[4]); assert(q_px(b + oq, s) =~= px); }
pub proof fn lemma_enc_step(b: Seq<u8>, data: Seq<u8>, ch: int, k: int, pp: Seq<u8>, eidx: Seq<Seq<u8>>, px: Seq<u8>)
    requires einv(b, data, ch, k, 0, pp, eidx), px == epx(data, ch, k), px.len() == 4, px != pp,
    ensures einv(b + enc_op(pp, eidx, px), data, ch, k + 1, 0, px, eidx.update(q_hash(px), px)), 1 <= enc_op(pp, eidx, px).len() <= 5, 0 <= q_hash(px) < 64,
{
    hide(q_px); hide(q_n); hide(ws); hide(wa);
    let op = enc_op(pp, eidx, px); let s = q_n(b, k); lemma_q_wf(b, k); let h = q_hash(px); assert(0 <= h < 64);
    if eidx[h] == px {
        assert(q_hash(q_zero()) == 0);
        assert(h != 53 || px != q_zero());
        assert(s.idx[h] == px);
        lemma_op_index(b, s, h, px);
    } else if px[3] == pp[3] {
        let vr = ws(px[0], pp[0]); let vg = ws(px[1], pp[1]); let vb = ws(px[2], pp[2]); let vg_r = ws(vr, vg); let vg_b = ws(vb, vg);
        if !(2 <= vr <= 253) && !(2 <= vg <= 253) && !(2 <= vb <= 253) { lemma_op_diff(b, s, pp, px); }
        else if !(8 <= vg_r <= 247) && !(32 <= vg <= 223) && !(8 <= vg_b <= 247) { lemma_op_luma(b, s, pp, px); }
        else { lemma_op_rgb(b, s, pp, px); }
    } else { lemma_op_rgb(b, s, pp, px); }
    lemma_enc_op(b, op, data, ch, k, pp, eidx, px);
}
pub proof fn lemma_einv_more(b: Seq<u8>, data: Seq<u8>, ch: int, k: int, run: int, pp: Seq<u8>, eidx: Seq<Seq<u8>>)
    requires einv(b, data, ch, k, run, pp, eidx), run < 62, epx(data, ch, k) == pp
    ensures einv(b, data, ch, k + 1, run + 1, pp, eidx)
{}
impl<'a> QoiEncoder<'a> {
//@fn crates/zune-qoi/src/encoder.rs :: QoiEncoder::encode_headers
//@ret r
//@sub &SUPPORTED_COLORSPACES => &[]
//@spec
    requires self.options.height != 0, self.options.width * self.options.height * self.options.colorspace.ncomp() <= usize::MAX, self.options.width * self.options.height <= usize::MAX, old(writer).bytes_written + 14 <= usize::MAX,
    ensures r.is_ok() ==> {
        &&& self.options.colorspace == ColorSpace::RGB || self.options.colorspace == ColorSpace::RGBA
        &&& self.options.width <= u32::MAX && self.options.height <= u32::MAX
        &&& self.pixel_data.len() == self.options.width * self.options.height * self.options.colorspace.ncomp()
        &&& final(writer).out() == old(writer).out() + hdr_bytes(self.options.width as u32, self.options.height as u32, self.options.colorspace.ncomp() as u8)
        &&& final(writer).bytes_written == old(writer).bytes_written + 14 },
//@at before tail
    proof { assert(writer.out() =~= old(writer).out() + hdr_bytes(self.options.width as u32, self.options.height as u32, self.options.colorspace.ncomp() as u8)); }
//@end
//@fn crates/zune-qoi/src/encoder.rs :: QoiEncoder::encode
//@ret r
//@sig
    fn encode<T: ZByteWriterTrait>(&mut self, sink: T, vx_out: &mut Ghost<Seq<u8>>) -> (r: Result<usize, QoiEncodeErrors>)
//@spec
    requires old(self).options.height != 0, old(self).options.width * old(self).options.height * old(self).options.colorspace.ncomp() <= usize::MAX, old(self).options.width * old(self).options.height <= usize::MAX, old(self).pixel_data.len() <= isize::MAX,
    ensures r.is_ok() ==> ({ let o = old(self).options; let nc = o.colorspace.ncomp(); let n = (o.width * o.height) as int;
        &&& o.colorspace == ColorSpace::RGB || o.colorspace == ColorSpace::RGBA
        &&& o.width <= u32::MAX && o.height <= u32::MAX
        &&& old(self).pixel_data.len() == n * nc
        &&& exists|body: Seq<u8>| final(vx_out)@ == sink.sunk() + hdr_bytes(o.width as u32, o.height as u32, nc as u8) + body && #[trigger] enc_ok(body, old(self).pixel_data@, nc, n) && r.unwrap() == 14 + body.len() }),
//@at begin
    hide(q_n); hide(q_step); hide(q_px); hide(be32b); hide(be64b); hide(be32); hide(w8); hide(epx); hide(einv); hide(hdr_bytes); hide(q_hash); hide(enc_op);
    let ghost pre = sink.sunk();
//@loop 0
    channel_count == 3 || channel_count == 4, channel_count == self.options.colorspace.ncomp(), vx_c0 == self.pixel_data.len() / channel_count, *self == *old(self), self.pixel_data.len() <= isize::MAX,
    stream.out() == hd + body, stream.bytes_written == 14 + body.len(), body.len() + (if run > 0 { 1int } else { 0 }) <= 5 * vx_i0, run <= 61, channel_count == 3 ==> px@[3] == 255,
    einv(body, data, ch, vx_i0 as int, run as int, px_prev@, Seq::new(64, |j: int| index@[j]@)), data == self.pixel_data@, ch == channel_count,
//@at after let channel_count
    let ghost hd = stream.out(); let ghost mut body: Seq<u8> = Seq::empty(); let ghost data = self.pixel_data@; let ghost ch = channel_count as int;
    let ghost n2 = (self.options.width * self.options.height) as int; let ghost mut run2: int = 0;
    proof { lemma_enc_init(data, ch); assert(hd + Seq::<u8>::empty() =~= hd); assert(px_prev@ =~= q_first());
        assert(Seq::new(64, |j: int| index@[j]@) =~= Seq::new(64, |i: int| q_zero())) by { assert forall|j: int| 0 <= j < 64 implies index@[j]@ == q_zero() by { assert(index@[j]@ =~= q_zero()); } } }
//@at loop 0 begin
    let ghost b0 = body; let ghost pp0 = px_prev@; let ghost run0 = run as int; let ghost k = vx_k0 as int; let ghost mut o1 = stream.out(); let ghost mut b1 = body; let ghost index0 = index; let ghost mut lit = false; let ghost ix0 = Seq::new(64, |j: int| index@[j]@);
    proof { let n = self.pixel_data.len() as int; let z = channel_count as int; lemma_fundamental_div_mod(n, z); assert(vx_k0 * z + z <= n && 0 <= vx_k0 * z) by(nonlinear_arith) requires 0 <= vx_k0 < n / z, n == z * (n / z) + n % z, z > 0, n % z >= 0; 
        assert(5 * vx_c0 <= 5 * (n / 3)) by { assert(n / z <= n / 3) by(nonlinear_arith) requires z >= 3, n >= 0; }
        assert forall|b: Seq<u8>, x: Seq<u8>| #[trigger] ((hd + b) + x) == hd + (b + x) by { assert((hd + b) + x =~= hd + (b + x)); } }
//@at after let index_pos
    proof { assert(px@ == epx(data, ch, k)) by { reveal(epx); assert(px@ =~= epx(data, ch, k)); }
        assert(index_pos as int == q_hash(px@)) by { reveal(q_hash); } o1 = stream.out(); lit = true;
        b1 = if run0 > 0 { let c = 0xc0u8 | ((run0 - 1) as u8); lemma_bits_enc(); assert(b0 + seq![c] =~= b0.push(c)); lemma_enc_run(b0, c, data, ch, k, run0, pp0, ix0); b0 + seq![c] } else { b0 };
        assert(o1 == hd + b1); assert(einv(b1, data, ch, k, 0, pp0, ix0)); assert(stream.bytes_written == 14 + b1.len()); assert(run == 0);
        lemma_enc_step(b1, data, ch, k, pp0, ix0, px@); lemma_be32(px@);
        assert(ix0.len() == 64); assert(0 <= q_hash(px@) < 64); assert(index@[index_pos as int]@ == ix0[q_hash(px@)]); }
//@at after call write_u8_err 3
    proof { assert(index@ == index0@); assert(index_pos as u8 == q_hash(px@) as u8); assert(ix0[q_hash(px@)] == px@); assert(QOI_OP_INDEX == 0u8); assert(enc_op(pp0, ix0, px@) == seq![0x00u8 | (index_pos as u8)]) by { reveal(enc_op); } }
    proof { assert(stream.out() =~= o1 + enc_op(pp0, ix0, px@)) by { reveal(enc_op); } body = b1 + enc_op(pp0, ix0, px@); assert(stream.out() == hd + body); assert(stream.bytes_written - (14 + b1.len()) == stream.out().len() - o1.len()); assert(stream.bytes_written == 14 + body.len()); }
//@at after call write_u8_err 4
    proof { assert(stream.out() =~= o1 + enc_op(pp0, ix0, px@)) by { reveal(enc_op); } body = b1 + enc_op(pp0, ix0, px@); assert(stream.out() == hd + body); assert(stream.bytes_written - (14 + b1.len()) == stream.out().len() - o1.len()); assert(stream.bytes_written == 14 + body.len()); }
//@at after call write_u8_err 6
    proof { assert(stream.out() =~= o1 + enc_op(pp0, ix0, px@)) by { reveal(enc_op); } body = b1 + enc_op(pp0, ix0, px@); assert(stream.out() == hd + body); assert(stream.bytes_written - (14 + b1.len()) == stream.out().len() - o1.len()); assert(stream.bytes_written == 14 + body.len()); }
//@at after call write_const_bytes
    proof { assert(stream.out() =~= o1 + enc_op(pp0, ix0, px@)) by { reveal(enc_op); } body = b1 + enc_op(pp0, ix0, px@); assert(stream.out() == hd + body); assert(stream.bytes_written - (14 + b1.len()) == stream.out().len() - o1.len()); assert(stream.bytes_written == 14 + body.len()); }
//@at after call write_u32_be_err
    proof { assert(stream.out() =~= o1 + enc_op(pp0, ix0, px@)) by { reveal(enc_op); } body = b1 + enc_op(pp0, ix0, px@); assert(stream.out() == hd + body); assert(stream.bytes_written - (14 + b1.len()) == stream.out().len() - o1.len()); assert(stream.bytes_written == 14 + body.len()); }
//@at after assign index
    proof { assert(index@ =~= index0@.update(q_hash(px@), px)); }
//@at loop 0 end
    proof {
        let e1 = Seq::new(64, |j: int| index@[j]@);
        if !lit {
            assert(px@ == epx(data, ch, k)) by { reveal(epx); assert(px@ =~= epx(data, ch, k)); }
            assert(px@ == pp0);
            lemma_einv_more(b0, data, ch, k, run0, pp0, ix0); assert(e1 =~= ix0);
            if run0 + 1 == 62 { body = b0 + seq![0xc0u8 | 61u8]; lemma_bits_enc(); assert(b0 + seq![0xc0u8 | 61u8] =~= b0.push(0xc0u8 | 61u8)); lemma_enc_run(b0, 0xc0u8 | 61u8, data, ch, k + 1, 62, pp0, ix0); }
        } else {
            assert(e1 =~= ix0.update(q_hash(px@), px@));
        }
        assert(einv(body, data, ch, k + 1, run as int, px@, e1)); assert(body.len() + (if run > 0 { 1int } else { 0 }) <= 5 * (k + 1)); assert(stream.bytes_written == 14 + body.len());
    }
//@at after loop 0
    proof { run2 = run as int; assert(self.pixel_data.len() == n2 * ch); assert(n2 >= 0) by(nonlinear_arith) requires n2 == self.options.width * self.options.height; assert(ch * n2 == n2 * ch) by(nonlinear_arith); lemma_fundamental_div_mod_converse(n2 * ch, ch, n2, 0); assert(vx_c0 == n2); 
        assert(5 * vx_c0 + 200 <= usize::MAX);
        assert forall|b: Seq<u8>, x: Seq<u8>| #[trigger] ((hd + b) + x) == hd + (b + x) by { assert((hd + b) + x =~= hd + (b + x)); } }
//@at before tail
    *vx_out = Ghost(stream.out());
    proof {
        let ix2 = Seq::new(64, |j: int| index@[j]@);
        let b3 = if run2 > 0 { let c = 0xc0u8 | ((run2 - 1) as u8); lemma_bits_enc(); assert(body + seq![c] =~= body.push(c)); lemma_enc_run(body, c, data, ch, n2, run2, px_prev@, ix2); body + seq![c] } else { body };
        lemma_enc_done(b3, data, ch, n2, px_prev@, ix2); lemma_be64();
        assert(stream.out() == hd + (b3 + q_trailer()));
        assert(enc_ok(b3 + q_trailer(), data, ch, n2));
    }
//@end
}
