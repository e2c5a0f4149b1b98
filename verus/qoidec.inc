// ===== the decoder =====
#[derive(Copy, Clone)]
//@type crates/zune-qoi/src/decoder.rs :: QoiColorspace
//@end
//@type crates/zune-qoi/src/errors.rs :: QoiErrors
//@attrs #[derive(Debug)]
//@end
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for QoiErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> QoiErrors { QoiErrors::IoErrors(v) } }
impl From<ZByteIoError> for QoiErrors {
    fn from(value: ZByteIoError) -> QoiErrors { QoiErrors::IoErrors(value) } //TRUST: error type conversions (From impls) re-declared; error values carry no meaning in any contract
}
//@type crates/zune-qoi/src/decoder.rs :: QoiDecoder
//@end
/// bit level: the hash the decoder computes is the hash of the format
pub proof fn lemma_hash(px: Seq<u8>)
    requires px.len() == 4
    ensures ({ let v = le32(px) as u64; let s = ((v << 32) | v) & 0xFF00FF0000FF00FFu64; let m = ((s * 0x030007000005000Bu64) % 0x1_0000_0000_0000_0000) as u64;
        ((swap64(m) as u8) & 63) as int == q_hash(px) }), 0 <= q_hash(px) < 64,
{
    let r = px[0]; let g = px[1]; let b = px[2]; let a = px[3];
    let v = le32(px) as u64; let s = ((v << 32) | v) & 0xFF00FF0000FF00FFu64;
    assert((s * 0x030007000005000Bu64) as u64 == (s * 0x030007000005000Bu64) % 0x1_0000_0000_0000_0000) by(bit_vector);
    let m = (s * 0x030007000005000Bu64) as u64;
    assert({ let v = ((((a as u32) << 24) | ((b as u32) << 16) | ((g as u32) << 8) | (r as u32))) as u64; let s = ((v << 32) | v) & 0xFF00FF0000FF00FFu64; (((s * 0x030007000005000Bu64) as u64) >> 56) & 63 == ((r as u64)*3 + (g as u64)*5+(b as u64)*7+(a as u64)*11) % 64}) by(bit_vector);
    assert(((((m & 0xff) << 56) | ((m & 0xff00) << 40) | ((m & 0xff0000) << 24) | ((m & 0xff000000) << 8) | ((m >> 8) & 0xff000000) | ((m >> 24) & 0xff0000) | ((m >> 40) & 0xff00) | (m >> 56)) as u8) & 63 == ((m >> 56) & 63)) by(bit_vector);
}
/// bit level: field extraction of an operation byte
pub proof fn lemma_ops(c: u8)
    ensures (c & 0xc0 == 0) == (c < 64), (c & 0xc0 == 0x40) == (64 <= c < 128), (c & 0xc0 == 0x80) == (128 <= c < 192), (c & 0xc0 == 0xc0) == (192 <= c),
        (c as usize) & 63 == (c % 64), (c & 0x3f) == c % 64, ((c >> 4) & 3) == (c / 16) % 4, ((c >> 2) & 3) == (c / 4) % 4, (c & 3) == c % 4, ((c >> 0) & 3) == c % 4,
        ((c >> 4) & 0x0f) == c / 16, ((c >> 0) & 0x0f) == c % 16, (c & 0x0f) == c % 16,
{
    assert((c & 0xc0 == 0) == (c < 64) && (c & 0xc0 == 0x40) == (64 <= c && c < 128) && (c & 0xc0 == 0x80) == (128 <= c && c < 192) && (c & 0xc0 == 0xc0) == (192 <= c)) by(bit_vector);
    assert((c as usize) & 63 == (c % 64) && (c & 0x3f) == c % 64 && ((c >> 4) & 3) == (c / 16) % 4 && ((c >> 2) & 3) == (c / 4) % 4 && (c & 3) == c % 4 && ((c >> 0) & 3) == c % 4) by(bit_vector);
    assert(((c >> 4) & 0x0f) == c / 16 && ((c >> 0) & 0x0f) == c % 16 && (c & 0x0f) == c % 16) by(bit_vector);
}
pub open spec fn wa(a: u8, b: u8) -> u8 { vstd::wrapping::u8_specs::wrapping_add(a, b) }
pub open spec fn ws(a: u8, b: u8) -> u8 { vstd::wrapping::u8_specs::wrapping_sub(a, b) }
pub proof fn lemma_diff(p: u8, f: u8) requires f < 4 ensures wa(p, ws(f, 2)) == w8(p + f - 2) {}
pub proof fn lemma_luma(p: u8, f: u8, x: u8) requires f < 64, x < 16 ensures wa(p, wa(ws(ws(f, 32), 8), x)) == w8(p + (f - 32) - 8 + x), wa(p, ws(f, 32)) == w8(p + (f - 32)) {}
/// the first n pixels of the buffer are the first n pixels of `out`, z channels each
#[verifier::opaque]
pub open spec fn pixok(pixels: Seq<u8>, out: Seq<Seq<u8>>, n: int, z: int) -> bool { forall|k: int, c: int| #![trigger out[k][c]] 0 <= k < n && 0 <= c < z ==> pixels[k * z + c] == out[k][c] }
pub proof fn lemma_pixok_step(p0: Seq<u8>, p1: Seq<u8>, out: Seq<Seq<u8>>, px: Seq<u8>, k: int, z: int, lo: int)
    requires pixok(p0, out, k, z), 0 <= k, 0 < z <= 4, px.len() == 4, out.len() == k, lo == k * z, p0.len() == p1.len(), lo + z <= p0.len(),
        forall|i: int| 0 <= i < lo ==> p1[i] == p0[i], forall|c: int| 0 <= c < z ==> p1[lo + c] == px[c],
    ensures pixok(p1, out.push(px), k + 1, z),
{
    reveal(pixok);
    let o1 = out.push(px);
    assert forall|q: int, c: int| #![trigger o1[q][c]] 0 <= q < k + 1 && 0 <= c < z implies p1[q * z + c] == o1[q][c] by {
        if q < k { assert(q * z + z <= k * z) by(nonlinear_arith) requires q + 1 <= k, z > 0; assert(0 <= q * z) by(nonlinear_arith) requires 0 <= q, z > 0; assert(o1[q] == out[q]); assert(p0[q * z + c] == out[q][c]); } else { assert(o1[q] == px); }
    }
}
pub proof fn lemma_pixok_prefix(q: Seq<u8>, r: Seq<u8>, o: Seq<Seq<u8>>, n: int, z: int)
    requires pixok(q, o, n, z), q.len() == n * z, r.len() >= q.len(), forall|i: int| 0 <= i < q.len() ==> r[i] == q[i], n >= 0, z > 0
    ensures pixok(r, o, n, z)
{ reveal(pixok); assert forall|k: int, c: int| #![trigger o[k][c]] 0 <= k < n && 0 <= c < z implies r[k * z + c] == o[k][c] by { assert(0 <= k * z && k * z + z <= n * z) by(nonlinear_arith) requires 0 <= k, k + 1 <= n, z > 0; assert(q[k * z + c] == o[k][c]); } }
/// one operation, element by element
pub proof fn lemma_q_op(b: Seq<u8>, s: QS, s1: QS)
    requires q_wf(s), s.ok, s.run == 0, s1 == q_step(b, s)
    ensures !s1.ok <==> (s.pos >= b.len() || s.pos + q_len(b[s.pos] as int) > b.len()),
        s1.ok ==> q_wf(s1) && s1.pos == s.pos + q_len(b[s.pos] as int) && s1.out == s.out.push(s1.px) && s1.idx == s.idx.update(q_hash(s1.px), s1.px) && 0 <= q_hash(s1.px) < 64,
        s1.ok ==> ({ let c = b[s.pos] as int; let p = s.px;
            &&& s1.run == (if 192 <= c < 254 { c % 64 } else { 0 })
            &&& c == 254 ==> s1.px[0] == b[s.pos + 1] && s1.px[1] == b[s.pos + 2] && s1.px[2] == b[s.pos + 3] && s1.px[3] == p[3]
            &&& c == 255 ==> s1.px[0] == b[s.pos + 1] && s1.px[1] == b[s.pos + 2] && s1.px[2] == b[s.pos + 3] && s1.px[3] == b[s.pos + 4]
            &&& c < 64 ==> s1.px == s.idx[c]
            &&& 64 <= c < 128 ==> s1.px[0] == w8(p[0] + (c / 16) % 4 - 2) && s1.px[1] == w8(p[1] + (c / 4) % 4 - 2) && s1.px[2] == w8(p[2] + c % 4 - 2) && s1.px[3] == p[3]
            &&& 128 <= c < 192 ==> s1.px[0] == w8(p[0] + (c % 64 - 32) - 8 + b[s.pos + 1] as int / 16) && s1.px[1] == w8(p[1] + (c % 64 - 32)) && s1.px[2] == w8(p[2] + (c % 64 - 32) - 8 + b[s.pos + 1] as int % 16) && s1.px[3] == p[3]
            &&& 192 <= c < 254 ==> s1.px == p
        }),
        !s1.ok ==> s1 == (QS { ok: false, ..s }),
{
    if s.pos < b.len() && s.pos + q_len(b[s.pos] as int) <= b.len() { let px = q_px(b, s); assert(px.len() == 4); assert(0 <= q_hash(px) < 64); }
}
pub proof fn lemma_q_init(b: Seq<u8>) ensures q_n(b, 0) == q_init() {}
pub proof fn lemma_q_next(b: Seq<u8>, k: int)
    requires k >= 0
    ensures ({ let s0 = q_n(b, k); let s1 = q_n(b, k + 1);
        &&& q_wf(s0) && q_wf(s1) && s1 == q_step(b, s0)
        &&& s0.ok ==> s0.pos <= b.len() && s0.out.len() == k
        &&& s0.ok && s0.run > 0 ==> s1 == QS { run: s0.run - 1, out: s0.out.push(s0.px), ..s0 }
        &&& !s0.ok ==> s1 == s0 }),
{ lemma_q_wf(b, k); lemma_q_wf(b, k + 1); }
impl<T: ZByteReaderTrait> QoiDecoder<T> {
//@fn crates/zune-qoi/src/decoder.rs :: QoiDecoder::decode_inner_generic
//@ret r
//@spec
    requires old(self).stream.wf(), SIZE == 3 || SIZE == 4, old(pixels).len() % SIZE == 0,
    ensures
        final(pixels).len() == old(pixels).len(), final(self).stream.data() == old(self).stream.data(), final(self).stream.wf(),
        final(self).width == old(self).width, final(self).height == old(self).height, final(self).colorspace == old(self).colorspace, final(self).options == old(self).options, final(self).decoded_headers == old(self).decoded_headers,
        ({
            let d = old(self).stream.data(); let p0 = old(self).stream.pos();
            let b = if p0 <= d.len() { d.subrange(p0, d.len() as int) } else { Seq::empty() };
            let n = (old(pixels).len() / SIZE) as int; let s = q_n(b, n);
            &&& r.is_ok() ==> s.ok && s.pos + 8 <= b.len()
            &&& r.is_ok() && old(self).options.strict() ==> b.subrange(s.pos, s.pos + 8) == q_trailer()
            &&& s.ok && s.pos + 8 <= b.len() && (b.subrange(s.pos, s.pos + 8) == q_trailer() || !old(self).options.strict()) ==> r.is_ok()
            &&& r.is_ok() ==> pixok(final(pixels)@, s.out, n, SIZE as int)
        }),
//@at begin
    hide(q_n); hide(q_step); hide(q_px); hide(q_hash); hide(w8); hide(be32); hide(le32);
    let ghost d = self.stream.data(); let ghost p0 = self.stream.pos(); let ghost b = if p0 <= d.len() { d.subrange(p0, d.len() as int) } else { Seq::empty() };
    let ghost opts = self.options;
    proof { reveal(pixok); lemma_q_init(b); }
//@loop 0
    vx_c0 == pixels.len() / SIZE, SIZE == 3 || SIZE == 4, pixels.len() == old(pixels).len(), pixels.len() % SIZE == 0,
    self.stream.wf(), self.stream.data() == d, p0 >= 0, p0 == old(self).stream.pos(), self.options == opts, self.width == old(self).width, self.height == old(self).height, self.colorspace == old(self).colorspace, self.decoded_headers == old(self).decoded_headers, LAST_BYTES@ == q_trailer(),
    b == (if p0 <= d.len() { d.subrange(p0, d.len() as int) } else { Seq::empty() }),
    ({ let s = q_n(b, vx_i0 as int);
        &&& s.ok ==> px@ == s.px && run as int == s.run && (forall|j: int| 0 <= j < 64 ==> (#[trigger] index@[j])@ == s.idx[j])
        &&& s.ok && p0 <= d.len() ==> self.stream.pos() == p0 + s.pos
        &&& s.ok && p0 > d.len() ==> self.stream.pos() >= p0
        &&& !s.ok ==> self.stream.pos() + 8 > d.len()
        &&& s.ok ==> pixok(pixels@, s.out, vx_i0 as int, SIZE as int)
    }),
//@at loop 0 begin
    let ghost s0 = q_n(b, vx_k0 as int); let ghost s1 = q_n(b, vx_k0 as int + 1); let ghost opix = pixels@; let ghost opos = self.stream.pos(); let ghost opx = px@; let ghost oidx = index@;
    proof { lemma_q_next(b, vx_k0 as int);
        if p0 <= d.len() { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == d[p0 + i] by {} }
        if s0.ok && s0.run == 0 { lemma_q_op(b, s0, s1); }
    }
    let ghost lo = vx_k0 * SIZE;
    proof { let n = pixels.len() as int; let z = SIZE as int; lemma_fundamental_div_mod(n, z); assert(vx_k0 * z + z <= n && 0 <= vx_k0 * z) by(nonlinear_arith) requires 0 <= vx_k0 < n / z, n == z * (n / z) + n % z, z > 0, n % z >= 0; }
//@at loop 0 end
    proof { 
        if s1.ok { assert(px@ =~= s1.px);
            if s0.run == 0 { assert(index@ =~= oidx.update(q_hash(s1.px), px)); }
            lemma_pixok_step(opix, pixels@, s0.out, s1.px, vx_k0 as int, SIZE as int, lo as int); }
    }
//@at after let chunk
    proof { lemma_ops(chunk); lemma_diff(px@[0], (chunk / 16) % 4); lemma_diff(px@[1], (chunk / 4) % 4); lemma_diff(px@[2], chunk % 4); }
//@at after let b2
    proof { lemma_ops(b2); lemma_luma(px@[0], chunk % 64, b2 / 16); lemma_luma(px@[2], chunk % 64, b2 % 16); lemma_luma(px@[1], chunk % 64, 0); }
//@at after let v
    proof { lemma_hash(px@); }
//@at after loop 0
    proof { let n = (pixels.len() / SIZE) as int; lemma_q_wf(b, n);
        assert forall|q: int| 0 <= q && q + 8 <= b.len() && p0 <= d.len() implies #[trigger] b.subrange(q, q + 8) == d.subrange(p0 + q, p0 + q + 8) by { assert(b.subrange(q, q + 8) =~= d.subrange(p0 + q, p0 + q + 8)); } }
//@end

/// what an accepted header means
pub open spec fn hdr_ok(&self, d: Seq<u8>, p: int) -> bool {
    &&& p + 4 <= d.len() && d[p] == 0x71 && d[p + 1] == 0x6f && d[p + 2] == 0x69 && d[p + 3] == 0x66
    &&& p + 12 <= d.len() && self.width as int == be32(d.subrange(p + 4, p + 8)) as int && self.height as int == be32(d.subrange(p + 8, p + 12)) as int
    &&& p + 12 < d.len() && (d[p + 12] == 3 || d[p + 12] == 4) && self.colorspace == (if d[p + 12] == 3 { ColorSpace::RGB } else { ColorSpace::RGBA })
    &&& 1 <= self.width <= self.options.max_width && 1 <= self.height <= self.options.max_height
    &&& self.options.strict() && p + 13 < d.len() ==> d[p + 13] <= 1
}
pub open spec fn hdr_ready(&self) -> bool { self.decoded_headers ==> self.width <= 0xffff_ffff && self.height <= 0xffff_ffff && self.width > 0 && self.height > 0 && self.width <= self.options.max_width && self.height <= self.options.max_height && (self.colorspace == ColorSpace::RGB || self.colorspace == ColorSpace::RGBA) }
//@fn crates/zune-qoi/src/decoder.rs :: QoiDecoder::decode_headers
//@ret r
//@sub &magic != b"qoif" => magic != [0x71u8, 0x6f, 0x69, 0x66]
//@spec
    requires old(self).stream.wf(), old(self).hdr_ready(),
    ensures final(self).stream.wf(), final(self).stream.data() == old(self).stream.data(), final(self).options == old(self).options, final(self).hdr_ready(),
        r.is_ok() ==> final(self).decoded_headers && final(self).hdr_ok(old(self).stream.data(), old(self).stream.pos()),
        r.is_ok() && old(self).stream.pos() + 14 <= old(self).stream.data().len() ==> final(self).stream.pos() == old(self).stream.pos() + 14,
        ({ let d = old(self).stream.data(); let p = old(self).stream.pos();
            p + 14 <= d.len() && d.subrange(p, p + 4) == seq![0x71u8, 0x6f, 0x69, 0x66] && 1 <= be32(d.subrange(p + 4, p + 8)) <= old(self).options.max_width && 1 <= be32(d.subrange(p + 8, p + 12)) <= old(self).options.max_height
                && (d[p + 12] == 3 || d[p + 12] == 4) && d[p + 13] <= 1 ==> r.is_ok() }),
//@at begin
    hide(be32);
    let ghost d = self.stream.data(); let ghost p = self.stream.pos();
//@end
//@fn crates/zune-qoi/src/decoder.rs :: QoiDecoder::output_buffer_size
//@ret r
//@spec
    requires self.hdr_ready(), self.options.max_width * self.options.max_height * 4 <= usize::MAX,
    ensures r.is_some() <==> self.decoded_headers, r.is_some() ==> r.unwrap() as int == self.width * self.height * self.colorspace.ncomp(),
//@at begin
    proof { let a = self.width as int; let b = self.height as int; if self.decoded_headers { let c = self.options.max_width as int; let e = self.options.max_height as int; assert(0 <= a * b && a * b <= c * e) by(nonlinear_arith) requires 0 <= a <= c, 0 <= b <= e; assert(0 <= a * b && a * b * 3 <= a * b * 4 && a * b <= a * b * 4) by(nonlinear_arith) requires a >= 0, b >= 0; } }
//@end
/// what a successful decode means: the pixels of the format's state machine run over the bytes after the header
pub open spec fn dec_ok(&self, d: Seq<u8>, p0: int, pixels: Seq<u8>) -> bool {
    let b = if p0 <= d.len() { d.subrange(p0, d.len() as int) } else { Seq::empty() };
    let n = self.width * self.height; let s = q_n(b, n);
    &&& s.ok && s.pos + 8 <= b.len()
    &&& self.options.strict() ==> b.subrange(s.pos, s.pos + 8) == q_trailer()
    &&& pixok(pixels, s.out, n, self.colorspace.ncomp())
}
/// d holds a complete QOI file at p, within the decoder's limits
pub open spec fn q_valid(d: Seq<u8>, p: int, o: DecoderOptions) -> bool {
    let w = be32(d.subrange(p + 4, p + 8)); let h = be32(d.subrange(p + 8, p + 12));
    &&& p + 14 <= d.len() && d.subrange(p, p + 4) == seq![0x71u8, 0x6f, 0x69, 0x66] && 1 <= w <= o.max_width && 1 <= h <= o.max_height && (d[p + 12] == 3 || d[p + 12] == 4) && d[p + 13] <= 1
    &&& ({ let b = d.subrange(p + 14, d.len() as int); let s = q_n(b, w * h); s.ok && s.pos + 8 <= b.len() && b.subrange(s.pos, s.pos + 8) == q_trailer() })
}
//@fn crates/zune-qoi/src/decoder.rs :: QoiDecoder::decode_into
//@ret r
//@spec
    requires old(self).stream.wf(), old(self).hdr_ready(), old(self).options.max_width * old(self).options.max_height * 4 <= usize::MAX,
    ensures final(pixels).len() == old(pixels).len(), final(self).options == old(self).options,
        old(self).decoded_headers ==> final(self).width == old(self).width && final(self).height == old(self).height && final(self).colorspace == old(self).colorspace && final(self).decoded_headers,
        r.is_ok() ==> final(self).decoded_headers && final(self).hdr_ready() && final(pixels).len() >= final(self).width * final(self).height * final(self).colorspace.ncomp(),
        r.is_ok() ==> forall|i: int| final(self).width * final(self).height * final(self).colorspace.ncomp() <= i < old(pixels).len() ==> final(pixels)@[i] == old(pixels)@[i],
        r.is_ok() && old(self).decoded_headers ==> final(self).dec_ok(old(self).stream.data(), old(self).stream.pos(), final(pixels)@),
        r.is_ok() && !old(self).decoded_headers && old(self).stream.pos() + 14 <= old(self).stream.data().len() ==> final(self).hdr_ok(old(self).stream.data(), old(self).stream.pos()) && final(self).dec_ok(old(self).stream.data(), old(self).stream.pos() + 14, final(pixels)@),
        !old(self).decoded_headers && Self::q_valid(old(self).stream.data(), old(self).stream.pos(), old(self).options) && old(pixels).len() >= be32(old(self).stream.data().subrange(old(self).stream.pos() + 4, old(self).stream.pos() + 8)) * be32(old(self).stream.data().subrange(old(self).stream.pos() + 8, old(self).stream.pos() + 12)) * 4 ==> r.is_ok(),
        old(self).decoded_headers && ({ let d = old(self).stream.data(); let p0 = old(self).stream.pos(); let b = d.subrange(p0, d.len() as int); let s = q_n(b, old(self).width * old(self).height); p0 <= d.len() && s.ok && s.pos + 8 <= b.len() && b.subrange(s.pos, s.pos + 8) == q_trailer() }) && old(pixels).len() >= old(self).width * old(self).height * old(self).colorspace.ncomp() ==> r.is_ok(),
//@at after let output_size
    let ghost opix = pixels@; let ghost np = (self.width * self.height) as int;
    proof { let nc = self.colorspace.ncomp(); assert(0 <= np) by(nonlinear_arith) requires np == self.width * self.height; lemma_fundamental_div_mod_converse(np * nc, nc, np, 0); assert(nc * np == np * nc) by(nonlinear_arith);
        assert forall|q: Seq<u8>, r: Seq<u8>, o: Seq<Seq<u8>>, n: int, z: int| #![trigger pixok(q, o, n, z), pixok(r, o, n, z)] pixok(q, o, n, z) && q.len() == n * z && r.len() >= q.len() && (forall|i: int| 0 <= i < q.len() ==> r[i] == q[i]) && n >= 0 && z > 0 implies pixok(r, o, n, z) by { lemma_pixok_prefix(q, r, o, n, z); } }
//@end
//@fn crates/zune-qoi/src/decoder.rs :: QoiDecoder::decode
//@ret r
//@spec
    requires old(self).stream.wf(), old(self).hdr_ready(), old(self).options.max_width * old(self).options.max_height * 4 <= usize::MAX,
    ensures
        r.is_ok() ==> r.unwrap().len() == final(self).width * final(self).height * final(self).colorspace.ncomp(),
        r.is_ok() && old(self).decoded_headers ==> final(self).dec_ok(old(self).stream.data(), old(self).stream.pos(), r.unwrap()@),
        r.is_ok() && !old(self).decoded_headers && old(self).stream.pos() + 14 <= old(self).stream.data().len() ==> final(self).hdr_ok(old(self).stream.data(), old(self).stream.pos()) && final(self).dec_ok(old(self).stream.data(), old(self).stream.pos() + 14, r.unwrap()@),
        !old(self).decoded_headers && Self::q_valid(old(self).stream.data(), old(self).stream.pos(), old(self).options) ==> r.is_ok(),
//@end
}
