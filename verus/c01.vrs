//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
//@include qoi.inc
//@include qoidec.inc
//@include qoienc.inc
/// the round trip, over the contracts: whatever `encode` leaves in a sink, given to a decoder whose limits admit the size, is accepted (q_valid is
/// the contract's sufficient condition for Ok) and every Ok of the decoder returns the input's dimensions, colour space and bytes
pub proof fn theorem_qoi_roundtrip<T: ZByteReaderTrait>(data: Seq<u8>, w: usize, h: usize, cs: ColorSpace, body: Seq<u8>, d: Seq<u8>, o: DecoderOptions, dec: QoiDecoder<T>, pixels: Seq<u8>)
    requires cs == ColorSpace::RGB || cs == ColorSpace::RGBA, 1 <= w <= u32::MAX, 1 <= h <= u32::MAX, data.len() == w * h * cs.ncomp(),
        d == hdr_bytes(w as u32, h as u32, cs.ncomp() as u8) + body, enc_ok(body, data, cs.ncomp(), w * h),
    ensures
        w <= o.max_width && h <= o.max_height ==> QoiDecoder::<T>::q_valid(d, 0, o),
        dec.hdr_ok(d, 0) && dec.dec_ok(d, 14, pixels) && pixels.len() == dec.width * dec.height * dec.colorspace.ncomp() ==> dec.width == w && dec.height == h && dec.colorspace == cs && pixels == data,
{
    let nc = cs.ncomp(); let n = w * h; let s = q_n(body, n); let hb = hdr_bytes(w as u32, h as u32, nc as u8);
    assert(n >= 1) by(nonlinear_arith) requires n == w * h, w >= 1, h >= 1;
    lemma_be32_back(w as u32); lemma_be32_back(h as u32); lemma_be32_back(0x716f6966u32);
    assert(hb.len() == 14);
    assert(d.subrange(14, d.len() as int) =~= body);
    assert(d.subrange(4, 8) =~= be32b(w as u32)); assert(d.subrange(8, 12) =~= be32b(h as u32));
    assert(d.subrange(0, 4) =~= be32b(0x716f6966u32));
    assert((0x716f6966u32 >> 24) as u8 == 0x71 && (0x716f6966u32 >> 16) as u8 == 0x6f && (0x716f6966u32 >> 8) as u8 == 0x69 && 0x716f6966u32 as u8 == 0x66) by(bit_vector);
    assert(be32b(0x716f6966u32) =~= seq![0x71u8, 0x6f, 0x69, 0x66]);
    assert(d[12] == nc as u8 && d[13] == 0);
    if dec.hdr_ok(d, 0) && dec.dec_ok(d, 14, pixels) && pixels.len() == dec.width * dec.height * dec.colorspace.ncomp() {
        assert(dec.width == w && dec.height == h);
        assert(dec.colorspace == cs);
        reveal(pixok); lemma_q_wf(body, n);
        assert forall|i: int| 0 <= i < data.len() implies pixels[i] == data[i] by {
            let k = i / nc; let c = i % nc;
            lemma_fundamental_div_mod(i, nc);
            assert(0 <= k < n && 0 <= c < nc && i == k * nc + c) by(nonlinear_arith) requires nc >= 1, 0 <= i < n * nc, k == i / nc, c == i % nc, i == nc * (i / nc) + i % nc;
            assert(s.out[k] == epx(data, nc, k));
            assert(pixels[k * nc + c] == s.out[k][c]);
        }
        assert(pixels =~= data);
    }
}
pub proof fn lemma_be32_back(v: u32) ensures be32b(v).len() == 4, be32(be32b(v)) == v
{ assert((((v >> 24) as u8 as u32) << 24) | (((v >> 16) as u8 as u32) << 16) | (((v >> 8) as u8 as u32) << 8) | (v as u8 as u32) == v) by(bit_vector); }
//@include prelude_end.inc
