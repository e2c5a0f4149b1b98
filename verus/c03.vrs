//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
// ===== C03: Farbfeld =====
//@type crates/zune-farbfeld/src/errors.rs :: FarbFeldErrors
//@attrs #[derive(Debug)]
//@end
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for FarbFeldErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> FarbFeldErrors { FarbFeldErrors::IoError(v) } }
impl From<ZByteIoError> for FarbFeldErrors { fn from(value: ZByteIoError) -> FarbFeldErrors { FarbFeldErrors::IoError(value) } } //TRUST: error type conversions (From impls) re-declared; error values carry no meaning in any contract
//@type crates/zune-farbfeld/src/encoder.rs :: FarbFeldEncoderErrors
//@attrs #[derive(Debug)]
//@end
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for FarbFeldEncoderErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> FarbFeldEncoderErrors { FarbFeldEncoderErrors::IOErrors(v) } }
impl From<ZByteIoError> for FarbFeldEncoderErrors { fn from(value: ZByteIoError) -> FarbFeldEncoderErrors { FarbFeldEncoderErrors::IOErrors(value) } }
//@const crates/zune-farbfeld/src/decoder.rs :: FARBFELD_COLORSPACE
//@end
//@const crates/zune-farbfeld/src/encoder.rs :: FARBFELD_HEADER_SIZE
//@end
//@type crates/zune-farbfeld/src/decoder.rs :: FarbFeldDecoder
//@end
//@type crates/zune-farbfeld/src/encoder.rs :: FarbFeldEncoder
//@end
// ---- the format (tools.suckless.org/farbfeld): "farbfeld", width and height as BE u32, then BE u16 RGBA rows ----
pub open spec fn ff_magic() -> Seq<u8> { seq![0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64] }
pub open spec fn ff_w(d: Seq<u8>, p: int) -> int { be32(d.subrange(p + 8, p + 12)) as int }
pub open spec fn ff_h(d: Seq<u8>, p: int) -> int { be32(d.subrange(p + 12, p + 16)) as int }
pub open spec fn ff_hdr(d: Seq<u8>, p: int) -> bool { p + 16 <= d.len() && d.subrange(p, p + 8) == ff_magic() }
pub open spec fn ff_px(d: Seq<u8>, p: int, k: int) -> u16 { be16(d.subrange(p + 2 * k, p + 2 * k + 2)) }
pub proof fn lemma_be64_back(s: Seq<u8>) requires s.len() == 8 ensures be64b(be64(s)) == s
{
    let a = s[0]; let b = s[1]; let c = s[2]; let d = s[3]; let e = s[4]; let f = s[5]; let g = s[6]; let h = s[7];
    let v = be64(s);
    assert(v == ((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64));
    assert((v >> 56) as u8 == a && (v >> 48) as u8 == b && (v >> 40) as u8 == c && (v >> 32) as u8 == d && (v >> 24) as u8 == e && (v >> 16) as u8 == f && (v >> 8) as u8 == g && v as u8 == h) by(bit_vector)
        requires v == ((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64);
    assert(be64b(v) =~= s);
}
impl<T: ZByteReaderTrait> FarbFeldDecoder<T> {
/// once the headers are decoded the dimensions are within the limits
pub open spec fn hdr_ready(&self) -> bool { self.decoded_headers ==> self.width <= self.options.max_width && self.height <= self.options.max_height && self.width <= u32::MAX && self.height <= u32::MAX }
//@fn crates/zune-farbfeld/src/decoder.rs :: FarbFeldDecoder::decode_headers
//@ret r
//@sub &magic_value != b"farbfeld" => magic_value != [0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]
//@spec
    requires old(self).stream.wf(), old(self).hdr_ready(),
    ensures final(self).stream.wf(), final(self).stream.data() == old(self).stream.data(), final(self).options == old(self).options, r.is_ok() ==> final(self).hdr_ready(),
        ({ let d = old(self).stream.data(); let p = old(self).stream.pos();
            &&& r.is_ok() <==> ff_hdr(d, p) && ff_w(d, p) <= old(self).options.max_width && ff_h(d, p) <= old(self).options.max_height
            &&& r.is_ok() ==> final(self).decoded_headers && final(self).width == ff_w(d, p) && final(self).height == ff_h(d, p) && final(self).stream.pos() == p + 16 }),
//@at begin
    let ghost d = self.stream.data(); let ghost p = self.stream.pos();
    proof { assert forall|s: Seq<u8>| s.len() == 8 implies be64b(#[trigger] be64(s)) == s by { lemma_be64_back(s); } assert([0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]@ =~= ff_magic()); }
//@end
//@fn crates/zune-farbfeld/src/decoder.rs :: FarbFeldDecoder::output_buffer_size
//@ret r
//@spec
    ensures r.is_some() ==> self.decoded_headers && r.unwrap() as int == self.width * self.height * 8, self.decoded_headers && self.width * self.height * 8 <= usize::MAX && self.width > 0 && self.height > 0 ==> r.is_some(),
//@at begin
    proof { let a = self.width as int; let b = self.height as int; assert(4 * a * b * 2 == a * b * 8 && 4 * a * b == a * b * 4) by(nonlinear_arith); if a > 0 && b > 0 { assert(a * b >= a && a * b >= b) by(nonlinear_arith) requires a > 0, b > 0; } }
//@end
//@fn crates/zune-farbfeld/src/decoder.rs :: FarbFeldDecoder::decode_into
//@ret r
//@spec
    requires old(self).stream.wf(), old(self).hdr_ready(),
    ensures r.is_ok() ==> final(sink).len() == old(sink).len(), final(self).options == old(self).options,
        ({ let d = old(self).stream.data(); let p = old(self).stream.pos(); let q = if old(self).decoded_headers { p } else { p + 16 };
           let w = if old(self).decoded_headers { old(self).width as int } else { ff_w(d, p) }; let h = if old(self).decoded_headers { old(self).height as int } else { ff_h(d, p) };
            &&& r.is_ok() ==> final(self).width == w && final(self).height == h && final(self).decoded_headers && (old(self).decoded_headers || ff_hdr(d, p)) && w <= old(self).options.max_width && h <= old(self).options.max_height && final(sink).len() >= w * h * 4 && (w * h == 0 || q + w * h * 8 <= d.len())
            &&& r.is_ok() ==> (forall|k: int| 0 <= k < w * h * 4 ==> #[trigger] final(sink)@[k] == ff_px(d, q, k)) && (forall|k: int| w * h * 4 <= k < old(sink).len() ==> #[trigger] final(sink)@[k] == old(sink)@[k])
            &&& (old(self).decoded_headers || ff_hdr(d, p)) && 0 < w <= old(self).options.max_width && 0 < h <= old(self).options.max_height && old(sink).len() >= w * h * 4 && w * h * 8 <= usize::MAX && q + w * h * 8 <= d.len() ==> r.is_ok() }),
//@loop 0
    d == old(self).stream.data(), q0 == old(self).stream.pos() + (if old(self).decoded_headers { 0int } else { 16 }), wid == (if old(self).decoded_headers { old(self).width as int } else { ff_w(d, old(self).stream.pos()) }), hei == (if old(self).decoded_headers { old(self).height as int } else { ff_h(d, old(self).stream.pos()) }),
    self.stream.wf(), self.stream.data() == d, q0 >= 0, expected_len == n4, n4 == wid * hei * 4, wid * hei * 8 == 2 * n4, vx_c0 == sink.len(), sink.len() == expected_len, self.width == wid, self.height == hei, self.decoded_headers, self.options == old(self).options,
    self.stream.pos() == q0 + 2 * vx_i0, vx_i0 > 0 ==> q0 + 2 * vx_i0 <= d.len(), forall|k: int| 0 <= k < vx_i0 ==> #[trigger] sink@[k] == ff_px(d, q0, k),
//@at after let expected_len
    let ghost d = self.stream.data(); let ghost q0 = self.stream.pos(); let ghost wid = self.width; let ghost hei = self.height; let ghost n4 = self.width * self.height * 4;
    proof { assert(expected_len == n4); assert(self.width * self.height * 8 == 2 * n4); }
//@at loop 0 begin
    proof { assert(vx_k0 < n4); }
//@end
//@fn crates/zune-farbfeld/src/decoder.rs :: FarbFeldDecoder::decode
//@ret r
//@spec
    requires old(self).stream.wf(), old(self).hdr_ready(),
    ensures
        ({ let d = old(self).stream.data(); let p = old(self).stream.pos(); let q = if old(self).decoded_headers { p } else { p + 16 };
           let w = if old(self).decoded_headers { old(self).width as int } else { ff_w(d, p) }; let h = if old(self).decoded_headers { old(self).height as int } else { ff_h(d, p) };
            &&& r.is_ok() ==> final(self).width == w && final(self).height == h && (old(self).decoded_headers || ff_hdr(d, p)) && w <= old(self).options.max_width && h <= old(self).options.max_height && r.unwrap().len() == w * h * 4 && (w * h == 0 || q + w * h * 8 <= d.len())
            &&& r.is_ok() ==> forall|k: int| 0 <= k < w * h * 4 ==> #[trigger] r.unwrap()@[k] == ff_px(d, q, k)
            &&& (old(self).decoded_headers || ff_hdr(d, p)) && 0 < w <= old(self).options.max_width && 0 < h <= old(self).options.max_height && w * h * 8 <= usize::MAX && q + w * h * 8 <= d.len() ==> r.is_ok() }),
//@at after let size
    proof { let a = self.width as int; let b = self.height as int; assert(4 * a * b == a * b * 4) by(nonlinear_arith); }
//@end
}
pub fn vx_arr2(s: &[u8]) -> (r: [u8; 2]) requires s.len() == 2 ensures r@ == s@ { let r = [s[0], s[1]]; assert(r@ =~= s@); r } //TRUST: slice.try_into().unwrap() to an array is replaced by an indexing helper that requires the exact length
//@fn crates/zune-farbfeld/src/encoder.rs :: calc_out_size
//@ret r
//@spec
    requires options.width * options.height * 8 + 20 <= usize::MAX, options.height > 0,
    ensures r as int == options.width * options.height * 8 + 20,
//@at begin
    proof { let a = options.width as int; let b = options.height as int; assert(a * 2 * b * 4 == a * b * 8 && a * 2 * b == a * b * 2) by(nonlinear_arith); assert(b > 0 ==> a * b >= a) by(nonlinear_arith) requires a >= 0, b >= 0; assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }
//@end
//@fn crates/zune-farbfeld/src/encoder.rs :: calc_expected_size
//@ret r
//@spec
    requires options.width * options.height * 8 + 20 <= usize::MAX, options.height > 0,
    ensures r as int == options.width * options.height * 8,
//@end
/// what a complete file looks like
pub open spec fn ff_file(data: Seq<u8>, w: int, h: int) -> Seq<u8> { ff_magic() + be32b(w as u32) + be32b(h as u32) + swapped(data) }
/// native (little-endian) samples to big-endian samples
pub open spec fn swapped(data: Seq<u8>) -> Seq<u8> { Seq::new(data.len(), |i: int| if i % 2 == 0 { data[i + 1] } else { data[i - 1] }) }
pub proof fn lemma_swap16(a: u8, b: u8) ensures be16b(le16(seq![a, b])) == seq![b, a]
{ assert(((((b as u16) << 8) | (a as u16)) >> 8) as u8 == b && (((b as u16) << 8) | (a as u16)) as u8 == a && ((((a as u16)) | ((b as u16) << 8)) >> 8) as u8 == b && (((a as u16)) | ((b as u16) << 8)) as u8 == a) by(bit_vector); assert(be16b(le16(seq![a, b])) =~= seq![b, a]); }
impl<'a> FarbFeldEncoder<'a> {
//@fn crates/zune-farbfeld/src/encoder.rs :: FarbFeldEncoder::encode_headers
//@ret r
//@sub b"farbfeld" => &[0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]
//@spec
    requires old(stream).bytes_written == 0, self.options.height > 0,
    ensures r.is_ok() ==> self.options.width <= u32::MAX && self.options.height <= u32::MAX && final(stream).bytes_written == 16 && final(stream).out() == old(stream).out() + (ff_magic() + be32b(self.options.width as u32) + be32b(self.options.height as u32)),
//@at before tail
    proof { assert([0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]@ =~= ff_magic()); assert(stream.out() =~= old(stream).out() + (ff_magic() + be32b(self.options.width as u32) + be32b(self.options.height as u32))); }
//@end
//@fn crates/zune-farbfeld/src/encoder.rs :: FarbFeldEncoder::encode
//@ret r
//@sub slice.try_into().unwrap() => vx_arr2(slice)
//@sig
    fn encode<T: ZByteWriterTrait>(&self, sink: T, vx_out: &mut Ghost<Seq<u8>>) -> (r: Result<usize, FarbFeldEncoderErrors>)
//@spec
    requires self.options.width * self.options.height * 8 + 20 <= usize::MAX, self.options.height > 0,
    ensures r.is_ok() ==> self.options.colorspace == ColorSpace::RGBA && self.options.depth == BitDepth::Sixteen && self.options.width <= u32::MAX && self.options.height <= u32::MAX && self.data.len() == self.options.width * self.options.height * 8
        && final(vx_out)@ == sink.sunk() + ff_file(self.data@, self.options.width as int, self.options.height as int) && r.unwrap() == 16 + self.data.len(),
//@at after call encode_headers
    let ghost hd = stream.out(); let ghost data = self.data@; let ghost n8 = self.options.width * self.options.height * 8;
    proof { assert(hd + swapped(data).subrange(0, 0) =~= hd); }
//@loop 0
    self.data@ == data, vx_c0 == data.len() / 2, stream.out() == hd + swapped(data).subrange(0, 2 * vx_i0 as int), stream.bytes_written == 16 + 2 * vx_i0, data.len() + 20 <= usize::MAX, 
//@at loop 0 begin
    let ghost k = vx_k0 as int; let ghost out0 = stream.out();
//@at loop 0 end
    proof { lemma_swap16(data[2 * k], data[2 * k + 1]); assert(slice@ =~= seq![data[2 * k], data[2 * k + 1]]); assert(stream.out() =~= hd + swapped(data).subrange(0, 2 * k + 2)); }
//@at after loop 0
    proof { assert(2 * (data.len() / 2) == data.len()); assert(swapped(data).subrange(0, data.len() as int) =~= swapped(data)); assert(stream.out() =~= sink.sunk() + ff_file(data, self.options.width as int, self.options.height as int)); }
//@at before tail
    *vx_out = Ghost(stream.out());
//@end
}
/// the round trip over the contracts: the file `encode` writes is one `decode` accepts, and what it returns are the input's samples
pub proof fn theorem_farbfeld_roundtrip(data: Seq<u8>, w: int, h: int, d: Seq<u8>)
    requires 0 < w <= u32::MAX, 0 < h <= u32::MAX, data.len() == w * h * 8, d == ff_file(data, w, h)
    ensures ff_hdr(d, 0), ff_w(d, 0) == w, ff_h(d, 0) == h, 16 + w * h * 8 <= d.len(), forall|k: int| 0 <= k < w * h * 4 ==> #[trigger] ff_px(d, 16, k) == le16(data.subrange(2 * k, 2 * k + 2)),
{
    assert(w * h > 0) by(nonlinear_arith) requires w > 0, h > 0;
    assert(d.subrange(0, 8) =~= ff_magic()); assert(d.subrange(8, 12) =~= be32b(w as u32)); assert(d.subrange(12, 16) =~= be32b(h as u32));
    lemma_be32_back(w as u32); lemma_be32_back(h as u32);
    assert forall|k: int| 0 <= k < w * h * 4 implies #[trigger] ff_px(d, 16, k) == le16(data.subrange(2 * k, 2 * k + 2)) by {
        let s = d.subrange(16 + 2 * k, 16 + 2 * k + 2);
        assert(s[0] == swapped(data)[2 * k] && s[1] == swapped(data)[2 * k + 1]);
        assert(s[0] == data[2 * k + 1] && s[1] == data[2 * k]);
        let x = s[0]; let y = s[1]; assert(data.subrange(2 * k, 2 * k + 2) =~= seq![y, x]); assert(s =~= seq![x, y]);
        assert(((x as u16) << 8) | (y as u16) == (y as u16) | ((x as u16) << 8)) by(bit_vector);
    }
}
pub proof fn lemma_be32_back(v: u32) ensures be32b(v).len() == 4, be32(be32b(v)) == v
{ assert((((v >> 24) as u8 as u32) << 24) | (((v >> 16) as u8 as u32) << 16) | (((v >> 8) as u8 as u32) << 8) | (v as u8 as u32) == v) by(bit_vector); }
//@include prelude_end.inc
