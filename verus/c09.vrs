//@include prelude.inc
//@include bytes.inc
//@include zio.inc
//@include core.inc
//@include pngcrc.inc
//@include pngchunk.inc
//TRUST: the PNG decoder struct is reduced to the two fields read_chunk_header uses, and its error enum to the variants it can return (error values carry no meaning in any contract)
pub struct PngDecoder<T> { pub stream: ZReader<T>, pub options: DecoderOptions }
pub enum PngDecodeErrors { BadCrc(u32, u32), IoErrors(ZByteIoError) }
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for PngDecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> PngDecodeErrors { PngDecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for PngDecodeErrors { fn from(value: ZByteIoError) -> PngDecodeErrors { PngDecodeErrors::IoErrors(value) } }
impl DecoderOptions {
//@fn crates/zune-core/src/options/decoder.rs :: DecoderOptions::png_get_confirm_crc
//@ret r
//@spec
    ensures r == self.flags.png_confirm_crc,
//@end
}
pub open spec fn s4(a: u8, b: u8, c: u8, d: u8) -> Seq<u8> { seq![a, b, c, d] }
pub open spec fn ctype(s: Seq<u8>) -> PngChunkType {
    if s == s4(73u8, 72u8, 68u8, 82u8) { PngChunkType::IHDR } else
    if s == s4(116u8, 82u8, 78u8, 83u8) { PngChunkType::tRNS } else
    if s == s4(80u8, 76u8, 84u8, 69u8) { PngChunkType::PLTE } else
    if s == s4(73u8, 68u8, 65u8, 84u8) { PngChunkType::IDAT } else
    if s == s4(73u8, 69u8, 78u8, 68u8) { PngChunkType::IEND } else
    if s == s4(112u8, 72u8, 89u8, 115u8) { PngChunkType::pHYs } else
    if s == s4(116u8, 73u8, 77u8, 69u8) { PngChunkType::tIME } else
    if s == s4(103u8, 65u8, 77u8, 65u8) { PngChunkType::gAMA } else
    if s == s4(97u8, 99u8, 84u8, 76u8) { PngChunkType::acTL } else
    if s == s4(102u8, 99u8, 84u8, 76u8) { PngChunkType::fcTL } else
    if s == s4(105u8, 67u8, 67u8, 80u8) { PngChunkType::iCCP } else
    if s == s4(105u8, 84u8, 88u8, 116u8) { PngChunkType::iTXt } else
    if s == s4(101u8, 88u8, 73u8, 102u8) { PngChunkType::eXIf } else
    if s == s4(122u8, 84u8, 88u8, 116u8) { PngChunkType::zTXt } else
    if s == s4(116u8, 69u8, 88u8, 116u8) { PngChunkType::tEXt } else
    if s == s4(102u8, 100u8, 65u8, 84u8) { PngChunkType::fdAT } else
    { PngChunkType::unkn }
}
pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j], decreases a.len() - i { if a[i] != b[i] { return false; } i += 1; }
    true
}
proof fn lemma_be32_rt(s: Seq<u8>) requires s.len() == 4 ensures be32b(be32(s)) == s {
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    assert(({ let x = ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32); (x >> 24) as u8 == a && (x >> 16) as u8 == b && (x >> 8) as u8 == c && x as u8 == d })) by(bit_vector);
    assert(be32b(be32(s)) =~= s);
}
/// what a chunk header read reports about the data at position p
pub open spec fn hdr_ok(d: Seq<u8>, p: int, c: PngChunk) -> bool {
    &&& p + 12 + c.length <= d.len() && c.length == be32(d.subrange(p, p + 4))
    &&& c.chunk@ == d.subrange(p + 4, p + 8) && c.chunk_type == ctype(d.subrange(p + 4, p + 8))
    &&& c.crc == be32(d.subrange(p + 8 + c.length, p + 12 + c.length))
}
pub open spec fn crc_good(d: Seq<u8>, p: int) -> bool { let n = be32(d.subrange(p, p + 4)) as int; p + 12 + n <= d.len() && be32(d.subrange(p + 8 + n, p + 12 + n)) == crc32(d.subrange(p + 4, p + 8 + n)) }
impl<T: ZByteReaderTrait> PngDecoder<T> {
//@fn crates/zune-png/src/decoder.rs :: PngDecoder::read_chunk_header
//@ret r
//@spec
    requires old(self).stream.wf(), old(self).stream.data().len() <= i64::MAX,
    ensures ({ let d = old(self).stream.data(); let p = old(self).stream.pos(); let o = old(self).options;
        &&& final(self).stream.wf() && final(self).stream.data() == d && final(self).options == o
        &&& r.is_ok() ==> hdr_ok(d, p, r->Ok_0) && final(self).stream.pos() == p + 8
        // C09: a chunk whose stored CRC does not match is never accepted when CRCs are to be confirmed ...
        &&& r.is_ok() && o.flags.png_confirm_crc ==> crc_good(d, p)
        // ... and one whose CRC does match (up to the 20 MiB peek limit) is never rejected
        &&& crc_good(d, p) && be32(d.subrange(p, p + 4)) + 4 <= 20 * 1024 * 1024 ==> r.is_ok()
        &&& !o.flags.png_confirm_crc && p + 8 <= d.len() && p + 12 + be32(d.subrange(p, p + 4)) <= d.len() ==> r.is_ok() }),
//@at after let chunk_type_int
    proof { let d = old(self).stream.data(); let p = old(self).stream.pos(); lemma_be32_rt(d.subrange(p + 4, p + 8)); assert(chunk_type_int@ =~= d.subrange(p + 4, p + 8)); }
//@end
}
//@include prelude_end.inc
