//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
// ===== C22: header parsers and the configured limits =====
pub open spec fn u32at(d: Seq<u8>, p: int) -> int { be32(d.subrange(p, p + 4)) as int }
//@type crates/zune-png/src/enums.rs :: FilterMethod
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-png/src/enums.rs :: InterlaceMethod
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-png/src/enums.rs :: PngColor
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-png/src/enums.rs :: PngChunkType
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-png/src/decoder.rs :: PngChunk
//@end
//@type crates/zune-png/src/decoder.rs :: PngInfo
//@keep width height interlace_method depth color component filter_method
//@end
//@type crates/zune-png/src/apng.rs :: DisposeOp
//@end
//@type crates/zune-png/src/apng.rs :: BlendOp
//@end
//@type crates/zune-png/src/apng.rs :: FrameInfo
//@end
//@type crates/zune-png/src/apng.rs :: SingleFrame
//@end
//@type crates/zune-png/src/decoder.rs :: PngDecoder
//@keep stream options png_info frames seen_hdr
//@end
impl SingleFrame {
//@fn crates/zune-png/src/apng.rs :: SingleFrame::new
//@ret r
//@spec
    ensures r.fdat == chunks, r.fctl_info == fctl_info
//@end
}
impl FilterMethod {
//@fn crates/zune-png/src/enums.rs :: FilterMethod::from_int
//@ret r
//@sig
fn from_int(n: u8) -> (r: Option<FilterMethod>)
//@sub match int => match n
//@spec
    ensures r is Some <==> n <= 4
//@end
}
impl InterlaceMethod {
//@fn crates/zune-png/src/enums.rs :: InterlaceMethod::from_int
//@ret r
//@sig
fn from_int(n: u8) -> (r: Option<InterlaceMethod>)
//@sub match int => match n
//@spec
    ensures r is Some <==> n <= 1, n == 0 ==> r == Some(InterlaceMethod::Standard), n == 1 ==> r == Some(InterlaceMethod::Adam7)
//@end
}
impl PngColor {
//@fn crates/zune-png/src/enums.rs :: PngColor::num_components
//@ret r
//@spec
    requires self != PngColor::Unknown
    ensures r == (match self { PngColor::Luma => 1int, PngColor::Palette => 1, PngColor::LumaA => 2, PngColor::RGB => 3, _ => 4 })
//@end
//@fn crates/zune-png/src/enums.rs :: PngColor::from_int
//@ret r
//@sig
fn from_int(n: u8) -> (r: Option<PngColor>)
//@sub match int => match n
//@spec
    ensures r is Some <==> n == 0 || n == 2 || n == 3 || n == 4 || n == 6, n == 0 ==> r == Some(PngColor::Luma), n == 2 ==> r == Some(PngColor::RGB), n == 3 ==> r == Some(PngColor::Palette), n == 4 ==> r == Some(PngColor::LumaA), n == 6 ==> r == Some(PngColor::RGBA)
//@end
}
#[derive(Debug)]
pub enum PngDecodeErrors { GenericStatic(&'static str), Generic(String), IoErrors(ZByteIoError) } //TRUST: PngDecodeErrors re-declared with the used variants; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for PngDecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> PngDecodeErrors { PngDecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for PngDecodeErrors { fn from(value: ZByteIoError) -> PngDecodeErrors { PngDecodeErrors::IoErrors(value) } }
/// the thirteen bytes at `p` are an IHDR body the decoder supports, whatever its size
pub open spec fn ihdr_ok(d: Seq<u8>, p: int) -> bool { p + 13 <= d.len() && u32at(d, p) > 0 && u32at(d, p + 4) > 0 && (d[p + 8] == 1 || d[p + 8] == 2 || d[p + 8] == 4 || d[p + 8] == 8 || (d[p + 8] == 16 && d[p + 9] != 3)) && (d[p + 9] == 0 || d[p + 9] == 2 || d[p + 9] == 3 || d[p + 9] == 4 || d[p + 9] == 6) && d[p + 10] == 0 && d[p + 11] <= 4 && d[p + 12] <= 1 }
impl<T: ZByteReaderTrait> PngDecoder<T> {
//@fn crates/zune-png/src/headers/readers.rs :: PngDecoder::parse_ihdr
//@ret r
//@spec
    requires old(self).stream.wf(), old(self).stream.data().len() < 0x1_0000_0000_0000,
    ensures final(self).stream.wf(), final(self).stream.data() == old(self).stream.data(), final(self).options == old(self).options,
        ({ let (d, p, o, f) = (old(self).stream.data(), old(self).stream.pos(), *old(self), *final(self));
            // a size above the limit is an error, and one within the limits is not an obstacle
            &&& r.is_ok() ==> f.png_info.width <= o.options.max_width && f.png_info.height <= o.options.max_height && f.png_info.width > 0 && f.png_info.height > 0 && f.seen_hdr
            &&& p + 13 <= d.len() ==> (r.is_ok() <==> !o.seen_hdr && chunk.length == 13 && ihdr_ok(d, p) && u32at(d, p) <= o.options.max_width && u32at(d, p + 4) <= o.options.max_height)
            &&& r.is_ok() && p + 13 <= d.len() ==> f.png_info.width == u32at(d, p) && f.png_info.height == u32at(d, p + 4) && f.png_info.depth == d[p + 8] && f.png_info.interlace_method == (if d[p + 12] == 0 { InterlaceMethod::Standard } else { InterlaceMethod::Adam7 })
                && f.png_info.color == (if d[p + 9] == 0 { PngColor::Luma } else if d[p + 9] == 2 { PngColor::RGB } else if d[p + 9] == 3 { PngColor::Palette } else if d[p + 9] == 4 { PngColor::LumaA } else { PngColor::RGBA }) && f.stream.pos() == p + 17 }),
//@end
}
// ---- JPEG start of frame ----
//@type crates/zune-jpeg/src/misc.rs :: SOFMarkers
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-jpeg/src/components.rs :: ComponentID
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-jpeg/src/components.rs :: SampleRatios
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@const crates/zune-jpeg/src/components.rs :: MAX_SAMP_FACTOR
//@end
//@const crates/zune-jpeg/src/decoder.rs :: MAX_COMPONENTS
//@end
//@type crates/zune-jpeg/src/components.rs :: Components
//@keep component_id vertical_sample horizontal_sample dc_huff_table ac_huff_table quantization_table_number quantization_table dc_pred width_stride id needed raw_coeff upsample_dest row_up row first_row_upsample_dest idct_pos x w2 y sample_ratio fix_an_annoying_bug
//@end
//@type crates/zune-jpeg/src/decoder.rs :: ImageInfo
//@keep width height pixel_density sof components
//@end
//@type crates/zune-jpeg/src/decoder.rs :: JpegDecoder
//@keep info components input_colorspace options stream seen_sof
//@end
#[derive(Debug)]
pub enum DecodeErrors { Format(String), FormatStatic(&'static str), ZeroError, SofError(String), IoErrors(ZByteIoError) } //TRUST: DecodeErrors re-declared with the used variants; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for DecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> DecodeErrors { DecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for DecodeErrors { fn from(value: ZByteIoError) -> DecodeErrors { DecodeErrors::IoErrors(value) } }
pub fn vx_pow2(x: usize) -> (r: bool) requires x <= 8 ensures r == (x == 1 || x == 2 || x == 4 || x == 8) { x == 1 || x == 2 || x == 4 || x == 8 }
impl ImageInfo {
//@fn crates/zune-jpeg/src/decoder.rs :: ImageInfo::set_width
//@spec
    ensures *final(self) == (ImageInfo { width: width, ..*old(self) })
//@end
//@fn crates/zune-jpeg/src/decoder.rs :: ImageInfo::set_height
//@spec
    ensures *final(self) == (ImageInfo { height: height, ..*old(self) })
//@end
//@fn crates/zune-jpeg/src/decoder.rs :: ImageInfo::set_density
//@spec
    ensures *final(self) == (ImageInfo { pixel_density: density, ..*old(self) })
//@end
//@fn crates/zune-jpeg/src/decoder.rs :: ImageInfo::set_sof_marker
//@spec
    ensures *final(self) == (ImageInfo { sof: marker, ..*old(self) })
//@end
}
/// the three bytes describe a component the decoder supports: sampling factors 1, 2 or 4 across and 1 to 4 down, one of four quantisation tables
pub open spec fn comp_ok(a: Seq<u8>) -> bool { (a[1] / 16 == 1 || a[1] / 16 == 2 || a[1] / 16 == 4) && 1 <= a[1] % 16 <= 4 && a[2] < 4 }
pub open spec fn comp_is(c: Components, a: Seq<u8>) -> bool { c.id == a[0] && c.horizontal_sample == a[1] / 16 && c.vertical_sample == a[1] % 16 && c.quantization_table_number == a[2] && c.dc_pred == 0 && c.needed }
impl Components {
//@fn crates/zune-jpeg/src/components.rs :: Components::from
//@ret r
//@sub up_sampler: upsample_no_op, =>
//@sub horizontal_sample.is_power_of_two() => vx_pow2(horizontal_sample)
//@spec
    ensures r.is_ok() <==> pos < 4 && comp_ok(a@), r.is_ok() ==> comp_is(r.unwrap(), a@),
//@at begin
    proof { let b = a[1]; assert(b >> 4 == b / 16 && b & 0x0f == b % 16) by(bit_vector); }
//@end
}
pub open spec fn be16at(d: Seq<u8>, p: int) -> int { be16(d.subrange(p, p + 2)) as int }
/// the bytes of component `k`
pub open spec fn cb(d: Seq<u8>, p: int, k: int) -> Seq<u8> { d.subrange(p + 8 + 3 * k, p + 11 + 3 * k) }
/// a frame header at `p` (after the marker) that the decoder supports, whatever its size
pub open spec fn sof_ok(d: Seq<u8>, p: int) -> bool { p + 8 + 3 * d[p + 7] <= d.len() && be16at(d, p) == 8 + 3 * d[p + 7] && d[p + 2] == 8 && be16at(d, p + 3) > 0 && be16at(d, p + 5) > 0 && 1 <= d[p + 7] <= 4 && forall|k: int| 0 <= k < d[p + 7] ==> comp_ok(#[trigger] cb(d, p, k)) }
//@fn crates/zune-jpeg/src/headers.rs :: parse_start_of_frame
//@ret r
//@sub let vx_r0hi: usize = num_components; => let vx_r0hi: usize = num_components as usize;
//@sub Components::from(temp, pos) => Components::from(temp, pos as u8)
//@spec
    requires old(img).stream.wf(), old(img).stream.data().len() < 0x1_0000_0000_0000,
    ensures final(img).stream.wf(), final(img).stream.data() == old(img).stream.data(), final(img).options == old(img).options,
        ({ let (d, p, o, f) = (old(img).stream.data(), old(img).stream.pos(), *old(img), *final(img));
            &&& r.is_ok() <==> !o.seen_sof && p + 8 <= d.len() && sof_ok(d, p) && be16at(d, p + 5) <= o.options.max_width && be16at(d, p + 3) <= o.options.max_height
            &&& r.is_ok() ==> f.seen_sof && f.info.width == be16at(d, p + 5) && f.info.height == be16at(d, p + 3) && f.info.components == d[p + 7] && f.info.sof == sof && f.components.len() == d[p + 7] && f.stream.pos() == p + 8 + 3 * d[p + 7]
                && forall|k: int| 0 <= k < d[p + 7] ==> comp_is(f.components@[k], #[trigger] cb(d, p, k)) }),
//@at begin
    let ghost d = img.stream.data(); let ghost p = img.stream.pos();
//@loop 0
    d == old(img).stream.data(), d.len() < 0x1_0000_0000_0000, p == old(img).stream.pos(), p + 8 <= d.len(), img.stream.wf(), img.stream.data() == d, img.options == old(img).options, !old(img).seen_sof, num_components == d[p + 7], num_components > 0, img.stream.pos() == p + 8 + 3 * vx_i0, img.stream.pos() <= d.len(), components.len() == vx_i0, vx_c0 == num_components, vx_r0lo == 0,
    be16at(d, p) == 8 + 3 * d[p + 7], d[p + 2] == 8, be16at(d, p + 3) > 0, be16at(d, p + 5) > 0, be16at(d, p + 5) <= img.options.max_width, be16at(d, p + 3) <= img.options.max_height, img.info.width == be16at(d, p + 5), img.info.height == be16at(d, p + 3), img.info.components == num_components,
    forall|k: int| 0 <= k < vx_i0 ==> comp_is(components@[k], #[trigger] cb(d, p, k)) && comp_ok(cb(d, p, k)) && k < 4,
//@at loop 0 begin
    proof { let z = cb(d, p, vx_k0 as int); assert(p + 8 + 3 * vx_k0 + 3 == p + 11 + 3 * vx_k0); }
//@at after loop 0
    proof { let z = cb(d, p, num_components - 1); assert(num_components <= 4); assert(forall|k: int| 0 <= k < d[p + 7] ==> comp_ok(#[trigger] cb(d, p, k))); assert(sof_ok(d, p)); assert(img.stream.pos() == p + 8 + 3 * d[p + 7]); assert(components.len() == d[p + 7]); }
//@end
//@include prelude_end.inc
