//@include prelude.inc
//@include bytes.inc
//@include zio2.inc
//@include core.inc
//@include wnone.inc
//@include pngcrc.inc
//@include pngchunk.inc
pub mod defl {
use super::*;
//@include deflenc.inc
//TRUST: Default for DeflateEncodingOptions selects the only strategy there is
impl DeflateEncodingOptions { pub fn default() -> DeflateEncodingOptions { DeflateEncodingOptions { strategy: DeflateEncodingStrategy::NoCompression } } }
impl<'a> DeflateEncoder<'a> {
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncoder::new
//@ret r
//@spec
    requires data@.len() <= 0x2000_0000_0000_0000
    ensures r.data@ == data@, r.input_position == 0, r.output_position == 0
//@end
}
}
use defl::*;
//@include pngfilt.inc
//@include pngfilt2.inc
// ===== C20: the PNG encoder =====
//@const crates/zune-png/src/constants.rs :: PNG_SIGNATURE
//@end
//@type crates/zune-png/src/enums.rs :: FilterMethod
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-png/src/encoder.rs :: PngEncoder
//@end
impl BitDepth {
pub open spec fn bytes(&self) -> int { match self { BitDepth::Eight => 1, BitDepth::Sixteen => 2, BitDepth::Float32 => 4, BitDepth::Unknown => 0 } }
//@fn crates/zune-core/src/bit_depth.rs :: BitDepth::size_of
//@ret r
//@sub core::mem::size_of::<u8>() => 1
//@sub core::mem::size_of::<u16>() => 2
//@sub core::mem::size_of::<f32>() => 4
//@spec
    requires !(self is Unknown),
    ensures r == self.bytes(),
//@end
//@fn crates/zune-core/src/bit_depth.rs :: BitDepth::bit_size
//@ret r
//@spec
    requires !(self is Unknown),
    ensures r == 8 * self.bytes(),
//@end
}
pub open spec fn fcode(f: FilterMethod) -> u8 { match f { FilterMethod::None => 0, FilterMethod::Sub => 1, FilterMethod::Up => 2, FilterMethod::Average => 3, FilterMethod::Paeth => 4, _ => 9 } }
impl FilterMethod {
//@fn crates/zune-png/src/enums.rs :: FilterMethod::to_int
//@ret r
//@sub unimplemented!("Should not match") => vx_never()
//@spec
    requires fcode(self) <= 4,
    ensures r == fcode(self),
//@end
}
#[verifier::external_body] pub fn vx_never<T>() -> (r: T) requires false { unimplemented!() }
/// `row` is the filter byte and the filtered samples of `cur`, whose predecessor is `prev` (PNG specification, section 9)
pub open spec fn row_ok(row: Seq<u8>, cur: Seq<u8>, prev: Seq<u8>, bpp: int) -> bool {
    row.len() == cur.len() + 1 && row[0] <= 2 && (row[0] == 2 ==> prev.len() == cur.len()) && forall|i: int| #![trigger cur[i]] 0 <= i < cur.len() ==> filt_at(row[0] as int, cur, prev, row.subrange(1, row.len() as int), bpp, i)
}
//@fn crates/zune-png/src/filters.rs :: choose_compression_filter
//@ret r
//@spec
    // any filter may be chosen that the writer knows and the row above allows
    ensures r is None || r is Sub || (r is Up && _previous_row.len() > 0),
//@end
//@fn crates/zune-png/src/filters.rs :: filter_scanline
//@sub unreachable!("Unexpected input") => vx_never()
//@sub filter::sub_filter => sub_filter
//@sub filter::up_filter => up_filter
//@spec
    requires old(output).len() == input.len() + 1, 0 < components <= input.len(), filter is None || filter is Sub || (filter is Up && previous_row.len() == input.len()),
    ensures final(output).len() == old(output).len(), final(output)@[0] == fcode(filter), row_ok(final(output)@, input@, previous_row@, components as int),
//@end
/// `f` is every row of the image `d` (rows of `w` bytes), filtered
pub open spec fn drow(d: Seq<u8>, w: int, i: int) -> Seq<u8> { d.subrange(i * w, i * w + w) }
pub open spec fn frow(f: Seq<u8>, w: int, i: int) -> Seq<u8> { f.subrange(i * (w + 1), i * (w + 1) + w + 1) }
pub open spec fn dprev(d: Seq<u8>, w: int, i: int) -> Seq<u8> { if i == 0 { Seq::empty() } else { drow(d, w, i - 1) } }
pub open spec fn frow_ok(f: Seq<u8>, d: Seq<u8>, w: int, bpp: int, i: int) -> bool { row_ok(frow(f, w, i), drow(d, w, i), dprev(d, w, i), bpp) }
pub open spec fn filtered(f: Seq<u8>, d: Seq<u8>, w: int, h: int, bpp: int) -> bool { f.len() == h * (w + 1) && forall|i: int| 0 <= i < h ==> #[trigger] frow_ok(f, d, w, bpp, i) }
/// a chunk: length, type, data, CRC-32 of type and data (PNG specification, section 5)
pub open spec fn chunk_of(name: Seq<u8>, d: Seq<u8>) -> Seq<u8> { be32b(d.len() as u32) + name + d + be32b(crc32(name + d)) }
pub open spec fn n_ihdr() -> Seq<u8> { seq![73u8, 72, 68, 82] }
pub open spec fn n_exif() -> Seq<u8> { seq![101u8, 88, 73, 102] }
pub open spec fn n_idat() -> Seq<u8> { seq![73u8, 68, 65, 84] }
pub open spec fn n_iend() -> Seq<u8> { seq![73u8, 69, 78, 68] }
/// the image data chunks: one IDAT chunk per part
pub open spec fn idats(ps: Seq<Seq<u8>>) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { idats(ps.drop_last()) + chunk_of(n_idat(), ps.last()) } }
/// the zlib stream they hold
pub open spec fn joined(ps: Seq<Seq<u8>>) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { joined(ps.drop_last()) + ps.last() } }
pub open spec fn small(ps: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() < 0x8000_0000 }
pub open spec fn idat_len(n: int) -> int { n + 12 * ((n + 8191) / 8192) }
pub proof fn lemma_push(ps: Seq<Seq<u8>>, x: Seq<u8>) requires small(ps), x.len() < 0x8000_0000 ensures idats(ps.push(x)) == idats(ps) + chunk_of(n_idat(), x), joined(ps.push(x)) == joined(ps) + x, small(ps.push(x)) { assert(ps.push(x).drop_last() =~= ps); assert forall|i: int| 0 <= i < ps.push(x).len() implies (#[trigger] ps.push(x)[i]).len() < 0x8000_0000 by { if i < ps.len() { assert(ps.push(x)[i] == ps[i]); } } }
/// `s` is a run of IDAT chunks that hold the zlib stream `z`
pub open spec fn is_idats(s: Seq<u8>, ps: Seq<Seq<u8>>, z: Seq<u8>) -> bool { s == idats(ps) && joined(ps) == z && small(ps) }
/// `file` is a PNG: `head`, IDAT chunks whose concatenation is a zlib stream of the filtered rows of the image, IEND
pub open spec fn png_file(file: Seq<u8>, head: Seq<u8>, ps: Seq<Seq<u8>>, f: Seq<u8>) -> bool { file == head + idats(ps) + chunk_of(n_iend(), Seq::empty()) && small(ps) && zlib_data(joined(ps)) == Some(f) }
pub open spec fn ctype_code(c: ColorSpace) -> u8 { match c { ColorSpace::Luma => 0, ColorSpace::RGB => 2, ColorSpace::LumaA => 4, ColorSpace::RGBA => 6, _ => 255 } }
/// the header chunk's data: dimensions, bit depth, colour type, and zero for compression, filter and interlace method
pub open spec fn ihdr_of(o: EncoderOptions) -> Seq<u8> { be32b(o.width as u32) + be32b(o.height as u32) + seq![(8 * o.depth.bytes()) as u8, ctype_code(o.colorspace), 0u8, 0u8, 0u8] }
/// Vec<u8> as a sink: std::io::Write for Vec<u8> appends and never fails
pub struct VxMem { pub v: Vec<u8> }
impl ZByteWriterTrait for VxMem {
    open spec fn sunk(&self) -> Seq<u8> { self.v@ }
    open spec fn never_fails() -> bool { true }
    fn write_bytes(&mut self, buf: &[u8]) -> (r: Result<usize, ZByteIoError>) { self.v.extend_from_slice(buf); proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); assert(self.v@ =~= old(self).v@ + buf@); } Ok(buf.len()) }
    fn flush_bytes(&mut self) -> (r: Result<(), ZByteIoError>) { Ok(()) }
    fn write_all_bytes(&mut self, buf: &[u8]) -> (r: Result<(), ZByteIoError>) { self.v.extend_from_slice(buf); proof { assert(self.v@ =~= old(self).v@ + buf@); } Ok(()) }
    fn write_const_bytes<const N: usize>(&mut self, buf: &[u8; N]) -> (r: Result<(), ZByteIoError>) { self.v.extend_from_slice(buf); proof { assert(self.v@ =~= old(self).v@ + buf@); } Ok(()) }
    fn reserve_capacity(&mut self, size: usize) -> (r: Result<(), ZByteIoError>) { Ok(()) }
}
//@fn crates/zune-png/src/headers/writers.rs :: write_ihdr
//@sub ZWriter<&mut Vec<u8>> => ZWriter<VxMem>
//@sub unreachable!() => vx_never()
//@spec
    requires ctx.supported(), old(output).bytes_written <= 1000,
    ensures final(output).out() == old(output).out() + ihdr_of(ctx.options), final(output).bytes_written == old(output).bytes_written + 13,
//@at end
    proof { assert(output.out() =~= old(output).out() + ihdr_of(ctx.options)); }
//@end
//@fn crates/zune-png/src/headers/writers.rs :: write_exif
//@sub ZWriter<&mut alloc::vec::Vec<u8>> => ZWriter<VxMem>
//@spec
    requires ctx.exif is Some, ctx.supported(), old(writer).bytes_written <= 1000,
    ensures final(writer).out() == old(writer).out() + ctx.exif->0@, final(writer).bytes_written == old(writer).bytes_written + ctx.exif->0.len(),
//@end
//TRUST: the gAMA writer is not under contract: the public interface cannot set a gamma, and the contracts require that none is set
#[verifier::external_body] fn write_header_gama<T: ZByteWriterTrait>(v: &PngEncoder, writer: &mut ZWriter<T>, name: &[u8; 4]) -> (r: Result<(), ZByteIoError>) requires false { unimplemented!() }
//@fn crates/zune-png/src/headers/writers.rs :: write_iend
//@sig
    fn write_iend(vx_0: &PngEncoder, vx_1: &mut ZWriter<VxMem>)
//@spec
    ensures final(vx_1).out() == old(vx_1).out(), final(vx_1).bytes_written == old(vx_1).bytes_written,
//@end
//@fn crates/zune-png/src/headers/writers.rs :: write_header_fn
//@rename write_header_ihdr
//@ret r
//@sig
    fn write_header_ihdr<T: ZByteWriterTrait>(v: &PngEncoder, writer: &mut ZWriter<T>, name: &[u8; 4]) -> (r: Result<(), ZByteIoError>)
//@sub (func)(v, &mut local_writer) => write_ihdr(v, &mut local_writer)
//@sub ZWriter::new(&mut temp_space) => ZWriter::new(VxMem { v: temp_space })
//@sub let bytes_written = local_writer.bytes_written(); => let bytes_written = local_writer.bytes_written(); let mut temp_space = local_writer.inner().v;
//@sub temp_space[0..4] => temp_space.as_mut_slice()[0..4]
//@sub &temp_space[4..] => &temp_space.as_slice()[4..]
//@spec
    requires v.supported(), old(writer).bytes_written + 12 + ihdr_of(v.options).len() <= usize::MAX, ihdr_of(v.options).len() < 0x7fff_ff00,
    ensures r.is_ok() ==> final(writer).out() == old(writer).out() + chunk_of(name@, ihdr_of(v.options)) && final(writer).bytes_written == old(writer).bytes_written + 12 + ihdr_of(v.options).len(),
//@at after let bytes_written
    let ghost t0 = temp_space@;
    proof { let d = ihdr_of(v.options); assert(t0 =~= seq![0u8, 0u8, 0u8, 0u8] + name@ + d); }
//@at after let c
    let ghost t1 = temp_space@;
    proof { let d = ihdr_of(v.options); assert(bytes_written == d.len() + 4); assert(t1.subrange(0, 4) =~= be32b(d.len() as u32)); assert(t1.subrange(4, t1.len() as int) =~= name@ + d); assert(t1 =~= be32b(d.len() as u32) + name@ + d); }
//@at before tail
    proof { let d = ihdr_of(v.options); assert(temp_space@ =~= chunk_of(name@, d)); }
//@end
//@fn crates/zune-png/src/headers/writers.rs :: write_header_fn
//@rename write_header_exif
//@ret r
//@sig
    fn write_header_exif<T: ZByteWriterTrait>(v: &PngEncoder, writer: &mut ZWriter<T>, name: &[u8; 4]) -> (r: Result<(), ZByteIoError>)
//@sub (func)(v, &mut local_writer) => write_exif(v, &mut local_writer)
//@sub ZWriter::new(&mut temp_space) => ZWriter::new(VxMem { v: temp_space })
//@sub let bytes_written = local_writer.bytes_written(); => let bytes_written = local_writer.bytes_written(); let mut temp_space = local_writer.inner().v;
//@sub temp_space[0..4] => temp_space.as_mut_slice()[0..4]
//@sub &temp_space[4..] => &temp_space.as_slice()[4..]
//@spec
    requires v.exif is Some, v.supported(), old(writer).bytes_written + 12 + v.exif->0@.len() <= usize::MAX, v.exif->0@.len() < 0x7fff_ff00,
    ensures r.is_ok() ==> final(writer).out() == old(writer).out() + chunk_of(name@, v.exif->0@) && final(writer).bytes_written == old(writer).bytes_written + 12 + v.exif->0@.len(),
//@at after let bytes_written
    let ghost t0 = temp_space@;
    proof { let d = v.exif->0@; assert(t0 =~= seq![0u8, 0u8, 0u8, 0u8] + name@ + d); }
//@at after let c
    let ghost t1 = temp_space@;
    proof { let d = v.exif->0@; assert(bytes_written == d.len() + 4); assert(t1.subrange(0, 4) =~= be32b(d.len() as u32)); assert(t1.subrange(4, t1.len() as int) =~= name@ + d); assert(t1 =~= be32b(d.len() as u32) + name@ + d); }
//@at before tail
    proof { let d = v.exif->0@; assert(temp_space@ =~= chunk_of(name@, d)); }
//@end
//@fn crates/zune-png/src/headers/writers.rs :: write_header_fn
//@rename write_header_iend
//@ret r
//@sig
    fn write_header_iend<T: ZByteWriterTrait>(v: &PngEncoder, writer: &mut ZWriter<T>, name: &[u8; 4]) -> (r: Result<(), ZByteIoError>)
//@sub (func)(v, &mut local_writer) => write_iend(v, &mut local_writer)
//@sub ZWriter::new(&mut temp_space) => ZWriter::new(VxMem { v: temp_space })
//@sub let bytes_written = local_writer.bytes_written(); => let bytes_written = local_writer.bytes_written(); let mut temp_space = local_writer.inner().v;
//@sub temp_space[0..4] => temp_space.as_mut_slice()[0..4]
//@sub &temp_space[4..] => &temp_space.as_slice()[4..]
//@spec
    requires true, old(writer).bytes_written + 12 + Seq::<u8>::empty().len() <= usize::MAX, Seq::<u8>::empty().len() < 0x7fff_ff00,
    ensures r.is_ok() ==> final(writer).out() == old(writer).out() + chunk_of(name@, Seq::<u8>::empty()) && final(writer).bytes_written == old(writer).bytes_written + 12 + Seq::<u8>::empty().len(),
//@at after let bytes_written
    let ghost t0 = temp_space@;
    proof { let d = Seq::<u8>::empty(); assert(t0 =~= seq![0u8, 0u8, 0u8, 0u8] + name@ + d); }
//@at after let c
    let ghost t1 = temp_space@;
    proof { let d = Seq::<u8>::empty(); assert(bytes_written == d.len() + 4); assert(t1.subrange(0, 4) =~= be32b(d.len() as u32)); assert(t1.subrange(4, t1.len() as int) =~= name@ + d); assert(t1 =~= be32b(d.len() as u32) + name@ + d); }
//@at before tail
    proof { let d = Seq::<u8>::empty(); assert(temp_space@ =~= chunk_of(name@, d)); }
//@end
impl<'a> PngEncoder<'a> {
pub open spec fn bpp(&self) -> int { self.options.colorspace.ncomp() * self.options.depth.bytes() }
pub open spec fn roww(&self) -> int { self.options.width * self.bpp() }
pub open spec fn supported(&self) -> bool { (self.options.colorspace is Luma || self.options.colorspace is LumaA || self.options.colorspace is RGB || self.options.colorspace is RGBA) && (self.options.depth is Eight || self.options.depth is Sixteen) && 0 < self.options.width < 0x8000_0000 && 0 < self.options.height < 0x8000_0000 && self.row_filter is None && (self.exif is Some ==> self.exif->0.len() < 0x7fff_ff00) && self.data@.len() <= 0x1000_0000_0000_0000 && self.gamma is None }
/// everything before the image data
pub open spec fn head(&self) -> Seq<u8> { be64b(PNG_SIGNATURE) + chunk_of(n_ihdr(), ihdr_of(self.options)) + (if self.exif is Some { chunk_of(n_exif(), self.exif->0@) } else { Seq::empty() }) }
pub open spec fn same_job(&self, o: PngEncoder<'a>) -> bool { self.options == o.options && self.data == o.data && self.row_filter == o.row_filter && self.gamma == o.gamma && self.exif == o.exif }
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::new
//@ret r
//@sub ..Default::default() => encoded_chunks: Vec::new(), filter_scanline: Vec::new(), gamma: None, exif: None
//@spec
    ensures r.options == options, r.data == data, r.row_filter is None, r.gamma is None, r.exif is None,
//@end
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::add_exif_segment
//@spec
    ensures final(self).exif == Some(exif), final(self).options == old(self).options, final(self).data == old(self).data, final(self).row_filter == old(self).row_filter, final(self).gamma == old(self).gamma,
//@end
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::calculate_scanline_size
//@ret r
//@spec
    requires self.supported(),
    ensures r == self.roww(),
//@at begin
    proof { let w = self.options.width as int; let b = self.options.depth.bytes(); let c = self.options.colorspace.ncomp(); assert(w * b <= 2 * w && w * b * c <= 8 * w && w * b * c == w * (c * b)) by(nonlinear_arith) requires 0 <= w, 1 <= b <= 2, 1 <= c <= 4; }
//@end
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::add_filters
//@sub &mut self.filter_scanline[ => &mut self.filter_scanline.as_mut_slice()[
//@spec
    requires old(self).supported(), old(self).data@.len() == old(self).roww() * old(self).options.height,
    ensures final(self).same_job(*old(self)), filtered(final(self).filter_scanline@, final(self).data@, final(self).roww(), final(self).options.height as int, final(self).bpp()), zlib_data(final(self).encoded_chunks@) == Some(final(self).filter_scanline@), 0 < final(self).encoded_chunks@.len() <= 0x2400_0000_0000_0000,
//@at begin
    let ghost w = self.roww(); let ghost h = self.options.height as int; let ghost bp = self.bpp(); let ghost d = self.data@;
    proof {
        let ww = self.options.width as int;
        assert(1 <= bp <= 8) by { let c = self.options.colorspace.ncomp(); let b = self.options.depth.bytes(); assert(1 <= c * b <= 8) by(nonlinear_arith) requires 1 <= c <= 4, 1 <= b <= 2; }
        assert(w >= bp && w <= 8 * ww) by(nonlinear_arith) requires w == ww * bp, ww >= 1, 1 <= bp <= 8;
        assert((w + 1) * h == w * h + h) by(nonlinear_arith);
        assert(h * (w + 1) == w * h + h) by(nonlinear_arith);
    }
//@at before loop 0
    proof { assert(self.filter_scanline@.len() == h * (w + 1)); assert((h * (w + 1)) / (w + 1) == h) by(nonlinear_arith) requires w + 1 > 0; }
//@loop 0
    self.same_job(*old(self)), scanline_size == w, vx_n0_0 == w + 1, vx_c0 == h, self.filter_scanline@.len() == h * (w + 1), h * (w + 1) == w * h + h, d == self.data@, d.len() == w * h, w * h + h <= usize::MAX, components == bp, 0 < bp <= w, h == self.options.height, w == self.roww(), bp == self.bpp(),
    vx_i0 == 0 ==> previous_scanline@.len() == 0,
    forall|j: int| 0 <= j < vx_i0 ==> #[trigger] frow_ok(self.filter_scanline@, d, w, bp, j),
//@at loop 0 begin
    let ghost f0 = self.filter_scanline@; let ghost k = vx_k0 as int;
    proof {
        assert((k + 1) * (w + 1) <= h * (w + 1) && (k + 1) * (w + 1) == k * (w + 1) + w + 1 && k * (w + 1) >= 0) by(nonlinear_arith) requires 0 <= k, k + 1 <= h, w >= 0;
        assert((k + 1) * w <= w * h && (k + 1) * w == k * w + w && (k - 1) * w == k * w - w && k * w >= 0 && (k > 0 ==> (k - 1) * w >= 0)) by(nonlinear_arith) requires 0 <= k, k + 1 <= h, w >= 0;
    }
//@at loop 0 end
    proof {
        let f1 = self.filter_scanline@;
        assert(current_scanline@ =~= drow(d, w, k)); assert(previous_scanline@ =~= dprev(d, w, k));
        assert(frow_ok(f1, d, w, bp, k));
        assert forall|j: int| 0 <= j < k + 1 implies #[trigger] frow_ok(f1, d, w, bp, j) by { if j < k {
            assert(j * (w + 1) + w + 1 <= k * (w + 1) && 0 <= j * (w + 1)) by(nonlinear_arith) requires 0 <= j, j + 1 <= k, w >= 0;
            assert(frow_ok(f0, d, w, bp, j)); assert(frow(f1, w, j) =~= frow(f0, w, j)); } }
    }
//@end
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::write_idat_chunks
//@ret r
//@sub *b"IDAT" => [73u8, 68u8, 65u8, 84u8]
//@sub self.encoded_chunks[ => self.encoded_chunks.as_slice()[
//@spec
    requires self.encoded_chunks@.len() > 0, old(writer).bytes_written + 3 * self.encoded_chunks@.len() + 12 <= usize::MAX,
    ensures r.is_ok() ==> final(writer).bytes_written <= old(writer).bytes_written + 3 * self.encoded_chunks@.len() + 12 && exists|ps: Seq<Seq<u8>>| final(writer).out() == old(writer).out() + #[trigger] idats(ps) && joined(ps) == self.encoded_chunks@ && small(ps),
//@at begin
    let ghost mut ps: Seq<Seq<u8>> = Seq::empty(); let ghost z = self.encoded_chunks@; let ghost o0 = writer.out(); let ghost b0 = writer.bytes_written as int;
    proof { assert(o0 + idats(ps) =~= o0); assert(joined(ps) =~= z.subrange(0, 0)); }
//@loop 0
    z == self.encoded_chunks@, vx_c0 == (z.len() + 8191) / 8192, small(ps), writer.out() == o0 + idats(ps), joined(ps) == z.subrange(0, if vx_i0 == vx_c0 { z.len() as int } else { 8192 * vx_i0 as int }), b0 + 3 * z.len() + 12 <= usize::MAX,
    writer.bytes_written == b0 + 12 * vx_i0 + (if vx_i0 == vx_c0 { z.len() as int } else { 8192 * vx_i0 as int }),
//@at loop 0 begin
    let ghost k = vx_k0 as int; let ghost o1 = writer.out();
//@at loop 0 end
    proof {
        let hi = if k + 1 == vx_c0 { z.len() as int } else { 8192 * (k + 1) };
        let x = z.subrange(8192 * k, hi);
        assert(chunk@ =~= x); lemma_push(ps, x);
        assert(writer.out() =~= o1 + chunk_of(n_idat(), x)) by { assert([73u8, 68u8, 65u8, 84u8]@ =~= n_idat()); }
        assert(writer.out() =~= o0 + idats(ps.push(x)));
        assert(z.subrange(0, 8192 * k) + x =~= z.subrange(0, hi));
        ps = ps.push(x);
    }
//@at before tail
    proof { assert(z.subrange(0, z.len() as int) =~= z); assert(writer.out() == o0 + idats(ps)); }
//@end
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::encode_headers
//@ret r
//@sub write_header_fn(self, writer, b"IHDR", write_ihdr) => write_header_ihdr(self, writer, &[73u8, 72u8, 68u8, 82u8])
//@sub write_header_fn(self, writer, b"eXIf", write_exif) => write_header_exif(self, writer, &[101u8, 88u8, 73u8, 102u8])
//@sub write_header_fn(self, writer, b"gAMA", write_gamma) => write_header_gama(self, writer, &[103u8, 65u8, 77u8, 65u8])
//@spec
    requires self.supported(), old(writer).bytes_written + 0x8000_0100 <= usize::MAX,
    ensures r.is_ok() ==> final(writer).out() == old(writer).out() + self.head() && final(writer).bytes_written <= old(writer).bytes_written + 0x8000_0100,
//@at before tail
    proof { assert(writer.out() =~= old(writer).out() + self.head()); }
//@end
//@fn crates/zune-png/src/encoder.rs :: PngEncoder::encode
//@sub write_header_fn(self, &mut writer, b"IEND", write_iend) => write_header_iend(self, &mut writer, &[73u8, 69u8, 78u8, 68u8])
//@sig
    fn encode<T: ZByteWriterTrait>(&mut self, sink: T, vx_out: &mut Ghost<Seq<u8>>) -> (r: Result<usize, ZByteIoError>)
//@spec
    requires old(self).supported(),
    ensures r.is_ok() ==> old(self).data@.len() == old(self).roww() * old(self).options.height && exists|file: Seq<u8>, ps: Seq<Seq<u8>>, f: Seq<u8>| final(vx_out)@ == sink.sunk() + file && #[trigger] png_file(file, old(self).head(), ps, f) && filtered(f, old(self).data@, old(self).roww(), old(self).options.height as int, old(self).bpp()),
//@at after let writer
    let ghost hd = self.head(); let ghost s0 = sink.sunk();
    proof {
        let o = self.options; let ww = o.width as int; let b = o.depth.bytes(); let c = o.colorspace.ncomp(); let h = o.height as int;
        assert(ww * h * b * c == (ww * (c * b)) * h) by(nonlinear_arith);
        assert(expected_data_size == ww * h * b * c);
        assert(self.data@.len() == self.roww() * h);
    }
//@at after call write_idat_chunks
    let ghost o2 = writer.out();
//@at before tail
    proof {
        let ps = choose|ps: Seq<Seq<u8>>| o2 == s0 + hd + #[trigger] idats(ps) && joined(ps) == self.encoded_chunks@ && small(ps);
        let file = hd + idats(ps) + chunk_of(n_iend(), Seq::empty());
        assert([73u8, 69u8, 78u8, 68u8]@ =~= n_iend());
        assert(writer.out() =~= s0 + file);
        assert(png_file(file, hd, ps, self.filter_scanline@));
    }
    *vx_out = Ghost(writer.out());
//@end
}
/// row `i` of the image `cur` is what the PNG reconstruction rules (section 9) give for row `i` of the stream `f`
pub open spec fn recon_row(f: Seq<u8>, cur: Seq<u8>, w: int, bpp: int, i: int) -> bool {
    forall|j: int| #![trigger drow(cur, w, i)[j]] 0 <= j < w ==> recon_at(frow(f, w, i)[0] as int, frow(f, w, i).subrange(1, w + 1), dprev(cur, w, i), drow(cur, w, i), bpp, j)
}
/// C20: every reader that inflates the stream and applies the reconstruction rules gets the encoded samples, and nothing else
pub proof fn theorem_rows_determine_image(f: Seq<u8>, d: Seq<u8>, cur: Seq<u8>, w: int, h: int, bpp: int, n: int)
    requires filtered(f, d, w, h, bpp), cur.len() == d.len(), d.len() == w * h, 0 < bpp <= w, 0 <= n <= h, forall|i: int| 0 <= i < h ==> #[trigger] recon_row(f, cur, w, bpp, i),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] drow(cur, w, i) == drow(d, w, i),
    decreases n,
{
    if n > 0 {
        theorem_rows_determine_image(f, d, cur, w, h, bpp, n - 1);
        let i = n - 1;
        assert((i + 1) * w <= h * w && (i + 1) * w == i * w + w && i * w >= 0) by(nonlinear_arith) requires 0 <= i, i + 1 <= h, w > 0;
        assert(w * h == h * w) by(nonlinear_arith);
        assert((i + 1) * (w + 1) <= h * (w + 1) && (i + 1) * (w + 1) == i * (w + 1) + w + 1 && i * (w + 1) >= 0) by(nonlinear_arith) requires 0 <= i, i + 1 <= h, w > 0;
        let row = frow(f, w, i); let filt = row.subrange(1, w + 1); let (o, c) = (drow(d, w, i), drow(cur, w, i));
        assert(frow_ok(f, d, w, bpp, i)); assert(recon_row(f, cur, w, bpp, i));
        if i > 0 { assert(drow(cur, w, i - 1) == drow(d, w, i - 1)); }
        assert(dprev(cur, w, i) == dprev(d, w, i));
        assert(row.subrange(1, row.len() as int) =~= filt);
        assert forall|j: int| 0 <= j < o.len() implies filt_at(row[0] as int, o, dprev(d, w, i), filt, bpp, j) by { assert(o[j] == o[j]); }
        assert forall|j: int| 0 <= j < o.len() implies recon_at(row[0] as int, filt, dprev(d, w, i), c, bpp, j) by { assert(drow(cur, w, i)[j] == c[j]); }
        theorem_unfilter_inverts_filter(row[0] as int, o, dprev(d, w, i), filt, c, bpp, w);
        assert(c =~= o);
    }
}
//@include prelude_end.inc
