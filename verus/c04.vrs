//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
// ===== C04: Netpbm =====
#[derive(Debug)] pub enum PPMDecodeErrors { Generic(String), GenericStatic(&'static str), InvalidHeader(String), UnsupportedImpl(String), LargeDimensions(usize, usize), IoErrors(ZByteIoError) } //TRUST: error enums and error type conversions (From impls) re-declared; error values carry no meaning in any contract
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for PPMDecodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> PPMDecodeErrors { PPMDecodeErrors::IoErrors(v) } }
impl From<ZByteIoError> for PPMDecodeErrors { fn from(value: ZByteIoError) -> PPMDecodeErrors { PPMDecodeErrors::IoErrors(value) } }
#[derive(Debug)] pub enum PPMEncodeErrors { Static(&'static str), TooShortInput(usize, usize), UnsupportedColorspace(ColorSpace), IOError(ZByteIoError) }
impl vstd::std_specs::convert::FromSpecImpl<ZByteIoError> for PPMEncodeErrors { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ZByteIoError) -> PPMEncodeErrors { PPMEncodeErrors::IOError(v) } }
impl From<ZByteIoError> for PPMEncodeErrors { fn from(value: ZByteIoError) -> PPMEncodeErrors { PPMEncodeErrors::IOError(value) } }
//@type crates/zune-core/src/bit_depth.rs :: BitType
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-core/src/result.rs :: DecodingResult
//@end
//@type crates/zune-ppm/src/decoder.rs :: PPMDecoder
//@end
//@type crates/zune-ppm/src/encoder.rs :: PPMEncoder
//@end
//@type crates/zune-ppm/src/encoder.rs :: PPMVersions
//@end
//@const crates/zune-ppm/src/encoder.rs :: PPM_HEADER_SIZE
//@end
impl DecoderOptions {
//@fn crates/zune-core/src/options/decoder.rs :: DecoderOptions::set_byte_endian
//@ret r
//@sig
    fn set_byte_endian(self, endian: ByteEndian) -> (r: Self)
//@sub self.endianness = endian; self => let mut vx_self = self; vx_self.endianness = endian; vx_self
//@spec
    ensures r == (DecoderOptions { endianness: endian, ..self }),
//@end
}
impl BitDepth {
pub open spec fn bt(&self) -> Option<BitType> { match self { BitDepth::Eight => Some(BitType::U8), BitDepth::Sixteen => Some(BitType::U16), BitDepth::Float32 => Some(BitType::F32), BitDepth::Unknown => None } }
pub open spec fn bsize(&self) -> int { match self { BitDepth::Eight => 1, BitDepth::Sixteen => 2, BitDepth::Float32 => 4, BitDepth::Unknown => 0 } }
//@fn crates/zune-core/src/bit_depth.rs :: BitDepth::bit_type
//@ret r
//@spec
    requires !(self is Unknown),
    ensures Some(r) == self.bt(),
//@end
//@fn crates/zune-core/src/bit_depth.rs :: BitDepth::max_value
//@ret r
//@spec
    ensures r as int == (match self { BitDepth::Eight => 255int, BitDepth::Sixteen => 65535, BitDepth::Float32 => 1, BitDepth::Unknown => 0 }),
//@at begin
    proof { assert((1u16 << 8) - 1 == 255) by(bit_vector); assert((1u16 << 8) == 256) by(bit_vector); }
//@end
//@fn crates/zune-core/src/bit_depth.rs :: BitDepth::size_of
//@ret r
//@sub core::mem::size_of::<u8>() => 1
//@sub core::mem::size_of::<u16>() => 2
//@sub core::mem::size_of::<f32>() => 4
//@spec
    requires !(self is Unknown),
    ensures r as int == self.bsize(),
//@end
}
// ---- the format ----
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn is_dig(b: u8) -> bool { 48 <= b <= 57 }
pub assume_specification[ u8::is_ascii_whitespace ](b: &u8) -> (r: bool) ensures r == is_ws(*b); //TRUST: u8::is_ascii_whitespace and u8::is_ascii_digit are the documented character classes
pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == is_dig(*b);
/// where a comment that started before `p` ends
pub open spec fn cmt(d: Seq<u8>, p: int) -> int decreases d.len() - p { if p < 0 || p >= d.len() { p } else if d[p] == 10 { p + 1 } else { cmt(d, p + 1) } }
pub proof fn lemma_cmt(d: Seq<u8>, p: int) requires 0 <= p <= d.len() ensures p <= cmt(d, p) <= d.len() decreases d.len() - p { if p < d.len() && d[p] != 10 { lemma_cmt(d, p + 1); } }
/// the first byte at or after `p` that is neither white space nor in a comment
pub open spec fn sp(d: Seq<u8>, p: int) -> int decreases d.len() - p via sp_dec { if p < 0 || p >= d.len() { p } else if d[p] == 35 { sp(d, cmt(d, p + 1)) } else if is_ws(d[p]) { sp(d, p + 1) } else { p } }
#[via_fn] proof fn sp_dec(d: Seq<u8>, p: int) { if 0 <= p < d.len() { lemma_cmt(d, p + 1); } }
pub proof fn lemma_sp(d: Seq<u8>, p: int) requires 0 <= p <= d.len() ensures p <= sp(d, p) <= d.len(), sp(d, sp(d, p)) == sp(d, p) decreases d.len() - p
{ if p < d.len() { if d[p] == 35 { lemma_cmt(d, p + 1); lemma_sp(d, cmt(d, p + 1)); } else if is_ws(d[p]) { lemma_sp(d, p + 1); } } }
/// the end of the decimal number at `p`, and its value
pub open spec fn nend(d: Seq<u8>, p: int) -> int decreases d.len() - p { if p < 0 || p >= d.len() || !is_dig(d[p]) { p } else { nend(d, p + 1) } }
pub open spec fn nval(d: Seq<u8>, p: int, q: int) -> int decreases q - p { if q <= p { 0 } else { nval(d, p, q - 1) * 10 + (d[q - 1] - 48) } }
pub proof fn lemma_nend(d: Seq<u8>, p: int) requires 0 <= p <= d.len() ensures p <= nend(d, p) <= d.len() decreases d.len() - p { if p < d.len() && is_dig(d[p]) { lemma_nend(d, p + 1); } }
/// a white space separated number: its value as the decoder computes it (modulo 2^64) and the byte after it
pub open spec fn num_at(d: Seq<u8>, p: int) -> int { nval(d, sp(d, p), nend(d, sp(d, p))) % 0x1_0000_0000_0000_0000 }
pub open spec fn num_end(d: Seq<u8>, p: int) -> int { nend(d, sp(d, p)) }
pub proof fn lemma_num(d: Seq<u8>, p: int) requires 0 <= p <= d.len() ensures p <= num_end(d, p) <= d.len(), num_at(d, sp(d, p)) == num_at(d, p), num_end(d, sp(d, p)) == num_end(d, p) { lemma_sp(d, p); lemma_nend(d, sp(d, p)); }
/// P5 / P6 header after the two byte magic at `p`: width, height, maximum and where the raster starts
pub open spec fn hw(d: Seq<u8>, p: int) -> int { num_at(d, p) }
pub open spec fn hh(d: Seq<u8>, p: int) -> int { num_at(d, num_end(d, p)) }
pub open spec fn hm(d: Seq<u8>, p: int) -> int { num_at(d, num_end(d, num_end(d, p))) }
pub open spec fn raster(d: Seq<u8>, p: int) -> int { let e = num_end(d, num_end(d, num_end(d, p))); if e < d.len() && is_ws(d[e]) { e + 1 } else { e } }
pub open spec fn h56_ok(d: Seq<u8>, p: int, mw: int, mh: int) -> bool { hw(d, p) <= mw && hh(d, p) <= mh && hm(d, p) <= 65535 }
pub open spec fn ppm_cs(c: ColorSpace) -> bool { c is Luma || c is RGB || c is RGBA || c is LumaA }
pub open spec fn p56(d: Seq<u8>, p: int) -> bool { p + 2 <= d.len() && d[p] == 80 && (d[p + 1] == 53 || d[p + 1] == 54) }
/// what the raster at `q` says
pub open spec fn shows(r: DecodingResult, d: Seq<u8>, q: int, n: int, dep: BitDepth) -> bool { match r {
    DecodingResult::U8(v) => dep is Eight && v@ == d.subrange(q, q + n) && q + n <= d.len(),
    DecodingResult::U16(v) => dep is Sixteen && v.len() == n && q + 2 * n <= d.len() && (forall|k: int| 0 <= k < n ==> #[trigger] v@[k] == be16(d.subrange(q + 2 * k, q + 2 * k + 2))),
    _ => dep is Float32 } }
#[verifier::external_body] pub fn vx_cut() -> ! ensures false { panic!() } //TRUST: the PFM (32 bit float) arm of PPMDecoder::decode is cut from the proof (covered by the bounded search)
#[verifier::opaque] pub open spec fn vol(w: int, h: int, c: int) -> int { w * h * c }
pub open spec fn bytes(dep: BitDepth, n: int) -> int { match dep { BitDepth::Eight => n, BitDepth::Sixteen => 2 * n, BitDepth::Float32 => 4 * n, BitDepth::Unknown => 0 } }
pub proof fn lemma_size(a: int, b: int, c: int, dep: BitDepth, e: int, mw: int, mh: int, sane: bool)
    requires 0 <= a <= mw, 0 <= b <= mh, 0 <= c <= 4, e == dep.bsize(), sane, sane ==> forall|w: int, h: int| 0 <= w <= mw && 0 <= h <= mh ==> 16 * #[trigger] (w * h) <= usize::MAX,
    ensures 0 <= a * b <= usize::MAX, 0 <= a * b * c <= usize::MAX, 0 <= a * b * c * e <= usize::MAX, vol(a, b, c) == a * b * c, a * b * c * e == bytes(dep, vol(a, b, c)), 0 <= vol(a, b, c),
{ reveal(vol); assert(0 <= e <= 4);  assert(16 * (a * b) <= usize::MAX); assert(0 <= a * b) by(nonlinear_arith) requires a >= 0, b >= 0; assert(0 <= a * b * c <= 4 * (a * b)) by(nonlinear_arith) requires 0 <= a * b, 0 <= c <= 4; let z = a * b * c; assert(0 <= z * e <= 4 * z) by(nonlinear_arith) requires 0 <= z, 0 <= e <= 4; }
//@fn crates/zune-ppm/src/decoder.rs :: skip_spaces
//@ret r
//@spec
    requires old(byte_stream).wf(), old(byte_stream).data().len() <= usize::MAX, old(byte_stream).pos() <= old(byte_stream).data().len(),
    ensures final(byte_stream).wf(), final(byte_stream).data() == old(byte_stream).data(), r.is_ok(), final(byte_stream).pos() == sp(old(byte_stream).data(), old(byte_stream).pos()), old(byte_stream).pos() <= final(byte_stream).pos() <= old(byte_stream).data().len(),
//@at begin
    let ghost d = byte_stream.data(); let ghost p0 = byte_stream.pos();
    proof { lemma_sp(d, p0); }
//@loop 0
    invariant byte_stream.wf(), byte_stream.data() == d, d.len() <= usize::MAX, 0 <= p0 <= byte_stream.pos() <= d.len(), sp(d, byte_stream.pos()) == sp(d, p0), d == old(byte_stream).data(), p0 == old(byte_stream).pos(),
    ensures byte_stream.pos() == sp(d, p0), byte_stream.wf(), byte_stream.data() == d, p0 <= byte_stream.pos() <= d.len(),
    decreases d.len() - byte_stream.pos(),
//@at loop 0 begin
    let ghost q = byte_stream.pos(); proof { assert(q < d.len()); lemma_cmt(d, q + 1); }
//@loop 1
    invariant byte_stream.wf(), byte_stream.data() == d, 0 <= q < byte_stream.pos() <= d.len(), if byte == 10 { cmt(d, q + 1) == byte_stream.pos() } else { cmt(d, q + 1) == cmt(d, byte_stream.pos()) },
    decreases d.len() - byte_stream.pos(),
//@end
pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j], decreases a.len() - i { if a[i] != b[i] { return false; } i += 1; }
    true
}
pub fn vx_starts(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (b@.len() <= a@.len() && a@.subrange(0, b@.len() as int) =~= b@) { if b.len() > a.len() { return false; } let x = vstd::slice::slice_subrange(a, 0, b.len()); vx_bytes_eq(x, b) }
#[verifier::external_body] pub fn vx_parse_f32(b: &[u8]) -> Option<f32> { core::str::from_utf8(b).ok()?.trim().parse::<f32>().ok() } //TRUST: the PFM scale number is parsed by core::str and f32's parser, both uninterpreted
#[verifier::external_body] pub fn vx_negative(f: f32) -> bool { f < 0.0 }
pub open spec fn wtok(d: Seq<u8>, p: int) -> int decreases d.len() - p { if p < 0 || p >= d.len() { p } else if is_ws(d[p]) { p + 1 } else { wtok(d, p + 1) } }
//@fn crates/zune-ppm/src/decoder.rs :: get_bytes_until_whitespace
//@ret r
//@spec
    requires old(z).wf(), old(z).data().len() <= usize::MAX, old(z).pos() <= old(z).data().len(),
    ensures final(z).wf(), final(z).data() == old(z).data(), r.is_ok(), r.unwrap() <= final(write_to).len(), final(z).pos() == wtok(old(z).data(), old(z).pos()), old(z).pos() <= final(z).pos() <= old(z).data().len(), old(z).pos() < old(z).data().len() ==> final(z).pos() > old(z).pos(),
        final(write_to)@ == old(z).data().subrange(old(z).pos(), final(z).pos()),
        r.unwrap() > 0 ==> r.unwrap() == final(write_to).len() && is_ws(final(write_to)@.last()),
//@loop 0
    invariant_except_break end == start, wtok(z.data(), z.pos()) == wtok(z.data(), old(z).pos()),
    invariant z.wf(), z.data() == old(z).data(), z.data().len() <= usize::MAX, 0 <= old(z).pos() <= z.pos() <= z.data().len(), start as int == old(z).pos(), write_to@ == z.data().subrange(old(z).pos(), z.pos()),
    ensures z.wf(), z.data() == old(z).data(), 0 <= old(z).pos() <= z.pos() <= z.data().len(), start as int == old(z).pos(), write_to@ == z.data().subrange(old(z).pos(), z.pos()), z.pos() == wtok(z.data(), old(z).pos()), end == start || end == z.pos() && write_to.len() > 0 && is_ws(write_to@.last()), old(z).pos() < z.data().len() ==> z.pos() > old(z).pos(),
    decreases z.data().len() - z.pos(),
//@at loop 0 begin
    proof { assert(z.data().subrange(old(z).pos(), z.pos() + 1) =~= z.data().subrange(old(z).pos(), z.pos()).push(z.data()[z.pos()])); }
//@end
impl<T: ZByteReaderTrait> PPMDecoder<T> {
pub open spec fn same(&self, o: &PPMDecoder<T>) -> bool { self.reader.data() == o.reader.data() && self.options == o.options }
pub open spec fn lim(&self) -> bool { self.width <= self.options.max_width && self.height <= self.options.max_height }
pub open spec fn sane(&self) -> bool { forall|w: int, h: int| 0 <= w <= self.options.max_width && 0 <= h <= self.options.max_height ==> 16 * #[trigger] (w * h) <= usize::MAX }
pub open spec fn inb(&self) -> bool { self.reader.wf() && self.reader.pos() <= self.reader.data().len() && self.reader.data().len() <= usize::MAX }
//@fn crates/zune-ppm/src/decoder.rs :: PPMDecoder::get_integer
//@ret r
//@spec
    requires old(self).inb(),
    ensures final(self).inb(), final(self).same(old(self)), r.is_ok(), final(self).reader.pos() >= old(self).reader.pos(), r.unwrap() as int == num_at(old(self).reader.data(), old(self).reader.pos()), final(self).reader.pos() == num_end(old(self).reader.data(), old(self).reader.pos()),
        final(self).width == old(self).width, final(self).height == old(self).height, final(self).colorspace == old(self).colorspace, final(self).bit_depth == old(self).bit_depth, final(self).decoded_headers == old(self).decoded_headers,
//@at after let value
    let ghost d = self.reader.data(); let ghost p0 = self.reader.pos(); let ghost s = sp(d, p0);
    proof { lemma_num(d, p0); lemma_sp(d, p0); }
//@loop 0
    invariant self.inb(), self.reader.data() == d, self.options == old(self).options, 0 <= s <= self.reader.pos() <= d.len(), nend(d, self.reader.pos()) == nend(d, s), value as int == nval(d, s, self.reader.pos()) % 0x1_0000_0000_0000_0000,
        self.width == old(self).width, self.height == old(self).height, self.colorspace == old(self).colorspace, self.bit_depth == old(self).bit_depth, self.decoded_headers == old(self).decoded_headers,
    ensures self.inb(), self.reader.data() == d, self.options == old(self).options, self.reader.pos() == nend(d, s), value as int == nval(d, s, nend(d, s)) % 0x1_0000_0000_0000_0000,
        self.width == old(self).width, self.height == old(self).height, self.colorspace == old(self).colorspace, self.bit_depth == old(self).bit_depth, self.decoded_headers == old(self).decoded_headers,
    decreases d.len() - self.reader.pos(),
//@at loop 0 begin
    let ghost q = self.reader.pos(); let ghost v0 = value as int; let ghost n = nval(d, s, q);
    proof { let m = 0x1_0000_0000_0000_0000int; if is_dig(d[q]) { let c = d[q] as int - 48; assert(nval(d, s, q + 1) == n * 10 + c); lemma_mul_mod_noop_left(n, 10, m); lemma_add_mod_noop(n * 10, c, m); lemma_add_mod_noop((n % m) * 10, c, m); assert((n * 10 + c) % m == ((n % m) * 10 + c) % m); lemma_add_mod_noop(((n % m) * 10) % m, c, m); lemma_mod_twice((n % m) * 10, m); lemma_fundamental_div_mod((n % m) * 10, m); assert((((n % m) * 10) % m + c) % m == ((n % m) * 10 + c) % m); } }
//@end
//@fn crates/zune-ppm/src/decoder.rs :: PPMDecoder::decode_p5_and_p6_header
//@ret r
//@spec
    requires old(self).inb(), version == 53 || version == 54,
    ensures final(self).inb(), final(self).same(old(self)),
        ({ let d = old(self).reader.data(); let p = old(self).reader.pos();
            &&& r.is_ok() <==> h56_ok(d, p, old(self).options.max_width as int, old(self).options.max_height as int)
            &&& r.is_ok() ==> final(self).decoded_headers && final(self).width == hw(d, p) && final(self).height == hh(d, p) && final(self).lim() && final(self).reader.pos() == raster(d, p)
                && final(self).colorspace == (if version == 53 { ColorSpace::Luma } else { ColorSpace::RGB }) && final(self).bit_depth == (if hm(d, p) > 255 { BitDepth::Sixteen } else { old(self).bit_depth })
            &&& r.is_err() ==> final(self).decoded_headers == old(self).decoded_headers }),
//@at begin
    proof { let d = self.reader.data(); let p = self.reader.pos(); lemma_num(d, p); lemma_num(d, num_end(d, p)); lemma_num(d, num_end(d, num_end(d, p))); lemma_sp(d, p); lemma_sp(d, num_end(d, p)); lemma_sp(d, num_end(d, num_end(d, p))); }
//@end
//@fn crates/zune-ppm/src/decoder.rs :: PPMDecoder::decode_p7_header
//@ret r
//@sub new_value.starts_with(b"RGB_ALPHA") => vx_starts(new_value, &[82u8, 71u8, 66u8, 95u8, 65u8, 76u8, 80u8, 72u8, 65u8])
//@sub new_value.starts_with(b"RGB") => vx_starts(new_value, &[82u8, 71u8, 66u8])
//@sub new_value.starts_with(b"GRAYSCALE_ALPHA") => vx_starts(new_value, &[71u8, 82u8, 65u8, 89u8, 83u8, 67u8, 65u8, 76u8, 69u8, 95u8, 65u8, 76u8, 80u8, 72u8, 65u8])
//@sub new_value.starts_with(b"GRAYSCALE") => vx_starts(new_value, &[71u8, 82u8, 65u8, 89u8, 83u8, 67u8, 65u8, 76u8, 69u8])
//@sub value.starts_with(b"ENDHDR") => vx_starts(value, &[69u8, 78u8, 68u8, 72u8, 68u8, 82u8])
//@spec
    requires old(self).inb(),
    ensures final(self).reader.data() == old(self).reader.data(), final(self).reader.wf(), final(self).reader.pos() <= old(self).reader.data().len(), final(self).options.max_width == old(self).options.max_width, final(self).options.max_height == old(self).options.max_height, final(self).options == old(self).options, r.is_ok() ==> final(self).lim() && final(self).decoded_headers && (final(self).bit_depth is Eight || final(self).bit_depth is Sixteen) && ppm_cs(final(self).colorspace), r.is_err() ==> final(self).decoded_headers == old(self).decoded_headers,
//@loop 0
    invariant self.inb(), self.reader.data() == old(self).reader.data(), self.options == old(self).options, self.decoded_headers == old(self).decoded_headers, seen_width ==> self.width <= self.options.max_width, seen_height ==> self.height <= self.options.max_height, seen_max_val ==> self.bit_depth is Eight || self.bit_depth is Sixteen, seen_tuple_type ==> ppm_cs(self.colorspace),
    ensures self.inb(), self.reader.data() == old(self).reader.data(), self.options == old(self).options, seen_width ==> self.width <= self.options.max_width, seen_height ==> self.height <= self.options.max_height, seen_max_val ==> self.bit_depth is Eight || self.bit_depth is Sixteen, seen_tuple_type ==> ppm_cs(self.colorspace),
    decreases self.reader.data().len() - self.reader.pos(),
//@end
//@fn crates/zune-ppm/src/decoder.rs :: PPMDecoder::decode_pf_header
//@ret r
//@sub let int_bytes = match core::str::from_utf8(value) { Ok(valid_str) => match valid_str.trim().parse::<f32>() { Ok(number) => number, Err(_) => { return Err(PPMDecodeErrors::Generic(vx_format())) } }, Err(_) => return Err(PPMDecodeErrors::GenericStatic("Invalid string")) }; ==>> let int_bytes = match vx_parse_f32(value) { Some(number) => number, None => return Err(PPMDecodeErrors::GenericStatic("Invalid string")) };
//@sub int_bytes < 0.0 => vx_negative(int_bytes)
//@spec
    requires old(self).inb(),
    ensures final(self).reader.data() == old(self).reader.data(), final(self).reader.wf(), final(self).reader.pos() <= old(self).reader.data().len(), final(self).options.max_width == old(self).options.max_width, final(self).options.max_height == old(self).options.max_height, r.is_ok() ==> final(self).lim() && final(self).decoded_headers && final(self).bit_depth is Float32 && final(self).colorspace == colorspace && final(self).width == hw(old(self).reader.data(), old(self).reader.pos()) && final(self).height == hh(old(self).reader.data(), old(self).reader.pos()),
//@at begin
    proof { let d = self.reader.data(); let p = self.reader.pos(); lemma_num(d, p); lemma_num(d, num_end(d, p)); lemma_sp(d, p); lemma_sp(d, num_end(d, p)); }
//@end
//@fn crates/zune-ppm/src/decoder.rs :: PPMDecoder::decode_headers
//@ret r
//@spec
    requires old(self).inb(),
    ensures final(self).reader.data() == old(self).reader.data(), final(self).reader.wf(), final(self).options.max_width == old(self).options.max_width, final(self).options.max_height == old(self).options.max_height,
        ({ let d = old(self).reader.data(); let p = old(self).reader.pos();
            &&& r.is_ok() ==> final(self).inb() && final(self).decoded_headers && final(self).lim() && (!(old(self).bit_depth is Unknown) ==> !(final(self).bit_depth is Unknown)) && final(self).colorspace.ncomp() <= 4
            &&& p56(d, p) ==> (r.is_ok() <==> h56_ok(d, p + 2, old(self).options.max_width as int, old(self).options.max_height as int))
            &&& p56(d, p) && r.is_ok() ==> final(self).width == hw(d, p + 2) && final(self).height == hh(d, p + 2) && final(self).reader.pos() == raster(d, p + 2) && final(self).options == old(self).options
                && final(self).colorspace == (if d[p + 1] == 53 { ColorSpace::Luma } else { ColorSpace::RGB }) && final(self).bit_depth == (if hm(d, p + 2) > 255 { BitDepth::Sixteen } else { old(self).bit_depth }) }),
//@end
pub open spec fn known(&self) -> bool { self.decoded_headers || p56(self.reader.data(), self.reader.pos()) }
pub open spec fn fine(&self) -> bool { self.decoded_headers || h56_ok(self.reader.data(), self.reader.pos() + 2, self.options.max_width as int, self.options.max_height as int) }
pub open spec fn w_(&self) -> int { if self.decoded_headers { self.width as int } else { hw(self.reader.data(), self.reader.pos() + 2) } }
pub open spec fn h_(&self) -> int { if self.decoded_headers { self.height as int } else { hh(self.reader.data(), self.reader.pos() + 2) } }
pub open spec fn q_(&self) -> int { if self.decoded_headers { self.reader.pos() } else { raster(self.reader.data(), self.reader.pos() + 2) } }
pub open spec fn cs_(&self) -> ColorSpace { if self.decoded_headers { self.colorspace } else if self.reader.data()[self.reader.pos() + 1] == 53 { ColorSpace::Luma } else { ColorSpace::RGB } }
pub open spec fn dep_(&self) -> BitDepth { if self.decoded_headers { self.bit_depth } else if hm(self.reader.data(), self.reader.pos() + 2) > 255 { BitDepth::Sixteen } else { BitDepth::Eight } }
/// the headers of `o` as `self` has them
pub open spec fn hdr_of(&self, o: &PPMDecoder<T>) -> bool { o.fine() && self.width == o.w_() && self.height == o.h_() && self.colorspace == o.cs_() && self.bit_depth == o.dep_() && self.reader.pos() == o.q_() }
//@fn crates/zune-ppm/src/decoder.rs :: PPMDecoder::decode
//@ret r
//@armcut BitType :: F32
//@sub let size = => proof { lemma_size(self.width as int, self.height as int, self.colorspace.ncomp(), self.bit_depth, self.bit_depth.bsize(), self.options.max_width as int, self.options.max_height as int, old(self).sane()); } let size =
//@spec
    requires old(self).inb(), old(self).sane(), old(self).decoded_headers ==> old(self).lim() && old(self).colorspace.ncomp() <= 4, !(old(self).bit_depth is Unknown), !old(self).decoded_headers ==> old(self).bit_depth is Eight,
    ensures
        // the headers were decoded by an earlier call, or a whole P5 or P6 file is at the reader
        old(self).known() && r.is_ok() ==> old(self).fine() && final(self).width == old(self).w_() && final(self).height == old(self).h_() && final(self).colorspace == old(self).cs_() && final(self).bit_depth == old(self).dep_()
            && shows(r.unwrap(), old(self).reader.data(), old(self).q_(), vol(old(self).w_(), old(self).h_(), old(self).cs_().ncomp()), old(self).dep_()),
        old(self).known() && old(self).fine() && old(self).w_() > 0 && old(self).h_() > 0 && !(old(self).dep_() is Float32) && old(self).q_() + bytes(old(self).dep_(), vol(old(self).w_(), old(self).h_(), old(self).cs_().ncomp())) <= old(self).reader.data().len() ==> r.is_ok(),
//@at after let size
    let ghost at0 = *self; let ghost d = self.reader.data(); let ghost q = self.reader.pos(); let ghost n = vol(self.width as int, self.height as int, self.colorspace.ncomp());
    proof { assert(size as int == bytes(self.bit_depth, n)); assert(old(self).known() ==> self.hdr_of(old(self))); assert(q <= d.len()); }
//@loop 0
    d == old(self).reader.data(), old(self).known() ==> at0.hdr_of(old(self)), q == at0.reader.pos(), at0.bit_depth is Sixteen, n == vol(at0.width as int, at0.height as int, at0.colorspace.ncomp()), q <= d.len(), self.reader.wf(), self.reader.data() == d, vx_c0 == data.len(), data.len() == n, self.reader.pos() == q + 2 * vx_i0, 0 <= q, vx_i0 > 0 ==> q + 2 * vx_i0 <= d.len(), forall|k: int| 0 <= k < vx_i0 ==> #[trigger] data@[k] == be16(d.subrange(q + 2 * k, q + 2 * k + 2)),
    self.width == at0.width, self.height == at0.height, self.colorspace == at0.colorspace, self.bit_depth == at0.bit_depth, self.options == at0.options, self.decoded_headers,
//@at after call read_exact_bytes
    proof { assert(n == 0 ==> data@ =~= d.subrange(q, q + n)); }
//@end
}

// ---- the encoder: whatever the header text is, it is followed by exactly the samples, most significant byte first ----
pub fn vx_arr2(s: &[u8]) -> (r: [u8; 2]) requires s.len() == 2 ensures r@ == s@ { let r = [s[0], s[1]]; assert(r@ =~= s@); r } //TRUST: slice.try_into().unwrap() to an array is replaced by an indexing helper that requires the exact length
pub open spec fn swapped(data: Seq<u8>) -> Seq<u8> { Seq::new(data.len(), |i: int| if i % 2 == 0 { data[i + 1] } else { data[i - 1] }) }
pub proof fn lemma_swap16(a: u8, b: u8) ensures be16b(le16(seq![a, b])) == seq![b, a]
{ assert(((((b as u16) << 8) | (a as u16)) >> 8) as u8 == b && (((b as u16) << 8) | (a as u16)) as u8 == a && ((((a as u16)) | ((b as u16) << 8)) >> 8) as u8 == b && (((a as u16)) | ((b as u16) << 8)) as u8 == a) by(bit_vector); assert(be16b(le16(seq![a, b])) =~= seq![b, a]); }
pub open spec fn eopt(o: EncoderOptions) -> bool { o.height > 0 && !(o.depth is Unknown) && o.width * o.height * 4 * 8 + 8192 <= usize::MAX && o.colorspace.ncomp() <= 4 }
pub open spec fn esize(o: EncoderOptions) -> int { bytes(o.depth, vol(o.width as int, o.height as int, o.colorspace.ncomp())) }
pub proof fn lemma_esize(o: EncoderOptions) requires eopt(o), o.colorspace.ncomp() >= 0 ensures o.width * o.depth.bsize() * o.height * o.colorspace.ncomp() == esize(o), 0 <= esize(o), esize(o) + 8192 <= usize::MAX, 0 <= o.width * o.depth.bsize() <= usize::MAX, 0 <= o.width * o.depth.bsize() * o.height <= usize::MAX
{
    reveal(vol); let w = o.width as int; let h = o.height as int; let c = o.colorspace.ncomp(); let e = o.depth.bsize();
    assert(1 <= e <= 4); assert(0 <= w * h && w <= w * h) by(nonlinear_arith) requires w >= 0, h >= 1;
    let a = w * h; assert(w * e * h * c == a * c * e) by(nonlinear_arith) requires a == w * h; assert(0 <= a * c <= 4 * a) by(nonlinear_arith) requires a >= 0, 0 <= c <= 4; let z = a * c; assert(0 <= z * e <= 4 * z) by(nonlinear_arith) requires z >= 0, 1 <= e <= 4;
    assert(w * e * h == a * e) by(nonlinear_arith) requires a == w * h; assert(0 <= a * e <= 4 * a) by(nonlinear_arith) requires a >= 0, 1 <= e <= 4; assert(0 <= w * e <= 4 * w) by(nonlinear_arith) requires w >= 0, 1 <= e <= 4;
}
//@fn crates/zune-ppm/src/encoder.rs :: version_for_colorspace
//@ret r
//@spec
    ensures r == (match colorspace { ColorSpace::Luma => Some(PPMVersions::P5), ColorSpace::RGB => Some(PPMVersions::P6), ColorSpace::RGBA | ColorSpace::LumaA => Some(PPMVersions::P7), _ => None }),
//@end
//@fn crates/zune-ppm/src/encoder.rs :: max_out_size
//@ret r
//@spec
    requires eopt(*options), options.colorspace.ncomp() >= 0,
    ensures r as int == esize(*options) + 100,
//@at begin
    proof { lemma_esize(*options); }
//@end
//@fn crates/zune-ppm/src/encoder.rs :: calc_expected_size
//@ret r
//@spec
    requires eopt(options), options.colorspace.ncomp() >= 0,
    ensures r as int == esize(options),
//@at begin
    proof { lemma_esize(options); }
//@end
#[verifier::external_body] fn convert_tuple_type_to_pam(colorspace: ColorSpace) -> (r: &'static str) requires ppm_cs(colorspace) { unimplemented!() } //TRUST: the header text (format!, tuple type names) is not under contract; it is read back by the bounded search
#[verifier::external_body] pub fn vx_bytes(s: &String) -> (r: &[u8]) ensures r.len() <= 4096 { s.as_bytes() } //TRUST: the header text is at most 4096 bytes (String::as_bytes otherwise unspecified)
impl<'a> PPMEncoder<'a> {
//@fn crates/zune-ppm/src/encoder.rs :: PPMEncoder::encode_headers
//@ret r
//@sub header.as_bytes() => vx_bytes(&header)
//@spec
    requires self.options.height > 0, self.options.colorspace.ncomp() >= 0, old(stream).bytes_written == 0,
    ensures r.is_ok() ==> ppm_cs(self.options.colorspace) && exists|h: Seq<u8>| #[trigger] (old(stream).out() + h) == final(stream).out() && final(stream).bytes_written == old(stream).bytes_written + h.len() && h.len() <= 4096,
//@end
//@fn crates/zune-ppm/src/encoder.rs :: PPMEncoder::encode
//@ret r
//@sub slice.try_into().unwrap() => vx_arr2(slice)
//@sig
    fn encode<T: ZByteWriterTrait>(&self, out: T, vx_out: &mut Ghost<Seq<u8>>) -> (r: Result<usize, PPMEncodeErrors>)
//@spec
    requires eopt(self.options), self.options.colorspace.ncomp() >= 0,
    ensures r.is_ok() ==> self.data.len() == esize(self.options) && ppm_cs(self.options.colorspace) && (self.options.depth is Eight || self.options.depth is Sixteen) && self.data.len() == esize(self.options)
        && exists|h: Seq<u8>| final(vx_out)@ == #[trigger] (out.sunk() + h) + (if self.options.depth is Eight { self.data@ } else { swapped(self.data@) }) && r.unwrap() == h.len() + self.data.len(),
//@at begin
    proof { lemma_esize(self.options); }
//@at after call encode_headers
    let ghost hd = stream.out(); let ghost data = self.data@; let ghost bw = stream.bytes_written; let ghost hh0 = choose|h: Seq<u8>| #[trigger] (out.sunk() + h) == hd && bw == h.len() && h.len() <= 4096;
    proof { assert(hd + swapped(data).subrange(0, 0) =~= hd); assert(hd == out.sunk() + hh0); }
//@loop 0
    self.data@ == data, data.len() + 8192 <= usize::MAX, bw <= 4096, vx_c0 == data.len() / 2, stream.out() == hd + swapped(data).subrange(0, 2 * vx_i0 as int), stream.bytes_written == bw + 2 * vx_i0,
//@at loop 0 begin
    let ghost k = vx_k0 as int; let ghost out0 = stream.out();
//@at loop 0 end
    proof { lemma_swap16(data[2 * k], data[2 * k + 1]); assert(slice@ =~= seq![data[2 * k], data[2 * k + 1]]); assert(stream.out() =~= hd + swapped(data).subrange(0, 2 * k + 2)); }
//@at after loop 0
    proof { assert(2 * (data.len() / 2) == data.len()); assert(swapped(data).subrange(0, data.len() as int) =~= swapped(data)); assert(stream.out() =~= hd + swapped(data)); }
//@at before tail
    *vx_out = Ghost(stream.out());
//@end
}
/// the round trip over the contracts: 16 bit samples written after any header are the samples read back at the raster
pub proof fn theorem_raster_roundtrip(h: Seq<u8>, data: Seq<u8>, n: int)
    requires data.len() == 2 * n,
    ensures forall|k: int| 0 <= k < n ==> be16(#[trigger] (h + swapped(data)).subrange(h.len() + 2 * k, h.len() + 2 * k + 2)) == le16(data.subrange(2 * k, 2 * k + 2)), forall|s: Seq<u8>| s == data ==> #[trigger] (h + s).subrange(h.len() as int, h.len() + 2 * n) == data,
{
    let d = h + swapped(data);
    assert forall|k: int| 0 <= k < n implies be16(#[trigger] (h + swapped(data)).subrange(h.len() + 2 * k, h.len() + 2 * k + 2)) == le16(data.subrange(2 * k, 2 * k + 2)) by {
        let s = d.subrange(h.len() + 2 * k, h.len() + 2 * k + 2);
        assert(s[0] == swapped(data)[2 * k] && s[1] == swapped(data)[2 * k + 1]);
        assert(s[0] == data[2 * k + 1] && s[1] == data[2 * k]);
        let x = s[0]; let y = s[1]; assert(data.subrange(2 * k, 2 * k + 2) =~= seq![y, x]); assert(s =~= seq![x, y]);
        assert(((x as u16) << 8) | (y as u16) == (y as u16) | ((x as u16) << 8)) by(bit_vector);
    }
    assert((h + data).subrange(h.len() as int, h.len() + 2 * n) =~= data);
}
//@include prelude_end.inc
