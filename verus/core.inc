// ---- zune-core option and colorspace types, extracted ----
#[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
pub struct VxNonZero { pub v: u32 }
impl VxNonZero { pub const fn get(&self) -> (r: u32) ensures r == self.v { self.v } }
//@type crates/zune-core/src/colorspace.rs :: ColorSpace
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@sub core::num::NonZeroU32 => VxNonZero
//@end
//@type crates/zune-core/src/bit_depth.rs :: BitDepth
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@end
//@type crates/zune-core/src/bit_depth.rs :: ByteEndian
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@end
impl ColorSpace {
pub open spec fn ncomp(&self) -> int { match self { ColorSpace::RGB | ColorSpace::YCbCr | ColorSpace::BGR | ColorSpace::HSV | ColorSpace::HSL => 3, ColorSpace::RGBA | ColorSpace::YCCK | ColorSpace::CMYK | ColorSpace::BGRA | ColorSpace::ARGB => 4, ColorSpace::Luma => 1, ColorSpace::LumaA => 2, ColorSpace::Unknown => 0, ColorSpace::MultiBand(n) => n.v as int } }
//@fn crates/zune-core/src/colorspace.rs :: ColorSpace::num_components
//@ret r
//@spec
    ensures r as int == self.ncomp(),
//@end
}
//@type crates/zune-core/src/options/encoder.rs :: EncoderFlags
//@attrs #[derive(Copy, Clone)]
//@end
//@type crates/zune-core/src/options/encoder.rs :: EncoderOptions
//@attrs #[derive(Copy, Clone)]
//@end
impl EncoderOptions {
//@fn crates/zune-core/src/options/encoder.rs :: EncoderOptions::width
//@ret r
//@spec
    ensures r == self.width,
//@end
//@fn crates/zune-core/src/options/encoder.rs :: EncoderOptions::height
//@ret r
//@spec
    requires self.height != 0,
    ensures r == self.height,
//@end
//@fn crates/zune-core/src/options/encoder.rs :: EncoderOptions::colorspace
//@ret r
//@spec
    ensures r == self.colorspace,
//@end
//@fn crates/zune-core/src/options/encoder.rs :: EncoderOptions::depth
//@ret r
//@spec
    ensures r == self.depth,
//@end
}
//@type crates/zune-core/src/options/decoder.rs :: DecoderFlags
//@attrs #[derive(Copy, Clone)]
//@end
//@type crates/zune-core/src/options/decoder.rs :: DecoderOptions
//@attrs #[derive(Copy, Clone)]
//@end
impl DecoderOptions {
//@fn crates/zune-core/src/options/decoder.rs :: DecoderOptions::max_width
//@ret r
//@spec
    ensures r == self.max_width,
//@end
//@fn crates/zune-core/src/options/decoder.rs :: DecoderOptions::max_height
//@ret r
//@spec
    ensures r == self.max_height,
//@end
pub open spec fn strict(&self) -> bool { self.flags.jpg_error_on_non_conformance || self.flags.png_confirm_crc || self.flags.inflate_confirm_adler }
//@fn crates/zune-core/src/options/decoder.rs :: DecoderOptions::strict_mode
//@ret r
//@sub | self.flags => || self.flags
//@spec
    ensures r == self.strict(),
//@end
}
