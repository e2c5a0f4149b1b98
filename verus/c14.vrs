//@include prelude.inc
//@include core.inc
// ===== C14: bit depth conversion =====
//@include channel.inc
// The floating point formulas are outside the verifier's reach: each is replaced by a named function, and the axioms
// state what the formula computes; the bounded part evaluates the real code on every 8 and 16 bit value, which is the
// whole domain of each axiom, and checks exactly these facts.
pub uninterp spec fn up(v: u8) -> u16;           // ((v * (1/255)) * 65535) as u16
pub uninterp spec fn down(v: u16, m: u16) -> u8; // ((v * (1/m)) * 255) as u8, used for m < 65535 only
pub uninterp spec fn u8f(v: u8) -> f32;          // v * (1/255)
pub uninterp spec fn u16f(v: u16) -> f32;        // v * (1/65535)
pub uninterp spec fn fu8(v: f32) -> u8;          // (255 * v).clamp(0, 255).round() as u8
pub uninterp spec fn fu16(v: f32) -> u16;        // (65535 * v).clamp(0, 65535).round() as u16
pub axiom fn axiom_up(v: u8) ensures up(v) as int / 257 == v, v == 0 ==> up(v) == 0, v == 255 ==> up(v) == 65535, v < 255 ==> up(v) <= up((v + 1) as u8);
pub axiom fn axiom_u8f(v: u8) ensures fu8(u8f(v)) == v;
pub axiom fn axiom_u16f(v: u16) ensures fu16(u16f(v)) == v;
pub axiom fn axiom_u8f16(v: u8) ensures fu16(u8f(v)) as int / 257 == v;
pub uninterp spec fn recip(n: int) -> f32;
pub uninterp spec fn f32of(n: u16) -> f32;
#[verifier::external_body] fn vx_r255() -> (r: f32) ensures r == recip(255) { unimplemented!() }
#[verifier::external_body] fn vx_r65535() -> (r: f32) ensures r == recip(65535) { unimplemented!() }
#[verifier::external_body] fn vx_rmax(m: u16) -> (r: f32) ensures r == recip(m as int) { unimplemented!() }
#[verifier::external_body] fn vx_f32(m: u16) -> (r: f32) ensures r == f32of(m) { unimplemented!() }
#[verifier::external_body] fn vx_up(v: u8, max: f32, scale: f32) -> (r: u16) ensures max == recip(255) && scale == f32of(65535) ==> r == up(v) { unimplemented!() }
#[verifier::external_body] fn vx_down(v: u16, max: f32, m: u16) -> (r: u8) ensures max == recip(m as int) ==> r == down(v, m) { unimplemented!() }
#[verifier::external_body] fn vx_fu8(v: f32) -> (r: u8) ensures r == fu8(v) { unimplemented!() }
#[verifier::external_body] fn vx_fu16(v: f32) -> (r: u16) ensures r == fu16(v) { unimplemented!() }
pub trait VxToF: Copy { spec fn tof(v: Self) -> f32; spec fn full() -> int; fn vx_tof(v: Self, recip: f32) -> (r: f32) ensures recip == self::recip(Self::full()) ==> r == Self::tof(v); }
impl VxToF for u8 { open spec fn tof(v: u8) -> f32 { u8f(v) } open spec fn full() -> int { 255 } #[verifier::external_body] fn vx_tof(v: u8, recip: f32) -> (r: f32) { unimplemented!() } }
impl VxToF for u16 { open spec fn tof(v: u16) -> f32 { u16f(v) } open spec fn full() -> int { 65535 } #[verifier::external_body] fn vx_tof(v: u16, recip: f32) -> (r: f32) { unimplemented!() } }
fn vx_tof<T: VxToF>(v: T, recip: f32) -> (r: f32) ensures recip == self::recip(T::full()) ==> r == T::tof(v) { T::vx_tof(v, recip) }
impl BitDepth {
//@fn crates/zune-core/src/bit_depth.rs :: BitDepth::max_value
//@ret r
//@sub (1 << 08) => 256
//@spec
    ensures r == (match *self { BitDepth::Eight => 255u16, BitDepth::Sixteen => 65535u16, BitDepth::Float32 => 1u16, _ => 0u16 })
//@sig
fn max_value(&self) -> (r: u16)
//@end
}
//@fn crates/zune-image/src/core_filters/depth.rs :: depth_u16_to_u8
//@sub ((f32::from(*old) * max) * scale) as u8 => vx_down(*old, max, max_value)
//@sub 1.0 / f32::from(max_value) => vx_rmax(max_value)
//@sub let scale = 255.0; => 
//@spec
    requires old(to)@.len() == from@.len()
    ensures final(to)@.len() == from@.len(), max_value == 65535 ==> forall|i: int| 0 <= i < from@.len() ==> #[trigger] final(to)@[i] as int == from@[i] as int / 257, max_value != 65535 ==> forall|i: int| 0 <= i < from@.len() ==> #[trigger] final(to)@[i] == down(from@[i], max_value)
//@at begin
    let vx_l = from.len();
//@loop 0
    to@.len() == vx_l, from@.len() == vx_l, vx_c0 == vx_l, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] to@[i] as int == from@[i] as int / 257
//@loop 1
    to@.len() == vx_l, from@.len() == vx_l, vx_c1 == vx_l, max == recip(max_value as int), forall|i: int| 0 <= i < vx_i1 ==> #[trigger] to@[i] == down(from@[i], max_value)
//@end
//@fn crates/zune-image/src/core_filters/depth.rs :: depth_u8_to_u16
//@sub ((f32::from(*old) * max) * scale) as u16 => vx_up(*old, max, scale)
//@sub 1.0 / 255.0 => vx_r255()
//@sub f32::from(max_value) => vx_f32(max_value)
//@spec
    requires old(to)@.len() == from@.len(), max_value == 65535
    ensures final(to)@.len() == from@.len(), forall|i: int| 0 <= i < from@.len() ==> #[trigger] final(to)@[i] == up(from@[i])
//@at begin
    let vx_l = from.len();
//@loop 0
    to@.len() == vx_l, from@.len() == vx_l, max == recip(255), scale == f32of(65535), vx_c0 == vx_l, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] to@[i] == up(from@[i])
//@end
pub struct Depth { pub depth: BitDepth }
/// Image: only what the filter uses (channels_mut(false) is every channel)
pub struct Image { pub channels: Vec<Channel>, pub d: BitDepth }
impl Image {
    pub fn depth(&self) -> (r: BitDepth) ensures r == self.d { self.d }
    pub fn set_depth(&mut self, d: BitDepth) ensures final(self).d == d, final(self).channels == old(self).channels { self.d = d; }
    #[verifier::external_body] pub fn channels_mut(&mut self, ignore_alpha: bool) -> (r: &mut [Channel]) ensures !ignore_alpha ==> r@ == old(self).channels@ && final(r)@ == final(self).channels@, final(self).d == old(self).d { unimplemented!() }
}
pub open spec fn has(c: Channel, d: BitDepth) -> bool { match d { BitDepth::Eight => typed::<u8>(c), BitDepth::Sixteen => typed::<u16>(c), BitDepth::Float32 => typed::<f32>(c), _ => false } }
/// every sample of n is the conversion of the sample of o at the same position
pub open spec fn conv(o: Channel, n: Channel, a: BitDepth, b: BitDepth) -> bool {
    has(n, b) && match (a, b) {
        (BitDepth::Eight, BitDepth::Sixteen) => samples::<u16>(n).len() == samples::<u8>(o).len() && forall|i: int| 0 <= i < samples::<u8>(o).len() ==> #[trigger] samples::<u16>(n)[i] == up(samples::<u8>(o)[i]),
        (BitDepth::Sixteen, BitDepth::Eight) => samples::<u8>(n).len() == samples::<u16>(o).len() && forall|i: int| 0 <= i < samples::<u16>(o).len() ==> #[trigger] samples::<u8>(n)[i] as int == samples::<u16>(o)[i] as int / 257,
        (BitDepth::Float32, BitDepth::Eight) => samples::<u8>(n).len() == samples::<f32>(o).len() && forall|i: int| 0 <= i < samples::<f32>(o).len() ==> #[trigger] samples::<u8>(n)[i] == fu8(samples::<f32>(o)[i]),
        (BitDepth::Float32, BitDepth::Sixteen) => samples::<u16>(n).len() == samples::<f32>(o).len() && forall|i: int| 0 <= i < samples::<f32>(o).len() ==> #[trigger] samples::<u16>(n)[i] == fu16(samples::<f32>(o)[i]),
        (BitDepth::Eight, BitDepth::Float32) => samples::<f32>(n).len() == samples::<u8>(o).len() && forall|i: int| 0 <= i < samples::<u8>(o).len() ==> #[trigger] samples::<f32>(n)[i] == u8f(samples::<u8>(o)[i]),
        (BitDepth::Sixteen, BitDepth::Float32) => samples::<f32>(n).len() == samples::<u16>(o).len() && forall|i: int| 0 <= i < samples::<u16>(o).len() ==> #[trigger] samples::<f32>(n)[i] == u16f(samples::<u16>(o)[i]),
        _ => false } }
/// the byte length of a channel is a usize
pub open spec fn fits(c: Channel) -> bool { 4 * samples::<u8>(c).len() <= usize::MAX && 4 * samples::<u16>(c).len() <= usize::MAX && 4 * samples::<f32>(c).len() <= usize::MAX }
pub open spec fn known(d: BitDepth) -> bool { d == BitDepth::Eight || d == BitDepth::Sixteen || d == BitDepth::Float32 }
impl Depth {
//@fn crates/zune-image/src/core_filters/depth.rs :: OperationsTrait for Depth::execute_impl
//@iter image.channels_mut(false) mut
//@ret r
//@sub (255.0 * old_chan).clamp(0.0, 255.0).round() as u8 => vx_fu8(*old_chan)
//@sub (65535.0 * old_chan).clamp(0.0, 65535.0).round() as u16 => vx_fu16(*old_chan)
//@sub 1.0 / 255.0 => vx_r255()
//@sub 1.0 / 65535.0 => vx_r65535()
//@sub f32::from(*old_chan) * recip => vx_tof(*old_chan, recip)
//@spec
    requires known(old(image).d), known(self.depth), forall|k: int| 0 <= k < old(image).channels@.len() ==> has(#[trigger] old(image).channels@[k], old(image).d), forall|k: int| 0 <= k < old(image).channels@.len() ==> fits(#[trigger] old(image).channels@[k])
    ensures r is Ok, final(image).d == self.depth, final(image).channels@.len() == old(image).channels@.len(), old(image).d == self.depth ==> final(image).channels@ == old(image).channels@,
        old(image).d != self.depth ==> forall|k: int| 0 <= k < old(image).channels@.len() ==> conv(old(image).channels@[k], #[trigger] final(image).channels@[k], old(image).d, self.depth)
//@at begin
    let ghost c0 = image.channels@;
//@loop 0
    image_depth != self.depth, known(image_depth), known(self.depth), c0.len() == vx_s0_0@.len(), vx_c0 == c0.len(),
    forall|k: int| 0 <= k < c0.len() ==> has(#[trigger] c0[k], image_depth), forall|k: int| 0 <= k < c0.len() ==> fits(#[trigger] c0[k]),
    forall|k: int| 0 <= k < vx_i0 ==> conv(c0[k], #[trigger] vx_s0_0@[k], image_depth, self.depth), forall|k: int| vx_i0 <= k < c0.len() ==> #[trigger] vx_s0_0@[k] == c0[k]
//@at loop 0 begin
    let ghost kk = vx_k0 as int; assert(has(c0[kk], image_depth) && fits(c0[kk]) && vx_s0_0@[kk] == c0[kk]);
//@loop 1
    old_data@.len() == new_channel_raw@.len(), vx_c1 == old_data@.len(), forall|i: int| 0 <= i < vx_i1 ==> #[trigger] new_channel_raw@[i] == fu8(old_data@[i])
//@loop 2
    old_data@.len() == new_channel_raw@.len(), vx_c2 == old_data@.len(), forall|i: int| 0 <= i < vx_i2 ==> #[trigger] new_channel_raw@[i] == fu16(old_data@[i])
//@loop 3
    old_data@.len() == new_channel_raw@.len(), vx_c3 == old_data@.len(), recip == self::recip(255), forall|i: int| 0 <= i < vx_i3 ==> #[trigger] new_channel_raw@[i] == u8f(old_data@[i])
//@loop 4
    old_data@.len() == new_channel_raw@.len(), vx_c4 == old_data@.len(), recip == self::recip(65535), forall|i: int| 0 <= i < vx_i4 ==> #[trigger] new_channel_raw@[i] == u16f(old_data@[i])
//@end
}
/// whatever the path, the 8 bit samples come back
pub proof fn theorem_u8_u16_u8(a: Channel, b: Channel, c: Channel)
    requires conv(a, b, BitDepth::Eight, BitDepth::Sixteen), conv(b, c, BitDepth::Sixteen, BitDepth::Eight)
    ensures samples::<u8>(c) =~= samples::<u8>(a)
{ assert forall|i: int| 0 <= i < samples::<u8>(a).len() implies samples::<u8>(c)[i] == samples::<u8>(a)[i] by { axiom_up(samples::<u8>(a)[i]); assert(samples::<u16>(b)[i] == up(samples::<u8>(a)[i])); } }
pub proof fn theorem_u8_f32_u8(a: Channel, b: Channel, c: Channel)
    requires conv(a, b, BitDepth::Eight, BitDepth::Float32), conv(b, c, BitDepth::Float32, BitDepth::Eight)
    ensures samples::<u8>(c) =~= samples::<u8>(a)
{ assert forall|i: int| 0 <= i < samples::<u8>(a).len() implies samples::<u8>(c)[i] == samples::<u8>(a)[i] by { axiom_u8f(samples::<u8>(a)[i]); assert(samples::<f32>(b)[i] == u8f(samples::<u8>(a)[i])); } }
pub proof fn theorem_u16_f32_u16(a: Channel, b: Channel, c: Channel)
    requires conv(a, b, BitDepth::Sixteen, BitDepth::Float32), conv(b, c, BitDepth::Float32, BitDepth::Sixteen)
    ensures samples::<u16>(c) =~= samples::<u16>(a)
{ assert forall|i: int| 0 <= i < samples::<u16>(a).len() implies samples::<u16>(c)[i] == samples::<u16>(a)[i] by { axiom_u16f(samples::<u16>(a)[i]); assert(samples::<f32>(b)[i] == u16f(samples::<u16>(a)[i])); } }
pub proof fn theorem_u8_f32_u16_u8(a: Channel, b: Channel, c: Channel, d: Channel)
    requires conv(a, b, BitDepth::Eight, BitDepth::Float32), conv(b, c, BitDepth::Float32, BitDepth::Sixteen), conv(c, d, BitDepth::Sixteen, BitDepth::Eight)
    ensures samples::<u8>(d) =~= samples::<u8>(a)
{ assert forall|i: int| 0 <= i < samples::<u8>(a).len() implies samples::<u8>(d)[i] == samples::<u8>(a)[i] by { axiom_u8f16(samples::<u8>(a)[i]); assert(samples::<f32>(b)[i] == u8f(samples::<u8>(a)[i])); assert(samples::<u16>(c)[i] == fu16(samples::<f32>(b)[i])); } }
//@include prelude_end.inc
