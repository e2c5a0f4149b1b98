use crate::g::*;
use crate::CaseFn;
use std::num::NonZeroU32;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::image::Image;

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C13" { v.push(("channels_u8", |g| ch::<u8>(g))); v.push(("channels_u16", |g| ch::<u16>(g))); v.push(("channels_f32", |g| ch::<f32>(g))); v.push(("channel_bytes", bytes)); }
    if p == "C14" { v.push(("depth_u8", d8)); v.push(("depth_u16", d16)); v.push(("depth_f32", df)); }
}
pub trait S: Copy + Default + PartialEq + std::fmt::Debug + 'static + bytemuck::Pod { fn gen(g: &mut G) -> Self; fn image(p: &[Self], w: usize, h: usize, c: ColorSpace) -> Image; fn u8s(p: &[Self]) -> Vec<u8> { bytemuck::cast_slice(p).to_vec() } }
impl S for u8 { fn gen(g: &mut G) -> u8 { g.b() } fn image(p: &[u8], w: usize, h: usize, c: ColorSpace) -> Image { Image::from_u8(p, w, h, c) } }
impl S for u16 { fn gen(g: &mut G) -> u16 { u16::from_be_bytes([g.b(), g.b()]) } fn image(p: &[u16], w: usize, h: usize, c: ColorSpace) -> Image { Image::from_u16(p, w, h, c) } }
impl S for f32 { fn gen(g: &mut G) -> f32 { match g.below(3) { 0 => g.u16() as f32 / 65535.0, 1 => g.b() as f32 / 255.0, _ => g.below(9) as f32 * 0.25 - 1.0 } } fn image(p: &[f32], w: usize, h: usize, c: ColorSpace) -> Image { Image::from_f32(p, w, h, c) } }
pub const CS: [ColorSpace; 9] = [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::ARGB, ColorSpace::CMYK, ColorSpace::YCbCr];
pub fn cs(g: &mut G) -> ColorSpace { if g.chance(1, 6) { ColorSpace::MultiBand(NonZeroU32::new(g.range(1, 9) as u32).unwrap()) } else { g.pick(&CS) } }
/// samples with a little structure so that displaced ones are noticed
pub fn samples<T: S>(g: &mut G, n: usize) -> Vec<T> { (0..n).map(|_| T::gen(g)).collect() }
/// bigger widths than dim() now and then: SIMD kernels work on 16/32 samples at a time
pub fn wdim(g: &mut G) -> usize { if g.chance(1, 3) { g.range(1, 40 + 2 * g.size as usize) } else { g.dim() } }

fn ch<T: S>(g: &mut G) -> Result<(), String> {
    let (w, h, c) = (wdim(g), g.dim(), cs(g)); let n = c.num_components();
    let px = samples::<T>(g, w * h * n);
    g.note(&format!("{} image {w}x{h} {c:?}", std::any::type_name::<T>())); g.note_bytes("px", &T::u8s(&px));
    let im = T::image(&px, w, h, c);
    let chans = im.channels_ref(false);
    if chans.len() != n { return Err(format!("{} channels, expected {n}", chans.len())); }
    for (k, x) in chans.iter().enumerate() {
        let want: Vec<T> = px.iter().skip(k).step_by(n).copied().collect();
        diff(&format!("channel {k}"), x.reinterpret_as::<T>().map_err(|e| format!("{e:?}"))?, &want)?;
    }
    let f = im.flatten_frames::<T>();
    if f.len() != 1 { return Err("frames".into()); }
    diff("flatten_frames", &f[0], &px)?;
    if size_of::<T>() == 1 { diff("flatten_to_u8", &im.flatten_to_u8()[0], &T::u8s(&px))?; }
    if im.dimensions() != (w, h) || im.colorspace() != c { return Err("dimensions or colour space changed".into()); }
    // a frame joined into a larger or exact buffer
    let mut out = vec![T::default(); w * h * n];
    let m = im.frames_ref()[0].flatten_into(&mut out).map_err(|e| format!("{e:?}"))?;
    diff("flatten_into", &out, &px)?; if m != px.len() { return Err(format!("flatten_into returned {m}, wrote {}", px.len())); }
    Ok(())
}
fn bytes(g: &mut G) -> Result<(), String> {
    use zune_image::channel::Channel;
    let cap = g.below(9); let mut c = match g.below(3) { 0 => Channel::new::<u16>(), 1 => Channel::new_with_capacity::<u16>(cap), _ => Channel::new_with_length::<u16>(2 * cap) };
    let mut want: Vec<u16> = c.reinterpret_as::<u16>().map_err(|e| format!("{e:?}"))?.to_vec();
    let mut log = String::new();
    for _ in 0..g.range(1, 12) {
        match g.below(3) {
            0 => { let x = g.u16(); log.push_str("push "); c.push(x); want.push(x) }
            1 => { let n = g.below(40); let s = samples::<u16>(g, n); log.push_str(&format!("extend{n} ")); c.extend(&s); want.extend(&s) }
            _ => { log.push_str("clone "); let d = c.clone(); c = d }
        }
        let got = c.reinterpret_as::<u16>().map_err(|e| format!("{e:?} after {log}"))?;
        diff(&format!("channel after {log}"), got, &want)?;
    }
    g.note(&format!("cap={cap} {log}"));
    Ok(())
}
fn conv<A: S, B: S>(px: &[A], to: BitDepth) -> Result<(Vec<B>, Image), String> {
    let mut im = A::image(px, px.len(), 1, ColorSpace::Luma);
    im.convert_depth(to).map_err(|e| format!("{e:?}"))?;
    if im.depth() != to { return Err("depth not updated".into()); }
    let v = im.flatten_frames::<B>().remove(0); if v.len() != px.len() { return Err(format!("{} samples became {}", px.len(), v.len())); }
    Ok((v, im))
}
fn back<B: S>(mut im: Image, to: BitDepth) -> Result<Vec<B>, String> { im.convert_depth(to).map_err(|e| format!("{e:?}"))?; Ok(im.flatten_frames::<B>().remove(0)) }
fn mono<T: PartialOrd + Copy + std::fmt::Debug>(what: &str, v: &[T], zero: T, full: T) -> Result<(), String> {
    if v[0] != zero { return Err(format!("{what}: zero becomes {:?}", v[0])); }
    if v[v.len() - 1] != full { return Err(format!("{what}: full scale becomes {:?}", v[v.len() - 1])); }
    for i in 1..v.len() { if v[i] < v[i - 1] { return Err(format!("{what}: not monotonic at {i}")); } } Ok(())
}
fn d8(g: &mut G) -> Result<(), String> {
    let px: Vec<u8> = (0..=255).collect(); g.note("all 256 8 bit values");
    let (a, im) = conv::<u8, u16>(&px, BitDepth::Sixteen)?; mono("8 to 16 bit", &a, 0, 65535)?;
    for (i, x) in a.iter().enumerate() { if (*x as i64 - i as i64 * 257).abs() > 1 { return Err(format!("8 to 16 bit: {i} becomes {x}, not {}", i * 257)); } }
    diff("8 to 16 to 8 bit", &back::<u8>(im, BitDepth::Eight)?, &px)?;
    let (a, im) = conv::<u8, f32>(&px, BitDepth::Float32)?; mono("8 bit to float", &a, 0.0, 1.0)?;
    for (i, x) in a.iter().enumerate() { if (*x as f64 - i as f64 / 255.0).abs() > 1e-6 { return Err(format!("8 bit to float: {i} becomes {x}")); } }
    diff("8 bit to float to 8 bit", &back::<u8>(im.clone(), BitDepth::Eight)?, &px)?;
    let mut m = im.clone(); m.convert_depth(BitDepth::Sixteen).map_err(|e| format!("{e:?}"))?;
    diff("8 bit to float to 16 to 8 bit", &back::<u8>(m, BitDepth::Eight)?, &px)?;
    // longer inputs, several channels, and the identity conversion
    let n = g.range(1, 70); let v = samples::<u8>(g, n * 4); let mut im = u8::image(&v, n, 1, ColorSpace::RGBA); g.note_bytes("rgba", &v);
    let to = g.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]); im.convert_depth(to).map_err(|e| format!("{e:?}"))?; im.convert_depth(BitDepth::Eight).map_err(|e| format!("{e:?}"))?;
    diff("8 bit image after a round trip", &im.flatten_frames::<u8>()[0], &v)
}
fn d16(g: &mut G) -> Result<(), String> {
    let px: Vec<u16> = (0..=65535).collect(); g.note("all 65536 16 bit values"); g.note(&format!("{}", g.size));
    let (a, _) = conv::<u16, u8>(&px, BitDepth::Eight)?; mono("16 to 8 bit", &a, 0, 255)?;
    for (i, x) in a.iter().enumerate() { if (*x as f64 - i as f64 / 257.0).abs() > 1.0 { return Err(format!("16 to 8 bit: {i} becomes {x}")); } }
    let (a, im) = conv::<u16, f32>(&px, BitDepth::Float32)?; mono("16 bit to float", &a, 0.0, 1.0)?;
    for (i, x) in a.iter().enumerate() { if (*x as f64 - i as f64 / 65535.0).abs() > 1e-6 { return Err(format!("16 bit to float: {i} becomes {x}")); } }
    diff("16 bit to float to 16 bit", &back::<u16>(im, BitDepth::Sixteen)?, &px)
}
fn df(g: &mut G) -> Result<(), String> {
    let mut px: Vec<f32> = (0..200).map(|_| (g.u32() as f64 / u32::MAX as f64) as f32).collect(); px.push(0.0); px.push(1.0); px.sort_by(|a, b| a.partial_cmp(b).unwrap());
    g.note_bytes("f32", bytemuck::cast_slice(&px));
    let (a, _) = conv::<f32, u8>(&px, BitDepth::Eight)?; mono("float to 8 bit", &a, 0, 255)?;
    for (x, y) in px.iter().zip(&a) { if (*y as f64 - *x as f64 * 255.0).abs() > 1.0 { return Err(format!("float to 8 bit: {x} becomes {y}")); } }
    let (a, _) = conv::<f32, u16>(&px, BitDepth::Sixteen)?; mono("float to 16 bit", &a, 0, 65535)?;
    for (x, y) in px.iter().zip(&a) { if (*y as f64 - *x as f64 * 65535.0).abs() > 1.01 { return Err(format!("float to 16 bit: {x} becomes {y}")); } }
    let out: Vec<f32> = vec![-0.5, -1e9, 1.5, 7e9]; let (a, _) = conv::<f32, u8>(&out, BitDepth::Eight)?; diff("out of range floats", &a, &[0, 0, 255, 255])?;
    let (a, _) = conv::<f32, u16>(&out, BitDepth::Sixteen)?; diff("out of range floats", &a, &[0, 0, 65535, 65535])
}
