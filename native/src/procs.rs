use crate::g::*;
use crate::image::*;
use crate::CaseFn;
use zune_core::colorspace::ColorSpace;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_image::metadata::AlphaState;
use zune_imageprocs::{crop::Crop, flip::{Flip, FlipDirection}, mirror::{Mirror, MirrorMode}, premul_alpha::*, rotate::Rotate, transpose::*};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C12" { v.push(("geometry_u8", |g| geo::<u8>(g))); v.push(("geometry_u16", |g| geo::<u16>(g))); v.push(("geometry_f32", |g| geo::<f32>(g))); v.push(("transpose_kernels", tr)); }
    if p == "C15" { v.push(("premultiply", pm)); v.push(("unpremultiply", un)); v.push(("image_alpha", alpha)); }
}
/// out[y][x] = in[src(x, y)]
fn mapped<T: Copy>(px: &[T], w: usize, n: usize, ow: usize, oh: usize, src: impl Fn(usize, usize) -> (usize, usize)) -> Vec<T> {
    let mut o = vec![]; for y in 0..oh { for x in 0..ow { let (sx, sy) = src(x, y); for k in 0..n { o.push(px[(sy * w + sx) * n + k]) } } } o
}
fn geo<T: S>(g: &mut G) -> Result<(), String> {
    let (w, h, c) = (wdim(g), wdim(g), cs(g)); let n = c.num_components(); let (w, h) = (w.min(80), h.min(80));
    let px = samples::<T>(g, w * h * n);
    let mut im = T::image(&px, w, h, c);
    if g.chance(1, 5) { let px2 = samples::<T>(g, w * h * n); return frames::<T>(g, &px, &px2, w, h, c) }
    let run = |im: &mut Image, op: &dyn OperationsTrait| op.execute(im).map_err(|e| format!("{e:?}"));
    let id = g.below(14);
    let (mut ow, mut oh) = (w, h);
    g.note(&format!("{} image {w}x{h} {c:?} op={id}", std::any::type_name::<T>()));
    let want = match id {
        0 => { run(&mut im, &Flip::new(FlipDirection::Horizontal))?; mapped(&px, w, n, w, h, |x, y| (w - 1 - x, y)) }
        1 => { run(&mut im, &Flip::new(FlipDirection::Vertical))?; mapped(&px, w, n, w, h, |x, y| (x, h - 1 - y)) }
        2 => { run(&mut im, &Flip::new(FlipDirection::MirrorXAxis))?; mapped(&px, w, n, w, h, |x, y| (w - 1 - x, h - 1 - y)) }
        3 => { run(&mut im, &Mirror::new(MirrorMode::North))?; mapped(&px, w, n, w, h, |x, y| (x, y.min(h - 1 - y))) }
        4 => { run(&mut im, &Mirror::new(MirrorMode::South))?; mapped(&px, w, n, w, h, |x, y| (x, y.max(h - 1 - y))) }
        5 => { run(&mut im, &Mirror::new(MirrorMode::West))?; mapped(&px, w, n, w, h, |x, y| (x.min(w - 1 - x), y)) }
        6 => { run(&mut im, &Mirror::new(MirrorMode::East))?; mapped(&px, w, n, w, h, |x, y| (x.max(w - 1 - x), y)) }
        7 => { run(&mut im, &Transpose::new())?; ow = h; oh = w; mapped(&px, w, n, h, w, |x, y| (y, x)) }
        8 => { let a = g.pick(&[90.0f32, -270.0, 450.0]); g.note(&format!("angle {a}")); run(&mut im, &Rotate::new(a))?; ow = h; oh = w; mapped(&px, w, n, h, w, |x, y| (y, h - 1 - x)) }
        9 => { let a = g.pick(&[180.0f32, -180.0, 540.0]); g.note(&format!("angle {a}")); run(&mut im, &Rotate::new(a))?; mapped(&px, w, n, w, h, |x, y| (w - 1 - x, h - 1 - y)) }
        10 => { let a = g.pick(&[270.0f32, -90.0, 630.0]); g.note(&format!("angle {a}")); run(&mut im, &Rotate::new(a))?; ow = h; oh = w; mapped(&px, w, n, h, w, |x, y| (w - 1 - y, x)) }
        11 => { let a = g.pick(&[0.0f32, 360.0, -360.0]); g.note(&format!("angle {a}")); run(&mut im, &Rotate::new(a))?; px.clone() }
        12 => { let (cx, cy) = (g.below(w), g.below(h)); ow = g.range(1, w - cx); oh = g.range(1, h - cy); g.note(&format!("crop {ow}x{oh}+{cx}+{cy}")); run(&mut im, &Crop::new(ow, oh, cx, cy))?; mapped(&px, w, n, ow, oh, |x, y| (x + cx, y + cy)) }
        _ => { // involutions and the group laws
            let k = g.below(6); g.note(&format!("law {k}"));
            match k {
                0 => { for _ in 0..2 { run(&mut im, &Flip::new(FlipDirection::Horizontal))?; } }
                1 => { for _ in 0..2 { run(&mut im, &Flip::new(FlipDirection::Vertical))?; } }
                2 => { for _ in 0..2 { run(&mut im, &Transpose::new())?; } }
                3 => { for _ in 0..2 { run(&mut im, &Rotate::new(180.0))?; } }
                4 => { for _ in 0..4 { run(&mut im, &Rotate::new(90.0))?; } }
                _ => { run(&mut im, &Rotate::new(90.0))?; run(&mut im, &Rotate::new(270.0))?; }
            } px.clone()
        }
    };
    if im.dimensions() != (ow, oh) { return Err(format!("dimensions {:?}, expected {:?}", im.dimensions(), (ow, oh))); }
    if im.colorspace() != c { return Err("colour space changed".into()); }
    diff("pixels", &im.flatten_frames::<T>()[0], &want)
}
/// every frame is treated alike
fn frames<T: S>(g: &mut G, a: &[T], b: &[T], w: usize, h: usize, c: ColorSpace) -> Result<(), String> {
    use zune_image::frame::Frame;
    let (ia, ib) = (T::image(a, w, h, c), T::image(b, w, h, c)); let n = c.num_components();
    let fr = vec![ia.frames_ref()[0].clone(), Frame::new(ib.frames_ref()[0].channels_ref(c, false).to_vec())];
    let mut im = Image::new_frames(fr, ia.depth(), w, h, c);
    g.note(&format!("two frames {} {w}x{h} {c:?}", std::any::type_name::<T>()));
    Flip::new(FlipDirection::Vertical).execute(&mut im).map_err(|e| format!("{e:?}"))?;
    Rotate::new(90.0).execute(&mut im).map_err(|e| format!("{e:?}"))?;
    let f = im.flatten_frames::<T>();
    let m = |px: &[T]| mapped(px, w, n, h, w, |x, y| (y, x));
    if f.len() != 2 || im.dimensions() != (h, w) { return Err("frames or dimensions".into()); }
    diff("frame 0", &f[0], &m(a))?; diff("frame 1", &f[1], &m(b))
}
fn tr(g: &mut G) -> Result<(), String> {
    let (w, h) = (wdim(g).min(90), wdim(g).min(90)); g.note(&format!("transpose slices {w}x{h}"));
    fn t<X: Copy>(v: &[X], w: usize, h: usize) -> Vec<X> { mapped(v, w, 1, h, w, |x, y| (y, x)) }
    let a: Vec<u8> = samples(g, w * h); let mut o = vec![7u8; w * h]; transpose_u8(&a, &mut o, w, h); diff("transpose_u8", &o, &t(&a, w, h))?;
    let mut o = vec![7u8; w * h]; transpose_generic(&a, &mut o, w, h); diff("transpose_generic", &o, &t(&a, w, h))?;
    let a: Vec<u16> = samples(g, w * h); let mut o = vec![7u16; w * h]; transpose_u16(&a, &mut o, w, h); diff("transpose_u16", &o, &t(&a, w, h))?;
    let a: Vec<f32> = samples(g, w * h); let mut o = vec![7f32; w * h]; transpose_float(&a, &mut o, w, h); diff("transpose_float", &o, &t(&a, w, h))?;
    let a: Vec<u32> = (0..w * h).map(|_| g.u32()).collect(); let mut o = vec![7u32; w * h]; transpose_u32(&a, &mut o, w, h); diff("transpose_u32", &o, &t(&a, w, h))
}
fn rnd(n: u64, d: u64) -> u64 { (2 * n + d) / (2 * d) }
fn unp(c: u64, a: u64, m: u64) -> u64 { if a == 0 { 0 } else { ((c * m + a / 2) / a).min(m) } }
fn pm(g: &mut G) -> Result<(), String> {
    g.note("all 8 bit pairs");
    let al: Vec<u8> = (0..65536).map(|i| (i >> 8) as u8).collect(); let mut c: Vec<u8> = (0..65536).map(|i| i as u8).collect();
    premultiply_u8(&mut c, &al);
    for i in 0..65536u64 { let w = rnd((i >> 8) * (i & 255), 255); if c[i as usize] as u64 != w { return Err(format!("premultiply_u8: colour {} alpha {} gives {}, expected {w}", i & 255, i >> 8, c[i as usize])); } }
    let n = 3000; let al: Vec<u16> = samples(g, n); let c0: Vec<u16> = samples(g, n); let mut c = c0.clone(); g.note(&format!("{:?}", &c0[..8]));
    premultiply_u16(&mut c, &al);
    for i in 0..n { let w = rnd(c0[i] as u64 * al[i] as u64, 65535); if c[i] as u64 != w { return Err(format!("premultiply_u16: colour {} alpha {} gives {}, expected {w}", c0[i], al[i], c[i])); } }
    let al: Vec<f32> = samples(g, 50); let c0: Vec<f32> = samples(g, 50); let mut c = c0.clone(); premultiply_f32(&mut c, &al);
    for i in 0..50 { if c[i] != c0[i] * al[i] { return Err("premultiply_f32".into()); } }
    Ok(())
}
fn un(g: &mut G) -> Result<(), String> {
    g.note("all 8 bit pairs");
    let al: Vec<u8> = (0..65536).map(|i| (i >> 8) as u8).collect(); let mut c: Vec<u8> = (0..65536).map(|i| i as u8).collect();
    unpremultiply_u8(&mut c, &al, &create_unpremul_table_u8());
    for i in 0..65536u64 { let w = unp(i & 255, i >> 8, 255); if c[i as usize] as u64 != w { return Err(format!("unpremultiply_u8: colour {} alpha {} gives {}, expected {w}", i & 255, i >> 8, c[i as usize])); } }
    let t = create_unpremul_table_u16();
    let n = 4000; let mut al: Vec<u16> = samples(g, n); let c0: Vec<u16> = samples(g, n); for a in al.iter_mut().take(n / 4) { *a = g.below(40) as u16 } let mut c = c0.clone(); g.note(&format!("{:?}", &c0[..8]));
    unpremultiply_u16(&mut c, &al, &t);
    for i in 0..n { let w = unp(c0[i] as u64, al[i] as u64, 65535); if c[i] as u64 != w { return Err(format!("unpremultiply_u16: colour {} alpha {} gives {}, expected {w}", c0[i], al[i], c[i])); } }
    let al: Vec<f32> = samples(g, 50); let c0: Vec<f32> = samples(g, 50); let mut c = c0.clone(); unpremultiply_f32(&mut c, &al);
    for i in 0..50 { let w = if al[i] == 0.0 { 0.0 } else { c0[i] / al[i] }; if c[i] != w { return Err("unpremultiply_f32".into()); } }
    for _ in 0..500 { let (a, d) = (g.u32(), g.u16().max(1)); let m = zune_imageprocs::mathops::compute_mod_u32(d as u64); let q = zune_imageprocs::mathops::fastdiv_u32(a, m); if q != a / d as u32 { return Err(format!("fastdiv {a} / {d} = {q}")); } }
    Ok(())
}
/// the operation on images: alpha untouched, every colour channel treated, state recorded
fn alpha(g: &mut G) -> Result<(), String> {
    let c = g.pick(&[ColorSpace::LumaA, ColorSpace::RGBA, ColorSpace::BGRA, ColorSpace::ARGB]); let n = c.num_components();
    let (w, h) = (g.dim(), g.dim()); let ai = if c == ColorSpace::ARGB { 0 } else { n - 1 };
    g.note(&format!("{w}x{h} {c:?}"));
    macro_rules! one { ($t:ty, $m:expr) => {{
        let px: Vec<$t> = samples(g, w * h * n); let mut im = <$t as S>::image(&px, w, h, c);
        let (to, f): (AlphaState, fn(u64, u64) -> u64) = if g.chance(1, 2) { (AlphaState::PreMultiplied, |c, a| rnd(c * a, $m)) } else { im.metadata_mut().set_alpha(AlphaState::PreMultiplied); (AlphaState::NonPreMultiplied, |c, a| unp(c, a, $m)) };
        PremultiplyAlpha::new(to).execute(&mut im).map_err(|e| format!("{e:?}"))?;
        let want: Vec<$t> = px.chunks(n).flat_map(|p| (0..n).map(|k| if k == ai { p[k] } else { f(p[k] as u64, p[ai] as u64) as $t }).collect::<Vec<_>>()).collect();
        diff("pixels", &im.flatten_frames::<$t>()[0], &want)?;
        if im.metadata().alpha() != to { return Err("alpha state not recorded".into()); }
    }} }
    if g.chance(1, 2) { one!(u8, 255) } else { one!(u16, 65535) }
    Ok(())
}
