use crate::g::*;
use crate::CaseFn;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_hdr::{HdrDecoder, HdrEncoder};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C25" { v.push(("hdr_decode", dec)); v.push(("hdr_malformed", bad)); v.push(("hdr_roundtrip", rt)); v.push(("hdr_mutated", mutated)); v.push(("hdr_flaky_sink", flaky)); }
    if p == "C22" { v.push(("hdr_limits", limits)); }
}
pub fn header(g: &mut G, w: usize, h: usize) -> Vec<u8> {
    let mut f = if g.chance(1, 2) { b"#?RADIANCE\n".to_vec() } else { b"#?RGBE\n".to_vec() };
    if g.chance(1, 3) { f.extend(b"# a comment\n"); }
    if g.chance(2, 3) { f.extend(b"FORMAT=32-bit_rle_rgbe\n"); }
    if g.chance(1, 4) { f.extend(b"EXPOSURE=1.0\n"); }
    f.extend(b"\n"); f.extend(format!("-Y {h} +X {w}\n").bytes()); f
}
fn value(m: u8, e: u8) -> f32 { if e == 0 { 0.0 } else { (m as f64 * 2f64.powi(e as i32 - 136)) as f32 } }
fn pixels(g: &mut G, n: usize) -> Vec<[u8; 4]> {
    let pal: Vec<[u8; 4]> = (0..3).map(|_| [g.b(), g.b(), g.b(), g.b()]).collect();
    let stay = g.range(0, 9);
    let mut cur = pal[0]; let mut v = vec![];
    for _ in 0..n { if g.below(10) >= stay { cur = if g.chance(1, 2) { g.pick(&pal) } else { [g.u8(), g.u8(), g.u8(), g.b()] }; } v.push(cur); }
    v
}
/// one row; `old` = flat pixels and old style runs, else the component-wise runs. Fixes up pixels the old style cannot hold.
fn row(g: &mut G, px: &mut [[u8; 4]], old: bool, out: &mut Vec<u8>) {
    let w = px.len();
    if old {
        for p in px.iter_mut() { if p[0] == 1 && p[1] == 1 && p[2] == 1 { p[2] = 0; } }
        if (8..=0x7fff).contains(&w) && px[0][0] == 2 && px[0][1] == 2 && px[0][2] < 128 { px[0][if g.chance(1, 2) { 1 } else { 0 }] = 3; }
        let runs = g.chance(2, 3); let mut i = 0; let mut last_run = false;
        while i < w {
            let mut n = 0; while i > 0 && i + n < w && px[i + n] == px[i - 1] { n += 1; }
            if runs && !last_run && n > 0 && g.chance(3, 4) {
                let n = if g.chance(1, 2) { n } else { g.range(1, n) };
                // little endian base 256 digits in successive markers
                let mut m = n; while m > 0 { out.extend([1, 1, 1, (m & 255) as u8]); m >>= 8; }
                i += n; last_run = true;
            } else { out.extend(px[i]); i += 1; last_run = false; }
        }
    } else {
        out.extend([2, 2, (w >> 8) as u8, w as u8]);
        for c in 0..4 {
            let mut i = 0;
            while i < w {
                let mut n = 1; while i + n < w && px[i + n][c] == px[i][c] && n < 127 { n += 1; }
                if g.chance(1, 20) { out.push(0); }
                if g.chance(2, 3) { let n = g.range(1, n); out.push(128 + n as u8); out.push(px[i][c]); i += n; }
                else { let n = g.range(1, (w - i).min(128)); out.push(n as u8); for k in 0..n { out.push(px[i + k][c]); } i += n; }
            }
        }
    }
}
fn dims(g: &mut G) -> (usize, usize) { if g.chance(1, 30) { (g.range(250, 800), g.range(1, 2)) } else { (g.dim(), g.range(1, 4)) } }
fn make(g: &mut G) -> (usize, usize, Vec<u8>, Vec<f32>, usize) {
    let (w, h) = dims(g); let mut f = header(g, w, h); let start = f.len(); let mut want = vec![];
    for _ in 0..h {
        let mut px = pixels(g, w);
        let old = !(8..=0x7fff).contains(&w) || g.chance(1, 2);
        if old && w >= 8 && g.chance(1, 3) { px[0] = [2, g.pick(&[0, 1, 3, 2]), g.pick(&[0, 128, 200]), g.u8()]; if g.chance(1, 2) { let n = g.range(1, w - 1); for i in 1..n { px[i] = px[0]; } } }
        row(g, &mut px, old, &mut f);
        for p in &px { for c in 0..3 { want.push(value(p[c], p[3])); } }
    }
    g.note(&format!("hdr {w}x{h}")); g.note_bytes("file", &f);
    (w, h, f, want, start)
}
fn bits(v: &[f32]) -> Vec<u32> { v.iter().map(|x| x.to_bits()).collect() }
fn dec(g: &mut G) -> Result<(), String> {
    let (w, h, f, want, _) = make(g);
    let mut d = HdrDecoder::new(ZCursor::new(&f));
    if g.chance(1, 2) { d.decode_headers().map_err(|e| format!("headers: {e:?}"))?; if d.dimensions() != Some((w, h)) { return Err(format!("dimensions {:?}", d.dimensions())); } }
    if g.chance(1, 2) { diff("decode", &d.decode().map_err(|e| format!("decode: {e:?}"))?.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), &bits(&want)) }
    else {
        let extra = g.below(7); let mut b = vec![-7.0f32; w * h * 3 + extra];
        d.decode_into(&mut b).map_err(|e| format!("decode_into: {e:?}"))?;
        if b[w * h * 3..].iter().any(|x| *x != -7.0) { return Err("wrote past the image".into()); }
        diff("decode_into", &bits(&b[..w * h * 3]), &bits(&want))
    }
}
fn bad(g: &mut G) -> Result<(), String> {
    if g.chance(1, 2) {
        let (_, _, f, _, start) = make(g); let n = g.range(start, f.len() - 1);
        g.note(&format!("cut at {n}"));
        return match HdrDecoder::new(ZCursor::new(&f[..n])).decode() { Ok(_) => Err("truncated file accepted".into()), Err(_) => Ok(()) };
    }
    let w = g.range(8, 300); let mut f = header(g, w, 1);
    match g.below(3) {
        0 => { f.extend([2, 2, (w >> 8) as u8, w as u8]); let left = g.range(1, 127.min(w)); let mut i = 0;
            while i < w - left { let n = g.range(1, (w - left - i).min(127)); f.push(128 + n as u8); f.push(g.u8()); i += n; }
            if g.chance(1, 2) { if left < 127 { let n = g.range(left + 1, 127); f.push(128 + n as u8); } else { f.push(255); f.push(1); f.push(131); } f.push(9); }
            else { let n = g.range(left + 1, 128); f.push(n as u8); f.extend(g.bytes(n)); }
            if left == 127 { g.trivial = true; return Ok(()); }
            f.extend(vec![129; 4096]); }
        1 => { let w2 = w ^ (1 << g.below(9)); f.extend([2, 2, (w2 >> 8) as u8, w2 as u8]); for _ in 0..4 { let mut i = 0; while i < w { let n = (w - i).min(127); f.push(128 + n as u8); f.push(3); i += n; } } }
        _ => { f.extend([1, 1, 1, g.u8().max(1)]); f.extend(vec![7; w * 4]); }
    }
    g.note(&format!("malformed scanline, width {w}")); g.note_bytes("file", &f);
    match HdrDecoder::new(ZCursor::new(&f)).decode() { Ok(_) => Err("malformed scanline accepted".into()), Err(_) => Ok(()) }
}
fn mutated(g: &mut G) -> Result<(), String> {
    let (_, _, mut f, _, start) = make(g);
    for _ in 0..g.range(1, 6) { let i = if g.chance(1, 3) { g.below(start) } else { g.below(f.len()) }; f[i] = g.b(); }
    g.note_bytes("mutated", &f);
    let o = DecoderOptions::default().set_max_width(1 << 12).set_max_height(1 << 12);
    let _ = HdrDecoder::new_with_options(ZCursor::new(&f), o).decode(); Ok(())
}
fn floats(g: &mut G, n: usize) -> Vec<f32> {
    let mode = g.below(4); let base = g.range(0, 220) as i32 - 100; let stay = g.below(10); let mut cur = 0.5f32;
    (0..n).map(|i| { if i % 3 != 0 || g.below(10) >= stay { cur = match mode {
        0 => (g.u16() as f32) / 65535.0, 1 => (g.u8() as f32) / 255.0,
        2 => { let e = (base + g.below(12) as i32 - 6).clamp(-105, 126); (g.u16() as f64 / 65536.0 * 2f64.powi(e)) as f32 }
        _ => { let e = g.range(0, 231) as i32 - 105; if g.chance(1, 6) { 0.0 } else { (2f64.powi(e) * (1.0 + g.u16() as f64 / 65536.0)) as f32 } } } } cur }).collect()
}
fn rt(g: &mut G) -> Result<(), String> {
    let (w, h) = dims(g); let px = floats(g, w * h * 3);
    let raw: Vec<u8> = px.iter().flat_map(|x| x.to_be_bytes()).collect();
    g.note(&format!("HdrEncoder {w}x{h}")); g.note_bytes("f32 big endian", &raw);
    let mut out = vec![];
    let n = HdrEncoder::new(&px, EncoderOptions::new(w, h, ColorSpace::RGB, BitDepth::Float32)).encode(&mut out).map_err(|e| format!("encode: {e:?}"))?;
    if n != out.len() { return Err(format!("encode returned {n} but wrote {}", out.len())); }
    let mut d = HdrDecoder::new(ZCursor::new(&out));
    let got = d.decode().map_err(|e| format!("decode of the encoded file: {e:?}"))?;
    if d.dimensions() != Some((w, h)) || got.len() != px.len() { return Err("dimensions".into()); }
    for i in 0..w * h {
        let p = &px[i * 3..i * 3 + 3]; let q = &got[i * 3..i * 3 + 3];
        let m = p.iter().cloned().fold(0f32, f32::max) as f64;
        let unit = if m > 1e-32 { 2f64.powi(m.log2().floor() as i32 + 1 - 8) } else { 1e-32 };
        for c in 0..3 { if (p[c] as f64 - q[c] as f64).abs() > unit * 1.02 { return Err(format!("pixel {i} component {c}: {} came back as {} (unit of the shared exponent {unit:e})", p[c], q[c])); } }
    }
    Ok(())
}
fn flaky(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.range(1, 12), g.range(1, 3)); let px = floats(g, w * h * 3);
    let mk = || HdrEncoder::new(&px, EncoderOptions::new(w, h, ColorSpace::RGB, BitDepth::Float32));
    let mut good = vec![]; mk().encode(&mut good).map_err(|e| format!("{e:?}"))?;
    let k = g.below(w * h * 4 + 8); g.note(&format!("HdrEncoder {w}x{h}, sink refuses write {k}")); g.note_bytes("file", &good);
    flaky_check(k, &good, |f| mk().encode(f).map(|_| ()).map_err(|e| format!("{e:?}")))
}
fn limits(g: &mut G) -> Result<(), String> {
    let (w, h, f, _, _) = make(g);
    let (mw, mh) = (near(g, w), near(g, h)); g.note(&format!("max_width={mw} max_height={mh}"));
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let a = HdrDecoder::new_with_options(ZCursor::new(&f), o).decode_headers().map_err(|e| format!("{e:?}"));
    let b = HdrDecoder::new_with_options(ZCursor::new(&f), o).decode().map(|_| ()).map_err(|e| format!("{e:?}"));
    limit_check(w, h, mw, mh, a, b)
}
