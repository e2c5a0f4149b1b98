//! PSD files written from the format description, with the composite image in every supported storage.
use crate::g::*;
use crate::CaseFn;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_psd::PSDDecoder;

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C26" { v.push(("psd_decode", dec)); v.push(("psd_malformed", bad)); v.push(("psd_mutated", mutated)); }
    if p == "C22" { v.push(("psd_limits", limits)); }
}
struct Img { w: usize, h: usize, mode: u16, fch: usize, depth: u16, rle: bool, planes: Vec<Vec<u16>>, file: Vec<u8>, body: usize }
fn header(g: &mut G, w: usize, h: usize, ch: usize, depth: u16, mode: u16, comp: u16) -> Vec<u8> {
    let mut f = b"8BPS\x00\x01".to_vec(); f.extend([0u8; 6]);
    f.extend((ch as u16).to_be_bytes()); f.extend((h as u32).to_be_bytes()); f.extend((w as u32).to_be_bytes());
    f.extend(depth.to_be_bytes()); f.extend(mode.to_be_bytes());
    for _ in 0..3 { let n = if g.chance(1, 2) { 0 } else { g.below(40) }; f.extend((n as u32).to_be_bytes()); f.extend(g.bytes(n)); }
    f.extend(comp.to_be_bytes()); f
}
fn packbits(g: &mut G, row: &[u8], out: &mut Vec<u8>) {
    let mut i = 0;
    while i < row.len() {
        if g.chance(1, 25) { out.push(128); }
        let mut n = 1; while i + n < row.len() && row[i + n] == row[i] && n < 128 { n += 1; }
        if n >= 2 && g.chance(3, 4) { let n = g.range(2, n); out.push((257 - n) as u8); out.push(row[i]); i += n; }
        else { let n = g.range(1, (row.len() - i).min(128)); out.push(n as u8 - 1); out.extend(&row[i..i + n]); i += n; }
    }
    if g.chance(1, 25) { out.push(128); }
}
fn make(g: &mut G, big: bool) -> Img {
    let (w, h) = if big && g.chance(1, 25) { (g.range(130, 500), g.range(1, 3)) } else { (g.dim(), g.range(1, 9)) };
    let (mode, fch) = match g.below(6) { 0 => (1u16, 1), 1 => (1, g.range(1, 4)), 2 | 3 => (3, 3), 4 => (3, 4), _ => (4, 4) };
    let rle = g.chance(1, 2); let depth = if rle || g.chance(1, 2) { 8 } else { 16u16 };
    let planes: Vec<Vec<u16>> = (0..fch).map(|c| if depth == 8 { g.bytes(w * h).iter().map(|x| *x as u16).collect() } else {
        let v = g.bytes(2 * w * h); let edge = c == 3 && g.chance(1, 2);
        v.chunks(2).map(|x| if edge { [0, 65535, 1, 65534, 32768, 257][x[0] as usize % 6] } else { u16::from_be_bytes([x[0], x[1]]) }).collect() }).collect();
    let mut f = header(g, w, h, fch, depth, mode, rle as u16);
    let body = f.len();
    if rle {
        let mut counts = vec![]; let mut data = vec![];
        for p in &planes { for r in p.chunks(w) { let n = data.len(); let r: Vec<u8> = r.iter().map(|x| *x as u8).collect(); packbits(g, &r, &mut data); counts.extend(((data.len() - n) as u16).to_be_bytes()); } }
        f.extend(counts); f.extend(data);
    } else { for p in &planes { for x in p { if depth == 8 { f.push(*x as u8) } else { f.extend(x.to_be_bytes()) } } } }
    g.note(&format!("psd {w}x{h} mode={mode} channels={fch} depth={depth} rle={rle}")); g.note_bytes("file", &f);
    Img { w, h, mode, fch, depth, rle, planes, file: f, body }
}
impl Img {
    fn ch(&self) -> usize { if self.mode == 1 { 1 } else { self.fch } }
    fn want(&self) -> Vec<u16> { let c = self.ch(); (0..self.w * self.h * c).map(|i| self.planes[i % c][i / c]).collect() }
    /// the white background Photoshop blends transparent pixels with is taken out again: c = (p - (1 - a) * max) / a
    fn unmatte(&self, v: &[u16]) -> Vec<(f64, f64)> {
        let m = if self.depth == 8 { 255.0 } else { 65535.0f64 };
        v.chunks(4).flat_map(|p| { let a = p[3] as f64;
            (0..4).map(|i| if i == 3 || a == 0.0 || a == m { (p[i] as f64, 0.0) } else { ((m * (p[i] as f64 + a - m) / a).clamp(0.0, m), if m < 256.0 { 1.0 + 1e-9 } else { 2.0 + (m * m / a) / 2097152.0 }) }).collect::<Vec<_>>() }).collect()
    }
    fn cmp(&self, got: &[u16], v: &[u16], matte: bool) -> Result<(), String> {
        if !matte { return diff("samples", got, v); }
        let u = self.unmatte(v); if got.len() != u.len() { return Err(format!("length {} but expected {}", got.len(), u.len())); }
        for (i, (x, t)) in u.iter().enumerate() { if (got[i] as f64 - x).abs() > *t { return Err(format!("sample {i} (white removed) is {} but expected {x:.2} +- {t:.2}", got[i])); } }
        Ok(())
    }
    /// what the 8 bit uncompressed path reads: it stops every channel at position pixel_count of the interleaved output
    fn raw8(&self) -> Vec<u16> {
        let (c, n) = (self.ch(), self.w * self.h); let mut o = vec![0u16; n * c]; let mut p = self.body;
        for k in 0..c { let mut i = k; while i < n { o[i] = *self.file.get(p).unwrap_or(&0) as u16; p += 1; i += c; } } o
    }
}
fn dec(g: &mut G) -> Result<(), String> {
    let im = make(g, true); let (w, h, c) = (im.w, im.h, im.ch());
    let mut d = PSDDecoder::new(ZCursor::new(&im.file));
    if g.chance(1, 2) { d.decode_headers().map_err(|e| format!("headers: {e:?}"))?;
        if d.dimensions() != Some((w, h)) { return Err(format!("dimensions {:?} but the image is {w}x{h}", d.dimensions())); } }
    let got: Vec<u16> = if g.chance(1, 2) {
        match d.decode().map_err(|e| format!("decode: {e:?}"))? { DecodingResult::U8(v) if im.depth == 8 => v.iter().map(|x| *x as u16).collect(), DecodingResult::U16(v) if im.depth == 16 => v, _ => return Err("wrong sample type".into()) }
    } else { let v = d.decode_raw().map_err(|e| format!("decode_raw: {e:?}"))?; if im.depth == 8 { v.iter().map(|x| *x as u16).collect() } else { if v.len() % 2 != 0 { return Err("odd length".into()); } v.chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]])).collect() } };
    let cs = match im.mode { 1 => ColorSpace::Luma, 3 if c == 4 => ColorSpace::RGBA, 3 => ColorSpace::RGB, _ => ColorSpace::CMYK };
    if d.colorspace() != Some(cs) { return Err(format!("colorspace {:?} but expected {cs:?}", d.colorspace())); }
    if d.dimensions() != Some((w, h)) { return Err("dimensions".into()); }
    if d.bit_depth() != Some(if im.depth == 8 { BitDepth::Eight } else { BitDepth::Sixteen }) { return Err(format!("depth {:?}", d.bit_depth())); }
    let rgba = im.mode == 3 && c == 4;
    let r = im.cmp(&got, &im.want(), rgba);
    if let Err(e) = r {
        if im.depth == 8 && !im.rle && c > 1 && im.cmp(&got, &im.raw8(), c == 4).is_ok() { return known("psd-raw8", &e); }
        if im.mode == 4 && !(im.depth == 8 && !im.rle) && im.cmp(&got, &im.want(), true).is_ok() { return known("psd-cmyk-matte", &e); }
        return Err(e);
    }
    Ok(())
}
fn bad(g: &mut G) -> Result<(), String> {
    let mut im = make(g, false); let k = g.below(8); g.note(&format!("defect {k}"));
    let dec = |f: &[u8]| { let mut d = PSDDecoder::new(ZCursor::new(f)); d.decode_raw().map(|v| v.len()) };
    match k {
        0 => im.file[g.below(4)] ^= 1 << g.below(8),
        1 => im.file[5] = g.pick(&[0, 2, 3, 255]),
        2 => im.file[13] = g.pick(&[5, 0, 17, 56]),
        3 => { let o = g.pick(&[14usize, 18]); for i in 0..4 { im.file[o + i] = 0; } }
        4 => im.file[23] = g.pick(&[1, 32, 7, 0]),
        5 => im.file[25] = g.pick(&[0, 2, 7, 9, 5]),
        6 => { let o = im.body - 1; im.file[o] = g.pick(&[2, 3, 255]); }
        _ => {
            // a run that goes past the end of the channel
            if !im.rle { let n = im.file.len(); if im.depth == 8 { g.trivial = true; return Ok(()); } im.file.truncate(g.range(im.body, n - 1).max(im.body)); if im.mode == 1 && im.fch > 1 && im.file.len() >= im.body + 2 * im.w * im.h { g.trivial = true; return Ok(()); } }
            else { im.file.truncate(im.body + im.h * im.fch * 2); let n = im.w * im.h; let mut left = n; while left > 100 { im.file.push(127 - 28); im.file.extend(vec![7u8; 100]); left -= 100; }
                if g.chance(1, 2) { im.file.push((256 - left) as u8); im.file.push(9); } else { im.file.push(left as u8); im.file.extend(vec![9u8; left + 1]); }
                im.file.extend(vec![0u8; 2 * n * im.fch]); }
        }
    }
    match dec(&im.file) { Err(_) => Ok(()), Ok(n) => Err(format!("accepted ({n} bytes)")) }
}
fn mutated(g: &mut G) -> Result<(), String> {
    let mut im = make(g, false);
    for _ in 0..g.range(0, 4) { let n = im.file.len(); let i = if g.chance(1, 3) { g.below(26.min(n)) } else { g.below(n) }; im.file[i] = g.b(); }
    if g.chance(1, 2) { let n = im.file.len(); im.file.truncate(g.below(n + 1)); }
    g.note_bytes("mutated", &im.file);
    let o = DecoderOptions::default().set_max_width(3000).set_max_height(3000);
    let mut d = PSDDecoder::new_with_options(ZCursor::new(&im.file), o);
    match d.decode_raw() { Err(_) => Ok(()), Ok(v) => {
        let (w, h) = d.dimensions().ok_or("no dimensions")?; let b = if d.bit_depth() == Some(BitDepth::Sixteen) { 2 } else { 1 };
        let c = if im.file[25] == 1 { 1 } else { im.file[13] as usize };
        if v.len() != w * h * b * c { return Err(format!("{} bytes for {w}x{h}x{c}x{b}", v.len())); } Ok(()) } }
}
fn limits(g: &mut G) -> Result<(), String> {
    let im = make(g, false); let (mw, mh) = (near(g, im.w), near(g, im.h)); g.note(&format!("limits {mw}x{mh}"));
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let a = PSDDecoder::new_with_options(ZCursor::new(&im.file), o).decode_headers().map_err(|e| format!("{e:?}"));
    let b = PSDDecoder::new_with_options(ZCursor::new(&im.file), o).decode().map(|_| ()).map_err(|e| format!("{e:?}"));
    limit_check(im.w, im.h, mw, mh, a, b)
}
