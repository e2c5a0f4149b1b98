use crate::g::*;
use crate::CaseFn;
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_png::{PngDecoder, PngEncoder};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    match p {
        "C05" => { v.push(("png_filters_decode", filters)); v.push(("png_filters_wide", filters_wide)); v.push(("png_filters_simd_widths", filters_simd)); }
        "C06" => { v.push(("png_expand", expand)); v.push(("png_expand_wide", expand_wide)); }
        "C09" => { v.push(("png_corrupt_chunk", corrupt)); v.push(("png_crc_written", crc_written)); }
        "C20" => { v.push(("png_encode_roundtrip", encrt)); }
        "C22" => { v.push(("png_limits", limits)); }
        _ => {}
    }
}
pub fn crc32(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 } } } !c }
pub fn chunk(out: &mut Vec<u8>, ty: &[u8; 4], d: &[u8]) { out.extend((d.len() as u32).to_be_bytes()); let mut x = ty.to_vec(); x.extend(d); out.extend(&x); out.extend(crc32(&x).to_be_bytes()); }
fn paeth(a: i32, b: i32, c: i32) -> i32 { let p = a + b - c; let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs()); if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c } }
fn filter_row(ft: u8, row: &[u8], prev: &[u8], bpp: usize) -> Vec<u8> {
    (0..row.len()).map(|i| { let a = if i >= bpp { row[i - bpp] as i32 } else { 0 }; let b = prev[i] as i32; let c = if i >= bpp { prev[i - bpp] as i32 } else { 0 };
        let p = match ft { 0 => 0, 1 => a, 2 => b, 3 => (a + b) / 2, _ => paeth(a, b, c) }; (row[i] as i32 - p) as u8 }).collect()
}
pub struct Img { pub w: usize, pub h: usize, pub ct: u8, pub depth: usize, pub interlace: bool, pub samples: Vec<u16>, pub plte: Vec<[u8; 3]>, pub trns: Option<Vec<u16>>, pub file: Vec<u8> }
fn comps(ct: u8) -> usize { match ct { 0 | 3 => 1, 2 => 3, 4 => 2, _ => 4 } }
#[derive(Default, Clone, Copy)]
pub struct Opt { ct: Option<u8>, depth: Option<usize>, interlace: Option<bool>, maxw: usize, filt: Option<u8>, no_trns: bool, minw: usize }
pub fn gen(g: &mut G, o: Opt) -> Img {
    let ct = o.ct.unwrap_or_else(|| g.pick(&[0u8, 2, 3, 4, 6]));
    let depth = o.depth.unwrap_or_else(|| match ct { 0 => g.pick(&[1, 2, 4, 8, 16]), 3 => g.pick(&[1, 2, 4, 8]), _ => g.pick(&[8, 16]) });
    let interlace = o.interlace.unwrap_or_else(|| g.chance(1, 4));
    let (mut w, h) = (g.dim(), g.dim());
    if o.maxw > 0 { w = g.range(o.minw.max(1), o.maxw); }
    let c = comps(ct);
    let max: u32 = (1u32 << depth) - 1;
    let npal = if ct == 3 { g.range(1, 1 << depth) } else { 0 };
    let plte: Vec<[u8; 3]> = (0..npal).map(|_| [g.b(), g.b(), g.b()]).collect();
    let raw = g.bytes(w * h * c * 2);
    let pal: Vec<u16> = (0..3).map(|_| (g.u16() as u32 & max) as u16).collect();
    let mode = g.below(3);
    let samples: Vec<u16> = (0..w * h * c).map(|i| { let v = u16::from_be_bytes([raw[2 * i], raw[2 * i + 1]]);
        if ct == 3 { (v as usize % npal) as u16 } else { match mode { 0 => pal[v as usize % 3], _ => (if depth == 8 { (v >> 8) as u32 } else { v as u32 } & max) as u16 } } }).collect();
    let trns = if o.no_trns { None } else { match ct {
        3 if g.chance(1, 2) => Some((0..g.range(1, npal)).map(|_| g.b() as u16).collect()),
        0 if g.chance(1, 2) => Some(if g.chance(3, 4) { vec![samples[g.below(samples.len())]] } else { vec![(g.u32() & max) as u16] }),
        2 if g.chance(1, 2) => { let k = g.below(w * h); let mut t = samples[k * 3..k * 3 + 3].to_vec(); if g.chance(1, 3) { let j = g.below(3); t[j] ^= 1 << g.below(depth); } Some(t) }
        _ => None } };
    let fmode = g.below(7) as u8; let mut stream = vec![]; let bpp = (c * depth).div_ceil(8);
    let passes: Vec<(usize, usize, usize, usize)> = if interlace { vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] } else { vec![(0, 0, 1, 1)] };
    for (x0, y0, dx, dy) in passes {
        let pw = if w > x0 { (w - x0).div_ceil(dx) } else { 0 }; let ph = if h > y0 { (h - y0).div_ceil(dy) } else { 0 };
        if pw == 0 || ph == 0 { continue; }
        let rb = (pw * c * depth).div_ceil(8); let mut prev = vec![0u8; rb];
        for y in 0..ph { let mut row = vec![0u8; rb]; let mut bit = 0;
            for x in 0..pw { for k in 0..c { let s = samples[((y0 + y * dy) * w + x0 + x * dx) * c + k];
                if depth == 16 { row[bit / 8..bit / 8 + 2].copy_from_slice(&s.to_be_bytes()); } else { row[bit / 8] |= (s as u8) << (8 - depth - bit % 8); } bit += depth; } }
            let ft = o.filt.unwrap_or(if fmode < 5 { fmode } else { g.below(5) as u8 });
            stream.push(ft); stream.extend(filter_row(ft, &row, &prev, bpp)); prev = row; }
    }
    let z = miniz_oxide::deflate::compress_to_vec_zlib(&stream, g.pick(&[0u8, 1, 6]));
    let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut ih = vec![]; ih.extend((w as u32).to_be_bytes()); ih.extend((h as u32).to_be_bytes()); ih.extend([depth as u8, ct, 0, 0, interlace as u8]);
    chunk(&mut f, b"IHDR", &ih);
    if g.chance(1, 4) { let t = g.bytes(5); chunk(&mut f, b"abCd", &t); }
    if ct == 3 { chunk(&mut f, b"PLTE", &plte.concat()); }
    if let Some(t) = &trns { let d: Vec<u8> = if ct == 3 { t.iter().map(|x| *x as u8).collect() } else { t.iter().flat_map(|x| x.to_be_bytes()).collect() }; chunk(&mut f, b"tRNS", &d); }
    let mut p = 0; let split = g.chance(1, 3);
    while p < z.len() || p == 0 { let n = if split { g.range(0, z.len() - p) } else { z.len() - p }; chunk(&mut f, b"IDAT", &z[p..p + n]); p += n; if z.is_empty() { break; } }
    chunk(&mut f, b"IEND", b"");
    g.note(&format!("png w={w} h={h} colortype={ct} depth={depth} interlace={interlace} trns={trns:?} plte={}", plte.len())); g.note_bytes("file", &f);
    Img { w, h, ct, depth, interlace, samples, plte, trns, file: f }
}
/// expected samples as u16 (in 8 or 16 bit range), components, and sample width
pub fn expected(i: &Img, add_alpha: bool, strip: bool) -> (Vec<u16>, usize, usize) {
    let c = comps(i.ct); let mut out = vec![]; let sixteen = i.depth == 16; let full = if sixteen { 65535 } else { 255 };
    let has_alpha = i.ct & 4 != 0; let alpha = has_alpha || i.trns.is_some() || add_alpha;
    let colors = match i.ct { 0 | 4 => 1, _ => 3 };
    for p in 0..i.w * i.h { let s = &i.samples[p * c..p * c + c];
        if i.ct == 3 { let e = i.plte[s[0] as usize]; out.extend(e.iter().map(|x| *x as u16)); if alpha { out.push(i.trns.as_ref().and_then(|t| t.get(s[0] as usize).copied()).unwrap_or(255)); } continue; }
        let scale = match i.depth { 1 => 255, 2 => 85, 4 => 17, _ => 1 };
        out.extend(s[..colors].iter().map(|x| x * scale));
        if has_alpha { out.push(s[colors]); } else if alpha { out.push(match &i.trns { Some(t) if s == &t[..] => 0, _ => full }); }
    }
    if strip && sixteen { for x in out.iter_mut() { *x >>= 8; } }
    (out, colors + alpha as usize, if sixteen && !strip { 2 } else { 1 })
}
fn check(g: &mut G, i: &Img) -> Result<(), String> {
    let (aa, st, simd, le) = (g.chance(1, 3), g.chance(1, 4), g.chance(1, 2), g.chance(1, 2));
    let o = DecoderOptions::default().png_set_add_alpha_channel(aa).png_set_strip_to_8bit(st).set_use_unsafe(simd).png_set_confirm_crc(g.chance(1, 2)).set_byte_endian(if le { ByteEndian::LE } else { ByteEndian::BE });
    let api = g.below(3); g.note(&format!("add_alpha={aa} strip={st} simd={simd} le={le} api={api}"));
    let (want, n, bytes) = expected(i, aa, st);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&i.file), o);
    let got: Vec<u16> = if api == 0 {
        match d.decode().map_err(|e| format!("decode: valid PNG rejected: {e:?}"))? { DecodingResult::U8(v) if bytes == 1 => v.iter().map(|x| *x as u16).collect(), DecodingResult::U16(v) if bytes == 2 => v, _ => return Err("wrong sample type".into()) }
    } else {
        let raw = if api == 1 { d.decode_raw().map_err(|e| format!("decode_raw: valid PNG rejected: {e:?}"))? } else {
            d.decode_headers().map_err(|e| format!("headers: {e:?}"))?; let n = d.output_buffer_size().ok_or("no size")?; let extra = g.below(9); let mut v = vec![0xA5u8; n + extra];
            d.decode_into(&mut v).map_err(|e| format!("decode_into: valid PNG rejected: {e:?}"))?; if v[n..].iter().any(|x| *x != 0xA5) { return Err("decode_into wrote past output_buffer_size()".into()); } v.truncate(n); v };
        if bytes == 1 { raw.iter().map(|x| *x as u16).collect() } else { raw.chunks(2).map(|c| if le { u16::from_le_bytes([c[0], c[1]]) } else { u16::from_be_bytes([c[0], c[1]]) }).collect() }
    };
    if d.dimensions() != Some((i.w, i.h)) { return Err("dimensions".into()); }
    if d.colorspace().map(|c| c.num_components()) != Some(n) { return Err(format!("colorspace {:?} for {n} components", d.colorspace())); }
    diff("samples", &got, &want)
}
fn filters(g: &mut G) -> Result<(), String> { let c = g.pick(&[0u8, 2, 4, 6]); let dp = if c == 0 && g.chance(1, 3) { g.pick(&[1usize, 2, 4]) } else { g.pick(&[8usize, 16]) }; let i = gen(g, Opt { ct: Some(c), depth: Some(dp), no_trns: true, ..Default::default() }); check(g, &i) }
fn filters_wide(g: &mut G) -> Result<(), String> { let i = gen(g, Opt { maxw: 300, no_trns: true, ..Default::default() }); check(g, &i) }
fn filters_simd(g: &mut G) -> Result<(), String> { let c = g.pick(&[2u8, 6]); let d = g.pick(&[8usize, 16]); let f = g.below(5) as u8; let i = gen(g, Opt { ct: Some(c), depth: Some(d), filt: Some(f), maxw: 60, no_trns: true, ..Default::default() }); check(g, &i) }
fn expand(g: &mut G) -> Result<(), String> { let i = gen(g, Opt::default()); check(g, &i) }
fn expand_wide(g: &mut G) -> Result<(), String> { let i = gen(g, Opt { maxw: 80, ..Default::default() }); check(g, &i) }
fn corrupt(g: &mut G) -> Result<(), String> {
    let i = gen(g, Opt { maxw: 16, ..Default::default() });
    // burst of at most 32 bits anywhere inside type+data+crc of one chunk (lengths stay intact)
    let mut spans = vec![]; let mut p = 8; while p < i.file.len() { let n = u32::from_be_bytes(i.file[p..p + 4].try_into().unwrap()) as usize; spans.push((p + 4, p + 12 + n)); p += 12 + n; }
    let (a, b) = spans[g.below(spans.len())];
    let mut f = i.file.clone();
    match g.below(3) { 0 => { let k = g.range(a, b - 1); f[k] ^= 1 << g.below(8); } 1 => { let k = g.range(a, b - 4); for j in 0..4 { f[k + j] ^= g.u8(); } } _ => { let k = g.range(a, b - 1); f[k] = g.b(); } }
    if f == i.file { g.trivial = true; return Ok(()); }
    g.note_bytes("corrupted", &f);
    let r = PngDecoder::new_with_options(ZCursor::new(&f), DecoderOptions::default().png_set_confirm_crc(true)).decode_raw();
    if r.is_ok() { return Err("a chunk with a bad CRC was accepted although CRC confirmation is on".into()); }
    // and the intact file is accepted with it on
    PngDecoder::new_with_options(ZCursor::new(&i.file), DecoderOptions::default().png_set_confirm_crc(true)).decode_raw().map_err(|e| format!("valid file rejected: {e:?}"))?;
    Ok(())
}
fn encode(g: &mut G) -> Result<(Vec<u8>, Vec<u8>, usize, usize, ColorSpace, bool), String> {
    let (w, h) = (g.dim(), g.dim()); let cs = g.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]); let d16 = g.chance(1, 2);
    let raw = g.bytes(w * h * cs.num_components() * (1 + d16 as usize));
    g.note(&format!("PngEncoder w={w} h={h} {cs:?} sixteen={d16}")); g.note_bytes("data", &raw);
    let o = EncoderOptions::new(w, h, cs, if d16 { BitDepth::Sixteen } else { BitDepth::Eight });
    let mut out = vec![]; let n = PngEncoder::new(&raw, o).encode(&mut out).map_err(|e| format!("encode {e:?}"))?;
    if n != out.len() { return Err(format!("encode returned {n} but wrote {}", out.len())); }
    Ok((out, raw, w, h, cs, d16))
}
fn encrt(g: &mut G) -> Result<(), String> {
    let (out, raw, w, h, cs, d16) = encode(g)?;
    let simd = g.chance(1, 2);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&out), DecoderOptions::default().png_set_confirm_crc(true).set_use_unsafe(simd));
    let got: Vec<u8> = match d.decode().map_err(|e| format!("decode: {e:?}"))? { DecodingResult::U8(v) if !d16 => v, DecodingResult::U16(v) if d16 => v.iter().flat_map(|x| x.to_be_bytes()).collect(), _ => return Err("type".into()) };
    if d.dimensions() != Some((w, h)) || d.colorspace() != Some(cs) { return Err(format!("metadata {:?} {:?}", d.dimensions(), d.colorspace())); }
    diff("decode(encode(px))", &got, &raw)
}
fn crc_written(g: &mut G) -> Result<(), String> {
    let (out, raw, w, h, cs, d16) = encode(g)?;
    if out[..8] != b"\x89PNG\r\n\x1a\n"[..] { return Err("signature".into()); }
    let mut p = 8; let mut idat = vec![]; let mut last = [0u8; 4];
    while p < out.len() { let n = u32::from_be_bytes(out[p..p + 4].try_into().unwrap()) as usize; if p + 12 + n > out.len() { return Err("chunk overruns".into()); }
        let c = u32::from_be_bytes(out[p + 8 + n..p + 12 + n].try_into().unwrap()); if c != crc32(&out[p + 4..p + 8 + n]) { return Err(format!("wrong CRC on chunk at {p}")); }
        last.copy_from_slice(&out[p + 4..p + 8]); if &last == b"IDAT" { idat.extend(&out[p + 8..p + 8 + n]); } p += 12 + n; }
    if &last != b"IEND" { return Err("no IEND".into()); }
    let z = miniz_oxide::inflate::decompress_to_vec_zlib(&idat).map_err(|e| format!("IDAT stream is not valid zlib: {e:?}"))?;
    let rb = w * cs.num_components() * (1 + d16 as usize); if z.len() != h * (rb + 1) { return Err("IDAT length".into()); }
    let bpp = cs.num_components() * (1 + d16 as usize); let mut prev = vec![0u8; rb];
    for y in 0..h { let ft = z[y * (rb + 1)]; let f = &z[y * (rb + 1) + 1..(y + 1) * (rb + 1)];
        let want: Vec<u8> = raw[y * rb..(y + 1) * rb].to_vec();
        diff("filtered row", f, &filter_row(ft, &want, &prev, bpp))?; prev = want; }
    Ok(())
}
fn limits(g: &mut G) -> Result<(), String> {
    let i = gen(g, Opt { maxw: 40, ..Default::default() }); let (mw, mh) = (g.below(45), g.below(45)); g.note(&format!("limits {mw}x{mh}"));
    let r = PngDecoder::new_with_options(ZCursor::new(&i.file), DecoderOptions::default().set_max_width(mw).set_max_height(mh)).decode_headers();
    if r.is_ok() != (i.w <= mw && i.h <= mh) { return Err(format!("limit not applied ok={}", r.is_ok())); } Ok(())
}
