use crate::g::*;
use crate::CaseFn;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_ppm::{PPMDecoder, PPMEncoder};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C04" { v.push(("ppm_roundtrip", rt)); v.push(("ppm_decode_header_forms", forms)); v.push(("pfm_decode", pfm)); v.push(("ppm_limits", limits)); v.push(("ppm_sinks", sinks)); }
    if p == "C22" { v.push(("ppm_limits", limits)); }
}
fn rt(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let cs = g.pick(&[ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::LumaA]);
    let d16 = g.chance(1, 2);
    let n = w * h * cs.num_components();
    let raw = g.bytes(n * if d16 { 2 } else { 1 });
    g.note(&format!("PPMEncoder w={w} h={h} cs={cs:?} sixteen={d16}")); g.note_bytes("data(native endian)", &raw);
    let dep = if d16 { BitDepth::Sixteen } else { BitDepth::Eight };
    let mut out: Vec<u8> = vec![];
    let len = PPMEncoder::new(&raw, EncoderOptions::new(w, h, cs, dep)).encode(&mut out).map_err(|e| format!("encode: {e:?}"))?;
    if len != out.len() { return Err(format!("encode returned {len}, wrote {}", out.len())); }
    // the raster is the last n samples, big endian
    let want: Vec<u8> = if d16 { raw.chunks(2).flat_map(|c| u16::from_ne_bytes([c[0], c[1]]).to_be_bytes()).collect() } else { raw.clone() };
    diff("raster bytes", &out[out.len() - want.len()..], &want)?;
    let mut dcd = PPMDecoder::new(ZCursor::new(&out));
    if g.chance(1, 2) { dcd.decode_headers().map_err(|e| format!("{e:?}"))?; }
    match dcd.decode().map_err(|e| format!("decode: {e:?}"))? {
        DecodingResult::U8(v) if !d16 => diff("decode(encode(px))", &v, &raw)?,
        DecodingResult::U16(v) if d16 => { let r: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes()).collect(); diff("decode(encode(px))", &r, &raw)? }
        _ => return Err("wrong sample type".into()),
    }
    if dcd.dimensions() != Some((w, h)) || dcd.colorspace() != Some(cs) || dcd.bit_depth() != Some(dep) { return Err("metadata differs".into()); }
    let k = g.range(1, raw.len());
    if PPMEncoder::new(&raw[..raw.len() - k], EncoderOptions::new(w, h, cs, dep)).encode(&mut vec![]).is_ok() { return Err("short input accepted".into()); }
    Ok(())
}
fn ws(g: &mut G, out: &mut Vec<u8>) {
    let n = g.range(1, 3);
    for _ in 0..n { out.push(g.pick(b" \n\t\r")); if g.chance(1, 6) { out.extend(b"#c o 12\n"); } }
}
fn forms(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let maxval = g.pick(&[1usize, 15, 255, 256, 1023, 65535]);
    let bps = if maxval > 255 { 2 } else { 1 };
    let kind = g.below(3);
    let mut f = vec![]; let cs;
    match kind {
        0 | 1 => { cs = if kind == 0 { ColorSpace::Luma } else { ColorSpace::RGB }; f.extend(if kind == 0 { b"P5" } else { b"P6" });
            ws(g, &mut f); f.extend(w.to_string().bytes()); ws(g, &mut f); f.extend(h.to_string().bytes()); ws(g, &mut f); f.extend(maxval.to_string().bytes()); f.push(g.pick(b"\n \t")); }
        _ => { cs = g.pick(&[ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::LumaA]);
            f.extend(b"P7\n");
            let mut l = vec![format!("WIDTH {w}\n"), format!("HEIGHT {h}\n"), format!("DEPTH {}\n", cs.num_components()), format!("MAXVAL {maxval}\n"),
                format!("TUPLTYPE {}\n", match cs { ColorSpace::Luma => "GRAYSCALE", ColorSpace::RGB => "RGB", ColorSpace::RGBA => "RGB_ALPHA", _ => "GRAYSCALE_ALPHA" })];
            if g.chance(1, 3) { l.push("# comment\n".into()); }
            for i in (1..l.len()).rev() { let j = g.below(i + 1); l.swap(i, j); }
            for x in l { f.extend(x.bytes()); }
            f.extend(b"ENDHDR\n"); }
    }
    let n = w * h * cs.num_components();
    let px = g.bytes(n * bps);
    let cut = if g.chance(1, 5) { g.below(px.len()) } else { px.len() };
    f.extend(&px[..cut]);
    if cut == px.len() && g.chance(1, 3) { f.extend(b"trailing"); }
    let o = DecoderOptions::default();
    g.note(&format!("w={w} h={h} {cs:?} maxval={maxval}")); g.note_bytes("file", &f);
    let mut d = PPMDecoder::new_with_options(ZCursor::new(&f), o);
    let r = d.decode();
    if d.dimensions() != Some((w, h)) || d.colorspace() != Some(cs) { return Err(format!("header misparsed {:?} {:?}", d.dimensions(), d.colorspace())); }
    match r {
        Err(e) => if cut == px.len() { return Err(format!("valid file rejected: {e:?}")); } else { return Ok(()); },
        Ok(_) if cut < px.len() => return Err("truncated raster accepted".into()),
        Ok(DecodingResult::U8(v)) if bps == 1 => diff("pixels", &v, &px)?,
        Ok(DecodingResult::U16(v)) if bps == 2 => { let want: Vec<u16> = px.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect(); diff("pixels", &v, &want)? }
        _ => return Err("wrong sample type".into()),
    }
    Ok(())
}
fn pfm(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let rgb = g.chance(1, 2); let le = g.chance(1, 2);
    let c = if rgb { 3 } else { 1 };
    let px: Vec<u32> = (0..w * h * c).map(|_| if g.chance(1, 4) { u32::from_ne_bytes([g.b(), g.b(), g.b(), g.b()]) } else { g.u32() }).collect();
    let mut f = if rgb { b"PF\n".to_vec() } else { b"Pf\n".to_vec() };
    f.extend(format!("{w} {h}\n{}\n", if le { "-1.0" } else { "1.0" }).bytes());
    for y in (0..h).rev() { for x in 0..w * c { let p = px[y * w * c + x]; f.extend(if le { p.to_le_bytes() } else { p.to_be_bytes() }); } }
    g.note(&format!("pfm w={w} h={h} comps={c} le={le}")); g.note_bytes("file", &f);
    match PPMDecoder::new(ZCursor::new(&f)).decode().map_err(|e| format!("{e:?}"))? {
        DecodingResult::F32(v) => { let got: Vec<u32> = v.iter().map(|x| x.to_bits()).collect(); diff("pfm samples (bits, top row first)", &got, &px) }
        _ => Err("wrong type".into()),
    }
}
fn limits(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.below(40), g.below(40)); let (mw, mh) = (g.below(40), g.below(40));
    let k = g.below(4);
    let f = match k { 0 => format!("P5 {w} {h} 255\n"), 1 => format!("P6 {w} {h} 255\n"), 2 => format!("Pf {w} {h} 1.0\n"), _ => format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH 3\nMAXVAL 255\nTUPLTYPE RGB\nENDHDR\n") };
    g.note(&format!("limits {mw}x{mh} file {f:?}"));
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let r = PPMDecoder::new_with_options(ZCursor::new(f.as_bytes()), o).decode_headers();
    if r.is_ok() != (w <= mw && h <= mh) { return Err(format!("limit not applied: {:?}", r.is_ok())); }
    Ok(())
}
/// sinks that refuse a write or are too small, and the sample type the format cannot hold: an error, never a panic or a silent loss
fn sinks(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.range(1, 6), g.range(1, 6));
    let cs = g.pick(&[ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::LumaA]);
    let dep = g.pick(&[BitDepth::Eight, BitDepth::Sixteen]);
    let raw = g.bytes(w * h * cs.num_components() * dep.size_of());
    let o = EncoderOptions::new(w, h, cs, dep);
    let mut out: Vec<u8> = vec![];
    PPMEncoder::new(&raw, o).encode(&mut out).map_err(|e| format!("{e:?}"))?;
    let k = g.below(w * h * 4 + 4);
    g.note(&format!("PPMEncoder w={w} h={h} {cs:?} {dep:?}, sink refuses write {k}")); g.note_bytes("data", &raw);
    flaky_check(k, &out, |f| PPMEncoder::new(&raw, o).encode(f).map(|_| ()).map_err(|e| format!("{e:?}")))?;
    let cap = g.below(out.len() + 60);
    g.note(&format!("then into a slice of {cap} bytes"));
    let mut buf = vec![0u8; cap];
    match PPMEncoder::new(&raw, o).encode(&mut buf[..]) { Ok(n) => diff("slice sink", &buf[..n.min(cap)], &out)?, Err(_) if cap >= out.len() + 64 => return Err("error though the slice is large enough".into()), Err(_) => {} }
    let fl = vec![0u8; w * h * cs.num_components() * 4];
    if PPMEncoder::new(&fl, EncoderOptions::new(w, h, cs, BitDepth::Float32)).encode(&mut Vec::new()).is_ok() { return Err("float samples accepted by the integer encoder".into()); }
    Ok(())
}
