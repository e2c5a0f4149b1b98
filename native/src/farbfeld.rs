use crate::g::*;
use crate::CaseFn;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_farbfeld::{FarbFeldDecoder, FarbFeldEncoder};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C03" { v.push(("farbfeld_roundtrip", rt)); v.push(("farbfeld_decode", dec)); v.push(("farbfeld_flaky_sink", flaky)); }
    if p == "C22" { v.push(("farbfeld_limits", limits)); }
}
fn limits(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.range(1, 40), g.range(1, 40)); let (mw, mh) = (near(g, w), near(g, h));
    let f = file(w as u32, h as u32, &vec![7u16; w * h * 4]);
    g.note(&format!("farbfeld {w}x{h} max_width={mw} max_height={mh}"));
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let a = FarbFeldDecoder::new_with_options(ZCursor::new(&f), o).decode_headers().map_err(|e| format!("{e:?}"));
    let b = FarbFeldDecoder::new_with_options(ZCursor::new(&f), o).decode().map(|_| ()).map_err(|e| format!("{e:?}"));
    limit_check(w, h, mw, mh, a, b)
}
fn pix(g: &mut G, n: usize) -> Vec<u16> { (0..n).map(|_| u16::from_be_bytes([g.b(), g.b()])).collect() }
fn file(w: u32, h: u32, px: &[u16]) -> Vec<u8> {
    let mut f = b"farbfeld".to_vec(); f.extend(w.to_be_bytes()); f.extend(h.to_be_bytes());
    for p in px { f.extend(p.to_be_bytes()); } f
}
fn rt(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let px = pix(g, w * h * 4);
    let raw: Vec<u8> = px.iter().flat_map(|x| x.to_ne_bytes()).collect();
    g.note(&format!("FarbFeldEncoder w={w} h={h}")); g.note_bytes("data", &raw);
    let mut out: Vec<u8> = vec![];
    let n = FarbFeldEncoder::new(&raw, EncoderOptions::new(w, h, ColorSpace::RGBA, BitDepth::Sixteen)).encode(&mut out).map_err(|e| format!("encode: {e:?}"))?;
    if n != out.len() { return Err(format!("encode returned {n}, wrote {}", out.len())); }
    diff("encoded file", &out, &file(w as u32, h as u32, &px))?;
    let mut d = FarbFeldDecoder::new(ZCursor::new(&out));
    if g.chance(1, 2) { d.decode_headers().map_err(|e| format!("{e:?}"))?; }
    let r = d.decode().map_err(|e| format!("decode: {e:?}"))?;
    diff("decode(encode(px))", &r, &px)?;
    if d.dimensions() != Some((w, h)) { return Err("dimensions".into()); }
    // wrong sizes are rejected
    let k = g.range(1, raw.len());
    if FarbFeldEncoder::new(&raw[..raw.len() - k], EncoderOptions::new(w, h, ColorSpace::RGBA, BitDepth::Sixteen)).encode(&mut vec![]).is_ok() { return Err("short input accepted".into()); }
    Ok(())
}
fn dec(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let px = pix(g, w * h * 4);
    let mut f = file(w as u32, h as u32, &px);
    let cut = if g.chance(1, 3) { g.below(f.len()) } else { f.len() };
    f.truncate(cut);
    let extra = g.below(9);
    let (mw, mh) = (if g.chance(1, 2) { w } else { g.below(64) }, if g.chance(1, 2) { h } else { g.below(64) });
    g.note(&format!("max_width={mw} max_height={mh} extra_out={extra}")); g.note_bytes("file", &f);
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let mut d = FarbFeldDecoder::new_with_options(ZCursor::new(&f), o);
    let good_hdr = f.len() >= 16 && w <= mw && h <= mh;
    match d.decode_headers() { Ok(()) if !good_hdr => return Err("header accepted".into()), Err(e) if good_hdr => return Err(format!("header rejected {e:?}")), Err(_) => return Ok(()), _ => {} }
    if d.output_buffer_size() != Some(w * h * 8) { return Err(format!("output_buffer_size {:?} is not the decoded size in bytes {}", d.output_buffer_size(), w * h * 8)); }
    let mut buf = vec![0x5555u16; w * h * 4 + extra];
    match d.decode_into(&mut buf) {
        Ok(()) => { if f.len() < 16 + w * h * 8 { return Err("truncated file accepted".into()); } diff("decode_into", &buf[..w * h * 4], &px)?; if buf[w * h * 4..].iter().any(|x| *x != 0x5555) { return Err("wrote past image".into()); } }
        Err(e) => if f.len() >= 16 + w * h * 8 { return Err(format!("decode_into: {e:?}")); }
    }
    let mut d = FarbFeldDecoder::new(ZCursor::new(&f));
    let mut small = vec![0u16; w * h * 4 - 1];
    if d.decode_into(&mut small).is_ok() { return Err("small buffer accepted".into()); }
    Ok(())
}
fn flaky(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.range(1, 5), g.range(1, 5));
    let px = pix(g, w * h * 4); let raw: Vec<u8> = px.iter().flat_map(|x| x.to_ne_bytes()).collect();
    let k = g.below(w * h * 4 + 6);
    g.note(&format!("FarbFeldEncoder w={w} h={h}, sink refuses write {k}")); g.note_bytes("data", &raw);
    flaky_check(k, &file(w as u32, h as u32, &px), |f| FarbFeldEncoder::new(&raw, EncoderOptions::new(w, h, ColorSpace::RGBA, BitDepth::Sixteen)).encode(f).map(|_| ()).map_err(|e| format!("{e:?}")))
}
