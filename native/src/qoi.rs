use crate::g::*;
use crate::CaseFn;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    match p {
        "C01" => { v.push(("qoi_roundtrip", roundtrip)); v.push(("qoi_roundtrip_small_sink", sink)); v.push(("qoi_roundtrip_flaky_sink", flaky)); }
        "C02" => { v.push(("qoi_decode_spec", decode_spec)); v.push(("qoi_decode_junk", junk)); }
        "C22" => v.push(("qoi_limits", limits)),
        _ => {}
    }
}
fn limits(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.range(1, 40), g.range(1, 40)); let (mw, mh) = (near(g, w), near(g, h)); let ch = 3 + g.below(2);
    let mut f = b"qoif".to_vec(); f.extend((w as u32).to_be_bytes()); f.extend((h as u32).to_be_bytes()); f.extend([ch as u8, 0]);
    f.extend(vec![0xc0u8; w * h]); f.extend([0, 0, 0, 0, 0, 0, 0, 1]);
    g.note(&format!("qoi {w}x{h}x{ch} max_width={mw} max_height={mh}"));
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let a = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o).decode_headers().map_err(|e| format!("{e:?}"));
    let b = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o).decode().map(|_| ()).map_err(|e| format!("{e:?}"));
    limit_check(w, h, mw, mh, a, b)
}

/// QOI specification decoder (independent), missing bytes are treated as zero. Returns pixels and bytes consumed.
pub fn spec_decode(body: &[u8], n: usize, ch: usize) -> (Vec<u8>, usize) {
    let mut idx = [[0u8; 4]; 64];
    let mut px = [0u8, 0, 0, 255];
    let mut p = 0usize; let mut run = 0usize;
    let mut out = vec![];
    let at = |p: usize| -> u8 { body.get(p).copied().unwrap_or(0) };
    for _ in 0..n {
        if run > 0 { run -= 1; } else {
            let b = at(p); p += 1;
            if b == 0xfe { px[0] = at(p); px[1] = at(p + 1); px[2] = at(p + 2); p += 3; }
            else if b == 0xff { px = [at(p), at(p + 1), at(p + 2), at(p + 3)]; p += 4; }
            else if b >> 6 == 0 { px = idx[b as usize]; }
            else if b >> 6 == 1 {
                px[0] = px[0].wrapping_add((b >> 4) & 3).wrapping_sub(2);
                px[1] = px[1].wrapping_add((b >> 2) & 3).wrapping_sub(2);
                px[2] = px[2].wrapping_add(b & 3).wrapping_sub(2);
            } else if b >> 6 == 2 {
                let c = at(p); p += 1; let vg = (b & 63).wrapping_sub(32);
                px[0] = px[0].wrapping_add(vg).wrapping_sub(8).wrapping_add(c >> 4);
                px[1] = px[1].wrapping_add(vg);
                px[2] = px[2].wrapping_add(vg).wrapping_sub(8).wrapping_add(c & 15);
            } else { run = (b & 63) as usize; }
            let h = (px[0] as usize * 3 + px[1] as usize * 5 + px[2] as usize * 7 + px[3] as usize * 11) % 64;
            idx[h] = px;
        }
        out.extend_from_slice(&px[..ch]);
    }
    (out, p)
}

fn gen_pixels(g: &mut G, n: usize, ch: usize) -> Vec<u8> {
    let mode = g.below(7);
    let pal: Vec<[u8; 4]> = (0..g.range(1, 6)).map(|_| [g.b(), g.b(), g.b(), g.b()]).collect();
    let mut cur = if g.chance(1, 2) { [0, 0, 0, 255] } else { [g.b(), g.b(), g.b(), g.b()] };
    let mut out = vec![]; let mut hold = 0usize;
    for _ in 0..n {
        if hold > 0 { hold -= 1; } else {
            match mode {
                0 => cur = [g.u8(), g.u8(), g.u8(), g.u8()],
                1 => { let k = g.below(pal.len()); cur = pal[k]; hold = g.pick(&[0usize, 0, 1, 60, 61, 62, 63, 123, 124, 125]); }
                2 => for c in cur.iter_mut() { *c = c.wrapping_add(g.below(5) as u8).wrapping_sub(2); },
                3 => { let d = g.range(0, 70) as u8; for c in cur.iter_mut().take(3) { *c = c.wrapping_add(d).wrapping_sub(35).wrapping_add(g.below(18) as u8).wrapping_sub(9); } }
                4 => { let k = g.below(pal.len()); cur = pal[k]; }
                5 => { if g.chance(1, 3) { let i = g.below(4); cur[i] = g.b(); } }
                _ => { let a = cur[3]; cur = [g.b(), g.b(), g.b(), if g.chance(1, 8) { g.b() } else { a }]; if g.chance(1, 4) { hold = g.below(130); } }
            }
        }
        out.extend_from_slice(&cur[..ch]);
    }
    out
}

fn roundtrip(g: &mut G) -> Result<(), String> {
    let ch = g.pick(&[3usize, 4]);
    let (w, h) = if g.chance(1, 8) { (g.range(1, 400), 1) } else { (g.dim(), g.dim()) };
    let px = gen_pixels(g, w * h, ch);
    g.note(&format!("QoiEncoder w={w} h={h} ch={ch}")); g.note_bytes("pixels", &px);
    let cs = if ch == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
    let mut out: Vec<u8> = vec![];
    let n = zune_qoi::QoiEncoder::new(&px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut out).map_err(|e| format!("encode failed: {e:?}"))?;
    if n != out.len() { return Err(format!("encode returned {n} but wrote {}", out.len())); }
    if &out[..4] != b"qoif" || out[4..8] != (w as u32).to_be_bytes() || out[8..12] != (h as u32).to_be_bytes() || out[12] as usize != ch || out[13] > 1 { return Err(format!("bad header {}", hex(&out[..14]))); }
    if out[out.len() - 8..] != [0, 0, 0, 0, 0, 0, 0, 1] { return Err("bad trailer".into()); }
    let (s, used) = spec_decode(&out[14..out.len() - 8], w * h, ch);
    diff("spec-decoded stream", &s, &px)?;
    if used != out.len() - 22 { return Err(format!("stream has {} body bytes, spec decoder used {used}", out.len() - 22)); }
    let mut d = zune_qoi::QoiDecoder::new(ZCursor::new(&out));
    let dec = d.decode().map_err(|e| format!("decode failed: {e:?}"))?;
    diff("decode(encode(px))", &dec, &px)?;
    if d.dimensions() != Some((w, h)) || d.colorspace() != Some(cs) { return Err("decoded metadata differs".into()); }
    Ok(())
}

/// Encoding into a sink that is too small must be an error, never a silently truncated file.
fn sink(g: &mut G) -> Result<(), String> {
    let ch = g.pick(&[3usize, 4]);
    let (w, h) = (g.dim(), g.dim());
    let px = gen_pixels(g, w * h, ch);
    let cs = if ch == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
    let mut out: Vec<u8> = vec![];
    zune_qoi::QoiEncoder::new(&px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut out).map_err(|e| format!("{e:?}"))?;
    let cap = g.below(out.len() + 3);
    g.note(&format!("QoiEncoder into slice of {cap} bytes (needs {}) w={w} h={h} ch={ch}", out.len())); g.note_bytes("pixels", &px);
    let mut buf = vec![0u8; cap];
    let r = zune_qoi::QoiEncoder::new(&px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut buf[..]);
    match r {
        Ok(n) if cap >= out.len() => { if n != out.len() { return Err(format!("returned {n}")); } diff("sink", &buf[..n], &out) }
        Ok(n) => Err(format!("Ok({n}) though the sink is too small")),
        Err(_) if cap >= out.len() => Err("error though the sink is large enough".into()),
        Err(_) => Ok(()),
    }
}

fn flaky(g: &mut G) -> Result<(), String> {
    let ch = g.pick(&[3usize, 4]);
    let (w, h) = (g.range(1, 8), g.range(1, 8));
    let px = gen_pixels(g, w * h, ch);
    let cs = if ch == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
    let o = EncoderOptions::new(w, h, cs, BitDepth::Eight);
    let mut out: Vec<u8> = vec![];
    zune_qoi::QoiEncoder::new(&px, o).encode(&mut out).map_err(|e| format!("{e:?}"))?;
    let k = g.below(w * h * 2 + 8);
    g.note(&format!("QoiEncoder, sink refuses write number {k} w={w} h={h} ch={ch}")); g.note_bytes("pixels", &px);
    let mut f = Flaky::new(k);
    match zune_qoi::QoiEncoder::new(&px, o).encode(&mut f) {
        Ok(n) => { if f.out != out { return Err(format!("Ok({n}) though the sink refused a write: {} of {} bytes arrived", f.out.len(), out.len())); } Ok(()) }
        Err(_) if !f.failed => Err("error though the sink accepted everything".into()),
        Err(_) => Ok(()),
    }
}

fn gen_stream(g: &mut G, n: usize) -> Vec<u8> {
    let mut b = vec![]; let mut px = 0;
    while px < n {
        match g.below(7) {
            0 => { b.push(0xfe); for _ in 0..3 { b.push(g.b()); } }
            1 => { b.push(0xff); for _ in 0..4 { b.push(g.b()); } }
            2 => b.push(g.below(64) as u8),
            3 => b.push(0x40 | g.below(64) as u8),
            4 => { b.push(0x80 | g.below(64) as u8); b.push(g.u8()); }
            5 => { let r = g.pick(&[0usize, 1, 2, 60, 61]); b.push(0xc0 | r as u8); px += r; }
            _ => { let k = g.below(64); b.push(k as u8); }
        }
        px += 1;
    }
    b
}

fn decode_spec(g: &mut G) -> Result<(), String> {
    let ch = g.pick(&[3usize, 4]);
    let (w, h) = (g.dim(), g.dim());
    let body = gen_stream(g, w * h);
    let extra = if g.chance(1, 3) { g.range(1, 20) } else { 0 };
    let layout = g.below(2) as u8;
    let mut f = b"qoif".to_vec();
    f.extend((w as u32).to_be_bytes()); f.extend((h as u32).to_be_bytes()); f.push(ch as u8); f.push(layout);
    f.extend(&body);
    f.extend([0, 0, 0, 0, 0, 0, 0, 1]);
    let (want, used) = spec_decode(&body, w * h, ch);
    let strict = g.chance(1, 2);
    let headers_first = g.chance(1, 2);
    g.note(&format!("w={w} h={h} ch={ch} out_buffer_extra={extra} strict={strict} headers_first={headers_first}")); g.note_bytes("file", &f);
    // a final run may extend past the image: legal only if body fully used
    let full = used == body.len();
    let o = DecoderOptions::default().set_strict_mode(strict);
    let mut d = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o);
    if headers_first { d.decode_headers().map_err(|e| format!("{e:?}"))?; if d.output_buffer_size() != Some(w * h * ch) { return Err("output_buffer_size".into()); } }
    let r = d.decode();
    if !full { return match r { Ok(x) => if strict { Ok(()) } else { diff("decode", &x, &want) }, Err(_) => if strict { Ok(()) } else { Ok(()) } }; }
    let r = r.map_err(|e| format!("decode: {e:?}"))?;
    diff("decode", &r, &want)?;
    let mut buf = vec![0xAAu8; w * h * ch + extra];
    let mut d = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o);
    d.decode_into(&mut buf).map_err(|e| format!("decode_into a buffer {extra} bytes larger than needed: {e:?}"))?;
    diff("decode_into", &buf[..w * h * ch], &want)?;
    if buf[w * h * ch..].iter().any(|x| *x != 0xAA) { return Err("decode_into wrote past the image".into()); }
    let mut small = vec![0u8; (w * h * ch).saturating_sub(1 + g.below(3))];
    let mut d = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o);
    if d.decode_into(&mut small).is_ok() { return Err("decode_into accepted a too small buffer".into()); }
    // corrupted trailer is rejected in strict mode
    if strict { let l = f.len(); f[l - 1 - g.below(8)] ^= 1 << g.below(8);
        if zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o).decode().is_ok() { return Err("bad trailer accepted in strict mode".into()); } }
    Ok(())
}

fn junk(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let mut f = b"qoif".to_vec();
    f.extend((w as u32).to_be_bytes()); f.extend((h as u32).to_be_bytes()); f.push(g.pick(&[3u8, 4, 3, 4, 0, 5])); f.push(g.below(3) as u8);
    let n = g.below(w * h * 5 + 10); f.extend(g.bytes(n));
    if g.chance(1, 3) { let k = g.below(f.len() + 1); f.truncate(k); }
    if g.chance(1, 5) && !f.is_empty() { let k = g.below(f.len()); f[k] ^= 1 << g.below(8); }
    let strict = g.chance(1, 2);
    let (mw, mh) = (if g.chance(1, 2) { w } else { g.below(200) }, if g.chance(1, 2) { h } else { g.below(200) });
    let o = DecoderOptions::default().set_strict_mode(strict).set_max_width(mw).set_max_height(mh);
    g.note(&format!("strict={strict} max_width={mw} max_height={mh}")); g.note_bytes("file", &f);
    let mut d = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&f), o);
    match d.decode_headers() {
        Ok(()) => {
            let (dw, dh) = d.dimensions().unwrap();
            if dw > mw || dh > mh { return Err(format!("{dw}x{dh} accepted above limit {mw}x{mh}")); }
            if dw == 0 || dh == 0 { return Err("zero dims accepted".into()); }
            let sz = d.output_buffer_size().unwrap();
            if sz > 1 << 24 { return Ok(()); }
            let fch = f[12] as usize;
            match d.decode() {
                Ok(p) => { let (want, _) = spec_decode(&f[14..], dw * dh, fch); diff("decode", &p, &want)?; }
                Err(_) => {}
            }
        }
        Err(_) => {
            let ok = f.len() >= 14 && &f[..4] == b"qoif" && (f[12] == 3 || f[12] == 4) && f[13] < 2
                && u32::from_be_bytes(f[4..8].try_into().unwrap()) as usize <= mw && u32::from_be_bytes(f[8..12].try_into().unwrap()) as usize <= mh
                && f[4..8] != [0; 4] && f[8..12] != [0; 4];
            if ok { return Err("valid header rejected".into()); }
        }
    }
    Ok(())
}
