//! BMP files written from the format description: every header version, bit depth, palette, bit mask and run length coding.
use crate::g::*;
use crate::CaseFn;
use zune_bmp::BmpDecoder;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C21" { v.push(("bmp_decode", dec)); v.push(("bmp_tiny", tiny)); v.push(("bmp_malformed", bad)); v.push(("bmp_mutated", mutated)); }
    if p == "C22" { v.push(("bmp_limits", limits)); }
}
#[derive(Clone)]
struct Img { w: usize, h: usize, ch: usize, depth: usize, comp: u32, pal: bool, masked: bool, file: Vec<u8>, body: usize, tol: Vec<u8>, want: Vec<u8>, stride: usize, ihs: usize }

fn mask_set(g: &mut G, depth: usize, alpha: bool) -> [u32; 4] {
    let n = if alpha { 4 } else { 3 };
    if g.chance(1, 2) {
        let base: [[u32; 4]; 3] = if depth == 16 { [[0xf800, 0x7e0, 0x1f, 0], [0x7c00, 0x3e0, 0x1f, 0x8000], [0xf00, 0xf0, 0xf, 0xf000]] } else { [[0xff0000, 0xff00, 0xff, 0xff000000], [0xff000000, 0xff0000, 0xff00, 0xff], [0x3ff00000, 0xffc00, 0x3ff, 0xc0000000]] };
        let mut m = g.pick(&base); if !alpha { m[3] = 0; } return m;
    }
    // contiguous masks, in any order, with gaps
    let mut order = vec![0usize, 1, 2, 3]; order.truncate(n); for i in (1..n).rev() { let j = g.below(i + 1); order.swap(i, j); }
    let mut m = [0u32; 4]; let mut at = 0usize; 
    for (k, c) in order.iter().enumerate() {
        let left = depth - at - (n - 1 - k); if g.chance(1, 4) && left > 2 { at += 1; }
        let left = depth - at - (n - 1 - k);
        let bits = g.range(1, left.min(if depth == 16 { 8 } else { 12 }));
        m[*c] = (((1u64 << bits) - 1) << at) as u32; at += bits;
    }
    m
}
fn scale(v: u32, m: u32) -> (u8, u8) {
    if m == 0 { return (255, 0); }
    let sh = m.trailing_zeros(); let bits = m.count_ones(); let x = (v & m) >> sh; let max = ((1u64 << bits) - 1) as f64;
    if bits == 8 { return (x as u8, 0); }
    ((x as f64 * 255.0 / max).round() as u8, if x == 0 || x as f64 == max { 0 } else { 1 })
}
fn rle(g: &mut G, px: &[Vec<u8>], w: usize, four: bool, out: &mut Vec<u8>, ncol: usize) -> Vec<Vec<u8>> {
    // px: rows in file order, gives what is painted (pixels that are jumped over stay 0)
    let mut want: Vec<Vec<u8>> = px.to_vec(); let _ = ncol;
    let h = px.len(); let mut y = 0; let mut x = 0;
    while y < h {
        if g.chance(1, 30) && y + 1 < h {
            let dx = g.below((w - x).min(255) + 1); let dy = g.below((h - 1 - y).min(255) + 1);
            out.extend([0, 2, dx as u8, dy as u8]);
            if dy == 0 { for k in x..x + dx { want[y][k] = 0; } } else { for k in x..w { want[y][k] = 0; } for r in y + 1..y + dy { want[r] = vec![0; w]; } for k in 0..x + dx { want[y + dy][k] = 0; } }
            x += dx; y += dy; continue;
        }
        if x >= w { 
            if y + 1 == h { break; }
            out.extend([0, 0]); x = 0; y += 1; continue; }
        if g.chance(1, 40) && y + 1 < h { out.extend([0, 0]); for k in x..w { want[y][k] = 0; } x = 0; y += 1; continue; }
        let row = &px[y]; let left = (w - x).min(255);
        if left >= 3 && g.chance(1, 3) {
            let n = g.range(3, left); out.extend([0, n as u8]); let n0 = out.len();
            if four { for k in (0..n).step_by(2) { out.push(row[x + k] << 4 | if k + 1 < n { row[x + k + 1] } else { g.below(16) as u8 }); } } else { out.extend(&row[x..x + n]); }
            if (out.len() - n0) % 2 == 1 { out.push(g.u8()); } x += n;
        } else if four {
            let (a, b) = (row[x], if left > 1 { row[x + 1] } else { g.below(16) as u8 });
            let mut n = 1; while n < left && row[x + n] == if n % 2 == 0 { a } else { b } { n += 1; }
            let n = g.range(1, n); out.extend([n as u8, a << 4 | b]); x += n;
        } else {
            let mut n = 1; while n < left && row[x + n] == row[x] { n += 1; }
            let n = g.range(1, n); out.extend([n as u8, row[x]]); x += n;
        }
    }
    if g.chance(1, 2) { out.extend([0, 0]); }
    out.extend([0, 1]); want
}
fn make(g: &mut G, bare: bool) -> Img {
    let (w, h) = match g.below(12) { 0 => (g.range(120, 300), g.range(1, 4)), 1 => (g.range(1, 4), g.range(60, 140)), _ => (g.dim(), g.range(1, 9)) };
    let ihs = if bare { 40 } else { g.pick(&[12usize, 16, 40, 40, 40, 52, 56, 64, 108, 124]) };
    let kind = g.below(10); let modern = ihs >= 40 && ihs != 64;
    let (depth, comp): (usize, u32) = match kind { 0 => (1, 0), 1 => (2, 0), 2 => (4, 0), 3 => (8, 0), 4 => if ihs >= 40 { (8, 1) } else { (8, 0) }, 5 => if ihs >= 40 { (4, 2) } else { (4, 0) }, 6 => (16, if modern && g.chance(1, 2) { 3 } else { 0 }), 7 => (24, 0), 8 => (32, if modern { 3 } else { 0 }), _ => (32, 0) };
    let gray = depth == 8 && comp == 0 && g.chance(1, 4);
    let pal = depth <= 8 && !gray; let topdown = comp != 1 && comp != 2 && ihs >= 16 && g.chance(1, 3);
    let masks = if comp == 3 { mask_set(g, depth, ihs >= 56) } else if depth == 16 { [31 << 10, 31 << 5, 31, 0] } else { [0; 4] };
    let full = 1usize << depth.min(8); let used = if ihs >= 40 && pal && g.chance(1, 3) { g.range(1, full) } else { full };
    let (ncol, clr) = (used, if used == full && g.chance(1, 2) { 0 } else { used });
    let mut f = b"BM".to_vec(); f.extend([0u8; 8]); f.extend([0u8; 4]);
    f.extend((ihs as u32).to_le_bytes());
    let hh = if topdown { -(h as i32) } else { h as i32 };
    if ihs == 12 { f.extend((w as u16).to_le_bytes()); f.extend((h as u16).to_le_bytes()); } else { f.extend((w as u32).to_le_bytes()); f.extend(hh.to_le_bytes()); }
    f.extend(1u16.to_le_bytes()); f.extend((depth as u16).to_le_bytes());
    if ihs >= 40 {
        f.extend(comp.to_le_bytes()); f.extend(g.u32().to_le_bytes()); f.extend(g.u32().to_le_bytes()); f.extend(g.u32().to_le_bytes());
        f.extend((if pal { clr as u32 } else { 0 }).to_le_bytes()); f.extend(0u32.to_le_bytes());
        if modern { let z = comp != 3 && g.chance(1, 2); for k in 0..4 { if ihs >= 52 && (k < 3 || ihs >= 56) { f.extend(if comp == 3 { masks[k] } else if z { 0 } else { g.u32() }.to_le_bytes()); } else if ihs == 40 && comp == 3 && k < 3 { f.extend(masks[k].to_le_bytes()); } } }
        let end = 14 + ihs; if f.len() < end { let n = end - f.len(); let mut x = vec![0u8; n]; if n >= 52 { x[..4].copy_from_slice(b"BGRs"); } f.extend(x); }
    }
    let mut palette = vec![[0u8; 3]; 256];
    if pal { for k in 0..ncol { let c = [g.b(), g.b(), g.b()]; palette[k] = c; f.extend([c[2], c[1], c[0]]); if ihs != 12 { f.push(g.b()); } } }
    if !gray && !bare && g.chance(1, 4) { let n = g.below(9); f.extend(g.bytes(n)); }
    let body = f.len(); let o = (body as u32).to_le_bytes(); f[10..14].copy_from_slice(&o);
    let mut img = Img { w, h, ch: 0, depth, comp, pal, masked: comp == 3, file: vec![], body, tol: vec![], want: vec![], stride: (w * depth + 31) / 32 * 4, ihs };
    let mut rows: Vec<Vec<(u8, u8)>> = vec![]; 
    if comp == 1 || comp == 2 {
        let flat = g.chance(1, 2);
        let px: Vec<Vec<u8>> = (0..h).map(|_| { let mut last = 0; (0..w).map(|_| { if !flat || g.chance(1, 5) { last = g.below(ncol) as u8; } last }).collect() }).collect();
        let want = rle(g, &px, w, comp == 2, &mut f, ncol); img.ch = 3;
        for r in want { rows.push(r.iter().flat_map(|i| palette[*i as usize].iter().map(|c| (*c, 0)).collect::<Vec<_>>()).collect()); }
    } else {
        img.ch = if pal || depth == 24 || (depth == 16 && comp == 0) { 3 } else if gray { 1 } else { 4 };
        for _ in 0..h {
            let mut line = vec![]; let mut r = vec![]; let mut acc = 0u32; let mut nb = 0;
            for _ in 0..w {
                if depth <= 8 { let i = if gray { g.u8() as u32 } else { g.below(ncol) as u32 }; acc = acc << depth | i; nb += depth; if nb == 8 { line.push(acc as u8); acc = 0; nb = 0; }
                    if gray { r.push((i as u8, 0)); } else { for c in palette[i as usize] { r.push((c, 0)); } } }
                else if depth == 24 { let p = [g.b(), g.b(), g.b()]; line.extend([p[2], p[1], p[0]]); for c in p { r.push((c, 0)); } }
                else if comp == 0 && depth == 32 { let p = [g.b(), g.b(), g.b()]; line.extend([p[2], p[1], p[0], g.u8()]); for c in p { r.push((c, 0)); } r.push((255, 0)); }
                else { let v = match g.below(6) { 0 => u32::MAX, 1 => 0, _ => g.u32() } & if depth == 16 { 65535 } else { u32::MAX }; line.extend(&v.to_le_bytes()[..depth / 8]); for k in 0..img.ch { r.push(scale(v, masks[k])); } }
            }
            if nb > 0 { line.push((acc << (8 - nb)) as u8); }
            while line.len() % 4 != 0 { line.push(g.u8()); }
            f.extend(line); rows.push(r);
        }
    }
    if !topdown { rows.reverse(); }
    let flat: Vec<(u8, u8)> = rows.concat(); img.want = flat.iter().map(|x| x.0).collect(); img.tol = flat.iter().map(|x| x.1).collect();
    let n = (f.len() as u32).to_le_bytes(); f[2..6].copy_from_slice(&n); img.file = f;
    g.note(&format!("bmp {w}x{h} header={ihs} depth={depth} compression={comp} topdown={topdown} gray={gray} colours={ncol} masks={masks:x?}")); g.note_bytes("file", &img.file);
    img
}
fn cmp(got: &[u8], im: &Img, bgr: bool) -> Result<(), String> {
    if got.len() != im.want.len() { return Err(format!("{} bytes but expected {}", got.len(), im.want.len())); }
    for i in 0..got.len() {
        let k = if bgr && im.ch >= 3 { let (p, c) = (i / im.ch, i % im.ch); p * im.ch + if c < 3 { 2 - c } else { c } } else { i };
        if got[i].abs_diff(im.want[k]) > im.tol[k] { return Err(format!("byte {i} (pixel {}, row {}) is {} but expected {}", i / im.ch, i / im.ch / im.w, got[i], im.want[k])); }
    }
    Ok(())
}
fn check(g: &mut G, im: &Img) -> Result<(), String> {
    let mut d = BmpDecoder::new(ZCursor::new(&im.file)); let bgr = g.chance(1, 4); if bgr { d.preserve_bgra(true); }
    if g.chance(1, 2) { d.decode_headers().map_err(|e| format!("headers: {e:?}"))?; if d.dimensions() != Some((im.w, im.h)) { return Err(format!("dimensions {:?}", d.dimensions())); } }
    let got = if g.chance(1, 2) { d.decode().map_err(|e| format!("decode: {e:?}"))? } else {
        d.decode_headers().map_err(|e| format!("headers: {e:?}"))?; let n = d.output_buf_size().ok_or("no size")?; let extra = g.pick(&[0usize, 0, 5, 64]);
        let mut b = vec![0xA5u8; n + extra]; d.decode_into(&mut b).map_err(|e| format!("decode_into: {e:?}"))?;
        if b[n..].iter().any(|x| *x != 0xA5) { return Err("wrote past the size of the image".into()); } b.truncate(n); b };
    if d.dimensions() != Some((im.w, im.h)) { return Err(format!("dimensions {:?} but the image is {}x{}", d.dimensions(), im.w, im.h)); }
    let cs = match (im.ch, bgr) { (1, _) => ColorSpace::Luma, (3, false) => ColorSpace::RGB, (3, true) => ColorSpace::BGR, (4, false) => ColorSpace::RGBA, _ => ColorSpace::BGRA };
    if d.colorspace() != Some(cs) { return Err(format!("colorspace {:?} but expected {cs:?}", d.colorspace())); }
    cmp(&got, im, bgr)
}
fn dec(g: &mut G) -> Result<(), String> { let im = make(g, false); check(g, &im) }
fn tiny(g: &mut G) -> Result<(), String> { g.size = g.size.min(2); let im = make(g, true); check(g, &im) }
fn bad(g: &mut G) -> Result<(), String> {
    let mut im = make(g, false); let k = g.below(8); g.note(&format!("defect {k}"));
    match k {
        0 => im.file[g.below(2)] ^= 1 << g.below(8),
        1 => { im.file[14..18].copy_from_slice(&g.pick(&[0u32, 11, 13, 41, 100, 65536, u32::MAX]).to_le_bytes()); }
        2 => if im.ihs == 12 { let o = g.pick(&[18, 20]); im.file[o] = 0; im.file[o + 1] = 0; } else { let o = g.pick(&[18, 22]); im.file[o..o + 4].fill(0); },
        3 => { let o = if im.ihs == 12 { 24 } else { 28 }; im.file[o] = g.pick(&[0, 3, 5, 7, 64, 33, 15]); }
        4 => if im.ihs < 40 { g.trivial = true; return Ok(()); } else { im.file[30] = g.pick(&[4, 5, 6, 200]); },
        5 => { let n = g.below(14 + im.ihs.min(40)); im.file.truncate(n); }
        6 => { im.file[10..14].copy_from_slice(&g.pick(&[0u32, 13, 14, 14 + im.ihs as u32 - 1]).to_le_bytes()); }
        _ => { // the buffer handed in is too small for the image
            let n = im.want.len(); let mut b = vec![0u8; g.below(n)];
            return match BmpDecoder::new(ZCursor::new(&im.file)).decode_into(&mut b) { Err(_) => Ok(()), Ok(()) => Err("decoded into a buffer that is too small".into()) };
        }
    }
    match BmpDecoder::new(ZCursor::new(&im.file)).decode() { Err(_) => Ok(()), Ok(v) => Err(format!("accepted ({} bytes)", v.len())) }
}
fn mutated(g: &mut G) -> Result<(), String> {
    let mut im = make(g, false); let head = (14 + im.ihs).min(im.file.len());
    if g.chance(1, 8) && im.ihs >= 40 { im.file[30] = g.below(4) as u8; if g.chance(1, 2) { im.file[28] = g.pick(&[1, 2, 4, 8, 16, 24, 32]); } }
    for _ in 0..g.range(0, 5) { let n = im.file.len(); let i = match g.below(3) { 0 => g.below(head), 1 => im.body.min(n - 1) + g.below(n - im.body.min(n - 1)), _ => g.below(n) }; im.file[i] = g.b(); }
    if g.chance(1, 3) { let n = im.file.len(); im.file.truncate(g.below(n + 1)); }
    g.note_bytes("mutated", &im.file);
    let o = DecoderOptions::default().set_max_width(2000).set_max_height(2000);
    let mut d = BmpDecoder::new_with_options(ZCursor::new(&im.file), o); if g.chance(1, 4) { d.preserve_bgra(true); }
    match d.decode() { Err(_) => Ok(()), Ok(v) => {
        let (w, h) = d.dimensions().ok_or("no dimensions")?; let c = d.colorspace().ok_or("no colorspace")?.num_components();
        if v.len() != w * h * c { return Err(format!("{} bytes for {w}x{h}x{c}", v.len())); } Ok(()) } }
}
fn limits(g: &mut G) -> Result<(), String> {
    let im = make(g, false); let (mw, mh) = (near(g, im.w), near(g, im.h)); g.note(&format!("limits {mw}x{mh}"));
    let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let a = BmpDecoder::new_with_options(ZCursor::new(&im.file), o).decode_headers().map_err(|e| format!("{e:?}"));
    let b = BmpDecoder::new_with_options(ZCursor::new(&im.file), o).decode().map(|_| ()).map_err(|e| format!("{e:?}"));
    limit_check(im.w, im.h, mw, mh, a, b)
}
