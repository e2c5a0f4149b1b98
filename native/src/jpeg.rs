//! C16/C17/C18: JPEG. Files are generated from ITU T.81 directly (coefficients -> bits), random canonical
//! Huffman tables, baseline and progressive; the expected samples come from a floating point IDCT of the
//! coefficients and the JFIF colour equations, so no JPEG encoder is involved.
use crate::g::*;
use crate::CaseFn;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C16" { v.push(("jpeg_color_convert", color)); v.push(("jpeg_gray_out", gray)); v.push(("jpeg_color_all", color_sweep)); }
    if p == "C17" { v.push(("jpeg_idct_gray", idct)); v.push(("jpeg_idct_color", idct_color)); v.push(("jpeg_idct_extreme", extreme)); v.push(("jpeg_idct_dc_sweep", dc_sweep)); }
    if p == "C18" { v.push(("jpeg_huffman_baseline", huff)); v.push(("jpeg_huffman_progressive", huff_prog)); v.push(("jpeg_eob_runs", eob_runs)); v.push(("jpeg_dht_validity", dht)); v.push(("jpeg_dc_range", dcrange)); }
    if p == "C22" { v.push(("jpeg_limits", limits)); }
}
pub const ZZ: [usize; 64] = [0,1,8,16,9,2,3,10,17,24,32,25,18,11,4,5,12,19,26,33,40,48,41,34,27,20,13,6,7,14,21,28,35,42,49,56,57,50,43,36,29,22,15,23,30,37,44,51,58,59,52,45,38,31,39,46,53,60,61,54,47,55,62,63];

#[derive(Clone)]
pub struct Comp { pub id: u8, pub h: usize, pub v: usize, pub tq: usize, pub bw: usize, pub bh: usize, pub co: Vec<[i32; 64]> } // zigzag order, quantised
#[derive(Clone)]
pub struct Img { pub w: usize, pub h: usize, pub comps: Vec<Comp>, pub q: Vec<[u16; 64]>, pub hm: usize, pub vm: usize }

impl Img {
    pub fn new(w: usize, h: usize, samp: &[(usize, usize)], q: Vec<[u16; 64]>) -> Img {
        let hm = samp.iter().map(|s| s.0).max().unwrap(); let vm = samp.iter().map(|s| s.1).max().unwrap();
        let (mx, my) = (w.div_ceil(8 * hm), h.div_ceil(8 * vm));
        let n = samp.len();
        let comps = samp.iter().enumerate().map(|(i, s)| { let (bw, bh) = if n == 1 { (w.div_ceil(8), h.div_ceil(8)) } else { (mx * s.0, my * s.1) };
            Comp { id: i as u8 + 1, h: s.0, v: s.1, tq: if i == 0 { 0 } else { q.len() - 1 }, bw, bh, co: vec![[0; 64]; bw * bh] } }).collect();
        Img { w, h, comps, q, hm, vm }
    }
    /// exact sample plane of a component: bw*8 x bh*8
    pub fn plane(&self, c: usize) -> Vec<f64> {
        let k = &self.comps[c]; let mut o = vec![0.0; k.bw * k.bh * 64];
        let mut cs = [[0f64; 8]; 8];
        for x in 0..8 { for u in 0..8 { cs[x][u] = ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos() * if u == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1.0 } / 2.0; } }
        for b in 0..k.co.len() {
            let mut f = [0f64; 64];
            for i in 0..64 { f[ZZ[i]] = (k.co[b][i] * self.q[k.tq][i] as i32) as f64; }
            let mut t = [0f64; 64];
            for v in 0..8 { for x in 0..8 { t[v * 8 + x] = (0..8).map(|u| f[v * 8 + u] * cs[x][u]).sum(); } }
            for y in 0..8 { for x in 0..8 { let s: f64 = (0..8).map(|v| t[v * 8 + x] * cs[y][v]).sum();
                o[((b / k.bw) * 8 + y) * k.bw * 8 + (b % k.bw) * 8 + x] = s + 128.0; } }
        }
        o
    }
}
// ---- entropy coding -------------------------------------------------------------------------
#[derive(Clone, Copy)]
enum Tok { S(u8, u8), B(u32, u8), R } // symbol of table (class<<4|id); raw bits; restart
struct Scan { comps: Vec<(usize, usize, usize)>, ss: u8, se: u8, ah: u8, al: u8, toks: Vec<Tok> }
fn cat(v: i32) -> u8 { (32 - v.unsigned_abs().leading_zeros()) as u8 }
fn mag(v: i32) -> Tok { let c = cat(v); Tok::B(if v < 0 { (v - 1) as u32 & ((1u32 << c) - 1) } else { v as u32 }, c) }

struct Hw { out: Vec<u8>, acc: u64, n: u32 }
impl Hw {
    fn put(&mut self, v: u32, l: u8) { if l == 0 { return; } self.acc = (self.acc << l) | (v as u64 & ((1u64 << l) - 1)); self.n += l as u32;
        while self.n >= 8 { self.n -= 8; let b = (self.acc >> self.n) as u8; self.out.push(b); if b == 255 { self.out.push(0); } } }
    fn align(&mut self) { if self.n > 0 { let k = 8 - self.n; self.put((1 << k) - 1, k as u8); } }
}
/// random lengths of a complete code with one all-ones longest word removed
fn lens(g: &mut G, n: usize) -> Vec<u8> {
    let n1 = n + 1; let mut ls = vec![0u8]; let deep = g.below(4);
    while ls.len() < n1 {
        let mut i = g.below(ls.len());
        if deep == 0 { i = ls.len() - 1; } else if deep == 1 { for _ in 0..3 { let j = g.below(ls.len()); if ls[j] < 16 && ls[j] > ls[i] { i = j; } } }
        else if deep == 2 { for _ in 0..3 { let j = g.below(ls.len()); if ls[j] < ls[i] { i = j; } } }
        if ls[i] >= 16 { let c: Vec<usize> = (0..ls.len()).filter(|j| ls[*j] < 16).collect(); i = g.pick(&c); }
        ls[i] += 1; let l = ls[i]; ls.push(l);
    }
    let m = *ls.iter().max().unwrap(); let i = ls.iter().position(|x| *x == m).unwrap(); ls.remove(i); ls.sort(); ls
}
pub struct Tab { pub counts: [u8; 16], pub syms: Vec<u8>, code: Vec<(u32, u8)> }
fn table(g: &mut G, used: &std::collections::BTreeSet<u8>, dc: bool, hist: &[u32; 256]) -> Tab {
    let mut syms: Vec<u8> = used.iter().copied().collect();
    let extra = match g.below(4) { 0 => 0, 1 => g.below(4), _ => g.below(if dc { 8 } else { 120 }) };
    for _ in 0..extra { let s = if dc { g.below(12) as u8 } else { let s = g.u8(); if s & 15 > 10 { continue; } s }; if !syms.contains(&s) { syms.push(s); } }
    if syms.is_empty() { syms.push(0); }
    for i in (1..syms.len()).rev() { let j = g.below(i + 1); syms.swap(i, j); }
    if g.chance(1, 2) { syms.sort_by_key(|s| std::cmp::Reverse(hist[*s as usize])); }
    let ls = lens(g, syms.len());
    let mut counts = [0u8; 16]; for l in &ls { counts[*l as usize - 1] += 1; }
    let mut code = vec![(0, 0); 256]; let mut c = 0u32; let mut pl = ls[0];
    for (i, l) in ls.iter().enumerate() { if i > 0 { c = (c + 1) << (l - pl); pl = *l; } code[syms[i] as usize] = (c, *l); }
    Tab { counts, syms, code }
}
fn seg(o: &mut Vec<u8>, m: u8, d: &[u8]) { o.extend([0xFF, m]); o.extend(((d.len() + 2) as u16).to_be_bytes()); o.extend(d); }

pub struct Opt { pub prog: bool, pub ri: usize, pub noninter: bool, pub adobe: Option<u8>, pub jfif: bool, pub padff: bool }
/// block sequence of a scan as (component index in scan, block index), with MCU boundaries
fn mcus(im: &Img, cs: &[usize]) -> Vec<Vec<(usize, usize)>> {
    let mut r = vec![];
    if cs.len() == 1 {
        let k = &im.comps[cs[0]];
        let (bw, bh) = if im.comps.len() == 1 { (k.bw, k.bh) } else { ((im.w * k.h).div_ceil(im.hm).div_ceil(8), (im.h * k.v).div_ceil(im.vm).div_ceil(8)) };
        for y in 0..bh { for x in 0..bw { r.push(vec![(0, y * k.bw + x)]); } }
    } else {
        let (mx, my) = (im.w.div_ceil(8 * im.hm), im.h.div_ceil(8 * im.vm));
        for y in 0..my { for x in 0..mx { let mut m = vec![];
            for (i, c) in cs.iter().enumerate() { let k = &im.comps[*c]; for v in 0..k.v { for h in 0..k.h { m.push((i, (y * k.v + v) * k.bw + x * k.h + h)); } } }
            r.push(m); } }
    }
    r
}
fn base_scan(im: &Img, cs: &[usize], tabs: &[(usize, usize)], ri: usize) -> Scan {
    let mut t = vec![]; let mut pred = vec![0i32; cs.len()];
    let ms = mcus(im, cs);
    for (n, m) in ms.iter().enumerate() {
        if ri > 0 && n > 0 && n % ri == 0 { t.push(Tok::R); pred.fill(0); }
        for (i, b) in m {
            let co = &im.comps[cs[*i]].co[*b]; let (td, ta) = tabs[*i];
            let d = co[0] - pred[*i]; pred[*i] = co[0];
            t.push(Tok::S(td as u8, cat(d))); if d != 0 { t.push(mag(d)); }
            let last = (1..64).rev().find(|k| co[*k] != 0).unwrap_or(0); let mut run = 0;
            for k in 1..=last { if co[k] == 0 { run += 1; continue; }
                while run > 15 { t.push(Tok::S(16 | ta as u8, 0xF0)); run -= 16; }
                t.push(Tok::S(16 | ta as u8, (run << 4) as u8 | cat(co[k]))); t.push(mag(co[k])); run = 0; }
            if last < 63 { t.push(Tok::S(16 | ta as u8, 0)); }
        }
    }
    Scan { comps: cs.iter().zip(tabs).map(|(c, t)| (*c, t.0, t.1)).collect(), ss: 0, se: 63, ah: 0, al: 0, toks: t }
}
fn dc_scan(im: &Img, cs: &[usize], tabs: &[(usize, usize)], ah: u8, al: u8, ri: usize) -> Scan {
    let mut t = vec![]; let mut pred = vec![0i32; cs.len()];
    for (n, m) in mcus(im, cs).iter().enumerate() {
        if ri > 0 && n > 0 && n % ri == 0 { t.push(Tok::R); pred.fill(0); }
        for (i, b) in m { let v = im.comps[cs[*i]].co[*b][0];
            if ah == 0 { let v = v >> al; let d = v - pred[*i]; pred[*i] = v; t.push(Tok::S(tabs[*i].0 as u8, cat(d))); if d != 0 { t.push(mag(d)); } }
            else { t.push(Tok::B((v >> al) as u32 & 1, 1)); } }
    }
    Scan { comps: cs.iter().zip(tabs).map(|(c, t)| (*c, t.0, t.1)).collect(), ss: 0, se: 0, ah, al, toks: t }
}
fn ac_scan(g: &mut G, im: &Img, c: usize, ta: usize, ss: usize, se: usize, ah: u8, al: u8, ri: usize) -> Scan {
    let mut t: Vec<Tok> = vec![]; let tb = 16 | ta as u8;
    let mut eob: u32 = 0; let mut pend: Vec<Tok> = vec![]; // correction bits of the blocks inside the EOB run
    let maxrun = g.pick(&[1u32, 2, 7, 300, 0x7FFF]);
    fn flush(t: &mut Vec<Tok>, tb: u8, eob: &mut u32, pend: &mut Vec<Tok>) { if *eob > 0 { let k = 31 - eob.leading_zeros(); t.push(Tok::S(tb, (k << 4) as u8)); if k > 0 { t.push(Tok::B(*eob - (1 << k), k as u8)); } *eob = 0; } t.append(pend); }
    for (n, m) in mcus(im, &[c]).iter().enumerate() {
        if ri > 0 && n > 0 && n % ri == 0 { flush(&mut t, tb, &mut eob, &mut pend); t.push(Tok::R); }
        let co = &im.comps[c].co[m[0].1];
        let v = |k: usize| -> i32 { let x = co[k]; if x < 0 { -((-x) >> al) } else { x >> al } };
        if ah == 0 {
            let last = (ss..=se).rev().find(|k| v(*k) != 0); let mut run = 0;
            if let Some(last) = last { flush(&mut t, tb, &mut eob, &mut pend);
                for k in ss..=last { if v(k) == 0 { run += 1; continue; } while run > 15 { t.push(Tok::S(tb, 0xF0)); run -= 16; }
                    t.push(Tok::S(tb, (run << 4) as u8 | cat(v(k)))); t.push(mag(v(k))); run = 0; } }
            if last != Some(se) { eob += 1; if eob >= maxrun { flush(&mut t, tb, &mut eob, &mut pend); } }
        } else {
            // refinement: newly significant coefficients have |v| == 1, others send one correction bit
            let lastnew = (ss..=se).rev().find(|k| v(*k).abs() == 1);
            let mut corr: Vec<Tok> = vec![]; let mut run = 0; let mut k = ss;
            if let Some(last) = lastnew { flush(&mut t, tb, &mut eob, &mut pend);
                while k <= last { let a = v(k).abs();
                    if a > 1 { corr.push(Tok::B((a & 1) as u32, 1)); }
                    else if a == 0 { run += 1; if run == 16 { // ZRL covers 16 zeros and the correction bits passed
                        t.push(Tok::S(tb, 0xF0)); t.append(&mut corr); run = 0; } }
                    else { t.push(Tok::S(tb, (run << 4) as u8 | 1)); t.push(Tok::B((v(k) > 0) as u32, 1)); t.append(&mut corr); run = 0; }
                    k += 1; } }
            // ZRL with trailing correction bits: bits after the 16th zero belong to the next symbol
            if k <= se || !corr.is_empty() { while k <= se { let a = v(k).abs(); if a > 1 { corr.push(Tok::B((a & 1) as u32, 1)); } k += 1; }
                eob += 1; pend.append(&mut corr); if eob >= maxrun || pend.len() > 900 { flush(&mut t, tb, &mut eob, &mut pend); } }
        }
    }
    flush(&mut t, tb, &mut eob, &mut pend);
    Scan { comps: vec![(c, 0, ta)], ss: ss as u8, se: se as u8, ah, al, toks: t }
}
pub fn encode(g: &mut G, im: &Img, o: &Opt) -> Vec<u8> {
    let n = im.comps.len();
    let mut f = vec![0xFF, 0xD8];
    if o.jfif { seg(&mut f, 0xE0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0"); }
    if let Some(t) = o.adobe { let mut d = b"Adobe\0\x64\0\0\0\0".to_vec(); d.push(t); seg(&mut f, 0xEE, &d); }
    for (i, q) in im.q.iter().enumerate() { let wide = q.iter().any(|x| *x > 255) || g.chance(1, 8);
        let mut d = vec![((wide as u8) << 4) | i as u8]; for x in q { if wide { d.extend(x.to_be_bytes()); } else { d.push(*x as u8); } } seg(&mut f, 0xDB, &d); }
    let mut d = vec![8]; d.extend((im.h as u16).to_be_bytes()); d.extend((im.w as u16).to_be_bytes()); d.push(n as u8);
    for c in &im.comps { d.extend([c.id, ((c.h << 4) | c.v) as u8, c.tq as u8]); }
    seg(&mut f, if o.prog { 0xC2 } else { 0xC0 }, &d);
    if o.ri > 0 { seg(&mut f, 0xDD, &(o.ri as u16).to_be_bytes()); }
    let all: Vec<usize> = (0..n).collect();
    let mut scans = vec![];
    let tb: Vec<(usize, usize)> = (0..n).map(|i| if i == 0 { (0, 0) } else { (1, 1) }).collect();
    if !o.prog {
        if o.noninter && n > 1 { for c in 0..n { scans.push(base_scan(im, &[c], &tb[c..c + 1], o.ri)); } } else { scans.push(base_scan(im, &all, &tb, o.ri)); }
    } else {
        let al = g.below(3) as u8; scans.push(dc_scan(im, &all, &tb, 0, al, o.ri));
        let mut later = vec![];
        for a in (0..al).rev() { later.push(dc_scan(im, &all, &tb, a + 1, a, o.ri)); }
        let mut acs: Vec<Vec<Scan>> = vec![];
        for c in 0..n { let mut cuts = vec![1usize]; if g.chance(1, 2) { cuts.push(g.range(2, 63)); if g.chance(1, 2) { cuts.push(g.range(2, 63)); } } cuts.push(64); cuts.sort(); cuts.dedup();
            let mut v = vec![]; for b in cuts.windows(2) { let al = g.below(4) as u8; v.push(ac_scan(g, im, c, tb[c].1, b[0], b[1] - 1, 0, al, o.ri)); for a in (0..al).rev() { v.push(ac_scan(g, im, c, tb[c].1, b[0], b[1] - 1, a + 1, a, o.ri)); } }
            acs.push(v); }
        acs.push(later);
        while acs.iter().any(|v| !v.is_empty()) { let i = g.below(acs.len()); if !acs[i].is_empty() { let s = acs[i].remove(0); scans.push(s); } }
    }
    for s in scans {
        let mut used: std::collections::BTreeMap<u8, (std::collections::BTreeSet<u8>, [u32; 256])> = Default::default();
        // every table a scan names must be defined
        for (_, a, b) in &s.comps { if s.ss == 0 && s.ah == 0 { used.entry(*a as u8).or_insert((Default::default(), [0; 256])); } if s.se > 0 { used.entry(16 | *b as u8).or_insert((Default::default(), [0; 256])); } }
        for t in &s.toks { if let Tok::S(t, v) = t { let e = used.entry(*t).or_insert((Default::default(), [0; 256])); e.0.insert(*v); e.1[*v as usize] += 1; } }
        if o.prog { for (_, a, b) in &s.comps { used.entry(*a as u8).or_insert((Default::default(), [0; 256])); used.entry(16 | *b as u8).or_insert((Default::default(), [0; 256])); } }
        let mut tabs = std::collections::BTreeMap::new(); let mut one: Vec<u8> = vec![]; let merge = g.chance(1, 2);
        for (id, (u, h)) in &used { let t = table(g, u, id & 16 == 0, h); let mut d = vec![*id]; d.extend(t.counts); d.extend(&t.syms);
            if merge { one.extend(d); } else { seg(&mut f, 0xC4, &d); } tabs.insert(*id, t); }
        if merge { seg(&mut f, 0xC4, &one); }
        let mut d = vec![s.comps.len() as u8]; for (c, a, b) in &s.comps { d.extend([im.comps[*c].id, ((a << 4) | b) as u8]); } d.extend([s.ss, s.se, (s.ah << 4) | s.al]);
        seg(&mut f, 0xDA, &d);
        let mut w = Hw { out: vec![], acc: 0, n: 0 }; let mut rst = 0u8;
        for t in &s.toks { match *t { Tok::S(t, v) => { let c = tabs[&t].code[v as usize]; debug_assert!(c.1 > 0); w.put(c.0, c.1); } Tok::B(v, l) => w.put(v, l),
            Tok::R => { w.align(); if o.padff && g.chance(1, 4) { w.out.push(0xFF); } w.out.extend([0xFF, 0xD0 + rst]); rst = (rst + 1) & 7; } } }
        w.align(); f.extend(w.out);
    }
    f.extend([0xFF, 0xD9]); f
}
fn limit(im: &mut Img, lim: f64) { // keep the dequantised energy of a block in the range where the transform is not clamped wildly
    let q = im.q.clone();
    for c in im.comps.iter_mut() { let q = &q[c.tq]; for b in c.co.iter_mut() {
        for i in 0..64 { let m = if i == 0 { 1023 } else { 1023 }; b[i] = b[i].clamp(-m, m); }
        loop { let e: f64 = (0..64).map(|i| (b[i] as f64 * q[i] as f64).abs()).sum(); if e <= lim { break; } for x in b.iter_mut() { *x /= 2; } } } }
}
fn rq(g: &mut G) -> [u16; 64] { let mut q = [1u16; 64]; match g.below(4) { 0 => {} 1 => { let k = g.range(1, 30) as u16; q.fill(k); } 2 => for x in q.iter_mut() { *x = g.range(1, 255) as u16; }, _ => for (i, x) in q.iter_mut().enumerate() { *x = (4 + i * 2 + g.below(9)) as u16; } } q }
fn fill(g: &mut G, im: &mut Img) {
    for c in 0..im.comps.len() { let q = im.q[im.comps[c].tq]; let mode0 = g.below(8); let nb = im.comps[c].co.len();
        for b in 0..nb { let mode = if mode0 == 7 { g.below(7) } else { mode0 };
            let co = &mut im.comps[c].co[b];
            let dc = match g.below(4) { 0 => 0, 1 => g.range(0, 2047) as i32 - 1024, _ => g.range(0, 600) as i32 - 300 };
            co[0] = dc / q[0] as i32;
            let sp = |g: &mut G, m: i32| -> i32 { match g.below(5) { 0 => g.pick(&[1, -1]), 1 => g.range(0, 2 * m as usize) as i32 - m, 2 => g.pick(&[2, 3, 4, 7, 8, -2, -3, -4, -7, -8]), _ => g.range(0, 20) as i32 - 10 } };
            match mode { 0 => {}
                1 => for i in 1..g.range(1, 10) { co[i] = sp(g, 100); },
                2 => for _ in 0..3 { let i = g.range(1, 63); co[i] = sp(g, 200); },
                3 => for i in 1..64 { co[i] = sp(g, 20); },
                4 => { co[g.range(1, 63)] = sp(g, 500); }
                5 => { for y in 0..4 { for x in 0..4 { let k = ZZ.iter().position(|z| *z == y * 8 + x).unwrap(); if k > 0 { co[k] = sp(g, 60); } } } }
                _ => { co[63] = sp(g, 60); for i in 1..64 { if g.chance(1, 6) { co[i] = sp(g, 30); } } } }
        } }
}
// ---- running the decoder --------------------------------------------------------------------
fn run(g: &mut G, f: &[u8], cs: ColorSpace, simd: bool, w: usize, h: usize) -> Result<Vec<u8>, String> {
    let o = DecoderOptions::default().jpeg_set_out_colorspace(cs).set_use_unsafe(simd).set_strict_mode(true);
    let mut d = JpegDecoder::new_with_options(ZCursor::new(f), o);
    d.decode_headers().map_err(|e| format!("headers: {e:?}"))?;
    if d.dimensions() != Some((w, h)) { return Err(format!("dimensions {:?}", d.dimensions())); }
    let n = w * h * cs.num_components();
    if d.output_buffer_size() != Some(n) { return Err(format!("output_buffer_size {:?} expected {n}", d.output_buffer_size())); }
    let extra = g.below(40); let fillb = g.u8();
    let mut out = vec![fillb; n + extra];
    d.decode_into(&mut out).map_err(|e| format!("decode ({cs:?} simd={simd}): {e:?}"))?;
    if out[n..].iter().any(|x| *x != fillb) { return Err(format!("{cs:?} simd={simd}: wrote behind the image")); }
    out.truncate(n); Ok(out)
}
fn both(g: &mut G, f: &[u8], cs: ColorSpace, w: usize, h: usize) -> Result<Vec<u8>, String> {
    let a = run(g, f, cs, true, w, h)?; let b = run(g, f, cs, false, w, h)?;
    diff(&format!("{cs:?}: SIMD output against scalar output"), &a, &b)?; Ok(b)
}
fn near(what: &str, got: u8, want: f64, tol: f64) -> Result<(), String> {
    let w = want.clamp(0.0, 255.0);
    if (got as f64 - w).abs() > tol { return Err(format!("{what}: {got} but the exact value is {w:.3}")); } Ok(())
}
fn describe(g: &mut G, im: &Img, o: &Opt, f: &[u8]) {
    g.note(&format!("w={} h={} samp={:?} prog={} ri={} adobe={:?}", im.w, im.h, im.comps.iter().map(|c| (c.h, c.v)).collect::<Vec<_>>(), o.prog, o.ri, o.adobe)); g.note_bytes("file", f);
}
fn opt(g: &mut G, prog: bool) -> Opt { Opt { prog, ri: if g.chance(1, 3) { g.range(1, 9) } else { 0 }, noninter: false, adobe: None, jfif: g.chance(1, 2), padff: false } }

fn idct(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let q = rq(g); let mut im = Img::new(w, h, &[(1, 1)], vec![q]);
    fill(g, &mut im); limit(&mut im, 4000.0);
    let o = opt(g, false); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    check_gray(g, &im, &f)
}
fn check_gray(g: &mut G, im: &Img, f: &[u8]) -> Result<(), String> {
    let (w, h) = (im.w, im.h);
    let out = both(g, f, ColorSpace::Luma, w, h)?; let p = im.plane(0);
    for y in 0..h { for x in 0..w { near(&format!("sample ({x},{y}) coefficients {:?}", im.comps[0].co[(y / 8) * im.comps[0].bw + x / 8]), out[y * w + x], p[y * im.comps[0].bw * 8 + x], 1.0)?; } }
    let rgb = both(g, f, ColorSpace::RGB, w, h)?;
    diff("Luma to RGB", &rgb, &out.iter().flat_map(|x| [*x; 3]).collect::<Vec<_>>())?;
    let rgba = both(g, f, ColorSpace::RGBA, w, h)?;
    diff("Luma to RGBA", &rgba, &out.iter().flat_map(|x| [*x, *x, *x, 255]).collect::<Vec<_>>())
}
/// one coefficient block: every shortcut must agree with the general transform; all DC values
fn dc_sweep(g: &mut G) -> Result<(), String> {
    let w = 8 * g.range(1, 16); let q1 = [1u16; 64];
    let mut im = Img::new(w, 8, &[(1, 1)], vec![q1]);
    for b in im.comps[0].co.iter_mut() { b[0] = g.range(0, 2046) as i32 - 1023; if g.chance(1, 3) { let k = g.range(1, 63); b[k] = g.pick(&[1, -1, 2, -2, 3]); } }
    let o = opt(g, false); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    check_gray(g, &im, &f)
}
fn idct_color(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let q = vec![rq(g), rq(g)]; let mut im = Img::new(w, h, &[(1, 1); 3], q);
    fill(g, &mut im); limit(&mut im, 4000.0);
    let prog = g.chance(1, 4); let o = opt(g, prog); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let out = both(g, &f, ColorSpace::YCbCr, w, h)?;
    for c in 0..3 { let p = im.plane(c); for y in 0..h { for x in 0..w { near(&format!("component {c} sample ({x},{y})"), out[(y * w + x) * 3 + c], p[y * im.comps[c].bw * 8 + x], 1.0)?; } } }
    let gr = both(g, &f, ColorSpace::Luma, w, h)?;
    diff("Luma output is the Y component", &gr, &out.chunks(3).map(|c| c[0]).collect::<Vec<_>>())
}
/// extreme coefficients: no accuracy claim, but total, clamped (u8), same with and without SIMD, and only the image written
fn extreme(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let mut q = rq(g); if g.chance(1, 2) { for x in q.iter_mut() { if g.chance(1, 4) { *x = g.pick(&[255, 256, 1000, 32767, 65535]); } } }
    let mut im = Img::new(w, h, &[(1, 1)], vec![q]);
    let full = g.chance(1, 2);
    for b in im.comps[0].co.iter_mut() { for i in 0..64 { if full || g.chance(1, 4) { b[i] = match g.below(4) { 0 => 1023, 1 => -1023, 2 => 0, _ => g.range(0, 2046) as i32 - 1023 }; } } }
    let o = opt(g, false); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let wide = q.iter().enumerate().any(|(i, x)| im.comps[0].co.iter().any(|b| (b[i] * *x as i32).abs() > 32767));
    let a = run(g, &f, ColorSpace::Luma, false, w, h)?;
    let b = run(g, &f, ColorSpace::Luma, true, w, h)?;
    if !wide { diff("SIMD output against scalar output", &b, &a)?; }
    // blocks whose exact value is far outside 0..255 everywhere must be clamped to the right side
    let p = im.plane(0); let bw = im.comps[0].bw * 8;
    let en: Vec<i64> = im.comps[0].co.iter().map(|b| (0..64).map(|i| (b[i] as i64 * q[i] as i64).abs()).sum::<i64>()).collect();
    for y in 0..h { for x in 0..w { let e = en[(y / 8) * im.comps[0].bw + x / 8]; if e < 60000 { near(&format!("sample ({x},{y}) coefficients {:?}", im.comps[0].co[(y / 8) * im.comps[0].bw + x / 8]), a[y * w + x], p[y * bw + x], 1.0 + e as f64 / 10000.0)?; } } }
    Ok(())
}
fn jfif(y: f64, cb: f64, cr: f64) -> [f64; 3] { [y + 1.402 * (cr - 128.0), y - 0.344136286 * (cb - 128.0) - 0.714136286 * (cr - 128.0), y + 1.772 * (cb - 128.0)] }
fn check_color(g: &mut G, w: usize, h: usize, f: &[u8]) -> Result<Vec<u8>, String> {
    let ycc = both(g, f, ColorSpace::YCbCr, w, h)?;
    let mut rgb = vec![];
    for (cs, order) in [(ColorSpace::RGB, [0usize, 1, 2, 9]), (ColorSpace::RGBA, [0, 1, 2, 3]), (ColorSpace::BGR, [2, 1, 0, 9]), (ColorSpace::BGRA, [2, 1, 0, 3])] {
        let o = both(g, f, cs, w, h)?; let n = cs.num_components();
        for (i, p) in o.chunks(n).enumerate() { let v = &ycc[i * 3..i * 3 + 3]; let e = jfif(v[0] as f64, v[1] as f64, v[2] as f64);
            for c in 0..3 { near(&format!("{cs:?} pixel {i} channel {c} of YCbCr {v:?}"), p[order[c]], e[c], 0.52)?; }
            if n == 4 && p[3] != 255 { return Err(format!("{cs:?} alpha of pixel {i} is {}", p[3])); } }
        if cs == ColorSpace::RGB { rgb = o; } else { let t: Vec<u8> = o.chunks(n).flat_map(|p| [p[order[0]], p[order[1]], p[order[2]]]).collect(); diff(&format!("{cs:?} against RGB"), &t, &rgb)?; }
    }
    Ok(ycc)
}
fn color(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim() * g.pick(&[1, 1, 2, 5]), g.dim());
    let samp = g.pick(&[[(1, 1), (1, 1), (1, 1)], [(1, 1), (1, 1), (1, 1)], [(2, 1), (1, 1), (1, 1)], [(1, 2), (1, 1), (1, 1)], [(2, 2), (1, 1), (1, 1)]]);
    let q1 = [1u16; 64]; let mut im = Img::new(w, h, &samp, vec![q1, q1]);
    let flat = g.chance(1, 2);
    for c in im.comps.iter_mut() { for b in c.co.iter_mut() { b[0] = match g.below(4) { 0 => -1023, 1 => 1016, _ => 8 * (g.u8() as i32 - 128) }; if !flat { for _ in 0..4 { b[g.range(1, 63)] = g.range(0, 400) as i32 - 200; } } } }
    let prog = g.chance(1, 4); let o = opt(g, prog); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let ycc = check_color(g, w, h, &f)?;
    // the luma plane is never resampled
    let p = im.plane(0); for y in 0..h { for x in 0..w { near(&format!("Y sample ({x},{y})"), ycc[(y * w + x) * 3], p[y * im.comps[0].bw * 8 + x], 2.0)?; } }
    for c in 1..3 { let p = im.plane(c); let k = &im.comps[c]; let (hs, vs) = (im.hm / k.h, im.vm / k.v);
        let (cw, ch) = ((w * k.h).div_ceil(im.hm), (h * k.v).div_ceil(im.vm)); let _ = (cw, ch);
        for y in 0..h { for x in 0..w { let got = ycc[(y * w + x) * 3 + c] as f64; let (cx, cy) = (x / hs, y / vs);
            let mut lo = f64::MAX; let mut hi = f64::MIN;
            for yy in cy.saturating_sub((vs > 1) as usize)..=(cy + (vs > 1) as usize).min(k.bh * 8 - 1) { for xx in cx.saturating_sub((hs > 1) as usize)..=(cx + (hs > 1) as usize).min(k.bw * 8 - 1) { let s = p[yy * k.bw * 8 + xx].clamp(0.0, 255.0); lo = lo.min(s); hi = hi.max(s); } }
            if got < lo - 2.0 || got > hi + 2.0 { return Err(format!("component {c} at ({x},{y}) is {got}, outside {lo:.2}..{hi:.2} of its neighbourhood")); } } } }
    Ok(())
}
/// sweep the whole (Y,Cb,Cr) cube: quant 1, DC only blocks, exact samples known
fn color_sweep(g: &mut G) -> Result<(), String> {
    let w = 8 * g.range(1, 24); let q1 = [1u16; 64]; let mut im = Img::new(w, 8, &[(1, 1); 3], vec![q1, q1]);
    let mut want = vec![];
    for b in 0..w / 8 { let mut p = [0u8; 3]; for c in 0..3 { p[c] = if g.chance(1, 3) { g.pick(&[0, 1, 127, 128, 129, 254, 255]) } else { g.u8() }; im.comps[c].co[b][0] = 8 * (p[c] as i32 - 128); } want.push(p); }
    let o = opt(g, false); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let ycc = check_color(g, w, 8, &f)?;
    for (i, p) in ycc.chunks(3).enumerate() { if p != want[(i % w) / 8] { return Err(format!("pixel {i}: YCbCr {p:?} but coded {:?}", want[(i % w) / 8])); } }
    Ok(())
}
fn gray(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim() * 3, g.dim()); let q1 = [1u16; 64]; let samp = g.pick(&[(1, 1), (2, 1), (1, 2), (2, 2)]);
    let mut im = Img::new(w, h, &[samp, (1, 1), (1, 1)], vec![q1, q1]); fill(g, &mut im); limit(&mut im, 4000.0);
    let prog = g.chance(1, 4); let o = opt(g, prog); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let out = both(g, &f, ColorSpace::Luma, w, h)?; let p = im.plane(0);
    for y in 0..h { for x in 0..w { near(&format!("luma ({x},{y})"), out[y * w + x], p[y * im.comps[0].bw * 8 + x], 1.0)?; } } Ok(())
}
fn huff(g: &mut G) -> Result<(), String> { huff_any(g, false) }
fn huff_prog(g: &mut G) -> Result<(), String> { huff_any(g, true) }
fn huff_any(g: &mut G, prog: bool) -> Result<(), String> {
    let (w, h) = (g.dim(), g.dim());
    let n = g.pick(&[1usize, 1, 3]);
    let q = vec![rq(g), rq(g)]; let mut samp = vec![(1, 1); n];
    if n == 3 && g.chance(1, 2) { samp[0] = g.pick(&[(2, 1), (1, 2), (2, 2)]); }
    let subs = samp[0] != (1, 1);
    let mut im = Img::new(w, h, &samp, if n == 1 { vec![q[0]] } else { q });
    fill(g, &mut im); limit(&mut im, 6000.0);
    let mut o = opt(g, prog); o.noninter = !prog && n == 3 && g.chance(1, 4); let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let cs = if n == 1 { ColorSpace::Luma } else { ColorSpace::YCbCr };
    let out = both(g, &f, cs, w, h)?;
    for c in 0..n { if subs && c > 0 { continue; } let p = im.plane(c); for y in 0..h { for x in 0..w { near(&format!("component {c} sample ({x},{y})"), out[(y * w + x) * n + c], p[y * im.comps[c].bw * 8 + x], 1.0)?; } } }
    Ok(())
}
/// many blocks, few of them with coefficients: end-of-band runs of every length class up to 2^10 and more, first and refining scans
fn eob_runs(g: &mut G) -> Result<(), String> {
    let (w, h) = (8 * g.range(40, 320) - g.below(8), 8 * g.range(1, 6) - g.below(8));
    let mut q = [1u16; 64]; q.fill(g.pick(&[1u16, 3, 10])); let mut im = Img::new(w, h, &[(1, 1)], vec![q]);
    let nb = im.comps[0].co.len(); let dens = g.pick(&[2usize, 5, 12]);
    for b in im.comps[0].co.iter_mut() { b[0] = g.range(0, 60) as i32 - 30; }
    for _ in 0..dens { let b = g.below(nb); for _ in 0..g.range(1, 5) { let k = g.range(1, 63); im.comps[0].co[b][k] = g.pick(&[1, -1, 2, -2, 3, -3, 5, -7, 9]); } }
    let mut o = opt(g, true); o.ri = if g.chance(1, 4) { g.range(200, 600) } else { 0 }; let f = encode(g, &im, &o); describe(g, &im, &o, &f);
    let out = both(g, &f, ColorSpace::Luma, w, h)?; let p = im.plane(0);
    for y in 0..h { for x in 0..w { near(&format!("sample ({x},{y})"), out[y * w + x], p[y * im.comps[0].bw * 8 + x], 1.0)?; } }
    Ok(())
}
/// DHT segments with arbitrary counts: over-subscribed ones must be refused
fn dht(g: &mut G) -> Result<(), String> {
    let q1 = [1u16; 64]; let mut im = Img::new(8, 8, &[(1, 1)], vec![q1]); im.comps[0].co[0][0] = 16;
    let o = opt(g, false); let f = encode(g, &im, &o);
    let mut counts = [0u8; 16]; let mut left = 1i64; let mut over = false; let mut total = 0usize;
    let mode = g.below(3);
    for l in 0..16 { left *= 2; let m = match mode { 0 => g.below(3) as i64, 1 => if g.chance(1, 2) { g.below((left.min(40) + 1) as usize) as i64 } else { 0 }, _ => if left > 0 && left <= 40 && g.chance(1, 6) { left + g.below(2) as i64 } else { g.below(2) as i64 } };
        let m = m.min(256 - total as i64).max(0); counts[l] = m as u8; total += m as usize; left -= m; if left < 0 { over = true; } }
    let mut d = vec![g.pick(&[0u8, 1, 16, 17])]; d.extend(counts);
    let dc = d[0] < 16;
    let syms: Vec<u8> = (0..total).map(|i| if dc { (i % 12) as u8 } else { i as u8 }).collect(); d.extend(&syms);
    let mut s = vec![]; seg(&mut s, 0xC4, &d);
    let mut nf = f[..2].to_vec(); nf.extend(&s); nf.extend(&f[2..]);
    g.note(&format!("counts={counts:?}")); g.note_bytes("file", &nf);
    let mut dcd = JpegDecoder::new_with_options(ZCursor::new(&nf), DecoderOptions::default());
    let r = dcd.decode_headers();
    if over && r.is_ok() { return Err(format!("over-subscribed code lengths {counts:?} accepted")); }
    // a code that leaves the all-ones word of 16 bits free is valid
    if !over && left > 0 && total > 0 { if let Err(e) = r { return Err(format!("valid code lengths {counts:?} rejected: {e:?}")); } }
    Ok(())
}
/// out of range DC coefficients and quantisers never crash
fn dcrange(g: &mut G) -> Result<(), String> {
    let mut v = vec![0xFFu8, 0xD8, 0xFF, 0xDB, 0, 131, 0x10]; let q = g.pick(&[0xFFFFu16, 0x8000, 0x7FFF, 255]); for _ in 0..64 { v.extend(q.to_be_bytes()); }
    let cat = g.pick(&[15u8, 14, 12]); let acv = g.pick(&[0u8, 0x0F, 0xFF]);
    v.extend([0xFF, 0xC4, 0, 20, 0x00, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, cat]); v.extend([0xFF, 0xC4, 0, 20, 0x10, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, acv]);
    let n = g.range(1, 5); v.extend([0xFF, if g.chance(1, 4) { 0xC2 } else { 0xC0 }, 0, 11, 8, 0, 8, 0, (8 * n) as u8, 1, 1, 0x11, 0]);
    v.extend([0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0]);
    let one = g.chance(2, 3); let mut bits: Vec<u8> = vec![]; for _ in 0..n { bits.push(0); for _ in 0..cat { bits.push(if one { 1 } else { g.below(2) as u8 }); } bits.push(0); for _ in 0..(acv & 15) { bits.push(1); } }
    while bits.len() % 8 != 0 { bits.push(1); }
    for c in bits.chunks(8) { let b = c.iter().fold(0u8, |a, x| a << 1 | x); v.push(b); if b == 255 { v.push(0); } }
    v.extend([0xFF, 0xD9]); g.note_bytes("file", &v);
    let mut d = JpegDecoder::new_with_options(ZCursor::new(&v), DecoderOptions::default()); let _ = d.decode(); Ok(())
}
fn limits(g: &mut G) -> Result<(), String> {
    let (w, h) = (g.dim() * 3, g.dim() * 3); let (mw, mh) = (if g.chance(1, 3) { w } else { g.range(1, 100) }, if g.chance(1, 3) { h } else { g.range(1, 100) });
    let q1 = [1u16; 64]; let n = g.pick(&[1usize, 3]); let im = Img::new(w, h, &vec![(1, 1); n], vec![q1]);
    let prog = g.chance(1, 3); let o = opt(g, prog); let f = encode(g, &im, &o); g.note(&format!("{w}x{h} max {mw}x{mh}")); g.note_bytes("file", &f);
    let mut d = JpegDecoder::new_with_options(ZCursor::new(&f), DecoderOptions::default().set_max_width(mw).set_max_height(mh));
    let want = w <= mw && h <= mh;
    match d.decode_headers() { Ok(()) if !want => Err(format!("{w}x{h} accepted with limits {mw}x{mh}")), Err(e) if want => Err(format!("{w}x{h} rejected with limits {mw}x{mh}: {e:?}")), _ => Ok(()) }
}
