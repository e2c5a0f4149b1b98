//! C10/C11: DEFLATE, zlib, gzip. Streams are generated from RFC 1951 directly (tokens -> bits), so the
//! expected output is known by construction; miniz_oxide is a second, independent oracle.
use crate::g::*;
use crate::CaseFn;
use zune_inflate::{DeflateDecoder, DeflateEncoder, DeflateOptions};

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C10" { v.push(("inflate_generated_streams", gen)); v.push(("inflate_miniz_streams", mz)); v.push(("inflate_mutated", mutated)); v.push(("inflate_random_bytes", rnd)); v.push(("gzip_headers", gz)); }
    if p == "C11" { v.push(("zlib_encoder", enc)); v.push(("zlib_encoder_large", enc_large)); }
}
pub struct Bits { pub out: Vec<u8>, acc: u64, n: u32 }
impl Bits {
    pub fn new() -> Bits { Bits { out: vec![], acc: 0, n: 0 } }
    pub fn put(&mut self, v: u64, n: u32) { self.acc |= v << self.n; self.n += n; while self.n >= 8 { self.out.push(self.acc as u8); self.acc >>= 8; self.n -= 8; } }
    fn align(&mut self) { if self.n > 0 { self.out.push(self.acc as u8); self.acc = 0; self.n = 0; } }
    fn code(&mut self, c: u32, l: u32) { let mut r = 0u64; for i in 0..l { r |= ((c >> (l - 1 - i)) as u64 & 1) << i; } self.put(r, l); }
}
#[derive(Clone, Copy)]
enum T { L(u8), M(usize, usize) }
const LB: [(usize, u32); 29] = [(3,0),(4,0),(5,0),(6,0),(7,0),(8,0),(9,0),(10,0),(11,1),(13,1),(15,1),(17,1),(19,2),(23,2),(27,2),(31,2),(35,3),(43,3),(51,3),(59,3),(67,4),(83,4),(99,4),(115,4),(131,5),(163,5),(195,5),(227,5),(258,0)];
const DB: [(usize, u32); 30] = [(1,0),(2,0),(3,0),(4,0),(5,1),(7,1),(9,2),(13,2),(17,3),(25,3),(33,4),(49,4),(65,5),(97,5),(129,6),(193,6),(257,7),(385,7),(513,8),(769,8),(1025,9),(1537,9),(2049,10),(3073,10),(4097,11),(6145,11),(8193,12),(12289,12),(16385,13),(24577,13)];
fn lsym(g: &mut G, l: usize) -> (usize, u64, u32) { // length 258 may also be coded as 284 + 31
    if l == 258 { let _ = g; return (285, 0, 0); }
    let i = (0..29).rev().find(|i| LB[*i].0 <= l).unwrap(); (257 + i, (l - LB[i].0) as u64, LB[i].1) }
fn dsym(d: usize) -> (usize, u64, u32) { let i = (0..30).rev().find(|i| DB[*i].0 <= d).unwrap(); (i, (d - DB[i].0) as u64, DB[i].1) }
/// random complete prefix code over `syms` with lengths <= maxl
fn rand_lens(g: &mut G, n: usize, maxl: u8) -> Vec<u8> {
    let mut ls = vec![0u8];
    let deep = g.below(4);
    while ls.len() < n {
        let mut i = g.below(ls.len());
        if deep == 0 { i = ls.len() - 1; } else if deep == 1 { for _ in 0..3 { let j = g.below(ls.len()); if ls[j] < maxl && (ls[j] > ls[i] || ls[i] >= maxl) { i = j; } } }
        if ls[i] >= maxl { let c: Vec<usize> = (0..ls.len()).filter(|j| ls[*j] < maxl).collect(); i = g.pick(&c); }
        ls[i] += 1; let l = ls[i]; ls.push(l);
    }
    for i in (1..ls.len()).rev() { let j = g.below(i + 1); ls.swap(i, j); }
    ls
}
fn canon(lens: &[u8]) -> Vec<u32> {
    let mut bl = [0u32; 16]; for l in lens { bl[*l as usize] += 1; } bl[0] = 0;
    let mut next = [0u32; 17]; let mut code = 0; for b in 1..16 { code = (code + bl[b - 1]) << 1; next[b] = code; }
    lens.iter().map(|l| if *l == 0 { 0 } else { let c = next[*l as usize]; next[*l as usize] += 1; c }).collect()
}
fn emit(b: &mut Bits, g: &mut G, toks: &[T], ll: &[u8], dl: &[u8]) {
    let (lc, dc) = (canon(ll), canon(dl));
    for t in toks { match *t {
        T::L(x) => b.code(lc[x as usize], ll[x as usize] as u32),
        T::M(l, d) => { let (s, e, n) = lsym(g, l); b.code(lc[s], ll[s] as u32); b.put(e, n); let (s, e, n) = dsym(d); b.code(dc[s], dl[s] as u32); b.put(e, n); } } }
    b.code(lc[256], ll[256] as u32);
}
pub fn stream(g: &mut G) -> (Vec<u8>, Vec<u8>) {
    let mut out: Vec<u8> = vec![]; let mut b = Bits::new();
    let nblocks = g.range(1, 4);
    let mut info = String::new();
    for bi in 0..nblocks {
        let last = (bi + 1 == nblocks) as u64;
        let ty = g.pick(&[0u64, 1, 1, 2, 2, 2]);
        b.put(last, 1); b.put(ty, 2);
        let big = g.chance(1, 8);
        if ty == 0 {
            b.align(); let n = if big { g.below(65536) } else { g.below(8 * g.size as usize + 2) }; let d = g.bytes(n);
            b.out.extend((n as u16).to_le_bytes()); b.out.extend((!(n as u16)).to_le_bytes()); b.out.extend(&d); out.extend(&d); info += &format!("stored({n}) "); continue;
        }
        let nt = if big { g.below(4000) } else { g.below(g.size as usize * 6 + 2) };
        let pal: Vec<u8> = (0..g.pick(&[1usize, 2, 5, 40])).map(|_| g.u8()).collect();
        let mp = g.below(11) as u32; // match probability /10
        let dmode = g.below(6);
        let mut toks = vec![];
        for _ in 0..nt {
            if !out.is_empty() && g.chance(mp, 10) {
                let l = match g.below(5) { 0 => 258, 1 => g.range(3, 20), 2 => g.range(3, 10), 3 => g.range(250, 258), _ => g.range(3, 258) };
                let m = out.len().min(32768);
                let d = match dmode { 0 => 1, 1 => g.range(1, m.min(20)), 2 => m, 3 => g.range(1, m.min(4)), 4 => g.range(1, m.min(300)), _ => g.range(1, m) };
                for _ in 0..l { let x = out[out.len() - d]; out.push(x); } toks.push(T::M(l, d));
            } else { let x = g.pick(&pal); out.push(x); toks.push(T::L(x)); }
        }
        if ty == 1 {
            let ll: Vec<u8> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
            emit(&mut b, g, &toks, &ll, &[5u8; 32]); info += &format!("fixed({nt}) ");
        } else {
            let mut ul = vec![false; 286]; let mut ud = vec![false; 30]; ul[256] = true;
            for t in &toks { match *t { T::L(x) => ul[x as usize] = true, T::M(l, d) => { ul[lsym(g, l).0] = true; ud[dsym(d).0] = true; } } }
            let extra = g.pick(&[0usize, 1, 10, 200, 286]); for _ in 0..extra { ul[g.below(286)] = true; }
            if extra == 286 { ul.iter_mut().for_each(|x| *x = true); }
            let extra = g.pick(&[0usize, 0, 1, 10, 60]); for _ in 0..extra { ud[g.below(30)] = true; }
            let sl: Vec<usize> = (0..286).filter(|i| ul[*i]).collect(); let sd: Vec<usize> = (0..30).filter(|i| ud[*i]).collect();
            let mut ll = vec![0u8; 286]; let mut dl = vec![0u8; 30];
            let single_ok = sl.len() == 1; // only end of block: a one-symbol code of length 1 is what zlib accepts
            if single_ok { ll[256] = 1; if g.chance(1, 2) { ll[g.below(256)] = 1; } } else { let m = if sl.len() > 128 { 15 } else { g.pick(&[15u8, 15, 12, 9]) }; let m = m.max((sl.len() as f64).log2().ceil() as u8); for (s, l) in sl.iter().zip(rand_lens(g, sl.len(), m)) { ll[*s] = l; } }
            if sd.len() == 1 { dl[sd[0]] = 1; } else if sd.len() > 1 { let m = g.pick(&[15u8, 15, 9, 5]); for (s, l) in sd.iter().zip(rand_lens(g, sd.len(), m)) { dl[*s] = l; } }
            let mut nl = 286; while nl > 257 && ll[nl - 1] == 0 && g.chance(15, 16) { nl -= 1; }
            let mut nd = 30; while nd > 1 && dl[nd - 1] == 0 && g.chance(15, 16) { nd -= 1; }
            let seq: Vec<u8> = ll[..nl].iter().chain(dl[..nd].iter()).copied().collect();
            // code length symbols, run lengths may cross from litlen into distance lengths
            let mut cl: Vec<(usize, u64, u32)> = vec![]; let mut i = 0;
            while i < seq.len() {
                let mut r = 1; while i + r < seq.len() && seq[i + r] == seq[i] { r += 1; }
                if seq[i] == 0 && r >= 3 && g.chance(9, 10) { let k = g.range(3, r.min(138)); let k = if g.chance(3, 4) { r.min(138) } else { k }; if k >= 11 { cl.push((18, (k - 11) as u64, 7)); } else { cl.push((17, (k - 3) as u64, 3)); } i += k; continue; }
                if i > 0 && seq[i - 1] == seq[i] && r >= 3 && g.chance(9, 10) { let k = g.range(3, r.min(6)); cl.push((16, (k - 3) as u64, 2)); i += k; continue; }
                cl.push((seq[i] as usize, 0, 0)); i += 1;
            }
            let mut uc = vec![false; 19]; for c in &cl { uc[c.0] = true; } let sc: Vec<usize> = (0..19).filter(|i| uc[*i]).collect();
            let mut pl = vec![0u8; 19];
            if sc.len() == 1 { pl[sc[0]] = 1; let o = (sc[0] + 1) % 19; pl[o] = 1; } else { for (s, l) in sc.iter().zip(rand_lens(g, sc.len(), 7)) { pl[*s] = l; } }
            const ORD: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
            let mut nc = 19; while nc > 4 && pl[ORD[nc - 1]] == 0 { nc -= 1; }
            b.put((nl - 257) as u64, 5); b.put((nd - 1) as u64, 5); b.put((nc - 4) as u64, 4);
            for o in &ORD[..nc] { b.put(pl[*o] as u64, 3); }
            let pc = canon(&pl);
            for c in &cl { b.code(pc[c.0], pl[c.0] as u32); b.put(c.1, c.2); }
            emit(&mut b, g, &toks, &ll, &dl); info += &format!("dynamic({nt},hlit={nl},hdist={nd},hclen={nc}) ");
        }
    }
    b.align();
    g.note(&info); g.note_bytes("deflate", &b.out);
    (b.out, out)
}
pub fn adler(d: &[u8]) -> u32 { let (mut a, mut b) = (1u32, 0u32); for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; } b << 16 | a }
pub fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for x in d { c ^= *x as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; } } !c }
pub fn zlib_wrap(d: &[u8], raw: &[u8]) -> Vec<u8> { let mut v = vec![0x78, 0x9c]; v.extend(d); v.extend(adler(raw).to_be_bytes()); v }
fn opts(g: &mut G) -> DeflateOptions { let h = g.pick(&[0usize, 1, 100, 37000, 400000]); g.note(&format!("size_hint={h}")); DeflateOptions::default().set_size_hint(h) }
fn check_all(g: &mut G, d: &[u8], want: &[u8]) -> Result<(), String> {
    let o = opts(g);
    let r = DeflateDecoder::new_with_options(d, o).decode_deflate().map_err(|e| format!("decode_deflate rejected a valid stream: {:?}", e.error))?; diff("decode_deflate", &r, want)?;
    let mut z = zlib_wrap(d, want);
    let trail = g.below(12); let t = g.bytes(trail); if g.chance(1, 3) { z.extend(&t); }
    let r = DeflateDecoder::new_with_options(&z, o).decode_zlib().map_err(|e| format!("decode_zlib rejected a valid stream: {:?}", e.error))?; diff("decode_zlib", &r, want)?;
    // wrong adler
    let p = 2 + d.len() + g.below(4); z[p] ^= 1 << g.below(8);
    if DeflateDecoder::new_with_options(&z, o).decode_zlib().is_ok() { return Err("zlib stream with a wrong adler32 was accepted".into()); }
    let r = DeflateDecoder::new_with_options(&z, o.set_confirm_checksum(false)).decode_zlib().map_err(|e| format!("checksum off: {:?}", e.error))?; diff("decode_zlib nocheck", &r, want)?;
    let mut gz = vec![31, 139, 8, 0, 0, 0, 0, 0, 0, 255]; gz.extend(d); gz.extend(crc(want).to_le_bytes()); gz.extend((want.len() as u32).to_le_bytes());
    let r = DeflateDecoder::new_with_options(&gz, o).decode_gzip().map_err(|e| format!("decode_gzip rejected a valid stream: {:?}", e.error))?; diff("decode_gzip", &r, want)?;
    let p = 10 + d.len() + g.below(8); gz[p] ^= 1 << g.below(8);
    if DeflateDecoder::new_with_options(&gz, o).decode_gzip().is_ok() { return Err("gzip stream with a wrong crc32 or size was accepted".into()); }
    Ok(())
}
fn gen(g: &mut G) -> Result<(), String> {
    let (d, want) = stream(g);
    // the generator itself is checked against a second implementation
    match miniz_oxide::inflate::decompress_to_vec(&d) { Ok(m) => if m != want { return Err("GENERATOR disagrees with miniz".into()); }, Err(_) => { g.trivial = true; return Ok(()); } }
    check_all(g, &d, &want)?;
    // truncation never yields success
    let cut = g.below(d.len());
    if DeflateDecoder::new(&d[..cut]).decode_deflate().is_ok() && miniz_oxide::inflate::decompress_to_vec(&d[..cut]).is_err() { return Err(format!("stream truncated to {cut} bytes was accepted")); }
    // the limit stops runaway output (documented as best effort: slack of one stored block plus the input)
    let lim = g.below(want.len() + 1);
    if let Ok(o) = DeflateDecoder::new_with_options(&d, DeflateOptions::default().set_limit(lim)).decode_deflate() { if o.len() > lim + 65536 + d.len() { return Err(format!("limit {lim} but {} bytes were produced", o.len())); } }
    if DeflateDecoder::new_with_options(&d, DeflateOptions::default().set_limit(want.len())).decode_deflate().is_err() { return Err("output of exactly the limit was rejected".into()); }
    Ok(())
}
fn data(g: &mut G) -> Vec<u8> {
    let n = match g.below(6) { 0 => g.below(5), 1 => g.below(300_000 / 40 * g.size as usize + 1), _ => g.below(200 * g.size as usize + 1) };
    match g.below(3) { 0 => g.bytes(n), 1 => { let m = g.range(1, 64); let w = g.bytes(m); (0..n).map(|i| w[i % m]).collect() } _ => { let k = g.range(1, 50); let words: Vec<Vec<u8>> = (0..k).map(|_| { let l = g.range(1, 12); g.bytes(l) }).collect(); let mut v = vec![]; while v.len() < n { let w = g.below(k); v.extend(&words[w]); } v.truncate(n); v } }
}
fn mz(g: &mut G) -> Result<(), String> {
    let d = data(g); let lvl = g.below(10) as u8; g.note(&format!("miniz level {lvl}")); g.note_bytes("data", &d);
    let z = miniz_oxide::deflate::compress_to_vec(&d, lvl);
    check_all(g, &z, &d)
}
fn mutated(g: &mut G) -> Result<(), String> {
    let (mut d, _) = if g.chance(1, 3) { let x = data(g); (miniz_oxide::deflate::compress_to_vec(&x, 6), x) } else { stream(g) };
    for _ in 0..g.range(1, 4) { if d.is_empty() { break; } let m = d.len().min(if g.chance(1, 2) { 30 } else { usize::MAX }); let i = g.below(m); match g.below(3) { 0 => d[i] ^= 1 << g.below(8), 1 => d[i] = g.u8(), _ => { d.truncate(i); } } }
    g.note_bytes("mutated", &d);
    cmp(g, &d)
}
fn cmp(g: &mut G, d: &[u8]) -> Result<(), String> {
    let lim = g.pick(&[0usize, 100, 1 << 16, 1 << 22]);
    let r = DeflateDecoder::new_with_options(d, DeflateOptions::default().set_limit(lim)).decode_deflate();
    if let Ok(r) = &r { if r.len() > lim + 65536 + d.len() { return Err(format!("limit {lim} but {} bytes were produced", r.len())); } }
    let r = DeflateDecoder::new_with_options(d, DeflateOptions::default().set_limit(1 << 22)).decode_deflate();
    // the independent inflater is laxer about incomplete codes, so only streams both accept are compared
    if let (Ok(m), Ok(r)) = (miniz_oxide::inflate::decompress_to_vec_with_limit(d, 1 << 20), r) { diff("decode vs independent inflater", &r, &m)?; }
    let _ = DeflateDecoder::new(d).decode_zlib(); let _ = DeflateDecoder::new(d).decode_gzip();
    Ok(())
}
fn rnd(g: &mut G) -> Result<(), String> {
    let n = g.below(30 * g.size as usize + 1); let mut d = g.bytes(n);
    if !d.is_empty() && g.chance(2, 3) { d[0] = (d[0] & !7) | g.pick(&[0u8, 1, 2, 3, 4, 5]); }
    g.note_bytes("bytes", &d);
    let mut z = vec![0x78, 0x9c]; z.extend(&d); let _ = DeflateDecoder::new(&z).decode_zlib();
    let mut gz = vec![31, 139, 8, g.u8() & 0x1f, 0, 0, 0, 0, 0, 255]; gz.extend(&d); let _ = DeflateDecoder::new(&gz).decode_gzip();
    cmp(g, &d)
}
fn gz(g: &mut G) -> Result<(), String> {
    let (d, want) = stream(g);
    if miniz_oxide::inflate::decompress_to_vec(&d).is_err() { g.trivial = true; return Ok(()); }
    let flg = g.u8() & 0x1f;
    let mut v = vec![31, 139, 8, flg, g.u8(), 0, 0, 0, 0, 255];
    if flg & 4 != 0 { let n = g.below(300); v.extend((n as u16).to_le_bytes()); let e = g.bytes(n); v.extend(&e); }
    for f in [8, 16] { if flg & f != 0 { let n = g.below(20); let s: Vec<u8> = (0..n).map(|_| g.u8() | 1).collect(); v.extend(&s); v.push(0); } }
    if flg & 2 != 0 { let c = crc(&v) as u16; v.extend(c.to_le_bytes()); }
    v.extend(&d); v.extend(crc(&want).to_le_bytes()); v.extend((want.len() as u32).to_le_bytes());
    g.note_bytes("gzip", &v);
    let r = DeflateDecoder::new(&v).decode_gzip().map_err(|e| format!("valid gzip (flags {flg:#x}) rejected: {:?}", e.error))?;
    diff("decode_gzip", &r, &want)?;
    let cut = g.below(v.len()); if DeflateDecoder::new(&v[..cut]).decode_gzip().is_ok() { return Err(format!("gzip truncated to {cut} accepted")); }
    Ok(())
}
fn enc_of(d: &[u8]) -> Result<(), String> {
    let z = DeflateEncoder::new(d).encode_zlib();
    let m = miniz_oxide::inflate::decompress_to_vec_zlib(&z).map_err(|e| format!("the encoder's stream is not a valid zlib stream: {e:?}"))?; diff("independent inflater", &m, d)?;
    if z.len() < 4 || z[z.len() - 4..] != adler(d).to_be_bytes() { return Err("the stream does not end with the adler32 of the data".into()); }
    let r = DeflateDecoder::new(&z).decode_zlib().map_err(|e| format!("own decoder: {:?}", e.error))?; diff("own decoder", &r, d)
}
fn enc(g: &mut G) -> Result<(), String> { let d = data(g); g.note_bytes("data", &d); enc_of(&d) }
fn enc_large(g: &mut G) -> Result<(), String> { let k = g.range(0, 5); let n = (k * 65535 + g.pick(&[0usize, 1, 2, 65534])).saturating_sub(g.below(2)); let s = g.u8(); let d: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(s)).collect(); g.note(&format!("len={n} mul={s}")); enc_of(&d) }
