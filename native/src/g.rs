pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// Generator of one case: deterministic in (seed,size).
pub struct G { s: u64, pub size: u32, pub desc: String, pub hash: u64, pub trivial: bool }
#[allow(dead_code)]
impl G {
    pub fn new(seed: u64, size: u32) -> G { G { s: seed, size, desc: String::new(), hash: 0, trivial: false } }
    pub fn u64(&mut self) -> u64 { self.s = self.s.wrapping_add(0x9E3779B97F4A7C15); mix(self.s) }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn u16(&mut self) -> u16 { self.u64() as u16 }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den as usize) < num as usize }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
    pub fn note(&mut self, s: &str) { self.hash = s.bytes().fold(self.hash, |h, b| mix(h ^ b as u64)); if self.desc.len() < 6000 { self.desc.push_str(s); self.desc.push(' '); } }
    pub fn note_bytes(&mut self, name: &str, b: &[u8]) {
        let mut h = self.hash; for x in b { h = mix(h ^ *x as u64); } self.hash = h;
        let mut s = format!("{name}[{}]=", b.len()); for x in b.iter().take(600) { s.push_str(&format!("{x:02x}")); } if b.len() > 600 { s.push_str(".."); }
        if self.desc.len() < 6000 { self.desc.push_str(&s); self.desc.push(' '); }
    }
    /// a byte with "interesting" bias
    pub fn b(&mut self) -> u8 { match self.below(6) { 0 => 0, 1 => 255, 2 => self.pick(&[1u8, 2, 127, 128, 129, 254, 9, 10, 13, 32, 35]), _ => self.u8() } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(6);
        let pal: Vec<u8> = (0..4).map(|_| self.b()).collect();
        let c = self.b();
        let mut cur = self.u8();
        (0..n).map(|_| match mode {
            0 => self.u8(), 1 => c, 2 => self.pick(&pal), 3 => { let d = self.below(5) as i16 - 2; cur = (cur as i16 + d) as u8; cur } 4 => self.b(),
            _ => { if self.chance(1, 6) { cur = self.b(); } cur } }).collect()
    }
    /// dims biased towards small, scaled by size
    pub fn dim(&mut self) -> usize { let m = 1 + self.size as usize; match self.below(4) { 0 => self.range(1, 3), 1 => self.range(1, m.min(9)), _ => self.range(1, m) } }
}
#[allow(dead_code)]
pub fn hex(b: &[u8]) -> String { b.iter().take(200).map(|x| format!("{x:02x}")).collect() }
#[allow(dead_code)]
pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{what}: length {} but expected {}", got.len(), want.len())); }
    for i in 0..got.len() { if got[i] != want[i] { return Err(format!("{what}: index {i} is {:?} but expected {:?}", got[i], want[i])); } }
    Ok(())
}

/// A sink that refuses one write (the k-th): Ok may only be returned when every byte arrived.
pub struct Flaky { pub out: Vec<u8>, left: usize, pub failed: bool }
impl Flaky { pub fn new(k: usize) -> Flaky { Flaky { out: vec![], left: k, failed: false } } }
impl std::io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !self.failed { self.failed = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink refused")); }
        self.left = self.left.saturating_sub(1);
        self.out.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// run an encoder against a sink that refuses write number k; `good` is what it writes into a sink that accepts everything
pub fn flaky_check(k: usize, good: &[u8], enc: impl FnOnce(&mut Flaky) -> Result<(), String>) -> Result<(), String> {
    let mut f = Flaky::new(k);
    match enc(&mut f) {
        Ok(()) => { if f.out != good { return Err(format!("Ok though the sink refused write {k}: {} of {} bytes arrived", f.out.len(), good.len())); } Ok(()) }
        Err(e) if !f.failed => Err(format!("error though the sink accepted everything: {e}")),
        Err(_) => Ok(()),
    }
}
/// a limit close to a dimension
pub fn near(g: &mut G, d: usize) -> usize { match g.below(5) { 0 => d, 1 => d - 1, 2 => d + 1, 3 => g.below(d.max(1)), _ => d + g.below(1000) } }
/// header and full decoding must accept exactly the images within the limits
pub fn limit_check(w: usize, h: usize, mw: usize, mh: usize, header: Result<(), String>, full: Result<(), String>) -> Result<(), String> {
    let ok = w <= mw && h <= mh;
    for (n, r) in [("header", header), ("decode", full)] {
        match r { Ok(()) if !ok => return Err(format!("{n}: {w}x{h} accepted with limits {mw}x{mh}")), Err(e) if ok => return Err(format!("{n}: {w}x{h} rejected with limits {mw}x{mh}: {e}")), _ => {} }
    }
    Ok(())
}
/// Known findings: `known(tag, ..)` is a failure unless the tag was listed on the command line (--known a,b), then it is counted and the case passes.
pub static KNOWN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
pub static HITS: std::sync::Mutex<std::collections::BTreeMap<String, (u64, String)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
#[allow(dead_code)]
pub fn known(tag: &str, detail: &str) -> Result<(), String> {
    if !KNOWN.lock().unwrap().iter().any(|t| t == tag) { return Err(format!("[{tag}] {detail}")); }
    HITS.lock().unwrap().entry(tag.to_string()).or_insert((0, detail.to_string())).0 += 1;
    Ok(())
}
