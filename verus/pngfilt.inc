// ===== C05: PNG scanline filters =====
// PNG specification, section 9: Filt/Recon relations. All arithmetic modulo 256.
pub open spec fn m8(x: int) -> int { x % 256 }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// The PaethPredictor of the PNG specification, literally.
pub open spec fn paeth_spec(a: int, b: int, c: int) -> int {
    let p = a + b - c;
    let pa = iabs(p - a); let pb = iabs(p - b); let pc = iabs(p - c);
    if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }
}
/// predictor: 1 Sub, 2 Up, 3 Average, 4 Paeth
pub open spec fn pred(ft: int, a: int, b: int, c: int) -> int {
    if ft == 1 { a } else if ft == 2 { b } else if ft == 3 { (a + b) / 2 } else if ft == 4 { paeth_spec(a, b, c) } else { 0 }
}
pub open spec fn at_or0(s: Seq<u8>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
/// byte i of the reconstructed row, in terms of the reconstructed bytes to its left
pub open spec fn recon_at(ft: int, filt: Seq<u8>, prev: Seq<u8>, cur: Seq<u8>, bpp: int, i: int) -> bool {
    cur[i] as int == m8(filt[i] as int + pred(ft, at_or0(cur, i - bpp), at_or0(prev, i), at_or0(prev, i - bpp)))
}
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn same_from(a: Seq<u8>, b: Seq<u8>, k: int) -> bool { a.len() == b.len() && forall|i: int| k <= i < a.len() ==> a[i] == b[i] }
pub proof fn lemma_avg(a: u8, b: u8)
    ensures (a & b) + ((a ^ b) >> 1) <= 255, ((a & b) + ((a ^ b) >> 1)) as int == (a as int + b as int) / 2,
{
    assert((a & b) as u16 + ((a ^ b) >> 1) as u16 == ((a as u16 + b as u16) / 2) as u16) by(bit_vector);
}
pub proof fn lemma_shr1(b: u8) ensures (b >> 1) as int == (b as int) / 2 { assert((b >> 1) == b / 2) by(bit_vector); }
pub proof fn lemma_m8_add(x: u8, y: u8) ensures (vstd::wrapping::u8_specs::wrapping_add(x, y)) as int == m8(x as int + y as int) { }

