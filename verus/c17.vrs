//@include prelude.inc
// ===== C17: inverse DCT =====
//@const crates/zune-jpeg/src/idct/scalar.rs :: SCALE_BITS
//@spec
    ensures SCALE_BITS == 512 + 65536 + 128 * 131072,
//@at begin
    proof { assert((128i32 << 17) == 16777216) by(bit_vector); }
//@end
/// two's complement wrapping to 32 bits
#[verifier::opaque] pub open spec fn wr(x: int) -> int { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }
pub proof fn lemma_wr(x: int, y: int, k: int) requires x == y + k * 0x1_0000_0000 ensures wr(x) == wr(y) { reveal(wr); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, y + 0x8000_0000, 0x1_0000_0000); }
/// what wr(x) is short of x
pub proof fn lemma_k(x: int) -> (k: int) ensures x == wr(x) + k * 0x1_0000_0000 { reveal(wr); (x + 0x8000_0000) / 0x1_0000_0000 }
pub proof fn lemma_id(x: i32) ensures wr(x as int) == x { reveal(wr); }
pub proof fn lemma_small(x: int) requires -0x8000_0000 <= x < 0x8000_0000 ensures wr(x) == x { reveal(wr); }
pub proof fn lemma_rng(x: int) ensures -0x8000_0000 <= wr(x) < 0x8000_0000 { reveal(wr); }
#[verifier::opaque] pub open spec fn w_add(a: int, b: int) -> int { wr(a + b) }
#[verifier::opaque] pub open spec fn w_sub(a: int, b: int) -> int { wr(a - b) }
#[verifier::opaque] pub open spec fn w_mul(a: int, b: int) -> int { wr(a * b) }
pub broadcast proof fn b_add(x: int, y: int) ensures #[trigger] w_add(wr(x), wr(y)) == wr(x + y) { reveal(w_add); let k = lemma_k(x); let l = lemma_k(y); lemma_wr(x + y, wr(x) + wr(y), k + l); }
pub broadcast proof fn b_sub(x: int, y: int) ensures #[trigger] w_sub(wr(x), wr(y)) == wr(x - y) { reveal(w_sub); let k = lemma_k(x); let l = lemma_k(y); lemma_wr(x - y, wr(x) - wr(y), k - l); }
pub broadcast proof fn b_mul(x: int, c: int) ensures #[trigger] w_mul(wr(x), c) == wr(x * c) { reveal(w_mul); let k = lemma_k(x); assert((wr(x) + k * 0x1_0000_0000) * c == wr(x) * c + (k * c) * 0x1_0000_0000) by(nonlinear_arith); lemma_wr(x * c, wr(x) * c, k * c); }
pub proof fn lemma_sh10(x: i32) ensures (x >> 10) == (x as int) / 1024 { assert((x >> 10) * 1024 <= x && x < (x >> 10) * 1024 + 1024) by(bit_vector); }
pub proof fn lemma_sh17(x: i32) ensures (x >> 17) == (x as int) / 131072 { assert((x >> 17) * 131072 <= x && x < (x >> 17) * 131072 + 131072) by(bit_vector); }
pub proof fn lemma_sh3(x: i32) ensures (x >> 3) == (x as int) / 8 { assert((x >> 3) * 8 <= x && x < (x >> 3) * 8 + 8) by(bit_vector); }
// ---- the transform: one dimensional passes as linear forms with 12 bit coefficients (rounded 4096 * cosines) ----
pub open spec fn t3e(s: Seq<int>) -> int { 2217 * (s[2] + s[6]) + 3135 * s[2] }
pub open spec fn t2e(s: Seq<int>) -> int { 2217 * (s[2] + s[6]) - 7567 * s[6] }
pub open spec fn p5o(s: Seq<int>) -> int { 4816 * (s[7] + s[3] + s[5] + s[1]) }
pub open spec fn ev(k: int, s: Seq<int>) -> int { if k == 0 { 4096 * (s[0] + s[4]) + t3e(s) } else if k == 1 { 4096 * (s[0] - s[4]) + t2e(s) } else if k == 2 { 4096 * (s[0] - s[4]) - t2e(s) } else { 4096 * (s[0] + s[4]) - t3e(s) } }
pub open spec fn od(k: int, s: Seq<int>) -> int {
    if k == 0 { 6149 * s[1] + p5o(s) - 3685 * (s[7] + s[1]) - 1597 * (s[5] + s[1]) } else if k == 1 { 12586 * s[3] + p5o(s) - 10497 * (s[5] + s[3]) - 8034 * (s[7] + s[3]) }
    else if k == 2 { 8410 * s[5] + p5o(s) - 10497 * (s[5] + s[3]) - 1597 * (s[5] + s[1]) } else { 1223 * s[7] + p5o(s) - 3685 * (s[7] + s[1]) - 8034 * (s[7] + s[3]) } }
/// output `k` of the pass over the eight values `s`, before rounding
pub open spec fn lin(k: int, s: Seq<int>) -> int { if k < 4 { ev(k, s) + od(k, s) } else { ev(7 - k, s) - od(7 - k, s) } }
pub open spec fn col(b: Seq<i32>, p: int) -> Seq<int> { Seq::new(8, |j: int| b[p + 8 * j] as int) }
pub open spec fn row(m: Seq<int>, r: int) -> Seq<int> { Seq::new(8, |j: int| m[8 * r + j]) }
pub open spec fn vpass(b: Seq<i32>, k: int, p: int) -> int { wr(lin(k, col(b, p)) + 512) / 1024 }
pub open spec fn mid(b: Seq<i32>) -> Seq<int> { Seq::new(64, |j: int| vpass(b, j / 8, j % 8)) }
pub open spec fn clampi(x: int) -> int { if x < 0 { 0 } else if x > 255 { 255 } else { x } }
pub open spec fn hpass(s: Seq<int>, k: int) -> int { clampi(wr(lin(k, s) + (512 + 65536 + 128 * 131072)) / 131072) }
/// sample at row r, column c of the block of coefficients b
pub open spec fn idct(b: Seq<i32>, r: int, c: int) -> int { hpass(row(mid(b), r), c) }
pub open spec fn in_blk(x: int, stride: int, n: int) -> bool { exists|r: int| 0 <= r < n && #[trigger] (r * stride) <= x < r * stride + 8 }
pub open spec fn cell(o: Seq<i16>, stride: int, r: int, c: int) -> i16 { o[r * stride + c] }
/// the first n rows of the block are done and nothing else is touched
pub open spec fn blk(o: Seq<i16>, o0: Seq<i16>, stride: int, n: int, f: spec_fn(int, int) -> int) -> bool { o.len() == o0.len() && (forall|r: int, c: int| 0 <= r < n && 0 <= c < 8 ==> #[trigger] cell(o, stride, r, c) == f(r, c)) && (forall|x: int| 0 <= x < o.len() && !in_blk(x, stride, n) ==> #[trigger] o[x] == o0[x]) }
pub proof fn lemma_row(o: Seq<i16>, o1: Seq<i16>, o0: Seq<i16>, stride: int, n: int, f: spec_fn(int, int) -> int)
    requires blk(o1, o0, stride, n, f), n >= 0, stride >= 8, n * stride + 8 <= o0.len(), o.len() == o0.len(), forall|x: int| 0 <= x < o.len() && !(n * stride <= x < n * stride + 8) ==> #[trigger] o[x] == o1[x], forall|c: int| 0 <= c < 8 ==> #[trigger] cell(o, stride, n, c) == f(n, c),
    ensures blk(o, o0, stride, n + 1, f),
{
    assert forall|r: int, c: int| 0 <= r < n + 1 && 0 <= c < 8 implies #[trigger] cell(o, stride, r, c) == f(r, c) by { if r < n { assert(r * stride + stride <= n * stride && 0 <= r * stride) by(nonlinear_arith) requires 0 <= r, r + 1 <= n, stride >= 8; assert(cell(o1, stride, r, c) == f(r, c)); assert(o[r * stride + c] == o1[r * stride + c]); } }
    assert forall|x: int| 0 <= x < o.len() && !in_blk(x, stride, n + 1) implies #[trigger] o[x] == o0[x] by {
        assert(!in_blk(x, stride, n)) by { if in_blk(x, stride, n) { let r = choose|r: int| 0 <= r < n && #[trigger] (r * stride) <= x < r * stride + 8; assert(0 <= r < n + 1 && (r * stride) <= x < r * stride + 8); assert(in_blk(x, stride, n + 1)); } }
        assert(!(n * stride <= x < n * stride + 8)) by { if n * stride <= x < n * stride + 8 { assert(in_blk(x, stride, n + 1)); } }
    }
}
pub proof fn lemma_blk0(o: Seq<i16>, stride: int, f: spec_fn(int, int) -> int) ensures blk(o, o, stride, 0, f) {}
//@fn crates/zune-jpeg/src/idct/scalar.rs :: wa
//@ret r
//@spec
    ensures r == w_add(a as int, b as int),
//@at begin
    proof { reveal(w_add); reveal(wr); }
//@end
//@fn crates/zune-jpeg/src/idct/scalar.rs :: ws
//@ret r
//@spec
    ensures r == w_sub(a as int, b as int),
//@at begin
    proof { reveal(w_sub); reveal(wr); }
//@end
//@fn crates/zune-jpeg/src/idct/scalar.rs :: wm
//@ret r
//@spec
    ensures r == w_mul(a as int, b as int),
//@at begin
    proof { reveal(w_mul); reveal(wr); }
//@end
//@fn crates/zune-jpeg/src/idct/scalar.rs :: fsh
//@ret r
//@spec
    ensures r == w_mul(x as int, 4096),
//@at begin
    proof {
        assert(({ let z = ((x as i64) * 4096) as i64; let y = (x << 12) as i64; let k = ((z - y) as i64) >> 32; z == y + k * 0x1_0000_0000 && z == x * 4096 })) by(bit_vector);
        let z = ((x as i64) * 4096) as i64; let y = (x << 12) as i64; let k = ((z - y) as i64) >> 32;
        reveal(w_mul); lemma_wr(x * 4096, (x << 12) as int, k as int); lemma_id((x << 12));
    }
//@end
//@fn crates/zune-jpeg/src/idct/scalar.rs :: clamp
//@ret r
//@sub a.clamp(0, 255) => vx_clamp(a, 0, 255)
//@spec
    ensures r == clampi(a as int),
//@end
pub fn vx_clamp(a: i32, lo: i32, hi: i32) -> (r: i32) requires lo <= hi ensures r == (if a < lo { lo } else if a > hi { hi } else { a }) { if a < lo { lo } else if a > hi { hi } else { a } }
/// [T]::fill
pub fn vx_fill<T: Copy>(s: &mut [T], v: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> final(s)@[i] == v {
    let n = s.len(); let mut i: usize = 0;
    while i < n invariant i <= n, n == s@.len(), n == old(s)@.len(), forall|j: int| 0 <= j < i ==> s@[j] == v, decreases n - i { s[i] = v; i += 1; } }
pub fn vx_allz(s: &[i32]) -> (r: bool) ensures r == (forall|i: int| 0 <= i < s@.len() ==> s@[i] == 0) { let mut i: usize = 0; while i < s.len() invariant i <= s.len(), forall|j: int| 0 <= j < i ==> s@[j] == 0, decreases s.len() - i { if s[i] != 0 { return false; } i += 1; } true }
//TRUST: f2f(1.175875602) is 4816 (floating point; the bounded part compares both passes with a reference transform)
#[verifier::external_body] pub fn vx_f2f() -> (r: i32) ensures r == 4816 { unimplemented!() }
pub open spec fn dc_only(b: Seq<i32>) -> bool { forall|i: int| 1 <= i < 64 ==> b[i] == 0 }
pub open spec fn dc_val(b: Seq<i32>) -> int { clampi(wr(b[0] as int + 1028) / 8) }
//@fn crates/zune-jpeg/src/idct/scalar.rs :: idct_int_1x1
//@sig
    fn idct_int_1x1(in_vector: &mut [i32; 64], out_vector: &mut [i16], stride: usize)
//@sub (wa(wa(in_vector[0], 4), 1024) >> 3).clamp(0, 255) => vx_clamp(wa(wa(in_vector[0], 4), 1024) >> 3, 0, 255)
//@sub out_vector[..8].fill(coeff) => vx_fill(&mut out_vector[vx_off..vx_off + 8], coeff)
//@sub out_vector = &mut out_vector[stride..] => vx_off = vx_off + stride
//@spec
    requires stride >= 8, 7 * stride + 8 <= old(out_vector)@.len(), 8 * stride <= usize::MAX,
    ensures final(in_vector)@ == old(in_vector)@, blk(final(out_vector)@, old(out_vector)@, stride as int, 8, |r: int, c: int| dc_val(old(in_vector)@)),
//@at begin
    let mut vx_off: usize = 0; let ghost f = |r: int, c: int| dc_val(in_vector@); broadcast use {b_add, b_sub, b_mul};
    let ghost o0 = out_vector@;
    proof { lemma_id(in_vector@[0]); lemma_id(4); lemma_id(1024); assert(w_add(w_add(in_vector@[0] as int, 4), 1024) == wr(in_vector@[0] as int + 1028)); }
//@at after let coeff
    proof { lemma_sh3(wr(in_vector@[0] as int + 1028) as i32); lemma_rng(in_vector@[0] as int + 1028); assert(coeff == dc_val(in_vector@)); lemma_blk0(o0, stride as int, f); }
//@at before loop 0
    proof { lemma_row(out_vector@, o0, o0, stride as int, 0, f); }
//@loop 0
    in_vector@ == old(in_vector)@, f == (|r: int, c: int| dc_val(old(in_vector)@)), coeff == dc_val(old(in_vector)@), o0 == old(out_vector)@, stride >= 8, 8 * stride <= usize::MAX, 7 * stride + 8 <= o0.len(), out_vector@.len() == o0.len(), vx_off == vx_i0 * stride, 0 <= vx_i0 <= 7, vx_c0 == 7, blk(out_vector@, o0, stride as int, vx_i0 + 1, f),
//@at loop 0 body
    let ghost o1 = out_vector@; proof { assert((vx_k0 + 1) * stride == vx_k0 * stride + stride && (vx_k0 + 1) * stride <= 7 * stride) by(nonlinear_arith) requires 0 <= vx_k0 < 7, stride >= 8; }
//@at loop 0 end
    proof { lemma_row(out_vector@, o1, o0, stride as int, vx_i0 as int, f); }
//@end
// ==== blocks
pub open spec fn fidct(b: Seq<i32>) -> spec_fn(int, int) -> int { |r: int, c: int| idct(b, r, c) }
pub proof fn lemma_dc(b: Seq<i32>) requires b.len() == 64, dc_only(b), -65536 <= b[0] <= 65536, ensures forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 ==> #[trigger] idct(b, r, c) == dc_val(b) {
    assert forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 implies #[trigger] idct(b, r, c) == dc_val(b) by {
        let d = b[0] as int;
        assert forall|x: int| 0 <= x < 64 implies #[trigger] mid(b)[x] == (if x % 8 == 0 { 4 * d } else { 0 }) by {
            let s = col(b, x % 8); let k = x / 8; assert(forall|j: int| 1 <= j < 8 ==> #[trigger] s[j] == 0); assert(s[0] == (if x % 8 == 0 { d } else { 0 }));
            assert(lin(k, s) == 4096 * s[0]); lemma_small(4096 * s[0] + 512);
        }
        let s = row(mid(b), r); assert(s[0] == 4 * d); assert(forall|j: int| 1 <= j < 8 ==> #[trigger] s[j] == 0); assert(lin(c, s) == 16384 * d); lemma_small(16384 * d + 16843264); lemma_small(d + 1028);
    }
}
//@fn crates/zune-jpeg/src/idct/scalar.rs :: idct_int
//@sig
    fn idct_int(in_vector: &mut [i32; 64], out_vector: &mut [i16], stride: usize)
//@sub &in_vector[1..] == &[0_i32; 63] => vx_allz(&in_vector[1..])
//@sub f2f(1.175875602) => vx_f2f()
//@sub let mut pos = 0; => let mut pos: usize = 0;
//@sub let mut i = 0; => let mut i: usize = 0;
//@sub let out: &mut [i16; 8] = out_vector.get_mut(pos..pos + 8).unwrap().try_into().unwrap(); => let out = &mut out_vector[pos..pos + 8];
//@spec
    requires stride >= 8, 7 * stride + 8 <= old(out_vector)@.len(), 8 * stride <= usize::MAX,
    ensures final(out_vector)@.len() == old(out_vector)@.len(), dc_only(old(in_vector)@) ==> final(in_vector)@ == old(in_vector)@,
        !dc_only(old(in_vector)@) || -65536 <= old(in_vector)@[0] <= 65536 ==> blk(final(out_vector)@, old(out_vector)@, stride as int, 8, fidct(old(in_vector)@)),
        dc_only(old(in_vector)@) ==> blk(final(out_vector)@, old(out_vector)@, stride as int, 8, |r: int, c: int| dc_val(old(in_vector)@)),
//@at begin
    let ghost b = in_vector@; let ghost o0 = out_vector@; broadcast use {b_add, b_sub, b_mul};
    proof { if dc_only(b) && -65536 <= b[0] <= 65536 { lemma_dc(b); } assert(dc_only(b) == (forall|i: int| 0 <= i < 63 ==> #[trigger] b.subrange(1, 64)[i] == 0)) by { if forall|i: int| 0 <= i < 63 ==> #[trigger] b.subrange(1, 64)[i] == 0 { assert forall|i: int| 1 <= i < 64 implies b[i] == 0 by { assert(b.subrange(1, 64)[i - 1] == 0); } } } }
//@loop 0
    b == old(in_vector)@, o0 == old(out_vector)@, out_vector@ == o0, vx_c0 == 8, i == 0, pos == 0, vx_r0lo == 0, !dc_only(b),
    forall|r: int, p: int| 0 <= r < 8 && 0 <= p < 8 ==> #[trigger] in_vector@[8 * r + p] == (if p < vx_i0 { vpass(b, r, p) } else { b[8 * r + p] as int }),
//@at loop 0 body
    broadcast use {b_add, b_sub, b_mul};
    let ghost v0 = in_vector@; let ghost s = col(b, ptr as int); let ghost (s0, s1, s2, s3, s4, s5, s6, s7) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    proof { assert(v0[8 * 0 + ptr] == s0); assert(v0[8 * 1 + ptr] == s1); assert(v0[8 * 2 + ptr] == s2); assert(v0[8 * 3 + ptr] == s3); assert(v0[8 * 4 + ptr] == s4); assert(v0[8 * 5 + ptr] == s5); assert(v0[8 * 6 + ptr] == s6); assert(v0[8 * 7 + ptr] == s7); }
//@at loop 0 end
    proof {
        lemma_id(s0 as i32); lemma_id(s1 as i32); lemma_id(s2 as i32); lemma_id(s3 as i32); lemma_id(s4 as i32); lemma_id(s5 as i32); lemma_id(s6 as i32); lemma_id(s7 as i32); lemma_small(512); lemma_small(0); lemma_small(16843264);
        assert(w_add(s2, s6) == wr(s2 + s6)); assert(w_mul(w_add(s2, s6), 2217) == wr(2217 * (s2 + s6))); assert(w_mul(s6, -7567) == wr(-7567 * s6)); assert(w_mul(s2, 3135) == wr(3135 * s2));
        assert(w_add(w_mul(w_add(s2, s6), 2217), w_mul(s2, 3135)) == wr(t3e(s))); assert(w_add(w_mul(w_add(s2, s6), 2217), w_mul(s6, -7567)) == wr(t2e(s)));
        assert(w_mul(w_add(s0, s4), 4096) == wr(4096 * (s0 + s4))); assert(w_mul(w_sub(s0, s4), 4096) == wr(4096 * (s0 - s4)));
        assert(w_add(w_mul(w_add(s0, s4), 4096), wr(t3e(s))) == wr(ev(0, s))); assert(w_sub(w_mul(w_add(s0, s4), 4096), wr(t3e(s))) == wr(ev(3, s))); assert(w_add(w_mul(w_sub(s0, s4), 4096), wr(t2e(s))) == wr(ev(1, s))); assert(w_sub(w_mul(w_sub(s0, s4), 4096), wr(t2e(s))) == wr(ev(2, s)));
        assert(x0 == wr(ev(0, s) + 512)); assert(x1 == wr(ev(1, s) + 512)); assert(x2 == wr(ev(2, s) + 512)); assert(x3 == wr(ev(3, s) + 512));
        assert(w_add(w_add(s7, s3), w_add(s5, s1)) == wr(s7 + s3 + s5 + s1)); assert(p5 == wr(p5o(s)));
        assert(p1 == wr(p5o(s) - 3685 * (s7 + s1))); assert(p2 == wr(p5o(s) - 10497 * (s5 + s3))); assert(p3 == wr(-8034 * (s7 + s3))); assert(p4 == wr(-1597 * (s5 + s1)));
        assert(w_mul(s1, 6149) == wr(6149 * s1)); assert(w_mul(s3, 12586) == wr(12586 * s3)); assert(w_mul(s5, 8410) == wr(8410 * s5)); assert(w_mul(s7, 1223) == wr(1223 * s7));
        assert(w_add(p1 as int, p4 as int) == wr(p5o(s) - 3685 * (s7 + s1) - 1597 * (s5 + s1))); assert(w_add(p2 as int, p3 as int) == wr(p5o(s) - 10497 * (s5 + s3) - 8034 * (s7 + s3))); assert(w_add(p2 as int, p4 as int) == wr(p5o(s) - 10497 * (s5 + s3) - 1597 * (s5 + s1))); assert(w_add(p1 as int, p3 as int) == wr(p5o(s) - 3685 * (s7 + s1) - 8034 * (s7 + s3)));
        assert(t3 == wr(od(0, s))); assert(t2 == wr(od(1, s))); assert(t1 == wr(od(2, s))); assert(t0 == wr(od(3, s)));
        assert(w_sub(w_add(x0 as int, t3 as int), 0) == wr(lin(0, s) + 512)); assert(w_sub(w_add(x1 as int, t2 as int), 0) == wr(lin(1, s) + 512)); assert(w_sub(w_add(x2 as int, t1 as int), 0) == wr(lin(2, s) + 512)); assert(w_sub(w_add(x3 as int, t0 as int), 0) == wr(lin(3, s) + 512)); assert(w_sub(w_sub(x3 as int, t0 as int), 0) == wr(lin(4, s) + 512)); assert(w_sub(w_sub(x2 as int, t1 as int), 0) == wr(lin(5, s) + 512)); assert(w_sub(w_sub(x1 as int, t2 as int), 0) == wr(lin(6, s) + 512)); assert(w_sub(w_sub(x0 as int, t3 as int), 0) == wr(lin(7, s) + 512));
        lemma_rng(lin(0, s) + 512); lemma_sh10(wr(lin(0, s) + 512) as i32); lemma_rng(lin(1, s) + 512); lemma_sh10(wr(lin(1, s) + 512) as i32); lemma_rng(lin(2, s) + 512); lemma_sh10(wr(lin(2, s) + 512) as i32); lemma_rng(lin(3, s) + 512); lemma_sh10(wr(lin(3, s) + 512) as i32); lemma_rng(lin(4, s) + 512); lemma_sh10(wr(lin(4, s) + 512) as i32); lemma_rng(lin(5, s) + 512); lemma_sh10(wr(lin(5, s) + 512) as i32); lemma_rng(lin(6, s) + 512); lemma_sh10(wr(lin(6, s) + 512) as i32); lemma_rng(lin(7, s) + 512); lemma_sh10(wr(lin(7, s) + 512) as i32);
        assert forall|r: int, p: int| 0 <= r < 8 && 0 <= p < 8 implies #[trigger] in_vector@[8 * r + p] == (if p < vx_i0 { vpass(b, r, p) } else { b[8 * r + p] as int }) by { if p != ptr { assert(in_vector@[8 * r + p] == v0[8 * r + p]); } }
    }
//@at before loop 1
    proof { assert(i == 0 && pos == 0); assert((i / 8) * stride == 0) by(nonlinear_arith) requires i == 0; lemma_blk0(o0, stride as int, fidct(b)); assert forall|x: int| 0 <= x < 64 implies #[trigger] in_vector@[x] == mid(b)[x] by { assert(in_vector@[8 * (x / 8) + x % 8] == vpass(b, x / 8, x % 8)); } }
//@loop 1
    invariant b == old(in_vector)@, o0 == old(out_vector)@, out_vector@.len() == o0.len(), stride >= 8, 7 * stride + 8 <= o0.len(), 8 * stride <= usize::MAX, i % 8 == 0, i <= 64, pos == (i / 8) * stride, blk(out_vector@, o0, stride as int, i as int / 8, fidct(b)), !dc_only(b),
    forall|x: int| 0 <= x < 64 ==> #[trigger] in_vector@[x] == mid(b)[x],
    decreases 64 - i,
//@at loop 1 body
    broadcast use {b_add, b_sub, b_mul};
    let ghost o1 = out_vector@; let ghost n = i as int / 8; let ghost s = row(mid(b), n); let ghost (s0, s1, s2, s3, s4, s5, s6, s7) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    proof { assert((n + 1) * stride == n * stride + stride && n * stride <= 7 * stride && 0 <= n * stride) by(nonlinear_arith) requires 0 <= n < 8, stride >= 8; assert(in_vector@[i + 0] == s0); assert(in_vector@[i + 1] == s1); assert(in_vector@[i + 2] == s2); assert(in_vector@[i + 3] == s3); assert(in_vector@[i + 4] == s4); assert(in_vector@[i + 5] == s5); assert(in_vector@[i + 6] == s6); assert(in_vector@[i + 7] == s7); }
//@at loop 1 end
    proof {
        lemma_id(s0 as i32); lemma_id(s1 as i32); lemma_id(s2 as i32); lemma_id(s3 as i32); lemma_id(s4 as i32); lemma_id(s5 as i32); lemma_id(s6 as i32); lemma_id(s7 as i32); lemma_small(512); lemma_small(0); lemma_small(16843264);
        assert(w_add(s2, s6) == wr(s2 + s6)); assert(w_mul(w_add(s2, s6), 2217) == wr(2217 * (s2 + s6))); assert(w_mul(s6, -7567) == wr(-7567 * s6)); assert(w_mul(s2, 3135) == wr(3135 * s2));
        assert(w_add(w_mul(w_add(s2, s6), 2217), w_mul(s2, 3135)) == wr(t3e(s))); assert(w_add(w_mul(w_add(s2, s6), 2217), w_mul(s6, -7567)) == wr(t2e(s)));
        assert(w_mul(w_add(s0, s4), 4096) == wr(4096 * (s0 + s4))); assert(w_mul(w_sub(s0, s4), 4096) == wr(4096 * (s0 - s4)));
        assert(w_add(w_mul(w_add(s0, s4), 4096), wr(t3e(s))) == wr(ev(0, s))); assert(w_sub(w_mul(w_add(s0, s4), 4096), wr(t3e(s))) == wr(ev(3, s))); assert(w_add(w_mul(w_sub(s0, s4), 4096), wr(t2e(s))) == wr(ev(1, s))); assert(w_sub(w_mul(w_sub(s0, s4), 4096), wr(t2e(s))) == wr(ev(2, s)));
        assert(x0 == wr(ev(0, s) + (512 + 65536 + 128 * 131072))); assert(x1 == wr(ev(1, s) + (512 + 65536 + 128 * 131072))); assert(x2 == wr(ev(2, s) + (512 + 65536 + 128 * 131072))); assert(x3 == wr(ev(3, s) + (512 + 65536 + 128 * 131072)));
        assert(w_add(w_add(s7, s3), w_add(s5, s1)) == wr(s7 + s3 + s5 + s1)); assert(p5 == wr(p5o(s)));
        assert(p1 == wr(p5o(s) - 3685 * (s7 + s1))); assert(p2 == wr(p5o(s) - 10497 * (s5 + s3))); assert(p3 == wr(-8034 * (s7 + s3))); assert(p4 == wr(-1597 * (s5 + s1)));
        assert(w_mul(s1, 6149) == wr(6149 * s1)); assert(w_mul(s3, 12586) == wr(12586 * s3)); assert(w_mul(s5, 8410) == wr(8410 * s5)); assert(w_mul(s7, 1223) == wr(1223 * s7));
        assert(w_add(p1 as int, p4 as int) == wr(p5o(s) - 3685 * (s7 + s1) - 1597 * (s5 + s1))); assert(w_add(p2 as int, p3 as int) == wr(p5o(s) - 10497 * (s5 + s3) - 8034 * (s7 + s3))); assert(w_add(p2 as int, p4 as int) == wr(p5o(s) - 10497 * (s5 + s3) - 1597 * (s5 + s1))); assert(w_add(p1 as int, p3 as int) == wr(p5o(s) - 3685 * (s7 + s1) - 8034 * (s7 + s3)));
        assert(t3 == wr(od(0, s))); assert(t2 == wr(od(1, s))); assert(t1 == wr(od(2, s))); assert(t0 == wr(od(3, s)));
        assert(w_add(x0 as int, t3 as int) == wr(lin(0, s) + (512 + 65536 + 128 * 131072))); assert(w_add(x1 as int, t2 as int) == wr(lin(1, s) + (512 + 65536 + 128 * 131072))); assert(w_add(x2 as int, t1 as int) == wr(lin(2, s) + (512 + 65536 + 128 * 131072))); assert(w_add(x3 as int, t0 as int) == wr(lin(3, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x3 as int, t0 as int) == wr(lin(4, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x2 as int, t1 as int) == wr(lin(5, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x1 as int, t2 as int) == wr(lin(6, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x0 as int, t3 as int) == wr(lin(7, s) + (512 + 65536 + 128 * 131072)));
        lemma_rng(lin(0, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(0, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(1, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(1, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(2, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(2, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(3, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(3, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(4, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(4, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(5, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(5, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(6, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(6, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(7, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(7, s) + (512 + 65536 + 128 * 131072)) as i32);
        assert forall|c: int| 0 <= c < 8 implies #[trigger] cell(out_vector@, stride as int, n, c) == fidct(b)(n, c) by { assert(fidct(b)(n, c) == hpass(s, c)); }
        lemma_row(out_vector@, o1, o0, stride as int, n, fidct(b));
    }
//@end
/// only the upper left 4x4 coefficients are set
pub open spec fn small4(b: Seq<i32>) -> bool { forall|r: int, p: int| 0 <= r < 8 && 0 <= p < 8 && (r >= 4 || p >= 4) ==> #[trigger] b[8 * r + p] == 0 }
pub proof fn lemma_col0(b: Seq<i32>, r: int, p: int) requires b.len() == 64, small4(b), 0 <= r < 8, 4 <= p < 8, ensures vpass(b, r, p) == 0 { let s = col(b, p); assert forall|j: int| 0 <= j < 8 implies #[trigger] s[j] == 0 by { assert(b[8 * j + p] == 0); } assert(lin(r, s) == 0); lemma_small(512); }
/// what the caller relies on after a block that had only the upper left 4x4 coefficients
pub open spec fn lower_clear(b: Seq<i32>) -> bool { forall|x: int| 32 <= x < 64 ==> #[trigger] b[x] == 0 }
//@fn crates/zune-jpeg/src/idct/scalar.rs :: idct4x4
//@sig
    fn idct4x4(in_vector: &mut [i32; 64], out_vector: &mut [i16], stride: usize)
//@sub f2f(1.175875602) => vx_f2f()
//@sub let mut pos = 0; => let mut pos: usize = 0;
//@sub let out: &mut [i16; 8] = out_vector.get_mut(pos..pos + 8).unwrap().try_into().unwrap(); => let out = &mut out_vector[pos..pos + 8];
//@sub in_vector[32..36].fill(0) => vx_fill(&mut in_vector[32..36], 0)
//@sub in_vector[40..44].fill(0) => vx_fill(&mut in_vector[40..44], 0)
//@sub in_vector[48..52].fill(0) => vx_fill(&mut in_vector[48..52], 0)
//@sub in_vector[56..60].fill(0) => vx_fill(&mut in_vector[56..60], 0)
//@spec
    requires stride >= 8, 7 * stride + 8 <= old(out_vector)@.len(), 8 * stride <= usize::MAX, small4(old(in_vector)@),
    ensures blk(final(out_vector)@, old(out_vector)@, stride as int, 8, fidct(old(in_vector)@)), lower_clear(final(in_vector)@),
//@at begin
    let ghost b = in_vector@; let ghost o0 = out_vector@; broadcast use {b_add, b_sub, b_mul};
//@loop 0
    b == old(in_vector)@, o0 == old(out_vector)@, out_vector@ == o0, vx_c0 == 4, pos == 0, vx_r0lo == 0, small4(b),
    forall|r: int, p: int| 0 <= r < 8 && 0 <= p < 8 ==> #[trigger] in_vector@[8 * r + p] == (if p < vx_i0 { vpass(b, r, p) } else { b[8 * r + p] as int }),
//@at loop 0 body
    broadcast use {b_add, b_sub, b_mul};
    let ghost v0 = in_vector@; let ghost s = col(b, ptr as int); let ghost (s0, s1, s2, s3, s4, s5, s6, s7) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    proof { assert(v0[8 * 0 + ptr] == s0); assert(b[8 * 0 + ptr] == s0); assert(v0[8 * 1 + ptr] == s1); assert(b[8 * 1 + ptr] == s1); assert(v0[8 * 2 + ptr] == s2); assert(b[8 * 2 + ptr] == s2); assert(v0[8 * 3 + ptr] == s3); assert(b[8 * 3 + ptr] == s3); assert(v0[8 * 4 + ptr] == s4); assert(b[8 * 4 + ptr] == s4); assert(v0[8 * 5 + ptr] == s5); assert(b[8 * 5 + ptr] == s5); assert(v0[8 * 6 + ptr] == s6); assert(b[8 * 6 + ptr] == s6); assert(v0[8 * 7 + ptr] == s7); assert(b[8 * 7 + ptr] == s7); }
//@at loop 0 end
    proof {
        lemma_id(s0 as i32); lemma_id(s1 as i32); lemma_id(s2 as i32); lemma_id(s3 as i32); lemma_small(512); lemma_small(16843264); assert(s4 == 0 && s5 == 0 && s6 == 0 && s7 == 0);
        assert(w_mul(s0, 4096) == wr(4096 * s0)); assert(w_add(w_mul(s0, 4096), (512) as int) == wr(4096 * s0 + 512)); assert(w_mul(s2, 2217) == wr(2217 * s2)); assert(w_mul(s2, 5352) == wr(5352 * s2));
        assert(x0 == wr(ev(0, s) + 512)); assert(x1 == wr(ev(1, s) + 512)); assert(x2 == wr(ev(2, s) + 512)); assert(x3 == wr(ev(3, s) + 512));
        assert(p5o(s) == 4816 * (s3 + s1)); assert(w_add(s3, s1) == wr(s3 + s1)); assert(p5 == wr(p5o(s)));
        assert(w_mul(s1, -3685) == wr(-3685 * s1)); assert(w_mul(s3, -10497) == wr(-10497 * s3)); assert(p1 == wr(p5o(s) - 3685 * s1)); assert(p2 == wr(p5o(s) - 10497 * s3));
        assert(w_mul(s1, 867) == wr(867 * s1)); assert(w_mul(s3, -5945) == wr(-5945 * s3)); assert(w_mul(s1, -1597) == wr(-1597 * s1)); assert(w_mul(s3, -8034) == wr(-8034 * s3));
        assert(t3 == wr(p5o(s) + 867 * s1)); assert(t2 == wr(p5o(s) - 5945 * s3)); assert(t1 == wr(p5o(s) - 10497 * s3 - 1597 * s1)); assert(t0 == wr(p5o(s) - 3685 * s1 - 8034 * s3));
        assert(od(0, s) == p5o(s) + 867 * s1); 
        assert(od(1, s) == p5o(s) - 5945 * s3 ); assert(od(2, s) == p5o(s) - 10497 * s3 - 1597 * s1); assert(od(3, s) == p5o(s) - 3685 * s1 - 8034 * s3);
        assert(t3 == wr(od(0, s))); assert(t2 == wr(od(1, s))); assert(t1 == wr(od(2, s))); assert(t0 == wr(od(3, s)));
        assert(w_add(x0 as int, t3 as int) == wr(lin(0, s) + 512)); assert(w_add(x1 as int, t2 as int) == wr(lin(1, s) + 512)); assert(w_add(x2 as int, t1 as int) == wr(lin(2, s) + 512)); assert(w_add(x3 as int, t0 as int) == wr(lin(3, s) + 512)); assert(w_sub(x3 as int, t0 as int) == wr(lin(4, s) + 512)); assert(w_sub(x2 as int, t1 as int) == wr(lin(5, s) + 512)); assert(w_sub(x1 as int, t2 as int) == wr(lin(6, s) + 512)); assert(w_sub(x0 as int, t3 as int) == wr(lin(7, s) + 512));
        lemma_rng(lin(0, s) + 512); lemma_sh10(wr(lin(0, s) + 512) as i32); lemma_rng(lin(1, s) + 512); lemma_sh10(wr(lin(1, s) + 512) as i32); lemma_rng(lin(2, s) + 512); lemma_sh10(wr(lin(2, s) + 512) as i32); lemma_rng(lin(3, s) + 512); lemma_sh10(wr(lin(3, s) + 512) as i32); lemma_rng(lin(4, s) + 512); lemma_sh10(wr(lin(4, s) + 512) as i32); lemma_rng(lin(5, s) + 512); lemma_sh10(wr(lin(5, s) + 512) as i32); lemma_rng(lin(6, s) + 512); lemma_sh10(wr(lin(6, s) + 512) as i32); lemma_rng(lin(7, s) + 512); lemma_sh10(wr(lin(7, s) + 512) as i32);
        assert forall|r: int, p: int| 0 <= r < 8 && 0 <= p < 8 implies #[trigger] in_vector@[8 * r + p] == (if p < vx_i0 { vpass(b, r, p) } else { b[8 * r + p] as int }) by { if p != ptr { assert(in_vector@[8 * r + p] == v0[8 * r + p]); } }
    }
//@at before loop 1
    proof { lemma_blk0(o0, stride as int, fidct(b)); assert forall|x: int| 0 <= x < 64 implies #[trigger] in_vector@[x] == mid(b)[x] by { assert(in_vector@[8 * (x / 8) + x % 8] == mid(b)[x]) by { if x % 8 >= 4 { lemma_col0(b, x / 8, x % 8); assert(b[8 * (x / 8) + x % 8] == 0); } } }
        assert forall|r: int, p: int| 0 <= r < 8 && 4 <= p < 8 implies #[trigger] mid(b)[8 * r + p] == 0 by { lemma_col0(b, r, p); } }
//@loop 1
    b == old(in_vector)@, o0 == old(out_vector)@, out_vector@.len() == o0.len(), stride >= 8, 7 * stride + 8 <= o0.len(), 8 * stride <= usize::MAX, vx_c1 == 8, vx_r1lo == 0, pos == vx_i1 * stride, blk(out_vector@, o0, stride as int, vx_i1 as int, fidct(b)), small4(b), 
    forall|x: int| 0 <= x < 64 ==> #[trigger] in_vector@[x] == mid(b)[x], forall|r: int, p: int| 0 <= r < 8 && 4 <= p < 8 ==> #[trigger] mid(b)[8 * r + p] == 0,
//@at loop 1 body
    broadcast use {b_add, b_sub, b_mul};
    let ghost o1 = out_vector@; let ghost n = i as int / 8; let ghost s = row(mid(b), n); let ghost (s0, s1, s2, s3, s4, s5, s6, s7) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    proof { assert((n + 1) * stride == n * stride + stride && n * stride <= 7 * stride && 0 <= n * stride) by(nonlinear_arith) requires 0 <= n < 8, stride >= 8; assert(in_vector@[i + 0] == s0); assert(in_vector@[i + 1] == s1); assert(in_vector@[i + 2] == s2); assert(in_vector@[i + 3] == s3); assert(in_vector@[i + 4] == s4); assert(in_vector@[i + 5] == s5); assert(in_vector@[i + 6] == s6); assert(in_vector@[i + 7] == s7); assert(mid(b)[8 * n + 4] == 0 && mid(b)[8 * n + 5] == 0 && mid(b)[8 * n + 6] == 0 && mid(b)[8 * n + 7] == 0); }
//@at loop 1 end
    proof {
        lemma_id(s0 as i32); lemma_id(s1 as i32); lemma_id(s2 as i32); lemma_id(s3 as i32); lemma_small(512); lemma_small(16843264); assert(s4 == 0 && s5 == 0 && s6 == 0 && s7 == 0);
        assert(w_mul(s0, 4096) == wr(4096 * s0)); assert(w_add(w_mul(s0, 4096), ((512 + 65536 + 128 * 131072)) as int) == wr(4096 * s0 + (512 + 65536 + 128 * 131072))); assert(w_mul(s2, 2217) == wr(2217 * s2)); assert(w_mul(s2, 5352) == wr(5352 * s2));
        assert(x0 == wr(ev(0, s) + (512 + 65536 + 128 * 131072))); assert(x1 == wr(ev(1, s) + (512 + 65536 + 128 * 131072))); assert(x2 == wr(ev(2, s) + (512 + 65536 + 128 * 131072))); assert(x3 == wr(ev(3, s) + (512 + 65536 + 128 * 131072)));
        assert(p5o(s) == 4816 * (s3 + s1)); assert(w_add(s3, s1) == wr(s3 + s1)); assert(p5 == wr(p5o(s)));
        assert(w_mul(s1, -3685) == wr(-3685 * s1)); assert(w_mul(s3, -10497) == wr(-10497 * s3)); assert(p1 == wr(p5o(s) - 3685 * s1)); assert(p2 == wr(p5o(s) - 10497 * s3));
        assert(w_mul(s1, 867) == wr(867 * s1)); assert(w_mul(s3, -5945) == wr(-5945 * s3)); assert(w_mul(s1, -1597) == wr(-1597 * s1)); assert(w_mul(s3, -8034) == wr(-8034 * s3));
        assert(t3 == wr(p5o(s) + 867 * s1)); assert(t2 == wr(p5o(s) - 5945 * s3)); assert(t1 == wr(p5o(s) - 10497 * s3 - 1597 * s1)); assert(t0 == wr(p5o(s) - 3685 * s1 - 8034 * s3));
        assert(od(0, s) == p5o(s) + 867 * s1); 
        assert(od(1, s) == p5o(s) - 5945 * s3 ); assert(od(2, s) == p5o(s) - 10497 * s3 - 1597 * s1); assert(od(3, s) == p5o(s) - 3685 * s1 - 8034 * s3);
        assert(t3 == wr(od(0, s))); assert(t2 == wr(od(1, s))); assert(t1 == wr(od(2, s))); assert(t0 == wr(od(3, s)));
        assert(w_add(x0 as int, t3 as int) == wr(lin(0, s) + (512 + 65536 + 128 * 131072))); assert(w_add(x1 as int, t2 as int) == wr(lin(1, s) + (512 + 65536 + 128 * 131072))); assert(w_add(x2 as int, t1 as int) == wr(lin(2, s) + (512 + 65536 + 128 * 131072))); assert(w_add(x3 as int, t0 as int) == wr(lin(3, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x3 as int, t0 as int) == wr(lin(4, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x2 as int, t1 as int) == wr(lin(5, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x1 as int, t2 as int) == wr(lin(6, s) + (512 + 65536 + 128 * 131072))); assert(w_sub(x0 as int, t3 as int) == wr(lin(7, s) + (512 + 65536 + 128 * 131072)));
        lemma_rng(lin(0, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(0, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(1, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(1, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(2, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(2, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(3, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(3, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(4, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(4, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(5, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(5, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(6, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(6, s) + (512 + 65536 + 128 * 131072)) as i32); lemma_rng(lin(7, s) + (512 + 65536 + 128 * 131072)); lemma_sh17(wr(lin(7, s) + (512 + 65536 + 128 * 131072)) as i32);
        assert forall|c: int| 0 <= c < 8 implies #[trigger] cell(out_vector@, stride as int, n, c) == fidct(b)(n, c) by { assert(fidct(b)(n, c) == hpass(s, c)); }
        lemma_row(out_vector@, o1, o0, stride as int, n, fidct(b));
    }
//@at end
    proof { assert forall|x: int| 32 <= x < 64 implies #[trigger] in_vector@[x] == 0 by { if x % 8 >= 4 { assert(mid(b)[8 * (x / 8) + x % 8] == 0); } } }
//@end
//@include prelude_end.inc
