//@include prelude.inc
// ===== C15: alpha premultiplication =====
/// r is num / den rounded to the nearest integer (den odd: no ties)
pub open spec fn rounds(r: int, num: int, den: int) -> bool { -den < 2 * (r * den - num) < den }
pub open spec fn unpre(c: int, a: int, max: int) -> int { if a == 0 { 0 } else { let q = (c * max + a / 2) / a; if q > max { max } else { q } } }
pub open spec fn recip(d: int) -> int { 0xFFFF_FFFF_FFFF_FFFFint / d + 1 }
/// the table entry for every alpha: 0 for 0, the reciprocal otherwise
pub open spec fn table_ok(t: Seq<u128>, n: int) -> bool { t.len() == n && t[0] == 0 && forall|i: int| 1 <= i < n ==> #[trigger] t[i] == recip(i) }

pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (_0: Result<T, E>, default: T) -> (r: T) ensures r == (match _0 { Ok(v) => v, Err(_) => default });
fn vx_u8_try_from(x: u32) -> (r: Result<u8, ()>) ensures r == (if x <= 255 { Ok::<u8, ()>(x as u8) } else { Err(()) }) { if x <= 255 { Ok(x as u8) } else { Err(()) } }
fn vx_u16_try_from(x: u32) -> (r: Result<u16, ()>) ensures r == (if x <= 65535 { Ok::<u16, ()>(x as u16) } else { Err(()) }) { if x <= 65535 { Ok(x as u16) } else { Err(()) } }
proof fn lemma_shr64(x: u128) ensures (x >> 64) as int == x as int / 0x1_0000_0000_0000_0000 {
    assert(x >> 64 == x / 0x1_0000_0000_0000_0000) by(bit_vector);
}
/// multiplication by the reciprocal is exact division, for every 32 bit numerator and every divisor up to 65535
pub proof fn theorem_fastdiv(a: int, d: int) requires 0 <= a <= 0xFFFF_FFFF, 1 <= d <= 0xFFFF ensures (recip(d) * a) / 0x1_0000_0000_0000_0000 == a / d, 0 < recip(d) <= 0x1_0000_0000_0000_0000 {
    let w = 0x1_0000_0000_0000_0000int; let k = (w - 1) / d; let m = k + 1;
    lemma_fundamental_div_mod(w - 1, d); lemma_mod_bound(w - 1, d);
    let e = d - 1 - (w - 1) % d;
    assert(m * d == w + e) by(nonlinear_arith) requires m == k + 1, d * k + (w - 1) % d == w - 1, e == d - 1 - (w - 1) % d;
    let q = a / d; let r = a % d; lemma_fundamental_div_mod(a, d); lemma_mod_bound(a, d); lemma_div_pos_is_pos(a, d);
    assert(m * a == q * w + q * e + m * r) by(nonlinear_arith) requires a == d * q + r, m * d == w + e;
    assert(m >= 0x1_0000_0000_0000) by { if m < 0x1_0000_0000_0000 { assert(m >= 0) by { lemma_div_pos_is_pos(w - 1, d); } assert(m * d <= 0xFFFF_FFFF_FFFF * 0xFFFF) by(nonlinear_arith) requires 0 <= m <= 0xFFFF_FFFF_FFFF, 0 <= d <= 0xFFFF; } }
    assert(m <= w) by { lemma_div_is_ordered_by_denominator(w - 1, 1, d); assert((w - 1) / 1 == w - 1); }
    assert(m * r <= w + e - m) by(nonlinear_arith) requires r <= d - 1, m * d == w + e, m >= 0;
    assert(q <= a) by(nonlinear_arith) requires a == d * q + r, d >= 1, r >= 0, q >= 0;
    assert(q * e + e <= a + d) by(nonlinear_arith) requires a == d * q + r, 0 <= e <= d - 1, q >= 0, r >= 0;
    assert(q * e >= 0) by(nonlinear_arith) requires q >= 0, e >= 0; assert(m * r >= 0) by(nonlinear_arith) requires m >= 0, r >= 0;
    lemma_fundamental_div_mod_converse(m * a, w, q, q * e + m * r);
}
proof fn lemma_pre16(x: u32, t: u32, r: int) requires x <= 65535 * 65535, t == x + 32768, r == (t as int + (t >> 16) as int) / 65536 ensures rounds(r, x as int, 65535), 0 <= r <= 65535 {
    let h = t >> 16; let l = t & 0xffff;
    assert(t == 65536 * h + l && l <= 65535 && h <= 65535) by(bit_vector) requires h == t >> 16, l == t & 0xffff;
    assert(r == if h + l < 65536 { h as int } else { h + 1 });
    assert(h <= 65534);
}
proof fn lemma_pre8(x: u16, t: u16, r: int) requires x <= 255 * 255, t == x + 128, r == (t as int + (t >> 8) as int) / 256 ensures rounds(r, x as int, 255), 0 <= r <= 255 {
    let h = t >> 8; let l = t & 0xff;
    assert(t == 256 * h + l && l <= 255 && h <= 255) by(bit_vector) requires h == t >> 8, l == t & 0xff;
    assert(r == if h + l < 256 { h as int } else { h + 1 });
    assert(h <= 254);
}
proof fn lemma_shr8(x: u16) ensures (x >> 8) as int == x as int / 256 { assert(x >> 8 == x / 256) by(bit_vector); }
proof fn lemma_shr16(x: u32) ensures (x >> 16) as int == x as int / 65536 { assert(x >> 16 == x / 65536) by(bit_vector); }

//@fn crates/zune-imageprocs/src/mathops.rs :: compute_mod_u32
//@ret r
//@spec
    requires d > 0
    ensures r == recip(d as int), 0 < r <= 0x1_0000_0000_0000_0000
//@at begin
    proof { lemma_div_is_ordered_by_denominator(0xFFFF_FFFF_FFFF_FFFFint, 1, d as int); assert(0xFFFF_FFFF_FFFF_FFFFint / 1 == 0xFFFF_FFFF_FFFF_FFFF); lemma_div_pos_is_pos(0xFFFF_FFFF_FFFF_FFFFint, d as int); }
//@end
//@fn crates/zune-imageprocs/src/mathops.rs :: fastdiv_u32
//@ret r
//@spec
    requires m <= 0x1_0000_0000_0000_0000
    ensures
        m == 0 ==> r == 0,
        forall|d: int| 1 <= d <= 0xFFFF && m == #[trigger] recip(d) ==> r as int == a as int / d
//@at begin
    proof {
        assert(m as int * a as int <= 0x1_0000_0000_0000_0000 * 0xFFFF_FFFF) by(nonlinear_arith) requires 0 <= m <= 0x1_0000_0000_0000_0000, 0 <= a <= 0xFFFF_FFFF; assert(m as int * a as int >= 0) by(nonlinear_arith) requires m >= 0, a >= 0;
        let p = (m as int * a as int) as u128; lemma_shr64(p); assert(m == 0 ==> p == 0);
        assert forall|d: int| 1 <= d <= 0xFFFF && m == #[trigger] recip(d) implies (p >> 64) as u32 as int == a as int / d by { theorem_fastdiv(a as int, d); assert(a as int / d <= a) by { lemma_div_is_ordered_by_denominator(a as int, 1, d); assert(a as int / 1 == a as int); } lemma_div_pos_is_pos(a as int, d); }
    }
//@end
//@fn crates/zune-imageprocs/src/premul_alpha.rs :: create_unpremul_table_u8
//@ret r
//@spec
    ensures table_ok(r@, 256)
//@loop 0
    vx_r0lo == 1, vx_c0 == 255, array@.len() == 256, array@[0] == 0, forall|j: int| 1 <= j < 1 + vx_i0 ==> #[trigger] array@[j] == recip(j)
//@end
//@fn crates/zune-imageprocs/src/premul_alpha.rs :: create_unpremul_table_u16
//@ret r
//@spec
    ensures table_ok(r@, 65536)
//@loop 0
    vx_r0lo == 1, vx_c0 == 65535, array@.len() == 65536, array@[0] == 0, forall|j: int| 1 <= j < 1 + vx_i0 ==> #[trigger] array@[j] == recip(j)
//@end
//@fn crates/zune-imageprocs/src/premul_alpha.rs :: premultiply_u8
//@spec
    ensures final(input)@.len() == old(input)@.len(),
        forall|i: int| 0 <= i < old(input)@.len() && i < alpha@.len() ==> rounds(#[trigger] final(input)@[i] as int, old(input)@[i] as int * alpha@[i] as int, 255),
        forall|i: int| alpha@.len() <= i < old(input)@.len() ==> #[trigger] final(input)@[i] == old(input)@[i]
//@iter alpha ref
//@at begin
    let vx_l = input.len(); let ghost in0 = input@;
//@loop 0
    vx_c0 <= alpha@.len(), vx_c0 <= in0.len(), vx_c0 == alpha@.len() || vx_c0 == in0.len(), input@.len() == in0.len(),
    forall|i: int| 0 <= i < vx_i0 ==> rounds(#[trigger] input@[i] as int, in0[i] as int * alpha@[i] as int, 255),
    forall|i: int| vx_i0 <= i < in0.len() ==> #[trigger] input@[i] == in0[i]
//@at loop 0 body
        let ghost (c0, a0) = (*color, *al);
        proof { assert(c0 as int * a0 as int <= 255 * 255 && c0 as int * a0 as int >= 0) by(nonlinear_arith) requires 0 <= c0 <= 255, 0 <= a0 <= 255; assert(c0 as int * a0 as int == a0 as int * c0 as int) by(nonlinear_arith);
            let x = (c0 as int * a0 as int) as u16; let t = (x + 128) as u16; lemma_shr8(t); let u = (t as int + (t >> 8) as int) as u16; lemma_shr8(u); lemma_pre8(x, t, u as int / 256); }
//@end
//@fn crates/zune-imageprocs/src/premul_alpha.rs :: premultiply_u16
//@spec
    ensures final(input)@.len() == old(input)@.len(),
        forall|i: int| 0 <= i < old(input)@.len() && i < alpha@.len() ==> rounds(#[trigger] final(input)@[i] as int, old(input)@[i] as int * alpha@[i] as int, 65535),
        forall|i: int| alpha@.len() <= i < old(input)@.len() ==> #[trigger] final(input)@[i] == old(input)@[i]
//@iter alpha ref
//@at begin
    let vx_l = input.len(); let ghost in0 = input@;
//@loop 0
    vx_c0 <= alpha@.len(), vx_c0 <= in0.len(), vx_c0 == alpha@.len() || vx_c0 == in0.len(), input@.len() == in0.len(),
    forall|i: int| 0 <= i < vx_i0 ==> rounds(#[trigger] input@[i] as int, in0[i] as int * alpha@[i] as int, 65535),
    forall|i: int| vx_i0 <= i < in0.len() ==> #[trigger] input@[i] == in0[i]
//@at loop 0 body
        let ghost (c0, a0) = (*color, *al);
        proof { assert(c0 as int * a0 as int <= 65535 * 65535 && c0 as int * a0 as int >= 0) by(nonlinear_arith) requires 0 <= c0 <= 65535, 0 <= a0 <= 65535; assert(c0 as int * a0 as int == a0 as int * c0 as int) by(nonlinear_arith);
            let x = (c0 as int * a0 as int) as u32; let t = (x + 32768) as u32; lemma_shr16(t); let u = (t as int + (t >> 16) as int) as u32; lemma_shr16(u); lemma_pre16(x, t, u as int / 65536); }
//@end
//@fn crates/zune-imageprocs/src/premul_alpha.rs :: unpremultiply_u8
//@sub u8::try_from( => vx_u8_try_from(
//@spec
    requires table_ok(premul_table@, 256)
    ensures final(input)@.len() == old(input)@.len(),
        forall|i: int| 0 <= i < old(input)@.len() && i < alpha@.len() ==> #[trigger] final(input)@[i] as int == unpre(old(input)@[i] as int, alpha@[i] as int, 255),
        forall|i: int| alpha@.len() <= i < old(input)@.len() ==> #[trigger] final(input)@[i] == old(input)@[i]
//@iter alpha ref
//@at begin
    let vx_l = input.len(); let ghost in0 = input@;
//@loop 0
    vx_c0 <= alpha@.len(), vx_c0 <= in0.len(), vx_c0 == alpha@.len() || vx_c0 == in0.len(), input@.len() == in0.len(), table_ok(premul_table@, 256),
    forall|i: int| 0 <= i < vx_i0 ==> #[trigger] input@[i] as int == unpre(in0[i] as int, alpha@[i] as int, 255),
    forall|i: int| vx_i0 <= i < in0.len() ==> #[trigger] input@[i] == in0[i]
//@at loop 0 body
        let ghost (c0, a0) = (*color, *al); assert(c0 == in0[vx_k0 as int] && a0 == alpha@[vx_k0 as int]);
        proof { if a0 != 0 { lemma_div_pos_is_pos(c0 as int * 255 + a0 as int / 2, a0 as int); assert(premul_table@[a0 as int] == recip(a0 as int)); theorem_fastdiv(1, a0 as int); } }
//@end
//@fn crates/zune-imageprocs/src/premul_alpha.rs :: unpremultiply_u16
//@sub u16::try_from( => vx_u16_try_from(
//@spec
    requires table_ok(premul_table@, 65536)
    ensures final(input)@.len() == old(input)@.len(),
        forall|i: int| 0 <= i < old(input)@.len() && i < alpha@.len() ==> #[trigger] final(input)@[i] as int == unpre(old(input)@[i] as int, alpha@[i] as int, 65535),
        forall|i: int| alpha@.len() <= i < old(input)@.len() ==> #[trigger] final(input)@[i] == old(input)@[i]
//@iter alpha ref
//@at begin
    let vx_l = input.len(); let ghost in0 = input@;
//@loop 0
    vx_c0 <= alpha@.len(), vx_c0 <= in0.len(), vx_c0 == alpha@.len() || vx_c0 == in0.len(), input@.len() == in0.len(), table_ok(premul_table@, 65536),
    forall|i: int| 0 <= i < vx_i0 ==> #[trigger] input@[i] as int == unpre(in0[i] as int, alpha@[i] as int, 65535),
    forall|i: int| vx_i0 <= i < in0.len() ==> #[trigger] input@[i] == in0[i]
//@at loop 0 body
        let ghost (c0, a0) = (*color, *al); assert(c0 == in0[vx_k0 as int] && a0 == alpha@[vx_k0 as int]);
        proof { if a0 != 0 { lemma_div_pos_is_pos(c0 as int * 65535 + a0 as int / 2, a0 as int); assert(premul_table@[a0 as int] == recip(a0 as int)); theorem_fastdiv(1, a0 as int); } }
//@end
//@include prelude_end.inc
