//@include prelude.inc
//@include core.inc
// ===== C13: interleaving and splitting channels =====
//@include channel.inc
/// sample k of pixel p is sample p of channel k
pub open spec fn split_ok<T>(src: Seq<T>, chans: Seq<Seq<T>>, n: int) -> bool { chans.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] chans[k]).len() == src.len() / n as nat) && forall|k: int, p: int| 0 <= k < n && 0 <= p < src.len() / n as nat ==> #[trigger] chans[k][p] == src[p * n + k] }
pub open spec fn all<T>(c: Seq<Channel>) -> Seq<Seq<T>> { c.map_values(|x: Channel| samples::<T>(x)) }
//@fn crates/zune-image/src/deinterleave/scalar.rs :: de_interleave_three_channels_scalar
//@spec
    requires source@.len() % 3 == 0, old(c1)@.len() == source@.len() / 3, old(c2)@.len() == source@.len() / 3, old(c3)@.len() == source@.len() / 3
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@], 3)
//@at begin
    let vx_l = source.len(); let ghost n = source@.len() as int / 3;
//@loop 0
    source@.len() == 3 * n, c1@.len() == n, c2@.len() == n, c3@.len() == n, vx_c0 == n, vx_l == 3 * n,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c1@[p] == source@[p * 3],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c2@[p] == source@[p * 3 + 1],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c3@[p] == source@[p * 3 + 2]
//@at after loop 0
    proof { let s = seq![c1@, c2@, c3@]; assert(s[0] == c1@ && s[1] == c2@ && s[2] == c3@); }
//@end
//@fn crates/zune-image/src/deinterleave/scalar.rs :: de_interleave_four_channels_scalar
//@spec
    requires source@.len() % 4 == 0, old(c1)@.len() == source@.len() / 4, old(c2)@.len() == source@.len() / 4, old(c3)@.len() == source@.len() / 4, old(c4)@.len() == source@.len() / 4
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@, final(c4)@], 4)
//@at begin
    let vx_l = source.len(); let ghost n = source@.len() as int / 4;
//@loop 0
    source@.len() == 4 * n, c1@.len() == n, c2@.len() == n, c3@.len() == n, c4@.len() == n, vx_c0 == n, vx_l == 4 * n,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c1@[p] == source@[p * 4],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c2@[p] == source@[p * 4 + 1],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c3@[p] == source@[p * 4 + 2],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c4@[p] == source@[p * 4 + 3]
//@at after loop 0
    proof { let s = seq![c1@, c2@, c3@, c4@]; assert(s[0] == c1@ && s[1] == c2@ && s[2] == c3@ && s[3] == c4@); }
//@end
//@fn crates/zune-image/src/deinterleave/deinterleave_impls.rs :: de_interleave_three_channels_u8
//@sub crate::deinterleave::scalar:: => 
//@sub scalar:: => 
//@spec
    requires source@.len() % 3 == 0, old(c1)@.len() == source@.len() / 3, old(c2)@.len() == source@.len() / 3, old(c3)@.len() == source@.len() / 3
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@], 3)
//@end
//@fn crates/zune-image/src/deinterleave/deinterleave_impls.rs :: deinterleave_four_channels_u8
//@sub crate::deinterleave::scalar:: => 
//@sub scalar:: => 
//@spec
    requires source@.len() % 4 == 0, old(c1)@.len() == source@.len() / 4, old(c2)@.len() == source@.len() / 4, old(c3)@.len() == source@.len() / 4, old(c4)@.len() == source@.len() / 4
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@, final(c4)@], 4)
//@end
//@fn crates/zune-image/src/deinterleave/deinterleave_impls.rs :: de_interleave_three_channels_u16
//@sub crate::deinterleave::scalar:: => 
//@sub scalar:: => 
//@spec
    requires source@.len() % 3 == 0, old(c1)@.len() == source@.len() / 3, old(c2)@.len() == source@.len() / 3, old(c3)@.len() == source@.len() / 3
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@], 3)
//@end
//@fn crates/zune-image/src/deinterleave/deinterleave_impls.rs :: de_interleave_four_channels_u16
//@sub crate::deinterleave::scalar:: => 
//@sub scalar:: => 
//@spec
    requires source@.len() % 4 == 0, old(c1)@.len() == source@.len() / 4, old(c2)@.len() == source@.len() / 4, old(c3)@.len() == source@.len() / 4, old(c4)@.len() == source@.len() / 4
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@, final(c4)@], 4)
//@end
//@fn crates/zune-image/src/deinterleave/deinterleave_impls.rs :: de_interleave_three_channels_f32
//@sub crate::deinterleave::scalar:: => 
//@sub scalar:: => 
//@spec
    requires source@.len() % 3 == 0, old(c1)@.len() == source@.len() / 3, old(c2)@.len() == source@.len() / 3, old(c3)@.len() == source@.len() / 3
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@], 3)
//@end
//@fn crates/zune-image/src/deinterleave/deinterleave_impls.rs :: de_interleave_four_channels_f32
//@sub crate::deinterleave::scalar:: => 
//@sub scalar:: => 
//@spec
    requires source@.len() % 4 == 0, old(c1)@.len() == source@.len() / 4, old(c2)@.len() == source@.len() / 4, old(c3)@.len() == source@.len() / 4, old(c4)@.len() == source@.len() / 4
    ensures split_ok(source@, seq![final(c1)@, final(c2)@, final(c3)@, final(c4)@], 4)
//@end
//@fn crates/zune-image/src/deinterleave.rs :: deinterleave_generic
//@nobody
//@sig
fn deinterleave_generic<T: Sample>(interleaved_pixels: &[T], colorspace: ColorSpace) -> (r: Result<Vec<Channel>, ImageErrors>)
//@spec
    requires colorspace.ncomp() > 0
    ensures r is Ok <==> interleaved_pixels@.len() >= colorspace.ncomp() && interleaved_pixels@.len() as int % colorspace.ncomp() == 0, r is Ok ==> split_ok(interleaved_pixels@, all::<T>(r->Ok_0@), colorspace.ncomp()), r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> typed::<T>(#[trigger] r->Ok_0@[k])
//@end
//@fn crates/zune-image/src/deinterleave.rs :: deinterleave_u8
//@iter c1_mut mut
//@iter c2_mut mut
//@ret r
//@spec
    requires colorspace.ncomp() > 0, interleaved_pixels@.len() * 1 <= usize::MAX
    ensures r is Ok <==> interleaved_pixels@.len() >= colorspace.ncomp() && interleaved_pixels@.len() as int % colorspace.ncomp() == 0, r is Ok ==> split_ok(interleaved_pixels@, all::<u8>(r->Ok_0@), colorspace.ncomp()), r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> typed::<u8>(#[trigger] r->Ok_0@[k])
//@at begin
    let vx_l = interleaved_pixels.len(); let ghost n = colorspace.ncomp();
    proof { lemma_fundamental_div_mod(vx_l as int, n); lemma_mod_bound(vx_l as int, n); assert(vx_l as int / n >= 1 <==> vx_l >= n) by(nonlinear_arith) requires n > 0, vx_l as int == n * (vx_l as int / n) + vx_l as int % n, 0 <= vx_l as int % n < n; lemma_div_pos_is_pos(vx_l as int, n); assert(vx_l as int / n <= vx_l) by(nonlinear_arith) requires n > 0, vx_l as int == n * (vx_l as int / n) + vx_l as int % n, 0 <= vx_l as int % n, vx_l as int / n >= 0; }
//@loop 0
    interleaved_pixels@.len() == vx_l, c1_mut@.len() == vx_l / 2, c2_mut@.len() == vx_l / 2, vx_c0 == vx_l / 2, vx_l % 2 == 0,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c1_mut@[p] == interleaved_pixels@[p * 2],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c2_mut@[p] == interleaved_pixels@[p * 2 + 1]
//@end
//@fn crates/zune-image/src/deinterleave.rs :: deinterleave_u16
//@iter c1_mut mut
//@iter c2_mut mut
//@ret r
//@spec
    requires colorspace.ncomp() > 0, interleaved_pixels@.len() * 2 <= usize::MAX
    ensures r is Ok <==> interleaved_pixels@.len() >= colorspace.ncomp() && interleaved_pixels@.len() as int % colorspace.ncomp() == 0, r is Ok ==> split_ok(interleaved_pixels@, all::<u16>(r->Ok_0@), colorspace.ncomp()), r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> typed::<u16>(#[trigger] r->Ok_0@[k])
//@at begin
    let vx_l = interleaved_pixels.len(); let ghost n = colorspace.ncomp();
    proof { lemma_fundamental_div_mod(vx_l as int, n); lemma_mod_bound(vx_l as int, n); assert(vx_l as int / n >= 1 <==> vx_l >= n) by(nonlinear_arith) requires n > 0, vx_l as int == n * (vx_l as int / n) + vx_l as int % n, 0 <= vx_l as int % n < n; lemma_div_pos_is_pos(vx_l as int, n); assert(vx_l as int / n <= vx_l) by(nonlinear_arith) requires n > 0, vx_l as int == n * (vx_l as int / n) + vx_l as int % n, 0 <= vx_l as int % n, vx_l as int / n >= 0; }
//@loop 0
    interleaved_pixels@.len() == vx_l, c1_mut@.len() == vx_l / 2, c2_mut@.len() == vx_l / 2, vx_c0 == vx_l / 2, vx_l % 2 == 0,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c1_mut@[p] == interleaved_pixels@[p * 2],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c2_mut@[p] == interleaved_pixels@[p * 2 + 1]
//@end
//@fn crates/zune-image/src/deinterleave.rs :: deinterleave_f32
//@iter c1_mut mut
//@iter c2_mut mut
//@ret r
//@spec
    requires colorspace.ncomp() > 0, interleaved_pixels@.len() * 4 <= usize::MAX
    ensures r is Ok <==> interleaved_pixels@.len() >= colorspace.ncomp() && interleaved_pixels@.len() as int % colorspace.ncomp() == 0, r is Ok ==> split_ok(interleaved_pixels@, all::<f32>(r->Ok_0@), colorspace.ncomp()), r is Ok ==> forall|k: int| 0 <= k < r->Ok_0@.len() ==> typed::<f32>(#[trigger] r->Ok_0@[k])
//@at begin
    let vx_l = interleaved_pixels.len(); let ghost n = colorspace.ncomp();
    proof { lemma_fundamental_div_mod(vx_l as int, n); lemma_mod_bound(vx_l as int, n); assert(vx_l as int / n >= 1 <==> vx_l >= n) by(nonlinear_arith) requires n > 0, vx_l as int == n * (vx_l as int / n) + vx_l as int % n, 0 <= vx_l as int % n < n; lemma_div_pos_is_pos(vx_l as int, n); assert(vx_l as int / n <= vx_l) by(nonlinear_arith) requires n > 0, vx_l as int == n * (vx_l as int / n) + vx_l as int % n, 0 <= vx_l as int % n, vx_l as int / n >= 0; }
//@loop 0
    interleaved_pixels@.len() == vx_l, c1_mut@.len() == vx_l / 2, c2_mut@.len() == vx_l / 2, vx_c0 == vx_l / 2, vx_l % 2 == 0,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c1_mut@[p] == interleaved_pixels@[p * 2],
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] c2_mut@[p] == interleaved_pixels@[p * 2 + 1]
//@end
pub proof fn lemma_at(y: int, x: int, w: int, k: int) requires 0 <= x < w, 0 <= y < k ensures 0 <= y * w <= y * w + x < k * w, y * w + w <= k * w {
    assert(y * w + w <= k * w) by(nonlinear_arith) requires y < k, w > 0; assert(y * w >= 0) by(nonlinear_arith) requires y >= 0, w > 0;
}
/// output sample p*n+k is sample p of channel k, as far as both go
pub open spec fn join_ok<T>(o: Seq<T>, chans: Seq<Seq<T>>, n: int) -> bool { forall|k: int, p: int| 0 <= k < n && 0 <= p < chans[k].len() && p * n + n <= o.len() ==> #[trigger] chans[k][p] == o[p * n + k] }
/// all channels have the length of the first
pub open spec fn planar<T>(c: Seq<Channel>) -> bool { forall|k: int| 0 <= k < c.len() ==> typed::<T>(#[trigger] c[k]) && samples::<T>(c[k]).len() == samples::<T>(c[0]).len() }
//@fn crates/zune-image/src/utils.rs :: swizzle_three_channels_fallback
//@spec
    requires r@.len() == 3, r[0]@.len() == r[1]@.len(), r[0]@.len() == r[2]@.len(), old(y)@.len() == 3 * r[0]@.len()
    ensures final(y)@.len() == old(y)@.len(), forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[0]@[p] == final(y)@[p * 3], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[1]@[p] == final(y)@[p * 3 + 1], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[2]@[p] == final(y)@[p * 3 + 2]
//@at begin
    let vx_l = y.len(); let ghost n = r[0]@.len() as int;
//@loop 0
    r@.len() == 3, r[0]@.len() == n, r[1]@.len() == n, r[2]@.len() == n, y@.len() == 3 * n, vx_l == 3 * n, vx_c0 == n,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[0]@[p] == y@[p * 3], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[1]@[p] == y@[p * 3 + 1], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[2]@[p] == y@[p * 3 + 2]
//@at loop 0 begin
    let ghost y0 = y@;
//@at loop 0 end
    proof { assert(forall|z: int| 0 <= z < vx_k0 * 3 ==> #[trigger] y@[z] == y0[z]); }
//@end
//@fn crates/zune-image/src/utils.rs :: swizzle_four_channels_fallback
//@spec
    requires r@.len() == 4, r[0]@.len() == r[1]@.len(), r[0]@.len() == r[2]@.len(), r[0]@.len() == r[3]@.len(), old(y)@.len() == 4 * r[0]@.len()
    ensures final(y)@.len() == old(y)@.len(), forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[0]@[p] == final(y)@[p * 4], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[1]@[p] == final(y)@[p * 4 + 1], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[2]@[p] == final(y)@[p * 4 + 2], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[3]@[p] == final(y)@[p * 4 + 3]
//@at begin
    let vx_l = y.len(); let ghost n = r[0]@.len() as int;
//@loop 0
    r@.len() == 4, r[0]@.len() == n, r[1]@.len() == n, r[2]@.len() == n, r[3]@.len() == n, y@.len() == 4 * n, vx_l == 4 * n, vx_c0 == n,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[0]@[p] == y@[p * 4], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[1]@[p] == y@[p * 4 + 1], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[2]@[p] == y@[p * 4 + 2], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] r[3]@[p] == y@[p * 4 + 3]
//@at loop 0 begin
    let ghost y0 = y@;
//@at loop 0 end
    proof { assert(forall|z: int| 0 <= z < vx_k0 * 4 ==> #[trigger] y@[z] == y0[z]); }
//@end
//@fn crates/zune-image/src/utils.rs :: swizzle_three_channels
//@spec
    requires r@.len() == 3, r[0]@.len() == r[1]@.len(), r[0]@.len() == r[2]@.len(), old(y)@.len() == 3 * r[0]@.len()
    ensures final(y)@.len() == old(y)@.len(), forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[0]@[p] == final(y)@[p * 3], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[1]@[p] == final(y)@[p * 3 + 1], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[2]@[p] == final(y)@[p * 3 + 2]
//@end
//@fn crates/zune-image/src/utils.rs :: swizzle_four_channels
//@spec
    requires r@.len() == 4, r[0]@.len() == r[1]@.len(), r[0]@.len() == r[2]@.len(), r[0]@.len() == r[3]@.len(), old(y)@.len() == 4 * r[0]@.len()
    ensures final(y)@.len() == old(y)@.len(), forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[0]@[p] == final(y)@[p * 4], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[1]@[p] == final(y)@[p * 4 + 1], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[2]@[p] == final(y)@[p * 4 + 2], forall|p: int| 0 <= p < r[0]@.len() ==> #[trigger] r[3]@[p] == final(y)@[p * 4 + 3]
//@end
//@fn crates/zune-image/src/utils.rs :: swizzle_channels
//@sub = min( => = vx_min(
//@sub let mut r = vec![] => let mut r: Vec<&[T]> = vec![]
//@sub let mut channels_ref = => let mut channels_ref: Vec<&[T]> =
//@iter channels ref
//@iter pixel mut
//@ret r
//@spec
    requires planar::<T>(channels@), channels@.len() > 0, old(output)@.len() == channels@.len() * samples::<T>(channels@[0]).len()
    ensures r is Ok, r->Ok_0 == old(output)@.len(), final(output)@.len() == old(output)@.len(), join_ok(final(output)@, all::<T>(channels@), channels@.len() as int)
//@at begin
    let vx_l = output.len(); let ghost m = samples::<T>(channels@[0]).len() as int; let ghost nn = channels@.len() as int; let ghost cs = all::<T>(channels@);
    proof { assert(typed::<T>(channels@[0])); assert(nn > 1 ==> typed::<T>(channels@[1])); assert(1 * m == m && 2 * m == m + m && 3 * m == m + m + m && 4 * m == m + m + m + m); assert(nn * m == m * nn) by(nonlinear_arith); assert(nn > 0 ==> m * nn / nn == m) by(nonlinear_arith); assert forall|k: int| 0 <= k < nn implies (#[trigger] cs[k]).len() == m && cs[k] == samples::<T>(channels@[k]) by {} }
//@loop 0
    nn == 2, channels@.len() == 2, cs == all::<T>(channels@), cs[0].len() == m, cs[1].len() == m, vx_s0_0@ == cs[0], vx_s0_0b@ == cs[1], output@.len() == 2 * m, vx_l == 2 * m, vx_c0 == m,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] cs[0][p] == output@[p * 2], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] cs[1][p] == output@[p * 2 + 1]
//@loop 1
    planar::<T>(channels@), channels@.len() == 3, vx_c1 == 3, r@.len() == vx_i1, forall|k: int| 0 <= k < vx_i1 ==> (#[trigger] r@[k])@ == samples::<T>(channels@[k])
//@loop 2
    planar::<T>(channels@), channels@.len() == 4, vx_c2 == 4, r@.len() == vx_i2, forall|k: int| 0 <= k < vx_i2 ==> (#[trigger] r@[k])@ == samples::<T>(channels@[k])
//@loop 3
    planar::<T>(channels@), vx_c3 == channels@.len(), channels_ref@.len() == vx_i3, forall|k: int| 0 <= k < vx_i3 ==> (#[trigger] channels_ref@[k])@ == samples::<T>(channels@[k])
//@loop 4
    n == nn, nn > 4, cs.len() == nn, channels_ref@.len() == nn, output@.len() == m * nn, vx_l == m * nn, vx_c4 == m, written_pixels == vx_i4 * nn,
    forall|k: int| 0 <= k < nn ==> (#[trigger] cs[k]).len() == m, forall|k: int| 0 <= k < nn ==> (#[trigger] channels_ref@[k])@ == cs[k],
    forall|k: int, p: int| 0 <= k < nn && 0 <= p < vx_i4 ==> #[trigger] cs[k][p] == output@[p * nn + k]
//@at loop 4 begin
    let ghost y0 = output@; let ghost q = vx_k4 as int;
    proof { lemma_at(q, 0, nn, m); assert((q + 1) * nn == q * nn + nn) by(nonlinear_arith); }
//@loop 5
    n == nn, nn > 4, cs.len() == nn, channels_ref@.len() == nn, pixel@.len() == nn, pos == q, 0 <= q < m, vx_c5 == nn, written_pixels == q * nn + vx_i5, q * nn + nn <= vx_l,
    forall|k: int| 0 <= k < nn ==> (#[trigger] cs[k]).len() == m, forall|k: int| 0 <= k < nn ==> (#[trigger] channels_ref@[k])@ == cs[k],
    forall|k: int| 0 <= k < vx_i5 ==> #[trigger] cs[k][q] == pixel@[k]
//@at loop 4 end
    proof {
        assert forall|k: int, p: int| 0 <= k < nn && 0 <= p < q + 1 implies #[trigger] cs[k][p] == output@[p * nn + k] by { if p < q { lemma_at(p, k, nn, q); assert(cs[k][p] == y0[p * nn + k]); } else { assert(output@[q * nn + k] == cs[k][q]); } }
    }
//@at after call copy_from_slice
    proof { assert(output@ == cs[0]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[0][p] == output@[p * nn + 0]); }
//@at after call swizzle_three_channels
    proof { assert(r@[0]@ == cs[0]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[0][p] == output@[p * 3 + 0]); assert(r@[1]@ == cs[1]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[1][p] == output@[p * 3 + 1]); assert(r@[2]@ == cs[2]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[2][p] == output@[p * 3 + 2]); }
//@at after call swizzle_four_channels
    proof { assert(r@[0]@ == cs[0]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[0][p] == output@[p * 4 + 0]); assert(r@[1]@ == cs[1]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[1][p] == output@[p * 4 + 1]); assert(r@[2]@ == cs[2]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[2][p] == output@[p * 4 + 2]); assert(r@[3]@ == cs[3]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[3][p] == output@[p * 4 + 3]); }
//@end
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
pub struct Frame { pub channels: Vec<Channel> }
impl Frame {
//@fn crates/zune-image/src/frame.rs :: Frame::flatten
//@iter alpha_channel ref
//@iter c2 ref
//@iter c3 ref
//@iter c4 ref
//@iter pixel mut
//@sub let mut channels_ref = => let mut channels_ref: Vec<&[T]> =
//@sub let mut output = => let mut output: Vec<T> =
//@sub &mut output[vx_k4 => &mut output.as_mut_slice()[vx_k4
//@sig
fn flatten<T: Default + Copy>(&self) -> (r: Vec<T>)
//@spec
    requires forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b, planar::<T>(self.channels@), self.channels@.len() > 0, self.channels@.len() * samples::<T>(self.channels@[0]).len() <= usize::MAX
    ensures r@.len() == self.channels@.len() * samples::<T>(self.channels@[0]).len(), join_ok(r@, all::<T>(self.channels@), self.channels@.len() as int)
//@at begin
    let ghost m = samples::<T>(self.channels@[0]).len() as int; let ghost nn = self.channels@.len() as int; let ghost cs = all::<T>(self.channels@);
    proof { assert(typed::<T>(self.channels@[0])); assert(forall|k: int| 0 <= k < nn ==> typed::<T>(#[trigger] self.channels@[k])); assert(1 * m == m && 2 * m == m + m && 3 * m == m + m + m && 4 * m == m + m + m + m); assert(nn * m == m * nn) by(nonlinear_arith); assert(nn > 0 ==> m * nn / nn == m) by(nonlinear_arith); assert forall|k: int| 0 <= k < nn implies (#[trigger] cs[k]).len() == m && cs[k] == samples::<T>(self.channels@[k]) by {} }
//@loop 0
    nn == 2, cs.len() == 2, forall|k: int| 0 <= k < 2 ==> (#[trigger] cs[k]).len() == m, luma_channel@ == cs[0], alpha_channel@ == cs[1], vx_c0 == m, vx_o0@.len() == vx_i0 * 2,
    forall|p: int| 0 <= p < vx_i0 ==> #[trigger] cs[0][p] == vx_o0@[p * 2 + 0], forall|p: int| 0 <= p < vx_i0 ==> #[trigger] cs[1][p] == vx_o0@[p * 2 + 1]
//@at loop 0 begin
    let ghost y0 = vx_o0@;
//@at loop 0 end
    proof { assert(forall|z: int| 0 <= z < vx_k0 * 2 ==> #[trigger] vx_o0@[z] == y0[z]); }
//@loop 1
    nn == 3, cs.len() == 3, forall|k: int| 0 <= k < 3 ==> (#[trigger] cs[k]).len() == m, c1@ == cs[0], c2@ == cs[1], c3@ == cs[2], vx_c1 == m, vx_o1@.len() == vx_i1 * 3,
    forall|p: int| 0 <= p < vx_i1 ==> #[trigger] cs[0][p] == vx_o1@[p * 3 + 0], forall|p: int| 0 <= p < vx_i1 ==> #[trigger] cs[1][p] == vx_o1@[p * 3 + 1], forall|p: int| 0 <= p < vx_i1 ==> #[trigger] cs[2][p] == vx_o1@[p * 3 + 2]
//@at loop 1 begin
    let ghost y0 = vx_o1@;
//@at loop 1 end
    proof { assert(forall|z: int| 0 <= z < vx_k1 * 3 ==> #[trigger] vx_o1@[z] == y0[z]); }
//@loop 2
    nn == 4, cs.len() == 4, forall|k: int| 0 <= k < 4 ==> (#[trigger] cs[k]).len() == m, c1@ == cs[0], c2@ == cs[1], c3@ == cs[2], c4@ == cs[3], vx_c2 == m, vx_o2@.len() == vx_i2 * 4,
    forall|p: int| 0 <= p < vx_i2 ==> #[trigger] cs[0][p] == vx_o2@[p * 4 + 0], forall|p: int| 0 <= p < vx_i2 ==> #[trigger] cs[1][p] == vx_o2@[p * 4 + 1], forall|p: int| 0 <= p < vx_i2 ==> #[trigger] cs[2][p] == vx_o2@[p * 4 + 2], forall|p: int| 0 <= p < vx_i2 ==> #[trigger] cs[3][p] == vx_o2@[p * 4 + 3]
//@at loop 2 begin
    let ghost y0 = vx_o2@;
//@at loop 2 end
    proof { assert(forall|z: int| 0 <= z < vx_k2 * 4 ==> #[trigger] vx_o2@[z] == y0[z]); }
//@loop 3
    planar::<T>(self.channels@), vx_c3 == self.channels@.len(), channels_ref@.len() == vx_i3, forall|k: int| 0 <= k < vx_i3 ==> (#[trigger] channels_ref@[k])@ == samples::<T>(self.channels@[k])
//@loop 4
    n == nn, nn > 4, cs.len() == nn, channels_ref@.len() == nn, output@.len() == m * nn, m * nn <= usize::MAX, vx_c4 == m,
    forall|k: int| 0 <= k < nn ==> (#[trigger] cs[k]).len() == m, forall|k: int| 0 <= k < nn ==> (#[trigger] channels_ref@[k])@ == cs[k],
    forall|k: int, p: int| 0 <= k < nn && 0 <= p < vx_i4 ==> #[trigger] cs[k][p] == output@[p * nn + k]
//@at loop 4 begin
    let ghost y0 = output@; let ghost q = vx_k4 as int;
    proof { lemma_at(q, 0, nn, m); assert((q + 1) * nn == q * nn + nn) by(nonlinear_arith); }
//@loop 5
    n == nn, nn > 4, cs.len() == nn, channels_ref@.len() == nn, pixel@.len() == nn, pos == q, 0 <= q < m, vx_c5 == nn,
    forall|k: int| 0 <= k < nn ==> (#[trigger] cs[k]).len() == m, forall|k: int| 0 <= k < nn ==> (#[trigger] channels_ref@[k])@ == cs[k],
    forall|k: int| 0 <= k < vx_i5 ==> #[trigger] cs[k][q] == pixel@[k]
//@at loop 4 end
    proof {
        assert forall|k: int, p: int| 0 <= k < nn && 0 <= p < q + 1 implies #[trigger] cs[k][p] == output@[p * nn + k] by { if p < q { lemma_at(p, k, nn, q); assert(cs[k][p] == y0[p * nn + k]); } else { assert(output@[q * nn + k] == cs[k][q]); } }
    }
//@at before tail
    proof { if nn == 1 { assert(out_pixels@ =~= cs[0]); assert(forall|p: int| 0 <= p < m ==> #[trigger] cs[0][p] == out_pixels@[p * nn + 0]); } }
//@end
}
// ===== splitting and joining are inverse =====
pub proof fn theorem_join_split<T>(src: Seq<T>, ch: Seq<Seq<T>>, o: Seq<T>, n: int) requires n > 0, src.len() as int % n == 0, split_ok(src, ch, n), join_ok(o, ch, n), o.len() == src.len() ensures o == src {
    let m = src.len() as int / n; lemma_fundamental_div_mod(src.len() as int, n); assert(n * m == m * n) by(nonlinear_arith);
    assert forall|i: int| 0 <= i < src.len() implies o[i] == src[i] by {
        let (p, k) = (i / n, i % n); lemma_fundamental_div_mod(i, n); lemma_mod_bound(i, n); assert(n * p == p * n) by(nonlinear_arith); lemma_div_pos_is_pos(i, n);
        assert(p < m) by { if p >= m { assert(p * n >= m * n) by(nonlinear_arith) requires p >= m, n > 0; } }
        lemma_at(p, k, n, m); assert(ch[k][p] == src[p * n + k]); assert(ch[k].len() == m); assert(ch[k][p] == o[p * n + k]);
    }
    assert(o =~= src);
}
pub fn theorem_roundtrip_u8(src: &[u8], colorspace: ColorSpace, out: &mut [u8]) -> (r: bool) requires colorspace.ncomp() > 0, old(out)@.len() == src@.len() ensures r ==> final(out)@ == src@, r <==> src@.len() >= colorspace.ncomp() && src@.len() as int % colorspace.ncomp() == 0 {
    let vx_l = src.len();
    match deinterleave_u8(src, colorspace) { Ok(c) => {
        let ghost n = colorspace.ncomp(); let ghost ch = all::<u8>(c@); let ghost m = src@.len() as int / n;
        proof { lemma_fundamental_div_mod(src@.len() as int, n); assert(c@.len() == ch.len()); assert forall|k: int| 0 <= k < c@.len() implies typed::<u8>(#[trigger] c@[k]) && samples::<u8>(c@[k]).len() == samples::<u8>(c@[0]).len() by { assert(ch[k].len() == m); assert(ch[0].len() == m); assert(ch[k] == samples::<u8>(c@[k])); assert(ch[0] == samples::<u8>(c@[0])); } assert(ch[0].len() == m); assert(ch[0] == samples::<u8>(c@[0])); }
        let _ = swizzle_channels(c.as_slice(), out);
        proof { theorem_join_split(src@, ch, out@, n); }
        true } Err(_) => false }
}
//@include prelude_end.inc
