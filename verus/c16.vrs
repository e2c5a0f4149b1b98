//@include prelude.inc
// ===== C16: YCbCr to RGB, the JFIF transform in fixed point =====
/// v is the byte nearest to num / 1000000 after clamping to 0..255, within the fixed-point rounding (0.52)
pub open spec fn near(v: u8, num: int) -> bool {
    let c = if num < 0 { 0 } else if num > 255000000 { 255000000 } else { num };
    -520000 <= v as int * 1000000 - c <= 520000
}
pub open spec fn jr(y: int, cr: int) -> int { 1000000 * y + 1402000 * (cr - 128) }
pub open spec fn jg(y: int, cb: int, cr: int) -> int { 1000000 * y - 344136 * (cb - 128) - 714136 * (cr - 128) }
pub open spec fn jb(y: int, cb: int) -> int { 1000000 * y + 1772000 * (cb - 128) }
pub open spec fn jfif3(o: Seq<u8>, y: int, cb: int, cr: int, bgr: bool) -> bool {
    let (r, b) = if bgr { (o[2], o[0]) } else { (o[0], o[2]) };
    near(r, jr(y, cr)) && near(o[1], jg(y, cb, cr)) && near(b, jb(y, cb))
}
pub open spec fn jfif4(o: Seq<u8>, y: int, cb: int, cr: int, bgr: bool) -> bool { jfif3(o, y, cb, cr, bgr) && o[3] == 255 }
proof fn lemma_shr(x: i32) requires -0x2000000 <= x <= 0x2000000 ensures (x >> 14) * 16384 <= x < (x >> 14) * 16384 + 16384, -2048 <= (x >> 14) <= 2048 {
    assert(-2048i32 <= (x >> 14) && (x >> 14) <= 2048 && ((x >> 14) << 14) <= x && x - ((x >> 14) << 14) < 16384) by(bit_vector) requires -0x2000000i32 <= x && x <= 0x2000000;
    let q = x >> 14;
    assert(q << 14 == q * 16384) by(bit_vector) requires -2048i32 <= q && q <= 2048;
}
proof fn lemma_mulc(y: int, cr: int, cb: int, a: int, b: int, c: int, d: int, e: int) requires a == 16384, b == 22970, c == 29032, d == -11700, e == -5638 ensures y * a == 16384 * y, cr * b == 22970 * cr, cb * c == 29032 * cb, cr * d == -11700 * cr, cb * e == -5638 * cb { assert(y * a == 16384 * y && cr * b == 22970 * cr && cb * c == 29032 * cb && cr * d == -11700 * cr && cb * e == -5638 * cb) by(nonlinear_arith) requires a == 16384, b == 22970, c == 29032, d == -11700, e == -5638; }
proof fn lemma_row(k: int, w: int, n: int) requires w > 0, 0 <= k < n / w ensures 0 <= k * w, k * w + w <= n, (k + 1) * w == k * w + w { assert(k * w + w <= n) by { lemma_fundamental_div_mod(n, w); assert((k + 1) * w <= (n / w) * w) by(nonlinear_arith) requires k + 1 <= n / w, w > 0; assert((k + 1) * w == k * w + w) by(nonlinear_arith); assert(w * (n / w) == (n / w) * w) by(nonlinear_arith); } assert(0 <= k * w) by(nonlinear_arith) requires 0 <= k, 0 < w; assert((k + 1) * w == k * w + w) by(nonlinear_arith); }
pub fn vx_take_mut(s: &mut [u8], n: usize) -> (r: &mut [u8]) requires n <= old(s)@.len() ensures r@ == old(s)@.subrange(0, n as int), final(r)@.len() == n ==> final(s)@ == final(r)@ + old(s)@.subrange(n as int, old(s)@.len() as int) { let (a, b) = s.split_at_mut(n); a }
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: Y_CF
//@end
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: CR_CF
//@end
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: CB_CF
//@end
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: C_G_CR_COEF_1
//@end
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: C_G_CB_COEF_2
//@end
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: YUV_PREC
//@end
//@const crates/zune-jpeg/src/color_convert/scalar.rs :: YUV_RND
//@spec
    ensures YUV_RND == 8191
//@at begin
    assert((1i16 << 13) == 8192) by(bit_vector);
//@end
//@fn crates/zune-jpeg/src/color_convert/scalar.rs :: clamp
//@ret r
//@spec
    ensures r as int == (if a < 0 { 0int } else if a > 255 { 255 } else { a as int }),
//@end
//@fn crates/zune-jpeg/src/color_convert/scalar.rs :: ycbcr_to_rgba_inner_16_scalar
//@sub &mut [u8; 64] => &mut [u8]
//@sub output_position.get_mut(0..64).expect("Slice to small cannot write").try_into().unwrap() => vx_take_mut(output_position, 64)
//@sub cr - 128 => *cr - 128
//@sub cb - 128 => *cb - 128
//@spec
    requires *old(pos) + 64 <= old(output)@.len(), forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] y@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cb@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cr@[i] <= 255,
    ensures *final(pos) == *old(pos) + 64, final(output)@.len() == old(output)@.len(),
        // only the 64 bytes at pos are written ...
        forall|i: int| 0 <= i < old(output)@.len() && !(*old(pos) <= i < *old(pos) + 64) ==> #[trigger] final(output)@[i] == old(output)@[i],
        // ... and they are the JFIF transform of the sixteen input pixels
        forall|k: int| 0 <= k < 16 ==> #[trigger] jfif4(final(output)@.subrange(*old(pos) + 4 * k, *old(pos) + 4 * k + 4), y@[k] as int, cb@[k] as int, cr@[k] as int, BGRA),
//@at begin
    let vx_l = output.len(); let ghost mut oo = Seq::<u8>::empty(); let ghost out0 = output@; let ghost p0 = *pos as int; let ghost ys = y@; let ghost bs = cb@; let ghost rs = cr@;
//@loop 0
    vx_c0 == 16, ys == y@, bs == cb@, rs == cr@, opt@.len() == 64, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] y@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cb@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cr@[i] <= 255,
    forall|k: int| 0 <= k < vx_i0 ==> #[trigger] jfif4(opt@.subrange(4 * k, 4 * k + 4), y@[k] as int, cb@[k] as int, cr@[k] as int, BGRA),
//@at loop 0 begin
        let ghost o1 = opt@; let ghost (yy, bb, rr) = (y@[vx_k0 as int] as int, cb@[vx_k0 as int] as int, cr@[vx_k0 as int] as int); assert(0 <= yy <= 255 && 0 <= bb <= 255 && 0 <= rr <= 255); let ghost (yi, bi, ri) = (y@[vx_k0 as int], cb@[vx_k0 as int], cr@[vx_k0 as int]);
//@at loop 0 body
        assert(y == yi && *cb == bi && *cr == ri);
//@at after let cb
        proof { assert(Y_CF == 16384 && CR_CF == 22970 && CB_CF == 29032 && C_G_CR_COEF_1 == -11700 && C_G_CB_COEF_2 == -5638); lemma_mulc(y as int, cr as int, cb as int, Y_CF as int, CR_CF as int, CB_CF as int, C_G_CR_COEF_1 as int, C_G_CB_COEF_2 as int); }
//@at after let b
        proof { lemma_shr((y0 + (cr as i32) * 22970) as i32); lemma_shr((y0 + (cr as i32) * -11700 + (cb as i32) * -5638) as i32); lemma_shr((y0 + (cb as i32) * 29032) as i32); }
//@at loop 0 end
        proof {
            assert forall|k: int| 0 <= k < vx_i0 implies #[trigger] jfif4(opt@.subrange(4 * k, 4 * k + 4), ys[k] as int, bs[k] as int, rs[k] as int, BGRA) by {
                if k < vx_k0 { assert(opt@.subrange(4 * k, 4 * k + 4) =~= o1.subrange(4 * k, 4 * k + 4)); }
            }
        }
//@at after loop 0
    proof { oo = opt@; }
//@at end
    proof { assert forall|k: int| 0 <= k < 16 implies #[trigger] jfif4(output@.subrange(p0 + 4 * k, p0 + 4 * k + 4), y@[k] as int, cb@[k] as int, cr@[k] as int, BGRA) by { assert(output@.subrange(p0 + 4 * k, p0 + 4 * k + 4) =~= oo.subrange(4 * k, 4 * k + 4)); } }
//@end
//@fn crates/zune-jpeg/src/color_convert/scalar.rs :: ycbcr_to_rgb_inner_16_scalar
//@sub &mut [u8; 48] => &mut [u8]
//@sub output_position.get_mut(0..48).expect("Slice to small cannot write").try_into().unwrap() => vx_take_mut(output_position, 48)
//@sub cr - 128 => *cr - 128
//@sub cb - 128 => *cb - 128
//@spec
    requires *old(pos) + 48 <= old(output)@.len(), forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] y@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cb@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cr@[i] <= 255,
    ensures *final(pos) == *old(pos) + 48, final(output)@.len() == old(output)@.len(),
        // only the 48 bytes at pos are written ...
        forall|i: int| 0 <= i < old(output)@.len() && !(*old(pos) <= i < *old(pos) + 48) ==> #[trigger] final(output)@[i] == old(output)@[i],
        // ... and they are the JFIF transform of the sixteen input pixels
        forall|k: int| 0 <= k < 16 ==> #[trigger] jfif3(final(output)@.subrange(*old(pos) + 3 * k, *old(pos) + 3 * k + 3), y@[k] as int, cb@[k] as int, cr@[k] as int, BGRA),
//@at begin
    let vx_l = output.len(); let ghost mut oo = Seq::<u8>::empty(); let ghost out0 = output@; let ghost p0 = *pos as int; let ghost ys = y@; let ghost bs = cb@; let ghost rs = cr@;
//@loop 0
    vx_c0 == 16, ys == y@, bs == cb@, rs == cr@, opt@.len() == 48, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] y@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cb@[i] <= 255, forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] cr@[i] <= 255,
    forall|k: int| 0 <= k < vx_i0 ==> #[trigger] jfif3(opt@.subrange(3 * k, 3 * k + 3), y@[k] as int, cb@[k] as int, cr@[k] as int, BGRA),
//@at loop 0 begin
        let ghost o1 = opt@; let ghost (yy, bb, rr) = (y@[vx_k0 as int] as int, cb@[vx_k0 as int] as int, cr@[vx_k0 as int] as int); assert(0 <= yy <= 255 && 0 <= bb <= 255 && 0 <= rr <= 255); let ghost (yi, bi, ri) = (y@[vx_k0 as int], cb@[vx_k0 as int], cr@[vx_k0 as int]);
//@at loop 0 body
        assert(y == yi && *cb == bi && *cr == ri);
//@at after let cb
        proof { assert(Y_CF == 16384 && CR_CF == 22970 && CB_CF == 29032 && C_G_CR_COEF_1 == -11700 && C_G_CB_COEF_2 == -5638); lemma_mulc(y as int, cr as int, cb as int, Y_CF as int, CR_CF as int, CB_CF as int, C_G_CR_COEF_1 as int, C_G_CB_COEF_2 as int); }
//@at after let b
        proof { lemma_shr((y0 + (cr as i32) * 22970) as i32); lemma_shr((y0 + (cr as i32) * -11700 + (cb as i32) * -5638) as i32); lemma_shr((y0 + (cb as i32) * 29032) as i32); }
//@at loop 0 end
        proof {
            assert forall|k: int| 0 <= k < vx_i0 implies #[trigger] jfif3(opt@.subrange(3 * k, 3 * k + 3), ys[k] as int, bs[k] as int, rs[k] as int, BGRA) by {
                if k < vx_k0 { assert(opt@.subrange(3 * k, 3 * k + 3) =~= o1.subrange(3 * k, 3 * k + 3)); }
            }
        }
//@at after loop 0
    proof { oo = opt@; }
//@at end
    proof { assert forall|k: int| 0 <= k < 16 implies #[trigger] jfif3(output@.subrange(p0 + 3 * k, p0 + 3 * k + 3), y@[k] as int, cb@[k] as int, cr@[k] as int, BGRA) by { assert(output@.subrange(p0 + 3 * k, p0 + 3 * k + 3) =~= oo.subrange(3 * k, 3 * k + 3)); } }
//@end
//@fn crates/zune-jpeg/src/color_convert/scalar.rs :: ycbcr_to_grayscale
//@spec
    requires width > 0, padded_width >= width,
    ensures final(output)@.len() == old(output)@.len(),
        // every whole row present in both buffers is copied without its padding; nothing else is written
        forall|r: int, x: int| 0 <= r < y@.len() / (padded_width as nat) && r < old(output)@.len() / (width as nat) && 0 <= x < width ==> #[trigger] final(output)@[r * width + x] == y@[r * padded_width + x] as u8,
        forall|i: int| 0 <= i < old(output)@.len() && (i >= (y@.len() / (padded_width as nat)) * width || i >= (old(output)@.len() / (width as nat)) * width) ==> #[trigger] final(output)@[i] == old(output)@[i],
//@at begin
    let ghost out0 = output@;
//@loop 0
    width > 0, padded_width >= width, output@.len() == out0.len(), y.len() <= usize::MAX, out0.len() <= usize::MAX, vx_c0 <= y@.len() / (padded_width as nat), vx_c0 <= out0.len() / (width as nat), vx_c0 == y@.len() / (padded_width as nat) || vx_c0 == out0.len() / (width as nat),
    forall|r: int, x: int| 0 <= r < vx_i0 && 0 <= x < width ==> #[trigger] output@[r * width + x] == y@[r * padded_width + x] as u8,
    forall|i: int| vx_i0 * width <= i < out0.len() ==> #[trigger] output@[i] == out0[i],
//@at loop 0 begin
        let ghost o1 = output@; let ghost k = vx_k0 as int;
        proof { lemma_row(k, padded_width as int, y@.len() as int); lemma_row(k, width as int, out0.len() as int); }
//@loop 1
    vx_c1 == width, out@.len() == width, y_in@.len() == padded_width, padded_width >= width, forall|j: int| 0 <= j < vx_i1 ==> #[trigger] out@[j] == y_in@[j] as u8,
//@at loop 0 end
        proof {
            assert forall|r: int, x: int| 0 <= r < vx_i0 && 0 <= x < width implies #[trigger] output@[r * width + x] == y@[r * padded_width + x] as u8 by {
                if r < k { assert(r * width + x < k * width) by(nonlinear_arith) requires r + 1 <= k, x < width; assert(o1[r * width + x] == output@[r * width + x]); }
                else { assert(r == k); assert(y_in@[x] == y@[k * padded_width + x]); }
            }
        }
//@at after loop 0
    proof { let (c, a, b, w) = (vx_c0 as int, y@.len() as int / padded_width as int, out0.len() as int / width as int, width as int); assert(c * w <= a * w && c * w <= b * w) by(nonlinear_arith) requires 0 <= c <= a, c <= b, w > 0; }
//@end
//@include prelude_end.inc
