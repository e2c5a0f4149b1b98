//@include prelude.inc
pub assume_specification<T>[<[T]>::reverse](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
// ===== C12: geometry =====
pub proof fn lemma_at(y: int, x: int, w: int, k: int) requires 0 <= x < w, 0 <= y < k ensures 0 <= y * w <= y * w + x < k * w, y * w + w <= k * w {
    assert(y * w + w <= k * w) by(nonlinear_arith) requires y < k, w > 0; assert(y * w >= 0) by(nonlinear_arith) requires y >= 0, w > 0;
}
pub proof fn lemma_rows(len: int, w: int) requires w > 0, len >= 0 ensures (len / w) * w <= len < (len / w) * w + w, len % w == 0 ==> (len / w) * w == len, len / w >= 0 {
    lemma_fundamental_div_mod(len, w); lemma_mod_bound(len, w); assert((len / w) * w == w * (len / w)) by(nonlinear_arith); lemma_div_pos_is_pos(len, w);
}
//@fn crates/zune-imageprocs/src/flip.rs :: flip
//@spec
    ensures final(in_out_image)@ == old(in_out_image)@.reverse()
//@at begin
    let vx_l = in_out_image.len(); let ghost old_s = in_out_image@;
//@loop 0
    length == old_s.len() / 2, in_img_top@.len() == length, in_img_bottom@.len() == old_s.len() - length, vx_c0 == length,
    vx_rv0_0 == in_img_bottom@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> #[trigger] in_img_top@[i] == old_s[old_s.len() - 1 - i],
    forall|i: int| vx_i0 <= i < length ==> #[trigger] in_img_top@[i] == old_s[i],
    forall|i: int| 0 <= i < in_img_bottom@.len() ==> #[trigger] in_img_bottom@[i] == if i + length > old_s.len() - 1 - vx_i0 { old_s[old_s.len() - 1 - i - length] } else { old_s[i + length] }
//@at after loop 0
    assert(in_img_top@ + in_img_bottom@ =~= old_s.reverse());
//@end
/// the sample at column x of row y of a raster w samples wide
pub open spec fn px<T>(s: Seq<T>, w: int, y: int, x: int) -> T { s[y * w + x] }
/// row y of b is row h-1-y of a
pub open spec fn rows_reversed<T>(b: Seq<T>, a: Seq<T>, w: int, h: int) -> bool { forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] px(b, w, y, x) == px(a, w, h - 1 - y, x) }
pub open spec fn cols_reversed<T>(b: Seq<T>, a: Seq<T>, w: int, h: int) -> bool { forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] px(b, w, y, x) == px(a, w, y, w - 1 - x) }
//@fn crates/zune-imageprocs/src/flip.rs :: vertical_flip
//@spec
    requires width > 0, old(channel)@.len() % width as nat == 0
    ensures final(channel)@.len() == old(channel)@.len(), rows_reversed(final(channel)@, old(channel)@, width as int, old(channel)@.len() as int / width as int)
//@at begin
    let vx_l = channel.len(); let ghost s0 = channel@; let ghost w = width as int; let ghost h = s0.len() as int / w;
    proof { lemma_rows(s0.len() as int, w); lemma_rows(s0.len() as int / 2, w); lemma_rows(s0.len() as int - s0.len() as int / 2, w);
        let l2 = s0.len() as int / 2; let a = l2 / w; let b = (s0.len() as int - l2) / w;
        assert(a == h / 2) by { lemma_div_denominator(s0.len() as int, 2, w); lemma_div_denominator(s0.len() as int, w, 2); assert(2 * w == w * 2) by(nonlinear_arith); }
        assert(b >= a) by { lemma_div_is_ordered(l2, s0.len() as int - l2, w); } }
//@loop 0
    len == s0.len(), w == width, w > 0, h * w == len, top@.len() == len / 2, bottom@.len() == len - len / 2, stride@.len() == width,
    vx_rl0_1 == bottom@.len(), vx_c0 == h / 2, h >= 0, (h / 2) * w <= len / 2,
    forall|y: int, x: int| 0 <= y < vx_i0 && 0 <= x < w ==> #[trigger] px(top@, w, y, x) == px(s0, w, h - 1 - y, x),
    forall|i: int| vx_i0 * w <= i < top@.len() ==> #[trigger] top@[i] == s0[i],
    forall|y: int, x: int| 0 <= y < vx_i0 && 0 <= x < w ==> #[trigger] px(s0, w, y, x) == bottom@[(h - 1 - y) * w + x - len / 2],
    forall|i: int| 0 <= i < bottom@.len() - vx_i0 * w ==> #[trigger] bottom@[i] == s0[i + len / 2]
//@at loop 0 begin
    let ghost (k, t0, b0) = (vx_k0 as int, top@, bottom@);
    proof { lemma_at(k, 0, w, h / 2); assert((k + 1) * w == k * w + w) by(nonlinear_arith); }
//@at loop 0 end
    proof {
        let l2 = len as int / 2;
        assert((h - 1 - k) * w == h * w - w - k * w) by(nonlinear_arith);
        assert(forall|i: int| k * w <= i < k * w + w ==> top@[i] == b0[bottom@.len() - k * w - w + (i - k * w)]);
        assert forall|y: int, x: int| 0 <= y < k + 1 && 0 <= x < w implies #[trigger] px(top@, w, y, x) == px(s0, w, h - 1 - y, x) by { if y < k { lemma_at(y, x, w, k); assert(px(t0, w, y, x) == px(s0, w, h - 1 - y, x)); } }
        assert forall|y: int, x: int| 0 <= y < k + 1 && 0 <= x < w implies #[trigger] px(s0, w, y, x) == bottom@[(h - 1 - y) * w + x - l2] by {
            assert((h - 1 - y) * w == h * w - w - y * w) by(nonlinear_arith); lemma_at(y, x, w, k + 1);
            if y < k { lemma_at(y, x, w, k); assert(b0[(h - 1 - y) * w + x - l2] == px(s0, w, y, x)); } else { assert(bottom@[bottom@.len() - k * w - w + x] == t0[k * w + x]); } }
    }
//@at after loop 0
    proof {
        let f = top@ + bottom@; let l2 = len as int / 2; let m = h / 2;
        assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] px(f, w, y, x) == px(s0, w, h - 1 - y, x) by {
            lemma_at(y, x, w, h); lemma_at(h - 1 - y, x, w, h);
            if y < m { lemma_at(y, x, w, m); assert(px(top@, w, y, x) == px(s0, w, h - 1 - y, x)); }
            else if h - 1 - y < m { assert(px(s0, w, h - 1 - y, x) == bottom@[(h - 1 - (h - 1 - y)) * w + x - l2]); assert(y * w >= h * w - m * w) by(nonlinear_arith) requires y >= h - m, w > 0; }
            else { assert(y == m && h == 2 * m + 1); assert(y * w == m * w); assert(len == m * w + m * w + w) by(nonlinear_arith) requires len == h * w, h == 2 * m + 1; if y * w + x < l2 {} else { assert(bottom@[y * w + x - l2] == s0[y * w + x]); } }
        }
    }
//@end
//@fn crates/zune-imageprocs/src/flip.rs :: flop
//@spec
    requires width > 0, old(in_out_image)@.len() % width as nat == 0
    ensures final(in_out_image)@.len() == old(in_out_image)@.len(), cols_reversed(final(in_out_image)@, old(in_out_image)@, width as int, old(in_out_image)@.len() as int / width as int)
//@at begin
    let vx_l = in_out_image.len(); let ghost s0 = in_out_image@; let ghost w = width as int; let ghost h = s0.len() as int / w;
    proof { lemma_rows(s0.len() as int, w); }
//@loop 0
    w == width, w > 0, h * w == s0.len(), s0.len() == vx_l, in_out_image@.len() == s0.len(), vx_c0 == h, h >= 0,
    forall|y: int, x: int| 0 <= y < vx_i0 && 0 <= x < w ==> #[trigger] px(in_out_image@, w, y, x) == px(s0, w, y, w - 1 - x),
    forall|i: int| vx_i0 * w <= i < s0.len() ==> #[trigger] in_out_image@[i] == s0[i]
//@at loop 0 begin
    let ghost (k, a0) = (vx_k0 as int, in_out_image@);
    proof { lemma_at(k, 0, w, h); assert((k + 1) * w == k * w + w) by(nonlinear_arith); }
//@at loop 0 body
    let ghost r0 = width_chunks@; let ghost m = w / 2;
//@loop 1
    w == width, w > 0, m == w / 2, left_to_right@.len() == m, right_to_left@.len() == w - m, vx_c1 == m, vx_rv1_0 == right_to_left@.len(), r0.len() == w,
    forall|i: int| 0 <= i < vx_i1 ==> #[trigger] left_to_right@[i] == r0[w - 1 - i],
    forall|i: int| vx_i1 <= i < m ==> #[trigger] left_to_right@[i] == r0[i],
    forall|i: int| 0 <= i < w - m ==> #[trigger] right_to_left@[i] == if i + m > w - 1 - vx_i1 { r0[w - 1 - i - m] } else { r0[i + m] }
//@at loop 0 end
    proof {
        assert(forall|i: int| k * w <= i < k * w + w ==> #[trigger] in_out_image@[i] == r0[w - 1 - (i - k * w)]);
        assert forall|y: int, x: int| 0 <= y < k + 1 && 0 <= x < w implies #[trigger] px(in_out_image@, w, y, x) == px(s0, w, y, w - 1 - x) by {
            if y < k { lemma_at(y, x, w, k); assert(px(a0, w, y, x) == px(s0, w, y, w - 1 - x)); } else { assert(in_out_image@[k * w + x] == r0[w - 1 - x]); } }
    }
//@end
/// mirroring keeps one half of each row (or of the rows) and reflects it onto the other; the middle, if any, stays
pub open spec fn mirrored<T>(b: Seq<T>, a: Seq<T>, w: int, h: int, mode: MirrorMode) -> bool { b.len() == a.len() && forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] px(b, w, y, x) == match mode {
    MirrorMode::West => if x >= w - w / 2 { px(a, w, y, w - 1 - x) } else { px(a, w, y, x) },
    MirrorMode::East => if x < w / 2 { px(a, w, y, w - 1 - x) } else { px(a, w, y, x) },
    MirrorMode::North => if y >= h - h / 2 { px(a, w, h - 1 - y, x) } else { px(a, w, y, x) },
    MirrorMode::South => if y < h / 2 { px(a, w, h - 1 - y, x) } else { px(a, w, y, x) } } }
//@type crates/zune-imageprocs/src/mirror.rs :: MirrorMode
//@attrs #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@fn crates/zune-imageprocs/src/mirror.rs :: mirror
//@spec
    requires width > 0, old(in_pixels)@.len() == width * height
    ensures mirrored(final(in_pixels)@, old(in_pixels)@, width as int, height as int, mode)
//@at begin
    let vx_l = in_pixels.len(); let ghost s0 = in_pixels@; let ghost w = width as int; let ghost h = height as int; let ghost m = w / 2; let ghost hm = h / 2;
    proof { assert(w * h == h * w) by(nonlinear_arith); lemma_div_multiples_vanish(h, w); assert(w * (h / 2) == hm * w) by(nonlinear_arith) requires hm == h / 2; assert(hm * w <= h * w) by(nonlinear_arith) requires hm <= h, w > 0; lemma_div_multiples_vanish(hm, w);
        assert(h * w - hm * w == (h - hm) * w) by(nonlinear_arith); lemma_div_multiples_vanish(h - hm, w); assert(h * w / w == h) by(nonlinear_arith) requires w > 0; assert(hm * w / w == hm) by(nonlinear_arith) requires w > 0; assert((h - hm) * w / w == h - hm) by(nonlinear_arith) requires w > 0; assert(hm * w >= 0) by(nonlinear_arith) requires hm >= 0, w > 0; }
//@loop 0
    w == width, w > 0, h == height, m == w / 2, h * w == s0.len(), s0.len() == vx_l, in_pixels@.len() == s0.len(), vx_c0 == h, h >= 0, mode == MirrorMode::East || mode == MirrorMode::West,
    forall|y: int, x: int| 0 <= y < vx_i0 && 0 <= x < w ==> #[trigger] px(in_pixels@, w, y, x) == (if mode == MirrorMode::West { if x >= w - m { px(s0, w, y, w - 1 - x) } else { px(s0, w, y, x) } } else { if x < m { px(s0, w, y, w - 1 - x) } else { px(s0, w, y, x) } }),
    forall|i: int| vx_i0 * w <= i < s0.len() ==> #[trigger] in_pixels@[i] == s0[i]
//@at loop 0 begin
    let ghost (k, a0) = (vx_k0 as int, in_pixels@);
    proof { lemma_at(k, 0, w, h); assert((k + 1) * w == k * w + w) by(nonlinear_arith); }
//@at loop 0 body
    let ghost r0 = width_stride@;
//@loop 1
    w == width, w > 0, m == w / 2, left@.len() == m, right@.len() == w - m, vx_c1 == m, vx_rv1_0 == right@.len(), r0.len() == w,
    forall|i: int| 0 <= i < m ==> #[trigger] left@[i] == r0[i],
    forall|i: int| 0 <= i < w - m ==> #[trigger] right@[i] == if i + m > w - 1 - vx_i1 { r0[w - 1 - i - m] } else { r0[i + m] }
//@loop 2
    w == width, w > 0, m == w / 2, left@.len() == m, right@.len() == w - m, vx_c2 == m, vx_rv2_0 == right@.len(), r0.len() == w,
    forall|i: int| 0 <= i < vx_i2 ==> #[trigger] left@[i] == r0[w - 1 - i],
    forall|i: int| vx_i2 <= i < m ==> #[trigger] left@[i] == r0[i],
    forall|i: int| 0 <= i < w - m ==> #[trigger] right@[i] == r0[i + m]
//@at loop 0 end
    proof {
        assert(forall|i: int| k * w <= i < k * w + w ==> #[trigger] in_pixels@[i] == if mode == MirrorMode::West { if i - k * w >= w - m { r0[w - 1 - (i - k * w)] } else { r0[i - k * w] } } else { if i - k * w < m { r0[w - 1 - (i - k * w)] } else { r0[i - k * w] } });
        assert forall|y: int, x: int| 0 <= y < k + 1 && 0 <= x < w implies #[trigger] px(in_pixels@, w, y, x) == (if mode == MirrorMode::West { if x >= w - m { px(s0, w, y, w - 1 - x) } else { px(s0, w, y, x) } } else { if x < m { px(s0, w, y, w - 1 - x) } else { px(s0, w, y, x) } }) by {
            if y < k { lemma_at(y, x, w, k); assert(px(a0, w, y, x) == px(in_pixels@, w, y, x)); } else { assert(in_pixels@[k * w + x] == px(in_pixels@, w, y, x)); } }
    }
//@loop 3
    w == width, w > 0, h == height, hm == h / 2, h * w == s0.len(), top@.len() == hm * w, bottom@.len() == (h - hm) * w, vx_c3 == hm, vx_rl3_1 == bottom@.len(), mode == MirrorMode::North || mode == MirrorMode::South,
    forall|y: int, x: int| 0 <= y < hm && 0 <= x < w ==> #[trigger] px(top@, w, y, x) == if mode == MirrorMode::South && y < vx_i3 { px(s0, w, h - 1 - y, x) } else { px(s0, w, y, x) },
    forall|y: int, x: int| 0 <= y < h - hm && 0 <= x < w ==> #[trigger] px(bottom@, w, y, x) == if mode == MirrorMode::North && y + hm > h - 1 - vx_i3 { px(s0, w, h - 1 - y - hm, x) } else { px(s0, w, y + hm, x) }
//@at before loop 3
    proof {
        assert forall|y: int, x: int| 0 <= y < hm && 0 <= x < w implies #[trigger] px(top@, w, y, x) == px(s0, w, y, x) by { lemma_at(y, x, w, hm); }
        assert forall|y: int, x: int| 0 <= y < h - hm && 0 <= x < w implies #[trigger] px(bottom@, w, y, x) == px(s0, w, y + hm, x) by { lemma_at(y, x, w, h - hm); assert((y + hm) * w == y * w + hm * w) by(nonlinear_arith); }
    }
//@at loop 3 begin
    let ghost (k, t0, b0) = (vx_k3 as int, top@, bottom@); let ghost kb = h - hm - 1 - k;
    proof { lemma_at(k, 0, w, hm); lemma_at(kb, 0, w, h - hm); assert(kb * w == (h - hm) * w - k * w - w) by(nonlinear_arith) requires kb == h - hm - 1 - k; }
//@at loop 3 end
    proof {
        assert forall|y: int, x: int| 0 <= y < hm && 0 <= x < w implies #[trigger] px(top@, w, y, x) == (if mode == MirrorMode::South && y < k + 1 { px(s0, w, h - 1 - y, x) } else { px(s0, w, y, x) }) by {
            lemma_at(y, x, w, hm); assert(px(t0, w, y, x) == t0[y * w + x]);
            if y < k { lemma_at(y, x, w, k); } else if y > k { lemma_at(k, x, w, y); } else if mode == MirrorMode::South { assert(top@[k * w + x] == b0[kb * w + x]); assert(px(b0, w, kb, x) == px(s0, w, kb + hm, x)); }
        }
        assert forall|y: int, x: int| 0 <= y < h - hm && 0 <= x < w implies #[trigger] px(bottom@, w, y, x) == (if mode == MirrorMode::North && y + hm > h - 1 - (k + 1) { px(s0, w, h - 1 - y - hm, x) } else { px(s0, w, y + hm, x) }) by {
            lemma_at(y, x, w, h - hm); assert(px(b0, w, y, x) == b0[y * w + x]);
            if y < kb { lemma_at(y, x, w, kb); } else if y > kb { lemma_at(kb, x, w, y); } else if mode == MirrorMode::North { assert(bottom@[kb * w + x] == t0[k * w + x]); assert(px(t0, w, k, x) == px(s0, w, k, x)); }
        }
    }
//@at after loop 3
    proof {
        let f = top@ + bottom@;
        assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] px(f, w, y, x) == (if y < hm { px(top@, w, y, x) } else { px(bottom@, w, y - hm, x) }) by {
            if y < hm { lemma_at(y, x, w, hm); } else { lemma_at(y - hm, x, w, h - hm); assert(y * w == (y - hm) * w + hm * w) by(nonlinear_arith); } }
    }
//@end
//@fn crates/zune-imageprocs/src/crop.rs :: crop
//@spec
    requires in_width > 0, out_width > 0, x + out_width <= in_width, old(out_image)@.len() == out_width * out_height, (y + out_height) * in_width <= in_image@.len()
    ensures final(out_image)@.len() == old(out_image)@.len(), forall|r: int, c: int| 0 <= r < out_height && 0 <= c < out_width ==> #[trigger] px(final(out_image)@, out_width as int, r, c) == px(in_image@, in_width as int, y + r, x + c)
//@at begin
    let vx_l = out_image.len(); let vx_l2 = in_image.len(); let ghost (w, ow, oh) = (in_width as int, out_width as int, out_height as int); let ghost n = in_image@.len() as int / w;
    proof { lemma_rows(in_image@.len() as int, w); assert(y + oh <= n) by { lemma_div_is_ordered((y + oh) * w, in_image@.len() as int, w); assert((y + oh) * w / w == y + oh) by(nonlinear_arith) requires w > 0; }
        assert(ow * oh == oh * ow) by(nonlinear_arith); assert(oh * ow / ow == oh) by(nonlinear_arith) requires ow > 0; }
//@loop 0
    w == in_width, ow == out_width, oh == out_height, w > 0, ow > 0, x + ow <= w, out_image@.len() == oh * ow, oh * ow == vx_l, (y + oh) * w <= in_image@.len(), in_image@.len() == vx_l2, vx_c0 == oh,
    forall|r: int, c: int| 0 <= r < vx_i0 && 0 <= c < ow ==> #[trigger] px(out_image@, ow, r, c) == px(in_image@, w, y + r, x + c)
//@at loop 0 begin
    let ghost (k, o0) = (vx_k0 as int, out_image@);
    proof { lemma_at(k, 0, ow, oh); lemma_at(y + k, 0, w, y + oh); assert((y + k) * w >= 0); assert(y + k <= (y + k) * w) by(nonlinear_arith) requires w >= 1, y + k >= 0; }
//@at loop 0 end
    proof {
        assert forall|r: int, c: int| 0 <= r < k + 1 && 0 <= c < ow implies #[trigger] px(out_image@, ow, r, c) == px(in_image@, w, y + r, x + c) by {
            if r < k { lemma_at(r, c, ow, k); assert(px(o0, ow, r, c) == px(in_image@, w, y + r, x + c)); } else { assert(out_image@[k * ow + c] == in_image@[(y + k) * w + x + c]); } }
    }
//@end
//@fn crates/zune-imageprocs/src/rotate.rs :: rotate_180
//@spec
    ensures final(in_out_image)@ == old(in_out_image)@.reverse()
//@end
//@fn crates/zune-imageprocs/src/rotate.rs :: rotate_90
//@spec
    requires width > 0, height > 0, in_image@.len() == width * height, old(out_image)@.len() == width * height
    ensures final(out_image)@.len() == old(out_image)@.len(), forall|y: int, x: int| 0 <= y < height && 0 <= x < width ==> #[trigger] px(final(out_image)@, height as int, x, height - 1 - y) == px(in_image@, width as int, y, x)
//@at begin
    let vx_l = in_image.len(); let vx_l2 = out_image.len(); let ghost (w, h) = (width as int, height as int);
    proof { assert(w * h == h * w) by(nonlinear_arith); assert(h * w / w == h) by(nonlinear_arith) requires w > 0; }
//@loop 0
    w == width, h == height, w > 0, h > 0, in_image@.len() == h * w, h * w == w * h, out_image@.len() == w * h, w * h == vx_l, vx_c0 == h,
    forall|r: int, c: int| 0 <= r < vx_i0 && 0 <= c < w ==> #[trigger] px(out_image@, h, c, h - 1 - r) == px(in_image@, w, r, c)
//@at loop 0 begin
    proof { lemma_at(vx_k0 as int, 0, w, h); }
//@loop 1
    w == width, h == height, w > 0, h > 0, in_image@.len() == h * w, h * w == w * h, out_image@.len() == w * h, w * h == vx_l, vx_c1 == w, y == vx_k0, y < h, idx == h - 1 - y, pixels@ == in_image@.subrange(y * w, y * w + w), y * w + w <= h * w,
    forall|r: int, c: int| 0 <= r < vx_k0 && 0 <= c < w ==> #[trigger] px(out_image@, h, c, h - 1 - r) == px(in_image@, w, r, c),
    forall|c: int| 0 <= c < vx_i1 ==> #[trigger] px(out_image@, h, c, h - 1 - y) == px(in_image@, w, y as int, c)
//@at loop 1 begin
    let ghost (k, o0) = (vx_k1 as int, out_image@);
    proof { lemma_at(k, idx as int, h, w); lemma_at(y as int, k, w, h); }
//@at loop 1 end
    proof {
        assert(out_image@[k * h + idx] == in_image@[y * w + k]);
        assert forall|r: int, c: int| 0 <= r < vx_k0 && 0 <= c < w implies #[trigger] px(out_image@, h, c, h - 1 - r) == px(in_image@, w, r, c) by { assert(px(o0, h, c, h - 1 - r) == px(in_image@, w, r, c)); lemma_at(c, h - 1 - r, h, w); if c < k { lemma_at(c, h - 1 - r, h, k); } else if c > k { lemma_at(k, idx as int, h, c); } }
        assert forall|c: int| 0 <= c < k + 1 implies #[trigger] px(out_image@, h, c, h - 1 - y) == px(in_image@, w, y as int, c) by { if c < k { assert(px(o0, h, c, h - 1 - y) == px(in_image@, w, y as int, c)); lemma_at(c, h - 1 - y, h, k); } }
    }
//@end
//@fn crates/zune-imageprocs/src/rotate.rs :: rotate_270
//@spec
    requires width > 0, height > 0, in_image@.len() == width * height, old(out_image)@.len() == width * height
    ensures final(out_image)@.len() == old(out_image)@.len(), forall|y: int, x: int| 0 <= y < height && 0 <= x < width ==> #[trigger] px(final(out_image)@, height as int, width - 1 - x, y) == px(in_image@, width as int, y, x)
//@at begin
    let vx_l = in_image.len(); let vx_l2 = out_image.len(); let ghost (w, h) = (width as int, height as int);
    proof { assert(w * h == h * w) by(nonlinear_arith); assert(h * w / w == h) by(nonlinear_arith) requires w > 0; }
//@loop 0
    w == width, h == height, w > 0, h > 0, in_image@.len() == h * w, h * w == w * h, out_image@.len() == w * h, w * h == vx_l, vx_c0 == h,
    forall|r: int, c: int| 0 <= r < vx_i0 && 0 <= c < w ==> #[trigger] px(out_image@, h, w - 1 - c, r) == px(in_image@, w, r, c)
//@at loop 0 begin
    proof { lemma_at(vx_k0 as int, 0, w, h); }
//@loop 1
    w == width, h == height, w > 0, h > 0, in_image@.len() == h * w, h * w == w * h, out_image@.len() == w * h, w * h == vx_l, vx_c1 == w, y == vx_k0, y < h, pixels@ == in_image@.subrange(y * w, y * w + w), y * w + w <= h * w,
    forall|r: int, c: int| 0 <= r < vx_k0 && 0 <= c < w ==> #[trigger] px(out_image@, h, w - 1 - c, r) == px(in_image@, w, r, c),
    forall|c: int| 0 <= c < vx_i1 ==> #[trigger] px(out_image@, h, w - 1 - c, y as int) == px(in_image@, w, y as int, c)
//@at loop 1 begin
    let ghost (k, o0) = (vx_k1 as int, out_image@);
    proof { lemma_at(w - 1 - k, y as int, h, w); lemma_at(y as int, k, w, h); }
//@at loop 1 end
    proof {
        assert(out_image@[(w - 1 - k) * h + y] == in_image@[y * w + k]);
        assert forall|r: int, c: int| 0 <= r < vx_k0 && 0 <= c < w implies #[trigger] px(out_image@, h, w - 1 - c, r) == px(in_image@, w, r, c) by { assert(px(o0, h, w - 1 - c, r) == px(in_image@, w, r, c)); lemma_at(w - 1 - c, r, h, w); if c < k { lemma_at(w - 1 - k, y as int, h, w - 1 - c); } else if c > k { lemma_at(w - 1 - c, r, h, w - 1 - k); } }
        assert forall|c: int| 0 <= c < k + 1 implies #[trigger] px(out_image@, h, w - 1 - c, y as int) == px(in_image@, w, y as int, c) by { if c < k { assert(px(o0, h, w - 1 - c, y as int) == px(in_image@, w, y as int, c)); lemma_at(w - 1 - c, y as int, h, w); lemma_at(w - 1 - k, y as int, h, w - 1 - c); } }
    }
//@end
proof fn lemma_inj(x: int, y: int, x2: int, y2: int, h: int) requires 0 <= y < h, 0 <= y2 < h, 0 <= x, 0 <= x2, x * h + y == x2 * h + y2 ensures x == x2, y == y2 {
    if x < x2 { lemma_at(x, y, h, x2); } else if x2 < x { lemma_at(x2, y2, h, x); }
}
proof fn lemma_ceil(n: int, w: int) requires w > 0, 7 * w < n <= 8 * w ensures (n + w - 1) / w == 8 {
    lemma_fundamental_div_mod_converse(n + w - 1, w, 8, n + w - 1 - 8 * w);
}
/// sample (x, y) of the source is at (y, x) of the result
pub open spec fn tp<T>(o: Seq<T>, a: Seq<T>, w: int, h: int, y: int, x: int) -> bool { px(o, h, x, y) == px(a, w, y, x) }
/// writing the right value at one position keeps every other position
proof fn lemma_keep<T>(o: Seq<T>, o2: Seq<T>, a: Seq<T>, w: int, h: int, y0: int, x0: int) requires 0 < w, 0 < h, o.len() == w * h, 0 <= y0 < h, 0 <= x0 < w, o2 == o.update(x0 * h + y0, px(a, w, y0, x0))
    ensures forall|y: int, x: int| 0 <= y < h && 0 <= x < w && #[trigger] tp(o, a, w, h, y, x) ==> tp(o2, a, w, h, y, x), tp(o2, a, w, h, y0, x0), forall|y: int, x: int| 0 <= y < h && 0 <= x < w && !(x == x0 && y == y0) ==> (#[trigger] tp(o2, a, w, h, y, x)) == tp(o, a, w, h, y, x) {
    lemma_at(x0, y0, h, w);
    assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w && !(x == x0 && y == y0) implies #[trigger] px(o2, h, x, y) == px(o, h, x, y) by { lemma_at(x, y, h, w); if x * h + y == x0 * h + y0 { lemma_inj(x, y, x0, y0, h); } }
    assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w && #[trigger] tp(o, a, w, h, y, x) implies tp(o2, a, w, h, y, x) by { if !(x == x0 && y == y0) { assert(px(o2, h, x, y) == px(o, h, x, y)); } }
    assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w && !(x == x0 && y == y0) implies (#[trigger] tp(o2, a, w, h, y, x)) == tp(o, a, w, h, y, x) by { assert(px(o2, h, x, y) == px(o, h, x, y)); }
}
//@fn crates/zune-imageprocs/src/transpose/scalar.rs :: transpose_scalar
//@iter in_width let
//@spec
    requires 0 < width <= 0x1000_0000_0000, 0 < height <= 0x1000_0000_0000, width * height <= usize::MAX, in_matrix@.len() == width * height, old(out_matrix)@.len() == width * height
    ensures final(out_matrix)@.len() == old(out_matrix)@.len(), forall|y: int, x: int| 0 <= y < height && 0 <= x < width ==> #[trigger] tp(final(out_matrix)@, in_matrix@, width as int, height as int, y, x)
//@at begin
    let vx_l = in_matrix.len(); let ghost (w, h) = (width as int, height as int); let ghost wm = 8 * (w / 8); let ghost hm = 8 * (h / 8);
    proof { assert(w * h == h * w) by(nonlinear_arith);
        assert((width & 7) == width % 8) by(bit_vector); assert((height & 7) == height % 8) by(bit_vector);
        let n = w * h; lemma_rows(n, 8 * w); let q = n / (8 * w); assert(q == h / 8) by { lemma_div_denominator(n, w, 8); assert(w * 8 == 8 * w); assert(h * w / w == h) by(nonlinear_arith) requires w > 0; } }
//@loop 0
    w == width, h == height, 0 < w <= 0x1000_0000_0000, 0 < h <= 0x1000_0000_0000, wm == 8 * (w / 8), hm == 8 * (h / 8), w * h == vx_l, h * w == w * h, in_matrix@.len() == w * h, out_matrix@.len() == w * h, sin_height == 8 * w, width_iterations == w / 8, vx_c0 == h / 8,
    forall|y: int, x: int| 0 <= y < 8 * vx_i0 && 0 <= x < wm ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x)
//@at loop 0 begin
    proof { lemma_at(vx_k0 as int, 0, 8 * w, h / 8); assert((h / 8) * (8 * w) <= h * w) by(nonlinear_arith) requires w > 0, 8 * (h / 8) <= h; }
//@at loop 0 body
    let ghost src0 = 8 * vx_k0 * w; proof { assert(vx_k0 * (8 * w) == src0) by(nonlinear_arith) requires src0 == 8 * vx_k0 * w; }
//@loop 1
    w == width, h == height, 0 < w <= 0x1000_0000_0000, 0 < h <= 0x1000_0000_0000, wm == 8 * (w / 8), hm == 8 * (h / 8), w * h == vx_l, h * w == w * h, in_matrix@.len() == w * h, out_matrix@.len() == w * h, width_iterations == w / 8, vx_c1 == w / 8, vx_r1lo == 0, i == vx_k0, 8 * i + 8 <= hm, src0 == 8 * i * w, in_width_stride@.len() == 8 * w, src0 + 8 * w <= w * h,
    forall|z: int| 0 <= z < 8 * w ==> #[trigger] in_width_stride@[z] == in_matrix@[src0 + z],
    forall|y: int, x: int| 0 <= y < 8 * i && 0 <= x < wm ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| 8 * i <= y < 8 * i + 8 && 0 <= x < 8 * vx_i1 ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x)
//@at loop 1 begin
    let ghost mut ohs1 = Seq::<T>::empty(); let ghost mut tmp1 = Seq::<T>::empty(); let ghost mut ohs0g = Seq::<T>::empty();
    let ghost (jj, o1) = (vx_k1 as int, out_matrix@); let ghost base = (8 * jj) * h + 8 * vx_k0;
    proof { assert(jj * h * 8 == 8 * jj * h) by(nonlinear_arith); lemma_at(8 * jj, 8 * vx_k0 as int, h, w); assert(jj * h <= jj * h * 8) by(nonlinear_arith) requires jj >= 0, h > 0; assert(jj * h >= 0) by(nonlinear_arith) requires jj >= 0, h > 0; }
//@loop 2
    w == width, 0 < w, jj == j, 8 * jj + 8 <= w, in_width_stride@.len() == 8 * w, 8 * w <= usize::MAX, vx_lo2_0 == 8 * jj, vx_hi2_0 == 8 * w, vx_c2 == 8,
    forall|k2: int, l2: int| 0 <= k2 < vx_i2 && 0 <= l2 < 8 ==> #[trigger] temp_matrix@[l2 * 8 + k2] == in_width_stride@[8 * jj + k2 * w + l2]
//@at before loop 2
    proof { lemma_ceil(8 * w - 8 * jj, w); }
//@at loop 2 begin
    proof { assert(vx_k2 * w <= 7 * w) by(nonlinear_arith) requires vx_k2 <= 7, w > 0; assert(vx_k2 * w >= 0) by(nonlinear_arith) requires vx_k2 >= 0, w > 0; }
//@loop 3
    w == width, 0 < w, jj == j, 8 * jj + 8 <= w, k == vx_k2, k < 8, in_width_stride@.len() == 8 * w, 8 * w <= usize::MAX, vx_c3 == 8, 0 <= k * w <= 7 * w, w_d@.len() >= 8,
    forall|z: int| 0 <= z < w_d@.len() ==> #[trigger] w_d@[z] == in_width_stride@[8 * jj + k * w + z],
    forall|k2: int, l2: int| 0 <= k2 < vx_k2 && 0 <= l2 < 8 ==> #[trigger] temp_matrix@[l2 * 8 + k2] == in_width_stride@[8 * jj + k2 * w + l2],
    forall|l2: int| 0 <= l2 < vx_i3 ==> #[trigger] temp_matrix@[l2 * 8 + k] == in_width_stride@[8 * jj + k * w + l2]
//@loop 4
    w == width, h == height, 0 < w, 0 < h, jj == j, i == vx_k0, 8 * jj + 8 <= w, 8 * i + 8 <= h, w * h == vx_l, vx_c4 == 8, base == (8 * jj) * h + 8 * i, ohs0.len() == w * h - base, out_height_stride@.len() == ohs0.len(), stride_start == vx_i4 * h, 8 * h <= usize::MAX, temp_matrix@.len() == 64, base >= 0,
    forall|s: int, c: int| 0 <= s < vx_i4 && 0 <= c < 8 ==> #[trigger] out_height_stride@[s * h + c] == temp_matrix@[s * 8 + c],
    forall|z: int| 0 <= z < ohs0.len() && !(exists|s: int| 0 <= s < 8 && s * h <= z < #[trigger] (s * h) + 8) ==> #[trigger] out_height_stride@[z] == ohs0[z]
//@at before loop 4
    let ghost ohs0 = out_height_stride@; proof { ohs0g = ohs0; assert(forall|z: int| 0 <= z < ohs0.len() ==> #[trigger] ohs0[z] == o1[base + z]); }
//@at loop 4 begin
    let ghost (s4, p4) = (vx_k4 as int, out_height_stride@);
    proof { assert(base + s4 * h + 8 <= w * h) by { assert((8 * jj) * h + s4 * h == (8 * jj + s4) * h) by(nonlinear_arith); lemma_at(8 * jj + s4, 8 * i + 7, h, w); } assert(s4 * h <= 7 * h) by(nonlinear_arith) requires s4 <= 7, h > 0; assert(s4 * h >= 0) by(nonlinear_arith) requires s4 >= 0, h > 0; assert((s4 + 1) * h == s4 * h + h) by(nonlinear_arith); }
//@at loop 4 end
    proof {
        assert forall|s: int, c: int| 0 <= s < s4 + 1 && 0 <= c < 8 implies #[trigger] out_height_stride@[s * h + c] == temp_matrix@[s * 8 + c] by { if s < s4 { lemma_at(s, c, h, s4); assert(p4[s * h + c] == temp_matrix@[s * 8 + c]); } }
        assert forall|z: int| 0 <= z < ohs0.len() && !(exists|s: int| 0 <= s < 8 && s * h <= z < #[trigger] (s * h) + 8) implies #[trigger] out_height_stride@[z] == ohs0[z] by { assert(!(s4 * h <= z < (s4 * h) + 8)); assert(p4[z] == ohs0[z]); }
    }
//@at after loop 4
    proof { ohs1 = out_height_stride@; tmp1 = temp_matrix@; }
//@at loop 1 end
    proof {
        let i8 = 8 * vx_k0 as int;
        assert(forall|z: int| 0 <= z < base ==> #[trigger] out_matrix@[z] == o1[z]);
        assert forall|y: int, x: int| 0 <= y < i8 + 8 && 0 <= x < wm && (y < i8 || x < 8 * jj + 8) && (y < i8 || x >= 8 * jj || true) implies #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x) by {
            lemma_at(x, y, h, w);
            if y >= i8 && 8 * jj <= x < 8 * jj + 8 {
                let (s, c) = (x - 8 * jj, y - i8); assert(x * h == (8 * jj) * h + s * h) by(nonlinear_arith) requires s == x - 8 * jj;
                assert(s * h >= 0) by(nonlinear_arith) requires s >= 0, h > 0;
                assert(ohs1[s * h + c] == tmp1[s * 8 + c]); assert(tmp1[s * 8 + c] == in_width_stride@[8 * jj + c * w + s]);
                assert((i8 + c) * w == i8 * w + c * w) by(nonlinear_arith); assert(c * w <= 7 * w) by(nonlinear_arith) requires c <= 7, w > 0; assert(c * w >= 0) by(nonlinear_arith) requires c >= 0, w > 0;
            } else {
                let z = x * h + y;
                assert(tp(o1, in_matrix@, w, h, y, x));
                if z >= base {
                    assert forall|s: int| 0 <= s < 8 implies !(s * h <= z - base < #[trigger] (s * h) + 8) by { if s * h <= z - base < s * h + 8 { let c = z - base - s * h; assert((8 * jj + s) * h == 8 * jj * h + s * h) by(nonlinear_arith); lemma_inj(x, y, 8 * jj + s, i8 + c, h); } }
                    assert(ohs1[z - base] == ohs0g[z - base]);
                }
            }
        }
    }
//@loop 5
    w == width, h == height, 0 < w, 0 < h, wm == 8 * (w / 8), hm == 8 * (h / 8), rem_h == hm, w * h == vx_l, h * w == w * h, in_matrix@.len() == w * h, out_matrix@.len() == w * h, vx_r5lo == hm, vx_c5 == h - hm,
    forall|y: int, x: int| 0 <= y < hm && 0 <= x < wm ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| hm <= y < hm + vx_i5 && 0 <= x < w ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x)
//@loop 6
    w == width, h == height, 0 < w, 0 < h, wm == 8 * (w / 8), hm == 8 * (h / 8), w * h == vx_l, h * w == w * h, in_matrix@.len() == w * h, out_matrix@.len() == w * h, i == hm + vx_k5, i < h, vx_r6lo == 0, vx_c6 == w,
    forall|y: int, x: int| 0 <= y < hm && 0 <= x < wm ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| hm <= y < i && 0 <= x < w ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|x: int| 0 <= x < vx_i6 ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, i as int, x)
//@at loop 6 begin
    let ghost o6 = out_matrix@;
    proof { lemma_at(vx_k6 as int, i as int, h, w); lemma_at(i as int, vx_k6 as int, w, h); }
//@at loop 6 end
    proof {
        lemma_keep(o6, out_matrix@, in_matrix@, w, h, i as int, j as int);
        assert(tp(out_matrix@, in_matrix@, w, h, i as int, j as int));
    }
//@loop 7
    w == width, h == height, 0 < w, 0 < h, wm == 8 * (w / 8), hm == 8 * (h / 8), rem_w == wm, w * h == vx_l, h * w == w * h, in_matrix@.len() == w * h, out_matrix@.len() == w * h, vx_r7lo == wm, vx_c7 == w - wm,
    forall|y: int, x: int| 0 <= y < hm && 0 <= x < wm ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| hm <= y < h && 0 <= x < w ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| 0 <= y < h && wm <= x < wm + vx_i7 ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x)
//@loop 8
    w == width, h == height, 0 < w, 0 < h, wm == 8 * (w / 8), hm == 8 * (h / 8), w * h == vx_l, h * w == w * h, in_matrix@.len() == w * h, out_matrix@.len() == w * h, i == wm + vx_k7, i < w, vx_r8lo == 0, vx_c8 == h,
    forall|y: int, x: int| 0 <= y < hm && 0 <= x < wm ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| hm <= y < h && 0 <= x < w ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int, x: int| 0 <= y < h && wm <= x < i ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, x),
    forall|y: int| 0 <= y < vx_i8 ==> #[trigger] tp(out_matrix@, in_matrix@, w, h, y, i as int)
//@at loop 8 begin
    let ghost o6 = out_matrix@;
    proof { lemma_at(i as int, vx_k8 as int, h, w); lemma_at(vx_k8 as int, i as int, w, h); }
//@at loop 8 end
    proof {
        lemma_keep(o6, out_matrix@, in_matrix@, w, h, j as int, i as int);
        assert(tp(out_matrix@, in_matrix@, w, h, j as int, i as int));
    }
//@end
// ===== the operations that are their own inverse restore the image =====
pub fn theorem_flip_twice<T: Copy>(s: &mut [T]) ensures final(s)@ == old(s)@ { let ghost s0 = s@; flip(s); flip(s); proof { assert(s@ =~= s0); } }
pub fn theorem_rotate_180_twice<T: Copy>(s: &mut [T]) ensures final(s)@ == old(s)@ { let ghost s0 = s@; rotate_180(s); rotate_180(s); proof { assert(s@ =~= s0); } }
pub proof fn lemma_raster_ext<T>(a: Seq<T>, b: Seq<T>, w: int, h: int) requires w > 0, a.len() == h * w, b.len() == h * w, forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] px(a, w, y, x) == px(b, w, y, x) ensures a == b {
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { let (y, x) = (i / w, i % w); lemma_fundamental_div_mod(i, w); lemma_mod_bound(i, w); assert(y * w == w * y) by(nonlinear_arith); lemma_div_pos_is_pos(i, w);
        assert(y < h) by { if y >= h { assert(y * w >= h * w) by(nonlinear_arith) requires y >= h, w > 0; } } assert(px(a, w, y, x) == px(b, w, y, x)); }
    assert(a =~= b);
}
pub fn theorem_vertical_flip_twice<T: Copy + Default>(s: &mut [T], width: usize) requires width > 0, old(s)@.len() % width as nat == 0 ensures final(s)@ == old(s)@ {
    let ghost s0 = s@; let ghost (w, h) = (width as int, s@.len() as int / width as int); proof { lemma_rows(s0.len() as int, w); }
    vertical_flip(s, width); let ghost s1 = s@; vertical_flip(s, width);
    proof { assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] px(s@, w, y, x) == px(s0, w, y, x) by { assert(px(s@, w, y, x) == px(s1, w, h - 1 - y, x)); assert(px(s1, w, h - 1 - y, x) == px(s0, w, y, x)); } lemma_raster_ext(s@, s0, w, h); }
}
pub fn theorem_flop_twice<T: Copy>(s: &mut [T], width: usize) requires width > 0, old(s)@.len() % width as nat == 0 ensures final(s)@ == old(s)@ {
    let ghost s0 = s@; let ghost (w, h) = (width as int, s@.len() as int / width as int); proof { lemma_rows(s0.len() as int, w); }
    flop(s, width); let ghost s1 = s@; flop(s, width);
    proof { assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] px(s@, w, y, x) == px(s0, w, y, x) by { assert(px(s@, w, y, x) == px(s1, w, y, w - 1 - x)); assert(px(s1, w, y, w - 1 - x) == px(s0, w, y, x)); } lemma_raster_ext(s@, s0, w, h); }
}
pub fn theorem_transpose_twice<T: Copy + Default>(a: &[T], t: &mut [T], u: &mut [T], width: usize, height: usize)
    requires 0 < width <= 0x1000_0000_0000, 0 < height <= 0x1000_0000_0000, width * height <= usize::MAX, a@.len() == width * height, old(t)@.len() == width * height, old(u)@.len() == width * height
    ensures final(u)@ == a@
{
    let ghost (w, h) = (width as int, height as int);
    transpose_scalar(a, t, width, height);
    proof { assert(w * h == h * w) by(nonlinear_arith); }
    transpose_scalar(t, u, height, width);
    proof { assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] px(u@, w, y, x) == px(a@, w, y, x) by { assert(tp(u@, t@, h, w, x, y)); assert(tp(t@, a@, w, h, y, x)); } lemma_raster_ext(u@, a@, w, h); }
}
/// a quarter turn one way and a quarter turn the other way restore the image
pub fn theorem_rotate_90_270<T: Copy>(a: &[T], t: &mut [T], u: &mut [T], width: usize, height: usize)
    requires 0 < width, 0 < height, a@.len() == width * height, old(t)@.len() == width * height, old(u)@.len() == width * height
    ensures final(u)@ == a@
{
    let ghost (w, h) = (width as int, height as int);
    rotate_90(a, t, width, height);
    proof { assert(w * h == h * w) by(nonlinear_arith); }
    rotate_270(t, u, height, width);
    proof { assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] px(u@, w, y, x) == px(a@, w, y, x) by {
        assert(px(t@, h, x, h - 1 - y) == px(a@, w, y, x)); assert(px(u@, w, h - 1 - (h - 1 - y), x) == px(t@, h, x, h - 1 - y)); } lemma_raster_ext(u@, a@, w, h); }
}
//@include prelude_end.inc
