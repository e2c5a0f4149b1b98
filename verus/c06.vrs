//@include prelude.inc
//@include bytes.inc
//@include core.inc
// ===== C06: PNG sample expansion =====
//@type crates/zune-png/src/decoder.rs :: PLTEEntry
//@attrs #[derive(Copy, Clone)]
//@end
//@type crates/zune-png/src/enums.rs :: PngColor
//@attrs #[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
//@end
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the bytes of the colour a palette index stands for
pub open spec fn pal(p: PLTEEntry, c: int) -> u8 { if c == 0 { p.red } else if c == 1 { p.green } else if c == 2 { p.blue } else { p.alpha } }
//@fn crates/zune-png/src/utils.rs :: expand_palette
//@spec
    ensures final(out).len() == old(out).len(),
        (components == 3 || components == 4) ==> ({ let n = imin(input.len() as int, old(out).len() as int / components as int);
            &&& forall|i: int, c: int| 0 <= i < n && 0 <= c < components ==> #[trigger] final(out)@[i * components + c] == pal(palette[input@[i] as int], c)
            &&& forall|k: int| n * components <= k < old(out).len() ==> #[trigger] final(out)@[k] == old(out)@[k] }),
//@loop 0
    out.len() == old(out).len(), vx_c0 == imin(input.len() as int, out.len() as int / 3), forall|i: int, c: int| 0 <= i < vx_i0 && 0 <= c < 3 ==> #[trigger] out@[i * 3 + c] == pal(palette[input@[i] as int], c), forall|k: int| 3 * vx_i0 <= k < out.len() ==> #[trigger] out@[k] == old(out)@[k],
//@loop 1
    out.len() == old(out).len(), vx_c1 == imin(input.len() as int, out.len() as int / 4), forall|i: int, c: int| 0 <= i < vx_i1 && 0 <= c < 4 ==> #[trigger] out@[i * 4 + c] == pal(palette[input@[i] as int], c), forall|k: int| 4 * vx_i1 <= k < out.len() ==> #[trigger] out@[k] == old(out)@[k],
//@end
pub open spec fn opq(i: int) -> u8 { 255 }
/// samples per pixel without transparency
pub open spec fn spp(c: PngColor) -> int { match c { PngColor::Luma => 1, _ => 3 } }
/// pixel `i` with `n` bytes of colour and `e` bytes of alpha, all set to `a`
pub open spec fn px_is(o: Seq<u8>, inp: Seq<u8>, i: int, n: int, e: int, a: u8) -> bool { (forall|c: int| 0 <= c < n ==> #[trigger] o[i * (n + e) + c] == inp[i * n + c]) && (forall|c: int| n <= c < n + e ==> #[trigger] o[i * (n + e) + c] == a) }
pub proof fn lemma_step(o0: Seq<u8>, o1: Seq<u8>, inp: Seq<u8>, k: int, n: int, e: int, f: spec_fn(int) -> u8)
    requires k >= 0, n > 0, e > 0, o0.len() == o1.len(), (k + 1) * (n + e) <= o0.len(), forall|j: int| 0 <= j < k * (n + e) ==> o1[j] == #[trigger] o0[j], px_is(o1, inp, k, n, e, f(k)), forall|i: int| 0 <= i < k ==> px_is(o0, inp, i, n, e, #[trigger] f(i)),
    ensures forall|i: int| 0 <= i < k + 1 ==> px_is(o1, inp, i, n, e, #[trigger] f(i)),
{
    assert forall|i: int| 0 <= i < k + 1 implies px_is(o1, inp, i, n, e, #[trigger] f(i)) by { if i < k { assert(px_is(o0, inp, i, n, e, f(i)));
        assert forall|c: int| 0 <= c < n implies #[trigger] o1[i * (n + e) + c] == inp[i * n + c] by { assert(i * (n + e) + (n + e) <= k * (n + e)) by(nonlinear_arith) requires i + 1 <= k, n + e > 0; assert(0 <= i * (n + e)) by(nonlinear_arith) requires i >= 0, n + e > 0; assert(o0[i * (n + e) + c] == inp[i * n + c]); }
        assert forall|c: int| n <= c < n + e implies #[trigger] o1[i * (n + e) + c] == f(i) by { assert(i * (n + e) + (n + e) <= k * (n + e)) by(nonlinear_arith) requires i + 1 <= k, n + e > 0; assert(0 <= i * (n + e)) by(nonlinear_arith) requires i >= 0, n + e > 0; assert(o0[i * (n + e) + c] == f(i)); } } }
}
//@fn crates/zune-png/src/utils.rs :: add_alpha
//@spec
    requires colorspace is Luma || colorspace is RGB, depth is Eight || depth is Sixteen,
    ensures final(output).len() == old(output).len(),
        ({ let e = if depth is Sixteen { 2int } else { 1 }; let n = spp(colorspace) * e;
           forall|i: int| 0 <= i < input.len() as int / n && i < old(output).len() as int / (n + e) ==> px_is(final(output)@, input@, i, n, e, #[trigger] opq(i)) }),
//@loop 0
    output.len() == old(output).len(), vx_c0 == imin(input.len() as int, output.len() as int / 2), forall|i: int| 0 <= i < vx_i0 ==> px_is(output@, input@, i, 1, 1, #[trigger] opq(i)),
//@loop 1
    output.len() == old(output).len(), vx_c1 == imin(input.len() as int / 2, output.len() as int / 4), forall|i: int| 0 <= i < vx_i1 ==> px_is(output@, input@, i, 2, 2, #[trigger] opq(i)),
//@loop 2
    output.len() == old(output).len(), vx_c2 == imin(input.len() as int / 3, output.len() as int / 4), forall|i: int| 0 <= i < vx_i2 ==> px_is(output@, input@, i, 3, 1, #[trigger] opq(i)),
//@loop 3
    output.len() == old(output).len(), vx_c3 == imin(input.len() as int / 6, output.len() as int / 8), forall|i: int| 0 <= i < vx_i3 ==> px_is(output@, input@, i, 6, 2, #[trigger] opq(i)),
//@at loop 0 begin
    let ghost o0 = output@; let ghost k = vx_k0 as int;
//@at loop 0 end
    proof { assert forall|c: int| 0 <= c < 1 implies #[trigger] output@[k * (1 + 1) + c] == input@[k * 1 + c] by {} assert forall|c: int| 1 <= c < 2 implies #[trigger] output@[k * (1 + 1) + c] == 255 by {} assert(px_is(output@, input@, k, 1, 1, 255)); lemma_step(o0, output@, input@, k, 1, 1, |i: int| opq(i)); assert forall|i: int| 0 <= i < k + 1 implies px_is(output@, input@, i, 1, 1, #[trigger] opq(i)) by { let g = |i: int| opq(i); assert(px_is(output@, input@, i, 1, 1, g(i))); } }
//@at loop 1 begin
    let ghost o0 = output@; let ghost k = vx_k1 as int;
//@at loop 1 end
    proof { assert forall|c: int| 0 <= c < 2 implies #[trigger] output@[k * (2 + 2) + c] == input@[k * 2 + c] by {} assert forall|c: int| 2 <= c < 4 implies #[trigger] output@[k * (2 + 2) + c] == 255 by {} assert(px_is(output@, input@, k, 2, 2, 255)); lemma_step(o0, output@, input@, k, 2, 2, |i: int| opq(i)); assert forall|i: int| 0 <= i < k + 1 implies px_is(output@, input@, i, 2, 2, #[trigger] opq(i)) by { let g = |i: int| opq(i); assert(px_is(output@, input@, i, 2, 2, g(i))); } }
//@at loop 2 begin
    let ghost o0 = output@; let ghost k = vx_k2 as int;
//@at loop 2 end
    proof { assert forall|c: int| 0 <= c < 3 implies #[trigger] output@[k * (3 + 1) + c] == input@[k * 3 + c] by {} assert forall|c: int| 3 <= c < 4 implies #[trigger] output@[k * (3 + 1) + c] == 255 by {} assert(px_is(output@, input@, k, 3, 1, 255)); lemma_step(o0, output@, input@, k, 3, 1, |i: int| opq(i)); assert forall|i: int| 0 <= i < k + 1 implies px_is(output@, input@, i, 3, 1, #[trigger] opq(i)) by { let g = |i: int| opq(i); assert(px_is(output@, input@, i, 3, 1, g(i))); } }
//@at loop 3 begin
    let ghost o0 = output@; let ghost k = vx_k3 as int;
//@at loop 3 end
    proof { assert forall|c: int| 0 <= c < 6 implies #[trigger] output@[k * (6 + 2) + c] == input@[k * 6 + c] by {} assert forall|c: int| 6 <= c < 8 implies #[trigger] output@[k * (6 + 2) + c] == 255 by {} assert(px_is(output@, input@, k, 6, 2, 255)); lemma_step(o0, output@, input@, k, 6, 2, |i: int| opq(i)); assert forall|i: int| 0 <= i < k + 1 implies px_is(output@, input@, i, 6, 2, #[trigger] opq(i)) by { let g = |i: int| opq(i); assert(px_is(output@, input@, i, 6, 2, g(i))); } }
//@end
pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j], decreases a.len() - i { if a[i] != b[i] { return false; } i += 1; }
    true
}
/// the value the transparent sample `t` has after expansion to bytes
pub open spec fn key8(t: u16, depth: u8) -> int { if depth == 1 { (t % 2) * 255 } else if depth == 2 { (t % 4) * 85 } else if depth == 4 { (t % 16) * 17 } else { (t % 256) as int } }
pub open spec fn key(tr: Seq<u16>, color: PngColor, sixteen: bool, depth: u8) -> Seq<u8> { if sixteen { if color is Luma { be16b(tr[0]) } else { be16b(tr[0]) + be16b(tr[1]) + be16b(tr[2]) } } else { if color is Luma { seq![key8(tr[0], depth) as u8] } else { seq![key8(tr[0], depth) as u8, key8(tr[1], depth) as u8, key8(tr[2], depth) as u8] } } }
/// the alpha of pixel `i`: 0 if it is the transparent colour
pub open spec fn alpha(inp: Seq<u8>, i: int, n: int, k: Seq<u8>) -> u8 { if inp.subrange(i * n, i * n + n) == k { 0 } else { 255 } }
pub proof fn lemma_key(t: u16, depth: u8) requires depth == 1 || depth == 2 || depth == 4 || depth == 8
    ensures ({ let m = ((1u16 << depth) - 1) as u16; let s: int = if depth == 1 { 255 } else if depth == 2 { 85 } else if depth == 4 { 17 } else { 1 }; 1 <= (1u16 << depth) <= 256 && ((t & 255 & m) as u8) as int * s == key8(t, depth) && 0 <= key8(t, depth) <= 255 }),
{
    assert(1u16 << 1u8 == 2u16 && 1u16 << 2u8 == 4u16 && 1u16 << 4u8 == 16u16 && 1u16 << 8u8 == 256u16) by(bit_vector);
    assert(t & 255 & 1 == t % 2 && t & 255 & 3 == t % 4 && t & 255 & 15 == t % 16 && t & 255 & 255 == t % 256) by(bit_vector);
}
//@fn crates/zune-png/src/utils.rs :: expand_trns
//@sub trns_byte != &in_chunk[0..2] => !vx_bytes_eq(&trns_byte, &in_chunk[0..2])
//@sub all != &in_chunk[..6] => !vx_bytes_eq(&all, &in_chunk[..6])
//@sub &in_chunk[0..3] != &r_matrix => !vx_bytes_eq(&in_chunk[0..3], &r_matrix)
//@spec
    requires color is Luma || color is RGB, !SIXTEEN_BITS ==> depth == 1 || depth == 2 || depth == 4 || depth == 8,
    ensures final(out).len() == old(out).len(),
        ({ let e = if SIXTEEN_BITS { 2int } else { 1 }; let n = spp(color) * e; let k = key(trns_bytes@, color, SIXTEEN_BITS, depth);
           forall|i: int| 0 <= i < input.len() as int / n && i < old(out).len() as int / (n + e) ==> px_is(final(out)@, input@, i, n, e, #[trigger] alpha(input@, i, n, k)) }),
//@loop 0
    out.len() == old(out).len(), color is Luma, SIXTEEN_BITS == true, vx_c0 == imin(input.len() as int / 2, out.len() as int / 4), forall|i: int| 0 <= i < vx_i0 ==> px_is(out@, input@, i, 2, 2, #[trigger] alpha(input@, i, 2, key(trns_bytes@, color, true, depth))), trns_byte@ == key(trns_bytes@, color, true, depth),
//@at loop 0 begin
    let ghost o0 = out@; let ghost k = vx_k0 as int; let ghost kk = key(trns_bytes@, color, SIXTEEN_BITS, depth); let ghost g = |i: int| alpha(input@, i, 2, kk);
    proof { assert forall|i: int| 0 <= i < k implies px_is(o0, input@, i, 2, 2, #[trigger] g(i)) by { assert(px_is(o0, input@, i, 2, 2, alpha(input@, i, 2, kk))); } }
//@at loop 0 end
    proof { assert(input@.subrange(k * 2, k * 2 + 2).len() == 2); assert(in_chunk@ =~= input@.subrange(k * 2, k * 2 + 2)); assert(in_chunk@.subrange(0, 2) =~= in_chunk@);
        assert forall|c: int| 0 <= c < 2 implies #[trigger] out@[k * (2 + 2) + c] == input@[k * 2 + c] by {} assert forall|c: int| 2 <= c < 4 implies #[trigger] out@[k * (2 + 2) + c] == g(k) by {} assert(px_is(out@, input@, k, 2, 2, g(k))); lemma_step(o0, out@, input@, k, 2, 2, g); assert forall|i: int| 0 <= i < k + 1 implies px_is(out@, input@, i, 2, 2, #[trigger] alpha(input@, i, 2, kk)) by { assert(px_is(out@, input@, i, 2, 2, g(i))); } }
//@loop 1
    out.len() == old(out).len(), color is RGB, SIXTEEN_BITS == true, vx_c1 == imin(input.len() as int / 6, out.len() as int / 8), forall|i: int| 0 <= i < vx_i1 ==> px_is(out@, input@, i, 6, 2, #[trigger] alpha(input@, i, 6, key(trns_bytes@, color, true, depth))), all@ == key(trns_bytes@, color, true, depth),
//@at loop 1 begin
    let ghost o0 = out@; let ghost k = vx_k1 as int; let ghost kk = key(trns_bytes@, color, SIXTEEN_BITS, depth); let ghost g = |i: int| alpha(input@, i, 6, kk);
    proof { assert forall|i: int| 0 <= i < k implies px_is(o0, input@, i, 6, 2, #[trigger] g(i)) by { assert(px_is(o0, input@, i, 6, 2, alpha(input@, i, 6, kk))); } }
//@at loop 1 end
    proof { assert(input@.subrange(k * 6, k * 6 + 6).len() == 6); assert(in_chunk@ =~= input@.subrange(k * 6, k * 6 + 6)); assert(in_chunk@.subrange(0, 6) =~= in_chunk@);
        assert forall|c: int| 0 <= c < 6 implies #[trigger] out@[k * (6 + 2) + c] == input@[k * 6 + c] by {} assert forall|c: int| 6 <= c < 8 implies #[trigger] out@[k * (6 + 2) + c] == g(k) by {} assert(px_is(out@, input@, k, 6, 2, g(k))); lemma_step(o0, out@, input@, k, 6, 2, g); assert forall|i: int| 0 <= i < k + 1 implies px_is(out@, input@, i, 6, 2, #[trigger] alpha(input@, i, 6, kk)) by { assert(px_is(out@, input@, i, 6, 2, g(i))); } }
//@loop 2
    out.len() == old(out).len(), color is Luma, SIXTEEN_BITS == false, vx_c2 == imin(input.len() as int, out.len() as int / 2), forall|i: int| 0 <= i < vx_i2 ==> px_is(out@, input@, i, 1, 1, #[trigger] alpha(input@, i, 1, key(trns_bytes@, color, false, depth))), seq![trns_byte] == key(trns_bytes@, color, false, depth),
//@at loop 2 begin
    let ghost o0 = out@; let ghost k = vx_k2 as int; let ghost kk = key(trns_bytes@, color, SIXTEEN_BITS, depth); let ghost g = |i: int| alpha(input@, i, 1, kk);
    proof { assert forall|i: int| 0 <= i < k implies px_is(o0, input@, i, 1, 1, #[trigger] g(i)) by { assert(px_is(o0, input@, i, 1, 1, alpha(input@, i, 1, kk))); } }
//@at loop 2 end
    proof { assert(input@.subrange(k * 1, k * 1 + 1).len() == 1); assert(input@.subrange(k, k + 1) =~= seq![input@[k]]); assert(seq![input@[k]][0] == input@[k] && seq![trns_byte][0] == trns_byte);
        assert forall|c: int| 0 <= c < 1 implies #[trigger] out@[k * (1 + 1) + c] == input@[k * 1 + c] by {} assert forall|c: int| 1 <= c < 2 implies #[trigger] out@[k * (1 + 1) + c] == g(k) by {} assert(px_is(out@, input@, k, 1, 1, g(k))); lemma_step(o0, out@, input@, k, 1, 1, g); assert forall|i: int| 0 <= i < k + 1 implies px_is(out@, input@, i, 1, 1, #[trigger] alpha(input@, i, 1, kk)) by { assert(px_is(out@, input@, i, 1, 1, g(i))); } }
//@loop 3
    out.len() == old(out).len(), color is RGB, SIXTEEN_BITS == false, vx_c3 == imin(input.len() as int / 3, out.len() as int / 4), forall|i: int| 0 <= i < vx_i3 ==> px_is(out@, input@, i, 3, 1, #[trigger] alpha(input@, i, 3, key(trns_bytes@, color, false, depth))), r_matrix@ == key(trns_bytes@, color, false, depth),
//@at loop 3 begin
    let ghost o0 = out@; let ghost k = vx_k3 as int; let ghost kk = key(trns_bytes@, color, SIXTEEN_BITS, depth); let ghost g = |i: int| alpha(input@, i, 3, kk);
    proof { assert forall|i: int| 0 <= i < k implies px_is(o0, input@, i, 3, 1, #[trigger] g(i)) by { assert(px_is(o0, input@, i, 3, 1, alpha(input@, i, 3, kk))); } }
//@at loop 3 end
    proof { assert(input@.subrange(k * 3, k * 3 + 3).len() == 3); assert(in_chunk@ =~= input@.subrange(k * 3, k * 3 + 3)); assert(in_chunk@.subrange(0, 3) =~= in_chunk@);
        assert forall|c: int| 0 <= c < 3 implies #[trigger] out@[k * (3 + 1) + c] == input@[k * 3 + c] by {} assert forall|c: int| 3 <= c < 4 implies #[trigger] out@[k * (3 + 1) + c] == g(k) by {} assert(px_is(out@, input@, k, 3, 1, g(k))); lemma_step(o0, out@, input@, k, 3, 1, g); assert forall|i: int| 0 <= i < k + 1 implies px_is(out@, input@, i, 3, 1, #[trigger] alpha(input@, i, 3, kk)) by { assert(px_is(out@, input@, i, 3, 1, g(i))); } }
//@at begin
    proof { if !SIXTEEN_BITS { lemma_key(trns_bytes[0], depth); lemma_key(trns_bytes[1], depth); lemma_key(trns_bytes[2], depth); } }
//@end
pub fn vx_next<T>(s: &[T], i: usize) -> (r: Option<&T>) ensures r.is_some() == (i < s.len()), i < s.len() ==> *r.unwrap() == s@[i as int] { if i < s.len() { Some(&s[i]) } else { None } }
/// sample `i` of a row of `depth` bit samples, most significant bits first
pub open spec fn samp(inp: Seq<u8>, depth: int, i: int) -> u8 {
    if depth == 1 { (inp[i / 8] >> ((7 - i % 8) as u8)) & 1 } else if depth == 2 { (inp[i / 4] >> ((6 - 2 * (i % 4)) as u8)) & 3 } else { (inp[i / 2] >> ((4 - 4 * (i % 2)) as u8)) & 15 } }
pub open spec fn scale_of(depth: int, pal: bool) -> int { if pal { 1 } else if depth == 1 { 255 } else if depth == 2 { 85 } else { 17 } }
pub open spec fn sv(inp: Seq<u8>, depth: int, pal: bool, i: int) -> int { scale_of(depth, pal) * samp(inp, depth, i) }
pub proof fn lemma_mask(v: u8) ensures v & 1 <= 1, v & 3 <= 3, v & 15 <= 15, v >> 0u8 == v { assert(v >> 0u8 == v) by(bit_vector); assert(v & 1 <= 1 && v & 3 <= 3 && v & 15 <= 15) by(bit_vector); }
pub proof fn lemma_samp(inp: Seq<u8>, depth: int, i: int) ensures depth == 1 ==> samp(inp, depth, i) <= 1, depth == 2 ==> samp(inp, depth, i) <= 3, depth != 1 && depth != 2 ==> samp(inp, depth, i) <= 15
{ lemma_mask(inp[i / 8] >> ((7 - i % 8) as u8)); lemma_mask(inp[i / 4] >> ((6 - 2 * (i % 4)) as u8)); lemma_mask(inp[i / 2] >> ((4 - 4 * (i % 2)) as u8)); }
//@fn crates/zune-png/src/utils.rs :: expand_bits_to_byte
//@iter in_iter pos
//@iter out_iter pos
//@iter remainder_iter let
//@sub (in_val >> 1) => (*in_val >> 1u8)
//@sub (in_val >> 2) => (*in_val >> 2u8)
//@sub (in_val >> 3) => (*in_val >> 3u8)
//@sub (in_val >> 4) => (*in_val >> 4u8)
//@sub (in_val >> 5) => (*in_val >> 5u8)
//@sub (in_val >> 6) => (*in_val >> 6u8)
//@sub (in_val >> 7) => (*in_val >> 7u8)
//@sub (in_val >> shift) => (*in_val >> (shift as u8))
//@sub let cur: &mut [u8; 8] = out_vals.try_into().unwrap(); => let cur = out_vals;
//@sub let cur: &mut [u8; 4] = out_vals.try_into().unwrap(); => let cur = out_vals;
//@sub let cur: &mut [u8; 2] = out_vals.try_into().unwrap(); => let cur = out_vals;
//@sub ((in_val) & => ((*in_val) &
//@spec
    requires width * out_n <= old(out).len(),
    ensures final(out).len() == old(out).len(),
        depth == 1 || depth == 2 || depth == 4 ==> forall|i: int| 0 <= i < width * out_n && i * depth / 8 < input.len() ==> #[trigger] final(out)@[i] == sv(input@, depth as int, plte_present, i),
        forall|i: int| width * out_n <= i < old(out).len() ==> #[trigger] final(out)@[i] == old(out)@[i],
//@loop 0
    out.len() == n, scale as int == scale_of(1, plte_present), vx_c0 == imin(n / 8, input.len() as int), vx_pn0_out_iter == n / 8, vx_pn0_in_iter == input.len(), forall|i: int| 0 <= i < 8 * vx_i0 ==> #[trigger] out@[i] == sv(input@, 1, plte_present, i),
//@at loop 0 begin
    let ghost k = vx_k0 as int;
    proof { assert(scale == 1 || scale == 255); assert forall|x: int| 0 <= x <= 1 implies 0 <= #[trigger] ((scale as int) * x) <= 255 by { if scale == 1 { assert(scale * x == x); } else { assert(scale * x == 255 * x); } } }
    proof { lemma_samp(input@, 1, 8 * k + 0);lemma_samp(input@, 1, 8 * k + 1);lemma_samp(input@, 1, 8 * k + 2);lemma_samp(input@, 1, 8 * k + 3);lemma_samp(input@, 1, 8 * k + 4);lemma_samp(input@, 1, 8 * k + 5);lemma_samp(input@, 1, 8 * k + 6);lemma_samp(input@, 1, 8 * k + 7); lemma_mask(input@[k]); lemma_mask(input@[k] >> 7u8);lemma_mask(input@[k] >> 6u8);lemma_mask(input@[k] >> 5u8);lemma_mask(input@[k] >> 4u8);lemma_mask(input@[k] >> 3u8);lemma_mask(input@[k] >> 2u8);lemma_mask(input@[k] >> 1u8);lemma_mask(input@[k] >> 0u8); }
//@loop 1
    out.len() == n, scale as int == scale_of(1, plte_present), *in_val == input@[n / 8], n / 8 < input.len(), vx_m1_0 == n / 8 * 8, vx_c1 == n - vx_m1_0, forall|i: int| 0 <= i < vx_m1_0 + vx_i1 ==> #[trigger] out@[i] == sv(input@, 1, plte_present, i),
//@at loop 1 begin
    let ghost k = vx_k1 as int;
    proof { assert(scale == 1 || scale == 255); assert forall|x: int| 0 <= x <= 1 implies 0 <= #[trigger] ((scale as int) * x) <= 255 by { if scale == 1 { assert(scale * x == x); } else { assert(scale * x == 255 * x); } } }
    proof { lemma_samp(input@, 1, vx_m1_0 + k); assert((vx_m1_0 + k) / 8 == n / 8); assert((vx_m1_0 + k) % 8 == k); lemma_mask(input@[n / 8] >> ((7 - 1 * k) as u8)); }
//@loop 2
    out.len() == n, scale as int == scale_of(2, plte_present), vx_c2 == imin(n / 4, input.len() as int), vx_pn2_out_iter == n / 4, vx_pn2_in_iter == input.len(), forall|i: int| 0 <= i < 4 * vx_i2 ==> #[trigger] out@[i] == sv(input@, 2, plte_present, i),
//@at loop 2 begin
    let ghost k = vx_k2 as int;
    proof { assert(scale == 1 || scale == 85); assert forall|x: int| 0 <= x <= 3 implies 0 <= #[trigger] ((scale as int) * x) <= 255 by { if scale == 1 { assert(scale * x == x); } else { assert(scale * x == 85 * x); } } }
    proof { lemma_samp(input@, 2, 4 * k + 0);lemma_samp(input@, 2, 4 * k + 1);lemma_samp(input@, 2, 4 * k + 2);lemma_samp(input@, 2, 4 * k + 3); lemma_mask(input@[k]); lemma_mask(input@[k] >> 6u8);lemma_mask(input@[k] >> 4u8);lemma_mask(input@[k] >> 2u8);lemma_mask(input@[k] >> 0u8); }
//@loop 3
    out.len() == n, scale as int == scale_of(2, plte_present), *in_val == input@[n / 4], n / 4 < input.len(), vx_m3_0 == n / 4 * 4, vx_c3 == n - vx_m3_0, forall|i: int| 0 <= i < vx_m3_0 + vx_i3 ==> #[trigger] out@[i] == sv(input@, 2, plte_present, i),
//@at loop 3 begin
    let ghost k = vx_k3 as int;
    proof { assert(scale == 1 || scale == 85); assert forall|x: int| 0 <= x <= 3 implies 0 <= #[trigger] ((scale as int) * x) <= 255 by { if scale == 1 { assert(scale * x == x); } else { assert(scale * x == 85 * x); } } }
    proof { lemma_samp(input@, 2, vx_m3_0 + k); assert((vx_m3_0 + k) / 4 == n / 4); assert((vx_m3_0 + k) % 4 == k); lemma_mask(input@[n / 4] >> ((6 - 2 * k) as u8)); }
//@loop 4
    out.len() == n, scale as int == scale_of(4, plte_present), vx_c4 == imin(n / 2, input.len() as int), vx_pn4_out_iter == n / 2, vx_pn4_in_iter == input.len(), forall|i: int| 0 <= i < 2 * vx_i4 ==> #[trigger] out@[i] == sv(input@, 4, plte_present, i),
//@at loop 4 begin
    let ghost k = vx_k4 as int;
    proof { assert(scale == 1 || scale == 17); assert forall|x: int| 0 <= x <= 15 implies 0 <= #[trigger] ((scale as int) * x) <= 255 by { if scale == 1 { assert(scale * x == x); } else { assert(scale * x == 17 * x); } } }
    proof { lemma_samp(input@, 4, 2 * k + 0);lemma_samp(input@, 4, 2 * k + 1); lemma_mask(input@[k]); lemma_mask(input@[k] >> 4u8);lemma_mask(input@[k] >> 0u8); }
//@loop 5
    out.len() == n, scale as int == scale_of(4, plte_present), *in_val == input@[n / 2], n / 2 < input.len(), vx_m5_0 == n / 2 * 2, vx_c5 == n - vx_m5_0, forall|i: int| 0 <= i < vx_m5_0 + vx_i5 ==> #[trigger] out@[i] == sv(input@, 4, plte_present, i),
//@at loop 5 begin
    let ghost k = vx_k5 as int;
    proof { assert(scale == 1 || scale == 17); assert forall|x: int| 0 <= x <= 15 implies 0 <= #[trigger] ((scale as int) * x) <= 255 by { if scale == 1 { assert(scale * x == x); } else { assert(scale * x == 17 * x); } } }
    proof { lemma_samp(input@, 4, vx_m5_0 + k); assert((vx_m5_0 + k) / 2 == n / 2); assert((vx_m5_0 + k) % 2 == k); lemma_mask(input@[n / 2] >> ((4 - 4 * k) as u8)); }
//@at begin
    let ghost n = width * out_n; let ghost all0 = out@;
//@end
//@fn crates/zune-png/src/utils.rs :: convert_be_to_ne_scalar
//@sub chunk.try_into().unwrap() => [chunk[0], chunk[1]]
//@spec
    ensures final(out).len() == old(out).len(), forall|k: int| 0 <= k < old(out).len() as int / 2 ==> le16(#[trigger] final(out)@.subrange(2 * k, 2 * k + 2)) == be16(old(out)@.subrange(2 * k, 2 * k + 2)), old(out).len() % 2 == 1 ==> final(out)@.last() == old(out)@.last(),
//@loop 0
    out.len() == old(out).len(), vx_c0 == out.len() / 2, forall|k: int| 0 <= k < vx_i0 ==> #[trigger] swp(out@, old(out)@, k), forall|j: int| 2 * vx_i0 <= j < out.len() ==> #[trigger] out@[j] == old(out)@[j],
//@at loop 0 begin
    let ghost k = vx_k0 as int; let ghost o0 = out@; proof { lemma_swap(out@[2 * k], out@[2 * k + 1]); assert(out@.subrange(2 * k, 2 * k + 2) =~= seq![out@[2 * k], out@[2 * k + 1]]); }
//@at loop 0 end
    proof { assert(value@ =~= seq![old(out)@[2 * k], old(out)@[2 * k + 1]]); assert(out@.subrange(2 * k, 2 * k + 2) =~= seq![old(out)@[2 * k + 1], old(out)@[2 * k]]); assert(out@.subrange(2 * k, 2 * k + 2)[0] == out@[2 * k] && out@.subrange(2 * k, 2 * k + 2)[1] == out@[2 * k + 1]); assert(out@[2 * k] == old(out)@[2 * k + 1]); assert(out@[2 * k + 1] == old(out)@[2 * k]); assert forall|j: int| 0 <= j < k + 1 implies #[trigger] swp(out@, old(out)@, j) by { if j < k { assert(swp(o0, old(out)@, j)); } } }
//@at after loop 0
    proof { assert forall|k: int| 0 <= k < old(out).len() as int / 2 implies le16(#[trigger] out@.subrange(2 * k, 2 * k + 2)) == be16(old(out)@.subrange(2 * k, 2 * k + 2)) by { let a = old(out)@[2 * k]; let b = old(out)@[2 * k + 1]; assert(swp(out@, old(out)@, k)); assert(out@.subrange(2 * k, 2 * k + 2) =~= seq![b, a]); assert(old(out)@.subrange(2 * k, 2 * k + 2) =~= seq![a, b]); assert(((a as u16) << 8) | (b as u16) == (b as u16) | ((a as u16) << 8)) by(bit_vector); } }
//@end
pub open spec fn swp(o: Seq<u8>, i: Seq<u8>, k: int) -> bool { o[2 * k] == i[2 * k + 1] && o[2 * k + 1] == i[2 * k] }
pub proof fn lemma_swap(a: u8, b: u8) ensures le16b(be16(seq![a, b])) == seq![b, a]
{ assert((((((a as u16) << 8) | (b as u16)) >> 8) as u8) == a && ((((a as u16) << 8) | (b as u16)) as u8) == b) by(bit_vector); assert(le16b(be16(seq![a, b])) =~= seq![b, a]); }
//@include prelude_end.inc
