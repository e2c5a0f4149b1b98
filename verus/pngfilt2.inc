// ---- encoder side ----
pub open spec fn filt_at(ft: int, orig: Seq<u8>, prev: Seq<u8>, filt: Seq<u8>, bpp: int, i: int) -> bool {
    filt[i] as int == m8(orig[i] as int - pred(ft, at_or0(orig, i - bpp), at_or0(prev, i), at_or0(prev, i - bpp)))
}
//@fn crates/zune-png/src/filters/filter.rs :: sub_filter
//@spec
    requires input.len() == old(output).len(), components <= input.len(), components > 0
    ensures final(output).len() == old(output).len(),
        forall|i: int| #![trigger input@[i]] 0 <= i < input.len() ==> filt_at(1, input@, Seq::<u8>::empty(), final(output)@, components as int, i),
//@loop 0
    output.len() == input.len(), components <= input.len(), vx_c0 + components == input.len(), vx_r0lo == components, components > 0,
    forall|j: int| #![trigger input@[j]] 0 <= j < vx_i0 + components ==> filt_at(1, input@, Seq::<u8>::empty(), output@, components as int, j),
//@at before loop 0
    assert forall|j: int| 0 <= j < components implies output@[j] == input@[j] by { assert(output@.subrange(0, components as int)[j] == input@.subrange(0, components as int)[j]); }
//@end
//@fn crates/zune-png/src/filters/filter.rs :: up_filter
//@iter up ref
//@iter output mut
//@spec
    requires input.len() == old(output).len(), up.len() == input.len(),
    ensures final(output).len() == old(output).len(),
        forall|i: int| #![trigger input@[i]] 0 <= i < input.len() ==> filt_at(2, input@, up@, final(output)@, 1, i),
//@loop 0
    output.len() == input.len(), up.len() == input.len(), vx_c0 == input.len(),
    forall|j: int| #![trigger input@[j]] 0 <= j < vx_i0 ==> filt_at(2, input@, up@, output@, 1, j),
//@end

/// Unfiltering a filtered row gives back the row: the relation recon_at has exactly one solution.
pub proof fn theorem_unfilter_inverts_filter(ft: int, orig: Seq<u8>, prev: Seq<u8>, filt: Seq<u8>, cur: Seq<u8>, bpp: int, n: int)
    requires 0 <= n <= orig.len(), orig.len() == filt.len() == cur.len(), bpp > 0, 0 <= ft <= 4,
        forall|i: int| 0 <= i < orig.len() ==> filt_at(ft, orig, prev, filt, bpp, i),
        forall|i: int| 0 <= i < orig.len() ==> recon_at(ft, filt, prev, cur, bpp, i),
    ensures forall|i: int| 0 <= i < n ==> cur[i] == orig[i],
    decreases n,
{
    if n > 0 {
        theorem_unfilter_inverts_filter(ft, orig, prev, filt, cur, bpp, n - 1);
        let i = n - 1;
        assert(at_or0(cur, i - bpp) == at_or0(orig, i - bpp));
        assert(filt_at(ft, orig, prev, filt, bpp, i));
        assert(recon_at(ft, filt, prev, cur, bpp, i));
        let p = pred(ft, at_or0(orig, i - bpp), at_or0(prev, i), at_or0(prev, i - bpp));
        assert(m8(m8(orig[i] as int - p) + p) == orig[i] as int) by {
            lemma_fundamental_div_mod(orig[i] as int - p, 256);
        }
    }
}
