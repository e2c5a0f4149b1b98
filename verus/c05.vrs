//@include prelude.inc
//@include pngfilt.inc
//@fn crates/zune-png/src/filters/de_filter.rs :: paeth
//@ret r
//@spec
    ensures r as int == paeth_spec(a as int, b as int, c as int),
//@end

//@fn crates/zune-png/src/filters/de_filter.rs :: handle_avg
//@spec
    requires components <= 8, raw.len() <= old(current).len(), components <= raw.len(), prev_row.len() >= raw.len(), components > 0
    ensures final(current).len() == old(current).len(), same_from(final(current)@, old(current)@, raw@.len() as int),
        forall|i: int| #![trigger raw@[i]] 0 <= i < raw.len() ==> recon_at(3, raw@, prev_row@, final(current)@, components as int, i),
//@loop 0
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), prev_row.len() >= raw.len(), vx_c0 == components, vx_r0lo == 0, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i0 ==> recon_at(3, raw@, prev_row@, current@, components as int, j),
//@at loop 0 body
    proof { lemma_shr1(prev_row@[i as int]); }
//@loop 1
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), prev_row.len() >= raw.len(), vx_c1 + components == raw.len(), vx_r1lo == components, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i1 + components ==> recon_at(3, raw@, prev_row@, current@, components as int, j),
//@at loop 1 body
    proof { lemma_avg(current@[i - components], prev_row@[i as int]); }
//@end

//@fn crates/zune-png/src/filters/de_filter.rs :: handle_sub
//@spec
    requires raw.len() <= old(current).len(), components <= raw.len(), components > 0
    ensures final(current).len() == old(current).len(), same_from(final(current)@, old(current)@, raw@.len() as int),
        forall|i: int| #![trigger raw@[i]] 0 <= i < raw.len() ==> recon_at(1, raw@, Seq::<u8>::empty(), final(current)@, components as int, i),
//@loop 0
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), vx_c0 == components, vx_r0lo == 0, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i0 ==> recon_at(1, raw@, Seq::<u8>::empty(), current@, components as int, j),
//@loop 1
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), vx_c1 + components == raw.len(), vx_r1lo == components, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i1 + components ==> recon_at(1, raw@, Seq::<u8>::empty(), current@, components as int, j),
//@end

//@fn crates/zune-png/src/filters/de_filter.rs :: handle_paeth
//@spec
    requires components <= 8, raw.len() <= old(current).len(), components <= raw.len(), prev_row.len() >= raw.len(), components > 0
    ensures final(current).len() == old(current).len(), same_from(final(current)@, old(current)@, raw@.len() as int),
        forall|i: int| #![trigger raw@[i]] 0 <= i < raw.len() ==> recon_at(4, raw@, prev_row@, final(current)@, components as int, i),
//@loop 0
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), prev_row.len() >= raw.len(), vx_c0 == components, vx_r0lo == 0, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i0 ==> recon_at(4, raw@, prev_row@, current@, components as int, j),
//@loop 1
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), prev_row.len() >= raw.len(), vx_c1 + components == raw.len(), vx_r1lo == components, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i1 + components ==> recon_at(4, raw@, prev_row@, current@, components as int, j),
//@end

//@fn crates/zune-png/src/filters/de_filter.rs :: handle_up
//@iter current mut
//@iter prev_row ref
//@spec
    requires raw.len() <= old(current).len(), prev_row.len() >= raw.len(),
    ensures final(current).len() == old(current).len(), same_from(final(current)@, old(current)@, raw@.len() as int),
        forall|i: int| #![trigger raw@[i]] 0 <= i < raw.len() ==> recon_at(2, raw@, prev_row@, final(current)@, 1, i),
//@loop 0
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), prev_row.len() >= raw.len(), vx_c0 == raw.len(),
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i0 ==> recon_at(2, raw@, prev_row@, current@, 1, j),
//@end

//@fn crates/zune-png/src/filters/de_filter.rs :: handle_paeth_first
//@spec
    requires raw.len() <= old(current).len(), components <= raw.len(), components > 0
    ensures final(current).len() == old(current).len(), same_from(final(current)@, old(current)@, raw@.len() as int),
        forall|i: int| #![trigger raw@[i]] 0 <= i < raw.len() ==> recon_at(4, raw@, zeros(raw@.len()), final(current)@, components as int, i),
//@loop 0
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), vx_c0 == components, vx_r0lo == 0, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i0 ==> recon_at(4, raw@, zeros(raw@.len()), current@, components as int, j),
//@loop 1
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), vx_c1 + components == raw.len(), vx_r1lo == components, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i1 + components ==> recon_at(4, raw@, zeros(raw@.len()), current@, components as int, j),
//@end

//@fn crates/zune-png/src/filters/de_filter.rs :: handle_avg_first
//@spec
    requires raw.len() <= old(current).len(), components <= raw.len(), components > 0
    ensures final(current).len() == old(current).len(), same_from(final(current)@, old(current)@, raw@.len() as int),
        forall|i: int| #![trigger raw@[i]] 0 <= i < raw.len() ==> recon_at(3, raw@, zeros(raw@.len()), final(current)@, components as int, i),
//@loop 0
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), vx_c0 == components, vx_r0lo == 0, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i0 ==> recon_at(3, raw@, zeros(raw@.len()), current@, components as int, j),
//@loop 1
    current.len() == old(current).len(), raw.len() <= current.len(), same_from(current@, old(current)@, raw@.len() as int), components <= raw.len(), vx_c1 + components == raw.len(), vx_r1lo == components, components > 0,
    forall|j: int| #![trigger raw@[j]] 0 <= j < vx_i1 + components ==> recon_at(3, raw@, zeros(raw@.len()), current@, components as int, j),
//@at loop 1 body
    proof { lemma_shr1(current@[i - components]); }
//@end

//@include pngfilt2.inc
//@include prelude_end.inc
