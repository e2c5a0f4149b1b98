// ===== QOI: the format (qoiformat.org specification), as a decoding state machine =====
pub open spec fn w8(x: int) -> u8 { (x % 256) as u8 }
pub struct QS { pub idx: Seq<Seq<u8>>, pub px: Seq<u8>, pub run: int, pub pos: int, pub ok: bool, pub out: Seq<Seq<u8>> }
pub open spec fn q_hash(p: Seq<u8>) -> int { (p[0] * 3 + p[1] * 5 + p[2] * 7 + p[3] * 11) % 64 }
pub open spec fn q_zero() -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8] }
pub open spec fn q_init() -> QS { QS { idx: Seq::new(64, |i: int| q_zero()), px: seq![0u8, 0u8, 0u8, 255u8], run: 0, pos: 0, ok: true, out: Seq::empty() } }
/// number of bytes the operation starting with byte c takes
pub open spec fn q_len(c: int) -> int { if c == 254 { 4 } else if c == 255 { 5 } else if 128 <= c < 192 { 2 } else { 1 } }
/// the pixel the operation at b[pos..] produces
pub open spec fn q_px(b: Seq<u8>, s: QS) -> Seq<u8> {
    let c = b[s.pos] as int; let p = s.px;
    if c == 254 { seq![b[s.pos + 1], b[s.pos + 2], b[s.pos + 3], p[3]] }
    else if c == 255 { seq![b[s.pos + 1], b[s.pos + 2], b[s.pos + 3], b[s.pos + 4]] }
    else if c < 64 { s.idx[c] }
    else if c < 128 { seq![w8(p[0] + (c / 16) % 4 - 2), w8(p[1] + (c / 4) % 4 - 2), w8(p[2] + c % 4 - 2), p[3]] }
    else if c < 192 { let vg = c % 64 - 32; let b2 = b[s.pos + 1] as int; seq![w8(p[0] + vg - 8 + b2 / 16), w8(p[1] + vg), w8(p[2] + vg - 8 + b2 % 16), p[3]] }
    else { p }
}
pub open spec fn q_step(b: Seq<u8>, s: QS) -> QS {
    if !s.ok { s }
    else if s.run > 0 { QS { run: s.run - 1, out: s.out.push(s.px), ..s } }
    else if s.pos >= b.len() || s.pos + q_len(b[s.pos] as int) > b.len() { QS { ok: false, ..s } }
    else { let c = b[s.pos] as int; let px = q_px(b, s); QS { idx: s.idx.update(q_hash(px), px), px, run: if 192 <= c < 254 { c % 64 } else { 0 }, pos: s.pos + q_len(c), ok: true, out: s.out.push(px) } }
}
/// state after n pixels of the stream b
pub open spec fn q_n(b: Seq<u8>, n: int) -> QS decreases n { if n <= 0 { q_init() } else { q_step(b, q_n(b, n - 1)) } }
pub open spec fn q_wf(s: QS) -> bool { s.idx.len() == 64 && s.px.len() == 4 && 0 <= s.run < 64 && 0 <= s.pos && forall|i: int| 0 <= i < 64 ==> (#[trigger] s.idx[i]).len() == 4 }
pub proof fn lemma_q_wf(b: Seq<u8>, n: int)
    ensures q_wf(q_n(b, n)), q_n(b, n).ok ==> q_n(b, n).pos <= b.len() && q_n(b, n).out.len() == if n > 0 { n } else { 0 },
    decreases n
{
    if n > 0 { lemma_q_wf(b, n - 1); let s = q_n(b, n - 1); if s.ok && s.run == 0 && s.pos < b.len() && s.pos + q_len(b[s.pos] as int) <= b.len() { let px = q_px(b, s); assert(px.len() == 4); assert(0 <= q_hash(px) < 64); } }
    else if n == 0 { } 
}
pub open spec fn q_trailer() -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 1u8] }
//@const crates/zune-qoi/src/constants.rs :: QOI_OP_INDEX
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_OP_DIFF
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_OP_LUMA
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_OP_RUN
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_OP_RGB
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_OP_RGBA
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_MASK_2
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_HEADER_SIZE
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_PADDING
//@end
//@const crates/zune-qoi/src/constants.rs :: QOI_MAGIC
//@sub u32::from_be_bytes(*b"qoif") => 0x716f6966u32
//@end
