// ===== C11: zlib stream of stored blocks =====
//@const crates/zune-inflate/src/constants.rs :: DEFLATE_BLOCKTYPE_UNCOMPRESSED
//@end
/// Adler-32 is computed by the simd-adler32 crate
pub uninterp spec fn adler(d: Seq<u8>) -> u32;
//TRUST: calc_adler_hash is a function of the data (the value is compared with an independent Adler-32 by the bounded part)
#[verifier::external_body] fn vx_adler(d: &[u8]) -> (r: u32) ensures r == adler(d@) { unimplemented!() }
#[verifier::external_body] fn vx_take(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r@ == old(v)@ { unimplemented!() }
/// RFC 1951 3.2.4: what an inflater does on a stream that has only stored blocks, from byte position p (byte aligned), with d already produced:
/// Some((data, position after the last block)), or None if it is not such a stream
pub open spec fn stored(b: Seq<u8>, p: int, d: Seq<u8>) -> Option<(Seq<u8>, int)> decreases b.len() - p {
    if p < 0 || p + 5 > b.len() { None }
    else {
        let n = b[p + 1] as int + 256 * b[p + 2] as int;
        let m = b[p + 3] as int + 256 * b[p + 4] as int;
        if (b[p] >> 1) & 3 != 0 || n + m != 65535 || p + 5 + n > b.len() { None }
        else {
            let e = d + b.subrange(p + 5, p + 5 + n);
            if b[p] & 1 == 1 { Some((e, p + 5 + n)) } else { stored(b, p + 5 + n, e) }
        } } }
/// RFC 1950: the data of a zlib stream whose deflate part has only stored blocks
pub open spec fn zlib_data(b: Seq<u8>) -> Option<Seq<u8>> {
    if b.len() < 2 || b[0] & 0xf != 8 || b[0] >> 4 > 7 || (b[0] as int * 256 + b[1] as int) % 31 != 0 || b[1] & 0x20 != 0 { None }
    else { match stored(b, 2, Seq::empty()) {
        Some((d, q)) => if q + 4 == b.len() && b.subrange(q, q + 4) =~= be32b(adler(d)) { Some(d) } else { None },
        None => None } } }
/// a and b have the same bytes at lo..hi
pub open spec fn agree(a: Seq<u8>, b: Seq<u8>, lo: int, hi: int) -> bool { a.len() >= hi && forall|i: int| lo <= i < hi ==> #[trigger] a[i] == b[i] }
/// any stream that starts like o decodes, at position p, as it does at position q with the data d produced
pub open spec fn leads(o: Seq<u8>, p: int, q: int, d: Seq<u8>) -> bool { forall|b: Seq<u8>| #[trigger] agree(b, o, p, q) ==> stored(b, p, Seq::empty()) == stored(b, q, d) }
pub open spec fn blk(o: Seq<u8>, q: int, fin: bool, part: Seq<u8>) -> bool {
    let n = part.len() as int;
    &&& 0 <= q && q + 5 + n <= o.len() && n <= 65535
    &&& o[q] == (if fin { 1u8 } else { 0u8 })
    &&& o[q + 1] as int + 256 * o[q + 2] as int == n
    &&& o[q + 3] as int + 256 * o[q + 4] as int == 65535 - n
    &&& o.subrange(q + 5, q + 5 + n) =~= part
}
proof fn lemma_blk(b: Seq<u8>, o: Seq<u8>, q: int, fin: bool, d: Seq<u8>, part: Seq<u8>)
    requires blk(o, q, fin, part), agree(b, o, q, q + 5 + part.len())
    ensures fin ==> stored(b, q, d) == Some((d + part, q + 5 + part.len())), !fin ==> stored(b, q, d) == stored(b, q + 5 + part.len(), d + part)
{
    let n = part.len() as int;
    assert(b.subrange(q + 5, q + 5 + n) =~= part) by { assert forall|i: int| 0 <= i < n implies b.subrange(q + 5, q + 5 + n)[i] == part[i] by { assert(o.subrange(q + 5, q + 5 + n)[i] == part[i]); assert(b[q + 5 + i] == o[q + 5 + i]); } }
    assert((1u8 >> 1) & 3 == 0 && (0u8 >> 1) & 3 == 0 && 1u8 & 1 == 1 && 0u8 & 1 == 0) by(bit_vector);
    assert(b[q] == o[q] && b[q + 1] == o[q + 1] && b[q + 2] == o[q + 2] && b[q + 3] == o[q + 3] && b[q + 4] == o[q + 4]);
}
proof fn lemma_u16(x: u16) ensures (x as u8) as int + 256 * ((x >> 8) as u8) as int == x, ((!x) as u8) as int + 256 * (((!x) >> 8) as u8) as int == 65535 - x {
    assert((x as u8) as u32 + 256u32 * (((x >> 8) as u8) as u32) == x as u32) by(bit_vector);
    let y = !x;
    assert((y as u8) as u32 + 256u32 * (((y >> 8) as u8) as u32) == y as u32) by(bit_vector);
    assert(y == sub(65535u16, x)) by(bit_vector) requires y == !x;
}
pub struct DeflateEncodingOptions { pub strategy: DeflateEncodingStrategy }
//@type crates/zune-inflate/src/encoder.rs :: DeflateEncodingStrategy
//@attrs #[derive(Copy, Clone)]
//@end
//@type crates/zune-inflate/src/encoder.rs :: DeflateEncoder
//@end
impl DeflateEncodingStrategy {
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncodingStrategy::to_level
//@ret r
//@spec
    ensures r == 0
//@end
}
/// bytes that n data bytes need as stored blocks
pub open spec fn need(n: int) -> int { n + 5 * (if n == 0 { 1int } else { (n + 65534) / 65535 }) }
impl<'a> DeflateEncoder<'a> {
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncoder::new_with_options
//@ret r
//@spec
    requires data@.len() <= 0x2000_0000_0000_0000
    ensures r.data@ == data@, r.input_position == 0, r.output_position == 0
//@end
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncoder::write_zlib_header
//@cfg on zlib
//@sub self.output[self.output_position..self.output_position + 2] => self.output.as_mut_slice()[self.output_position..self.output_position + 2]
//@spec
    requires old(self).output_position + 2 <= old(self).output@.len()
    ensures final(self).output_position == old(self).output_position, final(self).input_position == old(self).input_position, final(self).data == old(self).data, final(self).options == old(self).options,
        final(self).output@.len() == old(self).output@.len(), ({ let p = old(self).output_position as int; let a = final(self).output@[p]; let b = final(self).output@[p + 1];
            a & 0xf == 8 && a >> 4 <= 7 && (a as int * 256 + b as int) % 31 == 0 && b & 0x20 == 0 })
//@at begin
    let ghost p = self.output_position as int;
    let vx_l = self.output.len();
//@at end
    proof {
        assert(self.output@.subrange(p, p + 2) =~= be16b(hdr));
        assert(self.output@[p] == self.output@.subrange(p, p + 2)[0] && self.output@[p + 1] == self.output@.subrange(p, p + 2)[1]);
        assert(hdr == 0x7801 ==> ((hdr >> 8) as u8) & 0xf == 8 && ((hdr >> 8) as u8) >> 4 <= 7 && (hdr as u8) & 0x20 == 0 && (hdr >> 8) as u8 == 0x78 && hdr as u8 == 1) by(bit_vector);
        assert(((8u16 << 8) | (7u16 << 12)) | (0u16 << 6) == 0x7800u16) by(bit_vector);
        assert(0x7800u16 | 1u16 == 0x7801u16) by(bit_vector);
    }
//@end
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncoder::encode_no_compression
//@sub self.output[self.output_position..self.output_position + 4] => self.output.as_mut_slice()[self.output_position..self.output_position + 4]
//@sub self.output[self.output_position..self.output_position + 2] => self.output.as_mut_slice()[self.output_position..self.output_position + 2]
//@sub self.output[self.output_position..self.output_position + len] => self.output.as_mut_slice()[self.output_position..self.output_position + len]
//@spec
    requires old(self).input_position == 0, bytes == old(self).data@.len(), old(self).output_position + need(bytes as int) <= old(self).output@.len()
    ensures final(self).data == old(self).data, final(self).options == old(self).options, final(self).output@.len() == old(self).output@.len(),
        final(self).output_position == old(self).output_position + need(bytes as int),
        forall|i: int| 0 <= i < old(self).output_position ==> final(self).output@[i] == old(self).output@[i],
        forall|b: Seq<u8>| #[trigger] agree(b, final(self).output@, old(self).output_position as int, final(self).output_position as int) ==> stored(b, old(self).output_position as int, Seq::empty()) == Some((old(self).data@, final(self).output_position as int))
//@at begin
    let vx_l = self.output.len(); let ghost p0 = self.output_position as int; let ghost o0 = self.output@; let vx_d = self.data.len();
//@loop 0
    invariant_except_break
    0 <= self.input_position < final_position,
    self.output_position + need(final_position - self.input_position) == p0 + need(final_position as int),
    leads(self.output@, p0, self.output_position as int, self.data@.subrange(0, self.input_position as int)),
    invariant
    self.data == old(self).data, self.options == old(self).options, self.output@.len() == vx_l, vx_l == o0.len(), final_position == self.data@.len(), vx_d == final_position, final_position > 0,
    p0 <= self.output_position, o0 == old(self).output@, p0 == old(self).output_position, p0 + need(final_position as int) <= vx_l,
    forall|i: int| 0 <= i < p0 ==> self.output@[i] == o0[i],
    ensures
    self.output_position == p0 + need(final_position as int),
    forall|b: Seq<u8>| #[trigger] agree(b, self.output@, p0, self.output_position as int) ==> stored(b, p0, Seq::empty()) == Some((self.data@, self.output_position as int)),
    decreases final_position - self.input_position
//@at loop 0 begin
    let ghost q = self.output_position as int; let ghost oq = self.output@; let ghost ip = self.input_position as int;
    proof { assert(need(final_position - ip) == 5 + if final_position - ip <= 65535 { final_position - ip } else { 65535 + need(final_position - ip - 65535) }); }
//@at after assign output_position 2
    proof {
        let o = self.output@;
        assert(o.subrange(p0 + 1, p0 + 5) =~= le32b(0xFFFF0000u32));
        assert(o[p0 + 1] == o.subrange(p0 + 1, p0 + 5)[0] && o[p0 + 2] == o.subrange(p0 + 1, p0 + 5)[1] && o[p0 + 3] == o.subrange(p0 + 1, p0 + 5)[2] && o[p0 + 4] == o.subrange(p0 + 1, p0 + 5)[3]);
        assert(0xFFFF0000u32 as u8 == 0u8 && (0xFFFF0000u32 >> 8) as u8 == 0u8 && (0xFFFF0000u32 >> 16) as u8 == 255u8 && (0xFFFF0000u32 >> 24) as u8 == 255u8) by(bit_vector);
        assert((1 | (DEFLATE_BLOCKTYPE_UNCOMPRESSED << 1)) as u8 == 1u8) by { let z = DEFLATE_BLOCKTYPE_UNCOMPRESSED; assert((1 | (z << 1)) == 1) by(bit_vector) requires z == 0; }
        assert(blk(o, p0, true, Seq::empty()));
        assert forall|b: Seq<u8>| #[trigger] agree(b, o, p0, p0 + 5) implies stored(b, p0, Seq::empty()) == Some((self.data@, p0 + 5)) by { lemma_blk(b, o, p0, true, Seq::empty(), Seq::empty()); assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= self.data@); }
    }
//@at after assign input_position
    proof {
        let o = self.output@; let n = len as int; let part = self.data@.subrange(ip, ip + n);
        lemma_u16(len_u16);
        assert(o.subrange(q + 1, q + 3) =~= le16b(len_u16)); assert(o.subrange(q + 3, q + 5) =~= le16b(!len_u16));
        assert(o[q + 1] == o.subrange(q + 1, q + 3)[0] && o[q + 2] == o.subrange(q + 1, q + 3)[1] && o[q + 3] == o.subrange(q + 3, q + 5)[0] && o[q + 4] == o.subrange(q + 3, q + 5)[1]);
        assert((bfinal | (DEFLATE_BLOCKTYPE_UNCOMPRESSED << 1)) as u8 == bfinal as u8) by { let z = DEFLATE_BLOCKTYPE_UNCOMPRESSED; assert((bfinal | (z << 1)) == bfinal) by(bit_vector) requires z == 0; }
        assert(o.subrange(q + 5, q + 5 + n) =~= part);
        assert(blk(o, q, bfinal == 1, part));
        let d = self.data@.subrange(0, ip); let e = self.data@.subrange(0, ip + n); assert(d + part =~= e);
        assert forall|b: Seq<u8>| #[trigger] agree(b, o, p0, q + 5 + n) implies stored(b, p0, Seq::empty()) == (if bfinal == 1 { Some((e, q + 5 + n)) } else { stored(b, q + 5 + n, e) }) by {
            assert(agree(b, oq, p0, q)); lemma_blk(b, o, q, bfinal == 1, d, part);
        }
        if bfinal == 1 { assert(e =~= self.data@); }
    }
//@end
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncoder::encode_deflate
//@spec
    requires old(self).input_position == 0, old(self).output_position + need(old(self).data@.len() as int) <= old(self).output@.len()
    ensures final(self).data == old(self).data, final(self).options == old(self).options, final(self).output@.len() == old(self).output@.len(),
        final(self).output_position == old(self).output_position + need(old(self).data@.len() as int),
        forall|i: int| 0 <= i < old(self).output_position ==> final(self).output@[i] == old(self).output@[i],
        forall|b: Seq<u8>| #[trigger] agree(b, final(self).output@, old(self).output_position as int, final(self).output_position as int) ==> stored(b, old(self).output_position as int, Seq::empty()) == Some((old(self).data@, final(self).output_position as int))
//@end
//@fn crates/zune-inflate/src/encoder.rs :: DeflateEncoder::encode_zlib
//@cfg on zlib
//@ret r
//@sub core::mem::take(&mut self.output) => vx_take(&mut self.output)
//@sub crate::utils::calc_adler_hash(self.data) => vx_adler(self.data)
//@sub self.output[self.output_position..self.output_position + 4] => self.output.as_mut_slice()[self.output_position..self.output_position + 4]
//@spec
    requires old(self).input_position == 0, old(self).output_position == 0, old(self).data@.len() <= 0x2000_0000_0000_0000
    ensures zlib_data(r@) == Some(old(self).data@), r@.len() == 6 + need(old(self).data@.len() as int)
//@at begin
    let vx_d = self.data.len();
//@at after assign output
    assert(self.output@.len() >= 2 + need(vx_d as int) + 4);
//@at after call write_zlib_header
    let ghost oh = self.output@;
//@at after call encode_deflate
    let ghost o1 = self.output@; let ghost q = self.output_position as int;
//@at after call truncate
    proof {
        let o = self.output@;
        assert forall|i: int| 2 <= i < q implies #[trigger] o[i] == o1[i] by {}
        assert(agree(o, o1, 2, q));
        assert(o[0] == oh[0] && o[1] == oh[1]);
        assert(stored(o, 2, Seq::empty()) == Some((self.data@, q)));
        assert(o.subrange(q, q + 4) =~= be32b(hash));
    }
//@end
}
