// ===== C09: CRC-32 (ISO 3309, reflected polynomial 0xEDB88320) =====
pub open spec fn step(c: u32) -> u32 { if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } }
pub open spec fn s8(c: u32) -> u32 { step(step(step(step(step(step(step(step(c)))))))) }
/// k bytes' worth of steps
pub open spec fn sk(c: u32, k: nat) -> u32 decreases k { if k == 0 { c } else { sk(s8(c), (k - 1) as nat) } }
/// the definition: bytes are fed in order, each xored into the low byte, then eight single-bit steps
pub open spec fn crcs(data: Seq<u8>, c: u32) -> u32 decreases data.len() { if data.len() == 0 { c } else { s8(crcs(data.drop_last(), c) ^ (data.last() as u32)) } }
pub open spec fn crc32(data: Seq<u8>) -> u32 { !crcs(data, 0xffffffffu32) }
// the tables live in a module of their own so that their 2304 literals reach only the solver queries that need them
pub mod tabs {
use super::*;
//@const crates/zune-png/src/crc/crc_tables.rs :: CRC32_SLICE1_TABLE
//@end
//@const crates/zune-png/src/crc/crc_tables.rs :: CRC32_SLICE8_TABLE
//@end
pub open spec fn chk1(i: int) -> bool decreases 256 - i { if i >= 256 { true } else { CRC32_SLICE1_TABLE[i] == s8(i as u32) && chk1(i + 1) } }
pub open spec fn chk8(k: int, i: int) -> bool decreases 256 - i { if i >= 256 { true } else { CRC32_SLICE8_TABLE[256 * k + i] == sk(i as u32, (k + 1) as nat) && chk8(k, i + 1) } }
pub proof fn lemma_chk1(i: int, j: int) requires chk1(i), i <= j < 256 ensures CRC32_SLICE1_TABLE[j] == s8(j as u32) decreases j - i { if i < j { lemma_chk1(i + 1, j) } }
pub proof fn lemma_chk8(k: int, i: int, j: int) requires chk8(k, i), i <= j < 256 ensures CRC32_SLICE8_TABLE[256 * k + j] == sk(j as u32, (k + 1) as nat) decreases j - i { if i < j { lemma_chk8(k, i + 1, j) } }
/// every table entry is the CRC of its index (all 256 + 2048 entries, by computation)
pub proof fn lemma_t1() ensures forall|j: int| 0 <= j < 256 ==> #[trigger] t1(j) == s8(j as u32) {
    assert(chk1(0)) by(compute_only);
    assert forall|j: int| 0 <= j < 256 implies #[trigger] t1(j) == s8(j as u32) by { lemma_chk1(0, j); }
}
pub proof fn lemma_t8_0(j: int) requires 0 <= j < 256 ensures t8(0 + j) == sk(j as u32, 1) { assert(chk8(0, 0)) by(compute_only); lemma_chk8(0, 0, j); }
pub proof fn lemma_t8_1(j: int) requires 0 <= j < 256 ensures t8(256 + j) == sk(j as u32, 2) { assert(chk8(1, 0)) by(compute_only); lemma_chk8(1, 0, j); }
pub proof fn lemma_t8_2(j: int) requires 0 <= j < 256 ensures t8(512 + j) == sk(j as u32, 3) { assert(chk8(2, 0)) by(compute_only); lemma_chk8(2, 0, j); }
pub proof fn lemma_t8_3(j: int) requires 0 <= j < 256 ensures t8(768 + j) == sk(j as u32, 4) { assert(chk8(3, 0)) by(compute_only); lemma_chk8(3, 0, j); }
pub proof fn lemma_t8_4(j: int) requires 0 <= j < 256 ensures t8(1024 + j) == sk(j as u32, 5) { assert(chk8(4, 0)) by(compute_only); lemma_chk8(4, 0, j); }
pub proof fn lemma_t8_5(j: int) requires 0 <= j < 256 ensures t8(1280 + j) == sk(j as u32, 6) { assert(chk8(5, 0)) by(compute_only); lemma_chk8(5, 0, j); }
pub proof fn lemma_t8_6(j: int) requires 0 <= j < 256 ensures t8(1536 + j) == sk(j as u32, 7) { assert(chk8(6, 0)) by(compute_only); lemma_chk8(6, 0, j); }
pub proof fn lemma_t8_7(j: int) requires 0 <= j < 256 ensures t8(1792 + j) == sk(j as u32, 8) { assert(chk8(7, 0)) by(compute_only); lemma_chk8(7, 0, j); }

pub closed spec fn t1(i: int) -> u32 { CRC32_SLICE1_TABLE[i] }
pub closed spec fn t8(i: int) -> u32 { CRC32_SLICE8_TABLE[i] }
pub proof fn lemma_is1(i: int) ensures t1(i) == CRC32_SLICE1_TABLE[i] {}
pub proof fn lemma_is8(i: int) ensures t8(i) == CRC32_SLICE8_TABLE[i] {}
}
use tabs::*;
proof fn lemma_step_lin(a: u32, b: u32) ensures step(a ^ b) == step(a) ^ step(b) {
    assert((if (a ^ b) & 1 == 1 { ((a ^ b) >> 1) ^ 0xEDB88320u32 } else { (a ^ b) >> 1 }) == (if a & 1 == 1 { (a >> 1) ^ 0xEDB88320u32 } else { a >> 1 }) ^ (if b & 1 == 1 { (b >> 1) ^ 0xEDB88320u32 } else { b >> 1 })) by(bit_vector);
}
proof fn lemma_s8_lin(a: u32, b: u32) ensures s8(a ^ b) == s8(a) ^ s8(b) {
    lemma_step_lin(a, b);
    lemma_step_lin(step(a), step(b));
    lemma_step_lin(step(step(a)), step(step(b)));
    lemma_step_lin(step(step(step(a))), step(step(step(b))));
    lemma_step_lin(step(step(step(step(a)))), step(step(step(step(b)))));
    lemma_step_lin(step(step(step(step(step(a))))), step(step(step(step(step(b))))));
    lemma_step_lin(step(step(step(step(step(step(a)))))), step(step(step(step(step(step(b)))))));
    lemma_step_lin(step(step(step(step(step(step(step(a))))))), step(step(step(step(step(step(step(b))))))));
}
proof fn lemma_sk_lin(a: u32, b: u32, k: nat) ensures sk(a ^ b, k) == sk(a, k) ^ sk(b, k) decreases k { if k > 0 { lemma_s8_lin(a, b); lemma_sk_lin(s8(a), s8(b), (k - 1) as nat); } }
proof fn lemma_sk_add(a: u32, j: nat, k: nat) ensures sk(sk(a, j), k) == sk(a, j + k) decreases j { if j > 0 { lemma_sk_add(s8(a), (j - 1) as nat, k); } }
proof fn lemma_s8_shift(x: u32) requires x < 0x1000000 ensures s8(x << 8) == x {
    assert((x << 8) & 1 == 0 && (x << 8) >> 1 == x << 7) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 7) & 1 == 0 && (x << 7) >> 1 == x << 6) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 6) & 1 == 0 && (x << 6) >> 1 == x << 5) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 5) & 1 == 0 && (x << 5) >> 1 == x << 4) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 4) & 1 == 0 && (x << 4) >> 1 == x << 3) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 3) & 1 == 0 && (x << 3) >> 1 == x << 2) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 2) & 1 == 0 && (x << 2) >> 1 == x << 1) by(bit_vector) requires x < 0x1000000u32;
    assert((x << 1) & 1 == 0 && (x << 1) >> 1 == x << 0) by(bit_vector) requires x < 0x1000000u32;
    assert(x << 0 == x) by(bit_vector);
}
/// a byte placed higher costs that many byte-steps less
proof fn lemma_sk_shift8(b: u32, k: nat) requires b < 256, k >= 1 ensures sk(b << 8, k) == sk(b, (k - 1) as nat) { lemma_s8_shift(b); }
proof fn lemma_sk_shift16(b: u32, k: nat) requires b < 256, k >= 2 ensures sk(b << 16, k) == sk(b, (k - 2) as nat) { assert(b << 16 == (b << 8) << 8 && (b << 8) < 0x1000000u32) by(bit_vector) requires b < 256; lemma_s8_shift(b << 8); lemma_sk_shift8(b, (k - 1) as nat); }
proof fn lemma_sk_shift24(b: u32, k: nat) requires b < 256, k >= 3 ensures sk(b << 24, k) == sk(b, (k - 3) as nat) { assert(b << 24 == (b << 16) << 8 && (b << 16) < 0x1000000u32) by(bit_vector) requires b < 256; lemma_s8_shift(b << 16); lemma_sk_shift16(b, (k - 1) as nat); }
pub open spec fn byt(x: u32, k: u32) -> u32 { (x >> k) & 0xff }
/// the four bytes of a word, taken apart by linearity
proof fn lemma_sk_word(x: u32, k: nat) requires k >= 4 ensures sk(x, k) == sk(byt(x, 0), k) ^ sk(byt(x, 8), (k - 1) as nat) ^ sk(byt(x, 16), (k - 2) as nat) ^ sk(byt(x, 24), (k - 3) as nat) {
    let (a, b, c, d) = (byt(x, 0), byt(x, 8), byt(x, 16), byt(x, 24));
    assert(x == ((((x >> 0) & 0xff) ^ (((x >> 8) & 0xff) << 8)) ^ (((x >> 16) & 0xff) << 16)) ^ (((x >> 24) & 0xff) << 24)) by(bit_vector);
    assert((x >> 0) & 0xff < 256 && (x >> 8) & 0xff < 256 && (x >> 16) & 0xff < 256 && (x >> 24) & 0xff < 256) by(bit_vector);
    lemma_sk_lin((a ^ (b << 8)) ^ (c << 16), d << 24, k); lemma_sk_lin(a ^ (b << 8), c << 16, k); lemma_sk_lin(a, b << 8, k);
    lemma_sk_shift8(b, k); lemma_sk_shift16(c, k); lemma_sk_shift24(d, k);
}
/// the one-byte step of the table-driven loop
pub proof fn lemma_s8_byte(c: u32, b: u32) requires b < 256 ensures s8(c ^ b) == (c >> 8) ^ t1(((c & 0xff) ^ b) as int), 0 <= ((c & 0xff) ^ b) < 256 {
    let x = c ^ b; let lo = (c & 0xff) ^ b;
    assert(lo < 256 && x == ((c >> 8) << 8) ^ lo && (c >> 8) < 0x1000000) by(bit_vector) requires x == c ^ b, lo == (c & 0xff) ^ b, b < 256;
    lemma_s8_lin((c >> 8) << 8, lo); lemma_s8_shift(c >> 8); lemma_t1();
    assert(t1(lo as int) == s8(lo));
}
/// four bytes at once
proof fn lemma_crc4(d: Seq<u8>, c: u32) requires d.len() == 4 ensures crcs(d, c) == sk(c ^ le32(d), 4) {
    let (b0, b1, b2, b3) = (d[0] as u32, d[1] as u32, d[2] as u32, d[3] as u32);
    reveal_with_fuel(crcs, 5); reveal_with_fuel(sk, 5);
    assert(d.drop_last().drop_last().drop_last().drop_last() =~= Seq::<u8>::empty());
    assert(d.drop_last().last() == d[2] && d.drop_last().drop_last().last() == d[1] && d.drop_last().drop_last().drop_last().last() == d[0]);
    assert(crcs(d, c) == s8(s8(s8(s8(c ^ b0) ^ b1) ^ b2) ^ b3));
    assert(le32(d) == (b0 ^ (b1 << 8)) ^ (b2 << 16) ^ (b3 << 24)) by { assert((((b3 << 24) | (b2 << 16)) | (b1 << 8)) | b0 == (b0 ^ (b1 << 8)) ^ (b2 << 16) ^ (b3 << 24)) by(bit_vector) requires b0 < 256, b1 < 256, b2 < 256, b3 < 256; }
    let x = c ^ le32(d);
    assert(x == (((c ^ b0) ^ (b1 << 8)) ^ (b2 << 16)) ^ (b3 << 24)) by { assert(c ^ ((b0 ^ (b1 << 8)) ^ (b2 << 16) ^ (b3 << 24)) == (((c ^ b0) ^ (b1 << 8)) ^ (b2 << 16)) ^ (b3 << 24)) by(bit_vector); }
    lemma_sk_lin(((c ^ b0) ^ (b1 << 8)) ^ (b2 << 16), b3 << 24, 4); lemma_sk_lin((c ^ b0) ^ (b1 << 8), b2 << 16, 4); lemma_sk_lin(c ^ b0, b1 << 8, 4);
    lemma_sk_shift8(b1, 4); lemma_sk_shift16(b2, 4); lemma_sk_shift24(b3, 4);
    lemma_sk_lin(s8(c ^ b0), b1, 3); 
    lemma_sk_lin(s8(s8(c ^ b0) ^ b1), b2, 2);
    lemma_sk_lin(s8(s8(s8(c ^ b0) ^ b1) ^ b2), b3, 1);
    lemma_sk_lin(s8(c ^ b0) ^ b1, b2, 2); 
}
pub proof fn lemma_crc_cat(a: Seq<u8>, b: Seq<u8>, c: u32) ensures crcs(a + b, c) == crcs(b, crcs(a, c)) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_crc_cat(a, b.drop_last(), c); }
}
pub open spec fn mix(x: u32, v2: u32) -> u32 {
    t8(0x700 + byt(x, 0) as int) ^ t8(0x600 + byt(x, 8) as int) ^ t8(0x500 + byt(x, 16) as int) ^ t8(0x400 + byt(x, 24) as int)
    ^ t8(0x300 + byt(v2, 0) as int) ^ t8(0x200 + byt(v2, 8) as int) ^ t8(0x100 + byt(v2, 16) as int) ^ t8(0x000 + byt(v2, 24) as int)
}
proof fn lemma_mix_eq(x: u32, v2: u32) ensures mix(x, v2) == sk(x, 8) ^ sk(v2, 4) {
    assert(byt(x, 0) < 256 && byt(x, 8) < 256 && byt(x, 16) < 256 && byt(x, 24) < 256) by { assert((x >> 0) & 0xff < 256 && (x >> 8) & 0xff < 256 && (x >> 16) & 0xff < 256 && (x >> 24) & 0xff < 256) by(bit_vector); }
    assert(byt(v2, 0) < 256 && byt(v2, 8) < 256 && byt(v2, 16) < 256 && byt(v2, 24) < 256) by { assert((v2 >> 0) & 0xff < 256 && (v2 >> 8) & 0xff < 256 && (v2 >> 16) & 0xff < 256 && (v2 >> 24) & 0xff < 256) by(bit_vector); }
    lemma_t8_7(byt(x, 0) as int); lemma_t8_6(byt(x, 8) as int); lemma_t8_5(byt(x, 16) as int); lemma_t8_4(byt(x, 24) as int);
    lemma_t8_3(byt(v2, 0) as int); lemma_t8_2(byt(v2, 8) as int); lemma_t8_1(byt(v2, 16) as int); lemma_t8_0(byt(v2, 24) as int);
    lemma_sk_word(x, 8); lemma_sk_word(v2, 4);
    let (p, q, r, s, t, u, v, w) = (sk(byt(x, 0), 8), sk(byt(x, 8), 7), sk(byt(x, 16), 6), sk(byt(x, 24), 5), sk(byt(v2, 0), 4), sk(byt(v2, 8), 3), sk(byt(v2, 16), 2), sk(byt(v2, 24), 1));
    assert((((((((p ^ q) ^ r) ^ s) ^ t) ^ u) ^ v) ^ w) == (((p ^ q) ^ r) ^ s) ^ (((t ^ u) ^ v) ^ w)) by(bit_vector);
}
/// the eight-byte step of the table-driven loop is the definition applied to those eight bytes
pub proof fn lemma_mix(d: Seq<u8>, c: u32) requires d.len() == 8 ensures crcs(d, c) == mix(c ^ ((le64(d) & 0xffffffff) as u32), (le64(d) >> 32) as u32) {
    let (l, h) = (d.subrange(0, 4), d.subrange(4, 8));
    assert(d =~= l + h); lemma_crc_cat(l, h, c); lemma_crc4(l, c); lemma_crc4(h, crcs(l, c));
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    let v = le64(d);
    assert((v & 0xffffffff) as u32 == le32(l) && (v >> 32) as u32 == le32(h)) by {
        assert(v == ((b7 as u64) << 56) | ((b6 as u64) << 48) | ((b5 as u64) << 40) | ((b4 as u64) << 32) | ((b3 as u64) << 24) | ((b2 as u64) << 16) | ((b1 as u64) << 8) | (b0 as u64));
        assert(((v & 0xffffffff) as u32) == (((b3 as u32) << 24) | ((b2 as u32) << 16) | ((b1 as u32) << 8) | (b0 as u32))) by(bit_vector) requires v == ((b7 as u64) << 56) | ((b6 as u64) << 48) | ((b5 as u64) << 40) | ((b4 as u64) << 32) | ((b3 as u64) << 24) | ((b2 as u64) << 16) | ((b1 as u64) << 8) | (b0 as u64);
        assert(((v >> 32) as u32) == (((b7 as u32) << 24) | ((b6 as u32) << 16) | ((b5 as u32) << 8) | (b4 as u32))) by(bit_vector) requires v == ((b7 as u64) << 56) | ((b6 as u64) << 48) | ((b5 as u64) << 40) | ((b4 as u64) << 32) | ((b3 as u64) << 24) | ((b2 as u64) << 16) | ((b1 as u64) << 8) | (b0 as u64);
    }
    let x = c ^ le32(l); let y = le32(h);
    lemma_sk_lin(sk(x, 4), y, 4); lemma_sk_add(x, 4, 4);
    lemma_mix_eq(x, y);
}
pub fn vx_arr8(s: &[u8]) -> (r: [u8; 8]) requires s@.len() == 8 ensures r@ == s@ { let r = [s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]; proof { assert(r@ =~= s@); } r }
pub mod slice8 {
use super::*;
//@fn crates/zune-png/src/crc.rs :: crc32_slice8
//@ret r
//@sub chunk.try_into().unwrap() => vx_arr8(chunk)
//@spec
    ensures r == crcs(data@, crc),
//@at begin
    let ghost c0 = crc;
//@loop 0
    data.len() <= usize::MAX, vx_c0 == data.len() / 8, crc == crcs(data@.subrange(0, vx_i0 * 8), c0),
//@at loop 0 body
        let ghost c1 = crc;
//@at loop 0 begin
        proof { assert(vx_k0 * 8 + 8 <= data@.len()) by(nonlinear_arith) requires vx_k0 + 1 <= data@.len() / 8; }
//@at after let v2
        let ghost x = c1 ^ v1;
        proof {
            assert((x >> 0) & 0xff < 256 && (x >> 8) & 0xff < 256 && (x >> 16) & 0xff < 256 && (x >> 24) & 0xff < 256) by(bit_vector);
            assert((v2 >> 0) & 0xff < 256 && (v2 >> 8) & 0xff < 256 && (v2 >> 16) & 0xff < 256 && (v2 >> 24) & 0xff < 256) by(bit_vector);
            lemma_is8(0x700 + byt(x, 0) as int); lemma_is8(0x600 + byt(x, 8) as int); lemma_is8(0x500 + byt(x, 16) as int); lemma_is8(0x400 + byt(x, 24) as int);
            lemma_is8(0x300 + byt(v2, 0) as int); lemma_is8(0x200 + byt(v2, 8) as int); lemma_is8(0x100 + byt(v2, 16) as int); lemma_is8(byt(v2, 24) as int);
        }
//@at loop 0 end
        proof {
            let ch = data@.subrange(vx_k0 * 8, vx_k0 * 8 + 8);
            assert(chunk@ =~= ch);
            assert(data@.subrange(0, vx_k0 * 8 + 8) =~= data@.subrange(0, vx_k0 * 8) + ch);
            lemma_crc_cat(data@.subrange(0, vx_k0 * 8), ch, c0);
            lemma_mix(ch, c1);
            assert(x == c1 ^ ((le64(ch) & 0xffffffff) as u32)); assert(v2 == (le64(ch) >> 32) as u32);
            assert(crc == mix(x, v2));
        }
//@loop 1
    vx_m1_0 == (data@.len() / 8) * 8, vx_c1 == data@.len() - (data@.len() / 8) * 8, crc == crcs(data@.subrange(0, (data@.len() / 8) * 8 + vx_i1), c0),
//@at loop 1 body
        let ghost c1 = crc;
        proof { lemma_s8_byte(crc, data@[vx_m1_0 + vx_k1] as u32); lemma_is1(((crc & 0xff) ^ (data@[vx_m1_0 + vx_k1] as u32)) as int); }
//@at loop 1 end
        proof {
            let p = (data@.len() / 8) * 8 + vx_k1; 
            assert(data@.subrange(0, p + 1).drop_last() =~= data@.subrange(0, p)); assert(data@.subrange(0, p + 1).last() == data@[p]);
            lemma_s8_byte(c1, data@[p] as u32);
        }
//@at after loop 1
        proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//@end
}
use slice8::*;
//@fn crates/zune-png/src/crc.rs :: calc_crc
//@ret r
//@spec
    ensures r == crc32(data@),
//@end
//@fn crates/zune-png/src/crc.rs :: calc_crc_with_bytes
//@ret r
//@spec
    ensures r == crcs(data@, value),
//@end
