//TRUST: std integer/byte conversions u16/u32/u64::{from,to}_{be,le,ne}_bytes, swap_bytes, to_le are assumed to have their documented meaning (little endian target)
pub open spec fn be16(s: Seq<u8>) -> u16 { ((s[0] as u16) << 8) | (s[1] as u16) }
pub open spec fn le16(s: Seq<u8>) -> u16 { ((s[1] as u16) << 8) | (s[0] as u16) }
pub open spec fn be32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
pub open spec fn le32(s: Seq<u8>) -> u32 { ((s[3] as u32) << 24) | ((s[2] as u32) << 16) | ((s[1] as u32) << 8) | (s[0] as u32) }
pub open spec fn be64(s: Seq<u8>) -> u64 { ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32) | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64) }
pub open spec fn le64(s: Seq<u8>) -> u64 { ((s[7] as u64) << 56) | ((s[6] as u64) << 48) | ((s[5] as u64) << 40) | ((s[4] as u64) << 32) | ((s[3] as u64) << 24) | ((s[2] as u64) << 16) | ((s[1] as u64) << 8) | (s[0] as u64) }
pub open spec fn be16b(x: u16) -> Seq<u8> { seq![(x >> 8) as u8, x as u8] }
pub open spec fn le16b(x: u16) -> Seq<u8> { seq![x as u8, (x >> 8) as u8] }
pub open spec fn be32b(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub open spec fn le32b(x: u32) -> Seq<u8> { seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8] }
pub open spec fn be64b(x: u64) -> Seq<u8> { seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub open spec fn le64b(x: u64) -> Seq<u8> { seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8] }
pub open spec fn swap64(x: u64) -> u64 { ((x & 0xff) << 56) | ((x & 0xff00) << 40) | ((x & 0xff0000) << 24) | ((x & 0xff000000) << 8) | ((x >> 8) & 0xff000000) | ((x >> 24) & 0xff0000) | ((x >> 40) & 0xff00) | (x >> 56) }
#[verifier::external_body] pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be16(b@) { u16::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le16(b@) { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u16_from_ne_bytes(b: [u8; 2]) -> (r: u16) ensures r == le16(b@) { u16::from_ne_bytes(b) }
pub trait VxB16: Sized { spec fn vx_v(self) -> u16;
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == be16b(self.vx_v());
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == le16b(self.vx_v());
    fn vx_to_ne_bytes(self) -> (r: [u8; 2]) ensures r@ == le16b(self.vx_v());
}
impl VxB16 for u16 { open spec fn vx_v(self) -> u16 { self }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(self) -> (r: [u8; 2]) { self.to_ne_bytes() }
}
#[verifier::external_body] pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u32_from_ne_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { u32::from_ne_bytes(b) }
pub trait VxB32: Sized { spec fn vx_v(self) -> u32;
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32b(self.vx_v());
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == le32b(self.vx_v());
    fn vx_to_ne_bytes(self) -> (r: [u8; 4]) ensures r@ == le32b(self.vx_v());
}
impl VxB32 for u32 { open spec fn vx_v(self) -> u32 { self }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(self) -> (r: [u8; 4]) { self.to_ne_bytes() }
}
#[verifier::external_body] pub fn vx_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == be64(b@) { u64::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le64(b@) { u64::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u64_from_ne_bytes(b: [u8; 8]) -> (r: u64) ensures r == le64(b@) { u64::from_ne_bytes(b) }
pub trait VxB64: Sized { spec fn vx_v(self) -> u64;
    fn vx_to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be64b(self.vx_v());
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == le64b(self.vx_v());
    fn vx_to_ne_bytes(self) -> (r: [u8; 8]) ensures r@ == le64b(self.vx_v());
}
impl VxB64 for u64 { open spec fn vx_v(self) -> u64 { self }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(self) -> (r: [u8; 8]) { self.to_ne_bytes() }
}
pub assume_specification [u64::to_le](x: u64) -> (r: u64) ensures r == x;
pub assume_specification [u64::swap_bytes](x: u64) -> (r: u64) ensures r == swap64(x);
