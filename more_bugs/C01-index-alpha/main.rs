use zune_core::{bit_depth::BitDepth, bytestream::ZCursor, colorspace::ColorSpace, options::EncoderOptions};
fn rt(px: &[u8], w: usize, h: usize, cs: ColorSpace) {
    let mut out = vec![];
    zune_qoi::QoiEncoder::new(px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut out).unwrap();
    let got = zune_qoi::QoiDecoder::new(ZCursor::new(&out)).decode().unwrap();
    assert_eq!(&got[..], px, "decode(encode(px)) != px");
}
fn main() { let a=[9u8,9,9,255]; let b=[73u8,9,9,255]; let b2=[9u8+0,9,9,191]; let mut p=vec![]; for c in [a,b,b2,b,a,b2,a] { p.extend(c); } rt(&p,7,1,ColorSpace::RGBA); let mut s=7u32; let mut p=vec![]; for _ in 0..4096 { s=s.wrapping_mul(1664525).wrapping_add(1013904223); let v=(s>>28) as u8; p.extend([v*16,v*3,v,(s>>20) as u8 & 0xc0]); } rt(&p,64,64,ColorSpace::RGBA); }
