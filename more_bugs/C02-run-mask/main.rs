use zune_core::{bit_depth::BitDepth, bytestream::ZCursor, colorspace::ColorSpace, options::EncoderOptions};
fn rt(px: &[u8], w: usize, h: usize, cs: ColorSpace) {
    let mut out = vec![];
    zune_qoi::QoiEncoder::new(px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut out).unwrap();
    let got = zune_qoi::QoiDecoder::new(ZCursor::new(&out)).decode().unwrap();
    assert_eq!(&got[..], px, "decode(encode(px)) != px");
}
fn main() { let mut p=vec![]; for i in 0..120usize { p.extend(if i<50 {[1u8,2,3]} else {[77,5,200]}); } rt(&p,40,3,ColorSpace::RGB); }
