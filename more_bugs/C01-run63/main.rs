use zune_core::{bit_depth::BitDepth, bytestream::ZCursor, colorspace::ColorSpace, options::EncoderOptions};
fn rt(px: &[u8], w: usize, h: usize, cs: ColorSpace) {
    let mut out = vec![];
    zune_qoi::QoiEncoder::new(px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut out).unwrap();
    let got = zune_qoi::QoiDecoder::new(ZCursor::new(&out)).decode().unwrap();
    assert_eq!(&got[..], px, "decode(encode(px)) != px");
}
fn main() { let mut p = vec![]; for i in 0..200usize { let c = if i < 100 { [10u8, 20, 30] } else { [200, 1, 99] }; p.extend(c); } rt(&p, 200, 1, ColorSpace::RGB); }
