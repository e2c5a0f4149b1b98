// a PackBits stream with a no-op byte (128) between two packets
use zune_core::bytestream::ZCursor;
fn main() {
    let rows: Vec<Vec<u8>> = vec![vec![0xFE, 7, 128, 1, 8, 9], vec![128, 4, 1, 2, 3, 4, 5]];
    let mut f = b"8BPS\0\x01\0\0\0\0\0\0".to_vec();
    f.extend(3u16.to_be_bytes()); f.extend(2u32.to_be_bytes()); f.extend(5u32.to_be_bytes()); f.extend(8u16.to_be_bytes()); f.extend(3u16.to_be_bytes());
    f.extend([0; 12]); f.extend(1u16.to_be_bytes());
    for _ in 0..3 { for r in &rows { f.extend((r.len() as u16).to_be_bytes()); } }
    for _ in 0..3 { for r in &rows { f.extend(r); } }
    f.extend([0u8; 64]);
    let px = zune_psd::PSDDecoder::new(ZCursor::new(&f)).decode_raw().expect("a valid file decodes");
    let want: Vec<u8> = [7u8, 7, 7, 8, 9, 1, 2, 3, 4, 5].iter().flat_map(|v| [*v; 3]).collect();
    assert_eq!(px, want);
}
