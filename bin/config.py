NATIVE_ENV = {}
TRUST_COMMON = [
 'rustc, Verus 0.2026.09.13 and its VIR/AIR translation, Z3 (solver answers are not re-checked)',
 'vstd specifications of the Rust standard library (slices, Vec, integer methods)',
 'vx extractor: byte-range edits on the text of /repo; the rules applied are counted under extraction_rules_applied',
]
ASSUME_COMMON = [
 'usize is 64 bits',
 'code under #[cfg] features that are not selected (SIMD dispatch, log macros) is outside the proof and is compared only by the bounded part',
 'heap allocation does not fail',
]
TECH = 'Verus contracts on functions extracted mechanically from /repo, discharged by Z3; bounded stand-in for the glue'
P = {
 'C01': dict(level='proof', verus=['c01'], native=['qoi'], secs=15, rlimit=60, technique=TECH,
   theorems=['theorem_qoi_roundtrip', 'QoiEncoder::encode', 'QoiDecoder::decode', 'lemma_enc_step'],
   note='Proved for every width, height and pixel content: encode() leaves exactly header + operations + trailer in the sink, the operations decode (QOI format state machine) to the input, decode() accepts that file within its limits and returns the input. The byte sink and source are the contracts of the ZByteWriterTrait/ZByteReaderTrait traits (C07/C08 check the implementations).'),
 'C02': dict(level='proof', verus=['c02', 'zio'], native=['qoi'], secs=15, rlimit=60, technique=TECH,
   theorems=['QoiDecoder::decode_inner_generic', 'QoiDecoder::decode_headers', 'QoiDecoder::decode_into', 'QoiDecoder::decode'],
   note='Proved for every input byte string: the decoder accepts exactly the streams on which the QOI state machine (written from the format description) runs to the end, and returns its pixels; every error path and the header limits are in the contract.'),
 'C03': dict(level='proof', verus=['c03'], native=['farbfeld'], secs=15, rlimit=40, technique=TECH,
   theorems=['theorem_farbfeld_roundtrip', 'FarbFeldEncoder::encode', 'FarbFeldDecoder::decode', 'FarbFeldDecoder::decode_into'],
   note='Proved for every input: decode_headers/decode_into/decode accept exactly the well-formed files within the limits and return their big-endian samples; encode leaves exactly magic, dimensions and byte-swapped samples in the sink; together the round trip.'),
 'C05': dict(level='proof', verus=['c05'], native=['png'], secs=20, technique=TECH,
   theorems=['theorem_unfilter_inverts_filter', 'handle_sub', 'handle_up', 'handle_avg', 'handle_paeth', 'handle_paeth_first', 'handle_avg_first', 'sub_filter', 'up_filter', 'paeth'],
   note='Proved for all rows, lengths and pixel widths: every scalar reconstruction and encoder filter function computes the PNG relation, and unfilter(filter(row)) == row. The SSE kernels, the row loop of the decoder and interlacing are checked only by the bounded part, against a specification-level PNG generator.'),
 'C07': dict(level='proof', verus=['c07', 'c07s'], native=['core'], nostd=True, secs=10, rlimit=40, technique=TECH,
   theorems=['impl ZByteReaderTrait for ZCursor (no_std)', 'impl ZByteReaderTrait for T: BufRead + Seek (std adaptor)', 'ZReader::*'],
   note='Proved for every buffer, position and call: ZCursor (no_std build) and the std::io adaptor deliver the bytes at the position, advance by exactly what was delivered, restore the position after a peek or an unsatisfied exact read, seek exactly to the target, and ZReader assembles 16/32/64-bit integers in the stated order, skips, rewinds and peeks exactly. Real std::io sources (File, BufReader) are assumed to meet the documented BufRead + Seek contract; sampled with short-reading sources.'),
 'C08': dict(level='proof', verus=['c08'], native=['core'], nostd=True, secs=10, rlimit=40, technique=TECH,
   theorems=['impl ZByteWriterTrait for T: Write (std adaptor)', 'ZWriter::*'],
   note='Proved for every sink meeting the documented Write contract: an operation that returns Ok appended exactly the given bytes (integers in the stated byte order) and counted them, one that returns an error counted nothing. The no_std sinks (&mut [u8], &mut Vec<u8>) and failing sinks are sampled only.'),
 'C09': dict(level='proof', verus=['c09'], native=['png'], secs=15, rlimit=60, technique=TECH,
   theorems=['crc32_slice8', 'lemma_mix', 'PngDecoder::read_chunk_header', 'write_chunk'],
   note='Proved for all data of any length: the table-driven CRC equals the bit-by-bit definition (all 2304 table entries checked by computation), the decoder with CRC confirmation accepts a chunk only if its stored CRC is that of its type and data and never rejects a matching one below the 20 MiB peek limit, and write_chunk emits length, type, data and that CRC. write_header_fn (closure-driven small chunks) is proved under C20; the chunk loop of the decoder is sampled only.'),
 'C10': dict(level='proof', verus=['c10'], native=['inflate'], secs=20, rlimit=60, technique=TECH,
   theorems=['DeflateDecoder::decode_zlib', 'DeflateDecoder::decode_gzip', 'BitStreamReader::refill', 'BitStreamReader::peek_bits', 'BitStreamReader::get_bits', 'crc32'],
   note='Proved for every input: decode_zlib and decode_gzip accept exactly when the wrapper header is valid, the deflate stream is accepted and (when confirmation is on) checksum and size match; the bit reader delivers exactly the bits of the input in order, across every refill path; crc32 is the bit-by-bit definition. The Huffman decoding loop decode_deflate itself enters as an uninterpreted function and is compared with independent decoders by the bounded part.'),
 'C11': dict(level='proof', verus=['c11'], native=['inflate'], secs=15, rlimit=60, technique=TECH,
   theorems=['DeflateEncoder::encode_zlib', 'DeflateEncoder::encode_deflate', 'DeflateEncoder::encode_no_compression', 'DeflateEncoder::write_zlib_header'],
   note='Proved for every input and level: the bytes written are a valid RFC 1950 stream of RFC 1951 stored blocks, and a decoder written from the RFC (a specification function) returns exactly the input from them. adler32 (SIMD crate) is an uninterpreted function; that zune-inflate and an independent decoder accept the stream is sampled.'),
 'C12': dict(level='proof', verus=['c12'], native=['procs'], secs=15, rlimit=60, technique=TECH,
   theorems=['theorem_flip_twice', 'theorem_flop_twice', 'theorem_transpose_twice', 'theorem_rotate_180_twice', 'theorem_rotate_90_270', 'crop', 'rotate_90', 'rotate_180', 'rotate_270', 'transpose_scalar'],
   note='Proved for every width, height and content: the scalar flip, flop, mirror, crop, transpose and rotate kernels compute the documented permutation of the samples, and the involutions and inverses follow. The SSE/AVX transposes and the per-channel dispatch (execute_impl) are sampled against the same permutations.'),
 'C13': dict(level='proof', verus=['c13'], native=['image'], secs=15, rlimit=60, technique=TECH,
   theorems=['theorem_join_split', 'theorem_roundtrip_u8', 'deinterleave_u8', 'deinterleave_u16', 'deinterleave_f32', 'swizzle_channels', 'Frame::flatten'],
   note='Proved for every length and channel count the functions accept: de-interleaving places sample i*n+c at position i of channel c, interleaving is its inverse. Channel (raw memory) is used through stated contracts, and deinterleave_generic and the SIMD kernels are outside the proof; those are sampled.'),
 'C14': dict(level='proof', verus=['c14'], native=['image'], secs=15, rlimit=60, technique=TECH,
   theorems=['depth_u16_to_u8', 'depth_u8_to_u16', 'Depth::execute_impl', 'theorem_u8_u16_u8', 'theorem_u8_f32_u8', 'theorem_u16_f32_u16', 'theorem_u8_f32_u16_u8'],
   note='Proved for every image: each channel keeps its length and every sample is converted by the formula of its depth pair, and by four axioms about the floating point formulas the round trips return the samples. Each axiom has a finite domain (all 8 or all 16 bit values), which the bounded part enumerates completely on the real code.'),
 'C15': dict(level='proof', verus=['c15'], native=['procs'], secs=15, rlimit=60, technique=TECH,
   theorems=['theorem_fastdiv', 'compute_mod_u32', 'fastdiv_u32', 'create_unpremul_table_u8', 'create_unpremul_table_u16', 'premultiply_u8', 'premultiply_u16', 'unpremultiply_u8', 'unpremultiply_u16'],
   note='Proved for every colour, alpha and row length: the reciprocal table and fastdiv_u32 give the true quotient, un-premultiplying is that quotient (0 for alpha 0) and premultiplying the rounded product, with no overflow. The float variants and the image level loop over channels are sampled.'),
 'C16': dict(level='proof', verus=['c16'], native=['jpeg'], second=['jpegs'], secs=20, rlimit=60, technique=TECH,
   theorems=['clamp', 'ycbcr_to_rgb_inner_16_scalar', 'ycbcr_to_rgba_inner_16_scalar', 'ycbcr_to_grayscale'],
   note='Proved for every luma and chroma value of the scalar converters: every output byte is within 0.52 of the clamped JFIF value, in RGB or BGR order, and only the pixels of the current position are written. The SSE/AVX2 converters are compared with the scalar ones by the bounded part.'),
 'C25': dict(level='proof', verus=['c25'], native=['hdr'], secs=15, rlimit=120, technique=TECH,
   theorems=['HdrDecoder::decode_into', 'HdrDecoder::decompress', 'convert_scanline', 'rle (encoder)', 'theorem_component_roundtrip'],
   note='Proved for every byte string: decompress and decode_into return exactly the pixels of the Radiance scanline format (old and new run length encoding, truncation and overlong scanlines rejected, no overflow or out-of-bounds access), and the encoder run-length coder writes for every row a stream that the format reads back as that row. ldexp is an uninterpreted function (the bounded part enumerates it), header parsing and HdrEncoder::encode are sampled.'),
 'C26': dict(level='proof', verus=['c26'], native=['psd'], secs=15, rlimit=60, technique=TECH,
   theorems=['PSDDecoder::decode_headers', 'PSDDecoder::psd_decode_rle', 'PSDDecoder::decode_raw', 'ColorModes::from_int', 'CompressionMethod::from_int'],
   note='Proved for every byte string: the header reader accepts exactly the supported signature, version, channel count, dimensions, depth, colour mode and compression and positions the stream at the image data; PackBits data decodes to the bytes its runs describe and truncated data is an error; the planar 16 bit and single channel 8 bit rasters, the 16 bit run length raster and white-matte removal give the documented samples. Multi channel raw 8 bit data and the matte of CMYK images are known findings, the dispatcher decode() is sampled.'),
 'C17': dict(level='proof', verus=['c17'], native=['jpeg'], second=['jpegs'], secs=10, rlimit=60, technique=TECH,
   theorems=['idct_int', 'idct4x4', 'idct_int_1x1', 'lemma_dc'],
   note='Proved for every block of 64 coefficients, stride and output slice of the scalar code: idct_int writes exactly the 8x8 block and every sample equals the two-pass integer transform (linear forms with 12 bit cosine coefficients, wrapping 32 bit arithmetic, the stated rounding), clamped to 0..255; idct4x4 gives that same block whenever only the upper left 4x4 coefficients are set and leaves coefficients 32..63 zero, which the MCU decoder relies on; idct_int_1x1 gives the same block for a lone DC within +-65536 and leaves the coefficients alone; no overflow, no write outside the block. Trusted: f2f(1.175875602) == 4816, slice::fill. BOUNDED: closeness to the exact real-valued transform, and the AVX2 versions (the same generated files through a build with and one without the SIMD feature).'),
 'C18': dict(level='proof', verus=['c18'], native=['jpeg'], secs=12, rlimit=90, technique=TECH,
   theorems=['HuffmanTable::make_derived_table', 'HuffmanTable::new', 'HuffmanTable::new_unfilled', 'BitStream::refill', 'BitStream::decode_dc', 'BitStream::discard_dc', 'BitStream::decode_mcu_block', 'BitStream::decode_mcu_ac_first', 'BitStream::decode_prog_dc_first', 'BitStream::decode_prog_dc_refine', 'BitStream::get_bits', 'huff_extend', 'lemma_unique', 'has_byte'],
   note='Proved for every set of code lengths and every byte string: the derived tables (lookup, limits, offsets, AC shortcut) describe the canonical code of ISO 10918-1 annex C and lengths that over-subscribe the code space are rejected; the bit reader removes byte stuffing and stops at markers; a baseline block decodes to the DC difference and the run/size/value symbols its bits code, in zig-zag order, whichever of the table, shortcut and long-code paths is taken; in progressive scans, a first AC scan puts the values its symbols code, scaled to the bit position, at their zig-zag place and sets the end-of-band run the bits state, and DC first and refining scans set the DC value and its next bit. Reading the DHT segment, AC refining scans, the loops over a scan and restart handling are covered only by the bounded part.'),
 'C21': dict(level='proof', verus=['c21', 'c21b', 'c21p'], native=['bmp'], secs=15, rlimit=250, technique=TECH,
   theorems=['BmpDecoder::decode_rle (8 bit)', 'BmpDecoder::decode_rle (4 bit)', 'BmpDecoder::expand_palette', 'BmpDecoder::expand_palette_from_remaining_bytes', 'shift_signed'],
   note='Proved for every byte string: RLE8 and RLE4 data decodes to exactly the palette indices its runs, literals, deltas and end codes paint (bottom row first, nothing outside the image, no overflow or out-of-bounds access); palette expansion shows for every row and column the palette entry of its byte, rows bottom up with the padding removed, from memory and from the stream; bit-field scaling maps 0 to 0, the largest value to 255 and is off by less than one. Header parsing and the dispatch over bit depths (decode_into_inner) are covered only by the bounded part.'),
 'C22': dict(level='proof', verus=['c22', 'c03', 'c02', 'c26', 'c04'], native=['qoi', 'farbfeld', 'ppm', 'png', 'jpeg', 'hdr', 'psd', 'bmp'], secs=8, rlimit=60, technique=TECH,
   theorems=['PngDecoder::parse_ihdr', 'parse_start_of_frame (JPEG)', 'Components::from', 'QoiDecoder::decode_headers', 'FarbFeldDecoder::decode_headers', 'PSDDecoder::decode_headers'],
   note='Proved for every byte string and every configured limit: the PNG IHDR, JPEG frame header, QOI, farbfeld, PSD and PPM (P5/P6, P7, PFM) header parsers accept no width or height above the limits, and the PNG, JPEG, QOI, farbfeld, PSD and P5/P6 parsers reject nothing within them for its size. HDR and BMP headers are covered only by the bounded part.'),
 'C04': dict(level='proof', verus=['c04'], native=['ppm'], secs=15, rlimit=60, technique=TECH,
   theorems=['skip_spaces', 'PPMDecoder::get_integer', 'PPMDecoder::decode_p5_and_p6_header', 'PPMDecoder::decode_headers', 'PPMDecoder::decode', 'PPMEncoder::encode', 'theorem_raster_roundtrip'],
   note='Proved for every byte string: a P5/P6 header is read as its white space and comment separated numbers, accepted exactly if within the limits, exactly one white space byte separates it from the raster, and decode returns exactly the 8 or big endian 16 bit samples that follow (also for P7, once its header is decoded); the encoder writes a header and then exactly the samples. The P7 header loop and the PFM header are proved to stay within the limits. The meaning of the P7 keywords, the PFM raster arm and the text of the written header are covered only by the bounded part.'),
 'C06': dict(level='proof', verus=['c06'], native=['png'], secs=15, rlimit=60, technique=TECH,
   theorems=['expand_palette', 'add_alpha', 'expand_trns', 'expand_bits_to_byte', 'convert_be_to_ne_scalar'],
   note='Proved for every row and length: palette expansion gives the palette entry of every index, an added alpha channel is opaque, a tRNS colour key makes exactly the matching pixels transparent at 8 and 16 bits, 1/2/4 bit samples are unpacked most significant first and scaled to the full range (grey) or left as indices (palette), and 16 bit samples are converted from big to native endian. The SIMD byte swaps, the row driver, interlacing and stripping 16 bits to 8 are covered only by the bounded part.'),
 'C20': dict(level='proof', verus=['c20'], native=['png'], secs=20, rlimit=60, technique=TECH,
   theorems=['PngEncoder::encode', 'PngEncoder::add_filters', 'PngEncoder::write_idat_chunks', 'PngEncoder::encode_headers', 'write_ihdr', 'write_header_fn (IHDR, eXIf, IEND)', 'write_chunk', 'calc_crc', 'filter_scanline', 'DeflateEncoder::encode_zlib', 'theorem_rows_determine_image'],
   note='Proved for every supported image (grey, grey+alpha, RGB, RGBA, 8 and 16 bit, any size and content): when encode returns Ok, the sink received the PNG signature, an IHDR chunk with the image dimensions, depth and colour type, IDAT chunks whose joined data is a zlib stream (header, stored blocks, Adler-32) of one filter byte and the filtered samples per row, and IEND, every chunk with its length and CRC-32; and the reconstruction rules of the PNG specification applied to that stream give back exactly the samples, and nothing else. That the decoder of this repository is such a reader is C05, C06, C09 and C10 plus the bounded round trip. adler32 (SIMD crate) is an uninterpreted function; write_header_fn is verified once per writer function (its closure argument replaced by that function, its &mut Vec sink moved in and out); a gamma chunk cannot be requested through the public interface.'),
}
NA = {
 'C19': 'The encoder (fjxl port) is one large generic state machine over trait objects, raw shared buffers and const-generic bit depths that is outside the subset Verus accepts, and a contract that states "decodes to the same pixels" needs the JPEG XL modular entropy decoder as its specification; only the bit writer is within reach, which alone does not decide the property.',
 'C23': 'Panic freedom for every byte string is proved function by function as part of C02, C03, C04, C07, C21, C25 and C26 (Verus proves absence of overflow, out-of-bounds access and non-termination of every function under contract), but the JPEG, PNG, GIF and JPEG XL drivers (trait objects, closures, raw pointers) are not within reach of the verifier, so no contract decides the property for all decoders; a fuzzing check would be another technique.',
 'C24': 'The SIMD side is std::arch intrinsics, for which Verus has no semantics; a contract on them would be an assumption of the property itself. The scalar kernels are proved (C05, C12, C13, C16, C17) and the SIMD ones are compared with them in the bounded parts of those checks.',
 'C27': 'Scoped threads, closures over &mut chunks and Mutex sharing are outside the subset Verus extracts here (std::thread::scope with borrowed captures); disjointness of the chunks is guaranteed by the borrow checker, and scheduling independence is a property of concurrent executions that sequential contracts cannot state.',
 'C28': 'Pipelines are vectors of boxed trait objects (dyn OperationsTrait, dyn DecoderTrait) with closures and file I/O; a contract would have to be assumed for every dynamic call, so the obligation left for the verifier is the for loop itself. The operations are specified one by one (C12 to C15).',
}
