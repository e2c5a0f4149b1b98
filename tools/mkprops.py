#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so that the list is reviewable)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
C='crates/'
p('C01','QOI encode then decode gives back every pixel','For every 8 bit RGB or RGBA image whose buffer matches its declared size, encoding it as QOI and decoding the result gives back exactly the same pixels, dimensions and colour layout. The encoded stream is the one the QOI specification prescribes to decode, the reported length is the number of bytes written, and a sink that does not take every byte makes the encoder return an error.',['inputs'],'all widths, heights, both channel counts and all pixel values',
  'the tests encode a handful of files; the running index, the run counter and the difference ops interact over arbitrary pixel histories',[C+'zune-qoi/src/encoder.rs',C+'zune-qoi/src/decoder.rs'],[('op selection and running index','QoiEncoder::encode_into'),('op interpretation','QoiDecoder::decode_inner_generic')],[dict(name='index',meaning='64 recently seen pixels, must agree on both sides',where='both loops')],['QoiEncoder::encode','QoiDecoder::decode'])
p('C02','QOI decoding follows the specification and stays inside the image','For every byte string, decoding it as QOI either fails cleanly or yields exactly the pixels that the QOI specification assigns to the stream, and decoding into a caller buffer writes exactly the image bytes and nothing behind them. It never panics, whatever the bytes.',['inputs'],'all byte strings, all caller buffer lengths, strict and lenient mode',
  'tests decode well formed files into exactly sized buffers only',[C+'zune-qoi/src/decoder.rs'],[('chunk loop','QoiDecoder::decode_inner_generic'),('buffer check','QoiDecoder::decode_into')],observe=['QoiDecoder::decode_into'])
p('C03','Farbfeld encode then decode gives back every sample','For every 16 bit RGBA image, encoding it as Farbfeld and decoding the result gives back exactly the same samples and dimensions, whether the caller asks for a vector or supplies a buffer. The file written is the one the Farbfeld format describes, the reported length is the number of bytes written, and a sink that does not take every byte makes the encoder return an error.',['inputs'],'all dimensions and sample values',
  'one decode test exists; no test covers sample order, byte order and buffer sizes for all images',[C+'zune-farbfeld/src/encoder.rs',C+'zune-farbfeld/src/decoder.rs'],[('sample writer','FarbFeldEncoder::encode'),('sample reader','FarbFeldDecoder::decode_into')])
p('C04','Netpbm images survive encode and decode, raster bytes are never eaten','Every 8 or 16 bit image written as PPM/PGM/PAM decodes to the same samples, dimensions and colour layout. Any valid P5, P6, P7 or PFM file decodes to the raster that follows its header, whatever values the first raster bytes have, with PFM rows delivered top row first. A sink that does not take every byte makes the encoder return an error.',['inputs'],'all images, all header spellings (whitespace, comments, field order), all raster bytes',
  'the tests use rasters that do not begin with whitespace bytes and even heights',[C+'zune-ppm/src/encoder.rs',C+'zune-ppm/src/decoder.rs'],[('header parser','PPMDecoder::decode_headers'),('raster reader','PPMDecoder::decode'),('writer','PPMEncoder::encode')])
p('C05','PNG scanline filters are reconstructed exactly','For every scanline, previous scanline, filter type and pixel width, reconstruction yields the row the PNG specification defines, so that filtering on encode followed by reconstruction is the identity. This holds for the first row, for rows of any length, for interlaced images and with or without SIMD acceleration.',['inputs','configurations'],'all row contents and lengths, all filter sequences, all pixel widths 1..8 bytes, SIMD on and off',
  'the filters are recurrences over a row; the fixtures contain a few filter sequences and image widths',[C+'zune-png/src/filters/de_filter.rs',C+'zune-png/src/filters/filter.rs',C+'zune-png/src/decoder.rs'],[('reconstruction','handle_sub, handle_up, handle_avg, handle_paeth and first-row variants'),('dispatch','PngDecoder::create_png_image_raw')])
p('C06','PNG samples are expanded as the specification says','Every valid PNG decodes to the samples its header, palette and transparency describe: low bit depths are scaled to 8 bits, palette indices become their colours, the transparent colour becomes alpha zero and everything else opaque, and an alpha channel that is asked for is opaque unless the file says otherwise. Stripping to 8 bits keeps the most significant byte, and 16 bit samples come out in the requested byte order.',['inputs','configurations'],'all colour types, depths, palettes, tRNS values, interlacing and the transformation options',
  'fixtures cover one image per kind; the transformations are combined row by row with a one row delay',[C+'zune-png/src/utils.rs',C+'zune-png/src/decoder.rs'],[('bit expansion','expand_bits_to_byte'),('palette','expand_palette'),('transparency','expand_trns'),('alpha','add_alpha')])
p('C07','Byte sources read, peek and seek with one consistent position','Reading from any byte source delivers the bytes of the source in order, each exactly once, with multi-byte integers in the stated byte order. Peeking never moves the position, seeking and skipping move it to exactly the requested place, and a read that cannot be satisfied reports an error instead of inventing data, except for the calls documented to return zero.',['inputs','histories'],'all sources and all sequences of operations',
  'unit tests run single calls; a decoder issues long mixed sequences',[C+'zune-core/src/bytestream/reader.rs',C+'zune-core/src/bytestream/reader/no_std_readers.rs'],[('cursor','ZCursor'),('reader','ZReader')])
p('C08','Byte sinks receive exactly the bytes written, or an error','Writing to any byte sink appends exactly the bytes given, in order, with multi-byte integers in the stated byte order. When the sink cannot take all of them, an error is reported by the operations that can fail, and nothing outside the sink is touched.',['inputs','histories'],'all sinks and sequences of writes',
  'unit tests write a few values into large sinks',[C+'zune-core/src/bytestream/writer.rs'],[('writer','ZWriter')])
p('C09','Corrupted PNG chunks are detected by their checksum','With checksum confirmation on, a PNG in which any chunk has up to 32 consecutive bits of its type, data or checksum altered is rejected, and an intact file is accepted. The encoder writes chunks whose checksum is the CRC-32 of their type and data.',['inputs'],'all files, all chunks, all bursts of at most 32 bits',
  'the tests compare two table driven implementations with each other on one random buffer',[C+'zune-png/src/crc.rs',C+'zune-png/src/crc/crc_tables.rs',C+'zune-png/src/decoder.rs'],[('CRC-32','crc32_slice8'),('check','PngDecoder::read_chunk_header'),('writing','write_chunk')])
p('C10','DEFLATE, zlib and gzip streams decode to exactly the original data','Every valid DEFLATE, zlib or gzip stream decodes to exactly the data it encodes, whatever block types, code lengths and match distances it uses. A stream whose checksum does not match its data is rejected when checking is on, and arbitrary bytes never cause a panic. The configured output limit stops decoding shortly after it is passed (the decoder checks it per block and buffer growth, not per byte).',['inputs','configurations'],'all streams of all block kinds, all limits',
  'a few files; the fast loop, the tail loop and overlapping copies are selected by position in the buffer',[C+'zune-inflate/src/decoder.rs',C+'zune-inflate/src/bitstream.rs',C+'zune-inflate/src/utils.rs'],[('bit reader','BitStream'),('table builder','DeflateDecoder::build_decode_table'),('copy','copy_rep_matches')])
p('C11','What the deflate encoder writes, any inflater reads back','Compressing any data to zlib gives a stream that a standard inflater decodes to exactly that data.',['inputs'],'all inputs and lengths, including those that need several stored blocks',
  'tests only use small inputs',[C+'zune-inflate/src/encoder.rs'],[('stored block writer','DeflateEncoder::encode_no_compression')])
p('C12','Geometric operations move every pixel to exactly the right place','Flip, flop, mirror, transpose, rotation and crop put each source pixel at the coordinate the operation defines, for every image size and sample type, and change no pixel value. Operations that are their own inverse restore the image when applied twice.',['inputs'],'all dimensions (including odd and smaller than the block size) and all sample types',
  'tests mostly check that the operation does not fail',[C+'zune-imageprocs/src/flip.rs',C+'zune-imageprocs/src/flop.rs',C+'zune-imageprocs/src/mirror.rs',C+'zune-imageprocs/src/transpose.rs',C+'zune-imageprocs/src/rotate.rs',C+'zune-imageprocs/src/crop.rs'],[('index permutations','flip, vertical_flip, flop, mirror, transpose_generic, rotate, crop')])
p('C13','Interleaving and splitting channels are inverse','Splitting interleaved pixels into channels and interleaving them again gives back the same samples for every channel count, sample type and length, and the channel of each sample is its position in the pixel.',['inputs'],'all component counts 1..4, all lengths, all sample types',
  'tests use one size per type',[C+'zune-image/src/deinterleave.rs',C+'zune-image/src/utils.rs',C+'zune-image/src/channel.rs'],[('split','deinterleave_u8, deinterleave_u16, deinterleave_f32'),('join','Image::flatten_frames')])
p('C14','Bit depth conversion keeps the value within rounding','Converting samples between 8 bit, 16 bit and floating point maps zero to zero and full scale to full scale, is monotonic, 8 bit samples survive a round trip through a deeper type unchanged, and 16 bit samples survive a round trip through floating point.',['inputs'],'all sample values and all pairs of depths',
  'tests convert a few constants',[C+'zune-image/src/core_filters/depth.rs'],[('conversion','convert_u8_to_u16 and siblings')])
p('C15','Un-premultiplying is exact division','Premultiplying and un-premultiplying alpha compute the correctly rounded product and the true integer quotient for every colour and alpha value, with zero alpha giving zero and no overflow.',['inputs'],'all colour and alpha values of each integer depth',
  'the quotient comes from a precomputed reciprocal table; tests sample few entries',[C+'zune-imageprocs/src/premul_alpha.rs',C+'zune-imageprocs/src/mathops.rs'],[('reciprocal table','compute_mod_u32, fastdiv_u32')])
p('C16','YCbCr to RGB is the JFIF transform, clamped','For every luma and chroma value the JPEG colour conversion yields the JFIF RGB value within the rounding of its fixed point arithmetic, clamped to 0..255, and every SIMD variant gives the same bytes as the scalar one. It writes only the output pixels it was asked for.',['inputs','configurations'],'all 2^24 colour triples, all row lengths, all kernels',
  'tests compare some random blocks',[C+'zune-jpeg/src/color_convert/scalar.rs',C+'zune-jpeg/src/color_convert/avx.rs'],[('fixed point conversion','ycbcr_to_rgb_inner_16_scalar')])
p('C17','The inverse DCT is total, clamped and consistent','For every dequantised coefficient block the inverse transform terminates without overflow, gives samples within 0..255, writes only its block, and equals the exact transform within rounding. The shortcuts for blocks with few non-zero coefficients agree with the full transform.',['inputs'],'all coefficient blocks in the range a baseline JPEG can produce',
  'tests compare a handful of blocks between implementations',[C+'zune-jpeg/src/idct/scalar.rs',C+'zune-jpeg/src/idct/avx2.rs'],[('full transform','idct_int'),('shortcuts','idct_int_1x1, idct4x4')])
p('C18','JPEG Huffman tables decode the canonical code they describe','For every valid set of code lengths, the lookup tables decode each code word to its symbol and length as the JPEG specification defines, and a set of lengths that over-subscribes the code space is rejected. Entropy coded data, baseline or progressive, interleaved or not, with or without restart markers, decodes to the coefficients it codes.',['inputs'],'all tables of up to 256 symbols and all bit strings',
  'the fixtures use a few encoders\' tables, mostly the standard ones',[C+'zune-jpeg/src/huffman.rs',C+'zune-jpeg/src/bitstream.rs'],[('table derivation','HuffmanTable::make_derived_table'),('decoding','BitStream::decode_dc')])
p('C19','JPEG XL lossless output decodes to the same pixels','Encoding any supported 8 or 16 bit image with the lossless JPEG XL encoder and decoding it with an independent decoder gives back exactly the same samples. The bit writer emits exactly the bits requested, in order.',['inputs','configurations'],'all images, bit depths, colour layouts, effort settings and thread counts',
  'the encoder tests only run the encoder',[C+'zune-jpegxl/src/bit_writer.rs',C+'zune-jpegxl/src/encoder.rs'],[('bit writer','BitWriter::put_bits'),('prefix codes','encoder.rs')])
p('C20','PNG encode then decode gives back every sample','Encoding any 8 or 16 bit image as PNG and decoding the result gives back exactly the same samples, dimensions and colour layout, and the file is a valid PNG whose data any inflater can read. A sink that does not take every byte makes the encoder return an error.',['inputs'],'all dimensions, colour layouts, depths and sample values, including images above 64 KiB',
  'a few encode tests on small images',[C+'zune-png/src/encoder.rs',C+'zune-png/src/filters.rs',C+'zune-png/src/headers/writers.rs'],[('scanline writer','PngEncoder::encode'),('filter','filter_scanline')])
p('C21','BMP pixels land at the right place','Every valid uncompressed, bit-field or run-length BMP decodes with each pixel at its coordinate and in RGB order, for every bit depth, row padding and both vertical orientations, and malformed files never cause a panic or a write outside the image. Pixels a run-length stream skips show palette entry 0, and bit fields narrower than 8 bits are scaled to the full range within one.',['inputs'],'all headers and pixel data',
  'the fixtures are one image per kind',[C+'zune-bmp/src/decoder.rs'],[('row unpacking','BmpDecoder::decode_into'),('run lengths','BmpDecoder::decode_rle')])
p('C22','Configured size limits are enforced before any pixel work','An image whose width or height exceeds the configured maximum is rejected when its header is parsed, by every decoder, and one within the limits is not rejected for its size.',['inputs','configurations'],'all declared sizes and configured limits, all formats',
  'only a few decoders have a limit test, with one value',[C+'zune-qoi/src/decoder.rs',C+'zune-png/src/headers/readers.rs',C+'zune-bmp/src/decoder.rs',C+'zune-farbfeld/src/decoder.rs',C+'zune-ppm/src/decoder.rs',C+'zune-hdr/src/decoder.rs',C+'zune-psd/src/decoder.rs'],[('limit checks','decode_headers of each decoder')])
p('C23','Arbitrary bytes never crash any decoder','For every byte string and every decoder, decoding returns a result or an error: it does not panic, read or write out of bounds, loop forever or allocate beyond the configured limits.',['inputs'],'all byte strings and all formats',
  'the corpus is a finite sample',[C+'zune-jpeg/src',C+'zune-png/src',C+'zune-bmp/src',C+'zune-psd/src',C+'zune-gif/src',C+'zune-hdr/src'],[('bounds and error paths','all decoders')])
p('C24','SIMD and scalar paths give the same image','Enabling or disabling SIMD acceleration never changes a decoded or processed sample.',['inputs','configurations'],'all images and all instruction sets',
  'tests compare a few blocks and run on one CPU',[C+'zune-png/src/filters/sse4.rs',C+'zune-jpeg/src/idct/avx2.rs',C+'zune-jpeg/src/color_convert/avx.rs'],[('kernels','SIMD modules')])
p('C25','Radiance HDR scanlines decode and encode exactly','Run-length coded RGBE scanlines decode to the bytes they encode and each pixel to mantissa times power of two; truncated or malformed scanlines give an error and never a panic or a write outside the row. Encoding an image and decoding it gives back each component within the precision of the shared exponent, for pixels whose largest component is between 1e-32 and 2^127 and the standard orientation.',['inputs'],'all scanlines, run lengths and pixel values',
  'one or two fixtures',[C+'zune-hdr/src/decoder.rs',C+'zune-hdr/src/encoder.rs'],[('run lengths','HdrDecoder::decompress'),('pixel conversion','convert, float_to_rgbe')])
p('C26','PSD channels decode to the right samples','Raw and PackBits compressed PSD images decode each channel to the bytes it encodes and place channels in the right order; malformed run lengths give an error and never a panic or a write outside the image. Partly transparent RGBA pixels come out with the white matte removed.',['inputs'],'all channel counts, run lengths and depths',
  'one fixture per kind',[C+'zune-psd/src/decoder.rs'],[('PackBits','psd_decode_rle'),('placement','PSDDecoder::decode_raw')])
p('C27','Multi-threaded processing gives the serial result','Running an operation with threads enabled gives the same image as running it without, for every scheduling of the threads.',['schedules'],'all schedules',
  'a test sees one schedule',[C+'zune-imageprocs/src',C+'zune-jpegxl/src'],[('scoped threads over disjoint chunks','std::thread::scope call sites')])
p('C28','A pipeline is the composition of its operations','Running a pipeline decodes once, applies each operation in order to every frame, and encodes the result; an operation that fails leaves an error and no partial output.',['inputs','histories'],'all operation sequences',
  'pipelines are tested by example',[C+'zune-image/src/pipelines.rs',C+'zune-image/src/traits.rs'],[('executor','Pipeline::advance_to_end')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
