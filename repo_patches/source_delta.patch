From 1a5a45274e62e2cfbcb54126235f5acedfbcc6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 01/41] fix: zune-qoi: decode_into must stop at the end of the
 image

A buffer larger than output_buffer_size() made the decoder keep decoding
past the last pixel, consuming the trailer and writing past the image.
---
 crates/zune-qoi/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index a9298d5..909afad 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -255,6 +255,10 @@ where
             ));
         }
 
+        // decode only into the part that the image covers, the buffer may be larger than it
+        let output_size = self.output_buffer_size().unwrap();
+        let pixels = &mut pixels[..output_size];
+
         match self.colorspace.num_components() {
             3 => self.decode_inner_generic::<3>(pixels)?,
             4 => self.decode_inner_generic::<4>(pixels)?,
-- 
2.43.0


From 7dc4fef457af68d9a633664511a03b7f27aa4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 02/41] fix: zune-farbfeld: accept a buffer of width*height*4
 samples

The byte count was compared with a sample count, so decode() always failed;
decode() after decode_headers() also read the header twice.
---
 crates/zune-farbfeld/src/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 95b7348..9837b57 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -120,9 +120,11 @@ where
         if !self.decoded_headers {
             self.decode_headers()?;
         }
+        // output_buffer_size() counts bytes, the sink counts u16 samples
         let expected_len = self
             .output_buffer_size()
-            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?;
+            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?
+            / 2;
 
         if sink.len() < expected_len {
             return Err(FarbFeldErrors::Generic("Too small output buffer size"));
@@ -152,7 +154,9 @@ where
     /// assert!(decoder.decode().is_err());
     /// ```
     pub fn decode(&mut self) -> Result<Vec<u16>, FarbFeldErrors> {
-        self.decode_headers()?;
+        if !self.decoded_headers {
+            self.decode_headers()?;
+        }
 
         let size = (FARBFELD_COLORSPACE.num_components()/*RGBA*/)
             .saturating_mul(self.width)
-- 
2.43.0


From 5a8422c8632318b226525fd7df537f76d1ac363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 03/41] fix: zune-ppm: do not eat raster bytes that look like
 whitespace

Only one whitespace ends the header, the bytes after it are pixels, even if
they happen to be whitespace or '#'.
---
 crates/zune-ppm/src/decoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a169a88..a26d3a8 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -306,6 +306,7 @@ where
                     seen_max_val = true;
                 }
                 b"TUPLTYPE " => {
+                    skip_spaces(&mut self.reader)?;
                     let value_size =
                         get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
                     let new_value = &byte_header[..value_size];
@@ -400,8 +401,11 @@ where
         skip_spaces(&mut self.reader)?;
         // read max value
         let max_value = self.get_integer()?;
-        // skip ascii space
-        skip_spaces(&mut self.reader)?;
+        // exactly one whitespace separates the header from the raster,
+        // anything after it is image data
+        if !self.reader.eof()? && !self.reader.read_u8().is_ascii_whitespace() {
+            self.reader.rewind(1)?;
+        }
 
         if max_value > usize::from(u16::MAX) {
             let msg = format!("MAX value {max_value} greater than 65535");
@@ -423,6 +427,8 @@ where
     fn get_integer(&mut self) -> Result<usize, PPMDecodeErrors> {
         let mut value = 0_usize;
 
+        skip_spaces(&mut self.reader)?;
+
         while !self.reader.eof()? {
             let byte = self.reader.read_u8();
 
@@ -648,7 +654,8 @@ where
 /// Return a reference to all bytes preceding a whitespace.
 ///
 /// # Note
-/// This skips all whitespaces after it finds one. That is the desired implementation
+/// This consumes the whitespace it finds, but nothing after it, since what
+/// follows the last header token is image data.
 ///
 /// # Panics
 /// If end < start
@@ -667,8 +674,6 @@ fn get_bytes_until_whitespace<T: ZByteReaderTrait>(
         if byte.is_ascii_whitespace() {
             // mark where the text ends
             end = z.position()?;
-            // skip any proceeding whitespace
-            skip_spaces(z)?;
             break;
         }
         // push the byte read
-- 
2.43.0


From 6e25f632474546959f0279872202c104904bdfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 04/41] fix: zune-ppm: flip odd height PFM images correctly

Splitting at len/2 cut the middle row in half when height is odd.
---
 crates/zune-ppm/src/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a26d3a8..3c7ef5d 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -599,11 +599,14 @@ where
                 };
 
                 // pfm uses bottom-top orientation, so let's fix it
-                let length = result.len() / 2;
+                let single_stride = self.width * self.colorspace.num_components();
+                // on odd heights, the middle row stays in place, hence it isn't part
+                // of either half
+                let half_rows = self.height / 2;
 
-                let (in_img_top, in_img_bottom) = result.split_at_mut(length);
+                let (in_img_top, in_img_rest) = result.split_at_mut(half_rows * single_stride);
+                let in_img_bottom = &mut in_img_rest[(self.height % 2) * single_stride..];
 
-                let single_stride = self.width * self.colorspace.num_components();
                 let mut stride = vec![0.; single_stride];
 
                 for (in_dim, out_dim) in in_img_top
-- 
2.43.0


From 272279d6ee3c9dd1d9073fb11d8b444f200f2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 05/41] fix: zune-png: strip to 8 bit keeps the high byte for
 little endian output

The samples were byte swapped before the first byte of each was taken.
---
 crates/zune-png/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cf55eb3..cb3abe9 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -658,8 +658,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             self.decode_interlaced(&deflate_data, out, &png_info, &info)?;
         }
 
-        // convert to set endian if need be
-        if self.depth().unwrap() == BitDepth::Sixteen {
+        // convert to set endian if need be, stripping takes the first (most significant)
+        // byte of each big endian sample, so samples to be stripped are left as they are
+        if self.depth().unwrap() == BitDepth::Sixteen && !self.options.png_get_strip_to_8bit() {
             convert_be_to_target_endian_u16(out, self.byte_endian(), self.options.use_sse41());
         }
         // one more frame decoded
-- 
2.43.0


From 1749c56ec100dbea36184ecca9bba7b1dfeab04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 06/41] fix: zune-png: add_alpha must not overwrite alpha
 coming from tRNS

expand_trns had already written colour and alpha of the row.
---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cb3abe9..cc8ec3f 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1166,7 +1166,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         // Normal expansion
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     // the image is a normal RGB/ Luma image, which we need to add the alpha channel
                     // do it here
                     add_alpha(
@@ -1256,7 +1256,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                     } else {
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     add_alpha(
                         &self.previous_stride,
                         to_filter_row,
-- 
2.43.0


From 65a802cb201ff9de6ff0685437ae1e0dc10b56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 07/41] fix: zune-png: expand the last row of low bit depth
 images when adding alpha

The last row is handled outside the main loop and did not account for the
alpha transform, which then read a stale row.
---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cc8ec3f..a636ce3 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1184,7 +1184,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 let to_filter_row = &mut out[(i - 1) * out_chunk_size..i * out_chunk_size];
 
                 // check if we will run any other transform
-                let extra_transform = self.seen_ptle | self.seen_trns;
+                let extra_transform = self.seen_ptle | self.seen_trns | add_alpha_channel;
 
                 if info.depth < 8 {
                     if extra_transform {
-- 
2.43.0


From 50e432dd680fa3168057f381b4ae8fb0a24a2fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 08/41] fix: zune-png: compare 16 bit tRNS samples in big
 endian

The row being expanded is still big endian, comparing with native bytes
missed the transparent colour on little endian machines.
---
 crates/zune-png/src/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/utils.rs b/crates/zune-png/src/utils.rs
index 1633e4d..46fd029 100644
--- a/crates/zune-png/src/utils.rs
+++ b/crates/zune-png/src/utils.rs
@@ -133,9 +133,10 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
     // We indicate that by replacing the pixel with pixel+alpha and setting alpha to be zero;
     // to indicate fully transparent.
     if SIXTEEN_BITS {
+        // samples are still in big endian here, conversion is done on the whole image later
         match color {
             PngColor::Luma => {
-                let trns_byte = trns_bytes[0].to_ne_bytes();
+                let trns_byte = trns_bytes[0].to_be_bytes();
 
                 for (in_chunk, chunk) in input.chunks_exact(2).zip(out.chunks_exact_mut(4)) {
                     chunk[..2].copy_from_slice(in_chunk);
@@ -150,9 +151,9 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
                 }
             }
             PngColor::RGB => {
-                let r = trns_bytes[0].to_ne_bytes();
-                let g = trns_bytes[1].to_ne_bytes();
-                let b = trns_bytes[2].to_ne_bytes();
+                let r = trns_bytes[0].to_be_bytes();
+                let g = trns_bytes[1].to_be_bytes();
+                let b = trns_bytes[2].to_be_bytes();
 
                 // copy all trns chunks into one big vector
                 let mut all: [u8; 6] = [0; 6];
-- 
2.43.0


From 8855201597808fe52e4276178ed0f7b5dd7c042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 09/41] fix: zune-core: a short read gives zeros, a failed
 peek_at keeps the position

read_const_bytes_no_error of std sources left the bytes it had read before
running out in the buffer, so get_u32_be() and friends did not return zero as
documented. peek_at did not rewind when the peek failed.
---
 crates/zune-core/src/bytestream/reader.rs     | 23 +++++++++----------
 .../src/bytestream/reader/std_readers.rs      |  5 +++-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader.rs b/crates/zune-core/src/bytestream/reader.rs
index d12340f..518c516 100644
--- a/crates/zune-core/src/bytestream/reader.rs
+++ b/crates/zune-core/src/bytestream/reader.rs
@@ -228,6 +228,10 @@ impl<T: ZByteReaderTrait> ZReader<T> {
     /// at a later point.
     #[inline]
     pub fn peek_at(&mut self, position: usize, num_bytes: usize) -> Result<&[u8], ZByteIoError> {
+        if num_bytes > 20 * 1024 * 1024 {
+            // resize of 20 MBs, skipping too much, so panic
+            return Err(ZByteIoError::Generic("Too many bytes skipped"));
+        }
         // short circuit for zero
         // important since implementations like File will
         // cause a syscall on skip
@@ -235,21 +239,16 @@ impl<T: ZByteReaderTrait> ZReader<T> {
             // skip position bytes from start
             self.skip(position)?;
         }
-        if num_bytes > 20 * 1024 * 1024 {
-            // resize of 20 MBs, skipping too much, so panic
-            return Err(ZByteIoError::Generic("Too many bytes skipped"));
-        }
         // resize buffer
         self.temp_buffer.resize(num_bytes, 0);
         // read bytes
-        match self.inner.peek_exact_bytes(&mut self.temp_buffer[..]) {
-            Ok(_) => {
-                // rewind back to where we were
-                if position != 0 {
-                    self.rewind(position)?;
-                }
-                Ok(&self.temp_buffer)
-            }
+        let result = self.inner.peek_exact_bytes(&mut self.temp_buffer[..]);
+        // rewind back to where we were, whether or not the peek was satisfied
+        if position != 0 {
+            self.rewind(position)?;
+        }
+        match result {
+            Ok(_) => Ok(&self.temp_buffer),
             Err(e) => Err(e)
         }
     }
diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index 2334624..91591c3 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -46,7 +46,10 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     }
 
     fn read_const_bytes_no_error<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        let _ = self.read_const_bytes(buf);
+        if self.read_const_bytes(buf).is_err() {
+            // a short read may have filled a prefix of the buffer
+            buf.fill(0);
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 26c04fb501fdb9b9add22f23025d7cf1baf7a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 10/41] fix: zune-core: ZCursor reads must not overflow after a
 seek far past the end

---
 crates/zune-core/src/bytestream/reader/no_std_readers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index dd1c2b9..c1dcba4 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -53,7 +53,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     #[inline(always)]
     pub (crate) fn read_byte_no_error_impl(&mut self) -> u8 {
         let byte = self.stream.as_ref().get(self.position).unwrap_or(&0);
-        self.position += 1;
+        self.position = self.position.saturating_add(1);
         *byte
     }
     #[inline(always)]
@@ -69,7 +69,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_impl<const N: usize>(&mut self, buf: &mut [u8; N]) -> Result<(), ZByteIoError> {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -83,7 +83,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_no_error_impl<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -106,7 +106,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
         let stream_end = self.stream.as_ref().len();
 
         let start = core::cmp::min(self.position, stream_end);
-        let end = core::cmp::min(self.position + buf.len(), stream_end);
+        let end = core::cmp::min(self.position.saturating_add(buf.len()), stream_end);
 
         let slice = self.stream.as_ref().get(start..end).unwrap();
         buf[..slice.len()].copy_from_slice(slice);
-- 
2.43.0


From 1960c0de984ab7ead81b9376dfecfd99929a91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 11/41] fix: zune-inflate: refill before reading a long offset
 in the fast loop

A literal, a length and an offset that all need subtables take up to 59 bits,
a refill only guarantees 56, so valid streams with long codes decoded wrongly.
---
 crates/zune-inflate/src/decoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 4a074bf..8b31ba3 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -849,10 +849,12 @@ impl<'a> DeflateDecoder<'a> {
                         // offset requires a subtable
                         if (entry & HUFFDEC_EXCEPTIONAL) != 0 {
                             self.stream.drop_bits(OFFSET_TABLEBITS as u8);
+                            // refill to handle some weird edge case where we have
+                            // less bits than needed for reading the offset, up to 31 bits
+                            // went to the literal and the length, and an offset can need 28
+                            self.stream.refill();
                             let extra = self.stream.peek_var_bits(((entry >> 8) & 0x3F) as usize);
                             entry = offset_decode_table[((entry >> 16) as usize + extra) & 511];
-                            // refill to handle some weird edge case where we have
-                            // less bits than needed for reading the lit-len
                         }
                         saved_bitbuf = self.stream.buffer;
 
@@ -875,7 +877,7 @@ impl<'a> DeflateDecoder<'a> {
                         src_offset = dest_offset - offset;
 
                         if self.stream.bits_left < 11 {
-                            self.stream.refill_inner_loop();
+                            self.stream.refill();
                         }
                         // Copy some bytes unconditionally
                         // This makes us copy smaller match lengths quicker because we don't need
-- 
2.43.0


From 9ef70d1f0f81472102bfd05ed2c336f52a9be056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 12/41] fix: zune-inflate: count over-read bytes when a stored
 block is near the end of the input

---
 crates/zune-inflate/src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 8b31ba3..1488dd3 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -636,8 +636,10 @@ impl<'a> DeflateDecoder<'a> {
                 dest_offset += len;
 
                 // get the new position to write.
-                self.stream.position =
-                    len + (self.stream.position - usize::from(self.stream.bits_left >> 3));
+                // bytes in the bit buffer that came from over-reading are not in the input
+                self.stream.position = len + self.stream.position + self.stream.over_read
+                    - usize::from(self.stream.bits_left >> 3);
+                self.stream.over_read = 0;
 
                 self.stream.reset();
 
-- 
2.43.0


From 8478dc4b44c9f10db68017170af82a1288828821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 13/41] fix: zune-jpeg: decode 1x2 subsampled images to
 grayscale

The MCU row count was doubled for vertically subsampled images, which read
past the scan in baseline images and took blocks from the wrong rows in
progressive ones.
---
 crates/zune-jpeg/src/mcu.rs      | 6 +-----
 crates/zune-jpeg/src/mcu_prog.rs | 8 ++------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 61ee2df..cce4888 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -114,15 +114,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 || self.sub_sample_ratio == SampleRatios::HV)
         {
             // For a specific set of images, e.g interleaved,
-            // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
+            // when converting from YcbCr to grayscale, the post processor
             // parses two rows per mcu width.
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index a4ecbab..c897e5c 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -53,7 +53,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     ) -> Result<(), DecodeErrors> {
         setup_component_params(self)?;
 
-        let mut mcu_height;
+        let mcu_height;
 
         // memory location for decoded pixels for components
         let mut block: [Vec<i16>; MAX_COMPONENTS] = [vec![], vec![], vec![], vec![]];
@@ -84,15 +84,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 || self.sub_sample_ratio == SampleRatios::HV)
         {
             // For a specific set of images, e.g interleaved,
-            // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
+            // when converting from YcbCr to grayscale, the post processor
             // parses two rows per mcu width.
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
-- 
2.43.0


From 0fbc26266254c2ee04766d8e307f5f1c54dbe676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 14/41] fix: zune-jpeg: no restart marker follows the last MCU
 of a progressive scan

---
 crates/zune-jpeg/src/mcu_prog.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index c897e5c..b750a3e 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -339,7 +339,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // + EOB and investigate effect.
                     self.todo -= 1;
 
-                    self.handle_rst_main(stream)?;
+                    // no restart marker follows the last MCU of a scan
+                    if i + 1 != mcu_height || j + 1 != mcu_width {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         } else {
@@ -428,7 +431,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // we get a higher number in the case this underflows
                     self.todo -= 1;
                     // after every scan that's a mcu, count down restart markers.
-                    self.handle_rst_main(stream)?;
+                    // no restart marker follows the last MCU of a scan
+                    if i + 1 != self.mcu_y || j + 1 != self.mcu_x {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From ae51469b1a2ab6bf9e31854728ebfa6c4a0e0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 15/41] fix: zune-jpeg: decode every scan of non interleaved
 baseline images

Each scan restarts the DC prediction and the restart interval, its last MCU is
not followed by a restart marker, and the marker ending it may be read before
or after the last row of MCUs.
---
 crates/zune-jpeg/src/mcu.rs | 44 +++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index cce4888..5843495 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -281,6 +281,22 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 }
             }
 
+            // The marker that ends the scan may not have been reached by the bit reader yet,
+            // look for it since the remaining components are in the scans that follow.
+            if !all_components_in_first_scan && !stream.seen_eoi && stream.overread_by == 0 {
+                if let Ok(marker) = get_marker(&mut self.stream, &mut stream) {
+                    if marker == Marker::EOI {
+                        stream.seen_eoi = true;
+                    } else if marker == Marker::SOS {
+                        self.parse_marker_inner(marker)?;
+                        self.start_baseline_scan(&mut stream);
+                        continue 'sos;
+                    } else if self.advance_to_next_sos(marker, &mut stream)? {
+                        continue 'sos;
+                    }
+                }
+            }
+
             // Breaks if we get here, looping only if we have restarted, i.e. found another SOS and
             // continued at `'sos'.
             break;
@@ -443,6 +459,9 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         // coefficient data which was written into `tmp`.
         let mut clobber_more_than_4x4 = true;
 
+        let total_mcu_height =
+            if self.is_interleaved { self.mcu_y } else { usize::from(self.info.height).div_ceil(8) };
+
         for j in 0..mcu_width {
             // iterate over components
             for &k in z_scans {
@@ -559,7 +578,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.todo = self.todo.wrapping_sub(1);
 
             if self.todo == 0 {
-                self.handle_rst_main(stream)?;
+                // no restart marker follows the last MCU of a scan, the marker that ends the scan
+                // is handled below
+                if !PROGRESSIVE || j + 1 != mcu_width || mcu_height + 1 != total_mcu_height {
+                    self.handle_rst_main(stream)?;
+                }
                 continue;
             }
 
@@ -568,6 +591,12 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
+        if PROGRESSIVE && mcu_height + 1 != total_mcu_height && stream.bits_left > 0 {
+            // the marker that ends the scan was read ahead of time, the
+            // remaining rows are still in the bit buffer
+            return Ok(McuContinuation::Ok);
+        }
+
         self.check_stream_marker_after_mcu_width(stream)
     }
 
@@ -603,8 +632,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 }
             } else if let Marker::SOS = m {
                 self.parse_marker_inner(m)?;
-                stream.marker.take();
-                stream.reset();
+                self.start_baseline_scan(stream);
                 trace!("Found SOS marker");
                 return Ok(McuContinuation::AnotherSos);
             } else if matches!(m, Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM)
@@ -669,7 +697,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             match marker {
                 Marker::SOS => {
                     self.parse_marker_inner(Marker::SOS)?;
-                    stream.reset();
+                    self.start_baseline_scan(stream);
                     trace!("Found SOS marker, continuing decode");
                     return Ok(true);
                 }
@@ -708,6 +736,14 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         ))
     }
 
+    /// Every scan starts with an empty bit buffer, DC predictions of zero and a
+    /// full restart interval
+    fn start_baseline_scan(&mut self, stream: &mut BitStream) {
+        stream.reset();
+        self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+        self.todo = if self.restart_interval != 0 { self.restart_interval } else { usize::MAX };
+    }
+
     // handle RST markers.
     // No-op if not using restarts
     // this routine is shared with mcu_prog
-- 
2.43.0


From 794e67a6acf5ac5db707ddb6ec4823a5cc9432c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 16/41] fix: zune-jpeg: one block per MCU in single component
 scans of subsampled baseline images

---
 crates/zune-jpeg/src/mcu.rs | 56 +++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 5843495..74bc53c 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -192,9 +192,15 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 &self.z_order[..usize::from(self.num_scans)]
             );
 
-            trace!("Decoding MCU width: {mcu_width}, height: {mcu_height}");
+            let (scan_width, scan_height) = if all_components_in_first_scan {
+                (mcu_width, mcu_height)
+            } else {
+                self.scan_dimensions(mcu_width, mcu_height)
+            };
 
-            for i in 0..mcu_height {
+            trace!("Decoding MCU width: {scan_width}, height: {scan_height}");
+
+            for i in 0..scan_height {
                 if stream.overread_by > 0 {
                     pixels.get_mut(pixels_written..).map(|v| v.fill(128));
                     if self.options.strict_mode() {
@@ -209,7 +215,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 // this takes into account interleaved components.
                 let terminate = if all_components_in_first_scan {
                     self.decode_mcu_width::<false>(
-                        mcu_width,
+                        scan_width,
+                        scan_height,
                         i,
                         &mut tmp,
                         &mut stream,
@@ -234,7 +241,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     */
 
                     self.decode_mcu_width::<true>(
-                        mcu_width,
+                        scan_width,
+                        scan_height,
                         i,
                         &mut tmp,
                         &mut stream,
@@ -407,10 +415,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     }
 
     fn decode_mcu_width<const PROGRESSIVE: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, scan_height: usize, mcu_height: usize, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
-        let is_one_by_one = !self.scan_subsampled;
+        let is_one_by_one = !self.scan_subsampled || (PROGRESSIVE && self.num_scans == 1);
 
         // The definition of MCU depends on the sampling factor of involved scans. When components
         // have different factors then each Minimal-Coding-Unit is the least common multiple such
@@ -424,6 +432,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         if is_one_by_one {
             self.inner_decode_mcu_width::<PROGRESSIVE, false>(
                 mcu_width,
+                scan_height,
                 mcu_height,
                 tmp,
                 stream,
@@ -432,6 +441,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         } else {
             self.inner_decode_mcu_width::<PROGRESSIVE, true>(
                 mcu_width,
+                scan_height,
                 mcu_height,
                 tmp,
                 stream,
@@ -446,7 +456,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     // when `not SAMPLED` then the inner loop has exactly one iteration per component in
     // the scan. The difference was ~1% or a bit more.
     fn inner_decode_mcu_width<const PROGRESSIVE: bool, const SAMPLED: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, scan_height: usize, mcu_height: usize, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
         let z_order = self.z_order;
@@ -459,9 +469,6 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         // coefficient data which was written into `tmp`.
         let mut clobber_more_than_4x4 = true;
 
-        let total_mcu_height =
-            if self.is_interleaved { self.mcu_y } else { usize::from(self.info.height).div_ceil(8) };
-
         for j in 0..mcu_width {
             // iterate over components
             for &k in z_scans {
@@ -482,8 +489,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
                 let qt_table = &component.quantization_table;
                 let channel = if PROGRESSIVE {
-                    let offset =
-                        mcu_height * component.width_stride * 8 * component.vertical_sample;
+                    let v_blocks = if SAMPLED { component.vertical_sample } else { 1 };
+                    let offset = mcu_height * component.width_stride * 8 * v_blocks;
                     &mut progressive[k][offset..]
                 } else {
                     &mut component.raw_coeff
@@ -555,7 +562,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             let idct_position = {
                                 // derived from stb and rewritten for my tastes
                                 let c2 = v_samp * 8;
-                                let c3 = ((j * component.horizontal_sample) + h_samp) * 8;
+                                let h_blocks = if SAMPLED { component.horizontal_sample } else { 1 };
+                                let c3 = ((j * h_blocks) + h_samp) * 8;
 
                                 component.width_stride * c2 + c3
                             };
@@ -580,7 +588,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             if self.todo == 0 {
                 // no restart marker follows the last MCU of a scan, the marker that ends the scan
                 // is handled below
-                if !PROGRESSIVE || j + 1 != mcu_width || mcu_height + 1 != total_mcu_height {
+                if !PROGRESSIVE || j + 1 != mcu_width || mcu_height + 1 != scan_height {
                     self.handle_rst_main(stream)?;
                 }
                 continue;
@@ -591,7 +599,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
-        if PROGRESSIVE && mcu_height + 1 != total_mcu_height && stream.bits_left > 0 {
+        if PROGRESSIVE && mcu_height + 1 != scan_height && stream.bits_left > 0 {
             // the marker that ends the scan was read ahead of time, the
             // remaining rows are still in the bit buffer
             return Ok(McuContinuation::Ok);
@@ -736,6 +744,24 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         ))
     }
 
+    /// Number of MCUs per row and number of rows of MCUs of the current scan
+    ///
+    /// A scan of a single component of a subsampled image has one block per MCU,
+    /// and only the blocks that cover the component
+    fn scan_dimensions(&self, mcu_width: usize, mcu_height: usize) -> (usize, usize) {
+        if self.num_scans != 1 || !self.is_interleaved {
+            return (mcu_width, mcu_height);
+        }
+        let component = &self.components[self.z_order[0]];
+        let width = usize::from(self.info.width) * component.horizontal_sample;
+        let height = usize::from(self.info.height) * component.vertical_sample;
+
+        (
+            width.div_ceil(self.h_max).div_ceil(8),
+            height.div_ceil(self.v_max).div_ceil(8)
+        )
+    }
+
     /// Every scan starts with an empty bit buffer, DC predictions of zero and a
     /// full restart interval
     fn start_baseline_scan(&mut self, stream: &mut BitStream) {
-- 
2.43.0


From fc79f72a95cdda938f347dfb7994ec47cd76eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 17/41] fix: zune-qoi: report a failing sink when writing a
 DIFF byte

---
 crates/zune-qoi/src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-qoi/src/encoder.rs b/crates/zune-qoi/src/encoder.rs
index 60156fb..9ec78b7 100644
--- a/crates/zune-qoi/src/encoder.rs
+++ b/crates/zune-qoi/src/encoder.rs
@@ -185,12 +185,12 @@ impl<'a> QoiEncoder<'a> {
                             && !(2..=253).contains(&vg)
                             && !(2..=253).contains(&vb)
                         {
-                            stream.write_u8(
+                            stream.write_u8_err(
                                 QOI_OP_DIFF
                                     | vr.wrapping_add(2) << 4
                                     | vg.wrapping_add(2) << 2
                                     | vb.wrapping_add(2)
-                            );
+                            )?;
                         } else if !(8..=247).contains(&vg_r)
                             && !(32..=223).contains(&vg)
                             && !(8..=247).contains(&vg_b)
-- 
2.43.0


From 7a367db553c6cfc9bf18ec9789904c614f4cddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 18/41] fix: zune-farbfeld: report a failing sink instead of
 panicking or losing header bytes

---
 crates/zune-farbfeld/src/encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/zune-farbfeld/src/encoder.rs b/crates/zune-farbfeld/src/encoder.rs
index e9aeda1..96e76e7 100644
--- a/crates/zune-farbfeld/src/encoder.rs
+++ b/crates/zune-farbfeld/src/encoder.rs
@@ -123,9 +123,7 @@ impl<'a> FarbFeldEncoder<'a> {
     fn encode_headers<T: ZByteWriterTrait>(
         &self, stream: &mut ZWriter<T>
     ) -> Result<(), FarbFeldEncoderErrors> {
-        // these routines panic because I need them
-        // to panic as it is a me problem
-        stream.write_all(b"farbfeld").unwrap();
+        stream.write_all(b"farbfeld")?;
 
         if (self.options.width() as u64) > u64::from(u32::MAX) {
             // error out
@@ -139,8 +137,8 @@ impl<'a> FarbFeldEncoder<'a> {
             ));
         }
         // dimensions
-        stream.write_u32_be(self.options.width() as u32);
-        stream.write_u32_be(self.options.height() as u32);
+        stream.write_u32_be_err(self.options.width() as u32)?;
+        stream.write_u32_be_err(self.options.height() as u32)?;
 
         Ok(())
     }
-- 
2.43.0


From f9d898ad5219d2b26ce229b98c8f97671ef2e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 19/41] fix: zune-ppm: report a failing sink or an unsupported
 bit depth instead of panicking

---
 crates/zune-ppm/src/encoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index b860aa2..7ee6bc4 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -136,7 +136,7 @@ impl<'a> PPMEncoder<'a> {
             }
         };
 
-        stream.write_all(header.as_bytes()).unwrap();
+        stream.write_all(header.as_bytes())?;
 
         Ok(())
     }
@@ -157,6 +157,11 @@ impl<'a> PPMEncoder<'a> {
         if expected != found {
             return Err(PPMEncodeErrors::TooShortInput(expected, found));
         }
+        if !matches!(self.options.depth().bit_type(), BitType::U8 | BitType::U16) {
+            return Err(PPMEncodeErrors::Static(
+                "Unsupported bit depth for ppm, only 8 and 16 bit images can be encoded"
+            ));
+        }
         let mut stream = ZWriter::new(out);
         stream.reserve(expected + 37)?; // 37 arbitrary number, chosen by divinity, guaranteed to work
 
-- 
2.43.0


From 7eb36e8fd1c534384608c25536ec11e4204f3faa Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 20/41] fix: premultiply_u8/u16 divided the rounding-corrected
 product instead of shifting it, so 255*255 became 0

---
 crates/zune-imageprocs/src/premul_alpha.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/premul_alpha.rs b/crates/zune-imageprocs/src/premul_alpha.rs
index 4881b49..fdf0c64 100644
--- a/crates/zune-imageprocs/src/premul_alpha.rs
+++ b/crates/zune-imageprocs/src/premul_alpha.rs
@@ -238,12 +238,10 @@ pub fn create_unpremul_table_u16() -> Vec<u128> {
 /// Items in input are modified in place.
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
-    const MAX_VALUE: u16 = 255;
-
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u16::from(*al) * u16::from(*color)) + 0x80;
 
-        *color = ((temp + (temp >> 8)) / MAX_VALUE) as u8;
+        *color = ((temp + (temp >> 8)) >> 8) as u8;
     });
 }
 
@@ -261,7 +259,7 @@ pub fn premultiply_u16(input: &mut [u16], alpha: &[u16]) {
 
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u32::from(*al) * u32::from(*color)) + ((MAX_VALUE + 1) / 2);
-        *color = ((temp + (temp >> 16)) / MAX_VALUE) as u16;
+        *color = ((temp + (temp >> 16)) >> 16) as u16;
     });
 }
 
-- 
2.43.0


From b245575b9101a65aeec3fcb04d2dcdd613e36c37 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 21/41] fix: Channel lost its layout on realloc and push could
 write past a small allocation

---
 crates/zune-image/src/channel.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 8ac3b84..7f59e92 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -208,7 +208,8 @@ impl Channel {
     /// It is not unsafe to call this, it's just left as unsafe
     /// to remind one to be careful of what they are doing
     unsafe fn alloc(size: usize) -> (*mut u8, Layout) {
-        let layout = Layout::from_size_align(size, MIN_ALIGNMENT).unwrap();
+        // a zero sized allocation is undefined behaviour
+        let layout = Layout::from_size_align(size.max(1), MIN_ALIGNMENT).unwrap();
         // Safety
         //  alloc zeroed == alloc + std::mem::zeroed()
         // and we are bound by the zeroed trait, hence we are sure that
@@ -219,18 +220,20 @@ impl Channel {
     /// Reallocate the pointer in place increasing
     /// it's capacity
     pub unsafe fn realloc(&mut self, new_size: usize) {
-        self.ptr = realloc(self.ptr, self.layout, new_size);
+        let layout = Layout::from_size_align(new_size.max(1), MIN_ALIGNMENT).unwrap();
+        self.ptr = realloc(self.ptr, self.layout, layout.size());
+        // the layout must describe the current allocation, it is needed
+        // by the next realloc and by dealloc
+        self.layout = layout;
         // set capacity to be new size
         self.capacity = new_size;
     }
     /// Deallocate storage allocated for this channel
     unsafe fn dealloc(&mut self) {
-        let layout = Layout::from_size_align(self.capacity, MIN_ALIGNMENT).unwrap();
-
         // safety
-        // - The same layout alignment we used for alloc is the same we are using for
+        // - The same layout we used for alloc or realloc is the same we are using for
         //  dealloc
-        dealloc(self.ptr, layout);
+        dealloc(self.ptr, self.layout);
     }
 
     /// Create a new channel
@@ -512,8 +515,11 @@ impl Channel {
         if !self.has_capacity(size) {
             unsafe {
                 // extend
-                // use 3/2 formula
-                self.realloc(self.capacity.saturating_mul(size.saturating_mul(3)) / 2);
+                // use 3/2 formula, but always make space for the new element
+                self.realloc(
+                    (self.capacity.saturating_mul(size.saturating_mul(3)) / 2)
+                        .max(self.length.saturating_add(size))
+                );
             }
         }
         // safety:
-- 
2.43.0


From 766ac76b47e78bee6d129d6dc16692dd6aaedd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 22/41] fix: transpose_scalar underflowed for widths or heights
 below 8

---
 crates/zune-imageprocs/src/transpose/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/transpose/scalar.rs b/crates/zune-imageprocs/src/transpose/scalar.rs
index b219165..0e43f3d 100644
--- a/crates/zune-imageprocs/src/transpose/scalar.rs
+++ b/crates/zune-imageprocs/src/transpose/scalar.rs
@@ -63,8 +63,8 @@ pub fn transpose_scalar<T: Copy + Default>(
             }
         }
     }
-    let rem_w = width - (width & 7) - 1;
-    let rem_h = height - (height & 7) - 1;
+    let rem_w = width - (width & 7);
+    let rem_h = height - (height & 7);
 
     for i in rem_h..height {
         for j in 0..width {
-- 
2.43.0


From 132a12ce140edb131730a7a1bc30300b348ac9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 23/41] fix: rotate gave wrong samples for 180 degrees, wrong
 lengths for deep channels and panicked for 0, 360 and negative angles

---
 crates/zune-imageprocs/src/rotate.rs | 60 ++++++++--------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index bed172d..e5d054f 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -23,7 +23,7 @@ use crate::traits::NumOps;
 use crate::utils::execute_on;
 
 pub fn get_rotated_dimensions(width: usize, height: usize, angle: f32) -> (usize, usize) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     // Handle special cases for 90-degree rotations
     if (angle - 90.0).abs() < f32::EPSILON || (angle - 270.0).abs() < f32::EPSILON {
@@ -61,17 +61,18 @@ impl OperationsTrait for Rotate {
     }
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
-        let im_type = image.depth().bit_type();
+        let depth = image.depth();
+        let im_type = depth.bit_type();
 
         let (width, height) = image.dimensions();
 
-        let will_change_dims = (self.angle - 180.0).abs() > f32::EPSILON;
-
         let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
-            let mut new_channel =
-                Channel::new_with_length_and_type(new_width * new_height, channel.type_id());
+            let mut new_channel = Channel::new_with_length_and_type(
+                new_width * new_height * depth.size_of(),
+                channel.type_id()
+            );
 
             match im_type {
                 BitType::U8 => {
@@ -112,9 +113,8 @@ impl OperationsTrait for Rotate {
         };
         execute_on(resize_fn, image, false)?;
 
-        if will_change_dims {
-            change_image_dims(image, self.angle);
-        }
+        let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
+        image.set_dimensions(new_width, new_height);
 
         Ok(())
     }
@@ -124,35 +124,18 @@ impl OperationsTrait for Rotate {
     }
 }
 
-fn change_image_dims(image: &mut Image, angle: f32) {
-    let (ow, oh) = image.dimensions();
-    if (angle - 90.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    if (angle - 270.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    // For arbitrary angles, calculate bounding box
-    let angle_rad = angle.to_radians();
-    let cos_a = angle_rad.cos().abs();
-    let sin_a = angle_rad.sin().abs();
-
-    let new_width = (ow as f32 * cos_a + oh as f32 * sin_a).ceil() as usize;
-    let new_height = (ow as f32 * sin_a + oh as f32 * cos_a).ceil() as usize;
-
-    image.set_dimensions(new_width, new_height)
-}
-
 pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
 ) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
-    if (angle - 180.0).abs() < f32::EPSILON {
+    if angle.abs() < f32::EPSILON {
+        out_image.copy_from_slice(in_image);
+    } else if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
-        rotate_180(out_image, width);
+        rotate_180(out_image);
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
@@ -164,18 +147,9 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     }
 }
 
-fn rotate_180<T: Copy>(in_out_image: &mut [T], width: usize) {
-    let half = in_out_image.len() / 2;
-    let (top, bottom) = in_out_image.split_at_mut(half);
-
-    for (top_chunk, bottom_chunk) in top
-        .chunks_exact_mut(width)
-        .zip(bottom.chunks_exact_mut(width).rev())
-    {
-        for (a, b) in top_chunk.iter_mut().zip(bottom_chunk.iter_mut()) {
-            core::mem::swap(a, b);
-        }
-    }
+fn rotate_180<T: Copy>(in_out_image: &mut [T]) {
+    // the first pixel becomes the last one
+    in_out_image.reverse();
 }
 
 fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
-- 
2.43.0


From fc7a5ac11d50f164705035b275f8da649a35fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 24/41] fix: converting float samples to integers truncated
 instead of rounding, so 16 bit samples did not survive float

---
 crates/zune-image/src/core_filters/depth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/depth.rs b/crates/zune-image/src/core_filters/depth.rs
index 5cdff7c..625990c 100644
--- a/crates/zune-image/src/core_filters/depth.rs
+++ b/crates/zune-image/src/core_filters/depth.rs
@@ -145,7 +145,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 255
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (255.0 * old_chan).clamp(0.0, 255.0) as u8;
+                        *new_chan = (255.0 * old_chan).clamp(0.0, 255.0).round() as u8;
                     }
 
                     *channel = new_channel;
@@ -158,7 +158,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 65535
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0) as u16;
+                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0).round() as u16;
                     }
 
                     *channel = new_channel;
-- 
2.43.0


From c33de3a52d9611c4ed11e65f59c6ea9b3950e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 25/41] fix: 16 bit PSD samples came out byte swapped

---
 crates/zune-psd/src/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index de64502..85ee844 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -316,11 +316,11 @@ where
             match self.depth {
                 BitDepth::Sixteen => {
                     for pixel in result.chunks_exact_mut(8) {
-                        let px3 = u16::from_be_bytes(pixel[6..8].try_into().unwrap());
+                        let px3 = u16::from_ne_bytes(pixel[6..8].try_into().unwrap());
                         if px3 != 0 && px3 != 65535 {
-                            let px0 = u16::from_be_bytes(pixel[0..2].try_into().unwrap());
-                            let px1 = u16::from_be_bytes(pixel[2..4].try_into().unwrap());
-                            let px2 = u16::from_be_bytes(pixel[4..6].try_into().unwrap());
+                            let px0 = u16::from_ne_bytes(pixel[0..2].try_into().unwrap());
+                            let px1 = u16::from_ne_bytes(pixel[2..4].try_into().unwrap());
+                            let px2 = u16::from_ne_bytes(pixel[4..6].try_into().unwrap());
 
                             let a = f32::from(px3) / 65535.0;
                             let ra = 1.0 / a;
@@ -371,7 +371,7 @@ where
                 .chunks_exact(2)
                 .map(|chunk| {
                     let value: [u8; 2] = chunk.try_into().unwrap();
-                    u16::from_be_bytes(value)
+                    u16::from_ne_bytes(value)
                 })
                 .collect();
 
-- 
2.43.0


From 23cdafd3e7c33beb68d5859cd23b49aadeb7a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 26/41] fix: grayscale PSD images with extra channels skipped
 too few row byte counts

---
 crates/zune-psd/src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 85ee844..492d357 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -50,7 +50,9 @@ where
     depth:          BitDepth,
     color_type:     Option<ColorModes>,
     compression:    CompressionMethod,
-    channel_count:  usize
+    channel_count:  usize,
+    // number of channels stored in the file, which may be more than we decode
+    file_channels:  usize
 }
 
 impl<T> PSDDecoder<T>
@@ -81,7 +83,8 @@ where
             depth: BitDepth::Eight,
             color_type: None,
             compression: CompressionMethod::NoCompression,
-            channel_count: 0
+            channel_count: 0,
+            file_channels: 0
         }
     }
 
@@ -117,6 +120,7 @@ where
         }
 
         self.channel_count = usize::from(channel_count);
+        self.file_channels = self.channel_count;
 
         let height = self.stream.get_u32_be_err()? as usize;
         let width = self.stream.get_u32_be_err()? as usize;
@@ -232,7 +236,7 @@ where
 
                 // The RLE-compressed data is preceded by a 2-byte data count for each row
                 // in the data, which we're going to just skip.
-                let skipped = self.height * self.channel_count * 2;
+                let skipped = self.height * self.file_channels * 2;
                 self.stream.skip(skipped)?;
 
                 let mut out_channel = vec![0; pixel_count * self.channel_count + 10];
-- 
2.43.0


From e77e0eb14b81bc7c99ec7c4a9f733f2a88b799d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 27/41] fix: old style run length coded HDR scanlines were
 decoded wrongly

---
 crates/zune-hdr/src/decoder.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index ed514d3..7c420df 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -344,7 +344,7 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline[4..], self.width as i32 - 1, 0)?;
+                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -412,16 +412,19 @@ where
 
                 let mut i = i32::from(run) << shift;
 
-                while width > 0 && scanline_offset > 4 && i > 0 {
-                    scanline.copy_within(scanline_offset - 4..scanline_offset, 4);
+                if scanline_offset < 4 {
+                    return Err(HdrDecodeErrors::Generic("Run without a previous pixel"));
+                }
+                while width > 0 && i > 0 {
+                    scanline.copy_within(scanline_offset - 4..scanline_offset, scanline_offset);
                     scanline_offset += 4;
                     i -= 1;
-                    width -= 4;
+                    width -= 1;
                 }
                 shift += 8;
 
-                if shift > 16 {
-                    break;
+                if shift > 16 && width > 0 {
+                    return Err(HdrDecodeErrors::Generic("Too many consecutive runs"));
                 }
             } else {
                 scanline_offset += 4;
-- 
2.43.0


From 55c508738ececd047571048c43d8bdfee176e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 28/41] fix: truncated or overlong run length coded HDR
 scanlines were accepted

---
 crates/zune-hdr/src/decoder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 7c420df..978ca56 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -325,7 +325,7 @@ where
                 continue;
             }
 
-            let mut i = self.buf.read_u8();
+            let mut i = self.buf.read_u8_err()?;
 
             if i != 2 {
                 // undo byte read
@@ -349,6 +349,10 @@ where
                 continue;
             }
 
+            if (usize::from(scanline[2]) << 8 | usize::from(i)) != self.width {
+                return Err(HdrDecodeErrors::Generic("Scanline width mismatch"));
+            }
+
             for i in 0..4 {
                 let new_scanline = &mut scanline[i..];
 
@@ -361,14 +365,14 @@ where
                     let mut run = i32::from(self.buf.read_u8_err()?);
 
                     if run > 128 {
-                        let val = self.buf.read_u8();
+                        let val = self.buf.read_u8_err()?;
                         run &= 127;
 
                         while run > 0 {
                             run -= 1;
 
                             if j >= self.width * 4 {
-                                break;
+                                return Err(HdrDecodeErrors::Generic("Run exceeds scanline width"));
                             }
                             new_scanline[j] = val;
                             j += 4;
@@ -378,10 +382,10 @@ where
                             run -= 1;
 
                             if j >= self.width * 4 {
-                                break;
+                                return Err(HdrDecodeErrors::Generic("Run exceeds scanline width"));
                             }
 
-                            new_scanline[j] = self.buf.read_u8();
+                            new_scanline[j] = self.buf.read_u8_err()?;
                             j += 4;
                         }
                     }
-- 
2.43.0


From f3977aa81ac280371cae723a79fff9041502de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 29/41] fix: HDR pixels with large or small exponents decoded
 to wrong values

---
 crates/zune-hdr/src/decoder.rs | 61 +++++++++-------------------------
 1 file changed, 16 insertions(+), 45 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 978ca56..09385b7 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -472,55 +472,26 @@ fn convert_scanline(in_scanline: &[u8], out_scanline: &mut [f32]) {
         if rgbe[3] == 0 {
             out[0..3].fill(0.0);
         } else {
-            // separate concerns to generate code that has better
-            //  ILP
-            let epxo = i32::from(rgbe[3]) - 128;
-
-            if epxo.is_positive() {
-                out[0] = convert_pos(i32::from(rgbe[0]), epxo);
-                out[1] = convert_pos(i32::from(rgbe[1]), epxo);
-                out[2] = convert_pos(i32::from(rgbe[2]), epxo);
-            } else {
-                out[0] = convert_neg(i32::from(rgbe[0]), epxo);
-                out[1] = convert_neg(i32::from(rgbe[1]), epxo);
-                out[2] = convert_neg(i32::from(rgbe[2]), epxo);
-            }
+            // 8 bits of mantissa below the binary point
+            let exponent = i32::from(rgbe[3]) - 128 - 8;
+
+            out[0] = ldexp(rgbe[0], exponent);
+            out[1] = ldexp(rgbe[1], exponent);
+            out[2] = ldexp(rgbe[2], exponent);
         }
     }
 }
 
-fn ldexp_pos(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x * pow
-}
-fn ldexp_neg(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x / pow
-}
-/// Fast calculation of  x*(2^exp).
+/// Calculate val*(2^exp), exactly
 ///
-/// exp is assumed to be integer
-// #[inline]
-// fn ldxep(x: f32, exp: i32) -> f32 {
-//     let pow = (1_i32 << (exp.abs() & 31)) as f32;
-//     if exp.is_negative() {
-//         // if negative 2 ^ exp is the same as 1 / (1<<exp.abs()) since
-//         // 2^(-exp) is sexpressed as 1/(2^exp)
-//         x / pow
-//     } else {
-//         // 2^exp is same as 1<<exp, but latter is way faster
-//         x * pow
-//     }
-// }
-
-#[inline]
-fn convert_pos(val: i32, exponent: i32) -> f32 {
-    let v = (val as f32) / 256.0;
-    ldexp_pos(v, exponent.unsigned_abs() & 31)
-}
-
+/// exp is between -136 and 119
 #[inline]
-fn convert_neg(val: i32, exponent: i32) -> f32 {
-    let v = (val as f32) / 256.0;
-    ldexp_neg(v, exponent.unsigned_abs() & 31)
+fn ldexp(val: u8, exp: i32) -> f32 {
+    let pow = if exp >= -126 {
+        f32::from_bits(((exp + 127) as u32) << 23)
+    } else {
+        // a subnormal power of two
+        f32::from_bits(1_u32 << (exp + 149))
+    };
+    f32::from(val) * pow
 }
-- 
2.43.0


From f33909fac7b7220469798c2ad9264b7378a5842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 30/41] fix: HDR encoder ignored an error of the sink

---
 crates/zune-hdr/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 2bb9f41..fda65da 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -239,7 +239,7 @@ fn rle<T: ZByteWriterTrait>(
         while cur < beg_run {
             let nonrun_count = 128.min(beg_run - cur);
             buf[0] = nonrun_count as u8;
-            writer.write_u8(buf[0]);
+            writer.write_u8_err(buf[0])?;
             for i in 0..nonrun_count {
                 writer.write_u8_err(data[(cur + i) * 4])?;
             }
-- 
2.43.0


From a376a7142ff918c1a1860087d40dd5b5f28948ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 31/41] fix: HDR encoder lost most of the precision of values
 below one half

---
 crates/zune-hdr/src/encoder.rs | 93 +++++-----------------------------
 1 file changed, 14 insertions(+), 79 deletions(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index fda65da..d3823dc 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -261,88 +261,23 @@ fn float_to_rgbe(rgb: &[f32; 3], rgbe: &mut [u8; 4]) {
     let v = rgb.iter().fold(f32::MIN, |x, y| x.max(*y));
 
     if v > 1e-32 {
-        let old_v = v;
-        let (mut v, e) = frexp(v);
-        v = v * 256. / old_v;
-        rgbe[0] = (rgb[0] * v).clamp(0.0, 255.0) as u8;
-        rgbe[1] = (rgb[1] * v).clamp(0.0, 255.0) as u8;
-        rgbe[2] = (rgb[2] * v).clamp(0.0, 255.0) as u8;
-
-        rgbe[3] = (e.wrapping_add(128)) as u8;
+        let e = exponent(v);
+        // 2^(8-e), so that the largest component lies between 128 and 256
+        let scale = f32::from_bits(((8 - e + 127) as u32) << 23);
+        rgbe[0] = (rgb[0] * scale).clamp(0.0, 255.0) as u8;
+        rgbe[1] = (rgb[1] * scale).clamp(0.0, 255.0) as u8;
+        rgbe[2] = (rgb[2] * scale).clamp(0.0, 255.0) as u8;
+
+        rgbe[3] = (e + 128) as u8;
     } else {
         rgbe.fill(0);
     }
 }
 
-#[rustfmt::skip]
-pub fn abs(num: f32) -> f32
-{
-    // standard compliant
-    // handles NAN and infinity.
-    // pretty cool
-    f32::from_bits(num.to_bits() & (i32::MAX as u32))
-}
-
-/// Implementation of signum that works in no_std
-#[rustfmt::skip]
-pub fn signum(num: f32) -> f32
-{
-    if num.is_nan() { f32::NAN } else if num.is_infinite()
-    {
-        if num.is_sign_positive() { 0.0 } else { -0.0 }
-    } else if num > 0.0 { 1.0 } else { -1.0 }
-}
-
-fn floor(num: f32) -> f32 {
-    if num.is_nan() || num.is_infinite() {
-        /* handle infinities and nan */
-        return num;
-    }
-    let n = num as u64;
-    let d = n as f32;
-
-    if d == num || num >= 0.0 {
-        d
-    } else {
-        d - 1.0
-    }
-}
-
-/// Fast log2 approximation
-/// (we really don't need that accurate)
-#[allow(clippy::cast_precision_loss, clippy::cast_sign_loss)]
-fn fast_log2(x: f32) -> f32 {
-    /*
-     * Fast log approximation from
-     * https://github.com/romeric/fastapprox
-     *
-     * Some pretty good stuff.
-     */
-    let vx = x.to_bits();
-    let mx = (vx & 0x007F_FFFF) | 0x3f00_0000;
-    let mx_f = f32::from_bits(mx);
-
-    let mut y = vx as f32;
-    // 1/(1<<23)
-    y *= 1.192_092_9e-7;
-
-    y - 124.225_52 - 1.498_030_3 * mx_f - 1.725_88 / (0.352_088_72 + mx_f)
-}
-
-/// non standard frexp implementation
-fn frexp(s: f32) -> (f32, i32) {
-    // from https://stackoverflow.com/a/55696477
-    if 0.0 == s {
-        (s, 0)
-    } else {
-        let lg = fast_log2(abs(s));
-        let lg_floor = floor(lg);
-        // Note: This is the only reason we need the standard library
-        // I haven't found a good exp2 function, fast_exp2 doesn't work
-        // and libm/musl exp2 introduces visible color distortions and is slow, so for
-        // now let's stick to whatever the platform provides
-        let x = (lg - lg_floor - 1.0).exp2();
-        let exp = lg_floor + 1.0;
-        (signum(s) * x, exp as i32)
-    }
+/// The exponent `e` for which `v = m * 2^e` with `0.5 <= m < 1`,
+/// at most 127, the largest one a pixel can hold
+///
+/// `v` is expected to be a positive normal number
+fn exponent(v: f32) -> i32 {
+    (((v.to_bits() >> 23) & 0xff) as i32 - 126).min(127)
 }
-- 
2.43.0


From c5d1a8be39d24dd78f8f62b659c6db7e432e0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 32/41] fix: JPEG decoder overflowed when dequantising an out
 of range DC coefficient

---
 crates/zune-jpeg/src/bitstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/bitstream.rs b/crates/zune-jpeg/src/bitstream.rs
index 300d4e0..1687fec 100644
--- a/crates/zune-jpeg/src/bitstream.rs
+++ b/crates/zune-jpeg/src/bitstream.rs
@@ -387,7 +387,7 @@ impl BitStream {
         self.decode_dc(reader, dc_table, dc_prediction)?;
 
         // set dc to be the dc prediction.
-        block[0] = *dc_prediction * qt_table[0];
+        block[0] = dc_prediction.wrapping_mul(qt_table[0]);
 
         while pos < 64 {
             self.refill(reader)?;
-- 
2.43.0


From 39ee78fdab16fe43a3ef6b3db96227b700d3a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 33/41] fix: BMP decoder ignored the row padding of 1, 2 and 4
 bit images

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 23259bb..adda74e 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -939,6 +939,8 @@ where
                     // before expanding them in a separate pass
                     let in_width_bytes = ((self.width * usize::from(self.depth)) + 7) / 8;
                     let mut in_width_buf = vec![0_u8; in_width_bytes];
+                    // each row is padded to a multiple of 4 bytes
+                    let pad_bytes = in_width_bytes.wrapping_neg() & 3;
 
                     let scanline_size = width_bytes * 3;
                     let mut scanline_bytes = vec![0_u8; scanline_size];
@@ -948,6 +950,7 @@ where
                     {
                         // read a whole width scanline before expanding
                         self.bytes.read_exact_bytes(&mut in_width_buf)?;
+                        self.bytes.skip(pad_bytes)?;
 
                         expand_bits_to_byte(
                             self.depth as usize,
-- 
2.43.0


From d34ef8d0f2b451818ec878b1ba7815d7a817c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 34/41] fix: BMP decoder took the row size of 16 bit images
 from their height

---
 crates/zune-bmp/src/decoder.rs | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index adda74e..7ad4100 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -856,41 +856,20 @@ where
                                     // PS: Not sure if it works
                                     assert!(self.pix_fmt.num_components() >= 3);
 
-                                    // Number of iterations we expect to go
-                                    let num_iters = buf.len() / pad_size;
-                                    // Input bytes per every output byte width
-                                    //
-                                    // this does ceil division to ensure input is appropriately rounded
-                                    // of to a multiple of 4 to handle pad bytes in BMP
-                                    let input_bytes_per_width = (((num_iters * 2) + 3) / 4) * 4;
-
-                                    // we chunk according to number of iterations, which is usually the
-                                    // image dimensions (w*h*color components), this is given by the size of
-                                    // buf - output buffer is appropriately sized for this-.
-                                    // for the input, we are reading two bytes( for every three bytes (or four)
-                                    // consumed hence if we know how many iterations we will be doing
-                                    // we can use that to chunk appropriately
+                                    // Each row takes two bytes per pixel and is padded
+                                    // to a multiple of four bytes
+                                    let padding_bytes = (self.width * 2).wrapping_neg() & 3;
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
-                                        let mut count = 0;
-                                        for raw_pix in out
-                                            .chunks_exact_mut(self.pix_fmt.num_components())
-                                            .take(input_bytes_per_width)
+                                        for raw_pix in
+                                            out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
                                                 self.bytes.read_fixed_bytes_or_zero::<2>()
                                             ));
-                                            count += 2;
 
                                             conv_function(v, raw_pix);
                                         }
-                                        //assert_eq!(count, input_bytes_per_width * 2);
-                                        debug_assert!(
-                                            input_bytes_per_width * 2 >= count,
-                                            "Input bytes cannot be greater than count"
-                                        );
-                                        let padding_bytes =
-                                            (input_bytes_per_width * 2).saturating_sub(count);
                                         self.bytes.skip(padding_bytes)?;
                                     }
                                     self.image_in_bgra = true;
-- 
2.43.0


From 5d9098a3620ebb54c2254d8f18d1f43376dd7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 35/41] fix: BMP decoder swapped neighbouring pixels of 8 bit
 grayscale images

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 7ad4100..7417b7c 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -891,7 +891,7 @@ where
                                 // skip padding bytes
                                 self.bytes.skip(in_width.saturating_sub(out_width))?;
                                 // then flip bgr to rgb
-                                if !PRESERVE_BGRA {
+                                if !PRESERVE_BGRA && self.pix_fmt != BmpPixelFormat::GRAY8 {
                                     for pix_pair in out.chunks_exact_mut(3) {
                                         pix_pair.swap(0, 2);
                                     }
-- 
2.43.0


From e593089da490ef23d4bf1f1e4dfd31191d2050ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 36/41] fix: BMP decoder read a compression field the 16 byte
 header does not have

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 7417b7c..2dd7a65 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -319,7 +319,7 @@ where
                 height = self.bytes.get_u32_le_err()?;
                 _planes = self.bytes.get_u16_le_err()?;
                 bpp = self.bytes.get_u16_le_err()?;
-                compression = if hsize >= 40 {
+                compression = if ihsize >= 40 {
                     match BmpCompression::from_u32(self.bytes.get_u32_le_err()?) {
                         Some(c) => c,
                         None => {
-- 
2.43.0


From 8b759126575f17c1a504bd023d88fdf410bbb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 37/41] fix: BMP decoder read fields past the end of short
 headers

---
 crates/zune-bmp/src/decoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 2dd7a65..5ae1394 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -344,16 +344,24 @@ where
                     trace!("Color used : {}", color_used);
                     trace!("Important Colors: {}", important_colors);
 
-                    self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    // the 64 byte OS/2 header has no masks or color information
+                    let has_masks = ihsize >= 52 && ihsize != 64;
+
+                    // a 40 byte header is followed by masks only if they are used
+                    if has_masks || compression == BmpCompression::BITFIELDS {
+                        self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    }
 
                     let mut colorspace_type = 0;
 
-                    if ihsize > 40 {
+                    if has_masks && ihsize >= 56 {
                         // alpha mask
                         self.rgb_bitfields[3] = self.bytes.get_u32_le_err()?;
+                    }
 
+                    if ihsize >= 108 {
                         colorspace_type = self.bytes.get_u32_le_err()?;
 
                         const BMP_DENOM: f64 = 0x40000000_u32 as f64;
-- 
2.43.0


From b8b83ed504d9a42dad993cac0874a9ecff90702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 38/41] fix: BMP decoder mixed up the red and blue bit fields
 when keeping BGRA order

---
 crates/zune-bmp/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 5ae1394..7ccb3f7 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -825,9 +825,9 @@ where
                                 // Anonymous conversion function
                                 let conv_function = |v: u32, a: &mut [u8]| {
                                     if PRESERVE_BGRA {
-                                        a[0] = shift_signed(v & mb, rshift, rcount) as u8;
+                                        a[0] = shift_signed(v & mb, bshift, bcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-                                        a[2] = shift_signed(v & mr, bshift, bcount) as u8;
+                                        a[2] = shift_signed(v & mr, rshift, rcount) as u8;
                                     } else {
                                         a[0] = shift_signed(v & mr, rshift, rcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-- 
2.43.0


From d9a20fae02dc2c6489271693ffa5c5c81e5cd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 39/41] fix: BMP decoder panicked on a too small output buffer

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 7ccb3f7..26cb5d2 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -741,6 +741,9 @@ where
             .output_buf_size()
             .ok_or(BmpDecoderErrors::OverFlowOccurred)?;
 
+        if buf.len() < output_size {
+            return Err(BmpDecoderErrors::TooSmallBuffer(output_size, buf.len()));
+        }
         let buf = &mut buf[0..output_size];
 
         if self.comp == BmpCompression::RLE4 || self.comp == BmpCompression::RLE8 {
-- 
2.43.0


From 804f2224a9a6e5037f7724da497190e87309e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 40/41] fix: BMP decoder rejected RLE4 images whose last row
 ends with an end of line code

---
 crates/zune-bmp/src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 26cb5d2..5f0e9db 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1175,9 +1175,14 @@ where
                         // move to the next line
                         line -= 1;
                         if line < 0 {
-                            return Err(BmpDecoderErrors::Generic(format!(
-                                "Line less than 0 {line}"
-                            )));
+                            return if self.bytes.get_u16_be() == 1 {
+                                // end of picture
+                                Ok(pixels)
+                            } else {
+                                Err(BmpDecoderErrors::Generic(format!(
+                                    "Line less than 0 {line}"
+                                )))
+                            };
                         }
                         // move to the next line
                         output = &mut pixels
-- 
2.43.0


From 61a59cc6072cd70448f873540b497bf38f59b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 41/41] fix: PNG encoder reports a failed write of the
 signature

A sink that fails the first write made encode return Ok with a file that
lacks its signature.
---
 crates/zune-png/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index 4f3f78a..bfbae88 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -55,7 +55,7 @@ impl<'a> PngEncoder<'a> {
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), ZByteIoError> {
         // write signature
-        writer.write_u64_be(PNG_SIGNATURE);
+        writer.write_u64_be_err(PNG_SIGNATURE)?;
         // write ihdr
         write_header_fn(self, writer, b"IHDR", write_ihdr)?;
 
-- 
2.43.0

