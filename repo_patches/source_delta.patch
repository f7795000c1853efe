From 4b2f572195ec078a1a813b5f65222f8a5ed1a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 01/20] fix: accept extensions and image data without any
 sub-blocks

A zero where the first sub-block size is expected is the block terminator.
It was taken for a size, so that the terminator was looked for (and the
following block misread) one byte later.
---
 src/reader/decoder.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..6b0810c 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -643,7 +643,11 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
-                            goto!(ExtensionDataBlock(b as usize))
+                            if b != 0 {
+                                goto!(ExtensionDataBlock(b as usize))
+                            } else {
+                                goto!(0, ExtensionDataBlock(0))
+                            }
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
                         }
@@ -661,7 +665,12 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
-                goto!(ExtensionDataBlock(b as usize))
+                if b != 0 {
+                    goto!(ExtensionDataBlock(b as usize))
+                } else {
+                    // there are no sub-blocks, this is already the terminator
+                    goto!(0, ExtensionDataBlock(0))
+                }
             }
             ExtensionDataBlock(left) => {
                 if left > 0 {
@@ -716,13 +725,15 @@ impl StreamingDecoder {
                 }
             }
             LzwInit(min_code_size) => {
+                // 0 is the terminator of image data without any sub-blocks, and isn't consumed here
+                let consumed = usize::from(b != 0);
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    goto!(consumed, DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(consumed, CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From f17531147d01704d35d713e919d13790254e639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 02/20] fix: don't treat a skipped unknown block as the
 previous extension

Its sub-blocks were appended to the data of the last extension, and when it
ended that extension was interpreted once more (a control extension then had
the wrong length, a looping extension was reported again).
---
 src/reader/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 6b0810c..74c1470 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -643,6 +643,10 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // don't mix it up with the previous extension
+                            self.ext.id = AnyExtension(0);
+                            self.ext.data.clear();
+                            self.ext.data.push(b);
                             if b != 0 {
                                 goto!(ExtensionDataBlock(b as usize))
                             } else {
-- 
2.43.0


From 56909582db09b25ae00c0a56291ed81d4f634312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 03/20] fix: allow_unknown_blocks also allows extensions with
 an unknown label

---
 src/reader/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 74c1470..9414af3 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -632,7 +632,7 @@ impl StreamingDecoder {
                     Some(Block::Extension) => {
                         self.ext.data.clear();
                         self.ext.id = AnyExtension(b);
-                        if self.ext.id.into_known().is_none() {
+                        if self.ext.id.into_known().is_none() && !self.allow_unknown_blocks {
                             return Err(DecodingError::format("unknown block type encountered"));
                         }
                         goto!(ExtensionBlockStart, emit Decoded::BlockStart(Block::Extension))
-- 
2.43.0


From 26a7efa685a81435e21bba4b9bf5165778df15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 04/20] fix: a skipped unknown block is not the end of the
 header

Application extensions that follow it (the repeat count) were not taken into
account by Decoder.
---
 src/reader/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 9414af3..ec3a809 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -619,7 +619,13 @@ impl StreamingDecoder {
                 }
             }
             BlockStart(type_) => {
-                if !self.header_end_reached && type_ != Block::Extension as u8 {
+                // Extensions and unknown blocks may precede the frame data
+                let is_header_end = match Block::from_u8(type_) {
+                    Some(Block::Extension) => false,
+                    Some(_) => true,
+                    None => !self.allow_unknown_blocks,
+                };
+                if !self.header_end_reached && is_header_end {
                     self.header_end_reached = true;
                     return goto!(0, BlockStart(type_), emit Decoded::HeaderEnd);
                 }
-- 
2.43.0


From 5a20d74dce89b5863dd02d67dd9f7d224a68acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 05/20] fix: decode files without any blocks before the trailer

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index ec3a809..c57c14c 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,8 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // the introducer of the first block is not consumed yet, because it may be the trailer
+                    goto!(0, BlockEnd, emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From c425acbaed0962787c8ea2c97ce181a6363dbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 06/20] fix: StreamingDecoder::update returns when given data
 after the trailer

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index c57c14c..8ceddfa 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -429,7 +429,8 @@ impl StreamingDecoder {
         write_into: &mut OutputBuffer<'_>,
     ) -> Result<(usize, Decoded), DecodingError> {
         let len = buf.len();
-        while !buf.is_empty() {
+        // Nothing is consumed after the trailer
+        while !buf.is_empty() && !matches!(self.state, Trailer) {
             let (bytes, decoded) = self.next_state(buf, write_into)?;
             buf = buf.get(bytes..).unwrap_or_default();
             match decoded {
-- 
2.43.0


From 258485863648366ff905cf5c220e04fc3d16fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 07/20] fix: DecoderIter doesn't end at a frame with an empty
 buffer

---
 src/reader/mod.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..530135b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -362,14 +362,6 @@ impl<R> Decoder<R> where R: Read {
         }
     }
 
-    /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
-    }
-
     /// Reads the data of the current frame into a pre-allocated buffer.
     ///
     /// `Self::next_frame_info` needs to be called beforehand.
@@ -496,7 +488,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.current_frame.take())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 84bc916a81ee29bb8f0776daf31a12bf623c9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 08/20] fix: decode frames with a zero-sized area

---
 src/reader/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..44827ec 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,10 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        // Frames without any pixels have nothing to fill
+        if buf.is_empty() {
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
-- 
2.43.0


From 5b0423bf552d7d7db65b67d9779c9546cb7dc207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 09/20] fix: FrameDecoder doesn't lose the last pixels of small
 LZW data

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 8ceddfa..d7a16e9 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -227,7 +227,8 @@ impl FrameDecoder {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
-                if bytes_written > 0 || bytes_read == 0 || data.is_empty() {
+                // there may be pixels left in the LZW decoder after all of the data has been read
+                if bytes_written > 0 || bytes_read == 0 {
                     return Ok(bytes_written);
                 }
             }
-- 
2.43.0


From 18e6369e335952688e1ee0bad41b8a51fd0ceed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 10/20] fix: don't drop LZW data following a clear code

---
 src/reader/decoder.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index d7a16e9..284ebe0 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -295,20 +295,34 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
-
-        match decoded.status {
-            Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-            Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
-                    return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+        let mut is_stalled = false;
+        loop {
+            let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+            let is_idle = decoded.consumed_in == 0 && decoded.consumed_out == 0;
+
+            match decoded.status {
+                // A clear code may have been taken from bits read previously.
+                // The decoder stops after it, and may call this no progress once.
+                Ok(LzwStatus::Ok) if is_idle => {
+                    is_stalled = false;
+                    continue;
+                },
+                Ok(LzwStatus::NoProgress) if is_idle && !is_stalled => {
+                    is_stalled = true;
+                    continue;
+                },
+                Ok(LzwStatus::Done | LzwStatus::Ok) => {},
+                Ok(LzwStatus::NoProgress) => {
+                    if is_idle && self.check_for_end_code {
+                        return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+                    }
+                },
+                Err(err @ LzwError::InvalidCode) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
-            },
-            Err(err @ LzwError::InvalidCode) => {
-                return Err(io::Error::new(io::ErrorKind::InvalidData, err));
             }
+            return Ok((decoded.consumed_in, decoded.consumed_out));
         }
-        Ok((decoded.consumed_in, decoded.consumed_out))
     }
 }
 
-- 
2.43.0


From ac5031058aa9d50ebaf528a2b25ba6d13bc93660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 11/20] fix: look for the LZW end code in data that isn't
 turned into pixels

---
 src/reader/decoder.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 284ebe0..6ac0db2 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -223,7 +223,7 @@ impl FrameDecoder {
         let (&min_code_size, mut data) = frame.buffer.split_first().unwrap_or((&2, &[]));
         self.lzw_reader.reset(min_code_size)?;
         let lzw_reader = &mut self.lzw_reader;
-        self.pixel_converter.read_into_buffer(frame, buf, &mut move |out| {
+        self.pixel_converter.read_into_buffer(frame, buf, &mut |out| {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
@@ -233,6 +233,11 @@ impl FrameDecoder {
                 }
             }
         })?;
+        if self.lzw_reader.check_for_end_code {
+            // It's an error if the end code isn't in the rest of the data either
+            self.lzw_reader.skip_bytes(data)?;
+            self.lzw_reader.skip_bytes(&[])?;
+        }
         Ok(())
     }
 
@@ -286,7 +291,32 @@ impl LzwReader {
         self.decoder.as_ref().map_or(true, |e| e.has_ended())
     }
 
+    /// Discards pixels, but still looks for the end code
+    ///
+    /// No data means there won't be any more of it.
+    fn skip_bytes(&mut self, lzw_data: &[u8]) -> io::Result<usize> {
+        let mut pixels = [0; 256];
+        let mut consumed = 0;
+        loop {
+            let rest = lzw_data.get(consumed..).unwrap_or_default();
+            let (bytes_read, bytes_written) = self.decode_bytes(rest, &mut OutputBuffer::Slice(&mut pixels))?;
+            consumed += bytes_read;
+            if (bytes_read == 0 && bytes_written == 0) || (consumed > 0 && consumed == lzw_data.len()) {
+                return Ok(consumed);
+            }
+        }
+    }
+
     pub fn decode_bytes(&mut self, lzw_data: &[u8], decode_buffer: &mut OutputBuffer<'_>) -> io::Result<(usize, usize)> {
+        let is_discarded = match decode_buffer {
+            OutputBuffer::Slice(buf) => buf.is_empty(),
+            OutputBuffer::None => true,
+            OutputBuffer::Vec(_) => false,
+        };
+        if is_discarded && self.check_for_end_code {
+            return Ok((self.skip_bytes(lzw_data)?, 0));
+        }
+
         let decoder = self.decoder.as_mut().ok_or(io::ErrorKind::Unsupported)?;
 
         let decode_buffer = match decode_buffer {
@@ -779,7 +809,8 @@ impl StreamingDecoder {
                 debug_assert!(!self.skip_frame_decoding);
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                    let is_discarded = matches!(write_into, OutputBuffer::None) && !self.lzw_reader.check_for_end_code;
+                    if self.lzw_reader.has_ended() || is_discarded {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
 
-- 
2.43.0


From 76492a3864cabcd4617c699d5487e589873d8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 12/20] fix: from_rgba makes all pixels with zero alpha
 transparent

---
 src/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..f50e7a6 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -213,10 +213,13 @@ impl Frame<'static> {
     pub fn from_rgba_speed(width: u16, height: u16, pixels: &mut [u8], speed: i32) -> Self {
         assert_eq!(width as usize * height as usize * 4, pixels.len(), "Too much or too little pixel data for the given width and height to create a GIF Frame");
         assert!(speed >= 1 && speed <= 30, "speed needs to be in the range [1, 30]");
-        let mut transparent = None;
+        let mut transparent: Option<[u8; 4]> = None;
         for pix in pixels.chunks_exact_mut(4) {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
+            } else if let Some(color) = transparent {
+                // There can be only one transparent color
+                pix.copy_from_slice(&color);
             } else {
                 transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
             }
-- 
2.43.0


From a4d4b1cf9b9c4541985c1376bc2e28f3841cda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 13/20] fix: from_rgba keeps the alpha mask when reducing
 colors

---
 src/common.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index f50e7a6..b34c7fc 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -231,6 +231,24 @@ impl Frame<'static> {
         for pixel in pixels.chunks_exact(4) {
             if colors.insert((pixel[0], pixel[1], pixel[2], pixel[3])) && colors.len() > 256 {
                 // > 256 colours, let's use NeuQuant.
+                if let Some(color) = transparent {
+                    // The transparent color has its own palette entry, so that opaque pixels never become transparent or vice versa.
+                    let opaque: Vec<u8> = pixels.chunks_exact(4).filter(|pix| pix[3] != 0).flatten().copied().collect();
+                    let nq = color_quant::NeuQuant::new(speed, 255, &opaque);
+                    let mut palette = nq.color_map_rgb();
+                    palette.extend_from_slice(&color[..3]);
+
+                    return Frame {
+                        width,
+                        height,
+                        buffer: Cow::Owned(pixels.chunks_exact(4).map(|pix| {
+                            if pix[3] != 0 { nq.index_of(pix) as u8 } else { 255 }
+                        }).collect()),
+                        palette: Some(palette),
+                        transparent: Some(255),
+                        ..Frame::default()
+                    };
+                }
                 let nq = color_quant::NeuQuant::new(speed, 256, pixels);
 
                 return Frame {
@@ -238,7 +256,7 @@ impl Frame<'static> {
                     height,
                     buffer: Cow::Owned(pixels.chunks_exact(4).map(|pix| nq.index_of(pix) as u8).collect()),
                     palette: Some(nq.color_map_rgb()),
-                    transparent: transparent.map(|t| nq.index_of(&t) as u8),
+                    transparent: None,
                     ..Frame::default()
                 };
             }
-- 
2.43.0


From d0f0010e120e7a5ef202319e7081871f8651fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 14/20] fix: Encoder::into_inner doesn't write the trailer
 again on drop if it failed

---
 src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 1933478..b9f2c1e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -360,8 +360,10 @@ impl<W: Write> Encoder<W> {
 
     /// Finishes writing, and returns the `io::Write` instance used by this encoder
     pub fn into_inner(mut self) -> io::Result<W> {
-        self.write_trailer()?;
-        self.w.take().ok_or(io::Error::from(io::ErrorKind::Unsupported))
+        let res = self.write_trailer();
+        // the trailer must not be written again on drop, even if it failed
+        let w = self.w.take().ok_or(io::Error::from(io::ErrorKind::Unsupported))?;
+        res.map(|()| w)
     }
 
     /// Write the final tailer.
-- 
2.43.0


From aa1846ecc7052239e1a01e4a7a204965f933e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 15/20] fix: Encoder::new doesn't write a trailer when it fails

---
 src/encoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index b9f2c1e..ceeb13e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -134,12 +134,18 @@ impl<W: Write> Encoder<W> {
     /// `global_palette` gives the global color palette in the format `[r, g, b, ...]`,
     /// if no global palette shall be used an empty slice may be supplied.
     pub fn new(w: W, width: u16, height: u16, global_palette: &[u8]) -> Result<Self, EncodingError> {
-        Self {
+        let mut encoder = Self {
             w: Some(w),
             global_palette: false,
             width, height,
             buffer: Vec::new(),
-        }.write_global_palette(global_palette)
+        };
+        if let Err(err) = encoder.write_global_palette(global_palette) {
+            // there's no file to finish on drop
+            encoder.w = None;
+            return Err(err);
+        }
+        Ok(encoder)
     }
 
     /// Write an extension block that signals a repeat behaviour.
@@ -148,7 +154,7 @@ impl<W: Write> Encoder<W> {
     }
 
     /// Writes the global color palette.
-    fn write_global_palette(mut self, palette: &[u8]) -> Result<Self, EncodingError> {
+    fn write_global_palette(&mut self, palette: &[u8]) -> Result<(), EncodingError> {
         let mut flags = 0;
         flags |= 0b1000_0000;
         let (palette, padding, table_size) = Self::check_color_table(palette)?;
@@ -159,8 +165,7 @@ impl<W: Write> Encoder<W> {
         // should use some sensible value here or even allow configuring it?
         flags |= table_size << 4; // wtf flag
         self.write_screen_desc(flags)?;
-        Self::write_color_table(self.writer()?, palette, padding)?;
-        Ok(self)
+        Self::write_color_table(self.writer()?, palette, padding)
     }
 
     /// Writes a frame to the image.
-- 
2.43.0


From 1513b880cc51bba33eea0d9438f844ab1d1cf256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 16/20] fix: refused frames don't leave a control extension
 behind

---
 src/encoder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index ceeb13e..b542a7f 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -181,12 +181,6 @@ impl<W: Write> Encoder<W> {
     }
 
     fn write_frame_header(&mut self, frame: &Frame<'_>) -> Result<(), EncodingError> {
-        self.write_extension(ExtensionData::new_control_ext(
-            frame.delay,
-            frame.dispose,
-            frame.needs_user_input,
-            frame.transparent,
-        ))?;
         let mut flags = 0;
         if frame.interlaced {
             flags |= 0b0100_0000;
@@ -201,6 +195,13 @@ impl<W: Write> Encoder<W> {
             None if self.global_palette => None,
             _ => return Err(EncodingError::from(EncodingFormatError::MissingColorPalette)),
         };
+        // Only write anything for frames that aren't refused
+        self.write_extension(ExtensionData::new_control_ext(
+            frame.delay,
+            frame.dispose,
+            frame.needs_user_input,
+            frame.transparent,
+        ))?;
         let mut tmp = tmp_buf::<10>();
         tmp.write_le(Block::Image as u8)?;
         tmp.write_le(frame.left)?;
-- 
2.43.0


From 748d760279e7516e3935b58c20b3918236845785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 17/20] fix: retry interrupted reads

---
 src/reader/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 530135b..2698375 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -205,7 +205,11 @@ impl<R: Read> ReadDecoder<R> {
     fn decode_next(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<Decoded>, DecodingError> {
         while !self.at_eof {
             let (consumed, result) = {
-                let buf = self.reader.fill_buf()?;
+                let buf = match self.reader.fill_buf() {
+                    Ok(buf) => buf,
+                    Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                    Err(err) => return Err(err.into()),
+                };
                 if buf.is_empty() {
                     return Err(io::ErrorKind::UnexpectedEof.into());
                 }
-- 
2.43.0


From da76979cd5e0e91285be48684bd318110dd14a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 18/20] fix: RGBA pixels with an index outside of the palette
 are always cleared

---
 src/reader/converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index 44827ec..567af61 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -135,6 +135,9 @@ impl PixelConverter {
                                     } else {
                                         0xFF
                                     };
+                                } else {
+                                    // not in the palette
+                                    rgba.fill(0);
                                 }
                             }
                         },
-- 
2.43.0


From 1a68b948cbff5049df04233b1ff855274b4ad66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 19/20] fix: the memory limit also applies to buffers reserved
 for LZW data

---
 src/reader/converter.rs | 8 ++++++++
 src/reader/mod.rs       | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index 567af61..c3544af 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -43,6 +43,14 @@ impl PixelConverter {
         }
     }
 
+    /// As much of the size as the memory limit allows
+    pub(crate) fn limit_size(&self, size: usize) -> usize {
+        match self.memory_limit {
+            MemoryLimit::Unlimited => size,
+            MemoryLimit::Bytes(limit) => (size as u64).min(limit.get()) as usize,
+        }
+    }
+
     pub(crate) fn check_buffer_size(&self, frame: &Frame<'_>) -> Result<usize, DecodingError> {
         let pixel_bytes = self.memory_limit
             .buffer_size(self.color_output, frame.width, frame.height)
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 2698375..6a0a854 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -354,7 +354,8 @@ impl<R> Decoder<R> where R: Read {
                         Vec::new()
                     };
                     // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                    let guess = usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4;
+                    vec.try_reserve(self.pixel_converter.limit_size(guess))
                         .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
-- 
2.43.0


From a97ec302ecf9c20f506eb6cbb51c8957539f8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 20/20] fix: an invalid LZW code doesn't discard the pixels
 before it

---
 src/reader/decoder.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 6ac0db2..0e1f5d5 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -253,6 +253,8 @@ struct LzwReader {
     decoder: Option<LzwDecoder>,
     min_code_size: u8,
     check_for_end_code: bool,
+    /// There was an invalid code after the last pixels
+    has_invalid_code: bool,
 }
 
 impl LzwReader {
@@ -261,6 +263,7 @@ impl LzwReader {
             decoder: None,
             min_code_size: 0,
             check_for_end_code,
+            has_invalid_code: false,
         }
     }
 
@@ -275,6 +278,7 @@ impl LzwReader {
 
     pub fn reset(&mut self, min_code_size: u8) -> Result<(), DecodingError> {
         Self::check_code_size(min_code_size)?;
+        self.has_invalid_code = false;
 
         // The decoder can be reused if the code size stayed the same
         if self.min_code_size != min_code_size || self.decoder.is_none() {
@@ -325,6 +329,10 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
+        if self.has_invalid_code {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, LzwError::InvalidCode));
+        }
+
         let mut is_stalled = false;
         loop {
             let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
@@ -347,6 +355,10 @@ impl LzwReader {
                         return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
                     }
                 },
+                // How many codes are read ahead must not make a difference
+                Err(LzwError::InvalidCode) if decoded.consumed_out > 0 => {
+                    self.has_invalid_code = true;
+                },
                 Err(err @ LzwError::InvalidCode) => {
                     return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
@@ -807,9 +819,9 @@ impl StreamingDecoder {
             }
             DecodeSubBlock(left) => {
                 debug_assert!(!self.skip_frame_decoding);
+                let is_discarded = matches!(write_into, OutputBuffer::None) && !self.lzw_reader.check_for_end_code;
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    let is_discarded = matches!(write_into, OutputBuffer::None) && !self.lzw_reader.check_for_end_code;
                     if self.lzw_reader.has_ended() || is_discarded {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
@@ -830,6 +842,8 @@ impl StreamingDecoder {
                 } else if b != 0 {
                     // decode next sub-block
                     goto!(DecodeSubBlock(b as usize))
+                } else if is_discarded {
+                    goto!(0, FrameDecoded)
                 } else {
                     let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
 
-- 
2.43.0

