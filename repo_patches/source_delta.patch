From d20692dc6a98ec7b58bf149da0b3ef795eab3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:48 +0000
Subject: [PATCH 01/25] fix: do not drop the last image data code when
 compressing

The final partial byte was never written.  When the bits left over exceed
the end code, they hold part of the last data code, so small images (such
as 2x1 with two colors) could not be decoded again.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..38488f5 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -223,6 +223,10 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // Flush the last byte if it has bits of the final data code
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From b885c544f0872bb47086564986b5d589b8f9e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:07 +0000
Subject: [PATCH 02/25] fix: encode images which use color index 255

The number of needed entries was calculated in 8 bits, which overflows
for the highest index: a panic in debug builds, and a code size too small
for the image in release builds.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..2d28928 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max_value = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max_value) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From 5a6779b0927245544479ef8638efae5f69461ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:22 +0000
Subject: [PATCH 03/25] fix: write the LZW end code in the width readers expect

A reader widens its codes as soon as its table is full, which includes the
table entry made by the final data code.  The end code following it was
still written in the old width.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 38488f5..25218cf 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -221,6 +221,10 @@ impl Compressor {
         }
         if let Some(code) = code {
             self.pack(code, buffer);
+            // Decoders widen codes after the final data code, too
+            if self.next_code() == self.code_bits.entries() {
+                self.code_bits += 1;
+            }
         }
         self.pack(self.end_code(), buffer);
         // Flush the last byte if it has bits of the final data code
-- 
2.43.0


From 9927900cbbc15b85706420db3330585a186a5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:23 +0000
Subject: [PATCH 04/25] fix: reject LZW data which does not start with a
 literal code

The first code after a clear code must be a literal.  Any other code was
accepted as a prefix, making table nodes which refer to themselves or to
missing nodes: a panic, or an endless loop filling memory.
---
 gift/src/lzw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 25218cf..49c9bd4 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -394,7 +394,8 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
-            None => buffer.push(code as u8),
+            None if code < self.clear_code() => buffer.push(code as u8),
+            None => return Err(Error::InvalidLzwData),
         }
         if next_code + 1 == self.code_bits.entries() {
             self.code_bits += 1;
-- 
2.43.0


From 69aec0a4ac3ffe41330807e1ca74aff91ebc1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:23 +0000
Subject: [PATCH 05/25] fix: stop adding codes to a full LZW table when
 decoding

An encoder may leave a full table in use instead of clearing it.  The
decoder kept adding nodes, until after 65,536 of them the code arithmetic
overflowed: a panic in debug builds, wrong pixels in release builds.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 49c9bd4..bb25392 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -384,6 +384,10 @@ impl Decompressor {
             return Err(Error::InvalidLzwData);
         }
         match self.prefix {
+            // Table is full; no new codes until it is cleared
+            Some(_) if next_code >= Bits::MAX.entries() => {
+                self.decompress_buffer(code, buffer);
+            }
             Some(prefix) => {
                 // Is code already in table?
                 let data = if code < next_code {
-- 
2.43.0


From 3888677226f1e1761411f0107e84e3ebe0f25e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:37 +0000
Subject: [PATCH 06/25] fix: stop decoding image data at the LZW end code

Bits after the end code (padding, or junk) were decoded as more pixels,
so an image with too few pixels could be completed with made-up ones, or
a complete one rejected as invalid.
---
 gift/src/lzw.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index bb25392..68b1bb6 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// End code found
+    ended: bool,
 }
 
 impl CNode {
@@ -272,6 +274,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            ended: false,
         };
         dec.reset_table();
         dec
@@ -345,7 +348,9 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.ended
+            && let (Some(code), n_consumed) = self.unpack(bytes)
+        {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -364,8 +369,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
-            self.prefix = None;
+            self.ended = true;
         } else {
             self.decompress_data(code, buffer)?;
             self.prefix = Some(code);
-- 
2.43.0


From 8119ea81f59959e804c5416970d436e0cecc5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:10 +0000
Subject: [PATCH 07/25] fix: end the frame iterator after its first error

An invalid block sequence was reported, but later calls went on to return
frames from the rest of the file.
---
 gift/src/decode.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..fe3e828 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -435,22 +435,33 @@ pub struct Frames<R: Read> {
     image_desc: Option<ImageDesc>,
     /// Local color table block
     local_color_table: Option<LocalColorTable>,
+    /// Flag when done (after an error)
+    done: bool,
 }
 
 impl<R: Read> Iterator for Frames<R> {
     type Item = Result<Frame>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         while let Some(block) = self.blocks.next() {
             match block {
                 Ok(b) => {
                     match self.handle_block(b) {
                         Ok(Some(f)) => return Some(Ok(f)), // transpose
                         Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            self.done = true;
+                            return Some(Err(e));
+                        }
                     }
                 }
-                Err(e) => return Some(Err(e)),
+                Err(e) => {
+                    self.done = true;
+                    return Some(Err(e));
+                }
             }
         }
         None
@@ -466,6 +477,7 @@ impl<R: Read> Frames<R> {
             graphic_control_ext: None,
             image_desc: None,
             local_color_table: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From 382600ef6000079d1d0c3d5c5ccd145ef0198b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:10 +0000
Subject: [PATCH 08/25] fix: end the step iterator after its first error

A file without a valid preamble (an empty one, for example) made the step
iterator return errors forever, so collecting a looping iterator from it
never finished.  After a bad frame, more steps followed the error.
---
 gift/src/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index fe3e828..a83fc2f 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -580,6 +580,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when done (after an error)
+    done: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -642,15 +644,21 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         if self.raster.is_none()
             && let Err(e) = self.make_raster()
         {
+            self.done = true;
             return Some(Err(e));
         }
-        match self.raster {
+        let step = match self.raster {
             Some(_) => self.next_step(),
             None => None,
-        }
+        };
+        self.done = matches!(step, Some(Err(_)));
+        step
     }
 }
 
@@ -662,6 +670,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From c7b3aef5f5aa4bbcec95fbcff25c5ef9ad881bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:11 +0000
Subject: [PATCH 09/25] fix: report errors of looping animations after the good
 steps

The looping iterator returned an error first, then the steps decoded
before it, and kept repeating them.
---
 gift/src/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index a83fc2f..a560bdb 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -779,12 +779,12 @@ impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(err) = self.err.take() {
-            return Some(Err(err));
-        }
         if let Some(step) = self.steps.get(self.step_n) {
             self.step_n += 1;
             Some(Ok(step.clone()))
+        } else if let Some(err) = self.err.take() {
+            self.loop_count = None;
+            Some(Err(err))
         } else if let Some(loop_count) = self.loop_count {
             match loop_count.cmp(&1) {
                 Ordering::Greater => self.loop_count = Some(loop_count - 1),
-- 
2.43.0


From 3fdf1c09fef7fe14da61aad7b07ed8ad0412efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:36 +0000
Subject: [PATCH 10/25] fix: use little-endian byte order for loop counts

The loop count of NETSCAPE2.0 and ANIMEXTS1.0 blocks is stored with the
low byte first, like all other values of a GIF file.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From f70c6fc6428ace12dd4c7881b3673eef4c963ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:37 +0000
Subject: [PATCH 11/25] fix: keep the delay time of decoded steps

Step::delay_time_cs never returned the delay of the frame which the step
was decoded from.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index a560bdb..a1b673f 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -704,10 +704,8 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
-        let transparent_color = frame
-            .graphic_control_ext
-            .unwrap_or_default()
-            .transparent_color();
+        let control = frame.graphic_control_ext.unwrap_or_default();
+        let transparent_color = control.transparent_color();
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = Raster::with_raster(raster);
@@ -723,7 +721,8 @@ impl<R: Read> StepsOnce<R> {
             rs.copy_color(frame.region(), SRgba8::default());
         }
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(transparent_color)
+            .with_delay_time_cs(Some(control.delay_time_cs())))
     }
 }
 
-- 
2.43.0


From 439ea39a7b7b50aa06aefa26124f4641031e4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:38 +0000
Subject: [PATCH 12/25] fix: leave pixels under transparent ones unchanged

Transparent pixels of a frame erased what earlier frames had drawn at the
same place, instead of letting it show through.
---
 gift/src/decode.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index a1b673f..9795a22 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -764,11 +764,9 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 967ba83fad547a01e3d8c85ec278c60643a42c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:39 +0000
Subject: [PATCH 13/25] fix: put rows of interlaced frames into display order

Steps of interlaced frames had their rows in the order they are stored in
the file.
---
 gift/src/decode.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 9795a22..3dd79e0 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -757,7 +757,8 @@ fn update_frame(
     let trans_clr = frame.transparent_color();
     let width = usize::from(frame.width());
     let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    for (y, row) in raster.rows_mut(reg).enumerate() {
+        let frow = &data[stored_row(frame, y) * width..][..width];
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -772,6 +773,25 @@ fn update_frame(
     Ok(())
 }
 
+/// Get the row of image data for a display row of a frame
+fn stored_row(frame: &Frame, y: usize) -> usize {
+    if !frame.image_desc.interlaced() {
+        return y;
+    }
+    // rows are stored in 4 passes: every 8th row from 0, every 8th from 4,
+    // every 4th from 2 and every 2nd from 1
+    let height = usize::from(frame.height());
+    let pass_1 = height.div_ceil(8);
+    let pass_2 = height.div_ceil(4);
+    let pass_3 = height.div_ceil(2);
+    match y % 8 {
+        0 => y / 8,
+        4 => pass_1 + y / 8,
+        2 | 6 => pass_2 + y / 4,
+        _ => pass_3 + y / 2,
+    }
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From 399932cd18f829c3d0b70a018c5ccb2e9f068a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:23 +0000
Subject: [PATCH 14/25] fix: report empty frames and screens instead of
 panicking

A frame without pixels at the top left corner passed the check of frame
dimensions, and a screen without pixels was copied before the check.
---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 3dd79e0..de386c1 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -706,6 +706,10 @@ impl<R: Read> StepsOnce<R> {
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
         let control = frame.graphic_control_ext.unwrap_or_default();
         let transparent_color = control.transparent_color();
+        let screen = self.raster.as_ref().unwrap();
+        if frame.image_desc.image_sz() == 0 || screen.pixels().is_empty() {
+            return Err(Error::InvalidFrameDimensions);
+        }
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = Raster::with_raster(raster);
-- 
2.43.0


From 288fc4db5f1ca7949b3c73890888a54c20f44e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:24 +0000
Subject: [PATCH 15/25] fix: apply the maximum image size to the screen of
 steps

A few bytes could ask for a screen of 65,535 x 65,535 pixels, whatever
maximum was set: 16 GB of memory, or a panic since the number of pixels
does not fit into 32 bits.
---
 gift/src/decode.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index de386c1..e9b90ce 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -682,6 +682,7 @@ impl<R: Read> StepsOnce<R> {
                 self.loop_count_ext = p.loop_count_ext.take();
                 let w = p.screen_width().into();
                 let h = p.screen_height().into();
+                self.check_screen_size(w, h)?;
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
@@ -692,6 +693,18 @@ impl<R: Read> StepsOnce<R> {
         }
     }
 
+    /// Check that a screen size is allowed and possible
+    fn check_screen_size(&self, w: u32, h: u32) -> Result<()> {
+        let screen_sz = w * h;
+        if let Some(sz) = self.frames.blocks.max_image_sz
+            && screen_sz as usize > sz
+        {
+            return Err(Error::TooLargeImage);
+        }
+        i32::try_from(screen_sz)?;
+        Ok(())
+    }
+
     /// Get the next step
     fn next_step(&mut self) -> Option<Result<Step>> {
         debug_assert!(self.raster.is_some());
-- 
2.43.0


From 54ce143ce85fcd598c2e2845f3019aa3c425bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:25 +0000
Subject: [PATCH 16/25] fix: drop extra image data while decoding, not at the
 end

Compressed data beyond the end of an image was expanded completely before
being dropped, so a small file could use any amount of memory.
---
 gift/src/decode.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index e9b90ce..ba82142 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,10 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => {
+                b.parse_sub_block(bytes, &mut self.decompressor)?;
+                b.truncate(self.image_sz);
+            }
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
@@ -335,13 +338,17 @@ impl ImageData {
         panic!("Invalid state in decode_image_data!");
     }
 
-    /// Finish LZW decompression
-    fn finish(&mut self, image_sz: usize) -> Result<()> {
+    /// Drop extra image data
+    fn truncate(&mut self, image_sz: usize) {
         if self.data().len() > image_sz {
             warn!("Extra image data: {:?}", &self.data()[image_sz..]);
             self.data_mut().truncate(image_sz);
             self.data_mut().shrink_to_fit();
         }
+    }
+
+    /// Finish LZW decompression
+    fn finish(&mut self, image_sz: usize) -> Result<()> {
         if self.data().len() == image_sz {
             Ok(())
         } else {
-- 
2.43.0


From caa1d35d43a8064cf8617c300bc1a959eefb22af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:49 +0000
Subject: [PATCH 17/25] fix: limit color tables to 256 entries

All colors of a larger palette were written, but the table size in the
file is at most 256, so the rest of the table corrupted the file.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 2d28928..02a4b1b 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -441,10 +441,10 @@ fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        palette.len().min(256) as u16,
     );
-    let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    let mut pal = Vec::with_capacity(tbl_cfg.size_bytes());
+    for clr in palette.colors().iter().take(tbl_cfg.len()) {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From ff45491b3aeb30d26c9d36ca368fb998c18a359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:13 +0000
Subject: [PATCH 18/25] fix: use the color table set by with_global_color_table

The global color table of a step encoder was stored, but the palette of
the first step was always written in its place.
---
 gift/src/encode.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 02a4b1b..c1efe8c 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -373,8 +373,15 @@ impl<W: Write> StepEnc<W> {
         let logical_screen_desc = LogicalScreenDesc::default()
             .with_screen_width(image_desc.width())
             .with_screen_height(image_desc.height())
-            .with_color_table_config(tbl_cfg);
-        let global_color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+            .with_color_table_config(match &self.global_color_table {
+                (global_cfg, Some(_)) => *global_cfg,
+                _ => tbl_cfg,
+            });
+        let color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+        let global_color_table = match &self.global_color_table {
+            (_, Some(tbl)) => Some(tbl.clone()),
+            _ => color_table.clone(),
+        };
         let loop_count_ext = self.loop_count.clone();
         let preamble = Preamble {
             logical_screen_desc,
@@ -390,21 +397,23 @@ impl<W: Write> StepEnc<W> {
                 {
                     return Err(Error::InvalidRasterDimensions);
                 }
-                if pre.global_color_table != preamble.global_color_table {
-                    let frame = Frame::new(
-                        control,
-                        image_desc.with_color_table_config(tbl_cfg),
-                        Some(LocalColorTable::with_colors(&pal[..])),
-                        image_data,
-                    );
-                    return self.frame_enc.encode_frame(&frame);
-                }
             }
             None => {
                 self.frame_enc.encode_preamble(&preamble)?;
                 self.preamble = Some(preamble);
             }
         }
+        if let Some(pre) = &self.preamble
+            && pre.global_color_table != color_table
+        {
+            let frame = Frame::new(
+                control,
+                image_desc.with_color_table_config(tbl_cfg),
+                Some(LocalColorTable::with_colors(&pal[..])),
+                image_data,
+            );
+            return self.frame_enc.encode_frame(&frame);
+        }
         let frame = Frame::new(control, image_desc, None, image_data);
         self.frame_enc.encode_frame(&frame)
     }
-- 
2.43.0


From b870f9ad6cf499dd0ad56309ed624d3cd097a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:14 +0000
Subject: [PATCH 19/25] fix: apply a graphic control only to the next rendering
 block

A graphic control before a plain text block belongs to the plain text.  It
was kept for the next frame, or if that had a graphic control of its own,
the file was rejected.
---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index ba82142..3d4259d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -546,6 +546,10 @@ impl<R: Read> Frames<R> {
                 }
                 self.graphic_control_ext = Some(b);
             }
+            Block::PlainText(_) => {
+                // graphic control applies to the plain text
+                self.graphic_control_ext = None;
+            }
             Block::ImageDesc(b) => {
                 if self.image_desc.is_some() {
                     return Err(Error::InvalidBlockSequence);
-- 
2.43.0


From 6566b23497885baa79b616315c1f58b9874820c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:51 +0000
Subject: [PATCH 20/25] fix: keep the frame column wide enough for 100000
 frames and more

digits() gave 5 for every larger number, so that rows of six-digit frames were shifted against the headings.
---
 gift-bin/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gift-bin/src/main.rs b/gift-bin/src/main.rs
index 075c4b8..4e64bd6 100644
--- a/gift-bin/src/main.rs
+++ b/gift-bin/src/main.rs
@@ -239,6 +239,6 @@ fn digits<T: Into<usize>>(v: T) -> usize {
         10..=99 => 2,
         100..=999 => 3,
         1000..=9999 => 4,
-        _ => 5,
+        _ => 4 + digits(v / 10000),
     }
 }
-- 
2.43.0


From b2e3a01bdd3f09d6574f7161cd4601528e40f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:51 +0000
Subject: [PATCH 21/25] fix: reset the terminal's colours when a file cannot be
 shown

A failure after a listing left the last colour set in the terminal.
---
 gift-bin/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift-bin/src/main.rs b/gift-bin/src/main.rs
index 4e64bd6..9130c18 100644
--- a/gift-bin/src/main.rs
+++ b/gift-bin/src/main.rs
@@ -25,9 +25,9 @@ fn main() -> Result<()> {
     env_logger::builder().format_timestamp(None).init();
     let mut out = StandardStream::stdout(ColorChoice::Always);
     let args: Args = argh::from_env();
-    args.run(&mut out)?;
+    let res = args.run(&mut out);
     out.reset()?;
-    Ok(())
+    res
 }
 
 impl Args {
-- 
2.43.0


From aeefc7d6631ef44cb30fa2478b091fba207500d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:33 +0000
Subject: [PATCH 22/25] fix: list files whose names are not UTF-8

---
 gift-bin/src/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gift-bin/src/main.rs b/gift-bin/src/main.rs
index 9130c18..875749a 100644
--- a/gift-bin/src/main.rs
+++ b/gift-bin/src/main.rs
@@ -24,13 +24,24 @@ struct Args {
 fn main() -> Result<()> {
     env_logger::builder().format_timestamp(None).init();
     let mut out = StandardStream::stdout(ColorChoice::Always);
-    let args: Args = argh::from_env();
+    let args = Args::from_env();
     let res = args.run(&mut out);
     out.reset()?;
     res
 }
 
 impl Args {
+    /// Get the arguments from the environment
+    fn from_env() -> Self {
+        // argh accepts no file names outside of UTF-8
+        if std::env::args_os().all(|a| a.to_str().is_some()) {
+            argh::from_env()
+        } else {
+            let files = std::env::args_os().skip(1).collect();
+            Args { files }
+        }
+    }
+
     fn run(self, out: &mut StandardStream) -> Result<()> {
         //let values = matches.values_of_os("files").unwrap();
         for path in self.files {
-- 
2.43.0


From 7abdea21da3f4740663fb2c88e14ea962aa41b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:34 +0000
Subject: [PATCH 23/25] fix: keep control characters of comments from the
 terminal

---
 gift-bin/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gift-bin/src/main.rs b/gift-bin/src/main.rs
index 875749a..ea2b705 100644
--- a/gift-bin/src/main.rs
+++ b/gift-bin/src/main.rs
@@ -89,7 +89,8 @@ fn show_file(out: &mut StandardStream, path: &OsStr) -> Result<()> {
             for l in String::from_utf8_lossy(c).split("\n") {
                 let l = l.trim();
                 if !l.is_empty() {
-                    comments.push(l.to_string());
+                    // control characters must not reach the terminal
+                    comments.push(l.replace(is_control, "\u{FFFD}"));
                 }
             }
         }
@@ -138,6 +139,11 @@ fn show_file(out: &mut StandardStream, path: &OsStr) -> Result<()> {
     Ok(())
 }
 
+/// Check for a control character (other than tab)
+fn is_control(c: char) -> bool {
+    c.is_control() && c != '\t'
+}
+
 /// Show one frame of a GIF file
 #[allow(clippy::too_many_arguments)]
 fn show_frame(
-- 
2.43.0


From 4214ab1c44795e3b32dcaec0b9af7fd85c2fee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:13 +0000
Subject: [PATCH 24/25] fix: keep the image buffer while dropping extra image
 data

The buffer was shrunk after every sub-block of extra data and grown again
for the next one, so each of them cost as much as the whole image.
---
 gift/src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 3d4259d..17e7880 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -343,13 +343,13 @@ impl ImageData {
         if self.data().len() > image_sz {
             warn!("Extra image data: {:?}", &self.data()[image_sz..]);
             self.data_mut().truncate(image_sz);
-            self.data_mut().shrink_to_fit();
         }
     }
 
     /// Finish LZW decompression
     fn finish(&mut self, image_sz: usize) -> Result<()> {
         if self.data().len() == image_sz {
+            self.data_mut().shrink_to_fit();
             Ok(())
         } else {
             Err(Error::IncompleteImageData)
-- 
2.43.0


From 01955249f9f632e1f34f87eccabb5dc375e013fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:03:28 +0000
Subject: [PATCH 25/25] fix: accept the separator before names outside of UTF-8

The names after -- were listed, but -- itself was taken for a file if one
of the names was not UTF-8.
---
 gift-bin/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift-bin/src/main.rs b/gift-bin/src/main.rs
index ea2b705..39582eb 100644
--- a/gift-bin/src/main.rs
+++ b/gift-bin/src/main.rs
@@ -37,7 +37,10 @@ impl Args {
         if std::env::args_os().all(|a| a.to_str().is_some()) {
             argh::from_env()
         } else {
-            let files = std::env::args_os().skip(1).collect();
+            let mut files: Vec<_> = std::env::args_os().skip(1).collect();
+            if files[0] == "--" {
+                files.remove(0);
+            }
             Args { files }
         }
     }
-- 
2.43.0

