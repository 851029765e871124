From 63b5226b6b06d0530e74011b2886b8fc28318afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 01/13] fix: 10 bit samples: the third of four samples takes
 its low bits from the fourth byte

---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From 4d9c7568b0e37e77bd7505e5dc3e02cfa98e161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 02/13] fix: RGB images: rows are three samples per pixel long
 when they are converted for processing

---
 src/imageops/gofloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..9e39976 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
-- 
2.43.0


From e0b251ea27a8ce12460e57e41797e0b0828d6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 03/13] fix: scaling down: rows advance by the ratio of the
 heights and columns by that of the widths

---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From 0cb06a39d397dc5c123b4ed383842cfb4bc1d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 04/13] fix: scaling down: a very long image keeps at least one
 pixel in the short direction

---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From 945febc18aa61ec54ea333f8077d0946bcff9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:03 +0000
Subject: [PATCH 05/13] fix: lossless JPEG: tiles with four components are
 written to their own columns

---
 src/decoders/ljpeg/decompressors.rs | 28 ++++++++++++++--------------
 src/decoders/ljpeg/mod.rs           |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index 430e71f..9b98309 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -92,7 +92,7 @@ pub fn decode_ljpeg_3components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
   Ok(())
 }
 
-pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], width: usize, height: usize) -> Result<(),String> {
+pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: usize, stripwidth:usize, width: usize, height: usize) -> Result<(),String> {
   if ljpeg.sof.width*4 < width || ljpeg.sof.height < height {
     return Err(format!("ljpeg: trying to decode {}x{} into {}x{}",
                        ljpeg.sof.width*4, ljpeg.sof.height,
@@ -105,21 +105,21 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
   let mut pump = BitPumpJPEG::new(ljpeg.buffer);
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
-  out[0] = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  out[2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
-  out[3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
+  out[x] = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
+  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
+  out[x+2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
+  out[x+3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
   let skip_x = ljpeg.sof.width - width/4;
 
   for row in 0..height {
-    let startcol = if row == 0 {4} else {0};
-    for col in (startcol..width).step(4) {
-      let pos = if col == 0 {
+    let startcol = if row == 0 {x+4} else {x};
+    for col in (startcol..(width+x)).step(4) {
+      let pos = if col == x {
         // At start of line predictor starts with start of previous line
-        (row-1)*width
+        (row-1)*stripwidth+x
       } else {
         // All other cases use the two previous pixels in the same line
-        row*width+col-4
+        row*stripwidth+col-4
       };
 
       let (p1,p2,p3,p4) = (out[pos],out[pos+1],out[pos+2],out[pos+3]);
@@ -128,10 +128,10 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
       let diff2 = try!(htable2.huff_decode(&mut pump));
       let diff3 = try!(htable3.huff_decode(&mut pump));
       let diff4 = try!(htable4.huff_decode(&mut pump));
-      out[row*width+col] = ((p1 as i32) + diff1) as u16;
-      out[row*width+col+1] = ((p2 as i32) + diff2) as u16;
-      out[row*width+col+2] = ((p3 as i32) + diff3) as u16;
-      out[row*width+col+3] = ((p4 as i32) + diff4) as u16;
+      out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
+      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      out[row*stripwidth+col+2] = ((p3 as i32) + diff3) as u16;
+      out[row*stripwidth+col+3] = ((p4 as i32) + diff4) as u16;
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index 5e0e0f5..b4421a4 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -256,7 +256,7 @@ impl<'a> LjpegDecompressor<'a> {
         match self.sof.cps {
           2 => decode_ljpeg_2components(self, out, x, stripwidth, width, height),
           3 => decode_ljpeg_3components(self, out, x, stripwidth, width, height),
-          4 => decode_ljpeg_4components(self, out, width, height),
+          4 => decode_ljpeg_4components(self, out, x, stripwidth, width, height),
           c => return Err(format!("ljpeg: {} component files not supported", c).to_string()),
         }
       },
-- 
2.43.0


From b0a27010f7ac57eae0436c65db56148e6e31079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:47 +0000
Subject: [PATCH 06/13] fix: lossless JPEG: the lookup table leaves out the
 largest difference where it cannot be decoded from the bits peeked

---
 src/decoders/ljpeg/huffman.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..7ef98c6 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -235,8 +235,10 @@ impl HuffTable {
       }
 
       if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
+        // When 16 more bits follow they aren't part of what was peeked, and neither
+        // is the end of a code that's longer than the table index
+        self.bigtable[i] = if self.dng_bug || l > BIG_TABLE_BITS {
+          0xff
         } else {
           (-(32768 << 8)) | l as i32
         };
-- 
2.43.0


From 023e68cd1eae5e29ab505f9759745230d8769213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:48 +0000
Subject: [PATCH 07/13] fix: decode the shortened differences of NEFs with a
 split

The lossy tables used after the split row hold how many low bits of a
difference aren't stored in the upper 4 bits of its length, which was used
as a whole as a number of bits to read.
---
 src/decoders/ljpeg/huffman.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 7ef98c6..b0b5d58 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -317,10 +317,14 @@ impl HuffTable {
         -32768
       },
       len => {
+        // In Nikon's lossy tables the upper 4 bits are the number of low bits of
+        // the difference that aren't stored, anywhere else they are zero
+        let shl = len >> 4;
+        let len = len & 15;
         // decode the difference and extend sign bit
-        let mut diff = pump.get_bits(len) as i32;
+        let mut diff = ((pump.get_bits(len - shl) as i32) << 1 | 1) << shl >> 1;
         if (diff & (1 << (len - 1))) == 0 {
-          diff -= (1 << len) - 1;
+          diff -= (1 << len) - if shl == 0 {1} else {0};
         }
         diff
       },
-- 
2.43.0


From 35ba6c4ab3549b6f42e1cc2c8b5f127e96d534ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:28 +0000
Subject: [PATCH 08/13] fix: keep the scale of SRW 3 lines over all their
 blocks

The scale is only coded for every fourth block and applies until the next
one, but was reset for the blocks in between.
---
 src/decoders/srw.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..be7a7f5 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -273,17 +273,15 @@ impl<'a> SrwDecoder<'a> {
 
       for col in (0..width).step(16) {
         // Calculate how much scaling the final values will need
-        scale = if (optflags & OPT_QP) == 0 && (col & 63) == 0 {
+        if (optflags & OPT_QP) == 0 && (col & 63) == 0 {
           let scalevals: [i32;3] = [0,-2,2];
           let i = pump.get_bits(2) as usize;
-          if i < 3 {
+          scale = if i < 3 {
             scale+scalevals[i]
           } else {
             pump.get_bits(12) as i32
-          }
-        } else {
-          0
-        };
+          };
+        }
 
         // First we figure out which reference pixels mode we're in
         if (optflags & OPT_MV) != 0 {
-- 
2.43.0


From 1dac51e02cc523ab469a59094e916e6b8ba612b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:32 +0000
Subject: [PATCH 09/13] fix: limit values that are too large to the largest
 number of that many bits

The complement was shifted as a signed number, so that all but negative
values ended up as -1 whatever the number of bits.
---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..2fbdcfd 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -10,7 +10,7 @@ pub use decoders::pumps::*;
 pub fn clampbits(val: i32, bits: u32) -> i32 {
   let temp = val >> bits;
   if temp != 0 {
-    !temp >> (32-bits)
+    (!temp as u32 >> (32-bits)) as i32
   } else {
     val
   }
-- 
2.43.0


From a23ad02904e14b767408e2589e11d00aef198520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:05 +0000
Subject: [PATCH 10/13] fix: read values that wrap around in the split blocks
 of compressed RW2s

---
 src/decoders/rw2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index eeee447..afffdce 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -155,7 +155,13 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     if self.split {
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    let bits = if byte == 0x3fff {
+      // In a split block the second byte is the first one of the same block
+      let start = self.pos - 0x4000;
+      (self.buffer[start + 0x3fff] as u32) | (self.buffer[start] as u32) << 8
+    } else {
+      LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32
+    };
     (bits >> ((self.nbits-num) & 7)) & (0x0ffffffffu32 >> (32-num))
   }
 
-- 
2.43.0


From e716bfca8053b4532a83c8130aef447316802595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 11/13] fix: read the white balance of MRW files in which it is
 the last block

---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..7f2bb46 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -30,7 +30,7 @@ impl<'a> MrwDecoder<'a> {
 
     let mut currpos: usize = 8;
     // At most we read 20 bytes from currpos so check we don't step outside that
-    while currpos+20 < data_offset {
+    while currpos+20 <= data_offset {
       let tag: u32 = BEu32(buf,currpos);
       let len: u32 = BEu32(buf,currpos+4);
       
-- 
2.43.0


From 550e2d32387f594cd664b60a7e093c8915f04186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 12/13] fix: skip entries of more than 65531 bytes in the
 directory of RAF files

---
 src/decoders/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..560946c 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -319,7 +319,7 @@ impl<'a> TiffIFD<'a> {
           endian: BIG_ENDIAN,
         });
       }
-      off += (len+4) as usize;
+      off += (len as usize)+4;
     }
 
     Ok(TiffIFD {
-- 
2.43.0


From 5acbce1b3a964fe94edd929097e2457cbcd42d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:23 +0000
Subject: [PATCH 13/13] fix: read uncompressed 16 bit samples of big endian
 DNGs in their byte order

---
 src/decoders/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 98aab16..72bdf6f 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -156,7 +156,7 @@ impl<'a> DngDecoder<'a> {
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-      16  => Ok(decode_16le(src, width, height)),
+      16  => if raw.little_endian() {Ok(decode_16le(src, width, height))} else {Ok(decode_16be(src, width, height))},
       12  => Ok(decode_12be(src, width, height)),
       10  => Ok(decode_10le(src, width, height)),
       8   => {
-- 
2.43.0

