From 44125b3d8e8b9b219a23d26fad4fdbee21bb0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 01/28] fix: ATC subtractive mode computes c0 - c1/4 clamped at
 0, not (c0 - c1)/4 wrapped

---
 src/atc.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..3f3ac4f 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -2,7 +2,6 @@
 use crate::bcn::bc3::decode_bc3_alpha;
 use crate::color::color;
 use crate::macros::block_decoder;
-use core::cmp::max;
 use core::result::Result;
 
 #[inline]
@@ -58,18 +57,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = colors[8].saturating_sub(colors[12] / 4);
+        colors[5] = colors[9].saturating_sub(colors[13] / 4);
+        colors[6] = colors[10].saturating_sub(colors[14] / 4);
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 0f72029db00f8e2bc0408b60a2be4be5a4195f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 02/28] fix: EAC R11/RG11 blocks are big-endian, as the EAC
 alpha of ETC2 RGBA8 is

---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..b10a5f7 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
-- 
2.43.0


From e4aa6c812fe15563978ea0b8aab8a586f886fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 03/28] fix: BC2/BC3 color blocks always use the four color
 palette

---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..fefc4cd 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_color: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if q0 > q1 || four_color {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+/// The color half of a BC2/BC3 block: always the four color palette, regardless of endpoint order.
+#[inline]
+pub(crate) fn decode_bc1_block_four_color(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true);
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..d6736cb 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_block_four_color;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_block_four_color(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..cf427f0 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_block_four_color;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_block_four_color(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From e3591886dfa0db86a266ef40c129787120a6de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 04/28] fix: the BC3 alpha / BC4 / BC5 block decoders write 16
 texels, not the whole slice

---
 src/bcn/bc3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index cf427f0..cb4e381 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -24,7 +24,7 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
-    outbuf.iter_mut().for_each(|p| {
+    outbuf[0..16].iter_mut().for_each(|p| {
         *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
         d >>= 3;
     });
-- 
2.43.0


From a92d30d3f8f99d4df85d21bbeb0083fabe77e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 05/28] fix: BC6H 16-bit endpoint mode overflows the endpoint
 mask

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..b25fd6f 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = ((1u32 << mi.endpoint_bits) - 1) as u16;
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From 287b069f5983dd29651995aab1ec6a10d410731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 06/28] fix: BC6H unsigned unquantization maps the largest
 component, not the middle one, to 0xFFFF

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index b25fd6f..d1a3ca8 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -304,7 +304,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value == (max_value << 1) - 1 {
         return u16::MAX;
     }
 
-- 
2.43.0


From 691db3d83866376b07c3218618dc32a70b3e69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 07/28] fix: BC6H signed endpoints are two's complement, not
 offset arithmetic on u32

---
 src/bcn/bc6.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index d1a3ca8..1afe1c9 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -281,7 +281,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         }
 
         let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        let _value = if sign { _value.wrapping_neg() } else { _value };
 
         let unq: u16;
 
@@ -293,7 +293,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
             unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
         }
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if sign { unq.wrapping_neg() } else { unq };
     }
 
     if _endpoint_bits >= 15 {
@@ -314,7 +314,8 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
 fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
     if _signed {
         let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        let magnitude: u16 = if sign != 0 { _value.wrapping_neg() } else { _value };
+        ((magnitude as u32 * 31) >> 5) as u16 | sign
     } else {
         ((_value as u32 * 31) >> 6) as u16
     }
@@ -723,23 +724,26 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let num = index_bits - anchor as usize;
             let index = bit.read(num) as usize;
 
-            let fc = factors[index] as u32;
+            let fc = factors[index] as i32;
             let fca = 64 - fc;
             let fcb = fc;
 
+            // signed endpoints are two's complement
+            let widen = |v: u16| if signed { v as i16 as i32 } else { v as i32 };
+
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
+                ((widen(ep_r[subset_index]) * fca + widen(ep_r[subset_index + 1]) * fcb + 32) >> 6)
                     as u16,
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
+                ((widen(ep_g[subset_index]) * fca + widen(ep_g[subset_index + 1]) * fcb + 32) >> 6)
                     as u16,
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
+                ((widen(ep_b[subset_index]) * fca + widen(ep_b[subset_index + 1]) * fcb + 32) >> 6)
                     as u16,
                 signed,
             );
-- 
2.43.0


From bab85712055e6ee3260f0fce6b95f0d5fd18ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 08/28] fix: PVRTC blocks are 8 bytes, also in 4bpp images, so
 check the data for that many

---
 src/pvrtc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..fb0cee2 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -385,7 +385,7 @@ pub fn decode_pvrtc(
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
@@ -468,7 +468,7 @@ pub fn decode_pvrtc(
         num_blocks_y
     };
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
-- 
2.43.0


From 9d40c80febd42f2a6d69a29978dab4718d887337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 09/28] fix: an empty PVRTC image is accepted instead of
 underflowing the block count

---
 src/pvrtc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index fb0cee2..ceb74ef 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -391,6 +391,9 @@ pub fn decode_pvrtc(
     if image.len() < width * height {
         return Err("The image buffer is too small!");
     }
+    if num_blocks == 0 {
+        return Ok(());
+    }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
     }
@@ -474,6 +477,9 @@ pub fn decode_pvrtc(
     if image.len() < width * height {
         return Err("The image buffer is too small!");
     }
+    if num_blocks == 0 {
+        return Ok(());
+    }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
     }
-- 
2.43.0


From 81a3a29ddbf79eef8cf47dccfa184eea56f72cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 10/28] fix: ASTC half-float void extents with a component of
 -infinity overflow in floor()

---
 src/astc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..1c2d450 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -8,7 +8,7 @@ use core::result::Result;
 fn floor(x: f32) -> f32 {
     let mut i = x as i32;
     if x < 0.0 && x != i as f32 {
-        i -= 1;
+        i = i.saturating_sub(1);
     }
     i as f32
 }
-- 
2.43.0


From f0ab24b1d8718ca09c397a7101e1086f46b05e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 11/28] fix: the deltas of ASTC HDR RGB end points are
 sign-extended to 32 bits

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 1c2d450..5ff2a06 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -844,31 +844,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 -= 0x80;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 -= 0x80;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 -= 0x40;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 -= 0x40;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 -= 0x20;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 -= 0x20;
             }
         }
     }
-- 
2.43.0


From 0b75ec37edfaa37e21dd0dee2d9f91e810d42820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 12/28] fix: illegal ASTC blocks give the error color instead
 of panicking

---
 src/astc.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 5ff2a06..5bf66e3 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+// returns false for the encodings the specification makes illegal
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,13 +669,20 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
-
     block_data.endpoint_value_num = 0;
 
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
 
+    let min_endpoint_bits = (block_data.endpoint_value_num * 13).div_ceil(5);
+    if block_data.endpoint_value_num > 18
+        || config_bits + weight_bits as usize + min_endpoint_bits > 128
+    {
+        return false;
+    }
+
+    let remain_bits = 128 - config_bits - weight_bits as usize;
+
     let mut endpoint_bits: usize;
     for i in 0..CEM_TABLE_A.len() {
         match CEM_TABLE_A[i] {
@@ -686,6 +703,7 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
             break;
         }
     }
+    true
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1779,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From c667d898d228b5b5c898fe034edb5ed1b2b7505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 13/28] fix: Crunch headers are only read as far as there is
 data

---
 src/crunch/crn_decomp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crunch/crn_decomp.rs b/src/crunch/crn_decomp.rs
index ed5649a..8bad1c4 100644
--- a/src/crunch/crn_decomp.rs
+++ b/src/crunch/crn_decomp.rs
@@ -120,7 +120,7 @@ impl CrnHeader {
     pub const MIN_SIZE: u32 = 74;
 
     pub fn crnd_get_header(&mut self, p_data: &[u8], data_size: u32) -> bool {
-        if data_size < CrnHeader::MIN_SIZE {
+        if data_size < CrnHeader::MIN_SIZE || p_data.len() < CrnHeader::MIN_SIZE as usize {
             return false;
         }
         *self = CrnHeader::default();
@@ -146,8 +146,12 @@ impl CrnHeader {
         self.tables_ofs.assign_from_buffer(&p_data[67..]);
         self.level_ofs = alloc::vec![];
         for i in 0..self.levels.cast_to_uint() as usize {
+            let level_ofs = match p_data.get(70 + (i * 4)..74 + (i * 4)) {
+                Some(level_ofs) => level_ofs,
+                None => return false,
+            };
             self.level_ofs.push(CrnPackedUint { buf: [0, 0, 0, 0] });
-            self.level_ofs[i].assign_from_buffer(&p_data[70 + (i * 4)..]);
+            self.level_ofs[i].assign_from_buffer(level_ofs);
         }
         if self.sig.cast_to_uint() as u16 != CRNSIG_VALUE {
             return false;
-- 
2.43.0


From 6089e2f9475fc1c294f786bb3bea1123217eb853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 14/28] fix: the Crunch symbol codec reads zeros past the end
 of its data and checks where it starts

---
 src/crunch/crn_symbol_codec.rs  | 56 +++++++++++----------------------
 src/crunch/crn_unpacker.rs      | 10 +++---
 src/crunch/crn_utils.rs         |  6 ++++
 src/unitycrunch/crn_unpacker.rs | 15 ++++-----
 4 files changed, 37 insertions(+), 50 deletions(-)

diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66edf4d..0da1c03 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -6,7 +6,6 @@ use super::crn_utils::*;
 pub struct symbol_codec<'slice> {
     pub p_decode_buf: &'slice [u8],
     pub p_decode_buf_next: &'slice [u8],
-    pub p_decode_buf_end: *const u8,
     pub decode_buf_size: u32,
     pub bit_buf: u32,
     pub bit_count: i32,
@@ -17,7 +16,6 @@ impl Default for symbol_codec<'_> {
         symbol_codec {
             p_decode_buf: &[0; 0],
             p_decode_buf_next: &[0; 0],
-            p_decode_buf_end: core::ptr::null(),
             decode_buf_size: 0,
             bit_buf: 0,
             bit_count: 0,
@@ -27,13 +25,12 @@ impl Default for symbol_codec<'_> {
 
 impl<'slice> symbol_codec<'slice> {
     pub fn start_decoding(&mut self, p_buf: &'slice [u8], buf_size: u32) -> bool {
-        if buf_size == 0 {
+        if buf_size == 0 || buf_size as usize > p_buf.len() {
             return false;
         }
-        self.p_decode_buf = p_buf;
-        self.p_decode_buf_next = p_buf;
+        self.p_decode_buf = &p_buf[..buf_size as usize];
+        self.p_decode_buf_next = self.p_decode_buf;
         self.decode_buf_size = buf_size;
-        self.p_decode_buf_end = (&p_buf[(buf_size - 1) as usize]) as *const u8;
         self.get_bits_init();
         true
     }
@@ -175,35 +172,13 @@ impl<'slice> symbol_codec<'slice> {
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-                let mut c0: u32 = 0;
-                let mut c1: u32 = 0;
-                let mut p = self.p_decode_buf_next;
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c0 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c1 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                self.p_decode_buf_next = p;
+                let c0: u32 = self.next_byte();
+                let c1: u32 = self.next_byte();
                 self.bit_count += 16;
                 let c: u32 = (c0 << 8) | c1;
                 self.bit_buf |= c << (32 - self.bit_count);
             } else {
-                let c: u32;
-                if (&(self.p_decode_buf_next[0]) as *const u8) <= self.p_decode_buf_end {
-                    c = self.p_decode_buf_next[0] as u32;
-                    if (&(self.p_decode_buf_next[0]) as *const u8) < self.p_decode_buf_end {
-                        self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                    }
-                } else {
-                    c = 0
-                };
+                let c: u32 = self.next_byte();
                 self.bit_count += 8;
                 self.bit_buf |= c << (32 - self.bit_count);
             }
@@ -248,18 +223,23 @@ impl<'slice> symbol_codec<'slice> {
         self.bit_count = 0;
     }
 
+    // The next byte of the buffer, 0 past its end.
+    fn next_byte(&mut self) -> u32 {
+        match self.p_decode_buf_next.split_first() {
+            Some((&byte, rest)) => {
+                self.p_decode_buf_next = rest;
+                byte as u32
+            }
+            None => 0,
+        }
+    }
+
     fn get_bits(&mut self, num_bits: u32) -> Result<u32, bool> {
         if num_bits > 32 {
             return Err(false);
         }
         while self.bit_count < num_bits as i32 {
-            let mut c: u32 = 0;
-            if self.p_decode_buf_next[0] as *const u8 <= self.p_decode_buf_end {
-                c = self.p_decode_buf_next[0] as u32;
-                if (self.p_decode_buf_next[0] as *const u8) < self.p_decode_buf_end {
-                    self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                }
-            }
+            let c: u32 = self.next_byte();
             self.bit_count += 8;
             if self.bit_count > BIT_BUF_SIZE as i32 {
                 return Err(false);
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..6529f1b 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -64,7 +64,7 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -139,7 +139,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +191,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -273,7 +273,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +310,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
diff --git a/src/crunch/crn_utils.rs b/src/crunch/crn_utils.rs
index 4ba3c77..a388a62 100644
--- a/src/crunch/crn_utils.rs
+++ b/src/crunch/crn_utils.rs
@@ -24,3 +24,9 @@ pub fn limit(x: &mut u32, n: u32) {
     let msk: i32 = v >> 31;
     *x = (((*x as i32) & msk) | (v & !msk)) as u32;
 }
+
+// The data from the given offset on, empty if that is past the end.
+#[inline]
+pub fn section(data: &[u8], ofs: u32) -> &[u8] {
+    data.get(ofs as usize..).unwrap_or_default()
+}
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..752af8f 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -3,6 +3,7 @@ use crate::crunch::crn_consts::*;
 use crate::crunch::crn_decomp::CrnHeader;
 use crate::crunch::crn_static_huffman_data_model::*;
 use crate::crunch::crn_symbol_codec::symbol_codec;
+use crate::crunch::crn_utils::section;
 use crate::macros::*;
 extern crate alloc;
 
@@ -71,7 +72,7 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -164,7 +165,7 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -239,7 +240,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -299,7 +300,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -332,7 +333,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -383,7 +384,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -457,7 +458,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
-- 
2.43.0


From f351dab1ba9831c1215e05bf10e85fd014103d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 15/28] fix: Crunch Huffman models without symbols are handled,
 and rejected when they are used

---
 src/crunch/crn_static_huffman_data_model.rs | 3 +++
 src/crunch/crn_symbol_codec.rs              | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/crunch/crn_static_huffman_data_model.rs b/src/crunch/crn_static_huffman_data_model.rs
index eb7f05d..5267ef1 100644
--- a/src/crunch/crn_static_huffman_data_model.rs
+++ b/src/crunch/crn_static_huffman_data_model.rs
@@ -71,6 +71,9 @@ impl DecoderTables {
         }
 
         self.total_used_syms = total_used_syms;
+        if total_used_syms == 0 {
+            return false;
+        }
         if total_used_syms > self.cur_sorted_symbol_order_size {
             self.cur_sorted_symbol_order_size = total_used_syms;
 
diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 0da1c03..9554503 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -43,6 +43,7 @@ impl<'slice> symbol_codec<'slice> {
 
         if total_used_syms == 0 {
             model.clear();
+            return true;
         }
 
         model.code_sizes.resize(total_used_syms as usize, 0);
@@ -169,6 +170,9 @@ impl<'slice> symbol_codec<'slice> {
     }
 
     pub fn decode(&mut self, model: &StaticHuffmanDataModel) -> Result<u32, bool> {
+        if model.total_syms == 0 {
+            return Err(false);
+        }
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-- 
2.43.0


From ea07f443e53310cdd6da1fcd60c10965807b4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 16/28] fix: Crunch tables and models that would index past a
 palette are rejected

---
 src/crunch/crn_unpacker.rs      | 20 ++++++++++++++++++++
 src/unitycrunch/crn_unpacker.rs | 30 ++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 6529f1b..7a9ac38 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -109,6 +109,20 @@ impl<'slice> CrnUnpacker<'slice> {
                 return false;
             }
         }
+        // every index these models can give must be in its palette
+        let num_symbols = [
+            self.p_header.color_endpoints.num.cast_to_uint(),
+            self.p_header.color_selectors.num.cast_to_uint(),
+            self.p_header.alpha_endpoints.num.cast_to_uint(),
+            self.p_header.alpha_selectors.num.cast_to_uint(),
+        ];
+        if self.endpoint_delta_dm[0].total_syms > num_symbols[0]
+            || self.selector_delta_dm[0].total_syms > num_symbols[1]
+            || self.endpoint_delta_dm[1].total_syms > num_symbols[2]
+            || self.selector_delta_dm[1].total_syms > num_symbols[3]
+        {
+            return false;
+        }
         self.codec.stop_decoding();
         true
     }
@@ -202,6 +216,9 @@ impl<'slice> CrnUnpacker<'slice> {
         if !res {
             return res;
         }
+        if dm.total_syms as usize > MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS {
+            return false;
+        }
         let mut delta0 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut delta1 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut l: i32 = -(MAX_SELECTOR_VALUE as i32);
@@ -321,6 +338,9 @@ impl<'slice> CrnUnpacker<'slice> {
         if !res {
             return res;
         }
+        if dm.total_syms as usize > MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS {
+            return false;
+        }
         let mut delta0 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut delta1 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut l: i32 = -(MAX_SELECTOR_VALUE as i32);
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 752af8f..e2d30d0 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -117,6 +117,20 @@ impl<'slice> CrnUnpacker<'slice> {
                 return false;
             }
         }
+        // every index these models can give must be in its palette
+        let num_symbols = [
+            self.p_header.color_endpoints.num.cast_to_uint(),
+            self.p_header.color_selectors.num.cast_to_uint(),
+            self.p_header.alpha_endpoints.num.cast_to_uint(),
+            self.p_header.alpha_selectors.num.cast_to_uint(),
+        ];
+        if self.endpoint_delta_dm[0].total_syms > num_symbols[0]
+            || self.selector_delta_dm[0].total_syms > num_symbols[1]
+            || self.endpoint_delta_dm[1].total_syms > num_symbols[2]
+            || self.selector_delta_dm[1].total_syms > num_symbols[3]
+        {
+            return false;
+        }
         self.codec.stop_decoding();
         true
     }
@@ -190,10 +204,12 @@ impl<'slice> CrnUnpacker<'slice> {
         for _ in 0..num_color_endpoints {
             if has_etc_color_blocks {
                 for b in [0, 8, 16, 24] {
-                    a += match self.codec.decode(&dm[0]) {
-                        Ok(s) => s,
-                        Err(_) => return false,
-                    } << b;
+                    a = a.wrapping_add(
+                        match self.codec.decode(&dm[0]) {
+                            Ok(s) => s,
+                            Err(_) => return false,
+                        } << b,
+                    );
                 }
                 a &= 0x1F1F1F1F;
                 if has_subblocks {
@@ -1013,6 +1029,9 @@ impl<'slice> CrnUnpacker<'slice> {
         output_height: u32,
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Failed to decode ETC1 Texture.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
@@ -1129,6 +1148,9 @@ impl<'slice> CrnUnpacker<'slice> {
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
+        if num_color_endpoints == 0 || num_alpha_endpoints == 0 {
+            return Err("Failed to decode ETC2 Texture.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
-- 
2.43.0


From 8c53e64642fea072747e0b402a6106be67d92502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 17/28] fix: Crunch level offsets outside of the data are
 rejected

---
 src/crunch/crn_unpacker.rs      | 7 +++++--
 src/unitycrunch/crn_unpacker.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 7a9ac38..3cd8723 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -410,7 +410,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get_mut(level_index as usize) {
+            Some(level_ofs) => level_ofs.cast_to_uint(),
+            None => return Err("Level offset mismatch."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -419,7 +422,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            section(self.p_data, cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index e2d30d0..0e0dcb7 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -544,7 +544,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get_mut(level_index as usize) {
+            Some(level_ofs) => level_ofs.cast_to_uint(),
+            None => return Err("Level offset mismatch."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -553,7 +556,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            section(self.p_data, cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
-- 
2.43.0


From 90647fd104c416269c33451b2bc5bc67d7dbdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 18/28] fix: Crunch levels are only unpacked if there can be
 enough data for their blocks

---
 src/crunch.rs                   | 5 ++++-
 src/crunch/crn_unpacker.rs      | 6 ++++++
 src/unitycrunch.rs              | 5 ++++-
 src/unitycrunch/crn_unpacker.rs | 6 ++++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index 6f41e1f..fbd73ad 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -31,7 +31,10 @@ pub fn crunch_unpack_level(
     let blocks_x: u32 = max(1, (width + 3) >> 2);
     let blocks_y: u32 = max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = match row_pitch.checked_mul(blocks_y) {
+        Some(total_face_size) => total_face_size,
+        None => return Err("Texture is too large."),
+    };
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3cd8723..2df08fb 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -454,6 +454,12 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
+        // every block takes at least one bit, so don't reserve memory for more than that
+        let num_blocks: u64 =
+            blocks_x as u64 * blocks_y as u64 * self.p_header.faces.cast_to_uint() as u64;
+        if num_blocks > src_size_in_bytes as u64 * 8 || src_size_in_bytes as usize > p_src.len() {
+            return Err("Level data is too small.");
+        }
         let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ae4940e..ff726bc 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -22,7 +22,10 @@ pub fn unity_crunch_unpack_level(
     let blocks_x: u32 = core::cmp::max(1, (width + 3) >> 2);
     let blocks_y: u32 = core::cmp::max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = match row_pitch.checked_mul(blocks_y) {
+        Some(total_face_size) => total_face_size,
+        None => return Err("Texture is too large."),
+    };
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 0e0dcb7..e4de35a 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -591,6 +591,12 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
+        // every block takes at least one bit, so don't reserve memory for more than that
+        let num_blocks: u64 =
+            blocks_x as u64 * blocks_y as u64 * self.p_header.faces.cast_to_uint() as u64;
+        if num_blocks > src_size_in_bytes as u64 * 8 || src_size_in_bytes as usize > p_src.len() {
+            return Err("Level data is too small.");
+        }
         let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
-- 
2.43.0


From 6f8f0dce03d0c7389df2fcf9b80478119aea1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 19/28] fix: the faces of a Crunch texture follow each other,
 also if they have an odd number of block rows

---
 src/crunch/crn_unpacker.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 2df08fb..c900480 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -548,9 +548,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces {
             for y in 0..chunks_y {
+                let row_dst = ((f * blocks_y + y * 2) * row_pitch_in_bytes) as usize;
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
                 let block_delta: i32;
@@ -692,7 +692,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     block_dst = (block_dst as i32 + block_delta) as usize;
                 }
-                row_dst += (row_pitch_in_bytes * 2) as usize;
             }
         }
         Ok(true)
@@ -717,9 +716,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces {
             for y in 0..chunks_y {
+                let row_dst = ((f * blocks_y + y * 2) * row_pitch_in_bytes) as usize;
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
                 let block_delta: i32;
@@ -854,7 +853,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     block_dst = ((block_dst as i32) + block_delta) as usize;
                 }
-                row_dst += (row_pitch_in_bytes * 2) as usize;
             }
         }
         Ok(true)
@@ -875,9 +873,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces {
             for y in 0..chunks_y {
+                let row_dst = ((f * blocks_y + y * 2) * row_pitch_in_bytes) as usize;
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
                 let block_delta: i32;
@@ -972,7 +970,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     block_dst = ((block_dst as i32) + block_delta) as usize;
                 }
-                row_dst += (row_pitch_in_bytes * 2) as usize;
             }
         }
         Ok(true)
@@ -995,9 +992,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces {
             for y in 0..chunks_y {
+                let row_dst = ((f * blocks_y + y * 2) * row_pitch_in_bytes) as usize;
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
                 let block_delta: i32;
@@ -1137,7 +1134,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     block_dst = ((block_dst as i32) + block_delta) as usize;
                 }
-                row_dst += (row_pitch_in_bytes * 2) as usize;
             }
         }
         Ok(true)
-- 
2.43.0


From fe149253dd0cb1ed593dad13f9ef0af1d53b91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 20/28] fix: Unity Crunch textures with an odd number of blocks
 in a row or column

---
 src/unitycrunch/crn_unpacker.rs | 42 ++++++++++++++-------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index e4de35a..f10e4f7 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -665,16 +665,16 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let output_pitch_in_dwords = output_pitch_in_bytes >> 2;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() {
             for y in 0..height {
+                let mut data_pos = ((f * output_height + y) * output_pitch_in_dwords) as usize;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -727,7 +727,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -743,7 +742,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let output_pitch_in_dwords = output_pitch_in_bytes >> 2;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -751,9 +750,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() {
             for y in 0..height {
+                let mut data_pos = ((f * output_height + y) * output_pitch_in_dwords) as usize;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -835,7 +834,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -850,16 +848,16 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let output_pitch_in_dwords = output_pitch_in_bytes >> 2;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() {
             for y in 0..height {
+                let mut data_pos = ((f * output_height + y) * output_pitch_in_dwords) as usize;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -915,7 +913,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -930,7 +927,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let output_pitch_in_dwords = output_pitch_in_bytes >> 2;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -938,9 +935,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() {
             for y in 0..height {
+                let mut data_pos = ((f * output_height + y) * output_pitch_in_dwords) as usize;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1025,7 +1022,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1043,7 +1039,7 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let output_pitch_in_dwords = output_pitch_in_bytes >> 2;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1051,9 +1047,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() {
             for y in 0..height {
+                let mut data_pos = ((f * output_height + y) * output_pitch_in_dwords) as usize;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1143,7 +1139,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1162,7 +1157,7 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let output_pitch_in_dwords = output_pitch_in_bytes >> 2;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1172,9 +1167,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() {
             for y in 0..height {
+                let mut data_pos = ((f * output_height + y) * output_pitch_in_dwords) as usize;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1302,7 +1297,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
-- 
2.43.0


From 6e7d4a6e968597217e06f1d1c38d6ac57daf4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:29 +0000
Subject: [PATCH 21/28] fix: Crunch levels of more than 2 GiB are rejected,
 they overflowed the output position

---
 src/crunch/crn_unpacker.rs      | 4 ++++
 src/unitycrunch/crn_unpacker.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index c900480..e85ae7c 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -460,6 +460,10 @@ impl<'slice> CrnUnpacker<'slice> {
         if num_blocks > src_size_in_bytes as u64 * 8 || src_size_in_bytes as usize > p_src.len() {
             return Err("Level data is too small.");
         }
+        // positions in the output are calculated with 32 bit integers
+        if num_blocks * block_size as u64 > i32::MAX as u64 {
+            return Err("Texture is too large.");
+        }
         let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index f10e4f7..03cacdc 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -597,6 +597,10 @@ impl<'slice> CrnUnpacker<'slice> {
         if num_blocks > src_size_in_bytes as u64 * 8 || src_size_in_bytes as usize > p_src.len() {
             return Err("Level data is too small.");
         }
+        // positions in the output are calculated with 32 bit integers
+        if num_blocks * block_size as u64 > i32::MAX as u64 {
+            return Err("Texture is too large.");
+        }
         let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
-- 
2.43.0


From 760183fcf2a3b29678061607e958f8627fb4ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 22/28] fix: the Python decode_astc raised a panic on success
 and hid errors

---
 bindings/python/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index e09336c..2f72ee5 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -139,7 +139,6 @@ pub fn decode_astc<'a>(
             block_height,
             image_u32,
         )
-        .unwrap_err();
-        Ok(())
+        .map_err(PyErr::new::<pyo3::exceptions::PyValueError, _>)
     })
 }
-- 
2.43.0


From 28f14eada77cd076a840eebc07a6ae1a912b0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 23/28] fix: Python images of overflowing size panicked, and
 decoders got slices four times the size of the image

---
 bindings/python/src/lib.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 2f72ee5..790a504 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -1,3 +1,4 @@
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use pyo3::types::PyBytes;
 use pyo3::wrap_pyfunction;
@@ -56,18 +57,32 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+/// Returns the pixels `decode` writes into a slice of width * height entries as bytes.
+fn decode_to_bytes<'a>(
+    py: Python<'a>,
+    width: usize,
+    height: usize,
+    decode: impl FnOnce(&mut [u32]) -> Result<(), &'static str>,
+) -> PyResult<&'a PyBytes> {
+    let size = match width.checked_mul(height).and_then(|n| n.checked_mul(4)) {
+        Some(size) if size <= isize::MAX as usize => size,
+        _ => return Err(PyValueError::new_err("Image is too large!")),
+    };
+    PyBytes::new_with(py, size, |image: &mut [u8]| {
+        // the contents of a bytes object are aligned, and any bytes make a u32
+        let (head, image_u32, tail) = unsafe { image.align_to_mut::<u32>() };
+        assert!(head.is_empty() && tail.is_empty());
+        decode(image_u32).map_err(PyValueError::new_err)
+    })
+}
+
 macro_rules! pybind {
     ($name:expr) => {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
-                PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
-                    let image_u32 = unsafe { std::mem::transmute(image) };
-                    match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
-                        Ok(_) => {}
-                        Err(e) => return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
-                    }
-                    Ok(())
+                decode_to_bytes(py, width, height, |image| {
+                    texture2ddecoder::$name(data.as_bytes(), width, height, image)
                 })
             }
         }
@@ -129,16 +144,14 @@ pub fn decode_astc<'a>(
     block_width: usize,
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
-    PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
-        let image_u32 = unsafe { std::mem::transmute(image) };
+    decode_to_bytes(py, width, height, |image| {
         texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
             height,
             block_width,
             block_height,
-            image_u32,
+            image,
         )
-        .map_err(PyErr::new::<pyo3::exceptions::PyValueError, _>)
     })
 }
-- 
2.43.0


From 6746ef516a336c4cdf73fab206ac571c808f6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:53 +0000
Subject: [PATCH 24/28] fix: image sizes whose products overflow are reported
 as errors instead of panicking

---
 src/astc.rs   |  6 +++---
 src/macros.rs |  4 ++--
 src/pvrtc.rs  | 12 ++++++------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 5bf66e3..5bf8a71 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1805,16 +1805,16 @@ pub fn decode_astc(
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul(16) {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
+    let expected_image_size = width.saturating_mul(height);
     if image.len() < expected_image_size {
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
+    if block_width.saturating_mul(block_height) > 144 {
         return Err("Block size is too big!");
     }
 
diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..d93c0c8 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -11,11 +11,11 @@ macro_rules! block_decoder{
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul($raw_block_size) {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                if image.len() < width.saturating_mul(height) {
                     return Err("Image buffer is too small!");
                 }
 
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index ceb74ef..0cece63 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -382,13 +382,13 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * 8 {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
     if num_blocks == 0 {
@@ -464,17 +464,17 @@ pub fn decode_pvrtc(
     let bw: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
     let num_blocks_y: usize = (h + 3) / 4;
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
     } else {
         num_blocks_y
     };
 
-    if data.len() < num_blocks * 8 {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
     if num_blocks == 0 {
-- 
2.43.0


From a1ff21b455aba66d306c2aae029676ef957cd973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 25/28] fix: the crate compiles and decodes without the alloc
 feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 11 ++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 0cece63..416a4c6 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -456,14 +456,14 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
     let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
+    let num_blocks_x: usize = width.div_ceil(bw);
+    let num_blocks_y: usize = height.div_ceil(4);
     let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
@@ -526,9 +526,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, bw, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From 4131c351b2fbbb44a572e12e720262af98661579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:17 +0000
Subject: [PATCH 26/28] fix: keep all 48 bits of BC3 alpha and EAC indices on
 32-bit targets

---
 src/bcn/bc3.rs  | 4 ++--
 src/etc/eac.rs  | 8 ++++----
 src/etc/etc2.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index cb4e381..8ca67d0 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,12 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
     outbuf[0..16].iter_mut().for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b10a5f7..f6a9d35 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,10 +8,10 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
+        let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
@@ -32,10 +32,10 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
+        let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
diff --git a/src/etc/etc2.rs b/src/etc/etc2.rs
index f8c15ec..ae278cf 100644
--- a/src/etc/etc2.rs
+++ b/src/etc/etc2.rs
@@ -314,9 +314,9 @@ pub fn decode_etc2_a8_block(data: &[u8], outbuf: &mut [u32]) {
         // multiplier != 0
         let multiplier: i32 = (data[1] >> 4) as i32;
         let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-        let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+        let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
         for i in 0..16 {
-            let alpha = (clamp((data[0] as i32) + multiplier * (table[l & 7] as i32)) as u32)
+            let alpha = (clamp((data[0] as i32) + multiplier * (table[(l & 7) as usize] as i32)) as u32)
                 << TRANSPARENT_SHIFT;
             let x: &mut u32 = &mut outbuf[WRITE_ORDER_TABLE_REV[i]];
             *x = (*x & TRANSPARENT_MASK) | alpha;
-- 
2.43.0


From 5b3768ea41ddbb0aaabcdc67ba2e5c219632db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:25 +0000
Subject: [PATCH 27/28] fix: the crate compiles for big-endian targets and
 gives the same pixels there

---
 src/color.rs               | 22 +----------
 src/crunch/crn_consts.rs   |  9 +----
 src/crunch/crn_unpacker.rs | 75 --------------------------------------
 src/macros.rs              |  3 --
 4 files changed, 3 insertions(+), 106 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index e107ac0..f2dca98 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -1,26 +1,8 @@
 #![allow(clippy::too_many_arguments)]
 
-pub static TRANSPARENT_MASK: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        0x00ffffff
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0xffffff00
-    }
-};
+pub static TRANSPARENT_MASK: u32 = 0x00ffffff;
 
-pub static TRANSPARENT_SHIFT: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        24
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0
-    }
-};
+pub static TRANSPARENT_SHIFT: u32 = 24;
 
 #[inline]
 pub const fn color(r: u8, g: u8, b: u8, a: u8) -> u32 {
diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index f16fc2f..8054713 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -68,15 +68,8 @@ pub const MOST_PROBABLE_CODELENGTH_CODES: [u8; 21] = [
 
 // pub const cNumMostProbableCodelengthCodes: usize = 21;
 
-#[cfg(target_endian = "little")]
+// Blocks are built from little-endian words on every platform: that is how the decoders read them.
 pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = true;
-// #[cfg(target_endian = "little")]
-// pub const c_crnd_big_endian_platform: bool = false;
-
-#[cfg(target_endian = "big")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = false;
-// #[cfg(target_endian = "big")]
-// pub const c_crnd_big_endian_platform: bool = true;
 
 // pub const cDXTBlockShift: usize = 2;
 // pub const cDXTBlockSize: usize = 1 << cDXTBlockShift;
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index e85ae7c..d989b57 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -794,34 +794,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha_selectors = &self.alpha_selectors
                                     [(prev_alpha_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha_endpoints[tile_index as usize] << 16)
-                                            | pAlpha_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha_selectors[1] as u32) << 16)
-                                            | (pAlpha_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (self.m_color_selectors
-                                            [prev_color_selector_index as usize])
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
@@ -932,23 +904,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
                                     [(prev_alpha0_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
@@ -1071,36 +1026,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                     [(prev_alpha0_selector_index * 3) as usize..];
                                 let p_alpha1_selectors = &self.alpha_selectors
                                     [(prev_alpha1_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        ((alpha1_endpoints[tile_index as usize] << 16)
-                                            | pAlpha1_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (((pAlpha1_selectors[1] as u32) << 16)
-                                            | (pAlpha1_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
diff --git a/src/macros.rs b/src/macros.rs
index d93c0c8..d240363 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -55,10 +55,7 @@ macro_rules! CRND_HUFF_DECODE {
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
-        #[cfg(target_endian = "little")]
         let tiles = $val.to_le_bytes();
-        #[cfg(target_endian = "big")]
-        let tiles = $val.to_be_bytes();
         $buf[t_index] = tiles[0];
         $buf[t_index + 1] = tiles[1];
         $buf[t_index + 2] = tiles[2];
-- 
2.43.0


From 757cce817c863ce346dd37403c0702074b851548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:24 +0000
Subject: [PATCH 28/28] fix: an image without columns is decoded at once,
 however many rows it has

---
 src/astc.rs   | 5 +++++
 src/macros.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/astc.rs b/src/astc.rs
index 5bf8a71..e697e8c 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1818,6 +1818,11 @@ pub fn decode_astc(
         return Err("Block size is too big!");
     }
 
+    // without columns there is nothing to decode, however many rows there are
+    if num_blocks_x == 0 {
+        return Ok(());
+    }
+
     (0..num_blocks_y).for_each(|by| {
         (0..num_blocks_x).for_each(|bx| {
             decode_astc_block(&data[data_offset..], block_width, block_height, &mut buffer);
diff --git a/src/macros.rs b/src/macros.rs
index d240363..24b11e2 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -19,6 +19,11 @@ macro_rules! block_decoder{
                     return Err("Image buffer is too small!");
                 }
 
+                // without columns there is nothing to decode, however many rows there are
+                if num_blocks_x == 0 {
+                    return Ok(());
+                }
+
                 let mut data_offset = 0;
                 (0..num_blocks_y).for_each(|by| {
                     (0..num_blocks_x).for_each(|bx| {
-- 
2.43.0

