From 383084c39fb264ed6d41cd5e2a71f292de73e929 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 01/20] fix: build the crate without the alloc feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 13 +++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..02107b4 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -453,14 +453,14 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
@@ -520,9 +520,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From dbfa8934157bdb81c6c0b20a14bf0b9fb92206b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 02/20] fix: decode the same on big-endian targets

---
 src/color.rs               |  23 +---
 src/crunch/crn_consts.rs   |  10 --
 src/crunch/crn_unpacker.rs | 260 +++++++++++--------------------------
 src/macros.rs              |   3 -
 4 files changed, 80 insertions(+), 216 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index e107ac0..3484ba8 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -1,26 +1,9 @@
 #![allow(clippy::too_many_arguments)]
 
-pub static TRANSPARENT_MASK: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        0x00ffffff
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0xffffff00
-    }
-};
+// color() builds the same u32 on every target, with alpha in the top byte
+pub static TRANSPARENT_MASK: u32 = 0x00ffffff;
 
-pub static TRANSPARENT_SHIFT: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        24
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0
-    }
-};
+pub static TRANSPARENT_SHIFT: u32 = 24;
 
 #[inline]
 pub const fn color(r: u8, g: u8, b: u8, a: u8) -> u32 {
diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index f16fc2f..1830953 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -68,16 +68,6 @@ pub const MOST_PROBABLE_CODELENGTH_CODES: [u8; 21] = [
 
 // pub const cNumMostProbableCodelengthCodes: usize = 21;
 
-#[cfg(target_endian = "little")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = true;
-// #[cfg(target_endian = "little")]
-// pub const c_crnd_big_endian_platform: bool = false;
-
-#[cfg(target_endian = "big")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = false;
-// #[cfg(target_endian = "big")]
-// pub const c_crnd_big_endian_platform: bool = true;
-
 // pub const cDXTBlockShift: usize = 2;
 // pub const cDXTBlockSize: usize = 1 << cDXTBlockShift;
 // pub const cDXT1BytesPerBlock: usize = 8;
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..750db72 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -174,13 +174,8 @@ impl<'slice> CrnUnpacker<'slice> {
             e = (e + de) & 63;
             CRND_HUFF_DECODE!(self.codec, &dm[0], df);
             f = (f + df) & 31;
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = f | (e << 5) | (d << 11) | (c << 16) | (b << 21) | (a << 27);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -228,43 +223,23 @@ impl<'slice> CrnUnpacker<'slice> {
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[8] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = (p_from_linear[cur[8] as usize] as u32)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[0] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
+                | ((p_from_linear[cur[1] as usize] as u32) << 2)
+                | ((p_from_linear[cur[2] as usize] as u32) << 4)
+                | ((p_from_linear[cur[3] as usize] as u32) << 6)
+                | ((p_from_linear[cur[4] as usize] as u32) << 8)
+                | ((p_from_linear[cur[5] as usize] as u32) << 10)
+                | ((p_from_linear[cur[6] as usize] as u32) << 12)
+                | ((p_from_linear[cur[7] as usize] as u32) << 14)
+                | ((p_from_linear[cur[8] as usize] as u32) << 16)
+                | ((p_from_linear[cur[9] as usize] as u32) << 18)
+                | ((p_from_linear[cur[10] as usize] as u32) << 20)
+                | ((p_from_linear[cur[11] as usize] as u32) << 22)
+                | ((p_from_linear[cur[12] as usize] as u32) << 24)
+                | ((p_from_linear[cur[13] as usize] as u32) << 26)
+                | ((p_from_linear[cur[14] as usize] as u32) << 28)
+                | ((p_from_linear[cur[15] as usize] as u32) << 30);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -762,58 +737,28 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha_selectors = &self.alpha_selectors
                                     [(prev_alpha_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha_endpoints[tile_index as usize] << 16)
-                                            | pAlpha_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha_selectors[1] as u32) << 16)
-                                            | (pAlpha_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (self.m_color_selectors
-                                            [prev_color_selector_index as usize])
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha_endpoints[tile_index as usize]
-                                            | ((p_alpha_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha_selectors[1] as u32)
-                                            | ((p_alpha_selectors[2] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 3,
-                                        (self.color_selectors[prev_color_selector_index as usize])
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha_endpoints[tile_index as usize]
+                                        | ((p_alpha_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha_selectors[1] as u32)
+                                        | ((p_alpha_selectors[2] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 2,
+                                    (color_endpoints[tile_index as usize])
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 3,
+                                    (self.color_selectors[prev_color_selector_index as usize])
+                                );
                             }
                             pd_dst += 4;
                         }
@@ -901,37 +846,18 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
                                     [(prev_alpha0_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha0_endpoints[tile_index as usize]
-                                            | ((p_alpha0_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha0_selectors[1] as u32)
-                                            | ((p_alpha0_selectors[2] as u32) << 16))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha0_endpoints[tile_index as usize]
+                                        | ((p_alpha0_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha0_selectors[1] as u32)
+                                        | ((p_alpha0_selectors[2] as u32) << 16))
+                                );
                             }
                             pd_dst += 2;
                         }
@@ -1041,62 +967,30 @@ impl<'slice> CrnUnpacker<'slice> {
                                     [(prev_alpha0_selector_index * 3) as usize..];
                                 let p_alpha1_selectors = &self.alpha_selectors
                                     [(prev_alpha1_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        ((alpha1_endpoints[tile_index as usize] << 16)
-                                            | pAlpha1_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (((pAlpha1_selectors[1] as u32) << 16)
-                                            | (pAlpha1_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha0_endpoints[tile_index as usize]
-                                            | ((p_alpha0_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha0_selectors[1] as u32)
-                                            | ((p_alpha0_selectors[2] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 2,
-                                        (alpha1_endpoints[tile_index as usize]
-                                            | ((p_alpha1_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 3,
-                                        ((p_alpha1_selectors[1] as u32)
-                                            | ((p_alpha1_selectors[2] as u32) << 16))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha0_endpoints[tile_index as usize]
+                                        | ((p_alpha0_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha0_selectors[1] as u32)
+                                        | ((p_alpha0_selectors[2] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 2,
+                                    (alpha1_endpoints[tile_index as usize]
+                                        | ((p_alpha1_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 3,
+                                    ((p_alpha1_selectors[1] as u32)
+                                        | ((p_alpha1_selectors[2] as u32) << 16))
+                                );
                             }
                             pd_dst += 4;
                         }
diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..9a59981 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -55,10 +55,7 @@ macro_rules! CRND_HUFF_DECODE {
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
-        #[cfg(target_endian = "little")]
         let tiles = $val.to_le_bytes();
-        #[cfg(target_endian = "big")]
-        let tiles = $val.to_be_bytes();
         $buf[t_index] = tiles[0];
         $buf[t_index + 1] = tiles[1];
         $buf[t_index + 2] = tiles[2];
-- 
2.43.0


From 862c1f05b9be925fe95734167758c0bbf06d2732 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 03/20] fix: keep all 48 selector bits of BC3/EAC blocks on
 32-bit targets

---
 src/bcn/bc3.rs  | 5 +++--
 src/etc/eac.rs  | 8 ++++----
 src/etc/etc2.rs | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..cbb7326 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,13 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    // 48 bits of selectors, more than a 32-bit usize can hold
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
     outbuf.iter_mut().for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..526dc7f 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,10 +8,10 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
+        let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
@@ -32,10 +32,10 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
+        let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
diff --git a/src/etc/etc2.rs b/src/etc/etc2.rs
index f8c15ec..ae278cf 100644
--- a/src/etc/etc2.rs
+++ b/src/etc/etc2.rs
@@ -314,9 +314,9 @@ pub fn decode_etc2_a8_block(data: &[u8], outbuf: &mut [u32]) {
         // multiplier != 0
         let multiplier: i32 = (data[1] >> 4) as i32;
         let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-        let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+        let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
         for i in 0..16 {
-            let alpha = (clamp((data[0] as i32) + multiplier * (table[l & 7] as i32)) as u32)
+            let alpha = (clamp((data[0] as i32) + multiplier * (table[(l & 7) as usize] as i32)) as u32)
                 << TRANSPARENT_SHIFT;
             let x: &mut u32 = &mut outbuf[WRITE_ORDER_TABLE_REV[i]];
             *x = (*x & TRANSPARENT_MASK) | alpha;
-- 
2.43.0


From 9a5d9e06706abed3202af00da3cb1cde50feb13c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 04/20] fix: read EAC selectors from the selector bytes of the
 block

---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index 526dc7f..f6a9d35 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
-- 
2.43.0


From 15a06c37ce76994f4095629b51e789f5b383de79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 05/20] fix: clamp the darkened ATC colour at zero instead of
 wrapping

---
 src/atc.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..0d5953d 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -58,18 +58,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = max(0, colors[8] as i16 - colors[12] as i16 / 4) as u8;
+        colors[5] = max(0, colors[9] as i16 - colors[13] as i16 / 4) as u8;
+        colors[6] = max(0, colors[10] as i16 - colors[14] as i16 / 4) as u8;
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 5ab6872d371234df27e0fa3560d63cee255e78f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 06/20] fix: write only the 16 texels of the block in
 decode_bc3_alpha

---
 src/bcn/bc3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index cbb7326..8f7ca8e 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -25,7 +25,7 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
-    outbuf.iter_mut().for_each(|p| {
+    outbuf[0..16].iter_mut().for_each(|p| {
         *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
-- 
2.43.0


From 67d2a2f251244140035444eb8ca16316c42b8f60 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 07/20] fix: BC6H mode 15 endpoint mask overflows u16

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..4551902 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = ((1_u32 << mi.endpoint_bits) - 1) as u16;
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From 6f4ac05972198dd38ac2d838a9892b6d0b41d2be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 08/20] fix: reject image sizes that overflow in the block
 decoders

---
 src/macros.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9a59981..40f6b99 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -11,12 +11,18 @@ macro_rules! block_decoder{
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
-                    return Err("Not enough data to decode image!");
+                // a size that overflows usize is larger than any buffer
+                match num_blocks_x
+                    .checked_mul(num_blocks_y)
+                    .and_then(|num_blocks| num_blocks.checked_mul($raw_block_size))
+                {
+                    Some(expected_data_size) if data.len() >= expected_data_size => {}
+                    _ => return Err("Not enough data to decode image!"),
                 }
 
-                if image.len() < width * height {
-                    return Err("Image buffer is too small!");
+                match width.checked_mul(height) {
+                    Some(expected_image_size) if image.len() >= expected_image_size => {}
+                    _ => return Err("Image buffer is too small!"),
                 }
 
                 let mut data_offset = 0;
-- 
2.43.0


From 998b047eb42e2b5344b2cb73a0e8027593f704f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 09/20] fix: PVRTC size checks (4bpp data size, empty images,
 overflow)

---
 src/pvrtc.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 02107b4..4f6d9e6 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -382,14 +382,19 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
-        return Err("The data buffer is too small!");
+    // every block takes 8 bytes; a size that overflows usize is larger than any buffer
+    let num_blocks: usize = match num_blocks_x.checked_mul(num_blocks_y) {
+        Some(num_blocks) if data.len() / 8 >= num_blocks => num_blocks,
+        _ => return Err("The data buffer is too small!"),
+    };
+    match width.checked_mul(height) {
+        Some(image_size) if image.len() >= image_size => {}
+        _ => return Err("The image buffer is too small!"),
     }
-    if image.len() < width * height {
-        return Err("The image buffer is too small!");
+    if num_blocks == 0 {
+        return Ok(());
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
@@ -461,18 +466,19 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
-    let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
-        num_blocks_x
-    } else {
-        num_blocks_y
-    };
+    let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
-        return Err("The data buffer is too small!");
+    // every block takes 8 bytes; a size that overflows usize is larger than any buffer
+    let num_blocks: usize = match num_blocks_x.checked_mul(num_blocks_y) {
+        Some(num_blocks) if data.len() / 8 >= num_blocks => num_blocks,
+        _ => return Err("The data buffer is too small!"),
+    };
+    match width.checked_mul(height) {
+        Some(image_size) if image.len() >= image_size => {}
+        _ => return Err("The image buffer is too small!"),
     }
-    if image.len() < width * height {
-        return Err("The image buffer is too small!");
+    if num_blocks == 0 {
+        return Ok(());
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
-- 
2.43.0


From 5ef7ed9a53250d4bd64435689a6d61f7b1921b4b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 10/20] fix: decode_astc rejects block and image sizes it
 cannot handle

---
 src/astc.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..60187c8 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1779,22 +1779,31 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width < 4 || block_height < 4 {
+        return Err("Block size is too small!");
+    }
+
+    if block_width > 12 || block_height > 12 {
+        return Err("Block size is too big!");
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
-        return Err("Not enough data to decode image!");
-    }
-
-    let expected_image_size = width * height;
-    if image.len() < expected_image_size {
-        return Err("Image buffer is too small!");
+    // a size that overflows usize is larger than any buffer
+    match num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|num_blocks| num_blocks.checked_mul(16))
+    {
+        Some(expected_data_size) if data.len() >= expected_data_size => {}
+        _ => return Err("Not enough data to decode image!"),
     }
 
-    if block_width * block_height > 144 {
-        return Err("Block size is too big!");
+    match width.checked_mul(height) {
+        Some(expected_image_size) if image.len() >= expected_image_size => {}
+        _ => return Err("Image buffer is too small!"),
     }
 
     (0..num_blocks_y).for_each(|by| {
-- 
2.43.0


From 3a8c6a786531426086497b84d36274224d340148 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 11/20] fix: astc floor overflows for negative infinity

---
 src/astc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index 60187c8..4aba93b 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -8,7 +8,7 @@ use core::result::Result;
 fn floor(x: f32) -> f32 {
     let mut i = x as i32;
     if x < 0.0 && x != i as f32 {
-        i -= 1;
+        i = i.saturating_sub(1);
     }
     i as f32
 }
-- 
2.43.0


From 0dd921949bd55bd7f7561fc140327171226b6b18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 12/20] fix: illegal ASTC blocks decode to the error colour
 instead of panicking

---
 src/astc.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 4aba93b..94aad5a 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+// returns false if the block is not a legal ASTC block
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,13 +669,21 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
-
     block_data.endpoint_value_num = 0;
 
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
 
+    // the endpoints need at least the range 0..=5
+    let min_endpoint_bits = (block_data.endpoint_value_num * 13).div_ceil(5);
+    if block_data.endpoint_value_num > 18
+        || config_bits + weight_bits as usize + min_endpoint_bits > 128
+    {
+        return false;
+    }
+
+    let remain_bits = 128 - config_bits - weight_bits as usize;
+
     let mut endpoint_bits: usize;
     for i in 0..CEM_TABLE_A.len() {
         match CEM_TABLE_A[i] {
@@ -686,6 +704,8 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
             break;
         }
     }
+
+    true
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1781,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From 4adf477220e948342b77c636a32802d199702f96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 13/20] fix: Python decode_astc panicked on success

---
 bindings/python/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index e09336c..1d4b4bb 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -131,15 +131,18 @@ pub fn decode_astc<'a>(
 ) -> PyResult<&'a PyBytes> {
     PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
         let image_u32 = unsafe { std::mem::transmute(image) };
-        texture2ddecoder::decode_astc(
+        match texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
             height,
             block_width,
             block_height,
             image_u32,
-        )
-        .unwrap_err();
-        Ok(())
+        ) {
+            Ok(_) => Ok(()),
+            Err(e) => Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(
+                e.to_string(),
+            )),
+        }
     })
 }
-- 
2.43.0


From c63783632cbdd2f465e4383c8d286437480e0ee4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 14/20] fix: Python bindings passed a pixel buffer four times
 its real length

---
 bindings/python/src/lib.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 1d4b4bb..7b01346 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,13 +56,30 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+// size in bytes of the decoded image
+fn image_size(width: usize, height: usize) -> PyResult<usize> {
+    width
+        .checked_mul(height)
+        .and_then(|num_pixels| num_pixels.checked_mul(4))
+        .ok_or_else(|| {
+            PyErr::new::<pyo3::exceptions::PyValueError, _>("The image is too big!")
+        })
+}
+
+// view the image buffer as pixels of four bytes
+fn as_pixels(image: &mut [u8]) -> &mut [u32] {
+    // SAFETY: every bit pattern is a valid u32, align_to_mut() never leaves the buffer, and the
+    // decoders reject the image if the buffer should ever be misaligned and lose pixels
+    unsafe { image.align_to_mut::<u32>().1 }
+}
+
 macro_rules! pybind {
     ($name:expr) => {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
-                PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
-                    let image_u32 = unsafe { std::mem::transmute(image) };
+                PyBytes::new_with(py, image_size(width, height)?, |image: & mut[u8]|{
+                    let image_u32 = as_pixels(image);
                     match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
                         Ok(_) => {}
                         Err(e) => return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
@@ -129,8 +146,8 @@ pub fn decode_astc<'a>(
     block_width: usize,
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
-    PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
-        let image_u32 = unsafe { std::mem::transmute(image) };
+    PyBytes::new_with(py, image_size(width, height)?, |image: &mut [u8]| {
+        let image_u32 = as_pixels(image);
         match texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
-- 
2.43.0


From 5abb6cbd11af5ce1bb798c47c4dea494441837af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 15/20] fix: BC6H unsigned endpoints saturate at the largest
 value, not at half

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 4551902..3615cfa 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -304,7 +304,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value == (1 << _endpoint_bits) - 1 {
         return u16::MAX;
     }
 
-- 
2.43.0


From 293de63b1ba49e6ecd9108435e5d0f455e5da620 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 16/20] fix: BC6H signed endpoints are two's complement numbers

---
 src/bcn/bc6.rs | 68 ++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 3615cfa..c3b54f1 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -272,51 +272,52 @@ static S_BC6H_MODE_INFO: [Bc6hModeInfo; 32] = [
     },
 ];
 
-fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
-    let max_value: u16 = 1 << (_endpoint_bits - 1);
-
+fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> i32 {
     if _signed {
+        // sign extended to 16 bits
+        let value = _value as i16 as i32;
+
         if _endpoint_bits >= 16 {
-            return _value;
+            return value;
         }
 
-        let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
-
-        let unq: u16;
+        let max_value: i32 = (1 << (_endpoint_bits - 1)) - 1;
+        let magnitude = value.abs();
 
-        if 0 == _value {
-            unq = 0;
-        } else if _value >= max_value - 1 {
-            unq = 0x7fff;
+        let unq = if 0 == magnitude {
+            0
+        } else if magnitude >= max_value {
+            0x7fff
         } else {
-            unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
-        }
+            ((magnitude << 15) + 0x4000) >> (_endpoint_bits - 1)
+        };
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if value < 0 { -unq } else { unq };
     }
 
+    let value = _value as i32;
+
     if _endpoint_bits >= 15 {
-        return _value;
+        return value;
     }
 
-    if 0 == _value {
+    if 0 == value {
         return 0;
     }
 
-    if _value == (1 << _endpoint_bits) - 1 {
-        return u16::MAX;
+    if value == (1 << _endpoint_bits) - 1 {
+        return 0xffff;
     }
 
-    ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16
+    ((value << 15) + 0x4000) >> (_endpoint_bits - 1)
 }
 
-fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
+fn finish_unquantize(_value: i32, _signed: bool) -> u16 {
     if _signed {
-        let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        let sign: u16 = if _value < 0 { 0x8000 } else { 0 };
+        ((_value.abs() * 31) >> 5) as u16 | sign
     } else {
-        ((_value as u32 * 31) >> 6) as u16
+        ((_value * 31) >> 6) as u16
     }
 }
 
@@ -689,11 +690,9 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
     });
 
-    (0..num_subsets * 2).for_each(|ii| {
-        ep_r[ii] = unquantize(ep_r[ii], signed, mi.endpoint_bits);
-        ep_g[ii] = unquantize(ep_g[ii], signed, mi.endpoint_bits);
-        ep_b[ii] = unquantize(ep_b[ii], signed, mi.endpoint_bits);
-    });
+    let ep_r: [i32; 4] = ep_r.map(|ep| unquantize(ep, signed, mi.endpoint_bits));
+    let ep_g: [i32; 4] = ep_g.map(|ep| unquantize(ep, signed, mi.endpoint_bits));
+    let ep_b: [i32; 4] = ep_b.map(|ep| unquantize(ep, signed, mi.endpoint_bits));
 
     let partition_set_idx = if mi.partition_bits != 0 {
         bit.read(5) as usize
@@ -723,24 +722,21 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let num = index_bits - anchor as usize;
             let index = bit.read(num) as usize;
 
-            let fc = factors[index] as u32;
+            let fc = factors[index] as i32;
             let fca = 64 - fc;
             let fcb = fc;
 
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                (ep_r[subset_index] * fca + ep_r[subset_index + 1] * fcb + 32) >> 6,
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                (ep_g[subset_index] * fca + ep_g[subset_index + 1] * fcb + 32) >> 6,
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                (ep_b[subset_index] * fca + ep_b[subset_index + 1] * fcb + 32) >> 6,
                 signed,
             );
 
-- 
2.43.0


From b15cf66c1ba2bcca588e0ea9f52fcf33f3b7c54f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 17/20] fix: reserved BC6H modes decode to opaque black

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index c3b54f1..3202b37 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -351,7 +351,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         mode |= (bit.read(3) << 2) as u8;
 
         if 0 == S_BC6H_MODE_INFO[mode as usize].endpoint_bits {
-            outbuf[0..16].fill(0);
+            outbuf[0..16].fill(color(0, 0, 0, 255));
             return;
         }
 
-- 
2.43.0


From fdf1bff1e1087b93c31c7ef819677d24ff1b21b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:10 +0000
Subject: [PATCH 18/20] fix: ASTC HDR endpoint offsets are two's complement
 numbers

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 94aad5a..0a57214 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -864,31 +864,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 |= !0x7f;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 |= !0x7f;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 |= !0x3f;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 |= !0x3f;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 |= !0x1f;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 |= !0x1f;
             }
         }
     }
-- 
2.43.0


From 5bb8d9703b342de571a37e07e42f903fd017b844 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:45 +0000
Subject: [PATCH 19/20] fix: crunched rows of Unity files start at their own
 place, without unsigned underflow

---
 src/unitycrunch/crn_unpacker.rs | 42 ++++++++++++++-------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..205d85f 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -639,16 +639,16 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos = (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -701,7 +701,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -717,7 +716,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -725,9 +724,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos = (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -809,7 +808,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -824,16 +822,16 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos = (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -889,7 +887,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -904,7 +901,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -912,9 +909,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos = (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -999,7 +996,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1014,7 +1010,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1022,9 +1018,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos = (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1114,7 +1110,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1130,7 +1125,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1140,9 +1135,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos = (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1270,7 +1265,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
-- 
2.43.0


From fdcb7c067819e0a75c0b43cab651e41ad5a82464 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:59 +0000
Subject: [PATCH 20/20] fix: each crunched face starts at its own place

---
 src/crunch/crn_unpacker.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 750db72..55dda30 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -494,8 +494,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -663,8 +663,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -791,8 +791,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -892,8 +892,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
-- 
2.43.0

