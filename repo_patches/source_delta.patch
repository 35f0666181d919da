From f5f435a6f563d05afbffeff8a45b1a47e80bd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 01/39] Verification hooks: entropy coder stand-ins and state
 accessors behind cfg(laz_verif*)

---
 src/decoders.rs | 13 +++++++++++++
 src/encoders.rs | 18 ++++++++++++++++++
 src/lib.rs      | 38 ++++++++++++++++++++++++++++++++++++++
 src/models.rs   | 41 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 110 insertions(+)

diff --git a/src/decoders.rs b/src/decoders.rs
index d557ad9..2d01ef8 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -320,3 +320,16 @@ impl<T: Read> ArithmeticDecoder<T> {
         self.in_stream
     }
 }
+
+#[cfg(laz_verif)]
+impl<T: Read> ArithmeticDecoder<T> {
+    /// The current (value, length)
+    pub fn verif_interval(&self) -> (u32, u32) {
+        (self.value, self.length)
+    }
+
+    pub fn verif_set_interval(&mut self, value: u32, length: u32) {
+        self.value = value;
+        self.length = length;
+    }
+}
diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..33b6b62 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -430,3 +430,21 @@ unsafe impl<T: Write + Send> Send for ArithmeticEncoder<T> {}
 /// SAFETY: *u8 is not Sync by default, however the way its used here
 /// it is safe to use it as Sync.
 unsafe impl<T: Write + Sync> Sync for ArithmeticEncoder<T> {}
+
+#[cfg(laz_verif)]
+impl<T: Write> ArithmeticEncoder<T> {
+    /// The current interval: (base, length)
+    pub fn verif_interval(&self) -> (u32, u32) {
+        (self.base, self.length)
+    }
+
+    pub fn verif_set_interval(&mut self, base: u32, length: u32) {
+        self.base = base;
+        self.length = length;
+    }
+
+    /// The bytes buffered since the buffer last started over
+    pub fn verif_pending(&self) -> &[u8] {
+        &self.out_buffer[..self.out_byte as usize - self.out_buffer.as_ptr() as usize]
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7304d16..5bcddc1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,8 @@
 //! - [`par_compress_buffer`]
 //! - [`par_decompress_buffer`]
 
+#![allow(unexpected_cfgs)]
+
 pub use errors::LasZipError;
 pub use las::selective::DecompressionSelection;
 #[cfg(feature = "parallel")]
@@ -120,15 +122,51 @@ pub use laszip::{
     LazDecompressor, LazItem, LazItemRecordBuilder, LazItemType, LazVlr, LazVlrBuilder,
 };
 
+#[cfg(not(laz_verif_ghost_int))]
 pub mod compressors;
+#[cfg(not(laz_verif_ghost))]
 pub mod decoders;
+#[cfg(not(laz_verif_ghost_int))]
 pub mod decompressors;
+#[cfg(not(laz_verif_ghost))]
 pub mod encoders;
 pub mod laszip;
+#[cfg(not(laz_verif_ghost))]
 pub mod models;
 pub mod packers;
 pub mod record;
 
+// Verification builds only (`--cfg laz_verif...`): a pass-through model of the entropy coder
+// takes the place of the real one, found in the directory named by LAZ_VERIF_DIR.
+#[cfg(laz_verif_ghost)]
+pub mod verif_api {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/api.rs"));
+}
+#[cfg(laz_verif_ghost)]
+pub mod encoders {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/encoders.rs"));
+}
+#[cfg(all(laz_verif_ghost, not(laz_verif_havoc)))]
+pub mod decoders {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/decoders.rs"));
+}
+#[cfg(all(laz_verif_ghost, laz_verif_havoc))]
+pub mod decoders {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/decoders_havoc.rs"));
+}
+#[cfg(laz_verif_ghost)]
+pub mod models {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/models.rs"));
+}
+#[cfg(laz_verif_ghost_int)]
+pub mod compressors {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/compressors.rs"));
+}
+#[cfg(laz_verif_ghost_int)]
+pub mod decompressors {
+    include!(concat!(env!("LAZ_VERIF_DIR"), "/decompressors.rs"));
+}
+
 mod byteslice;
 pub mod errors;
 pub mod las;
diff --git a/src/models.rs b/src/models.rs
index 704b9c9..7688b9a 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -242,3 +242,44 @@ impl<'a> ArithmeticModelBuilder<'a> {
         ArithmeticModel::new(self.symbols, self.compress, self.init_table)
     }
 }
+
+/// Everything an [`ArithmeticModel`] knows, for verification builds
+#[cfg(laz_verif)]
+pub struct VerifModel<'a> {
+    pub distribution: &'a mut [u32],
+    pub symbol_count: &'a mut [u32],
+    pub decoder_table: &'a mut [u32],
+    pub total_count: &'a mut u32,
+    pub update_cycle: &'a mut u32,
+    pub symbols_until_update: &'a mut u32,
+    pub table_shift: u32,
+}
+
+#[cfg(laz_verif)]
+impl ArithmeticModel {
+    pub fn verif_fields(&mut self) -> VerifModel<'_> {
+        VerifModel {
+            distribution: &mut self.distribution,
+            symbol_count: &mut self.symbol_count,
+            decoder_table: &mut self.decoder_table,
+            total_count: &mut self.total_count,
+            update_cycle: &mut self.update_cycle,
+            symbols_until_update: &mut self.symbols_until_update,
+            table_shift: self.table_shift,
+        }
+    }
+}
+
+#[cfg(laz_verif)]
+impl ArithmeticBitModel {
+    /// [bit_0_count, bit_count, bit_0_prob, bits_until_update, update_cycle]
+    pub fn verif_fields(&mut self) -> [&mut u32; 5] {
+        [
+            &mut self.bit_0_count,
+            &mut self.bit_count,
+            &mut self.bit_0_prob,
+            &mut self.bits_until_update,
+            &mut self.update_cycle,
+        ]
+    }
+}
-- 
2.43.0


From b1019684ac8d7cd658ae7855a9508842075148db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 02/39] fix: RGB v1 decompressor kept stale bits of the
 previous upper color byte

---
 src/las/rgb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..a1a0315 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
-- 
2.43.0


From a1e278d4afb96237c7ce4eb52c7a14f25839599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 03/39] fix: RGB v1 compressor used the green context for the
 upper blue byte

---
 src/las/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index a1a0315..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From 6a5ef54c9d69a5d089f6fb2b90616fe028b967c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 04/39] fix: GPS time coders overflowed (panic in debug builds)
 on times that are far apart

---
 src/las/gps.rs | 63 +++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..d29ca9d 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -99,13 +99,13 @@ impl Add<i64> for GpsTime {
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -578,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -889,10 +894,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -947,10 +952,10 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             self.ic_gps_time.decompress(
                                 &mut decoder,
                                 *self
@@ -1089,10 +1094,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
-- 
2.43.0


From 16e461b58a98dd407e3ab79a425c159400564fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 05/39] fix: point10 v1 coders overflowed (panic in debug
 builds) on distant coordinates

---
 src/las/point0.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
-- 
2.43.0


From 8b62be81e542098d2a952f4bc4236222b4d79f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 06/39] fix: wavepacket coders overflowed (panic in debug
 builds) on distant offsets

---
 src/las/wavepacket.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..932609d 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,9 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 = current_item
+                .offset
+                .wrapping_sub(self.last_wavepacket.offset) as i64;
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
-- 
2.43.0


From 6f5634b4f120f2203527b467a6ca2b58ca927cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 07/39] fix: wavepacket offset was lost when the previous
 packet size is 2^31 or more

---
 src/las/wavepacket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 932609d..db90506 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -295,7 +295,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
-- 
2.43.0


From 65beda48cc1c5fcb704b8f159e0f56958fa36414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 08/39] fix: point14 compressor lost the sign of a zero GPS
 time

-0.0 and 0.0 compare equal as floats, so a change from one to the other was not
coded; compare the bits, as is stored in the file.
---
 src/las/point6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..cf0ce50 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1665,7 +1665,7 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            let gps_time_changed = last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
-- 
2.43.0


From a38cb6121fb7644b6e16c9f3c4857f2906aa3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:00 +0000
Subject: [PATCH 09/39] fix: wavepacket v3/v4 compressor dropped a change that
 only flips the sign of a zero

The change detection compared the waveform floats as floats, for which 0.0 and -0.0
are equal; compare the stored bytes.
---
 src/las/wavepacket.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index db90506..7418f73 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -617,7 +617,6 @@ mod v3_v4 {
             current_point: &[u8],
             context: &mut usize,
         ) -> std::io::Result<()> {
-            let current_wavepacket = LasWavepacket::unpack_from(current_point);
             // Index of the last item used as prediction
             let mut last_idx = self.last_context;
 
@@ -636,7 +635,10 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            // Compare the bytes, as the floats 0.0 and -0.0 are equal
+            let mut last_bytes = [0u8; LasWavepacket::SIZE];
+            self.last_wavepackets[last_idx].pack_into(&mut last_bytes);
+            if last_bytes[..] != current_point[..LasWavepacket::SIZE] {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From 0ba7725696c66236c01985b7d4bc9b4a31217da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 10/39] fix: point14 GPS time coders overflowed (panic in debug
 builds) on times that are far apart

---
 src/las/point6.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index cf0ce50..06ac78b 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
-- 
2.43.0


From db8ee25fbb00b99652bf82df1faeaac87795933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 11/39] fix: seek() landed on the wrong point in files with
 variable-size chunks

---
 src/laszip/sequential/decompression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..6256226 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -202,7 +202,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
             self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            let points_before_chunk = chunk_table[..chunk_of_point]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
-- 
2.43.0


From 9af08813d3d585fdd8402333bab3e944aed13511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 12/39] fix: seek() could read wrong points at the end of the
 last chunk, and stale ones behind it

---
 src/laszip/sequential/decompression.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 6256226..dc2278b 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -234,9 +234,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
-                        self.get_mut().seek(SeekFrom::End(0))?;
-                        return Ok(());
+                    // Being exactly at the chunk table is fine: the last points
+                    // may need no more bytes than those already read
+                    if current_pos > offset_to_chunk_table {
+                        return self.seek_to_end();
                     }
                 }
             } else {
@@ -252,13 +253,20 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             // the requested point it out of bounds (ie higher than the number of
             // points compressed)
 
-            // Seek to the end so that the next call to decompress causes en error
-            // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
-            self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            self.seek_to_end()?;
         }
         Ok(())
     }
 
+    /// Seek to the end so that the next call to decompress causes en error
+    /// like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
+    fn seek_to_end(&mut self) -> crate::Result<()> {
+        // The decoder (or the layers) may still hold data of the chunk
+        self.reset_for_new_chunk();
+        self.get_mut().seek(SeekFrom::End(0))?;
+        Ok(())
+    }
+
     /// Returns the vlr used.
     pub fn vlr(&self) -> &LazVlr {
         &self.vlr
-- 
2.43.0


From 271cc4e072a4310a654ff77083f98799dfec5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 13/39] fix: reading behind the last variable-size chunk
 panicked

---
 src/laszip/sequential/decompression.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index dc2278b..57b7f7a 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -144,6 +144,15 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if self.chunk_points_read == 0 && self.vlr.uses_variable_size_chunks() {
+            if let Some(seek_info) = &self.seek_info {
+                if self.current_chunk >= seek_info.chunk_table.len() {
+                    // What follows the last chunk are not points
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
+                }
+            }
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
-- 
2.43.0


From 952f3b67c998863732a640cff01d4300f622379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 14/39] fix: empty chunks were written, and could not be read
 back or broke the file

---
 src/laszip/sequential/compression.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..44dd197 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -138,8 +138,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
-        self.record_compressor.done()?;
-        self.update_chunk_table()?;
+        if self.current_chunk_entry.point_count > 0 {
+            self.record_compressor.done()?;
+            self.update_chunk_table()?;
+        }
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
@@ -225,6 +227,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // There is nothing to finish, an empty chunk could not be read back
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From e37d1b65dad28968e0148448643f64c2b2b98120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 15/39] fix: appending to a file without points overflowed
 (panic in debug builds)

---
 src/laszip/sequential/appender.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..a986851 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -40,7 +40,10 @@ where
     let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
-    if !chunk_table.is_empty() {
+    if point_count == 0 {
+        // There is nothing to keep
+        chunk_table.truncate(0);
+    } else if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
             .chunk_of_point(point_count - 1)
             .unwrap_or_else(|| {
-- 
2.43.0


From f72daf7902caa1df0f5dcc8e6833821aea222516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 16/39] fix: chunk table counts of 2^31 and more were read as
 huge values

---
 src/laszip/chunk_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..b428f96 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -159,17 +159,18 @@ impl ChunkTable {
                 byte_count: 0,
             };
             if contains_point_count {
-                current_entry.point_count = u64::from_le(decompressor.decompress(
+                // The counts are unsigned 32 bits values, they must not be sign extended
+                current_entry.point_count = u64::from(decompressor.decompress(
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32);
             }
-            current_entry.byte_count = u64::from_le(decompressor.decompress(
+            current_entry.byte_count = u64::from(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From ece3bc5e19ce462a3b95d19c128fda82313833aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 17/39] fix: a corrupt number of chunks made reading the chunk
 table abort

---
 src/laszip/chunk_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index b428f96..f98d1d2 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -151,7 +151,8 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks as usize);
+        // The number of chunks cannot be trusted before that many entries were actually read
+        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks.min(1 << 16) as usize);
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
-- 
2.43.0


From c7e738734c74e49fe503662070f31a33a4b408c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 18/39] fix: variable-size layered chunks from a non seekable
 source stopped at the first chunk

---
 src/record.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..953c9a6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -351,6 +351,8 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     fields_sizes: Vec<usize>,
     record_size: usize,
     context: usize,
+    // Number of points in the current chunk
+    record_count: u32,
 }
 
 impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
@@ -364,6 +366,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             fields_sizes: vec![],
             record_size: 0,
             context: 0,
+            record_count: 0,
         }
     }
 
@@ -454,6 +457,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        u64::from(self.record_count)
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
         let decompressors_and_data =
             self.field_decompressors
@@ -472,7 +479,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = self.input.read_u32::<LittleEndian>()?;
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
-- 
2.43.0


From d679d2798d1be7cf5a32a748395d6dbf9d64d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 19/39] fix: data without a readable chunk table could not be
 decompressed from a seekable source

---
 src/laszip/sequential/decompression.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 57b7f7a..efedb4e 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -74,6 +74,8 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        // Where to go back to when the chunk table cannot be read (if the source is seekable)
+        let start_pos = source.seek(SeekFrom::Current(0)).ok();
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -90,6 +92,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         // So we _may_ still be at the start of point data,
                         // we need to skip the chunk table offset otherwise
                         // decompression won't be correct.
+                        if let Some(pos) = start_pos {
+                            source.seek(SeekFrom::Start(pos))?;
+                        }
                         let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
                         source.read_exact(&mut tmp)?;
                         None
@@ -108,6 +113,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
+                    if let Some(pos) = start_pos {
+                        source.seek(SeekFrom::Start(pos))?;
+                    }
                     let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
                     source.read_exact(&mut tmp)?;
                 }
-- 
2.43.0


From 2f775806a136525495ef8732ea5800fb1c54890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 20/39] fix: the appender recorded a wrong size for the first
 chunk it wrote

---
 src/laszip/sequential/compression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 44dd197..952e043 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -101,6 +101,12 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
             self.finish_current_chunk_impl()?;
         }
 
+        if self.current_chunk_entry.point_count == 0 {
+            // When appending, the first chunk does not start right after the offset
+            let stream = self.record_compressor.get_mut();
+            self.chunk_start_pos = stream.seek(SeekFrom::Current(0))?;
+        }
+
         self.record_compressor.compress_next(&input)?;
         self.current_chunk_entry.point_count += 1;
         Ok(())
-- 
2.43.0


From 7bd2c1b928f172f4781874074e9b0980610aae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 21/39] fix: reading behind the last fixed-size chunk returned
 points made of the chunk table

---
 src/laszip/sequential/decompression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index efedb4e..086ff53 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -152,7 +152,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
-        if self.chunk_points_read == 0 && self.vlr.uses_variable_size_chunks() {
+        if self.chunk_points_read == 0 {
             if let Some(seek_info) = &self.seek_info {
                 if self.current_chunk >= seek_info.chunk_table.len() {
                     // What follows the last chunk are not points
-- 
2.43.0


From 4b75cf76d7dba35d5ff0cfbc30f15328459462b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 22/39] fix: the sum of the LazItem sizes overflowed behind
 65535

---
 src/laszip/vlr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..ab1c76a 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -513,7 +513,7 @@ impl LazVlr {
     /// expected size of points (uncompressed).
     #[inline]
     pub fn items_size(&self) -> u64 {
-        u64::from(self.items.iter().map(|item| item.size).sum::<u16>())
+        self.items.iter().map(|item| u64::from(item.size)).sum()
     }
 
     /// returns how many bytes a decompressed chunk contains
-- 
2.43.0


From a2ba186fe300c08b465150b46a9a3276a90d5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 23/39] fix: a LazItem whose size in the file contradicts its
 type made decompression panic

---
 src/laszip/vlr.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index ab1c76a..652db92 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -176,6 +176,13 @@ impl LazItem {
         let size = src.read_u16::<LittleEndian>()?;
         let item_type = LazItemType::from_u16(item_type, size)
             .ok_or_else(|| LasZipError::UnknownLazItem(item_type))?;
+        if item_type.size() != size {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                format!("LazItem {:?} cannot have a size of {}", item_type, size),
+            )
+            .into());
+        }
         Ok(Self {
             item_type,
             size,
-- 
2.43.0


From 97a0df268a1da031239e4c2231b5df7b5b605037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 24/39] fix: a LAZ VLR without items, or only empty ones, made
 decompression panic

---
 src/laszip/details.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 9448d03..2405402 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -6,13 +6,27 @@ use crate::record::{
 };
 use crate::{LasZipError, LazItem};
 
+/// The first item, which tells how points are stored
+///
+/// Items read from a file may be missing, or not hold any data
+fn first_item_of(items: &[LazItem]) -> crate::Result<&LazItem> {
+    items
+        .first()
+        .filter(|_| items.iter().any(|item| item.size != 0))
+        .ok_or_else(|| {
+            std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "At least one non-empty LazItem is needed to compress or decompress points",
+            )
+            .into()
+        })
+}
+
 pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     input: R,
 ) -> crate::Result<Box<dyn RecordDecompressor<R> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordDecompressor");
+    let first_item = first_item_of(items)?;
 
     let mut decompressor = match first_item.version {
         1 | 2 => {
@@ -39,9 +53,7 @@ pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     output: W,
 ) -> crate::Result<Box<dyn RecordCompressor<W> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordCompressor");
+    let first_item = first_item_of(items)?;
 
     let mut compressor = match first_item.version {
         1 | 2 => {
-- 
2.43.0


From 666c5669a7270bf3970a6a3c5c04f7e5455b2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 25/39] fix: point-wise compressed data whose VLR has no chunk
 size made decompression panic

---
 src/laszip/sequential/decompression.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 086ff53..5e6f83c 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -165,7 +165,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.chunk_points_read += 1;
 
         if self.chunk_points_read == 1 {
-            if self.vlr.uses_variable_size_chunks() {
+            if self.vlr.compressor == CompressorType::PointWise {
+                // The chunk size has no meaning, there is only one chunk
+                self.num_points_in_chunk = u64::from(u32::MAX);
+            } else if self.vlr.uses_variable_size_chunks() {
                 self.num_points_in_chunk = match (&self.seek_info, self.vlr.compressor) {
                     (Some(seek_info), _) => seek_info.chunk_table[self.current_chunk].point_count,
                     (None, CompressorType::LayeredChunked) => {
@@ -177,8 +180,6 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         panic!("Variable-size chunks, but no chunk table");
                     }
                 }
-            } else if self.vlr.compressor == CompressorType::PointWise {
-                self.num_points_in_chunk = u64::from(u32::MAX);
             } else {
                 self.num_points_in_chunk = u64::from(self.vlr.chunk_size());
             }
-- 
2.43.0


From 24805c96c86e731256a31203bcc3badbc76fab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 26/39] fix: the parallel compressor wrote empty chunks, which
 could not be read back

---
 src/laszip/parallel/compression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..6bcba06 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -344,6 +344,10 @@ where
     let point_size = laz_vlr.items_size() as usize;
     for chunk_result in chunks {
         let (input_size, compressed_data) = chunk_result?;
+        if input_size == 0 {
+            // An empty chunk could not be read back
+            continue;
+        }
         let point_count = if laz_vlr.uses_variable_size_chunks() {
             (input_size / point_size) as u64
         } else {
-- 
2.43.0


From 8a9c916d0978ba11a4acf6ca4cd49f83bcb967e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 27/39] fix: ParLasZipAppender panicked on files with
 variable-size chunks

---
 src/laszip/parallel/compression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 6bcba06..b4e7ea7 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -240,7 +240,11 @@ impl<W: Write + Seek + Send + Sync> crate::LazCompressor for ParLasZipCompressor
     }
 
     fn compress_many(&mut self, points: &[u8]) -> crate::Result<()> {
-        ParLasZipCompressor::compress_many(self, points)?;
+        if self.vlr.uses_variable_size_chunks() {
+            self.compress_chunks(rayon::iter::once(points))?;
+        } else {
+            ParLasZipCompressor::compress_many(self, points)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From e00e1f3edabff13e2ab1f37e359c1fca0bbd9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 28/39] fix: ParLasZipDecompressor panicked when more points
 than there are were requested

---
 src/laszip/parallel/decompression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..2d0e85f 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -141,9 +141,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
 
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
+        if num_points < num_requested_points_left {
+            return Err(LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "more points requested than there are",
+            )));
+        }
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
-- 
2.43.0


From 306f4b3e4f0c425c43cc90474dc7dfe35e754056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 29/39] fix: parallel seek() was wrong with variable-size
 chunks, behind the end, and with a selection

---
 src/laszip/parallel/decompression.rs | 30 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 2d0e85f..48efe22 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -226,6 +226,8 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         let (chunk_of_point, byte_offset) = match chunk_info {
             Some(v) => v,
             None => {
+                // No chunk is left to be read
+                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 let _ = self.source.seek(SeekFrom::End(0))?;
                 return Ok(());
             }
@@ -235,7 +237,8 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         self.internal_buffer
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+        self.source.read_exact(&mut self.internal_buffer)?;
+        self.last_chunk_read = chunk_of_point as isize;
 
         // Completely decompress the chunk
         let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
@@ -249,26 +252,27 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
-        if is_last_chunk {
+        if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
+            // The number of points in the last chunk is unknown
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
-            let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-            if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
-                // Make the rest appear as fully consumed to
-                // force EOF error on next decompression
-                self.rest.set_position(self.rest.get_ref().len() as u64);
-                return Ok(());
-            }
+            self.rest.get_mut().truncate(num_bytes_decompressed);
         } else {
             decompressor.decompress_many(self.rest.get_mut())?;
         }
         // This effectively discard points that were
         // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-        self.rest.set_position(pos_in_chunk * self.vlr.items_size());
-        self.last_chunk_read = chunk_of_point as isize;
+        let points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+        let pos_in_rest = (index - points_before_chunk) * self.vlr.items_size();
+        // If the point does not exist, make the rest appear as fully consumed to
+        // force EOF error on next decompression
+        self.rest
+            .set_position(pos_in_rest.min(self.rest.get_ref().len() as u64));
         Ok(())
     }
 
-- 
2.43.0


From acd923b89c9d08e2048409d8b8a2ca50bafdabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 30/39] fix: par_decompress_buffer lost the end of the last
 chunk, and panicked when it is not full

---
 src/laszip/parallel/decompression.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 48efe22..c7fd45c 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -330,7 +330,9 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let compressed_points = compressed_points_data[std::mem::size_of::<i64>()..]
+        .get(..num_point_bytes)
+        .ok_or(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
     par_decompress(
         compressed_points,
         decompressed_points,
@@ -353,10 +355,22 @@ pub fn par_decompress_selective(
     selection: DecompressionSelection,
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
+    let num_bytes = chunk_table.iter().map(|entry| entry.byte_count).sum::<u64>();
+    let num_points = chunk_table.iter().map(|entry| entry.point_count).sum::<u64>();
+    if (compressed_points.len() as u64) < num_bytes
+        || decompressed_points.len() as u64 > num_points * laz_vlr.items_size()
+    {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let counts = chunk_table
-        .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+    // The last chunk may hold less points than its entry says
+    let mut num_bytes_left = decompressed_points.len();
+    let counts = chunk_table.iter().map(|entry| {
+        let count = num_bytes_left.min((entry.point_count * laz_vlr.items_size()) as usize);
+        num_bytes_left -= count;
+        count
+    });
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From 863c007c204ca900cf572fbb160075c3de0272e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 31/39] fix: the parallel compressor and decompressor panicked
 on items and chunk sizes they do not support

---
 src/laszip/parallel/compression.rs   | 23 ++++++++++++++++++++---
 src/laszip/parallel/decompression.rs |  3 +++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index b4e7ea7..92cf7cf 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -61,6 +61,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
 
+        check_can_compress(&vlr)?;
+
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
             rest.reserve(num_bytes);
@@ -126,7 +128,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
 
             debug_assert_eq!(self.rest.len(), chunk_size_in_bytes);
             // We have a complete chunk, lets compress it now
-            let chunk_size = compress_one_chunk(&self.rest, &self.vlr, &mut self.dest)?;
+            let chunk_size = compress_one_chunk(&self.rest, &self.vlr, &mut self.dest)
+                .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
             self.chunk_table.push(ChunkTableEntry {
                 point_count: self.vlr.chunk_size() as u64,
                 byte_count: chunk_size,
@@ -287,6 +290,7 @@ pub fn par_compress_buffer<W: Write + Seek>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<()> {
+    check_can_compress(laz_vlr)?;
     let start_pos = dst.seek(SeekFrom::Current(0))?;
     // Reserve the bytes for the chunk table offset that will be updated later
     dst.write_i64::<LittleEndian>(start_pos as i64)?;
@@ -310,6 +314,7 @@ pub fn par_compress<W: Write>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<ChunkTable> {
+    check_can_compress(laz_vlr)?;
     debug_assert!(!laz_vlr.uses_variable_size_chunks());
     debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
 
@@ -367,14 +372,26 @@ where
     Ok(chunk_table)
 }
 
+/// Returns an error if points or chunks described by the vlr cannot be made
+fn check_can_compress(vlr: &LazVlr) -> crate::Result<()> {
+    record_compressor_from_laz_items(vlr.items(), std::io::Cursor::new(Vec::<u8>::new()))?;
+    if vlr.chunk_size() == 0 {
+        return Err(LasZipError::IoError(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "The chunk size cannot be 0",
+        )));
+    }
+    Ok(())
+}
+
 fn compress_one_chunk<W: Write + Seek + Send + Sync>(
     chunk_data: &[u8],
     vlr: &LazVlr,
     mut dest: &mut W,
-) -> std::io::Result<u64> {
+) -> crate::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest)?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index c7fd45c..4ebd008 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -59,6 +59,8 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
+        // Fail now if the items are not supported
+        record_decompressor_from_laz_items(vlr.items(), std::io::Cursor::new(&[][..]))?;
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
         let biggest_chunk = chunk_table
@@ -320,6 +322,7 @@ pub fn par_decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<()> {
+    record_decompressor_from_laz_items(laz_vlr.items(), std::io::Cursor::new(&[][..]))?;
     debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let mut cursor = std::io::Cursor::new(compressed_points_data);
     let chunk_table = ChunkTable::read_from(&mut cursor, &laz_vlr)?;
-- 
2.43.0


From 960c91749588d4dd89eba92e9c440cc3b7195c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 32/39] fix: reading GPS times recursed once per switch between
 sequences, corrupted data overflowed the stack

---
 src/las/gps.rs    | 414 +++++++++++++++++++++++-----------------------
 src/las/point6.rs | 322 ++++++++++++++++++------------------
 2 files changed, 373 insertions(+), 363 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index d29ca9d..6231aec 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -878,180 +878,150 @@ pub mod v2 {
             let mut multi: i32;
             debug_assert!(self.common.last < 4);
             unsafe {
-                if *self
-                    .common
-                    .last_gps_time_diffs
-                    .get_unchecked(self.common.last)
-                    == 0
-                {
-                    // it the last integer difference was zero
-                    multi = decoder.decode_symbol(&mut self.common.gps_time_0_diff)? as i32;
+                // Loops when the data tells to switch to another sequence
+                loop {
+                    if *self
+                        .common
+                        .last_gps_time_diffs
+                        .get_unchecked(self.common.last)
+                        == 0
+                    {
+                        // it the last integer difference was zero
+                        multi = decoder.decode_symbol(&mut self.common.gps_time_0_diff)? as i32;
 
-                    if multi == 1 {
-                        // the difference can be represented with 32 bits
-                        *self
-                            .common
-                            .last_gps_time_diffs
-                            .get_unchecked_mut(self.common.last) =
-                            self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        *self
-                            .common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.last) += i64::from(
+                        if multi == 1 {
+                            // the difference can be represented with 32 bits
                             *self
                                 .common
                                 .last_gps_time_diffs
-                                .get_unchecked(self.common.last),
-                        );
-                        *self
-                            .common
-                            .multi_extreme_counters
-                            .get_unchecked_mut(self.common.last) = 0;
-                    } else if multi == 2 {
-                        // the difference is huge
-                        self.common.next = (self.common.next + 1) & 3;
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.next)
-                            .value = i64::from(
-                            self.ic_gps_time.decompress(
-                                &mut decoder,
-                                (self
-                                    .common
-                                    .last_gps_times
-                                    .get_unchecked(self.common.last)
-                                    .value
-                                    >> 32) as i32,
-                                8,
-                            )?,
-                        );
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.next)
-                            .value <<= 32;
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.next)
-                            .value |= i64::from(decoder.read_int()?);
-
-                        self.common.last = self.common.next;
-                        *self
-                            .common
-                            .last_gps_time_diffs
-                            .get_unchecked_mut(self.common.last) = 0;
-                        *self
-                            .common
-                            .multi_extreme_counters
-                            .get_unchecked_mut(self.common.last) = 0;
-                    } else if multi > 2 {
-                        // we switch to another sequence
-                        self.common.last = (self.common.last + multi as usize - 2) & 3;
-                        self.decompress_with(&mut decoder, buf)?;
-                    }
-                } else {
-                    multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
-
-                    if multi == 1 {
-                        *self
-                            .common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.last) += i64::from(
-                            self.ic_gps_time.decompress(
-                                &mut decoder,
+                                .get_unchecked_mut(self.common.last) =
+                                self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
+                            *self
+                                .common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.last) += i64::from(
                                 *self
                                     .common
                                     .last_gps_time_diffs
-                                    .get_unchecked(self.common.last as usize),
-                                1,
-                            )?,
-                        );
-                        *self
-                            .common
-                            .multi_extreme_counters
-                            .get_unchecked_mut(self.common.last) = 0;
-                    } else if multi < LASZIP_GPS_TIME_MULTI_UNCHANGED {
-                        let gps_time_diff: i32;
-                        if multi == 0 {
-                            gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 7)?;
+                                    .get_unchecked(self.common.last),
+                            );
                             *self
                                 .common
                                 .multi_extreme_counters
-                                .get_unchecked_mut(self.common.last) += 1;
-                            if *self
+                                .get_unchecked_mut(self.common.last) = 0;
+                        } else if multi == 2 {
+                            // the difference is huge
+                            self.common.next = (self.common.next + 1) & 3;
+                            self.common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.next)
+                                .value = i64::from(
+                                self.ic_gps_time.decompress(
+                                    &mut decoder,
+                                    (self
+                                        .common
+                                        .last_gps_times
+                                        .get_unchecked(self.common.last)
+                                        .value
+                                        >> 32) as i32,
+                                    8,
+                                )?,
+                            );
+                            self.common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.next)
+                                .value <<= 32;
+                            self.common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.next)
+                                .value |= i64::from(decoder.read_int()?);
+
+                            self.common.last = self.common.next;
+                            *self
+                                .common
+                                .last_gps_time_diffs
+                                .get_unchecked_mut(self.common.last) = 0;
+                            *self
                                 .common
                                 .multi_extreme_counters
-                                .get_unchecked(self.common.last as usize)
-                                > 3
-                            {
-                                *self
-                                    .common
-                                    .last_gps_time_diffs
-                                    .get_unchecked_mut(self.common.last) = gps_time_diff;
-                                *self
-                                    .common
-                                    .multi_extreme_counters
-                                    .get_unchecked_mut(self.common.last) = 0;
-                            }
-                        } else if multi < LASZIP_GPS_TIME_MULTI {
-                            // TODO this can be made shorter, the if only changes the context param
-                            if multi < 10 {
-                                gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
-                                    multi.wrapping_mul(
-                                        *self
-                                            .common
-                                            .last_gps_time_diffs
-                                            .get_unchecked(self.common.last),
-                                    ),
-                                    2,
-                                )?;
-                            } else {
-                                gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
-                                    multi.wrapping_mul(
-                                        *self
-                                            .common
-                                            .last_gps_time_diffs
-                                            .get_unchecked(self.common.last),
-                                    ),
-                                    3,
-                                )?;
-                            }
+                                .get_unchecked_mut(self.common.last) = 0;
+                        } else if multi > 2 {
+                            // we switch to another sequence
+                            self.common.last = (self.common.last + multi as usize - 2) & 3;
+                            continue;
                         }
-                        // < LASZIP_GPS_TIME_MULTI
-                        else if multi == LASZIP_GPS_TIME_MULTI {
-                            gps_time_diff = self.ic_gps_time.decompress(
-                                &mut decoder,
-                                multi.wrapping_mul(
+                    } else {
+                        multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
+
+                        if multi == 1 {
+                            *self
+                                .common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.last) += i64::from(
+                                self.ic_gps_time.decompress(
+                                    &mut decoder,
                                     *self
                                         .common
                                         .last_gps_time_diffs
-                                        .get_unchecked(self.common.last),
-                                ),
-                                4,
-                            )?;
+                                        .get_unchecked(self.common.last as usize),
+                                    1,
+                                )?,
+                            );
                             *self
                                 .common
                                 .multi_extreme_counters
-                                .get_unchecked_mut(self.common.last) += 1;
-                            if *self
-                                .common
-                                .multi_extreme_counters
-                                .get_unchecked_mut(self.common.last)
-                                > 3
-                            {
+                                .get_unchecked_mut(self.common.last) = 0;
+                        } else if multi < LASZIP_GPS_TIME_MULTI_UNCHANGED {
+                            let gps_time_diff: i32;
+                            if multi == 0 {
+                                gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 7)?;
                                 *self
                                     .common
-                                    .last_gps_time_diffs
-                                    .get_unchecked_mut(self.common.last) = gps_time_diff;
-                                *self
+                                    .multi_extreme_counters
+                                    .get_unchecked_mut(self.common.last) += 1;
+                                if *self
                                     .common
                                     .multi_extreme_counters
-                                    .get_unchecked_mut(self.common.last) = 0;
+                                    .get_unchecked(self.common.last as usize)
+                                    > 3
+                                {
+                                    *self
+                                        .common
+                                        .last_gps_time_diffs
+                                        .get_unchecked_mut(self.common.last) = gps_time_diff;
+                                    *self
+                                        .common
+                                        .multi_extreme_counters
+                                        .get_unchecked_mut(self.common.last) = 0;
+                                }
+                            } else if multi < LASZIP_GPS_TIME_MULTI {
+                                // TODO this can be made shorter, the if only changes the context param
+                                if multi < 10 {
+                                    gps_time_diff = self.ic_gps_time.decompress(
+                                        &mut decoder,
+                                        multi.wrapping_mul(
+                                            *self
+                                                .common
+                                                .last_gps_time_diffs
+                                                .get_unchecked(self.common.last),
+                                        ),
+                                        2,
+                                    )?;
+                                } else {
+                                    gps_time_diff = self.ic_gps_time.decompress(
+                                        &mut decoder,
+                                        multi.wrapping_mul(
+                                            *self
+                                                .common
+                                                .last_gps_time_diffs
+                                                .get_unchecked(self.common.last),
+                                        ),
+                                        3,
+                                    )?;
+                                }
                             }
-                        } else {
-                            multi = LASZIP_GPS_TIME_MULTI - multi;
-                            if multi > LASZIP_GPS_TIME_MULTI_MINUS {
+                            // < LASZIP_GPS_TIME_MULTI
+                            else if multi == LASZIP_GPS_TIME_MULTI {
                                 gps_time_diff = self.ic_gps_time.decompress(
                                     &mut decoder,
                                     multi.wrapping_mul(
@@ -1060,18 +1030,7 @@ pub mod v2 {
                                             .last_gps_time_diffs
                                             .get_unchecked(self.common.last),
                                     ),
-                                    5,
-                                )?;
-                            } else {
-                                gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
-                                    LASZIP_GPS_TIME_MULTI_MINUS.wrapping_mul(
-                                        *self
-                                            .common
-                                            .last_gps_time_diffs
-                                            .get_unchecked(self.common.last),
-                                    ),
-                                    6,
+                                    4,
                                 )?;
                                 *self
                                     .common
@@ -1092,52 +1051,97 @@ pub mod v2 {
                                         .multi_extreme_counters
                                         .get_unchecked_mut(self.common.last) = 0;
                                 }
+                            } else {
+                                multi = LASZIP_GPS_TIME_MULTI - multi;
+                                if multi > LASZIP_GPS_TIME_MULTI_MINUS {
+                                    gps_time_diff = self.ic_gps_time.decompress(
+                                        &mut decoder,
+                                        multi.wrapping_mul(
+                                            *self
+                                                .common
+                                                .last_gps_time_diffs
+                                                .get_unchecked(self.common.last),
+                                        ),
+                                        5,
+                                    )?;
+                                } else {
+                                    gps_time_diff = self.ic_gps_time.decompress(
+                                        &mut decoder,
+                                        LASZIP_GPS_TIME_MULTI_MINUS.wrapping_mul(
+                                            *self
+                                                .common
+                                                .last_gps_time_diffs
+                                                .get_unchecked(self.common.last),
+                                        ),
+                                        6,
+                                    )?;
+                                    *self
+                                        .common
+                                        .multi_extreme_counters
+                                        .get_unchecked_mut(self.common.last) += 1;
+                                    if *self
+                                        .common
+                                        .multi_extreme_counters
+                                        .get_unchecked_mut(self.common.last)
+                                        > 3
+                                    {
+                                        *self
+                                            .common
+                                            .last_gps_time_diffs
+                                            .get_unchecked_mut(self.common.last) = gps_time_diff;
+                                        *self
+                                            .common
+                                            .multi_extreme_counters
+                                            .get_unchecked_mut(self.common.last) = 0;
+                                    }
+                                }
                             }
+                            *self
+                                .common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
+                        } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
+                            self.common.next = (self.common.next + 1) & 3;
+                            self.common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.next)
+                                .value = i64::from(
+                                self.ic_gps_time.decompress(
+                                    &mut decoder,
+                                    (self
+                                        .common
+                                        .last_gps_times
+                                        .get_unchecked(self.common.last)
+                                        .value
+                                        >> 32) as i32,
+                                    8,
+                                )?,
+                            );
+                            self.common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.next)
+                                .value <<= 32;
+                            self.common
+                                .last_gps_times
+                                .get_unchecked_mut(self.common.next)
+                                .value |= i64::from(decoder.read_int()?);
+                            self.common.last = self.common.next;
+                            *self
+                                .common
+                                .last_gps_time_diffs
+                                .get_unchecked_mut(self.common.last) = 0;
+                            *self
+                                .common
+                                .multi_extreme_counters
+                                .get_unchecked_mut(self.common.last) = 0;
+                        } else if multi > LASZIP_GPS_TIME_MULTI_CODE_FULL {
+                            self.common.last = (self.common.last + multi as usize
+                                - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
+                                & 3;
+                            continue;
                         }
-                        *self
-                            .common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
-                    } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
-                        self.common.next = (self.common.next + 1) & 3;
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.next)
-                            .value = i64::from(
-                            self.ic_gps_time.decompress(
-                                &mut decoder,
-                                (self
-                                    .common
-                                    .last_gps_times
-                                    .get_unchecked(self.common.last)
-                                    .value
-                                    >> 32) as i32,
-                                8,
-                            )?,
-                        );
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.next)
-                            .value <<= 32;
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.next)
-                            .value |= i64::from(decoder.read_int()?);
-                        self.common.last = self.common.next;
-                        *self
-                            .common
-                            .last_gps_time_diffs
-                            .get_unchecked_mut(self.common.last) = 0;
-                        *self
-                            .common
-                            .multi_extreme_counters
-                            .get_unchecked_mut(self.common.last) = 0;
-                    } else if multi > LASZIP_GPS_TIME_MULTI_CODE_FULL {
-                        self.common.last = (self.common.last + multi as usize
-                            - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
-                            & 3;
-                        self.decompress_with(&mut decoder, buf)?;
                     }
+                    break;
                 }
                 self.common
                     .last_gps_times
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 06ac78b..99027ef 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -687,151 +687,123 @@ mod v3_v4 {
 
     impl<const VERSION: usize> LasPoint6DecompressorImpl<VERSION> {
         fn read_gps_time(&mut self) -> std::io::Result<()> {
-            let the_context = &mut self.contexts[self.current_context];
+            // Loops when the data tells to switch to another sequence
+            loop {
+                let the_context = &mut self.contexts[self.current_context];
 
-            let mut multi: i32;
-            if the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] == 0 {
-                multi = self
-                    .decoders
-                    .gps_time
-                    .decode_symbol(&mut the_context.models.gps_time_no_diff)?
-                    as i32;
-                if multi == 0 {
-                    // The difference can be represented with 32 bits
-                    the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] =
-                        the_context.decompressors.gps_time.decompress(
-                            &mut self.decoders.gps_time,
-                            0,
-                            0,
-                        )?;
-                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last] +=
-                        i64::from(
-                            the_context.gps_sequences.last_gps_diffs
-                                [the_context.gps_sequences.last],
-                        );
-                    the_context.gps_sequences.multi_extreme_counter
-                        [the_context.gps_sequences.last] = 0;
-                } else if multi == 1 {
-                    // Difference is huge
-                    the_context.gps_sequences.next = (the_context.gps_sequences.next + 1) & 3;
-                    let last_gps_time = the_context.gps_sequences.last_gps_times
-                        [the_context.gps_sequences.last]
-                        .value;
-                    let next_gps_time = &mut the_context.gps_sequences.last_gps_times
-                        [the_context.gps_sequences.next];
-
-                    next_gps_time.value =
-                        i64::from(the_context.decompressors.gps_time.decompress(
-                            &mut self.decoders.gps_time,
-                            (last_gps_time >> 32) as i32,
-                            8,
-                        )?);
-                    next_gps_time.value <<= 32;
-                    next_gps_time.value |= i64::from(self.decoders.gps_time.read_int()?);
-                    the_context.gps_sequences.last = the_context.gps_sequences.next;
-                    the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] = 0;
-                    the_context.gps_sequences.multi_extreme_counter
-                        [the_context.gps_sequences.last] = 0;
-                } else {
-                    // We switch to another sequence
-                    the_context.gps_sequences.last =
-                        (the_context.gps_sequences.last + multi as usize - 1) & 3;
-                    self.read_gps_time()?;
-                }
-            } else {
-                multi = self
-                    .decoders
-                    .gps_time
-                    .decode_symbol(&mut the_context.models.gps_time_multi)?
-                    as i32;
-                if multi == 1 {
-                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last] +=
-                        i64::from(the_context.decompressors.gps_time.decompress(
-                            &mut self.decoders.gps_time,
-                            the_context.gps_sequences.last_gps_diffs
-                                [the_context.gps_sequences.last],
-                            1,
-                        )?);
-                    the_context.gps_sequences.multi_extreme_counter
-                        [the_context.gps_sequences.last] = 0;
-                } else if multi < LASZIP_GPS_TIME_MULTI_CODE_FULL {
-                    let gps_time_diff: i32;
+                let mut multi: i32;
+                if the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] == 0 {
+                    multi = self
+                        .decoders
+                        .gps_time
+                        .decode_symbol(&mut the_context.models.gps_time_no_diff)?
+                        as i32;
                     if multi == 0 {
-                        gps_time_diff = the_context.decompressors.gps_time.decompress(
-                            &mut self.decoders.gps_time,
-                            0,
-                            7,
-                        )?;
-                        the_context.gps_sequences.multi_extreme_counter
-                            [the_context.gps_sequences.last] += 1;
-                        if the_context.gps_sequences.multi_extreme_counter
-                            [the_context.gps_sequences.last]
-                            > 3
-                        {
-                            the_context.gps_sequences.last_gps_diffs
-                                [the_context.gps_sequences.last] = gps_time_diff;
-                            the_context.gps_sequences.multi_extreme_counter
-                                [the_context.gps_sequences.last] = 0;
-                        }
-                    } else if multi < LASZIP_GPS_TIME_MULTI {
-                        if multi < 10 {
-                            gps_time_diff = the_context.decompressors.gps_time.decompress(
-                                &mut self.decoders.gps_time,
-                                multi.wrapping_mul(
-                                    the_context.gps_sequences.last_gps_diffs
-                                        [the_context.gps_sequences.last],
-                                ),
-                                2,
-                            )?;
-                        } else {
-                            gps_time_diff = the_context.decompressors.gps_time.decompress(
+                        // The difference can be represented with 32 bits
+                        the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] =
+                            the_context.decompressors.gps_time.decompress(
                                 &mut self.decoders.gps_time,
-                                multi.wrapping_mul(
-                                    the_context.gps_sequences.last_gps_diffs
-                                        [the_context.gps_sequences.last],
-                                ),
-                                3,
+                                0,
+                                0,
                             )?;
-                        }
-                    } else if multi == LASZIP_GPS_TIME_MULTI {
-                        gps_time_diff = the_context.decompressors.gps_time.decompress(
-                            &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last] +=
+                            i64::from(
                                 the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
-                            ),
-                            4,
-                        )?;
+                            );
                         the_context.gps_sequences.multi_extreme_counter
-                            [the_context.gps_sequences.last] += 1;
-                        if the_context.gps_sequences.multi_extreme_counter
+                            [the_context.gps_sequences.last] = 0;
+                    } else if multi == 1 {
+                        // Difference is huge
+                        the_context.gps_sequences.next = (the_context.gps_sequences.next + 1) & 3;
+                        let last_gps_time = the_context.gps_sequences.last_gps_times
                             [the_context.gps_sequences.last]
-                            > 3
-                        {
-                            the_context.gps_sequences.last_gps_diffs
-                                [the_context.gps_sequences.last] = gps_time_diff;
-                            the_context.gps_sequences.multi_extreme_counter
-                                [the_context.gps_sequences.last] = 0;
-                        }
+                            .value;
+                        let next_gps_time = &mut the_context.gps_sequences.last_gps_times
+                            [the_context.gps_sequences.next];
+
+                        next_gps_time.value =
+                            i64::from(the_context.decompressors.gps_time.decompress(
+                                &mut self.decoders.gps_time,
+                                (last_gps_time >> 32) as i32,
+                                8,
+                            )?);
+                        next_gps_time.value <<= 32;
+                        next_gps_time.value |= i64::from(self.decoders.gps_time.read_int()?);
+                        the_context.gps_sequences.last = the_context.gps_sequences.next;
+                        the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] =
+                            0;
+                        the_context.gps_sequences.multi_extreme_counter
+                            [the_context.gps_sequences.last] = 0;
                     } else {
-                        multi = LASZIP_GPS_TIME_MULTI - multi;
-                        if multi > LASZIP_GPS_TIME_MULTI_MINUS {
+                        // We switch to another sequence
+                        the_context.gps_sequences.last =
+                            (the_context.gps_sequences.last + multi as usize - 1) & 3;
+                        continue;
+                    }
+                } else {
+                    multi = self
+                        .decoders
+                        .gps_time
+                        .decode_symbol(&mut the_context.models.gps_time_multi)?
+                        as i32;
+                    if multi == 1 {
+                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last] +=
+                            i64::from(the_context.decompressors.gps_time.decompress(
+                                &mut self.decoders.gps_time,
+                                the_context.gps_sequences.last_gps_diffs
+                                    [the_context.gps_sequences.last],
+                                1,
+                            )?);
+                        the_context.gps_sequences.multi_extreme_counter
+                            [the_context.gps_sequences.last] = 0;
+                    } else if multi < LASZIP_GPS_TIME_MULTI_CODE_FULL {
+                        let gps_time_diff: i32;
+                        if multi == 0 {
                             gps_time_diff = the_context.decompressors.gps_time.decompress(
                                 &mut self.decoders.gps_time,
-                                multi.wrapping_mul(
-                                    the_context.gps_sequences.last_gps_diffs
-                                        [the_context.gps_sequences.last],
-                                ),
-                                5,
+                                0,
+                                7,
                             )?;
-                        } else {
+                            the_context.gps_sequences.multi_extreme_counter
+                                [the_context.gps_sequences.last] += 1;
+                            if the_context.gps_sequences.multi_extreme_counter
+                                [the_context.gps_sequences.last]
+                                > 3
+                            {
+                                the_context.gps_sequences.last_gps_diffs
+                                    [the_context.gps_sequences.last] = gps_time_diff;
+                                the_context.gps_sequences.multi_extreme_counter
+                                    [the_context.gps_sequences.last] = 0;
+                            }
+                        } else if multi < LASZIP_GPS_TIME_MULTI {
+                            if multi < 10 {
+                                gps_time_diff = the_context.decompressors.gps_time.decompress(
+                                    &mut self.decoders.gps_time,
+                                    multi.wrapping_mul(
+                                        the_context.gps_sequences.last_gps_diffs
+                                            [the_context.gps_sequences.last],
+                                    ),
+                                    2,
+                                )?;
+                            } else {
+                                gps_time_diff = the_context.decompressors.gps_time.decompress(
+                                    &mut self.decoders.gps_time,
+                                    multi.wrapping_mul(
+                                        the_context.gps_sequences.last_gps_diffs
+                                            [the_context.gps_sequences.last],
+                                    ),
+                                    3,
+                                )?;
+                            }
+                        } else if multi == LASZIP_GPS_TIME_MULTI {
                             gps_time_diff = the_context.decompressors.gps_time.decompress(
                                 &mut self.decoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI_MINUS.wrapping_mul(
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
                                     the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
                                 ),
-                                6,
+                                4,
                             )?;
                             the_context.gps_sequences.multi_extreme_counter
                                 [the_context.gps_sequences.last] += 1;
@@ -844,40 +816,74 @@ mod v3_v4 {
                                 the_context.gps_sequences.multi_extreme_counter
                                     [the_context.gps_sequences.last] = 0;
                             }
+                        } else {
+                            multi = LASZIP_GPS_TIME_MULTI - multi;
+                            if multi > LASZIP_GPS_TIME_MULTI_MINUS {
+                                gps_time_diff = the_context.decompressors.gps_time.decompress(
+                                    &mut self.decoders.gps_time,
+                                    multi.wrapping_mul(
+                                        the_context.gps_sequences.last_gps_diffs
+                                            [the_context.gps_sequences.last],
+                                    ),
+                                    5,
+                                )?;
+                            } else {
+                                gps_time_diff = the_context.decompressors.gps_time.decompress(
+                                    &mut self.decoders.gps_time,
+                                    LASZIP_GPS_TIME_MULTI_MINUS.wrapping_mul(
+                                        the_context.gps_sequences.last_gps_diffs
+                                            [the_context.gps_sequences.last],
+                                    ),
+                                    6,
+                                )?;
+                                the_context.gps_sequences.multi_extreme_counter
+                                    [the_context.gps_sequences.last] += 1;
+                                if the_context.gps_sequences.multi_extreme_counter
+                                    [the_context.gps_sequences.last]
+                                    > 3
+                                {
+                                    the_context.gps_sequences.last_gps_diffs
+                                        [the_context.gps_sequences.last] = gps_time_diff;
+                                    the_context.gps_sequences.multi_extreme_counter
+                                        [the_context.gps_sequences.last] = 0;
+                                }
+                            }
                         }
+                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last] +=
+                            i64::from(gps_time_diff);
+                    } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
+                        the_context.gps_sequences.next = (the_context.gps_sequences.next + 1) & 3;
+                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.next] =
+                            GpsTime::from(i64::from(
+                                the_context.decompressors.gps_time.decompress(
+                                    &mut self.decoders.gps_time,
+                                    (the_context.gps_sequences.last_gps_times
+                                        [the_context.gps_sequences.last]
+                                        .value
+                                        >> 32) as i32,
+                                    8,
+                                )?,
+                            ));
+                        the_context.gps_sequences.last_gps_times
+                            [the_context.gps_sequences.next]
+                            .value <<= 32;
+                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.next]
+                            .value |= self.decoders.gps_time.read_int()? as i64;
+                        the_context.gps_sequences.last = the_context.gps_sequences.next;
+                        the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] =
+                            0;
+                        the_context.gps_sequences.multi_extreme_counter
+                            [the_context.gps_sequences.last] = 0;
+                    } else if multi >= LASZIP_GPS_TIME_MULTI_CODE_FULL {
+                        the_context.gps_sequences.last = (the_context.gps_sequences.last
+                            + multi as usize
+                            - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
+                            & 3;
+                        continue;
                     }
-                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last] +=
-                        i64::from(gps_time_diff);
-                } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
-                    the_context.gps_sequences.next = (the_context.gps_sequences.next + 1) & 3;
-                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.next] =
-                        GpsTime::from(i64::from(
-                            the_context.decompressors.gps_time.decompress(
-                                &mut self.decoders.gps_time,
-                                (the_context.gps_sequences.last_gps_times
-                                    [the_context.gps_sequences.last]
-                                    .value
-                                    >> 32) as i32,
-                                8,
-                            )?,
-                        ));
-                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.next]
-                        .value <<= 32;
-                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.next]
-                        .value |= self.decoders.gps_time.read_int()? as i64;
-                    the_context.gps_sequences.last = the_context.gps_sequences.next;
-                    the_context.gps_sequences.last_gps_diffs[the_context.gps_sequences.last] = 0;
-                    the_context.gps_sequences.multi_extreme_counter
-                        [the_context.gps_sequences.last] = 0;
-                } else if multi >= LASZIP_GPS_TIME_MULTI_CODE_FULL {
-                    the_context.gps_sequences.last = (the_context.gps_sequences.last
-                        + multi as usize
-                        - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
-                        & 3;
-                    self.read_gps_time()?;
                 }
+                return Ok(());
             }
-            Ok(())
         }
     }
 
-- 
2.43.0


From 660e10acc4d6e52dc24757a55ab18fc88447e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 33/39] fix: the integer decompressor overflowed on corrupted
 data

---
 src/decompressors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index ca99838..4c5ed38 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -193,7 +193,8 @@ impl IntegerDecompressor {
                         // translate c back into its correct interval
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            // (corrupted data can have the maximum here)
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
-- 
2.43.0


From 572a67166853fc05f731adc61e48fba4aab70f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 34/39] fix: the decoder panicked on, or truncated, raw values
 that do not fit their number of bits

---
 src/decoders.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 2d01ef8..48ba8a4 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -99,6 +99,13 @@ pub const AC_MAX_LENGTH: u32 = 0xFFFF_FFFF;
 // maximum AC interval length
 pub const AC_MIN_LENGTH: u32 = 0x0100_0000;
 
+fn corrupted_data() -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::InvalidData,
+        "The compressed data is corrupted",
+    )
+}
+
 pub struct ArithmeticDecoder<T: Read> {
     in_stream: T,
     value: u32,
@@ -227,6 +234,9 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 1;
         let sym = self.value / self.length;
+        if sym >= 2 {
+            return Err(corrupted_data());
+        }
         // update interval
         self.value -= self.length * sym;
 
@@ -247,6 +257,9 @@ impl<T: Read> ArithmeticDecoder<T> {
             // decode symbol, change length
             self.length >>= bits;
             let sym = self.value / self.length;
+            if sym >= 1 << bits {
+                return Err(corrupted_data());
+            }
 
             // update interval
             self.value -= self.length * sym;
@@ -263,12 +276,14 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 8;
         let sym = self.value / self.length;
+        if sym >= 1 << 8 {
+            return Err(corrupted_data());
+        }
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 8));
         Ok(sym as u8)
     }
 
@@ -276,12 +291,14 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 16;
         let sym = self.value / self.length;
+        if sym >= 1 << 16 {
+            return Err(corrupted_data());
+        }
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 16));
         Ok(sym as u16)
     }
 
-- 
2.43.0


From c09be54179fcdfd790a596db2fbe2fcc0b005ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 35/39] fix: the decoder panicked on data that starts with a
 value out of its interval

---
 src/decoders.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders.rs b/src/decoders.rs
index 48ba8a4..d604253 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -132,6 +132,11 @@ impl<T: Read> ArithmeticDecoder<T> {
 
         self.value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
+        if self.value >= self.length {
+            // No encoder produces this, and the tables used
+            // to find symbols do not cover such a value
+            return Err(corrupted_data());
+        }
         Ok(())
     }
 
-- 
2.43.0


From 6c859557614831e6a8d0becce9467d3e8f8ee3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 36/39] fix: up to 4 GB were allocated per layer before reading
 corrupted data

---
 src/las/utils.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/las/utils.rs b/src/las/utils.rs
index fe31a2b..b747a38 100644
--- a/src/las/utils.rs
+++ b/src/las/utils.rs
@@ -154,6 +154,28 @@ pub fn i32_quantize(n: f32) -> i32 {
     }
 }
 
+/// How many bytes are read at once from a source which may have less
+/// bytes than what we were told
+const MAX_BYTES_PER_READ: usize = 1 << 20;
+
+/// Replaces the content of `dst` with the next `num_bytes` of the `src`.
+///
+/// The bytes are not all allocated up front:
+/// in corrupted data the size can be (much) larger than what is left to read
+pub(crate) fn read_bytes_into<R: Read>(
+    dst: &mut Vec<u8>,
+    num_bytes: usize,
+    src: &mut R,
+) -> std::io::Result<()> {
+    dst.clear();
+    while dst.len() < num_bytes {
+        let start = dst.len();
+        dst.resize(num_bytes.min(start + MAX_BYTES_PER_READ), 0);
+        src.read_exact(&mut dst[start..])?;
+    }
+    Ok(())
+}
+
 /// Copies `num_bytes` from `src` into the `decoder`.
 ///
 /// `num_bytes` should be the layer size.
@@ -174,8 +196,7 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
     let inner_vec = decoder.get_mut().get_mut();
     if is_requested {
         if num_bytes > 0 {
-            inner_vec.resize(num_bytes, 0);
-            src.read_exact(&mut inner_vec[..num_bytes])?;
+            read_bytes_into(inner_vec, num_bytes, src)?;
             decoder.read_init_bytes()?;
             Ok(true)
         } else {
@@ -188,8 +209,13 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
                 // This is mainly to accommodate python bindings,
                 // where the stream might not be seekable and return an error
                 // so we instead try to read data to skip it
-                let mut unused_data = vec![0u8; num_bytes];
-                src.read_exact(unused_data.as_mut_slice())?;
+                let mut unused_data = vec![0u8; num_bytes.min(MAX_BYTES_PER_READ)];
+                let mut bytes_left = num_bytes;
+                while bytes_left > 0 {
+                    let len = bytes_left.min(MAX_BYTES_PER_READ);
+                    src.read_exact(&mut unused_data[..len])?;
+                    bytes_left -= len;
+                }
             }
         }
         Ok(false)
-- 
2.43.0


From 32145fb7a7a842bd87d9aa0000e1971fd49bf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 37/39] fix: the appender panicked when told there are more
 points than chunks can hold

---
 src/laszip/sequential/appender.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index a986851..e8eeaf5 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -72,6 +72,9 @@ where
             points_to_read = u64::from(vlr.chunk_size());
         }
 
+        // There cannot be more points than what the chunk holds
+        points_to_read = points_to_read.min(chunk_table[chunk_index].point_count);
+
         if points_to_read > 0 {
             let size_of_chunk = chunk_table[chunk_index].byte_count;
             // In PointWiseChunked, we don't know if the last chunk is complete or not
-- 
2.43.0


From 684eb00884321200d15dec8823997d5231c3be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 38/39] fix: the appender allocated what a corrupted chunk
 table says

---
 src/las/mod.rs                    |  2 +-
 src/laszip/sequential/appender.rs | 29 +++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/las/mod.rs b/src/las/mod.rs
index 734eca4..ab6b8f7 100644
--- a/src/las/mod.rs
+++ b/src/las/mod.rs
@@ -7,7 +7,7 @@ pub use pointtypes::{
 };
 
 #[macro_use]
-mod utils;
+pub(crate) mod utils;
 pub(crate) mod pointtypes;
 
 #[deprecated(
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index e8eeaf5..3a53697 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -1,8 +1,12 @@
+use crate::las::utils::read_bytes_into;
 use crate::laszip::details::record_decompressor_from_laz_items;
 use crate::laszip::{ChunkTable, CompressorType};
 use crate::{LasZipCompressor, LasZipError, LazCompressor, LazVlr};
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 
+/// How many points are decompressed at once from the chunk that will be completed
+const POINTS_PER_GROWTH: u64 = 50_000;
+
 /// `point_count` should be the current number of point in the file
 /// we are trying to prepare for appending.
 ///
@@ -79,19 +83,28 @@ where
             let size_of_chunk = chunk_table[chunk_index].byte_count;
             // In PointWiseChunked, we don't know if the last chunk is complete or not
             // so we read it, rewrite it so the compressor is in the right state to append points
-            let mut chunk_data = vec![0u8; size_of_chunk as usize];
-
-            data.read_exact(&mut chunk_data)?;
+            let mut chunk_data = vec![];
+            read_bytes_into(&mut chunk_data, size_of_chunk as usize, &mut data)?;
 
             let mut chunk_data = Cursor::new(chunk_data);
             let mut decompressor =
                 record_decompressor_from_laz_items(vlr.items(), &mut chunk_data)?;
 
-            // Resize the output buffer so that we decompresse data until its either full,
-            // or EOF was reached
-            data_to_recompress.resize((points_to_read * vlr.items_size()) as usize, 0);
-            let byte_len = decompressor.decompress_until_end_of_file(&mut data_to_recompress)?;
-            data_to_recompress.resize(byte_len, 0);
+            // Grow the output buffer so that we decompress data until we have all the points,
+            // or EOF was reached (the number of points may be wrong)
+            let mut bytes_to_read = points_to_read.saturating_mul(vlr.items_size());
+            while bytes_to_read > 0 {
+                let start = data_to_recompress.len();
+                let num_bytes = bytes_to_read.min(POINTS_PER_GROWTH * vlr.items_size());
+                data_to_recompress.resize(start + num_bytes as usize, 0);
+                let byte_len =
+                    decompressor.decompress_until_end_of_file(&mut data_to_recompress[start..])?;
+                data_to_recompress.truncate(start + byte_len);
+                if (byte_len as u64) < num_bytes {
+                    break;
+                }
+                bytes_to_read -= num_bytes;
+            }
         }
 
         // Drop chunk table entry/entries that are after the our point
-- 
2.43.0


From 5127bbb058797ab6f6a4ae008a6ed764c0858466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 39/39] fix: QuickHeader knows the sizes of the point formats
 with wavepackets

---
 src/las/file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..16dc11e 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -62,9 +62,13 @@ impl QuickHeader {
             1 => 28,
             2 => 26,
             3 => 34,
+            4 => 57,
+            5 => 63,
             6 => 30,
             7 => 36,
             8 => 38,
+            9 => 59,
+            10 => 67,
             _ => panic!("Unknown fmt id"),
         };
 
-- 
2.43.0

