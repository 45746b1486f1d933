From bdf3fc2e71cc26e728bd1b432ad8ad091c7ed4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:35 +0000
Subject: [PATCH 1/9] fix: StaticMortonIndex3D::from_grid_index dropped the
 lowest levels for some depths

The first chunk was derived from the number of 8-bit chunks in grid_depth bits, but the bits start at
MAX_LEVELS - grid_depth, which can lie in the middle of a chunk.
---
 src/indices/morton_index_3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..23c7d14 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -353,9 +353,9 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        // The lowest valid bit is not necessarily the first bit of a chunk, because MAX_LEVELS is not a multiple of 8
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From 41a83b948e31d787db5cca0441ad51d6fb3bf112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 2/9] fix: DynamicStorage2D::zeroed allocated one byte too many
 for depths divisible by 4

Cells are addressed from the end of the byte vector, so a zeroed index with an excess byte was unequal to
the same index built any other way, and its ancestors and descendants read the wrong cells.
---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..3fb0108 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,7 +623,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From 0be258bc82363668117b7001059bf3205e2690e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 3/9] fix: StaticMortonIndex2D128::from_grid_index overflowed
 its shift for a grid depth of zero

Shifting a usize by 64 panics with overflow checks and is only by luck harmless without them.
---
 src/indices/morton_index_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 3fb0108..5aeab54 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,10 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        // A grid_depth of zero can require shifting by the full width of usize
+        let shift_up = |bits: usize| bits.checked_shl(shift_to_max_bits as u32).unwrap_or(0);
+        let x_bits = shift_up(unsafe { grid_index.x.get_bits(0..grid_depth) });
+        let y_bits = shift_up(unsafe { grid_index.y.get_bits(0..grid_depth) });
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From 2746784c262dbd914d04375145dfd5cf0285de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:11 +0000
Subject: [PATCH 4/9] fix: converting a shallower dynamic index to a
 fixed-depth one moved its cells to other levels

The bytes of the dynamic index were padded at the end, although its cells are aligned to the end of its
bytes. The cells are now copied level by level, and the remaining levels are zero.
---
 src/indices/morton_index_2d.rs | 27 ++++++++++++++-------------
 src/indices/morton_index_3d.rs | 27 ++++++++++++++-------------
 2 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 5aeab54..419940a 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -871,18 +871,19 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // DynamicStorage2D can hold fewer cells than FixedDepthStorage2D and aligns them to the end of its bytes, so the
+            // cells are copied level by level. Missing levels remain zero
+            let mut ret: Self = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 23c7d14..a435035 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -9,7 +9,7 @@ use nalgebra::Vector3;
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
     number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
+        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits,
     },
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -934,18 +934,19 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // DynamicStorage3D can hold fewer cells than FixedDepthStorage3D and aligns them to the end of its bytes, so the
+            // cells are copied level by level. Missing levels remain zero
+            let mut ret: Self = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From 0fdeab692c9c593fd002a6ea72fbcf6af65e52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 5/9] fix: Vec<u8>::get_bits returned bits beyond the end of
 the range

If the range ends inside a byte whose used part is carried over to the previous byte, the carry was taken
before the bits outside of the range were masked away.
---
 src/number.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..6020c91 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -320,19 +320,20 @@ impl Bits for Vec<u8> {
 
         let mut bytes = self[start_byte..end_byte].to_owned();
         for idx in 0..bytes.len() {
-            if idx > 0 && shift_within_byte > 0 {
-                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
-                // previous byte
-                let carry = bytes[idx].get_bits(0..shift_within_byte);
-                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
-            }
             if idx == bytes.len() - 1 {
-                // Mask away the upper bits outside of the requested range on the last byte
+                // Mask away the upper bits outside of the requested range on the last byte. This has to
+                // happen before any of its bits are moved over to the previous byte
                 let excess_bits = (end_byte * 8) - bit_range.end;
                 // There can never be overflow here, because excess_bits always will be less than 8!
                 let mask = 0xFF_u8 >> excess_bits;
                 bytes[idx] &= mask;
             }
+            if idx > 0 && shift_within_byte > 0 {
+                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
+                // previous byte
+                let carry = bytes[idx].get_bits(0..shift_within_byte);
+                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
+            }
             bytes[idx] >>= shift_within_byte;
         }
 
-- 
2.43.0


From 8038084483fb833cb734f075eda8fe589043da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 6/9] fix: add_zero_{before,behind}_every_bit leaked the upper
 bits of their input

They are documented to take the lower 4 (8) bits of the value, but set bits above them ended up in the result.
---
 src/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 6020c91..f4a56ba 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -477,7 +477,7 @@ pub fn add_zero_behind_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 4 bits of `val` and adds a zero before every bit.
 /// For example `0b1101` becomes `0b01_01_00_01`
 pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
-    let mut ret = val;
+    let mut ret = val & 0b00001111;
     ret = (ret | (ret << 2)) & 0b00110011;
     ret = (ret | (ret << 1)) & 0b01010101;
     ret
@@ -486,7 +486,7 @@ pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 8 bits of `val` and adds a zero before every bit. This is the `u16` version of
 /// `add_zero_before_every_bit_u8`
 pub fn add_zero_before_every_bit_u16(val: u16) -> u16 {
-    let mut ret = val;
+    let mut ret = val & 0b00000000_11111111;
     ret = (ret | (ret << 4)) & 0b00001111_00001111;
     ret = (ret | (ret << 2)) & 0b00110011_00110011;
     ret = (ret | (ret << 1)) & 0b01010101_01010101;
-- 
2.43.0


From c18f941d3bfe10a0b209bfe57eeebad4e909053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 7/9] fix: align_to overflowed although the aligned value fits
 the type

self + alignment - 1 can exceed the type even if the next multiple does not, e.g. for 255u8 and 1.
---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..53c80d0 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 7791b208ef4781dc91ba623798174ad92cc76024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 8/9] fix: Vec<u8>::set_bits and set_bits_from_usize depended
 on the byte order of the platform

The bits of a Vec<u8> are numbered from the first byte on, but the new value was read in native byte order, so
dynamic Morton indices got wrong cells on big-endian platforms.
---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index f4a56ba..ac12f39 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -290,7 +290,7 @@ unsafe fn set_vec_u8_bits(vec: &mut Vec<u8>, bit_range: Range<usize>, new_value:
                 new_value[new_val_byte_idx].get_bits(dst_start_in_byte..dst_end_in_byte)
             } else {
                 let ptr = new_value.as_ptr().add(new_val_byte_idx) as *const u16;
-                let two_bytes = ptr.read_unaligned();
+                let two_bytes = u16::from_le(ptr.read_unaligned());
                 let start_bit_in_two_bytes = new_val_start_bit - (new_val_byte_idx * 8);
                 let end_bit_in_two_bytes = new_val_end_bit - (new_val_byte_idx * 8);
                 two_bytes.get_bits(start_bit_in_two_bytes..end_bit_in_two_bytes) as u8
@@ -445,8 +445,8 @@ impl Bits for Vec<u8> {
     }
 
     unsafe fn set_bits_from_usize(&mut self, bit_range: Range<usize>, new_value: usize) {
-        let bytes = bytemuck::bytes_of(&new_value);
-        set_vec_u8_bits(self, bit_range, bytes);
+        let bytes = new_value.to_le_bytes();
+        set_vec_u8_bits(self, bit_range, &bytes);
     }
 
     fn size(&self) -> usize {
-- 
2.43.0


From 9212f8f66db361c522dfbea10dcde2850d82b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 9/9] fix: Static{2D,3D} from_grid_index lost coordinate bits
 where usize is smaller than the number of levels

On 32-bit platforms the coordinates of 128-bit indices were shifted out of (2D) or overflowed (3D) a usize.
---
 src/indices/morton_index_2d.rs | 10 ++++++----
 src/indices/morton_index_3d.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 419940a..2203fa6 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,10 +165,12 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        // A grid_depth of zero can require shifting by the full width of usize
-        let shift_up = |bits: usize| bits.checked_shl(shift_to_max_bits as u32).unwrap_or(0);
-        let x_bits = shift_up(unsafe { grid_index.x.get_bits(0..grid_depth) });
-        let y_bits = shift_up(unsafe { grid_index.y.get_bits(0..grid_depth) });
+        // MAX_LEVELS can exceed the number of bits of a usize, so the bits are shifted in the largest integer type
+        let shift_up = |coordinate: usize| unsafe {
+            (coordinate as u128).get_bits(0..grid_depth) << shift_to_max_bits
+        };
+        let x_bits = shift_up(grid_index.x);
+        let y_bits = shift_up(grid_index.y);
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index a435035..dbc000a 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -337,9 +337,13 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
 
         let shift_to_max_bits =
             <FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
-        let z_bits = unsafe { grid_index.z.get_bits(0..grid_depth) << shift_to_max_bits };
+        // MAX_LEVELS can exceed the number of bits of a usize, so the bits are shifted in the largest integer type
+        let shift_up = |coordinate: usize| unsafe {
+            (coordinate as u128).get_bits(0..grid_depth) << shift_to_max_bits
+        };
+        let x_bits = shift_up(grid_index.x);
+        let y_bits = shift_up(grid_index.y);
+        let z_bits = shift_up(grid_index.z);
 
         let (x_shift, y_shift, z_shift) = ordering.get_bit_shifts_for_xyz();
 
-- 
2.43.0

