From 10cd232dc729b5b202bcfd6e2891f5bcf5d1ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 01/35] fix: report compact heightfield columns with too many
 layers instead of overflowing or dropping the link

---
 crates/rerecast/src/compact_heightfield.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..f41fad3 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -170,6 +170,12 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: u8::MAX - 1,
+                            layer_index: u8::MAX as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
@@ -228,7 +234,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From 4b9a85819b2c3623af33b3f873e4466064321cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 02/35] fix: rasterize with floored, full-range cell indices so
 borders are clipped and wide fields do not panic

---
 crates/rerecast/src/rasterize.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..292f2d3 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,16 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        let w = self.width as i32;
+        let h = self.height as i32;
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +106,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From 515a09590739b2467695831494d69e538e74e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 03/35] fix: refuse heightfields wider or taller than the cell
 index range instead of truncating them

---
 crates/rerecast/src/heightfield.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..508735e 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -261,7 +261,10 @@ impl HeightfieldBuilder {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
         let column_count = width as u128 * height as u128;
-        if column_count > usize::MAX as u128 {
+        if column_count > usize::MAX as u128
+            || width as u128 > u16::MAX as u128
+            || height as u128 > u16::MAX as u128
+        {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
         }
         let column_count = column_count as usize;
@@ -281,7 +284,7 @@ impl HeightfieldBuilder {
 #[derive(Error, Debug)]
 pub enum HeightfieldBuilderError {
     /// Happens when the column count is too large.
-    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}", column_count = width * height, max = usize::MAX)]
+    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}, with at most {max_axis} per axis", column_count = width * height, max = usize::MAX, max_axis = u16::MAX)]
     ColumnCountTooLarge {
         /// The width of the heightfield along the x-axis in cell units
         width: f32,
-- 
2.43.0


From 0fdb11e1ce9e28adec169eccf812a8d41adb9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 04/35] fix: build an empty distance field for a field without
 walkable spans

---
 crates/rerecast/src/watershed_distance_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..6feaac2 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -17,8 +17,8 @@ impl CompactHeightfield {
     /// Prepare for region partitioning, by calculating distance field along the walkable surface.
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
-        // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        // A field without any walkable span has no distances
+        self.max_distance = distance_field.iter().copied().max().unwrap_or_default();
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From cfd7f35f6b9b90ed12575c44540c287136e3d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 05/35] fix: erode by radii of 128 cells and more without
 wrapping the distance

---
 crates/rerecast/src/erosion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..b96cfe0 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,8 +163,7 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius.saturating_mul(2);
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
-- 
2.43.0


From fc681fa5b3ff900c4fbb28e543ccc0828470ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 06/35] fix: build regions for fields whose spans all lie on a
 border

---
 crates/rerecast/src/watershed_build_regions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..7c02546 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -38,7 +38,9 @@ impl CompactHeightfield {
         let mut src_dist = vec![0_u16; self.spans.len()];
 
         let mut region_id = RegionId::from(1);
-        let mut level = (self.max_distance + 1) & !1;
+        // At least one level has to be processed, otherwise fields consisting only of border spans
+        // (e.g. corridors of up to two cells) would not get any regions.
+        let mut level = (self.max_distance.saturating_add(1) & !1).max(2);
 
         // Jan: The following comment is taken from the original implementation.
         // TODO: Figure better formula, expandIters defines how much the
-- 
2.43.0


From 642b37522bf39c973bbbab53e0416cbcb050a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 07/35] fix: count regions enclosed by another one as part of
 its connected piece

---
 crates/rerecast/src/watershed_build_regions.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 7c02546..ad3ac47 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -237,6 +237,22 @@ impl CompactHeightfield {
             }
         }
 
+        // Only one contour of each region was walked, so a region knows about the one enclosing it, but not vice versa.
+        let mut enclosed = vec![Vec::new(); nreg as usize];
+        for reg in regions.iter() {
+            for connection in reg.connections.iter() {
+                if *connection == RegionId::NONE
+                    || connection.intersects(RegionId::BORDER_REGION)
+                    || regions[connection.bits() as usize]
+                        .connections
+                        .contains(&reg.id)
+                {
+                    continue;
+                }
+                enclosed[connection.bits() as usize].push(reg.id);
+            }
+        }
+
         // Remove too small regions.
         let mut stack = Vec::with_capacity(32);
         let mut trace = Vec::with_capacity(32);
@@ -267,7 +283,7 @@ impl CompactHeightfield {
                 span_count += c_reg.span_count;
                 trace.push(ri);
 
-                for connection in c_reg.connections.iter() {
+                for connection in c_reg.connections.iter().chain(&enclosed[ri]) {
                     if connection.intersects(RegionId::BORDER_REGION) {
                         connects_to_border = true;
                         continue;
-- 
2.43.0


From 3188f15f55d678142b7b1081b210528cb4fb7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 08/35] fix: report region id overflow before ids collide with
 the border flag

---
 crates/rerecast/src/watershed_build_regions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index ad3ac47..b6f3752 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -131,7 +131,8 @@ impl CompactHeightfield {
                         &mut stack,
                     )
                 {
-                    if region_id == RegionId::MAX {
+                    // The next ID would be mistaken for a border region.
+                    if (region_id + 1).intersects(RegionId::BORDER_REGION) {
                         return Err(BuildRegionsError::RegionIdOverflow);
                     }
                     region_id += 1;
-- 
2.43.0


From 47049cffc432c81a87270c5f2a2b2110898100da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 09/35] fix: build contours of fields without any cell inside
 the border strip

---
 crates/rerecast/src/contours.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..5c362e8 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -24,8 +24,10 @@ impl CompactHeightfield {
             aabb: self.aabb,
             cell_size: self.cell_size,
             cell_height: self.cell_height,
-            width: self.width - self.border_size * 2,
-            height: self.height - self.border_size * 2,
+            width: self.width.saturating_sub(self.border_size.saturating_mul(2)),
+            height: self
+                .height
+                .saturating_sub(self.border_size.saturating_mul(2)),
             border_size: self.border_size,
             max_error,
         };
-- 
2.43.0


From b892198a077074f5acaa3fc65b0fc78bfe3b6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 10/35] fix: grow the contour set when regions with holes need
 more contours

---
 crates/rerecast/src/contours.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 5c362e8..b1caf30 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -40,7 +40,7 @@ impl CompactHeightfield {
             cset.aabb.max.z -= pad;
         }
 
-        let mut max_contours = self.max_region.bits().max(8);
+        let mut max_contours = self.max_region.bits().max(8) as u32;
 
         cset.contours = vec![Contour::default(); max_contours as usize];
         // We will shrink contours to this value later
@@ -118,7 +118,8 @@ impl CompactHeightfield {
                             // This happens when a region has holes.
                             let old_max = max_contours;
                             max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
+                            cset.contours
+                                .resize(max_contours as usize, Contour::default());
 
                             tracing::warn!(
                                 "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-- 
2.43.0


From 6df3e5f7f25d8cda14860288e99f7366f53431a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 11/35] fix: walk region outlines of any length to their end

---
 crates/rerecast/src/contours.rs                | 3 ++-
 crates/rerecast/src/watershed_build_regions.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index b1caf30..b0357c3 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -172,7 +172,8 @@ impl CompactHeightfield {
         let start_i = i;
         let area = self.areas[i];
 
-        for _ in 0..40_000 {
+        // Every edge of every span is visited at most once.
+        for _ in 0..self.spans.len() * 4 {
             if (flags[i] & (1 << dir)) != 0 {
                 // Choose the edge corner
                 let mut is_area_border = false;
diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index b6f3752..0fe8652 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -463,8 +463,8 @@ impl CompactHeightfield {
         }
         connections.push(current_region);
 
-        // Jan: cool magic number lol
-        for _ in 0..40_000 {
+        // Every edge of every span is visited at most once.
+        for _ in 0..self.spans.len() * 4 {
             let s = &self.spans[i];
             if self.is_solid_edge(src_reg, x, z, i, dir) {
                 // Choose the edge corner
-- 
2.43.0


From 69ab5ba4b4687600c7065d8505a4a4004618145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 12/35] fix: compare long contour edges with the maximum length
 without overflow

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index b0357c3..bf655fe 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -448,8 +448,8 @@ fn simplify_contour(
                 && area.intersects(RegionVertexId::AREA_BORDER);
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
-                let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                let d = b.xz().as_i64vec2() - a.xz().as_i64vec2();
+                if d.length_squared() > (max_edge_len as i64).pow(2) {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From 0c933659bde6d33404a47d457c2f65bc9791c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 13/35] fix: return one region per polygon

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..42ba2b7 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -176,6 +176,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
             polygon_neighbors.extend_from_slice(neighbors);
         }
         value.vertices.truncate(value.nvertices as usize);
+        value.regions.truncate(value.npolys);
         value.areas.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
-- 
2.43.0


From bf4744a5dfca61bf257723e2351f9e19a1f0a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 14/35] fix: merge the holes of a region into its outline

---
 crates/rerecast/src/contours.rs  | 160 ++++++++++++++++++++++++++++++-
 crates/rerecast/src/poly_mesh.rs |   8 +-
 2 files changed, 162 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index bf655fe..ed2b4f8 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -1,8 +1,13 @@
+use std::collections::BTreeSet;
+
 use glam::{U16Vec3, Vec3Swizzles};
 
 use crate::{
     Aabb3d, AreaType, CompactHeightfield, RegionId,
-    math::{dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2},
+    math::{
+        dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2, next, prev,
+    },
+    poly_mesh::{intersect, left, left_on, vequal},
 };
 
 impl CompactHeightfield {
@@ -24,7 +29,9 @@ impl CompactHeightfield {
             aabb: self.aabb,
             cell_size: self.cell_size,
             cell_height: self.cell_height,
-            width: self.width.saturating_sub(self.border_size.saturating_mul(2)),
+            width: self
+                .width
+                .saturating_sub(self.border_size.saturating_mul(2)),
             height: self
                 .height
                 .saturating_sub(self.border_size.saturating_mul(2)),
@@ -151,6 +158,7 @@ impl CompactHeightfield {
             }
         }
         cset.contours.resize_with(contour_count, Contour::default);
+        merge_holes(&mut cset.contours);
         cset
     }
 
@@ -495,6 +503,154 @@ fn simplify_contour(
     }
 }
 
+/// Merges the holes of every region into the outline of that region, such that each region is described by a single polygon.
+/// The merged holes keep their raw vertices, but are left without simplified ones.
+fn merge_holes(contours: &mut [Contour]) {
+    // If a contour is wound backwards, it is a hole.
+    let areas: Vec<i64> = contours
+        .iter()
+        .map(|contour| area_of_polygon_2d(&contour.vertices))
+        .collect();
+    let regions: BTreeSet<RegionId> = (0..contours.len())
+        .filter(|i| areas[*i] <= 0)
+        .map(|i| contours[i].region)
+        .collect();
+    for region in regions {
+        let (mut holes, outlines): (Vec<usize>, Vec<usize>) = (0..contours.len())
+            .filter(|i| contours[*i].region == region)
+            .partition(|i| areas[*i] <= 0);
+        if let Some(outline) = outlines.into_iter().max_by_key(|i| areas[*i]) {
+            merge_region_holes(contours, outline, &mut holes);
+        } else {
+            // This can happen if the contour becomes self-overlapping because of too aggressive simplification settings.
+            tracing::error!(
+                "Bad outline for region {region}, contour simplification is likely too aggressive",
+                region = region.bits()
+            );
+        }
+    }
+}
+
+/// Twice the signed area of the polygon on the xz-plane. Positive for outlines, negative for holes.
+fn area_of_polygon_2d(vertices: &[(U16Vec3, u32)]) -> i64 {
+    (0..vertices.len())
+        .map(|i| {
+            let vi = vertices[i].0.as_i64vec3();
+            let vj = vertices[prev(i, vertices.len())].0.as_i64vec3();
+            vi.x * vj.z - vj.x * vi.z
+        })
+        .sum()
+}
+
+fn merge_region_holes(contours: &mut [Contour], outline: usize, holes: &mut [usize]) {
+    // Sort holes from left to right.
+    let leftmost_vertex = |contour: &Contour| {
+        (0..contour.vertices.len())
+            .min_by_key(|i| (contour.vertices[*i].0.x, contour.vertices[*i].0.z))
+            .unwrap_or_default()
+    };
+    holes.sort_by_key(|hole| {
+        let contour = &contours[*hole];
+        let leftmost = contour.vertices[leftmost_vertex(contour)].0;
+        (leftmost.x, leftmost.z)
+    });
+
+    // Merge holes into the outline one by one.
+    for (i, &hole) in holes.iter().enumerate() {
+        let hole_len = contours[hole].vertices.len();
+        let leftmost = leftmost_vertex(&contours[hole]);
+        let diagonal = (0..hole_len).find_map(|iter| {
+            // If all the potential diagonals for a vertex were intersecting, try the next vertex.
+            let hole_vertex = (leftmost + iter) % hole_len;
+            let corner = contours[hole].vertices[hole_vertex].0;
+            let outline_vertices = &contours[outline].vertices;
+            // Find potential diagonals.
+            let mut diagonals: Vec<_> = (0..outline_vertices.len())
+                .filter(|j| in_cone(*j, outline_vertices, corner))
+                .collect();
+            // Sort potential diagonals by distance, we want to make the connection as short as possible.
+            diagonals.sort_by_key(|j| {
+                let d = outline_vertices[*j].0.as_i64vec3() - corner.as_i64vec3();
+                d.x * d.x + d.z * d.z
+            });
+            // Find a diagonal that is intersecting neither the outline nor the remaining holes.
+            diagonals
+                .into_iter()
+                .find(|j| {
+                    let point = outline_vertices[*j].0;
+                    !intersect_segment_contour(point, corner, Some(*j), outline_vertices)
+                        && holes[i..].iter().all(|hole| {
+                            !intersect_segment_contour(
+                                point,
+                                corner,
+                                None,
+                                &contours[*hole].vertices,
+                            )
+                        })
+                })
+                .map(|outline_vertex| (outline_vertex, hole_vertex))
+        });
+        let Some((outline_vertex, hole_vertex)) = diagonal else {
+            tracing::warn!(
+                "Failed to find merge points for a hole in region {region}",
+                region = contours[outline].region.bits()
+            );
+            continue;
+        };
+
+        let hole_vertices = std::mem::take(&mut contours[hole].vertices);
+        let outline_vertices = &mut contours[outline].vertices;
+        let mut merged = Vec::with_capacity(outline_vertices.len() + hole_len + 2);
+        for i in 0..=outline_vertices.len() {
+            merged.push(outline_vertices[(outline_vertex + i) % outline_vertices.len()]);
+        }
+        for i in 0..=hole_len {
+            merged.push(hole_vertices[(hole_vertex + i) % hole_len]);
+        }
+        *outline_vertices = merged;
+    }
+}
+
+/// Returns true iff `point` lies in the cone described by the three consecutive vertices of the contour around `i`.
+fn in_cone(i: usize, vertices: &[(U16Vec3, u32)], point: U16Vec3) -> bool {
+    let pi = vertices[i].0;
+    let pi1 = vertices[next(i, vertices.len())].0;
+    let pin1 = vertices[prev(i, vertices.len())].0;
+    // If P[i] is a convex vertex [ i+1 left or on (i-1,i) ].
+    if left_on(pin1, pi, pi1) {
+        return left(pi, point, pin1) && left(point, pi, pi1);
+    }
+    // Assume (i-1,i,i+1) not collinear.
+    // else P[i] is reflex.
+    !(left_on(pi, point, pi1) && left_on(point, pi, pin1))
+}
+
+/// Returns true iff the segment intersects the contour, not considering edges incident to the vertex `i`.
+fn intersect_segment_contour(
+    d0: U16Vec3,
+    d1: U16Vec3,
+    i: Option<usize>,
+    vertices: &[(U16Vec3, u32)],
+) -> bool {
+    // For each edge (k,k+1) of P
+    for k in 0..vertices.len() {
+        let k1 = next(k, vertices.len());
+        // Skip edges incident to i.
+        if i == Some(k) || i == Some(k1) {
+            continue;
+        }
+        let p0 = vertices[k].0;
+        let p1 = vertices[k1].0;
+        if vequal(d0, p0) || vequal(d1, p0) || vequal(d0, p1) || vequal(d1, p1) {
+            continue;
+        }
+        if intersect(d0, d1, p0, p1) {
+            return true;
+        }
+    }
+    false
+}
+
 fn remove_degenerate_segments(simplified: &mut Vec<(U16Vec3, u32)>) {
     // Remove adjacent vertices which are equal on xz-plane,
     // or else the triangulator will get confused.
diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 42ba2b7..62fd7b4 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1216,13 +1216,13 @@ fn is_diagonal_internal_or_external(
 const INDEX_MASK: usize = 0x0fffffff;
 
 #[inline]
-fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
+pub(crate) fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
     a.xz() == b.xz()
 }
 
 /// Returns true iff segments ab and cd intersect, properly or improperly.
 #[inline]
-fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
+pub(crate) fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
     if intersect_prop(a, b, c, d) {
         return true;
     }
@@ -1249,12 +1249,12 @@ fn collinear(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
 /// Returns true iff c is strictly to the left of the directed
 /// line through a to b.
 #[inline]
-fn left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) < 0
 }
 
 #[inline]
-fn left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) <= 0
 }
 
-- 
2.43.0


From 0061b5aa348aa052aa686ca9ecfe0db810791d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 15/35] fix: remove tile border vertices without hanging or
 reading past polygons

---
 crates/rerecast/src/poly_mesh.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 62fd7b4..d1532db 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -364,7 +364,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
@@ -378,10 +377,9 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+            } else {
+                i += 1;
             }
-
-            i += 1;
         }
         // Calculate adjacency.
         mesh.build_mesh_adjacency()?;
@@ -560,7 +558,8 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for j in 0..nv {
+                    let k = prev(j, nv);
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -634,20 +633,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
@@ -823,7 +822,8 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for j in 0..nv {
+                let k = prev(j, nv);
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
@@ -855,7 +855,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From 78e63fe971091bce60af47db18c8923a8da7a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 16/35] fix: do not cut off holes when triangulating outlines
 merged with them

---
 crates/rerecast/src/poly_mesh.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index d1532db..d1b30b0 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1034,18 +1034,36 @@ fn compute_vertex_hash(vertex: U16Vec3) -> usize {
 const VERTEX_BUCKET_COUNT: usize = 1 << 12;
 
 fn triangulate(
+    n: usize,
+    verts: &[(U16Vec3, u32)],
+    indices: &mut [usize],
+    tris: &mut [U16Vec3],
+) -> Result<usize, PolygonNavmeshError> {
+    // Merged holes make an outline touch itself. A diagonal of such an outline can be internal at one end
+    // and still cut off a hole at the other end, so prefer diagonals that are internal at both ends.
+    // Outlines that fold back onto themselves do not always have enough of these.
+    let mut strict_indices = indices.to_vec();
+    triangulate_with(n, verts, &mut strict_indices, tris, true)
+        .or_else(|_| triangulate_with(n, verts, indices, tris, false))
+}
+
+fn triangulate_with(
     mut n: usize,
     verts: &[(U16Vec3, u32)],
     indices: &mut [usize],
     tris: &mut [U16Vec3],
+    strict: bool,
 ) -> Result<usize, PolygonNavmeshError> {
+    let is_diagonal = |i: usize, j: usize, n: usize, indices: &[usize]| {
+        is_diagonal(i, j, n, verts, indices) && (!strict || in_cone(j, i, n, verts, indices))
+    };
     let mut ntris = 0;
 
     // The last bit of the index is used to indicate if the vertex can be removed.
     for i in 0..n {
         let i1 = next(i, n);
         let i2 = next(i1, n);
-        if is_diagonal(i, i2, n, verts, indices) {
+        if is_diagonal(i, i2, n, indices) {
             indices[i1] |= CAN_REMOVE;
         }
     }
@@ -1066,7 +1084,7 @@ fn triangulate(
                 }
             }
         }
-        if mini.is_none() {
+        if mini.is_none() && !strict {
             // We might get here because the contour has overlapping segments, like this:
             //
             //  A o-o=====o---o B
@@ -1118,13 +1136,13 @@ fn triangulate(
         }
         i = prev(i1, n);
         // Update diagonal flags.
-        if is_diagonal(prev(i, n), i1, n, verts, indices) {
+        if is_diagonal(prev(i, n), i1, n, indices) {
             indices[i] |= CAN_REMOVE;
         } else {
             indices[i] &= INDEX_MASK;
         }
 
-        if is_diagonal(i, next(i1, n), n, verts, indices) {
+        if is_diagonal(i, next(i1, n), n, indices) {
             indices[i1] |= CAN_REMOVE;
         } else {
             indices[i1] &= INDEX_MASK;
-- 
2.43.0


From 99d94c04c6604136da21ccfd31d6cbe1d821a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 17/35] fix: leave out triangles that collapse when close
 vertices are merged

---
 crates/rerecast/src/poly_mesh.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index d1b30b0..a45612a 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -280,10 +280,12 @@ impl ContourSet {
             let mut npolys = 0;
             polys.fill(u16::MAX);
             for t in tris.iter().take(ntris) {
-                if t.x != t.y && t.x != t.z && t.y != t.z {
-                    polys[npolys * nvp] = indices[t.x as usize] as u16;
-                    polys[npolys * nvp + 1] = indices[t.y as usize] as u16;
-                    polys[npolys * nvp + 2] = indices[t.z as usize] as u16;
+                let [x, y, z] = t.to_array().map(|i| indices[i as usize] as u16);
+                // Merging close vertices can collapse triangles.
+                if x != y && x != z && y != z {
+                    polys[npolys * nvp] = x;
+                    polys[npolys * nvp + 1] = y;
+                    polys[npolys * nvp + 2] = z;
                     npolys += 1;
                 }
             }
@@ -678,10 +680,10 @@ impl InternalPolygonNavmesh {
         let mut npolys = 0;
         polys[..ntris * nvp].fill(u16::MAX);
         for t in tris.iter().take(ntris) {
-            if t.x != t.y && t.x != t.z && t.y != t.z {
-                let t_x = t.x as usize;
-                let t_y = t.y as usize;
-                let t_z = t.z as usize;
+            let t_x = t.x as usize;
+            let t_y = t.y as usize;
+            let t_z = t.z as usize;
+            if hole[t_x] != hole[t_y] && hole[t_x] != hole[t_z] && hole[t_y] != hole[t_z] {
                 polys[npolys * nvp] = hole[t_x];
                 polys[npolys * nvp + 1] = hole[t_y];
                 polys[npolys * nvp + 2] = hole[t_z];
-- 
2.43.0


From ae58d73837af90a897f9a8fdb0306368e81e9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 18/35] fix: connect polygons of meshes with more than 65535
 edges

---
 crates/rerecast/src/poly_mesh.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index a45612a..2eb1036 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -441,8 +441,8 @@ impl InternalPolygonNavmesh {
         // Based on code by Eric Lengyel from:
         // https://web.archive.org/web/20080704083314/http://www.terathon.com/code/edges.php
         let max_edge_count = self.npolys * nvp;
-        let mut first_edge =
-            vec![PolygonNavmesh::NO_CONNECTION; self.nvertices as usize + max_edge_count];
+        // A mesh can have more edges than fit a u16.
+        let mut first_edge = vec![None; self.nvertices as usize + max_edge_count];
         let next_edge_index = self.nvertices as usize;
         let mut edge_count = 0;
         let mut edges = vec![Edge::default(); max_edge_count];
@@ -468,7 +468,7 @@ impl InternalPolygonNavmesh {
                     edge.poly_edge.y = 0;
                     // Insert edge
                     first_edge[next_edge_index + edge_count] = first_edge[v0 as usize];
-                    first_edge[v0 as usize] = edge_count as u16;
+                    first_edge[v0 as usize] = Some(edge_count);
                     edge_count += 1;
                 }
             }
@@ -488,14 +488,14 @@ impl InternalPolygonNavmesh {
                 };
                 if v0 > v1 {
                     let mut e = first_edge[v1 as usize];
-                    while e != PolygonNavmesh::NO_CONNECTION {
-                        let edge = &mut edges[e as usize];
+                    while let Some(edge_index) = e {
+                        let edge = &mut edges[edge_index];
                         if edge.vert.y == v0 && edge.poly.x == edge.poly.y {
                             edge.poly.y = i as u16;
                             edge.poly_edge.y = j as u16;
                             break;
                         }
-                        e = first_edge[next_edge_index + e as usize];
+                        e = first_edge[next_edge_index + edge_index];
                     }
                 }
             }
-- 
2.43.0


From f297eee6f01cc7a5ad2def43e715e4fbfc546ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 19/35] fix: triangulate detail polygons when sampling is
 switched off

---
 crates/rerecast/src/detail_mesh.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..fadfa37 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -438,6 +438,12 @@ fn build_poly_detail(
             }
             j = i;
         }
+    } else {
+        // Without samples, the hull consists of the polygon's own vertices.
+        for (i, hull_i) in hull.iter_mut().enumerate().take(nin) {
+            *hull_i = i;
+        }
+        nhull = nin;
     }
 
     // If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From e926fbf28ab4ef8d146807e9ba729e2ece5ff6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 20/35] fix: seed polygon heights from the polygon's own
 vertices

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index fadfa37..520f9f4 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -241,7 +241,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1243,7 +1243,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1352,7 +1352,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


From fb64d2da7c8a652309cd0e93038bb5ce61eaeea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 21/35] fix: decide detail triangulation on exact circles so
 triangles do not overlap

---
 crates/rerecast/src/detail_mesh.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 520f9f4..6c17a5a 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1,6 +1,6 @@
 #[cfg(feature = "bevy_reflect")]
 use bevy_reflect::prelude::*;
-use glam::{U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, u16vec3};
+use glam::{DVec2, U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, u16vec3};
 use std::{
     f32,
     ops::{Deref, DerefMut},
@@ -705,7 +705,7 @@ fn complete_facet(
 
     // Find best point on left of edge.
     let mut pt = npts;
-    let mut c = Vec3A::default();
+    let mut c = DVec2::ZERO;
     let mut r_squared = None;
 
     // Jan: original implies this:
@@ -723,8 +723,10 @@ fn complete_facet(
                 r_squared = Some(circum_circle_squared(pts[s], pts[t], pts[u], &mut c));
                 continue;
             };
-            let d_squared = c.xz().distance_squared(pts[u].xz());
-            let tol = 1.0e-3;
+            let d_squared = c.distance_squared(pts[u].xz().as_dvec2());
+            // Only points that really lie on one circle may count as such. With a coarser tolerance, the decision
+            // for the same four points can differ from edge to edge and the triangles end up overlapping.
+            let tol = 1.0e-9;
             let threshold_out = *r_squared * (1.0 + tol) * (1.0 + tol);
             let threshold_in = *r_squared * (1.0 - tol) * (1.0 - tol);
             if d_squared > threshold_out {
@@ -818,22 +820,22 @@ fn overlap_seg_seg2(a: Vec3A, b: Vec3A, c: Vec3A, d: Vec3A) -> bool {
     false
 }
 
-fn circum_circle_squared(p1: Vec3A, p2: Vec3A, p3: Vec3A, c: &mut Vec3A) -> f32 {
-    const EPS: f32 = 1e-6;
+fn circum_circle_squared(p1: Vec3A, p2: Vec3A, p3: Vec3A, c: &mut DVec2) -> f64 {
+    const EPS: f64 = 1e-6;
     // Calculate the circle relative to p1, to avoid some precision issues.
     // Jan: omitted v1 because it is always Vec3A::ZERO
-    let v2 = (p2 - p1).xz();
-    let v3 = (p3 - p1).xz();
+    let p1 = p1.xz().as_dvec2();
+    let v2 = p2.xz().as_dvec2() - p1;
+    let v3 = p3.xz().as_dvec2() - p1;
 
-    let cp = cross2(Vec2::ZERO, v2, v3);
+    let cp = v2.perp_dot(v3);
     if cp.abs() > EPS {
         let v2_sq = v2.length_squared();
         let v3_sq = v3.length_squared();
-        c.x = (v2_sq * (v3.y) + v3_sq * (-v2.y)) / (2.0 * cp);
-        c.y = 0.0;
-        c.z = (v2_sq * (-v3.x) + v3_sq * (v2.x)) / (2.0 * cp);
+        c.x = (v2_sq * v3.y - v3_sq * v2.y) / (2.0 * cp);
+        c.y = (v3_sq * v2.x - v2_sq * v3.x) / (2.0 * cp);
 
-        let r = c.xz().length_squared();
+        let r = c.length_squared();
         *c += p1;
         r
     } else {
-- 
2.43.0


From 7851c831857bea64ba8a35ed646d8ed14f1c3129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 22/35] fix: let detail meshes grow beyond the initially
 reserved size

---
 crates/rerecast/src/detail_mesh.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 6c17a5a..3d7c5ad 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -210,8 +210,8 @@ impl DetailNavmesh {
         hp.data = vec![0; maxhw as usize * maxhh as usize];
         dmesh.meshes = vec![SubMesh::default(); mesh.polygon_count()];
 
-        let mut vcap = poly_vert_count + poly_vert_count / 2;
-        let mut tcap = vcap * 2;
+        let vcap = poly_vert_count + poly_vert_count / 2;
+        let tcap = vcap * 2;
 
         dmesh.vertices = Vec::with_capacity(vcap);
         dmesh.triangles = Vec::with_capacity(tcap);
@@ -283,24 +283,14 @@ impl DetailNavmesh {
             submesh.base_triangle_index = dmesh.triangles.len() as u32;
             submesh.triangle_count = tris.len() as u32;
 
-            // Store vertices, allocate more memory if necessary.
-            if dmesh.vertices.len() + nverts > vcap {
-                while dmesh.vertices.len() + nverts > vcap {
-                    vcap += 256;
-                }
-                dmesh.vertices.reserve(vcap - dmesh.vertices.capacity());
-            }
+            // Store vertices.
+            dmesh.vertices.reserve(nverts);
             for vert in &verts[..nverts] {
                 dmesh.vertices.push(Vec3::from(*vert));
             }
 
-            // Store triangles, allocate more memory if necessary.
-            if dmesh.triangles.len() + tris.len() > tcap {
-                while dmesh.triangles.len() + tris.len() > tcap {
-                    tcap += 256;
-                }
-                dmesh.triangles.reserve(tcap - dmesh.triangles.capacity());
-            }
+            // Store triangles.
+            dmesh.triangles.reserve(tris.len());
             for tri in &tris {
                 dmesh.triangles.push([tri[0], tri[1], tri[2]]);
             }
-- 
2.43.0


From b4ea14b65914ec84aa2519b64524c15f68b59eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 23/35] fix: keep detail vertices without any height data near
 them on their polygon

---
 crates/rerecast/src/detail_mesh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 3d7c5ad..17ebecc 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1192,6 +1192,10 @@ fn get_height(f: Vec3A, ics: f32, ch: f32, radius: u32, hp: &HeightPatch) -> u16
             x += dx;
             z += dz;
         }
+        if h == RC_UNSET_HEIGHT {
+            // There is no height data anywhere near, so stay on the polygon.
+            h = (f.y / ch).round() as u16;
+        }
     }
     h
 }
-- 
2.43.0


From 5df3e2abd94a220f6e0910045de465bd8a855050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 24/35] fix: build detail meshes at the far end of the largest
 fields without overflow

---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 17ebecc..164a097 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -198,9 +198,9 @@ impl DetailNavmesh {
                 poly_vert_count += 1;
             }
             *xmin = xmin.saturating_sub(1);
-            *xmax = chf.width.min(*xmax + 1);
+            *xmax = chf.width.min(xmax.saturating_add(1));
             *zmin = zmin.saturating_sub(1);
-            *zmax = chf.height.min(*zmax + 1);
+            *zmax = chf.height.min(zmax.saturating_add(1));
             if xmin >= xmax || zmin >= zmax {
                 continue;
             }
-- 
2.43.0


From 3cbfb818f02c077e5ba5947051152443204c339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 25/35] fix: number detail samples without wrapping

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 164a097..76d747f 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1,6 +1,6 @@
 #[cfg(feature = "bevy_reflect")]
 use bevy_reflect::prelude::*;
-use glam::{DVec2, U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, u16vec3};
+use glam::{DVec2, IVec3, U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, ivec3};
 use std::{
     f32,
     ops::{Deref, DerefMut},
@@ -316,7 +316,7 @@ fn build_poly_detail(
     tris: &mut Vec<[u8; 3]>,
     flags: &mut Vec<u8>,
     edges: &mut Vec<Edges>,
-    samples: &mut Vec<(U16Vec3, bool)>,
+    samples: &mut Vec<(IVec3, bool)>,
 ) -> Result<(), DetailNavmeshError> {
     let mut edge = [Vec3A::default(); DetailNavmesh::MAX_VERTS_PER_EDGE + 1];
     let mut hull = [0; DetailNavmesh::MAX_VERTICES_PER_SUBMESH];
@@ -483,7 +483,7 @@ fn build_poly_detail(
                     continue;
                 }
                 let y = get_height(pt, ics, chf.cell_height, height_search_radius, hp);
-                samples.push((u16vec3(x as u16, y, z as u16), false));
+                samples.push((ivec3(x, y as i32, z), false));
             }
         }
 
-- 
2.43.0


From 45679f15ee72a2b6280aa0cc99acbc60c068bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 26/35] fix: keep portal vertices where a wall touches the
 border between two regions

The neighbouring region's contour is split at such a vertex; the straightened
portal on the other side no longer matched, so the navmesh lost the connection
or left the floor uncovered.
---
 crates/rerecast/src/contours.rs | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index ed2b4f8..0da4623 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -216,6 +216,9 @@ impl CompactHeightfield {
                 if is_area_border {
                     r |= RegionVertexId::AREA_BORDER;
                 }
+                if self.is_junction(x, z, i, dir) {
+                    r |= RegionVertexId::JUNCTION;
+                }
                 points.push((U16Vec3::new(p_x, p_y, p_z), r));
 
                 flags[i] &= !(1 << dir);
@@ -247,6 +250,33 @@ impl CompactHeightfield {
         }
     }
 
+    /// Whether the boundary with one neighbouring region turns around this span's corner
+    /// while the cell diagonally across belongs to neither of the two.
+    /// The neighbouring region's contour is split there, so this one has to be split as well.
+    fn is_junction(&self, x: u16, z: u16, i: usize, dir: u8) -> bool {
+        let dir_p = (dir + 1) & 0x3;
+        let s = &self.spans[i];
+        let (Some(con), Some(con_p)) = (s.con(dir), s.con(dir_p)) else {
+            return false;
+        };
+        let (a_x, a_z, a_i) = self.con_indices(x as i32, z as i32, dir, con);
+        let (b_x, b_z, b_i) = self.con_indices(x as i32, z as i32, dir_p, con_p);
+        let region = self.spans[a_i].region;
+        if region == s.region || self.spans[b_i].region != region {
+            return false;
+        }
+        let meets = |d: Option<usize>| {
+            d.is_some_and(|d| self.spans[d].region == region || self.spans[d].region == s.region)
+        };
+        let via_a = self.spans[a_i]
+            .con(dir_p)
+            .map(|con| self.con_indices(a_x, a_z, dir_p, con).2);
+        let via_b = self.spans[b_i]
+            .con(dir)
+            .map(|con| self.con_indices(b_x, b_z, dir, con).2);
+        !meets(via_a) || !meets(via_b)
+    }
+
     fn get_corner_height(&self, x: u16, z: u16, i: usize, dir: u8) -> (u16, bool) {
         let s = &self.spans[i];
         let mut ch = s.y;
@@ -342,7 +372,7 @@ fn simplify_contour(
                 region & RegionVertexId::REGION_MASK != next_region & RegionVertexId::REGION_MASK;
             let area_borders =
                 region & RegionVertexId::AREA_BORDER != next_region & RegionVertexId::AREA_BORDER;
-            if different_regs || area_borders {
+            if different_regs || area_borders || region.intersects(RegionVertexId::JUNCTION) {
                 simplified.push((*point, i as u32));
             };
         }
@@ -719,6 +749,12 @@ bitflags::bitflags! {
         /// the border of an area.
         /// (Used during the region and contour build process.)
         const AREA_BORDER = 0x20_000;
+
+        /// Junction flag.
+        /// If a region ID has this bit set, the boundary with the neighboring region turns around this vertex
+        /// and touches a wall or a third region there. The neighbor's contour is split at such a vertex.
+        /// (Used during the contour build process.)
+        const JUNCTION = 0x40_000;
     }
 }
 
-- 
2.43.0


From 4bf9e4c94fc24dbd2099e8a41bc77310eceb7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 27/35] fix: rasterize onto a heightfield without cells without
 panicking

---
 crates/rerecast/src/rasterize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 292f2d3..00f6d6f 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -42,6 +42,10 @@ impl Heightfield {
         if !self.aabb.intersects(&aabb) {
             return Ok(());
         }
+        // A scene thinner than half a cell yields a heightfield without any cells.
+        if self.width == 0 || self.height == 0 {
+            return Ok(());
+        }
 
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
-- 
2.43.0


From 929a857ae05556a1316f998b7ac905f3b1cfae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 28/35] fix: place each part of a compound collider by its own
 pose

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From a2d461f60d26afee7da5fa0a54cc6e9d87a36eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 29/35] fix: report malformed lengths in editor payloads as
 errors instead of aborting

---
 .../src/transmission/serialization.rs                        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
index 7e684a0..32d6fc8 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
@@ -27,7 +27,8 @@ pub fn deserialize<T: DeserializeOwned>(value: &Value) -> Result<T> {
     let mut gz = GzDecoder::new(&gz_bytes[..]);
     let mut bincode_bytes = Vec::new();
     gz.read_to_end(&mut bincode_bytes)?;
-    let (val, _len): (T, usize) =
-        bincode::serde::decode_from_slice(&bincode_bytes, bincode::config::standard())?;
+    // Without a limit, a malformed length makes bincode allocate that much memory up front, which aborts the process.
+    let config = bincode::config::standard().with_limit::<{ u32::MAX as usize }>();
+    let (val, _len): (T, usize) = bincode::serde::decode_from_slice(&bincode_bytes, config)?;
     Ok(val)
 }
-- 
2.43.0


From 5e6d4c19d6bb5a01fb2698cb15374141d67682c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 30/35] fix: keep the shape of sheared obstacles when loading a
 scene into the editor

---
 crates/bevy_rerecast_editor/src/get_navmesh_input.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index 705830c..3500873 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -63,8 +63,16 @@ fn fetch_navmesh_input(
     }
 
     for affector in response.affector_meshes {
+        // A `Transform` cannot represent every `GlobalTransform`, e.g. that of a rotated child of a stretched parent,
+        // so the vertices are brought to world space here.
+        let vertices = affector
+            .mesh
+            .vertices
+            .into_iter()
+            .map(|vertex| affector.transform.transform_point(vertex.into()))
+            .collect::<Vec<_>>();
         let mesh = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
-            .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, affector.mesh.vertices)
+            .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, vertices)
             .with_inserted_indices(Indices::U32(
                 affector
                     .mesh
@@ -75,7 +83,7 @@ fn fetch_navmesh_input(
             ));
 
         commands.spawn((
-            affector.transform.compute_transform(),
+            Transform::IDENTITY,
             Mesh3d(meshes.add(mesh)),
             NavmeshAffector,
             Visibility::Hidden,
-- 
2.43.0


From 3ba0c4b265be1ca592a5ebbcfc467c26b4f4d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 31/35] fix: hide the visual objects of a newly loaded scene
 while they are switched off

---
 crates/bevy_rerecast_editor/src/visualization.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/bevy_rerecast_editor/src/visualization.rs b/crates/bevy_rerecast_editor/src/visualization.rs
index a55ea98..dba3b73 100644
--- a/crates/bevy_rerecast_editor/src/visualization.rs
+++ b/crates/bevy_rerecast_editor/src/visualization.rs
@@ -34,7 +34,10 @@ pub(super) fn plugin(app: &mut App) {
             hide_poly_mesh.run_if(toggled_gizmo_off(AvailableGizmos::PolyMesh)),
             hide_detail_mesh.run_if(toggled_gizmo_off(AvailableGizmos::DetailMesh)),
             hide_affector.run_if(toggled_gizmo_off(AvailableGizmos::Affector)),
-            hide_visual.run_if(toggled_gizmo_off(AvailableGizmos::Visual)),
+            hide_visual.run_if(
+                toggled_gizmo_off(AvailableGizmos::Visual)
+                    .or(not(gizmo_enabled(AvailableGizmos::Visual)).and(any_added::<VisualMesh>)),
+            ),
         ),
     );
 }
@@ -82,6 +85,10 @@ fn gizmo_enabled(gizmo: AvailableGizmos) -> impl Condition<()> {
     IntoSystem::into_system(move |gizmos: Res<GizmosToDraw>| gizmos.contains(&gizmo))
 }
 
+fn any_added<C: Component>(added: Query<(), Added<C>>) -> bool {
+    !added.is_empty()
+}
+
 impl Default for GizmosToDraw {
     fn default() -> Self {
         Self(
-- 
2.43.0


From 84f372992422a1081739e06d307a9f7579c70710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 32/35] fix: draw the obstacles of a newly loaded scene while
 their display is on

---
 crates/bevy_rerecast_editor/src/visualization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bevy_rerecast_editor/src/visualization.rs b/crates/bevy_rerecast_editor/src/visualization.rs
index dba3b73..8f1e29f 100644
--- a/crates/bevy_rerecast_editor/src/visualization.rs
+++ b/crates/bevy_rerecast_editor/src/visualization.rs
@@ -29,7 +29,10 @@ pub(super) fn plugin(app: &mut App) {
                     resource_changed::<Navmesh>.or(toggled_gizmo_on(AvailableGizmos::DetailMesh)),
                 ),
             )),
-            draw_navmesh_affector.run_if(toggled_gizmo_on(AvailableGizmos::Affector)),
+            draw_navmesh_affector
+                .run_if(toggled_gizmo_on(AvailableGizmos::Affector).or(
+                    gizmo_enabled(AvailableGizmos::Affector).and(any_added::<NavmeshAffector>),
+                )),
             draw_visual.run_if(toggled_gizmo_on(AvailableGizmos::Visual)),
             hide_poly_mesh.run_if(toggled_gizmo_off(AvailableGizmos::PolyMesh)),
             hide_detail_mesh.run_if(toggled_gizmo_off(AvailableGizmos::DetailMesh)),
-- 
2.43.0


From e53007bb1918b6e77b690192763b6a18ec24c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 33/35] fix: split regions that lie above themselves

---
 .../rerecast/src/watershed_build_regions.rs   | 84 +++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 0fe8652..1a9c9e0 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -1,3 +1,5 @@
+use std::collections::VecDeque;
+
 use crate::{
     AreaType, CompactHeightfield, RegionId,
     math::{dir_offset_x, dir_offset_z},
@@ -150,6 +152,9 @@ impl CompactHeightfield {
             true,
         );
 
+        // Split regions that lie above themselves, e.g. on winding stairs.
+        region_id = self.split_overlapping_regions(region_id, &mut src_reg)?;
+
         // Merge regions and filter out small regions.
         self.max_region = region_id;
         // Jan: the early return is just triggered for OOM, so let's skip that :P
@@ -640,6 +645,85 @@ impl CompactHeightfield {
         count > 0
     }
 
+    /// Moves the parts of regions that lie above or below another part of the same region to new regions.
+    /// Returns the next free region ID.
+    fn split_overlapping_regions(
+        &self,
+        mut region_id: RegionId,
+        src_reg: &mut [RegionId],
+    ) -> Result<RegionId, BuildRegionsError> {
+        let mut overlapping = Vec::new();
+        for cell in self.cells.iter() {
+            let start = cell.index() as usize;
+            let regions = &src_reg[start..start + cell.count() as usize];
+            for (i, region) in regions.iter().enumerate() {
+                if *region != RegionId::NONE
+                    && !region.intersects(RegionId::BORDER_REGION)
+                    && regions[..i].contains(region)
+                    && !overlapping.contains(region)
+                {
+                    overlapping.push(*region);
+                }
+            }
+        }
+
+        for region in overlapping {
+            // The first part keeps the ID of the region.
+            let mut rest = self.flood_without_overlap(region, src_reg);
+            while !rest.is_empty() {
+                if (region_id + 1).intersects(RegionId::BORDER_REGION) {
+                    return Err(BuildRegionsError::RegionIdOverflow);
+                }
+                for &i in rest.iter() {
+                    src_reg[i] = region_id;
+                }
+                rest = self.flood_without_overlap(region_id, src_reg);
+                region_id += 1;
+            }
+        }
+        Ok(region_id)
+    }
+
+    /// Returns the spans of the region that are not part of its first connected piece without overlaps.
+    fn flood_without_overlap(&self, region: RegionId, src_reg: &[RegionId]) -> Vec<usize> {
+        let mut column_taken = vec![false; self.cells.len()];
+        let mut kept = vec![false; src_reg.len()];
+        let mut queue = VecDeque::new();
+        'seed: for z in 0..self.height {
+            for x in 0..self.width {
+                let cell = self.cell_at(x, z);
+                let start = cell.index() as usize;
+                for i in start..start + cell.count() as usize {
+                    if src_reg[i] == region {
+                        column_taken[self.column_index(x, z)] = true;
+                        kept[i] = true;
+                        queue.push_back((x, z, i));
+                        break 'seed;
+                    }
+                }
+            }
+        }
+        while let Some((x, z, i)) = queue.pop_front() {
+            for dir in 0..4 {
+                let Some(con) = self.spans[i].con(dir) else {
+                    continue;
+                };
+                let a_x = (x as i32 + dir_offset_x(dir) as i32) as u16;
+                let a_z = (z as i32 + dir_offset_z(dir) as i32) as u16;
+                let a_index = self.cell_at(a_x, a_z).index() as usize + con as usize;
+                let a_column = self.column_index(a_x, a_z);
+                if src_reg[a_index] == region && !column_taken[a_column] {
+                    column_taken[a_column] = true;
+                    kept[a_index] = true;
+                    queue.push_back((a_x, a_z, a_index));
+                }
+            }
+        }
+        (0..src_reg.len())
+            .filter(|&i| src_reg[i] == region && !kept[i])
+            .collect()
+    }
+
     fn paint_rect_region(
         &self,
         min_x: u16,
-- 
2.43.0


From f6c7ea5514e77faa458d33f52fcca24c2c405c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 34/35] fix: keep the heights of detail meshes beside stairs on
 their own floor

---
 crates/rerecast/src/detail_mesh.rs | 31 +++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 76d747f..e690647 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -8,7 +8,7 @@ use std::{
 use thiserror::Error;
 
 use crate::{
-    Aabb3d, CompactHeightfield, PolygonNavmesh, RegionId,
+    Aabb3d, CompactHeightfield, CompactSpan, PolygonNavmesh, RegionId,
     math::{
         dir_offset, dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_vec2,
         distance_squared_between_point_and_line_vec3, next, prev,
@@ -1337,12 +1337,41 @@ impl HeightPatch {
                     + con as usize;
                 let as_ = &chf.spans[ai];
 
+                // Don't take the height of floor that passes above or below an adjacent floor of the region.
+                if region != RegionId::NONE && self.passes_region(chf, ax, az, as_, region) {
+                    continue;
+                }
+
                 *self.data_at_mut(hx, hz) = as_.y;
                 queue.push((ax, az, ai));
             }
         }
     }
 
+    /// Returns whether an adjacent cell has a floor of the region that is not connected to the span.
+    fn passes_region(
+        &self,
+        chf: &CompactHeightfield,
+        x: i32,
+        z: i32,
+        span: &CompactSpan,
+        region: RegionId,
+    ) -> bool {
+        (0..4).any(|dir| {
+            let bx = x + dir_offset_x(dir) as i32;
+            let bz = z + dir_offset_z(dir) as i32;
+            if bx < 0 || bz < 0 || bx >= chf.width as i32 || bz >= chf.height as i32 {
+                return false;
+            }
+            let cell = &chf.cells[(bx + bz * chf.width as i32) as usize];
+            let con = span
+                .con(dir)
+                .map(|con| cell.index() as usize + con as usize);
+            cell.index_range()
+                .any(|i| chf.spans[i].region == region && Some(i) != con)
+        })
+    }
+
     fn seed_array_with_poly_center(
         &mut self,
         chf: &CompactHeightfield,
-- 
2.43.0


From 0088f585bb01e375d7ff84550142a6861605de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 35/35] fix: find nothing when looking up coordinates beside a
 field

---
 crates/rerecast/src/compact_heightfield.rs | 20 ++++++++++----------
 crates/rerecast/src/heightfield.rs         |  4 ++++
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index f41fad3..d93445e 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -265,35 +265,35 @@ impl CompactHeightfield {
     /// Returns the cell at the given coordinates. Returns `None` if the coordinates are invalid.
     #[inline]
     pub fn get_cell_at(&self, x: u16, z: u16) -> Option<&CompactCell> {
-        let Some(cell) = self.cells.get(self.column_index(x, z)) else {
+        if x >= self.width {
             // Invalid coordinates
             return None;
-        };
-        Some(cell)
+        }
+        self.cells.get(self.column_index(x, z))
     }
 
     /// Returns the cell at the given coordinates. Panics if the coordinates are invalid.
     #[inline]
     pub fn cell_at(&self, x: u16, z: u16) -> &CompactCell {
-        &self.cells[self.column_index(x, z)]
+        self.get_cell_at(x, z).expect("Invalid cell coordinates")
     }
 
     /// Returns the cell mutably at the given coordinates. Returns `None` if the coordinates are invalid.
     #[inline]
     pub fn get_cell_at_mut(&mut self, x: u16, z: u16) -> Option<&mut CompactCell> {
-        let index = self.column_index(x, z);
-        let Some(cell) = self.cells.get_mut(index) else {
+        if x >= self.width {
             // Invalid coordinates
             return None;
-        };
-        Some(cell)
+        }
+        let index = self.column_index(x, z);
+        self.cells.get_mut(index)
     }
 
     /// Returns the cell mutably at the given coordinates. Panics if the coordinates are invalid.
     #[inline]
     pub fn cell_at_mut(&mut self, x: u16, z: u16) -> &mut CompactCell {
-        let index = self.column_index(x, z);
-        &mut self.cells[index]
+        self.get_cell_at_mut(x, z)
+            .expect("Invalid cell coordinates")
     }
 
     /// Given a span at the indices `(x, z)`, a direction `dir`, and a connection `con`, returns:
diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 508735e..140a40b 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -194,6 +194,10 @@ impl Heightfield {
     /// `None` if either the index is out of bounds or there is no span in the column.
     #[inline]
     pub fn span_key_at(&self, x: u16, z: u16) -> Option<SpanKey> {
+        if x >= self.width {
+            // Invalid coordinates
+            return None;
+        }
         let column_index = self.column_index(x, z);
         let Some(span_key) = self.spans.get(column_index) else {
             // Invalid coordinates
-- 
2.43.0

