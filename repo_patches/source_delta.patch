From 4d55faae739ffa1ea9563a4afa4c5590980048ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 1/7] fix: KDTree no longer inserts a duplicate of a point
 whose node already has a right branch

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..aeab321 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -63,10 +63,12 @@ where
                 Ordering::Greater => (&mut self.right, false)
             };
 
+        if verify_equals && self.internal_data == data {
+            return false;
+        }
+
         if let Some(branch_exists) = branch_to_use.as_mut() {
             return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
-            return false;
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From e6b26a4f0fcc886ffaaae0b649b9eb1743b6fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 2/7] fix: graham_scan sorts the points after downsampling,
 even if the input was sorted

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..2d321f0 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling never preserves the order of the points, so they must always be sorted afterwards
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 199878902feaf44fcb9eafb37974511db7b9e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 3/7] fix: haversine distance is no longer NaN for nearly
 antipodal points

---
 crates/mapping-algorithms/src/geo/haversine.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..db64c7a 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{Point2, RealField, Scalar};
-use num_traits::Float;
+use num_traits::{clamp, Float};
 
 #[inline]
 fn half_angle_sine_squared<T>(input: T) -> T
@@ -62,8 +62,13 @@ where
     let lat1_radians = point_a.x.to_radians();
     let lat2_radians = point_b.x.to_radians();
 
-    let basic_haversine = half_angle_sine_squared(delta_lat)
-        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos();
+    // Rounding errors can push this slightly out of range for (nearly) antipodal points
+    let basic_haversine = clamp(
+        half_angle_sine_squared(delta_lat)
+            + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos(),
+        T::zero(),
+        T::one(),
+    );
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
-- 
2.43.0


From 56d62f72d482add19b6bbd42665e8be07349e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 4/7] fix: jarvis_march no longer skips hull vertices or loops
 forever on collinear points

---
 .../mapping-algorithms/src/polygons/jarvis_march.rs   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..6f5fe55 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -78,7 +78,11 @@ where
     loop {
         hull.push(*current_vertex);
         let mut endpoint = &points_downsampled_slice[0];
-        for point in points_downsampled_slice {
+        // Sweep twice, as a collinear point behind the current vertex may hide a valid endpoint from the first sweep
+        for point in points_downsampled_slice
+            .iter()
+            .chain(points_downsampled_slice)
+        {
             if endpoint == current_vertex
                 || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
             {
@@ -91,6 +95,11 @@ where
         if current_vertex == &hull[0] {
             break;
         }
+
+        // A hull never has more vertices than there are points, so these points are all collinear
+        if hull.len() == points_downsampled_slice.len() {
+            return None;
+        }
     }
 
     if hull.len() < 3 {
-- 
2.43.0


From 592d5386452c51eb27eee3bee1f95e6cbc0cc871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 5/7] fix: ICP updates no longer hang or ignore half turns when
 building the rotation

---
 crates/mapping-algorithms/src/types/isometry.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..d9c2224 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation, SMatrix, UnitComplex, UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +70,11 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The matrix is already a rotation, extracting one from it iteratively may fail or never end
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation)),
+        ) * old_transform
     }
 }
 
@@ -95,7 +98,10 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The matrix is already a rotation, extracting one from it iteratively may fail or never end
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation)),
+        ) * old_transform
     }
 }
-- 
2.43.0


From 824ac94d26c5677b5d0f0c472196aefc6abe39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 6/7] fix: build without the pregenerated feature (guard the
 hull macros' invocations)

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs  | 2 ++
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 2d321f0..58cd541 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -169,7 +169,9 @@ macro_rules! impl_graham_scan {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f64, doc double);
 
 #[cfg(test)]
diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 6f5fe55..c1126b9 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -145,7 +145,9 @@ macro_rules! impl_jarvis_march {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f64, doc double);
 
 #[cfg(test)]
-- 
2.43.0


From e88885563cab4c61cf44d24911b4d2825c004191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 7/7] fix: points left of a polygon are never inside it,
 however the crossing rounds

is_single_point_in_polygon computes where an edge crosses the height of the point; rounding could put that crossing
left of both ends of the edge, so a point left of the whole polygon could count as inside (and
are_multiple_points_in_polygon, which checks the extents first, disagreed). Left of both ends the ray always meets the
edge, so the crossing is not needed there.
---
 crates/mapping-algorithms/src/polygons/point_in_polygon.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
index 9994d9f..c9a2895 100644
--- a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
+++ b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
@@ -46,6 +46,11 @@ where
         && point.y <= vertex1.y.max(vertex2.y)
         && point.x <= vertex1.x.max(vertex2.x)
     {
+        // Left of both vertices the ray always meets the segment, no matter how the division below would round
+        if point.x <= vertex1.x.min(vertex2.x) {
+            return true;
+        }
+
         let origin_x = (vertex1.y != vertex2.y)
             .then(|| {
                 (point.y - vertex1.y) * (vertex2.x - vertex1.x) / (vertex2.y - vertex1.y)
-- 
2.43.0

