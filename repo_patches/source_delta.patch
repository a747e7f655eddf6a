From b2adee6f55c0672d3f68548444f52846f04bade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 01/24] fix: Mat3::inverse divides the whole cofactor by the
 determinant

---
 lib/mat.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..604365f 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1155,23 +1155,23 @@ macro_rules! define_mat3 {
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    (t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
                     -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    (t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From 2a0d8c087c873225b753992eb821713a81434666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 02/24] fix: Mat4::inverse returns the inverse, not its
 transpose, and keeps the storage order

---
 lib/mat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 604365f..253f4d6 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1523,7 +1523,10 @@ macro_rules! define_mat4 {
                 }
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
-                let mut inv: Mat4<$v_type> = Default::default();
+                let mut inv = Mat4 {
+                    _val: [0 as $v_type; 16],
+                    _is_row_major: self._is_row_major,
+                };
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1655,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From d950d6ae828d7bd6afa63ddd963bf0af720de4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 03/24] fix: slerp uses the angle to the flipped end when the
 dot product is negative

---
 lib/quat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..146e1bc 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -493,7 +493,7 @@ macro_rules! define_quat {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
                     let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From ccdb0f1ff36ab8747176a518de61e215021ae3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:53 +0000
Subject: [PATCH 04/24] fix: quaternion ln takes the log of the length and the
 angle of w/length

---
 lib/quat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 146e1bc..afa2a65 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -362,7 +362,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let l_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -370,12 +370,12 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
                     _z: vec_z * s,
-                    _w: w_ln,
+                    _w: l_ln,
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 1230fa81457c193f8a06c337438861b14eb77a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:53 +0000
Subject: [PATCH 05/24] fix: to_axis_angle does not return NaN when w rounds
 past one

---
 lib/quat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index afa2a65..c3461f9 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -197,7 +197,9 @@ macro_rules! define_quat {
             }
             #[allow(dead_code)]
             pub fn to_axis_angle(&self) -> (Mat3x1<$v_type>, $v_type) {
-                let k = (1 as $v_type - self._w * self._w).sqrt();
+                //rounding can leave w of a unit quaternion slightly outside of [-1,1]
+                let w = self._w.max(-1 as $v_type).min(1 as $v_type);
+                let k = (1 as $v_type - w * w).sqrt();
                 if k < 0.000001 {
                     return (
                         Mat3x1 {
@@ -215,7 +217,7 @@ macro_rules! define_quat {
                         Mat3x1 {
                             _val: [vec_x / l, vec_y / l, vec_z / l],
                         },
-                        2 as $v_type * self._w.acos(),
+                        2 as $v_type * w.acos(),
                     );
                 }
             }
-- 
2.43.0


From e84e56ab0d511d6fd0537f8c6eb0bc3ad099cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:54 +0000
Subject: [PATCH 06/24] fix: get_longest_axis compares both ways

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 0f978d82b3cb0ae212996fdd7ab1b9cb5c118803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 07/24] fix: sphere-point intersection tests the distance, not
 the bounding cube

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..702ab81 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From a844100049242380d991bd6c17aaab76e7b84dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 08/24] fix: a sphere entirely behind a plane does not
 intersect it

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 702ab81..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -111,7 +111,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From 6b7c9253cfc009111e1c58d4e9395ecac7f6bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 09/24] fix: gjk rejects shapes separated along the initial
 support direction

---
 lib/intersect_gjk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..f411334 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -79,6 +79,10 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     let mut simplex = vec![];
     {
         let sup = support(a, b, &d).unwrap();
+        if sup.dot(&d).unwrap() < 0f64 {
+            //origin is beyond the furthest vertex in this direction
+            return Some(false);
+        }
         simplex.push(sup);
     }
 
-- 
2.43.0


From b1c256ed7922b277b33a7740e89b78bccae3a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:19 +0000
Subject: [PATCH 10/24] fix: ray-point intersection with rays that have a zero
 direction component

---
 lib/ray.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..fa7c5bb 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -150,13 +150,18 @@ impl IShape for Ray3 {
                     let a_dir = self._dir;
                     let a_off = self._ori;
                     //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //t = dot(b_off - a_off, a_dir), since a_dir is of unit length
+                    let d = b_off.minus(&a_off).unwrap();
+                    let t = d.dot(&a_dir).unwrap();
+                    let closest = a_dir.scale(t).unwrap();
+                    if !self.within_vicinity(d[0], closest[0])
+                        || !self.within_vicinity(d[1], closest[1])
+                        || !self.within_vicinity(d[2], closest[2])
+                    {
                         return (false, None);
                     } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
+                        if t >= 0f64 {
+                            return (true, Some(closest.plus(&a_off).unwrap()));
                         } else {
                             //the point is behind the ray origin and direction
                             return (false, None);
-- 
2.43.0


From f7681b4242bea57204c09f51c4489036c7e55ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 11/24] fix: ray-ray intersection rejects skew rays and hits
 behind either origin

---
 lib/ray.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index fa7c5bb..2f7684e 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,17 +75,16 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let d = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
-                    let dot_v_c = v.dot(&c).unwrap();
-                    if !self.within_vicinity(dot_v_c, 0f64) {
-                        //they are not in the same place, so no intersection occurs
+                    let dot_v_d = v.dot(&d).unwrap();
+                    if !self.within_vicinity(dot_v_d, 0f64) {
+                        //they are not in the same plane, so no intersection occurs
                         return (false, None);
                     }
                     //test for colinearity
                     let zero: Mat3x1<f64> = Default::default();
-                    let d = b_off.minus(&a_off).unwrap();
                     if v.is_equal(&zero, 0.0001f64).unwrap() {
                         //lines are parallel
                         //check triangle area formed by points on ray a and b
@@ -125,10 +124,12 @@ impl IShape for Ray3 {
                             }
                         }
                     } else {
-                        //solvable intersection exists
-                        let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        //solvable intersection of the lines exists, at t on ray a and s on ray b
+                        let v_v = v.dot(&v).unwrap();
+                        let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_v;
+                        let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_v;
+                        if t < -self._vicinity || s < -self._vicinity {
+                            //the intersection is behind the origin of a ray
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From fecf8e175daa5c0a43a25c8eb75c21447ca83659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 12/24] fix: ray-plane intersection treats rounding of a
 parallel ray as parallel

---
 lib/ray.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 2f7684e..e999b55 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -243,9 +243,9 @@ impl IShape for Ray3 {
                     let constant = b_off.dot(&b_nor).unwrap();
                     let numerator = constant - b_nor.dot(&self._ori).unwrap();
                     let denominator = b_nor.dot(&self._dir).unwrap();
-                    if denominator == 0f64 {
+                    if self.within_vicinity(denominator, 0f64) {
                         //ray direction is colplaner to the plane
-                        if constant == self._ori.dot(&b_nor).unwrap() {
+                        if self.within_vicinity(numerator, 0f64) {
                             return (true, Some(self._ori));
                         } else {
                             return (false, None);
-- 
2.43.0


From e4f8418cfaed141d0d86bed0fb450e3fb4c38843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 13/24] fix: point-point intersection honours the vicinity

---
 lib/point.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/point.rs b/lib/point.rs
index aafc3ce..ed5cb3e 100644
--- a/lib/point.rs
+++ b/lib/point.rs
@@ -37,7 +37,12 @@ impl IShape for Point3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        if !self.get_bound().intersect(other.get_bound()) {
+        //the bound of a point has no extent, so points are compared by vicinity only
+        let is_point = match other.get_type() {
+            ShapeType::Point => true,
+            _ => false,
+        };
+        if !is_point && !self.get_bound().intersect(other.get_bound()) {
             return (false, None);
         } else {
             match other.get_type() {
-- 
2.43.0


From 66665e123a73233bf71e6d9d6dd9abcc8f7dd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 14/24] fix: a zero length segment outside a prism does not
 intersect it

---
 lib/triprism.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..d1318fa 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -270,6 +270,10 @@ impl IShape for TriPrism {
 
                     let v = b.minus(&a).unwrap();
                     let mag = v.magnitude().unwrap();
+                    if mag == 0f64 {
+                        //a segment of no length has no direction, and its end is outside
+                        return (false, None);
+                    }
 
                     let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
 
-- 
2.43.0


From 0bfccea6efd2078cfc3577fe5463618a2ea3d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 15/24] fix: segment-prism intersection tolerates rounding of
 the entry point

---
 lib/triprism.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index d1318fa..aad13b1 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -346,9 +346,11 @@ impl IShape for TriPrism {
                             let collide_point = res.1.unwrap();
                             let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
 
-                            //one more check necesary for the candidate collision point
+                            //one more check necesary for the candidate collision point,
+                            //which is on the facet only up to rounding
                             let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap() > 0.)
+                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap()
+                                    > self._vicinity)
                             });
 
                             if !is_point_inside || mag2 > mag {
-- 
2.43.0


From bb6b8aa53c056f5e0a96f1e3d1f8ad749a5227a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 16/24] fix: element-wise matrix operations honour the storage
 order of both operands

---
 lib/mat.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/lib/mat.rs b/lib/mat.rs
index 253f4d6..d9e7c8f 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -945,8 +945,20 @@ macro_rules! define_mat3 {
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
+            //the same matrix in the given storage order
+            fn with_order(&self, row_major: bool) -> Mat3<$v_type> {
+                if self._is_row_major == row_major {
+                    *self
+                } else {
+                    Mat3 {
+                        _val: self.transpose()._val,
+                        _is_row_major: row_major,
+                    }
+                }
+            }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1018,6 +1030,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1035,6 +1048,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1052,6 +1066,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] - other._val[0],
@@ -1265,8 +1280,20 @@ macro_rules! define_mat4 {
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
+            //the same matrix in the given storage order
+            fn with_order(&self, row_major: bool) -> Mat4<$v_type> {
+                if self._is_row_major == row_major {
+                    *self
+                } else {
+                    Mat4 {
+                        _val: self.transpose()._val,
+                        _is_row_major: row_major,
+                    }
+                }
+            }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1349,6 +1376,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1373,6 +1401,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1397,6 +1426,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = &other.with_order(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] - other._val[0],
-- 
2.43.0


From ced8f341c6e7398c1f947fb5562d515405e3521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 17/24] fix: the translation matrix of a translation quaternion
 translates

---
 lib/quat.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index c3461f9..5d35274 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,18 +105,18 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            2 as $v_type * self._x,
                             0 as $v_type,
-                            self._x,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._y,
+                            1 as $v_type,
                             0 as $v_type,
+                            2 as $v_type * self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            self._z,
+                            1 as $v_type,
+                            2 as $v_type * self._z,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
@@ -126,21 +126,21 @@ macro_rules! define_quat {
                     ),
                     _ => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._x,
-                            self._y,
-                            self._z,
+                            2 as $v_type * self._x,
+                            2 as $v_type * self._y,
+                            2 as $v_type * self._z,
                             1 as $v_type,
                         ],
                         false,
-- 
2.43.0


From 1e3db2360948d2bfd8e1882cc726d2cf3418d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 18/24] fix: column-major matrices made from a quaternion are
 not transposed

---
 lib/quat.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 5d35274..847cce3 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -124,8 +124,8 @@ macro_rules! define_quat {
                         ],
                         true,
                     ),
-                    _ => Mat4::<$v_type>::init(
-                        [
+                    _ => Mat4 {
+                        _val: [
                             1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
@@ -143,8 +143,8 @@ macro_rules! define_quat {
                             2 as $v_type * self._z,
                             1 as $v_type,
                         ],
-                        false,
-                    ),
+                        _is_row_major: false,
+                    },
                 }
             }
             #[allow(dead_code)]
@@ -172,8 +172,8 @@ macro_rules! define_quat {
                         ],
                         true,
                     ), //last row
-                    _ => Mat4::<$v_type>::init(
-                        [
+                    _ => Mat4 {
+                        _val: [
                             1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
                             2 as $v_type * (self._x * self._y + self._z * self._w),
                             2 as $v_type * (self._x * self._z - self._y * self._w),
@@ -191,8 +191,8 @@ macro_rules! define_quat {
                             0 as $v_type,
                             1 as $v_type,
                         ],
-                        false,
-                    ), //last column
+                        _is_row_major: false,
+                    }, //last column
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From af6d0458eb96a0186aaaeb7fe3e5c766f0eb8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 19/24] fix: Mat3::inverse uses the cofactor signs of every
 entry

---
 lib/mat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index d9e7c8f..7994bf9 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1176,11 +1176,11 @@ macro_rules! define_mat3 {
                 *out.index_mut(2, 0) =
                     (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    (t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    (t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
                     (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
-- 
2.43.0


From 0e84c6be12b8c1afb1a8b5651585d2b81d9bdf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 20/24] fix: the tolerance of segment-prism intersection is a
 distance

---
 lib/triprism.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index aad13b1..0cf3fba 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -348,8 +348,13 @@ impl IShape for TriPrism {
 
                             //one more check necesary for the candidate collision point,
                             //which is on the facet only up to rounding
-                            let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap()
+                            //(the facet normals are of unit length, so this compares distances)
+                            let is_point_inside = facets.iter().all(|f| {
+                                !(collide_point
+                                    .minus(&f._offset)
+                                    .unwrap()
+                                    .dot(&f._normal)
+                                    .unwrap()
                                     > self._vicinity)
                             });
 
-- 
2.43.0


From d8fa1ee2186e9c8b8851e18f07ba9c95783410ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 21/24] fix: gjk keeps the plane of its search instead of
 recovering it from thin triangles

---
 lib/intersect_gjk.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index f411334..0ec1f71 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -22,7 +22,13 @@ fn pass_minkowski_origin(last_vert: &Mat3x1<f64>, support: &Mat3x1<f64>) -> bool
     last_vert.dot(&support).unwrap() > 0f64
 }
 
-fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x1<f64>) -> bool {
+//the search stays in the plane of the first two vertices and the origin; plane is its normal,
+//kept from the line segment case since it cannot be recovered from a thin triangle
+fn contains_minkowski_origin(
+    simplex: &mut Vec<Mat3x1<f64>>,
+    support: &mut Mat3x1<f64>,
+    plane: &mut Mat3x1<f64>,
+) -> bool {
     let a = simplex.last().unwrap().clone();
     let ao = a.scale(-1f64).unwrap();
     if simplex.len() == 3 {
@@ -31,8 +37,15 @@ fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x
         let c = simplex[0];
         let ab = b.minus(&a).unwrap();
         let ac = c.minus(&a).unwrap();
-        let ab_normal = ac.cross(&ab).unwrap().cross(&ab).unwrap();
-        let ac_normal = ab.cross(&ac).unwrap().cross(&ac).unwrap();
+        //edge normals in the plane, pointing away from the other vertex
+        let mut ab_normal = ab.cross(&plane).unwrap();
+        if ab_normal.dot(&ac).unwrap() > 0f64 {
+            ab_normal = ab_normal.scale(-1f64).unwrap();
+        }
+        let mut ac_normal = ac.cross(&plane).unwrap();
+        if ac_normal.dot(&ab).unwrap() > 0f64 {
+            ac_normal = ac_normal.scale(-1f64).unwrap();
+        }
         if ab_normal.dot(&ao).unwrap() > 0f64 {
             //remove c and set new direction to ab_normal
             let simplex_new = vec![simplex[1], simplex[2]];
@@ -52,7 +65,8 @@ fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x
         //set direction towards minkowski origin
         let b = simplex[0];
         let ab = b.minus(&a).unwrap();
-        let ab_normal = ab.cross(&ao).unwrap().cross(&ao).unwrap();
+        *plane = ab.cross(&ao).unwrap();
+        let ab_normal = plane.cross(&ao).unwrap();
         if ab_normal.magnitude().unwrap() == 0f64 {
             return true;
         } else {
@@ -87,6 +101,7 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     }
 
     d = d.scale(-1f64).unwrap();
+    let mut plane: Mat3x1<f64> = Default::default();
     loop {
         // println!( "support vector: {:?}", d );
         {
@@ -99,7 +114,7 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
             // println!( "new vert not pass origin" );
             return Some(false);
         } else {
-            if contains_minkowski_origin(&mut simplex, &mut d) {
+            if contains_minkowski_origin(&mut simplex, &mut d, &mut plane) {
                 return Some(true);
             }
         }
-- 
2.43.0


From 70f56443b348dac84477a17997fabfde4e4c4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 22/24] fix: a segment that starts on a facet of a prism up to
 rounding meets it

---
 lib/triprism.rs | 97 ++++++++++++++++---------------------------------
 1 file changed, 31 insertions(+), 66 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 0cf3fba..0e09e63 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -222,61 +222,6 @@ impl IShape for TriPrism {
 
                     //test points aginst 5 half spaces from facets of the tri_prism to determine if point is inside the tri_prism
 
-                    let n = self._normal_height;
-
-                    let tests = vec![
-                        (self._tri_base[0], n.scale(-1.).unwrap()),
-                        (self._tri_base2[0], n),
-                        (
-                            self._tri_base[0],
-                            self._tri_base[1]
-                                .minus(&self._tri_base[0])
-                                .unwrap()
-                                .cross(&n)
-                                .unwrap(),
-                        ),
-                        (
-                            self._tri_base[1],
-                            self._tri_base[2]
-                                .minus(&self._tri_base[1])
-                                .unwrap()
-                                .cross(&n)
-                                .unwrap(),
-                        ),
-                        (
-                            self._tri_base[2],
-                            self._tri_base[0]
-                                .minus(&self._tri_base[2])
-                                .unwrap()
-                                .cross(&n)
-                                .unwrap(),
-                        ),
-                    ];
-
-                    let a_is_inside = tests
-                        .iter()
-                        .all(|(vert, normal)| !(a.minus(vert).unwrap().dot(normal).unwrap() > 0.));
-                    let b_is_inside = tests
-                        .iter()
-                        .all(|(vert, normal)| !(b.minus(vert).unwrap().dot(normal).unwrap() > 0.));
-
-                    if a_is_inside {
-                        return (true, Some(a));
-                    } else if b_is_inside {
-                        return (true, Some(b));
-                    }
-
-                    //continue test using ray plane intersection
-
-                    let v = b.minus(&a).unwrap();
-                    let mag = v.magnitude().unwrap();
-                    if mag == 0f64 {
-                        //a segment of no length has no direction, and its end is outside
-                        return (false, None);
-                    }
-
-                    let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
-
                     let n1 = self._normal_height;
                     let n0 = n1.scale(-1.).unwrap();
                     let n2 = self._tri_base[1]
@@ -338,6 +283,35 @@ impl IShape for TriPrism {
                         ),
                     ];
 
+                    //facet normals are of unit length, so this compares distances;
+                    //a point on a facet is so only up to rounding
+                    let is_inside_facets = |p: &Mat3x1<f64>| {
+                        facets.iter().all(|f| {
+                            !(p.minus(&f._offset).unwrap().dot(&f._normal).unwrap()
+                                > self._vicinity)
+                        })
+                    };
+
+                    let a_is_inside = is_inside_facets(&a);
+                    let b_is_inside = is_inside_facets(&b);
+
+                    if a_is_inside {
+                        return (true, Some(a));
+                    } else if b_is_inside {
+                        return (true, Some(b));
+                    }
+
+                    //continue test using ray plane intersection
+
+                    let v = b.minus(&a).unwrap();
+                    let mag = v.magnitude().unwrap();
+                    if mag == 0f64 {
+                        //a segment of no length has no direction, and its end is outside
+                        return (false, None);
+                    }
+
+                    let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
+
                     let mut intersect_point = None;
                     let mut is_inside = false;
                     for i in facets.iter() {
@@ -346,17 +320,8 @@ impl IShape for TriPrism {
                             let collide_point = res.1.unwrap();
                             let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
 
-                            //one more check necesary for the candidate collision point,
-                            //which is on the facet only up to rounding
-                            //(the facet normals are of unit length, so this compares distances)
-                            let is_point_inside = facets.iter().all(|f| {
-                                !(collide_point
-                                    .minus(&f._offset)
-                                    .unwrap()
-                                    .dot(&f._normal)
-                                    .unwrap()
-                                    > self._vicinity)
-                            });
+                            //one more check necesary for the candidate collision point
+                            let is_point_inside = is_inside_facets(&collide_point);
 
                             if !is_point_inside || mag2 > mag {
                                 continue;
-- 
2.43.0


From 05c2197766351dff01c7657a3875d3e017fb1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 23/24] fix: to_axis_angle does not panic next to the identity

---
 lib/quat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 847cce3..de909f8 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -200,7 +200,11 @@ macro_rules! define_quat {
                 //rounding can leave w of a unit quaternion slightly outside of [-1,1]
                 let w = self._w.max(-1 as $v_type).min(1 as $v_type);
                 let k = (1 as $v_type - w * w).sqrt();
-                if k < 0.000001 {
+                //next to the identity rounding can leave a zero vector part with w short of one
+                let no_axis = self._x == 0 as $v_type
+                    && self._y == 0 as $v_type
+                    && self._z == 0 as $v_type;
+                if k < 0.000001 || no_axis {
                     return (
                         Mat3x1 {
                             _val: [1 as $v_type, 0 as $v_type, 0 as $v_type],
-- 
2.43.0


From 60f6b15712d100614865b665456118d9d3a63911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:26 +0000
Subject: [PATCH 24/24] fix: a segment far from the origin meets the prism it
 passes through

The entry point was tested against the facets within an absolute tolerance,
which rounding exceeds for large coordinates. Clip the segment instead.
---
 lib/triprism.rs | 55 +++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 0e09e63..449d7c1 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -7,7 +7,6 @@ use bound::AxisAlignedBBox;
 use mat::Mat3x1;
 
 use plane::Plane;
-use ray::Ray3;
 
 #[derive(Debug, Clone, Default)]
 pub struct TriPrism {
@@ -301,42 +300,36 @@ impl IShape for TriPrism {
                         return (true, Some(b));
                     }
 
-                    //continue test using ray plane intersection
+                    //both ends are outside: clip the segment by the facets, and it meets the prism
+                    //if it enters past all of them before it leaves past any, where the facets
+                    //are moved outwards by the tolerance
 
                     let v = b.minus(&a).unwrap();
-                    let mag = v.magnitude().unwrap();
-                    if mag == 0f64 {
-                        //a segment of no length has no direction, and its end is outside
-                        return (false, None);
-                    }
-
-                    let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
-
-                    let mut intersect_point = None;
-                    let mut is_inside = false;
-                    for i in facets.iter() {
-                        let res = r.get_intersect(i);
-                        if res.0 {
-                            let collide_point = res.1.unwrap();
-                            let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
-
-                            //one more check necesary for the candidate collision point
-                            let is_point_inside = is_inside_facets(&collide_point);
-
-                            if !is_point_inside || mag2 > mag {
-                                continue;
-                            } else {
-                                is_inside = true;
-                                intersect_point = res.1;
-                                break;
-                            }
+                    let mut enter = 0f64;
+                    let mut exit = 1f64;
+                    let mut on_facet = 0f64;
+                    for f in facets.iter() {
+                        let a_dist = a.minus(&f._offset).unwrap().dot(&f._normal).unwrap();
+                        let b_dist = b.minus(&f._offset).unwrap().dot(&f._normal).unwrap();
+                        if a_dist > self._vicinity && b_dist > self._vicinity {
+                            return (false, None);
+                        }
+                        let t = (a_dist - self._vicinity) / (a_dist - b_dist);
+                        if a_dist > self._vicinity {
+                            enter = enter.max(t);
+                        } else if b_dist > self._vicinity {
+                            exit = exit.min(t);
+                        }
+                        if a_dist > 0f64 && b_dist < 0f64 {
+                            on_facet = on_facet.max(a_dist / (a_dist - b_dist));
                         }
                     }
 
-                    if is_inside {
-                        (true, intersect_point)
-                    } else {
+                    if enter > exit {
                         (false, None)
+                    } else {
+                        let t = enter.max(on_facet).min(exit);
+                        (true, Some(a.plus(&v.scale(t).unwrap()).unwrap()))
                     }
                 }
                 _ => {
-- 
2.43.0

