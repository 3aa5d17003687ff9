From f2e0ec985cbc80095ca5c635a5eb407aa63a2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 01/16] fix: 3x3 matrix inverse divides whole cofactors and
 uses their alternating signs

---
 lib/mat.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..6fc00be 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1155,23 +1155,23 @@ macro_rules! define_mat3 {
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From ffdae1c624dd8e068dab343c94dcf2193e4b1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 02/16] fix: 4x4 matrix inverse was transposed and lost the
 storage order of its operand

---
 lib/mat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 6fc00be..45bdb54 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1524,6 +1524,7 @@ macro_rules! define_mat4 {
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
                 let mut inv: Mat4<$v_type> = Default::default();
+                inv._is_row_major = self._is_row_major;
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1653,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From 1bb61735284b496b8cdc9fa30a8df0c544c3c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 03/16] fix: matrix entry access refuses rows and columns
 outside the matrix

---
 lib/mat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mat.rs b/lib/mat.rs
index 45bdb54..5983b49 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -927,6 +927,7 @@ macro_rules! define_mat3 {
             }
             #[allow(dead_code)]
             pub fn index(&self, m: u64, n: u64) -> $v_type {
+                assert!(m < 3 && n < 3);
                 if self._is_row_major {
                     self._val[(m as usize) * 3 + n as usize]
                 } else {
@@ -935,6 +936,7 @@ macro_rules! define_mat3 {
             }
             #[allow(dead_code)]
             pub fn index_mut(&mut self, m: u64, n: u64) -> &mut $v_type {
+                assert!(m < 3 && n < 3);
                 if self._is_row_major {
                     &mut self._val[(m as usize) * 3 + n as usize]
                 } else {
@@ -1247,6 +1249,7 @@ macro_rules! define_mat4 {
             }
             #[allow(dead_code)]
             pub fn index(&self, m: u64, n: u64) -> $v_type {
+                assert!(m < 4 && n < 4);
                 if self._is_row_major {
                     self._val[(m as usize) * 4 + n as usize]
                 } else {
@@ -1255,6 +1258,7 @@ macro_rules! define_mat4 {
             }
             #[allow(dead_code)]
             pub fn index_mut(&mut self, m: u64, n: u64) -> &mut $v_type {
+                assert!(m < 4 && n < 4);
                 if self._is_row_major {
                     &mut self._val[(m as usize) * 4 + n as usize]
                 } else {
-- 
2.43.0


From 7fe8fafc5422a65dd380364b6cb3143b7001fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 04/16] fix: elementwise matrix operations pair logical entries
 when storage orders differ

---
 lib/mat.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/mat.rs b/lib/mat.rs
index 5983b49..7747db9 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -943,12 +943,22 @@ macro_rules! define_mat3 {
                     &mut self._val[(m as usize) + (n as usize) * 3]
                 }
             }
+            /// same logical entries, kept in the given storage order
+            fn with_layout(&self, row_major: bool) -> Mat3<$v_type> {
+                let mut m = *self;
+                if self._is_row_major != row_major {
+                    m.transpose_self();
+                    m._is_row_major = row_major;
+                }
+                m
+            }
             #[allow(unused_variables)]
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1020,6 +1030,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1037,6 +1048,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1054,6 +1066,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] - other._val[0],
@@ -1265,12 +1278,22 @@ macro_rules! define_mat4 {
                     &mut self._val[(m as usize) + (n as usize) * 4]
                 }
             }
+            /// same logical entries, kept in the given storage order
+            fn with_layout(&self, row_major: bool) -> Mat4<$v_type> {
+                let mut m = *self;
+                if self._is_row_major != row_major {
+                    m.transpose_self();
+                    m._is_row_major = row_major;
+                }
+                m
+            }
             #[allow(unused_variables)]
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1353,6 +1376,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1377,6 +1401,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1401,6 +1426,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.with_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] - other._val[0],
-- 
2.43.0


From 4656b13742160c78eb640f80f2760e901eaf4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 05/16] fix: column-major rotation matrix of a quaternion was
 the transposed rotation

---
 lib/quat.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..76fd656 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -172,8 +172,8 @@ macro_rules! define_quat {
                         ],
                         true,
                     ), //last row
-                    _ => Mat4::<$v_type>::init(
-                        [
+                    _ => Mat4::<$v_type> {
+                        _val: [
                             1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
                             2 as $v_type * (self._x * self._y + self._z * self._w),
                             2 as $v_type * (self._x * self._z - self._y * self._w),
@@ -191,8 +191,8 @@ macro_rules! define_quat {
                             0 as $v_type,
                             1 as $v_type,
                         ],
-                        false,
-                    ), //last column
+                        _is_row_major: false,
+                    }, //last column
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 119ff22ddc1818e6d7c56fa05cee7ad58ed94c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 06/16] fix: translation matrix of a quaternion keeps the
 identity block, also in column-major order

---
 lib/quat.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 76fd656..20982e4 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,17 +105,17 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             self._x,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             self._z,
                             0 as $v_type,
                             0 as $v_type,
@@ -124,27 +124,27 @@ macro_rules! define_quat {
                         ],
                         true,
                     ),
-                    _ => Mat4::<$v_type>::init(
-                        [
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
+                    _ => Mat4::<$v_type> {
+                        _val: [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._x,
                             self._y,
                             self._z,
                             1 as $v_type,
                         ],
-                        false,
-                    ),
+                        _is_row_major: false,
+                    },
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From d13c015d717e9ffd0d1fdc5ce4ed02d427217dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 07/16] fix: quaternion logarithm uses the norm for its scalar
 part and w/|q| for its angle

---
 lib/quat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 20982e4..322af6c 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -362,7 +362,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let w_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -370,7 +370,7 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
-- 
2.43.0


From b222eb3a2957a001123b44212a1b25b62800cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:19 +0000
Subject: [PATCH 08/16] fix: slerp measures the angle to the negated end when
 it takes the shorter arc

---
 lib/quat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 322af6c..caaa450 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -493,7 +493,7 @@ macro_rules! define_quat {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
                     let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From 4834599e0104bbad05e052ab4eb8eaf744ebd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:17 +0000
Subject: [PATCH 09/16] fix: longest axis of a bound picked an axis by
 position, not by extent

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 5003725ab5e9e0029670ee5d173d5a69af797a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 10/16] fix: point against sphere compares the distance, not
 each offset on one side, with the radius

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..702ab81 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From 9d6853b62cb0bcc8185af944740bcb856496b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:19 +0000
Subject: [PATCH 11/16] fix: sphere against plane misses spheres far behind the
 plane

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 702ab81..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -111,7 +111,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From cd452df0ee6e10e181b52f8285cd826ec538a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 12/16] fix: ray against ray tests the lines' separation and
 both ray parameters

---
 lib/ray.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..7edf113 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,17 +75,16 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let d = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
-                    let dot_v_c = v.dot(&c).unwrap();
-                    if !self.within_vicinity(dot_v_c, 0f64) {
+                    let dot_v_d = v.dot(&d).unwrap();
+                    if !self.within_vicinity(dot_v_d, 0f64) {
                         //they are not in the same place, so no intersection occurs
                         return (false, None);
                     }
                     //test for colinearity
                     let zero: Mat3x1<f64> = Default::default();
-                    let d = b_off.minus(&a_off).unwrap();
                     if v.is_equal(&zero, 0.0001f64).unwrap() {
                         //lines are parallel
                         //check triangle area formed by points on ray a and b
@@ -108,6 +107,10 @@ impl IShape for Ray3 {
                                 direction * d.magnitude().unwrap() / a_dir.magnitude().unwrap();
                             // println!( "colinear lines, distance: {}", distance );
                             if distance < 0f64 {
+                                if a_dir.dot(&b_dir).unwrap() < 0f64 {
+                                    //rays point away from each other
+                                    return (false, None);
+                                }
                                 //intersection at offset of ray a, so clamp t to 0
                                 return (true, Some(a_off));
                             } else {
@@ -126,9 +129,10 @@ impl IShape for Ray3 {
                         }
                     } else {
                         //solvable intersection exists
-                        let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        let v_sqr = v.dot(&v).unwrap();
+                        let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_sqr;
+                        let u = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_sqr;
+                        if t < 0f64 || u < 0f64 {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From 704af5fac5dedb7576a654dacaa42f9419c093cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 13/16] fix: ray against point handles rays parallel to an axis

---
 lib/ray.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 7edf113..c725c42 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -153,14 +153,14 @@ impl IShape for Ray3 {
                     };
                     let a_dir = self._dir;
                     let a_off = self._ori;
-                    //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //a_dir * t + a_off = closest location to b_off on the line of the ray
+                    let t = b_off.minus(&a_off).unwrap().dot(&a_dir).unwrap();
+                    let closest = a_dir.scale(t).unwrap().plus(&a_off).unwrap();
+                    if !closest.is_equal(&b_off, self._vicinity).unwrap() {
                         return (false, None);
                     } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
+                        if t >= 0f64 {
+                            return (true, Some(closest));
                         } else {
                             //the point is behind the ray origin and direction
                             return (false, None);
-- 
2.43.0


From 96057a5daf58d3c278aa3d57d369c25386ee25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:22 +0000
Subject: [PATCH 14/16] fix: segment of zero length outside a prism was
 reported as intersecting

---
 lib/triprism.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..38124a5 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -270,6 +270,10 @@ impl IShape for TriPrism {
 
                     let v = b.minus(&a).unwrap();
                     let mag = v.magnitude().unwrap();
+                    if mag == 0. {
+                        //both ends are the same location outside of the tri_prism
+                        return (false, None);
+                    }
 
                     let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
 
-- 
2.43.0


From ca8de6ae5585c75c11dfed158999e6ca8905a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 15/16] fix: collision query checks its first support vertex
 against the origin

---
 lib/intersect_gjk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..930efd7 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -79,6 +79,10 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     let mut simplex = vec![];
     {
         let sup = support(a, b, &d).unwrap();
+        if sup.dot(&d).unwrap() < 0f64 {
+            //minkowski origin is beyond the furthest point in this direction
+            return Some(false);
+        }
         simplex.push(sup);
     }
 
-- 
2.43.0


From 2caf72c0b917886b7ceb0ceb5107244eca5aa2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:37 +0000
Subject: [PATCH 16/16] fix: location of the intersection of two spheres of
 radius 0 is a number

---
 lib/sphere.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 69ab8ce..51bcdf6 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -63,6 +63,8 @@ impl IShape for Sphere {
                     } else {
                         //calculate a mid point average
                         let f = a_r / (a_r + b_r);
+                        //spheres of radius 0 meet at their common center
+                        let f = if a_r + b_r > 0f64 { f } else { 0f64 };
                         let g = c.scale(f).unwrap();
                         return (true, Some(a_off.plus(&g).unwrap()));
                     }
-- 
2.43.0

