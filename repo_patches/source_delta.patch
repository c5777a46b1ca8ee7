From 957aa5a4afb1b1a108fa5cabf0d52d3838cd7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 1/5] fix: FlatIter must not stop at an empty inner sequence

---
 src/matrix/base/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index dcf7eaa..11b3571 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -35,12 +35,12 @@ where
 {
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
-        self.subiter.next().or_else(|| {
-            self.iter.next().and_then(|a| {
-                self.subiter = a.into_iter();
-                self.subiter.next()
-            })
-        })
+        loop {
+            if let Some(x) = self.subiter.next() {
+                return Some(x);
+            }
+            self.subiter = self.iter.next()?.into_iter();
+        }
     }
 }
 
-- 
2.43.0


From 119b94bf6d28fb7633b6ab67450a9c9ef9dffc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 2/5] fix: iterating a matrix without rows must not panic

---
 src/matrix/base/iter.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index 11b3571..aab2bd3 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -9,7 +9,7 @@ where
     II: Iterator,
 {
     iter: I,
-    subiter: II,
+    subiter: Option<II>,
 }
 
 impl<I, IT, II> FlatIter<I, IT, II>
@@ -22,9 +22,16 @@ where
     pub fn new(mut iter: I) -> Option<Self> {
         iter.next().map(|a| Self {
             iter,
-            subiter: a.into_iter(),
+            subiter: Some(a.into_iter()),
         })
     }
+    /// Like `new`, but an empty sequence yields an empty iterator.
+    fn flatten(iter: I) -> Self {
+        Self {
+            iter,
+            subiter: None,
+        }
+    }
 }
 
 impl<I, IT, II> Iterator for FlatIter<I, IT, II>
@@ -36,10 +43,10 @@ where
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if let Some(x) = self.subiter.next() {
+            if let Some(x) = self.subiter.as_mut().and_then(|s| s.next()) {
                 return Some(x);
             }
-            self.subiter = self.iter.next()?.into_iter();
+            self.subiter = Some(self.iter.next()?.into_iter());
         }
     }
 }
@@ -47,11 +54,11 @@ where
 impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     /// Returns iterator over matrix element refrences.
     pub fn iter(&self) -> impl Iterator<Item = &T> {
-        FlatIter::new(self.data.iter()).unwrap()
+        FlatIter::flatten(self.data.iter())
     }
     /// Returns iterator over matrix element mutable refrences.
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        FlatIter::new(self.data.iter_mut()).unwrap()
+        FlatIter::flatten(self.data.iter_mut())
     }
 }
 
@@ -66,14 +73,14 @@ impl<T, const M: usize, const N: usize> IntoIterator for Matrix<T, M, N> {
     >;
 
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.into_iter()).unwrap()
+        Self::IntoIter::flatten(self.data.into_iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a Matrix<T, M, N> {
     type Item = &'a T;
     type IntoIter = FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter()).unwrap()
+        Self::IntoIter::flatten(self.data.iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M, N> {
@@ -81,7 +88,7 @@ impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M
     type IntoIter =
         FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter_mut()).unwrap()
+        Self::IntoIter::flatten(self.data.iter_mut())
     }
 }
 
-- 
2.43.0


From c07e8cf25959350f26bb8ee3fa5de5d6c2fbdf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 3/5] fix: printing a vector without elements must not panic

---
 src/vector/base/format.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vector/base/format.rs b/src/vector/base/format.rs
index c76a13c..055af3f 100644
--- a/src/vector/base/format.rs
+++ b/src/vector/base/format.rs
@@ -7,10 +7,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{:?}, ", self[i])?;
+        for i in 0..N {
+            if i != 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{:?}", self[i])?;
         }
-        write!(f, "{:?})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
@@ -21,10 +24,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{}, ", self[i])?;
+        for i in 0..N {
+            if i != 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{}", self[i])?;
         }
-        write!(f, "{})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
-- 
2.43.0


From 3d83f2f39c2d613a432b1698be22bd09ceabd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 4/5] fix: directions and normals must flip under a negative
 scale

---
 src/transform/scale.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/transform/scale.rs b/src/transform/scale.rs
index 29295ae..f8a016e 100644
--- a/src/transform/scale.rs
+++ b/src/transform/scale.rs
@@ -6,7 +6,8 @@ use crate::{
 };
 #[cfg(feature = "approx")]
 use approx::{abs_diff_eq, AbsDiffEq};
-use num_traits::{Num, Inv};
+use core::ops::Neg;
+use num_traits::{Num, Inv, Zero};
 #[cfg(feature = "rand")]
 use rand_::{distributions::Distribution, Rng};
 
@@ -62,12 +63,18 @@ where
 impl<T, const N: usize> Directional<Vector<T, N>> for Scale<T>
 where
     Self: Transform<Vector<T, N>>,
+    T: Neg<Output = T> + Zero + PartialOrd,
 {
     fn apply_dir(&self, _: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> {
-        dir
-    }
-    fn apply_normal(&self, _: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
-        normal
+        // Scaling by a negative magnitude flips directions.
+        if self.mag < T::zero() {
+            -dir
+        } else {
+            dir
+        }
+    }
+    fn apply_normal(&self, pos: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
+        self.apply_dir(pos, normal)
     }
 }
 
-- 
2.43.0


From a846df5cf7d66024c77ebb57499ecd6162f3139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 5/5] fix: uniform spatial rotations must be uniform over all
 rotations

---
 src/transform/rotation.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/transform/rotation.rs b/src/transform/rotation.rs
index 02871af..f2a7842 100644
--- a/src/transform/rotation.rs
+++ b/src/transform/rotation.rs
@@ -328,18 +328,11 @@ where
 #[cfg(feature = "rand")]
 impl<T> Distribution<Rotation3<T>> for Uniform
 where
-    Unit: Distribution<Vector<T, 3>>,
-    RangedUniform<T>: Distribution<T>,
-    T: SampleUniform + Float + FloatConst + NumCast,
+    Unit: Distribution<Quaternion<T>>,
 {
+    /// A uniform unit quaternion: with a uniform axis, the angle itself must not be uniform.
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Rotation3<T> {
-        Rotation3::new(
-            rng.sample(&Unit),
-            rng.sample(&RangedUniform::new(
-                T::zero(),
-                T::from(2.0).unwrap() * T::PI(),
-            )),
-        )
+        Rotation3::from_quaternion(rng.sample(&Unit))
     }
 }
 #[cfg(feature = "approx")]
-- 
2.43.0

