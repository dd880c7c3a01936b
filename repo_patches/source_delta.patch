From 506f1c1a916227d2c05df36007d0d5485b58989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 1/6] fix: min() of vector and matrix keeps the smaller element
 next to incomparable ones

With elements that do not compare (NaN), the fold replaced the current
minimum by a later, larger element: [1, NaN, 2].min() returned 2.
---
 src/matrix/ops/base.rs | 2 +-
 src/vector/ops/base.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/ops/base.rs b/src/matrix/ops/base.rs
index e551459..4e5086b 100644
--- a/src/matrix/ops/base.rs
+++ b/src/matrix/ops/base.rs
@@ -204,7 +204,7 @@ impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     where
         T: PartialOrd,
     {
-        self.fold_first(|x, y| if x < y { x } else { y })
+        self.fold_first(|x, y| if y < x { y } else { x })
     }
 }
 
diff --git a/src/vector/ops/base.rs b/src/vector/ops/base.rs
index f0f10a0..a5bc453 100644
--- a/src/vector/ops/base.rs
+++ b/src/vector/ops/base.rs
@@ -227,7 +227,7 @@ impl<T, const N: usize> Vector<T, N> {
     where
         T: PartialOrd,
     {
-        self.fold_first(|x, y| if x < y { x } else { y })
+        self.fold_first(|x, y| if y < x { y } else { x })
     }
 }
 
-- 
2.43.0


From 9e304046e8619e348400c81f898f56978c918682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 2/6] fix: FlatIter skips empty sub-iterators instead of ending
 the sequence

[[1], [], [2]] was flattened to 1 followed by None.
---
 src/matrix/base/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index dcf7eaa..b78b7d0 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -35,12 +35,12 @@ where
 {
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
-        self.subiter.next().or_else(|| {
-            self.iter.next().and_then(|a| {
-                self.subiter = a.into_iter();
-                self.subiter.next()
-            })
-        })
+        loop {
+            if let Some(x) = self.subiter.next() {
+                break Some(x);
+            }
+            self.subiter = self.iter.next()?.into_iter();
+        }
     }
 }
 
-- 
2.43.0


From 59dbf5cde35384418e00a21553908a11a6233134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 3/6] fix: iterating over a matrix without rows yields nothing
 instead of panicking

Matrix::<T, 0, N>::iter(), iter_mut() and into_iter() unwrapped the
absent first row, and so did everything built on them (is_zero(), the
assign operators).
---
 src/matrix/base/iter.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index b78b7d0..dca12d6 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -9,7 +9,7 @@ where
     II: Iterator,
 {
     iter: I,
-    subiter: II,
+    subiter: Option<II>,
 }
 
 impl<I, IT, II> FlatIter<I, IT, II>
@@ -22,9 +22,16 @@ where
     pub fn new(mut iter: I) -> Option<Self> {
         iter.next().map(|a| Self {
             iter,
-            subiter: a.into_iter(),
+            subiter: Some(a.into_iter()),
         })
     }
+    /// Create `FlatIter` from sequence of `IntoIter`s that may be empty.
+    fn flatten(iter: I) -> Self {
+        Self {
+            iter,
+            subiter: None,
+        }
+    }
 }
 
 impl<I, IT, II> Iterator for FlatIter<I, IT, II>
@@ -36,10 +43,10 @@ where
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if let Some(x) = self.subiter.next() {
+            if let Some(x) = self.subiter.as_mut().and_then(|s| s.next()) {
                 break Some(x);
             }
-            self.subiter = self.iter.next()?.into_iter();
+            self.subiter = Some(self.iter.next()?.into_iter());
         }
     }
 }
@@ -47,11 +54,11 @@ where
 impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     /// Returns iterator over matrix element refrences.
     pub fn iter(&self) -> impl Iterator<Item = &T> {
-        FlatIter::new(self.data.iter()).unwrap()
+        FlatIter::flatten(self.data.iter())
     }
     /// Returns iterator over matrix element mutable refrences.
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        FlatIter::new(self.data.iter_mut()).unwrap()
+        FlatIter::flatten(self.data.iter_mut())
     }
 }
 
@@ -66,14 +73,14 @@ impl<T, const M: usize, const N: usize> IntoIterator for Matrix<T, M, N> {
     >;
 
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.into_iter()).unwrap()
+        Self::IntoIter::flatten(self.data.into_iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a Matrix<T, M, N> {
     type Item = &'a T;
     type IntoIter = FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter()).unwrap()
+        Self::IntoIter::flatten(self.data.iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M, N> {
@@ -81,7 +88,7 @@ impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M
     type IntoIter =
         FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter_mut()).unwrap()
+        Self::IntoIter::flatten(self.data.iter_mut())
     }
 }
 
-- 
2.43.0


From 884dee180d4a0deae9459279b2d7a287d793a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 4/6] fix: formatting a vector without elements no longer
 panics

Debug and Display computed N - 1, which underflows for Vector<T, 0>.
---
 src/vector/base/format.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vector/base/format.rs b/src/vector/base/format.rs
index c76a13c..6264eda 100644
--- a/src/vector/base/format.rs
+++ b/src/vector/base/format.rs
@@ -7,11 +7,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{:?}, ", self[i])?;
+        for (i, x) in self.iter().enumerate() {
+            if i != 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{:?}", x)?;
         }
-        write!(f, "{:?})", self[N - 1])?;
-        Ok(())
+        write!(f, ")")
     }
 }
 
@@ -21,10 +23,12 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{}, ", self[i])?;
+        for (i, x) in self.iter().enumerate() {
+            if i != 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{}", x)?;
         }
-        write!(f, "{})", self[N - 1])?;
-        Ok(())
+        write!(f, ")")
     }
 }
-- 
2.43.0


From 137d0626ed5074627e377d0661eaa6a2b0c983ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 5/6] fix: scaling by a negative magnitude reverses directions
 and normals

Scale::apply_dir() and apply_normal() returned their argument unchanged,
unlike the equal Linear transformation.
---
 src/transform/scale.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/transform/scale.rs b/src/transform/scale.rs
index 29295ae..dde0093 100644
--- a/src/transform/scale.rs
+++ b/src/transform/scale.rs
@@ -6,7 +6,8 @@ use crate::{
 };
 #[cfg(feature = "approx")]
 use approx::{abs_diff_eq, AbsDiffEq};
-use num_traits::{Num, Inv};
+use core::ops::Neg;
+use num_traits::{Num, Inv, Zero};
 #[cfg(feature = "rand")]
 use rand_::{distributions::Distribution, Rng};
 
@@ -62,12 +63,18 @@ where
 impl<T, const N: usize> Directional<Vector<T, N>> for Scale<T>
 where
     Self: Transform<Vector<T, N>>,
+    T: Neg<Output = T> + Zero + PartialOrd + Copy,
 {
     fn apply_dir(&self, _: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> {
-        dir
-    }
-    fn apply_normal(&self, _: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
-        normal
+        // Negative magnitude reverses directions.
+        if self.mag < T::zero() {
+            -dir
+        } else {
+            dir
+        }
+    }
+    fn apply_normal(&self, pos: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
+        self.apply_dir(pos, normal)
     }
 }
 
-- 
2.43.0


From 487ca296c5de78f0735e3cc9569db7d1ea5efedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 6/6] fix: sample Rotation3 evenly over all rotations

An even angle around an even axis favours small turns; the Uniform
distribution promises uniform distribution over all possible values.
---
 src/transform/rotation.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/transform/rotation.rs b/src/transform/rotation.rs
index 02871af..ff9b2c1 100644
--- a/src/transform/rotation.rs
+++ b/src/transform/rotation.rs
@@ -328,18 +328,12 @@ where
 #[cfg(feature = "rand")]
 impl<T> Distribution<Rotation3<T>> for Uniform
 where
-    Unit: Distribution<Vector<T, 3>>,
-    RangedUniform<T>: Distribution<T>,
-    T: SampleUniform + Float + FloatConst + NumCast,
+    Unit: Distribution<Quaternion<T>>,
 {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Rotation3<T> {
-        Rotation3::new(
-            rng.sample(&Unit),
-            rng.sample(&RangedUniform::new(
-                T::zero(),
-                T::from(2.0).unwrap() * T::PI(),
-            )),
-        )
+        // Evenly spread unit quaternions are evenly spread rotations,
+        // but an even angle around an even axis is not.
+        Rotation3::from_quaternion(rng.sample(&Unit))
     }
 }
 #[cfg(feature = "approx")]
-- 
2.43.0

