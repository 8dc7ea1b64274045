From bb7418992b700891ee96ff80fe913c7d0a5ce44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:44 +0000
Subject: [PATCH 1/5] fix: Display of matrices writes its leading newline to
 the formatter, not to stdout

---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From bdbdc0b377f264a736820a8fdb8ff7b64dd57530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:28 +0000
Subject: [PATCH 2/5] fix: V3 * M33 is the row-vector product, as for the other
 sizes

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..25c4cd4 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            rhs[(0, 0)] * self[0] + rhs[(1, 0)] * self[1] + rhs[(2, 0)] * self[2],
+            rhs[(0, 1)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(2, 1)] * self[2],
+            rhs[(0, 2)] * self[0] + rhs[(1, 2)] * self[1] + rhs[(2, 2)] * self[2])
     }
 }
 
-- 
2.43.0


From 8d80c686213fea164573ebf9b6aecd2e2f064164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:28 +0000
Subject: [PATCH 3/5] fix: DualQuaternion::log of a pure translation does not
 panic

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..71c2208 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -288,7 +288,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let two = one + one;
             let half = one / two;
             let (axis, angle) = self.real().axis_angle();
-            let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
+            let q_real = Quaternion::new_imag(&(axis.unwrap_or_else(V3::zeros) * half * angle));
             let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
             Some(DualQuaternion::new(q_real, q_dual))
         } else {
-- 
2.43.0


From 8939b3414ce716abb084bf4df34b1402cbefa840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:28 +0000
Subject: [PATCH 4/5] fix: Quaternion::sin does not panic when the norm of the
 imaginary part overflows

---
 src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..dd11a25 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -516,7 +516,7 @@ impl<T: Float + Signed> Quaternion<T> {
         let one = T::one();
         let two = one + one;
         let l = self.argq();
-        ((*self * l).exp() - (*self * -l).exp())/ (l * two)
+        ((*self * l).exp() - (*self * -l).exp()) * -l / two
     }
 
     /// cos function apply to the current Quaternion
-- 
2.43.0


From 9118861054ec7bd70770de6d8f66e98db0b4631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:19 +0000
Subject: [PATCH 5/5] fix: Quaternion::slerp of nearly opposite ends does not
 return zero

---
 src/quaternion.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index dd11a25..e5d3184 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -461,12 +461,10 @@ impl<T: Float> Quaternion<T> {
         let sin_half_theta = T::sqrt(one - cos_half_theta * cos_half_theta);
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
         if sin_half_theta.abs() < T::from(0.001).unwrap() {
-            if !reverse_a {
-                result.q0   = (one - t) * a.q0 + t * b.q0;
-                result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
-            }
+            // when we take the other way around the end is -b
+            let aux = if reverse_a { -t } else { t };
+            result.q0 = (one - t) * a.q0 + aux * b.q0;
+            result.q  = a.q * (one - t) + b.q * aux;
             return result
         }
         let aux1 = T::sin((one - t) * half_theta) / sin_half_theta;
-- 
2.43.0

