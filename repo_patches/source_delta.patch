From dc5029627da289cd87d0c42e7179cc9e77261c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:56 +0000
Subject: [PATCH 1/5] hooks: access to private items for verification, behind
 cfg(verif_hooks)

---
 src/lib.rs         |   5 +++
 src/verif_hooks.rs | 108 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 113 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 9abe061..1f69fb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 // XXX: Change this to deny later on
 #![warn(unused_attributes, unused_imports, unused_mut, unused_must_use)]
 #![allow(non_snake_case)]
+#![allow(unexpected_cfgs)] // cfg(verif_hooks)
 
 // Internal macros. Must come first!
 #[macro_use]
@@ -14,4 +15,8 @@ pub mod decaf;
 mod field;
 pub mod ristretto;
 
+// Access to private items for the verification harness, off unless built with `--cfg verif_hooks`
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 pub use field::Scalar;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..a17f29c
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,108 @@
+//! Access to private items for the verification harness.
+//! Compiled only with `RUSTFLAGS="--cfg verif_hooks"`; not a part of the API.
+use crate::curve::scalar_mul;
+use crate::curve::twedwards::extended::ExtendedPoint;
+use crate::field::{FieldElement, Scalar};
+use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable};
+
+/// A field element of the back end in use.
+#[derive(Clone, Copy)]
+pub struct Fe(FieldElement);
+
+fn choice(b: bool) -> Choice {
+    Choice::from(b as u8)
+}
+
+impl Fe {
+    pub fn from_bytes(b: &[u8; 56]) -> Fe {
+        Fe(FieldElement::from_bytes(b))
+    }
+    pub fn to_bytes(&self) -> [u8; 56] {
+        self.0.to_bytes()
+    }
+    pub fn one() -> Fe {
+        Fe(FieldElement::one())
+    }
+    pub fn minus_one() -> Fe {
+        Fe(FieldElement::minus_one())
+    }
+    pub fn add(&self, o: &Fe) -> Fe {
+        Fe(self.0 + o.0)
+    }
+    pub fn sub(&self, o: &Fe) -> Fe {
+        Fe(self.0 - o.0)
+    }
+    pub fn mul(&self, o: &Fe) -> Fe {
+        Fe(self.0 * o.0)
+    }
+    pub fn square(&self) -> Fe {
+        Fe(self.0.square())
+    }
+    pub fn negate(&self) -> Fe {
+        Fe(self.0.negate())
+    }
+    pub fn strong_reduce(&self) -> Fe {
+        let mut r = self.0;
+        r.strong_reduce();
+        Fe(r)
+    }
+    pub fn invert(&self) -> Fe {
+        Fe(self.0.invert())
+    }
+    pub fn inverse_square_root(&self) -> (Fe, bool) {
+        let (r, c) = self.0.inverse_square_root();
+        (Fe(r), c.into())
+    }
+    pub fn sqrt_ratio(u: &Fe, v: &Fe) -> (Fe, bool) {
+        let (r, c) = FieldElement::sqrt_ratio(&u.0, &v.0);
+        (Fe(r), c.into())
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative().into()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero().into()
+    }
+    pub fn eq(&self, o: &Fe) -> bool {
+        self.0 == o.0
+    }
+    pub fn select(a: &Fe, b: &Fe, c: bool) -> Fe {
+        Fe(FieldElement::conditional_select(&a.0, &b.0, choice(c)))
+    }
+    pub fn cond_negate(&self, c: bool) -> Fe {
+        let mut r = self.0;
+        r.conditional_negate(choice(c));
+        Fe(r)
+    }
+    pub fn swap(a: &Fe, b: &Fe, c: bool) -> (Fe, Fe) {
+        let (mut x, mut y) = (a.0, b.0);
+        FieldElement::conditional_swap(&mut x, &mut y, choice(c));
+        (Fe(x), Fe(y))
+    }
+}
+
+// Twisted-curve operations that are private to the crate.
+pub fn tw_is_on_curve(p: &ExtendedPoint) -> bool {
+    p.is_on_curve()
+}
+pub fn tw_double(p: &ExtendedPoint) -> ExtendedPoint {
+    p.double()
+}
+pub fn tw_add(p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint {
+    p.add(q)
+}
+pub fn tw_affine_add(p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint {
+    p.to_affine().add(&q.to_affine()).to_extended()
+}
+pub fn tw_affine_negate(p: &ExtendedPoint) -> ExtendedPoint {
+    p.to_affine().negate().to_extended()
+}
+pub fn tw_variable_base(p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint {
+    scalar_mul::variable_base(p, s)
+}
+pub fn tw_double_and_add(p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint {
+    scalar_mul::double_and_add(p, s)
+}
+pub fn tw_double_base(a: &Scalar, p: &ExtendedPoint, b: &Scalar) -> ExtendedPoint {
+    scalar_mul::double_base_scalar_mul(a, p, b)
+}
-- 
2.43.0


From e9b3930c49f32718e44b009eb28e6eefe12b4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:40 +0000
Subject: [PATCH 2/5] fix: Montgomery ladder: undo the pending swap so that odd
 scalars give sP, not (s+1)P

---
 src/curve/montgomery/montgomery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..656a191 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,8 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        // Undo the swap of the last step, which is pending when the scalar is odd
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From 6cd6cef830b94c7a4e25d8571a142ee420c904b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 3/5] fix: reduce the operands of Scalar addition and
 subtraction, which may be any 448-bit value

---
 src/field/scalar.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/field/scalar.rs b/src/field/scalar.rs
index 35b1602..42ef7cb 100644
--- a/src/field/scalar.rs
+++ b/src/field/scalar.rs
@@ -60,7 +60,8 @@ impl IndexMut<usize> for Scalar {
 impl Add<Scalar> for Scalar {
     type Output = Scalar;
     fn add(self, rhs: Scalar) -> Self::Output {
-        add(&self, &rhs)
+        // The operands may be unreduced (see `from_bytes`)
+        add(&self.reduce(), &rhs.reduce())
     }
 }
 impl Mul<Scalar> for Scalar {
@@ -73,7 +74,8 @@ impl Mul<Scalar> for Scalar {
 impl Sub<Scalar> for Scalar {
     type Output = Scalar;
     fn sub(self, rhs: Scalar) -> Self::Output {
-        sub_extra(&self, &rhs, 0)
+        // The operands may be unreduced (see `from_bytes`)
+        sub_extra(&self.reduce(), &rhs.reduce(), 0)
     }
 }
 impl Default for Scalar {
@@ -246,6 +248,12 @@ impl Scalar {
         montgomery_multiply(&result, &Scalar::one())
     }
 
+    /// Reduces a Scalar modulo the order
+    fn reduce(&self) -> Scalar {
+        // ((self * R) / R) mod ℓ
+        montgomery_multiply(self, &R)
+    }
+
     /// Halves a Scalar modulo the prime
     pub fn halve(&self) -> Self {
         let mut result = Scalar::zero();
-- 
2.43.0


From 68cd16af09073c73f627c9382415c9cda4db3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:46 +0000
Subject: [PATCH 4/5] fix: CompressedEdwardsY::decompress rejects non-canonical
 encodings, per RFC 8032 5.2.3

---
 src/curve/edwards/extended.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/curve/edwards/extended.rs b/src/curve/edwards/extended.rs
index 13eeee2..a1ce5aa 100644
--- a/src/curve/edwards/extended.rs
+++ b/src/curve/edwards/extended.rs
@@ -41,12 +41,20 @@ impl CompressedEdwardsY {
     pub fn decompress(&self) -> Option<ExtendedPoint> {
         // Safe to unwrap here as the underlying data structure is a slice
         let (sign, b) = self.0.split_last().unwrap();
+        // Only the top bit of the last byte is used
+        if sign & 0x7f != 0 {
+            return None;
+        }
 
         let mut y_bytes: [u8; 56] = [0; 56];
         y_bytes.copy_from_slice(&b);
 
         // Recover x using y
         let y = FieldElement::from_bytes(&y_bytes);
+        // The encoding of y must be reduced
+        if y.to_bytes() != y_bytes {
+            return None;
+        }
         let yy = y.square();
         let dyy = EDWARDS_D * yy;
         let numerator = FieldElement::one() - yy;
@@ -59,6 +67,10 @@ impl CompressedEdwardsY {
 
         // Compute correct sign of x
         let compressed_sign_bit = Choice::from(sign >> 7);
+        // Zero has no negative
+        if (x.is_zero() & compressed_sign_bit).unwrap_u8() == 1 {
+            return None;
+        }
         let is_negative = x.is_negative();
         x.conditional_negate(compressed_sign_bit ^ is_negative);
 
-- 
2.43.0


From 0984c1a26406effad3fb214d8bed2a18be205249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:50 +0000
Subject: [PATCH 5/5] fix: MontgomeryPoint::is_low_order recognises the
 non-canonical encodings of 0 and 1

---
 src/curve/montgomery/montgomery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index 656a191..3cff017 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -114,7 +114,9 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // Compare the reduced u-coordinate, since every encoding of it is accepted
+        let u = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
+        (u == LOW_A) || (u == LOW_B) || (u == LOW_C)
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0

