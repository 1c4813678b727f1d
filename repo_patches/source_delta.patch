From 5d82d7c61e807ed07dc2a5b58f34a7a2976ddfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 01/21] fix: zero base raised to an arbitrary exponent is not
 always zero

Power::evaluate_spec answered 0 for an all-zero base whatever the exponent,
so 0^0 evaluated to 0 (when the exponent is a plain value) and 0^-1 to 0.
---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..0d09f5b 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From 355ef2f1bfe781127c06cc69859e1ec667e837f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 02/21] fix: scalar-array zip_map keeps the operand order at
 rank two and above

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From 78551f3adf2c13c506160511591a6a892b0e4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 03/21] fix: adding, subtracting or multiplying buffers of
 different shapes is an error, not a panic

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 0d09f5b..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -238,7 +238,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -370,7 +370,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -524,7 +524,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From 35f57fc93237b27dd1c6d99de2fbab70fa64b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 04/21] fix: vector-matrix product sums over the rows of the
 matrix

---
 aegir/src/buffers/arrays/contraction_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..8360efa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,7 +187,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
-- 
2.43.0


From 2de5a409b6a3e4e668195165b9485c2aa3ffa504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 05/21] fix: matrix-vector product takes a vector as long as
 the matrix is wide

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 8360efa..1df04aa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -142,7 +142,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     }
 }; S0);
 
-impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M] {
+impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; M]; |self, x, y| -> [F; N] {
     Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[i][k] * y[k])))
 }, {
     use Spec::*;
@@ -156,7 +156,7 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
             let mut y = y.unwrap();
             y.mutate(|yi| fx * yi);
 
-            let ptr = &mut y as *mut _ as *mut [F; M];
+            let ptr = &mut y as *mut _ as *mut [F; N];
             let res = unsafe { ptr.read() };
 
             core::mem::forget(y);
-- 
2.43.0


From 9f8373ec5805783c2c3f9149cec0cc04e00c294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 06/21] fix: a non-square diagonal contracted with a constant
 vector is not constant

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 1df04aa..8d023cf 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -150,7 +150,7 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; M]; |self, x, y| -> [F; N]
     match (x, y) {
         (Full(_, fx), _) if fx.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Diagonal(_, fx), Full(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Diagonal(_, fx), Full(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (Diagonal(_, fx), y) if M == N => Ok(Raw({
             let mut y = y.unwrap();
@@ -194,7 +194,7 @@ impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From 7395a07bf64ed728a054a7fe383ac3a321d16f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 07/21] fix: multiplying a dual number by a constant scales its
 adjoint

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..bdc818d 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<V::Output, A::Output>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<V::Output, A::Output>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From 76e56c1a195a58150a89375b85c7dc73787997f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 08/21] fix: an identifier declared without a symbol displays
 as its own name

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From f70d14fba7e97ec45175200dfabb972801971e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 09/21] fix: symbols of the sigma, tau and upsilon identifiers

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


From 527bb4b47b858394f2a85e03f2f6ea798ca25c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 10/21] fix: a cached node can be differentiated with respect
 to any identifier

---
 aegir/src/meta/cached.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aegir/src/meta/cached.rs b/aegir/src/meta/cached.rs
index c64add8..5339c0c 100644
--- a/aegir/src/meta/cached.rs
+++ b/aegir/src/meta/cached.rs
@@ -51,14 +51,15 @@ where
     }
 }
 
-impl<N, T> Differentiable<T> for Cached<N, T>
+impl<N, T, A> Differentiable<A> for Cached<N, T>
 where
-    N: Differentiable<T>,
+    N: Differentiable<A>,
     T: Identifier,
+    A: Identifier,
 {
     type Adjoint = N::Adjoint;
 
-    fn adjoint(&self, target: T) -> Self::Adjoint {
+    fn adjoint(&self, target: A) -> Self::Adjoint {
         // TODO - find a way to propagate the cached terms through the derivative.
         // This will require some kind of search in which find-and-replace all instances of
         // N in Self::Adjoint with Cached<N, T>.
-- 
2.43.0


From d25ec0b4b900e7f245b143a6e30a80329d7bafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 11/21] fix: the adjoint of a constant is itself differentiable

---
 aegir/src/meta/constant.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..4508f8c 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -184,6 +184,22 @@ where
     }
 }
 
+impl<N, T, A> Differentiable<A> for ConstantAdjoint<N, T>
+where
+    N: Node + Clone,
+    T: Identifier,
+    A: Identifier,
+{
+    type Adjoint = ConstantAdjoint<Self, A>;
+
+    fn adjoint(&self, ident: A) -> Self::Adjoint {
+        ConstantAdjoint {
+            node: self.clone(),
+            target: ident,
+        }
+    }
+}
+
 impl<N: Node, T> ToExpr for ConstantAdjoint<N, T> {
     fn to_expr(&self) -> Expr { Expr::Zero }
 }
-- 
2.43.0


From 59450a94119233ac483f7cd2039548e9229d5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 12/21] fix: display a zero expression as 0 instead of nothing

---
 aegir/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
-- 
2.43.0


From e85f008edf2ae42ac8c93c838b3ed0498f6f3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 13/21] fix: display AddOne as a sum, not a difference

---
 aegir/src/ops/arithmetic/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..f09468b 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
-- 
2.43.0


From 03bddf94418a3ce6214971044ddfae92af9b276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 14/21] fix: display ArcSin as asin, not acos

---
 aegir/src/ops/trig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..1b8a779 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -156,7 +156,7 @@ impl_unary!(
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From ac5e249e6a11ed7e36a33c0aa72763b7a2f630d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 15/21] fix: display Sinh of one as sinh(1), not sin(1)

---
 aegir/src/ops/trig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 1b8a779..f46d6cf 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-- 
2.43.0


From a16b1ee9aa21467baf35b1d4d5633b9c240e406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:42 +0000
Subject: [PATCH 16/21] fix: display erf(0) as 0, and erf(1) and digamma(1) as
 themselves

---
 aegir/src/ops/special.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..42e4d1e 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -55,7 +55,10 @@ impl_unary!(
                 text: "\u{221E}".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
-- 
2.43.0


From 43fd71148984dea6fe82e060eef8c337736161b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:42 +0000
Subject: [PATCH 17/21] fix: bracket signs, products, quotients and powers when
 they are displayed as operands

---
 aegir/src/ops/arithmetic/binary.rs |  6 +++---
 aegir/src/ops/arithmetic/unary.rs  | 10 +++++-----
 aegir/src/ops/logarithmic.rs       |  4 ++--
 aegir/src/ops/trig.rs              |  8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 397aec0..3c71384 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -159,7 +159,7 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -412,13 +412,13 @@ impl<L: ToExpr, R: ToExpr> ToExpr for Sub<L, R> {
             (One, Zero) => One,
             (Zero, One) => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), Zero) => Text(l),
             (Zero, Text(r)) => Text(PreWrap {
                 text: format!("-{}", r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), One) => Text(PreWrap {
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index f09468b..fdba250 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -29,7 +29,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -149,7 +149,7 @@ impl_unary!(
             One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("({})^2", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -295,11 +295,11 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("-{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/logarithmic.rs b/aegir/src/ops/logarithmic.rs
index b89cdea..32b1766 100644
--- a/aegir/src/ops/logarithmic.rs
+++ b/aegir/src/ops/logarithmic.rs
@@ -26,7 +26,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-\u{221E}".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -116,7 +116,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("𝑒^{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
         }
     }
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index f46d6cf..dc8945e 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -83,7 +83,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{1D456}\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -153,7 +153,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("asin({})", pw),
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From 4af832b4e7df5a2e2d743edfcddd72c1c4e2864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:42 +0000
Subject: [PATCH 18/21] fix: display zero to the power zero as one, the value
 it evaluates to

---
 aegir/src/ops/arithmetic/binary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 3c71384..0c1ea74 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,8 +153,8 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
+            (Zero, _) => Zero,
             (One, _) => One,
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
-- 
2.43.0


From 901939ac0beb51ebe76889dcc0c061e2230e808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:42 +0000
Subject: [PATCH 19/21] fix: bracket negative constants when they are displayed
 as operands

---
 aegir/src/meta/constant.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 4508f8c..302050b 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -101,10 +101,10 @@ where
 
 impl<B: Buffer + ToString> ToExpr for Constant<B> {
     fn to_expr(&self) -> Expr {
-        Expr::Text(PreWrap {
-            text: self.0.to_string(),
-            needs_wrap: false,
-        })
+        let text = self.0.to_string();
+        let needs_wrap = text.starts_with('-');
+
+        Expr::Text(PreWrap { text, needs_wrap })
     }
 }
 
-- 
2.43.0


From 000ba3363ad5eface81fb12a1236ec87503f01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 20/21] fix: display identifier symbols containing braces
 verbatim

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 4482081..709a7eb 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    f.write_str(#symbol)
                 }
             }
         })
-- 
2.43.0


From e8b881530c85ddf5a5bdee50f247af6f73a1fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 21/21] fix: enumerate the single index of a rank-0 runtime
 shape

---
 aegir/src/buffers/shapes/multi_product.rs | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..20857ef 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -46,15 +46,18 @@ enum MultiProductIterState {
 }
 
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM], bool);
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
-        MultiProduct(sizes.map(|s| MultiProductIter {
-            cur: None,
-            iter: 0..s,
-            iter_orig: 0..s,
-        }))
+        MultiProduct(
+            sizes.map(|s| MultiProductIter {
+                cur: None,
+                iter: 0..s,
+                iter_orig: 0..s,
+            }),
+            false,
+        )
     }
 
     fn iterate_last(
@@ -118,6 +121,15 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The empty product has exactly one (empty) index.
+        if DIM == 0 {
+            return if std::mem::replace(&mut self.1, true) {
+                None
+            } else {
+                Some(self.curr_iterator())
+            };
+        }
+
         if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
@@ -127,7 +139,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return 0;
+            return if self.1 { 0 } else { 1 };
         }
 
         if !self.in_progress() {
@@ -153,7 +165,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (0, Some(0));
+            return if self.1 { (0, Some(0)) } else { (1, Some(1)) };
         }
 
         if !self.in_progress() {
-- 
2.43.0

