From 2cb697f3c17fa4a66ba9628a0a97b279b2ce1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 01/21] fix: report incompatible run-time shapes from Add, Sub
 and Mul

Combining two vectors of unequal length panicked in the general branch
instead of returning BinaryError::Output as Div does.
---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..200fbd6 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -239,7 +239,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -371,7 +371,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -525,7 +525,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From 259d85e8c0f940b9eb2b43019b11380947c7d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 02/21] fix: keep operand order when zipping a scalar with a
 higher-rank array

For arrays of rank two and above the scalar was passed to the function
as the second operand, so scalar - matrix evaluated matrix - scalar.
---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From 4a33a84b0ebf79de2bb85fd846777829d04b3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 03/21] fix: evaluate powers of a known-zero base like any
 other power

0^0 was reported as 0 and 0^-1 as 0 when the base was known to be zero.
---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 200fbd6..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From ffad6a99a3d675dd1b7ce154cb63efd61d76cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 04/21] fix: scale the adjoint when multiplying a dual by a
 plain number

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..4de2d82 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: Buffer + std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, V>, MulOut<A, V>>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: Buffer + std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, &'a V>, MulOut<A, &'a V>>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From b8aad3b762460204c5bed84d79747b80fc13379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 05/21] fix: print sigma, tau and upsilon as the letters they
 are named after

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


From 3fbc4914d2c1c5d3c17b4a439480a985d5566c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 06/21] fix: print identifiers without a symbol by their own
 name

They all printed the literal text "type_id".
---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From 3135bfff2898c6d2fff2b5aa12e47cbf3964f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 07/21] fix: sum over every row in the vector-matrix dot
 product

The sum ran over the number of columns, so non-square matrices gave
wrong entries or an out-of-bounds panic.
---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..48c3ac3 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,14 +187,14 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M <= N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From 2a202d46da8acae4eb407c337188f6f39add715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 08/21] fix: differentiate cached nodes with respect to any
 identifier

Cached only implemented Differentiable for the identifier of its own
slot, so an expression with a cached sub-expression could not be
differentiated with respect to its variables.
---
 aegir/src/meta/cached.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aegir/src/meta/cached.rs b/aegir/src/meta/cached.rs
index c64add8..39b414e 100644
--- a/aegir/src/meta/cached.rs
+++ b/aegir/src/meta/cached.rs
@@ -51,14 +51,15 @@ where
     }
 }
 
-impl<N, T> Differentiable<T> for Cached<N, T>
+impl<N, T, I> Differentiable<I> for Cached<N, T>
 where
-    N: Differentiable<T>,
+    N: Differentiable<I>,
     T: Identifier,
+    I: Identifier,
 {
     type Adjoint = N::Adjoint;
 
-    fn adjoint(&self, target: T) -> Self::Adjoint {
+    fn adjoint(&self, target: I) -> Self::Adjoint {
         // TODO - find a way to propagate the cached terms through the derivative.
         // This will require some kind of search in which find-and-replace all instances of
         // N in Self::Adjoint with Cached<N, T>.
-- 
2.43.0


From ac01b6fde48d6df17b5433d6417acf05af1c219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 09/21] fix: make the adjoint of a constant differentiable

Second derivatives of any expression containing a constant did not
compile.
---
 aegir/src/meta/constant.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..e1f079c 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -184,6 +184,23 @@ where
     }
 }
 
+impl<N, T, A> Differentiable<A> for ConstantAdjoint<N, T>
+where
+    T: Identifier,
+    A: Identifier,
+
+    Self: Node + Clone,
+{
+    type Adjoint = ConstantAdjoint<Self, A>;
+
+    fn adjoint(&self, ident: A) -> Self::Adjoint {
+        ConstantAdjoint {
+            node: self.clone(),
+            target: ident,
+        }
+    }
+}
+
 impl<N: Node, T> ToExpr for ConstantAdjoint<N, T> {
     fn to_expr(&self) -> Expr { Expr::Zero }
 }
-- 
2.43.0


From 6d905ab05a27e1d939be471d3c5de434f60d22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 10/21] fix: print an expression known to be zero as 0

Its Display implementation printed nothing.
---
 aegir/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
-- 
2.43.0


From 5a54ea37e79137044f898f2f703d27e42fff9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 11/21] fix: print AddOne as a sum

---
 aegir/src/ops/arithmetic/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..f09468b 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
-- 
2.43.0


From 3d4bbd268ca5967f13c1c73b3f36363974df2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 12/21] fix: print Erf and DiGamma of zero and one correctly

erf(0) is 0, erf(1) and the digamma function at 1 are not 1.
---
 aegir/src/ops/special.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..42e4d1e 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -55,7 +55,10 @@ impl_unary!(
                 text: "\u{221E}".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
-- 
2.43.0


From 5b9475de22e2f3e86038a00951c56d7e1b2890a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 13/21] fix: print Sinh and ArcSin under their own names

---
 aegir/src/ops/trig.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..f46d6cf 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
@@ -156,7 +156,7 @@ impl_unary!(
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From b26d0777eb94ee79fa89336d3d5db57eea13083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 14/21] fix: print powers of zero and of composite bases
 correctly

0^0 is 1 and 0^x need not be 0; the base is bracketed, as Square does,
so that a negative, a power or a negation as base keeps its meaning.
---
 aegir/src/ops/arithmetic/binary.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 397aec0..a158f6c 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,12 +153,15 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
             (One, _) => One,
             (l, One) => l,
+            (Zero, Text(r)) => Text(PreWrap {
+                text: format!("0^{}", r.to_safe_string('(', ')')),
+                needs_wrap: false,
+            }),
             (Text(l), Text(r)) => Text(PreWrap {
-                text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
+                text: format!("({})^{}", l, r.to_safe_string('(', ')')),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From 24e9156a66801f94da885a6a0a72d4dfa0a53b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 15/21] fix: bracket products and quotients printed for Double,
 ArcCos, ArcSin and ArcTan

---
 aegir/src/ops/arithmetic/unary.rs | 2 +-
 aegir/src/ops/trig.rs             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index f09468b..39269c2 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index f46d6cf..dc8945e 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -83,7 +83,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{1D456}\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -153,7 +153,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("asin({})", pw),
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From 8576ccefe92dbad1fd85dbaa3dd81a3f0828d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 16/21] fix: let a known-zero factor annihilate a structured
 infinite one in Mul

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index a158f6c..ba40656 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -504,9 +504,6 @@ where
         let y = self.1.evaluate_spec(ctx).map_err(BinaryError::Right)?;
 
         let z = match (x, y) {
-            // Simple performance case if both are Spec::Full:
-            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
-
             // Short-circuits when either value are known to be all-zeroes:
             (Full(sx, fx), y) if fx.is_zero() =>
                 sx.broadcast(y.shape()).map(|sz| Spec::zeroes(sz)),
@@ -514,6 +511,9 @@ where
             (x, Full(sy, fy)) if fy.is_zero() =>
                 x.shape().broadcast(sy).map(|sz| Spec::zeroes(sz)),
 
+            // Simple performance case if both are Spec::Full:
+            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
+
             // Short-circuits when either value is known to be all-ones:
             //  x * 1 = x
             (Raw(x), Full(sy, fy)) if fy.is_zero() => x.zip_shape(sy).map(Raw),
-- 
2.43.0


From 406cd4b0553c8532809c99b92339e7ec30cddf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 17/21] fix: contract a matrix with a vector of its column
 count

---
 aegir/src/buffers/arrays/contraction_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 48c3ac3..139c961 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -142,7 +142,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     }
 }; S0);
 
-impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M] {
+impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; M]; |self, x, y| -> [F; N] {
     Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[i][k] * y[k])))
 }, {
     use Spec::*;
@@ -150,13 +150,13 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (Full(_, fx), _) if fx.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Diagonal(_, fx), Full(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Diagonal(_, fx), Full(_, fy)) if N <= M => Ok(Full(S1, fx * fy)),
 
         (Diagonal(_, fx), y) if M == N => Ok(Raw({
             let mut y = y.unwrap();
             y.mutate(|yi| fx * yi);
 
-            let ptr = &mut y as *mut _ as *mut [F; M];
+            let ptr = &mut y as *mut _ as *mut [F; N];
             let res = unsafe { ptr.read() };
 
             core::mem::forget(y);
-- 
2.43.0


From a8ead57b39e4faddd34f7b85529b7f9512ddb318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 18/21] fix: enumerate the single index of a rank-0 run-time
 shape

---
 aegir/src/buffers/shapes/multi_product.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..144354a 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -46,15 +46,21 @@ enum MultiProductIterState {
 }
 
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize>(
+    [MultiProductIter; DIM],
+    // Only relevant if `DIM = 0`: true until the one (empty) index was yielded.
+    bool,
+);
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
-        MultiProduct(sizes.map(|s| MultiProductIter {
+        let iters = sizes.map(|s| MultiProductIter {
             cur: None,
             iter: 0..s,
             iter_orig: 0..s,
-        }))
+        });
+
+        MultiProduct(iters, true)
     }
 
     fn iterate_last(
@@ -118,6 +124,10 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.0.is_empty() {
+            return std::mem::take(&mut self.1).then(|| self.curr_iterator());
+        }
+
         if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
@@ -127,7 +137,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return 0;
+            return self.1 as usize;
         }
 
         if !self.in_progress() {
@@ -153,7 +163,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (0, Some(0));
+            return (self.1 as usize, Some(self.1 as usize));
         }
 
         if !self.in_progress() {
-- 
2.43.0


From 849c9ffabd5e43d7331429f97b7110db3ebeb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 19/21] fix: accept cache fields of array and tuple type in
 derive(Context)

---
 aegir_derive/src/ctx/derive.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/aegir_derive/src/ctx/derive.rs b/aegir_derive/src/ctx/derive.rs
index 66c2285..20bd48e 100644
--- a/aegir_derive/src/ctx/derive.rs
+++ b/aegir_derive/src/ctx/derive.rs
@@ -135,18 +135,12 @@ fn parse_ty_cache(ty: &syn::Type) -> Result<syn::Type, CtxFieldError> {
             .and_then(|outer_ty| {
                 use syn::PathArguments::AngleBracketed;
 
-                if let AngleBracketed(ab) = &outer_ty.arguments {
-                    let ab_args = &ab.args;
-
-                    Some(syn::Type::Path(syn::TypePath {
-                        qself: tp.qself.clone(),
-                        path: syn::Path {
-                            leading_colon: tp.path.leading_colon.clone(),
-                            segments: parse_quote! { #ab_args },
-                        },
-                    }))
-                } else {
-                    None
+                match &outer_ty.arguments {
+                    AngleBracketed(ab) => match ab.args.first() {
+                        Some(syn::GenericArgument::Type(ty)) => Some(ty.clone()),
+                        _ => None,
+                    },
+                    _ => None,
                 }
             })
             .ok_or(CtxFieldError::ImproperCacheType)
-- 
2.43.0


From 9daa9fc507438921a8d555a5f31499e634b6fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 20/21] fix: print identifier symbols that contain braces as
 declared

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 4482081..8860709 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    write!(f, "{}", #symbol)
                 }
             }
         })
-- 
2.43.0


From 5bcd0ecf462bf0a6dcc94a6ec7be30f44b65824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 21/21] fix: sum an empty structured buffer to zero

---
 aegir/src/ops/arithmetic/unary.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index 39269c2..96c704d 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -248,8 +248,11 @@ where
         use Spec::*;
 
         Ok(match self.0.evaluate_spec(ctx)? {
-            // TODO: replace unwrap with error propagation.
-            Full(sh, val) => Full(S0, F::from_usize(sh.cardinality()).unwrap() * val),
+            Full(sh, val) => match sh.cardinality() {
+                0 => Full(S0, F::zero()),
+                // TODO: replace unwrap with error propagation.
+                n => Full(S0, F::from_usize(n).unwrap() * val),
+            },
             spec => Raw(spec.unwrap().sum()),
         })
     }
-- 
2.43.0

