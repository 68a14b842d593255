From 6cc7f355ae7c40456c648ccc4fb9451f153d3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 01/14] fix: report incompatible run-time shapes in Add, Sub
 and Mul instead of panicking

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..200fbd6 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -239,7 +239,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -371,7 +371,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -525,7 +525,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From 0e7419c9ba252f7ea51cc4d4d0be81260923c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:54 +0000
Subject: [PATCH 02/14] fix: keep the operand order when zipping a scalar with
 an array of rank two or more

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From 17d46c1592f15b0584dc52556eca480b4a317cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:56 +0000
Subject: [PATCH 03/14] fix: contract a vector with a non-square matrix over
 the matrix's rows

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..28ff6e7 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,14 +187,14 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From acbaae81997bdec34d500c24c9db575c6c0a1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 04/14] fix: evaluate powers of a homogeneous zero base by the
 exponent

---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 200fbd6..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From 3653cda3d81b39a3fc5ddfe2b922a98fb8ccf68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 05/14] fix: scale the adjoint when a dual number is multiplied
 by a plain one

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..83a33f7 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: Buffer + std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<V::Output, A::Output>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: Buffer + std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<V::Output, A::Output>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From 89c62a644ee674f3d5115f173bdfd81d3d277435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 06/14] fix: print expressions known to be zero as 0

---
 aegir/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
-- 
2.43.0


From eb617f101e495b57d3f1ade7eed1fe94daa2b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 07/14] fix: print AddOne, Sinh, ArcSin, Erf, DiGamma and
 powers of zero as the function they evaluate

---
 aegir/src/ops/arithmetic/binary.rs |  5 ++++-
 aegir/src/ops/arithmetic/unary.rs  |  2 +-
 aegir/src/ops/special.rs           | 11 +++++++++--
 aegir/src/ops/trig.rs              |  4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 397aec0..27e6fd0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,10 +153,13 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
             (One, _) => One,
             (l, One) => l,
+            (Zero, Text(r)) => Text(PreWrap {
+                text: format!("0^{}", r.to_safe_string('(', ')')),
+                needs_wrap: true,
+            }),
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
                 needs_wrap: false,
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..f09468b 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..42e4d1e 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -55,7 +55,10 @@ impl_unary!(
                 text: "\u{221E}".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..f46d6cf 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
@@ -156,7 +156,7 @@ impl_unary!(
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From 82bd3270852ff48b9ba1f3e0b3697649ae54c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 08/14] fix: bracket printed powers, negations and negative
 constants where leaving them bare changes the reading

---
 aegir/src/meta/constant.rs         |  8 ++++----
 aegir/src/ops/arithmetic/binary.rs |  6 +++---
 aegir/src/ops/arithmetic/unary.rs  | 10 +++++-----
 aegir/src/ops/logarithmic.rs       |  2 +-
 aegir/src/ops/trig.rs              |  6 +++---
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..dcb62fe 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -101,10 +101,10 @@ where
 
 impl<B: Buffer + ToString> ToExpr for Constant<B> {
     fn to_expr(&self) -> Expr {
-        Expr::Text(PreWrap {
-            text: self.0.to_string(),
-            needs_wrap: false,
-        })
+        let text = self.0.to_string();
+        let needs_wrap = text.starts_with('-');
+
+        Expr::Text(PreWrap { text, needs_wrap })
     }
 }
 
diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 27e6fd0..dae9a5f 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -162,7 +162,7 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
             }),
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -415,13 +415,13 @@ impl<L: ToExpr, R: ToExpr> ToExpr for Sub<L, R> {
             (One, Zero) => One,
             (Zero, One) => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), Zero) => Text(l),
             (Zero, Text(r)) => Text(PreWrap {
                 text: format!("-{}", r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), One) => Text(PreWrap {
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index f09468b..fdba250 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -29,7 +29,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -149,7 +149,7 @@ impl_unary!(
             One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("({})^2", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -295,11 +295,11 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("-{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/logarithmic.rs b/aegir/src/ops/logarithmic.rs
index b89cdea..2be7925 100644
--- a/aegir/src/ops/logarithmic.rs
+++ b/aegir/src/ops/logarithmic.rs
@@ -116,7 +116,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("𝑒^{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
         }
     }
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index f46d6cf..e58a2a0 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -153,7 +153,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("asin({})", pw),
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From 503fb230acc5d98dd4103c37c30ec068541a6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 09/14] fix: print sigma, tau and upsilon with their own
 letters

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


From aed4b02b941f81baa919c5b5d010ced3cdfaa571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 10/14] fix: print identifiers declared without a symbol by
 their own name

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From 3504fc85977649e1b9cd59ecfb541fa3cba17997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 11/14] fix: enumerate the single empty index of a rank-zero
 run-time shape

---
 aegir/src/buffers/shapes/multi_product.rs | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..6c49b77 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -45,16 +45,21 @@ enum MultiProductIterState {
     MidIter { on_first_iter: bool },
 }
 
+// The flag is set while the only (empty) index of a rank-zero product is yet to
+// be yielded.
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM], bool);
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
-        MultiProduct(sizes.map(|s| MultiProductIter {
-            cur: None,
-            iter: 0..s,
-            iter_orig: 0..s,
-        }))
+        MultiProduct(
+            sizes.map(|s| MultiProductIter {
+                cur: None,
+                iter: 0..s,
+                iter_orig: 0..s,
+            }),
+            DIM == 0,
+        )
     }
 
     fn iterate_last(
@@ -118,6 +123,10 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if std::mem::take(&mut self.1) {
+            return Some(self.curr_iterator());
+        }
+
         if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
@@ -127,7 +136,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return 0;
+            return self.1 as usize;
         }
 
         if !self.in_progress() {
@@ -153,7 +162,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (0, Some(0));
+            return (self.1 as usize, Some(self.1 as usize));
         }
 
         if !self.in_progress() {
-- 
2.43.0


From 8ed97ce44a485aa5ae5f9fe70f90a6dcee96b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 12/14] fix: print double-dot products through their expression
 like the other products

---
 aegir/src/ops/linalg/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/linalg/mod.rs b/aegir/src/ops/linalg/mod.rs
index c1040f7..80a551f 100644
--- a/aegir/src/ops/linalg/mod.rs
+++ b/aegir/src/ops/linalg/mod.rs
@@ -190,8 +190,8 @@ impl<L: ToExpr, R: ToExpr> ToExpr for TensorDoubleDot<L, R> {
     }
 }
 
-impl<L: std::fmt::Display, R: std::fmt::Display> std::fmt::Display for TensorDoubleDot<L, R> {
+impl<L: ToExpr, R: ToExpr> std::fmt::Display for TensorDoubleDot<L, R> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "({}) : ({})", self.0, self.1)
+        self.to_expr().fmt(f)
     }
 }
-- 
2.43.0


From 579de8544c274deeecfa02eb3ccb41e99d78bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 13/14] fix: formula macro regrouped prefix operators and casts
 on the left of an operator

---
 aegir_compile/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aegir_compile/src/lib.rs b/aegir_compile/src/lib.rs
index 333297b..03f2d33 100644
--- a/aegir_compile/src/lib.rs
+++ b/aegir_compile/src/lib.rs
@@ -41,11 +41,22 @@ impl Fold for ConvertToAegir {
                     }
                 }
 
+                // Prefix operators and casts bind tighter than binary operators, but
+                // looser than method calls; keep them together with brackets:
+                let receiver = Box::new(match self.fold_expr(*b.left) {
+                    e @ Expr::Unary(_)
+                    | e @ Expr::Reference(_)
+                    | e @ Expr::Box(_)
+                    | e @ Expr::Cast(_)
+                    | e @ Expr::Type(_) => parse_quote!((#e)),
+                    e => e,
+                });
+
                 match *b.right {
                     Expr::Lit(ref l) if method == "pow" && is_two(&l.lit) => {
                         Expr::MethodCall(ExprMethodCall {
                             attrs: b.attrs,
-                            receiver: Box::new(self.fold_expr(*b.left)),
+                            receiver,
                             dot_token: token::Dot { spans: [span] },
                             method: Ident::new("squared", span),
                             turbofish: None,
@@ -60,7 +71,7 @@ impl Fold for ConvertToAegir {
 
                         Expr::MethodCall(ExprMethodCall {
                             attrs: b.attrs,
-                            receiver: Box::new(self.fold_expr(*b.left)),
+                            receiver,
                             dot_token: token::Dot { spans: [span] },
                             method: Ident::new(method, span),
                             turbofish: None,
-- 
2.43.0


From c6741176905f68ef49726fc43f468d0b4cbd09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 14/14] fix: print an identifier's symbol literally, not as a
 format string

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 4482081..709a7eb 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    f.write_str(#symbol)
                 }
             }
         })
-- 
2.43.0

