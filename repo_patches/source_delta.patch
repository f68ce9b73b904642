From 7379581ae8c86a0c5419be3edd9326584732d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 01/20] fix: scalar XMVectorInBoundsR sets CR6BOUNDS when all
 lanes are in bounds

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..bf0092e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From 125aec500313c00e96e43615fa9e69814432d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 02/20] fix: scalar GreaterR/GreaterOrEqualR report all-false
 for unordered (NaN) lanes

The comparison record must say 'all false' when no lane compares true, as the
SSE paths do; the scalar paths tested the complementary ordered comparison,
which is also false for NaN and so reported 'mixed'.
---
 src/vector.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index bf0092e..11fe1c0 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7542,8 +7542,8 @@ pub fn XMVector2GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -7615,8 +7615,8 @@ pub fn XMVector2GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9359,9 +9359,9 @@ pub fn XMVector3GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] <= V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9435,9 +9435,9 @@ pub fn XMVector3GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11497,10 +11497,10 @@ pub fn XMVector4GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if (V1.vector4_f32[0] <= V2.vector4_f32[0] &&
-            V1.vector4_f32[1] <= V2.vector4_f32[1] &&
-            V1.vector4_f32[2] <= V2.vector4_f32[2] &&
-            V1.vector4_f32[3] <= V2.vector4_f32[3])
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] > V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11578,10 +11578,10 @@ pub fn XMVector4GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]) &&
-            (V1.vector4_f32[3] < V2.vector4_f32[3]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] >= V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
-- 
2.43.0


From d264d1ac6f09cab983c11432e3ae2634b25366d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 03/20] fix: XMVectorSetBinaryConstant tests bit 0 of every
 selector

The SSE mask was [1,2,3,4], so lanes 1-3 tested the wrong bits; the scalar path
underflowed (and panicked in debug builds) on a set bit.
---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..b5cc253 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = 0u32.wrapping_sub(C0 & 1) & 0x3F800000;
+        vResult.u[1] = 0u32.wrapping_sub(C1 & 1) & 0x3F800000;
+        vResult.u[2] = 0u32.wrapping_sub(C2 & 1) & 0x3F800000;
+        vResult.u[3] = 0u32.wrapping_sub(C3 & 1) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From 21c7a890c0f206b8b2f6bafe4c2bc8a2df99b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 04/20] fix: scalar XMConvertVectorIntToFloat divides by
 2^DivExponent and is signed

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..6e198cf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From 52bb8a29c4b43e07f0b59558452bf11b92068d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 05/20] fix: software XMConvertHalfToFloat normalizes subnormal
 halves

---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From 4cbc76850b67aeedb797c965cb0aace119822ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:05 +0000
Subject: [PATCH 06/20] fix: XMVectorSwizzle cannot read outside the vector in
 release builds

The SSE path indexed a raw pointer with the caller's unchecked element numbers;
keep the low two bits, as the AVX instruction does.
---
 src/vector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 11fe1c0..f89ed8d 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1580,10 +1580,10 @@ pub fn XMVectorSwizzle(
 
         let pWork = mem::transmute::<_, *mut u32>(&mut Result);
 
-        idx!(mut pWork[0]) = idx!(aPtr[E0]);
-        idx!(mut pWork[1]) = idx!(aPtr[E1]);
-        idx!(mut pWork[2]) = idx!(aPtr[E2]);
-        idx!(mut pWork[3]) = idx!(aPtr[E3]);
+        idx!(mut pWork[0]) = idx!(aPtr[E0 & 3]);
+        idx!(mut pWork[1]) = idx!(aPtr[E1 & 3]);
+        idx!(mut pWork[2]) = idx!(aPtr[E2 & 3]);
+        idx!(mut pWork[3]) = idx!(aPtr[E3 & 3]);
 
         return Result;
     }
-- 
2.43.0


From 034e1779cfee6c1055d24a08953c3eb97b306501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 07/20] fix: 2- and 3-component loads and stores no longer
 require 8-byte alignment

_mm_load_sd/_mm_store_sd dereference an aligned *f64, but XMFLOAT2/3 and
[u32; 2/3] are only 4-byte aligned (undefined behaviour).
---
 src/convert.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 6e198cf..dbfb4f5 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -234,7 +234,7 @@ pub fn XMLoadInt2(
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        return _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        return _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
     }
 }
 
@@ -280,7 +280,7 @@ pub fn XMLoadFloat2(
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        return _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        return _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
     }
 }
 
@@ -313,14 +313,14 @@ pub fn XMLoadInt3(
 
     #[cfg(_XM_SSE4_INTRINSICS_)]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(mem::transmute::<_, *const f32>(&pSource[2]));
         return _mm_insert_ps(xy, z, 0x20);
     }
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(mem::transmute::<_, *const f32>(&pSource[2]));
         return _mm_movelh_ps(xy, z);
     }
@@ -370,14 +370,14 @@ pub fn XMLoadFloat3(
 
     #[cfg(_XM_SSE4_INTRINSICS_)]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(&pSource.z);
         return _mm_insert_ps(xy, z, 0x20);
     }
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(&pSource.z);
         return _mm_movelh_ps(xy, z);
     }
@@ -1050,7 +1050,7 @@ pub fn XMStoreInt2(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
     }
 }
 
@@ -1092,7 +1092,7 @@ pub fn XMStoreFloat2(
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
         let pDestination: *mut XMFLOAT2 = mem::transmute(pDestination);
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
     }
 }
 
@@ -1131,7 +1131,7 @@ pub fn XMStoreInt3(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-        _mm_store_sd(mem::transmute::<_, *mut f64>(&mut *pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(&mut *pDestination), _mm_castps_si128(V));
         let z: __m128 = XM_PERMUTE_PS!(V, _MM_SHUFFLE(2, 2, 2, 2));
         _mm_store_ss(mem::transmute::<_, *mut f32>(&mut pDestination[2]), z);
     }
@@ -1185,7 +1185,7 @@ pub fn XMStoreFloat3(
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
         let pDestination: *mut XMFLOAT3 = mem::transmute(pDestination);
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
         let z: __m128 = XM_PERMUTE_PS!(V, _MM_SHUFFLE(2, 2, 2, 2));
         _mm_store_ss(&mut (*pDestination).z, z);
     }
-- 
2.43.0


From 783f8eb8c3c77127531f2c97d65ee37a4d43b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 08/20] fix: XMLoadFloat3A does not read the uninitialized
 padding of Align16<XMFLOAT3>

---
 src/convert.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index dbfb4f5..33a8699 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -417,9 +417,11 @@ pub fn XMLoadFloat3A(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-         // Reads an extra float which is zero'd
-        let V: __m128 = _mm_load_ps(&pSource.x);
-        return _mm_and_ps(V, g_XMMask3.v);
+        // The fourth float of the aligned slot is padding and must not be read
+        let pSource: *const XMFLOAT3 = &pSource.0;
+        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(pSource as *const f64));
+        let z: __m128 = _mm_load_ss(&(*pSource).z);
+        return _mm_movelh_ps(xy, z);
     }
 }
 
-- 
2.43.0


From 1191fa8c4687ee48629baec77cd41df1f1150edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:56 +0000
Subject: [PATCH 09/20] fix: scalar XMVectorRound rounds each lane, not lane 0
 four times

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index f89ed8d..c14320a 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From 0ffa903525d4e503c41d3ea329477e66c67bf1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:31 +0000
Subject: [PATCH 10/20] fix: XMMatrixDecompose uses the x, y, z canonical basis
 for degenerate scales

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..9ac9d0c 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From fdeb463ef2e0c48e83d91788ebe7fdb1eaa278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:53 +0000
Subject: [PATCH 11/20] fix: XMPlaneNormalize does not need SSE4.1 in SSE2
 builds

---
 src/misc.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index e3c685d..e98c11a 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -2027,7 +2027,17 @@ pub fn XMPlaneNormalize(
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let mut vLengthSq: XMVECTOR = _mm_dp_ps(P, P, 0x7f);
+        let mut vLengthSq: XMVECTOR = _mm_mul_ps(P, P);
+        // x=Dot.y, y=Dot.z
+        let mut vTemp: XMVECTOR = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(2, 1, 2, 1));
+        // Result.x = x+y
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        // x=Dot.z
+        vTemp = XM_PERMUTE_PS!(vTemp, _MM_SHUFFLE(1, 1, 1, 1));
+        // Result.x = (x+y)+z
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        // Splat x
+        vLengthSq = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(0, 0, 0, 0));
         // Prepare for the division
         let mut vResult: XMVECTOR = _mm_sqrt_ps(vLengthSq);
         // Failsafe on zero (Or epsilon) length planes
-- 
2.43.0


From a1c509688bcb1d8806d80f562472fde9b7366d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:37 +0000
Subject: [PATCH 12/20] fix: triangle/triangle test classifies A against B's
 plane with A's own distances

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..0a1c573 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5271,7 +5271,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From bc496da1d364a4b686529787774ebd4538b5cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:37 +0000
Subject: [PATCH 13/20] fix: coplanar triangle/triangle test uses outward edge
 normals

---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 0a1c573..6be9cb3 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5293,7 +5293,7 @@ pub mod triangle_tests {
             let mut MinDist: XMVECTOR;
 
             // Compute an axis perpindicular to the edge (points out).
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A1, A0));
+            Axis = XMVector3Cross(XMVectorSubtract(A1, A0), N1);
             Dist = XMVector3Dot(Axis, A0);
 
             // Test points of B against the axis.
@@ -5305,7 +5305,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A1, A2)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A2, A1));
+            Axis = XMVector3Cross(XMVectorSubtract(A2, A1), N1);
             Dist = XMVector3Dot(Axis, A1);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5316,7 +5316,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A2, A0)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A0, A2));
+            Axis = XMVector3Cross(XMVectorSubtract(A0, A2), N1);
             Dist = XMVector3Dot(Axis, A2);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5327,7 +5327,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B0, B1)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B1, B0));
+            Axis = XMVector3Cross(XMVectorSubtract(B1, B0), N2);
             Dist = XMVector3Dot(Axis, B0);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5338,7 +5338,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B1, B2)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B2, B1));
+            Axis = XMVector3Cross(XMVectorSubtract(B2, B1), N2);
             Dist = XMVector3Dot(Axis, B1);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5349,7 +5349,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B2,B0)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B0, B2));
+            Axis = XMVector3Cross(XMVectorSubtract(B0, B2), N2);
             Dist = XMVector3Dot(Axis, B2);
 
             MinDist = XMVector3Dot(A0, Axis);
-- 
2.43.0


From a797a9b3fd22b8c300775c5b379b7369e66636a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:37 +0000
Subject: [PATCH 14/20] fix: frustum/triangle test uses the triangle in frustum
 space for every axis

---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 6be9cb3..ffa1650 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4434,8 +4434,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4457,9 +4457,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4480,9 +4480,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From d10872e32e4c27936e874441c3f769e3d79e91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:11 +0000
Subject: [PATCH 15/20] fix: oriented box intersection tolerates rounding for
 parallel edges

---
 src/collision.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index ffa1650..ba1f79f 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -2728,15 +2728,19 @@ impl BoundingOrientedBox {
         let RX1: XMVECTOR = unsafe { R.r[1] };
         let RX2: XMVECTOR = unsafe { R.r[2] };
 
+        // The absolute values are padded so that rounding errors in R cannot separate the boxes along the
+        // (meaningless) cross product of two parallel edges.
+        const Epsilon: XMVECTORF32 = XMVECTORF32 { f: [ 1.0e-6, 1.0e-6, 1.0e-6, 0.0 ] };
+
         // Absolute value of rows.
-        let AR0X: XMVECTOR = XMVectorAbs(R0X);
-        let AR1X: XMVECTOR = XMVectorAbs(R1X);
-        let AR2X: XMVECTOR = XMVectorAbs(R2X);
+        let AR0X: XMVECTOR = XMVectorAdd(XMVectorAbs(R0X), Epsilon.v());
+        let AR1X: XMVECTOR = XMVectorAdd(XMVectorAbs(R1X), Epsilon.v());
+        let AR2X: XMVECTOR = XMVectorAdd(XMVectorAbs(R2X), Epsilon.v());
 
         // Absolute value of columns.
-        let ARX0: XMVECTOR = XMVectorAbs(RX0);
-        let ARX1: XMVECTOR = XMVectorAbs(RX1);
-        let ARX2: XMVECTOR = XMVectorAbs(RX2);
+        let ARX0: XMVECTOR = XMVectorAdd(XMVectorAbs(RX0), Epsilon.v());
+        let ARX1: XMVECTOR = XMVectorAdd(XMVectorAbs(RX1), Epsilon.v());
+        let ARX2: XMVECTOR = XMVectorAdd(XMVectorAbs(RX2), Epsilon.v());
 
         // Test each of the 15 possible seperating axii.
         //XMVECTOR d, d_A, d_B;
-- 
2.43.0


From 66391bfef07affc641d628011edc87f0305bf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:11 +0000
Subject: [PATCH 16/20] fix: BoundingOrientedBox::CreateFromPoints measures
 every point along the box axes

---
 src/collision.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index ba1f79f..88f5c24 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3277,11 +3277,11 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
-                vMax = vMin;
+                vMin = Point;
+                vMax = Point;
             } else {
                 vMin = XMVectorMin(vMin, Point);
                 vMax = XMVectorMax(vMax, Point);
-- 
2.43.0


From 37a939305587bbb178c56d8c4995deb20759142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:47 +0000
Subject: [PATCH 17/20] fix: oriented bounding box creation is independent of
 the scale of the point set

The cubic solved for the covariance eigenvalues over- or underflowed for large, tiny or
coincident point sets and the box came out as NaN.
---
 src/collision.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index 88f5c24..2fa7faf 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -464,6 +464,13 @@ mod internal {
         pV3: &mut XMVECTOR,
 
     ) -> bool {
+        // The eigenvectors do not depend on the scale of the matrix, but the cubic's intermediates (of the
+        // sixth degree in the covariances) overflow or underflow unless the scale is close to one.
+        let trace: f32 = Cxx + Cyy + Czz;
+        let scale: f32 = if trace > core::f32::MIN_POSITIVE { 1.0 / trace } else { 1.0 };
+        let (Cxx, Cyy, Czz) = (Cxx * scale, Cyy * scale, Czz * scale);
+        let (Cxy, Cxz, Cyz) = (Cxy * scale, Cxz * scale, Cyz * scale);
+
         // Calculate the eigenvalues by solving a cubic equation.
         let e: f32 = -(Cxx + Cyy + Czz);
         let f: f32 = Cxx * Cyy + Cyy * Czz + Czz * Cxx - Cxy * Cxy - Cxz * Cxz - Cyz * Cyz;
-- 
2.43.0


From 2714345444dff0917942d7b9f930c4a5c27862e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:17 +0000
Subject: [PATCH 18/20] fix: matrix += and -= update every row

All four row sums were written to row 0, leaving rows 1 to 3 unchanged.
---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9ac9d0c..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 97a8e60203eb806f5c09ce77fdd9b27cd11bc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:20 +0000
Subject: [PATCH 19/20] fix: XMMatrixDecompose keeps its row pointers valid

Pointers made from short-lived exclusive borrows were used after the rows were written directly,
which is undefined behaviour under the aliasing rules (reported by Miri).
---
 src/matrix.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9d6c763..bec4e89 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1379,9 +1379,9 @@ pub fn XMMatrixDecompose(
 
         let mut ppvBasis: [*mut XMVECTOR; 3] = [std::ptr::null_mut(); 3];
         let mut matTemp: XMMATRIX = crate::undefined();
-        ppvBasis[0] = &mut matTemp.r[0];
-        ppvBasis[1] = &mut matTemp.r[1];
-        ppvBasis[2] = &mut matTemp.r[2];
+        ppvBasis[0] = std::ptr::addr_of_mut!(matTemp.r[0]);
+        ppvBasis[1] = std::ptr::addr_of_mut!(matTemp.r[1]);
+        ppvBasis[2] = std::ptr::addr_of_mut!(matTemp.r[2]);
 
         matTemp.r[0] = M.r[0];
         matTemp.r[1] = M.r[1];
-- 
2.43.0


From 96077647b9335af613039c871fd456b9cf5e7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:01 +0000
Subject: [PATCH 20/20] fix: scalar XMVector2/3/4Normalize return QNaN for
 infinite length

---
 src/vector.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index c14320a..379a9ee 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -8197,6 +8197,12 @@ pub fn XMVector2Normalize(
         let mut vResult: XMVECTOR = XMVector2Length(V);
         let mut fLength: f32 = vResult.vector4_f32[0];
 
+        // Infinite length has no direction
+        if (fLength == f32::INFINITY)
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -10180,6 +10186,12 @@ pub fn XMVector3Normalize(
         vResult = XMVector3Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // Infinite length has no direction
+        if (fLength == f32::INFINITY)
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -12321,6 +12333,12 @@ pub fn XMVector4Normalize(
         vResult = XMVector4Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // Infinite length has no direction
+        if (fLength == f32::INFINITY)
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
-- 
2.43.0

