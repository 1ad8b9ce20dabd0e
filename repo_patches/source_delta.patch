From b15e2768a91d50a4b381a1a1f0d9a650f4f3930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 1/3] fix: left-closed directed rounding dropped the final step
 of the correct rounding search

When the binary search hit displacement == deltai it compared fractional
parts and returned without subtracting the steps it had settled on, and the
comparison looked at the parity of zi - (deltai - r) instead of zi - deltai.
E.g. toward_zero on 1.0078125f gave 10078126E-7 instead of 10078125E-7.
---
 grisu_exact.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..96676e5 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2090,9 +2090,9 @@ namespace jkj {
 					IntervalTypeProvider::tag ==
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
+					auto const approx_x = zi - deltai;
 					// We already know r is at most deltai
 					deltai -= std::uint32_t(r);
-					auto const approx_x = zi - deltai;
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2133,6 +2133,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From 4ba355171397648ba294238a4394764cfb909a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 2/3] fix: right endpoint 2^q of left-closed directed rounding
 was tested for divisibility as 0

---
 grisu_exact.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 96676e5..8321bd4 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2011,7 +2011,20 @@ namespace jkj {
 						integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic :
 						integer_check_case_id::other;
 
-					if (is_product_integer<case_id>(fr, exponent, minus_k)) {
+					bool is_right_endpoint_integer;
+					if (IntervalTypeProvider::tag ==
+						grisu_exact_rounding_modes::left_closed_directed_tag && fr == 0)
+					{
+						// The right endpoint has overflown; it is 2^q rather than 0
+						is_right_endpoint_integer = minus_k <= 0 &&
+							exponent + int(extended_precision) >= minus_k;
+					}
+					else {
+						is_right_endpoint_integer =
+							is_product_integer<case_id>(fr, exponent, minus_k);
+					}
+
+					if (is_right_endpoint_integer) {
 						// Decrease kappa until 10^kappa becomes smaller than delta
 						// If left boundary is included, 10^kappa can also be equal to delta
 						while (true) {
-- 
2.43.0


From 044fb40650f15c3bc4c05ed8d0ffca0acbbf0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 3/3] fix: floor_log2_pow10 overflowed 32 bits in part of its
 documented range

The product e * 0x35269e exceeds INT32_MAX for |e| >= 617 although the
function promises (and asserts) [-642,642]; compute it in 64 bits.
---
 grisu_exact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 8321bd4..0c126fa 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,7 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0

