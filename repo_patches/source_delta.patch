From 908abdf50549f532cec70a3687eab88f23df51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 001/186] fix: inverse stereographic projection returns the
 projected unit directions

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..2a14146 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -375,16 +375,16 @@ void params::to_cartesian(const double* invec, params::input intype,
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
          const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
+         outvec[0] = invec[0] * (1.0 + alphL);
+         outvec[1] = invec[1] * (1.0 + alphL);
          outvec[2] = alphL;
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
          const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
+         outvec[3] = invec[2] * (1.0 + alphV);
+         outvec[4] = invec[3] * (1.0 + alphV);
          outvec[5] = alphV;
 		}
          break;
-- 
2.43.0


From b271d8b71651cf03091ae1ae8d5d7349c24aa4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 002/186] fix: back vector parametrizations convert to unit
 directions

---
 sources/core/params.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 2a14146..da58ca9 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -104,10 +104,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[0] = -sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
+			outvec[3] = sqrt(1.0 - invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
@@ -206,13 +206,12 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
+            outvec[0] = -invec[0];
+            outvec[1] = -invec[1];
             outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
+            outvec[3] = invec[0];
+            outvec[4] = invec[1];
             outvec[5] = invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
-- 
2.43.0


From 78bb76e820aaff3cc49b7362af8aa289d6a39caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 003/186] fix: COS_TLR is the dot product of the light and the
 reflected view vector

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index da58ca9..a44a910 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -475,7 +475,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[0]*invec[3] - (invec[1]*invec[4] + invec[2]*invec[5]);
+			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
 			break;
 
 			// 2D Parametrizations
-- 
2.43.0


From e1af3a1f2c5f22628c65f536ce07954245e0c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 004/186] fix: projected azimuth has the same orientation in
 both conversion directions

---
 sources/core/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index a44a910..768d130 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -592,7 +592,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double theta_l = acos(invec[5]);
 			const double theta_v = acos(invec[2]);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
+			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
 			outvec[2] = theta_v * sin(dphi);
@@ -608,7 +608,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
 
 			// Sine of the \Delta_{\phi} angle
-			const double sin_dp = sin(atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]));
+			const double sin_dp = sin(atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]));
 
 			if(sin_vl != 0.0 && sin_l != 0.0)
 			{
@@ -638,7 +638,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
 			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(vky/norm, vkx/norm);
+			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From 97816340baff3b4ae8b355203aad91ddbd0de6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 005/186] fix: RETRO_TL_TVL_PROJ_DPHI inverse keeps views on
 the far side of the normal

---
 sources/core/params.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 768d130..17f887d 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -270,20 +270,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Compute the cosine of the outgoing vector using the
 			// spherical law of cosines
 			const double cos_v = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
-			const double sin_v = sqrt(1.0 - std::min(cos_v*cos_v, 1.0));
 
-			if(sin_v != 0.0)
-			{
-				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
-
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
-				outvec[1] = sin_v * sin_dphi;
-			}
-			else
-			{
-				outvec[0] = 0.0;
-				outvec[1] = 0.0;
-			}
+			// The view vector can be on either side of the normal.
+			outvec[0] = sin_l*cos_vl - cos_l*cos_phi*sin_vl;
+			outvec[1] = sin_vl*sin_phi;
 			outvec[2] = cos_v;
 			outvec[3] = sin(invec[0]);
 			outvec[4] = 0.0;
-- 
2.43.0


From 2a74b3ee460eb664704fd48cd241b5ecf588f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 006/186] fix: STARK_3D and NEUMANN_3D inverses put the back
 vector at its own azimuth

---
 sources/core/params.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 17f887d..5fcdd4f 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -294,7 +294,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -320,10 +320,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From 4d62426921aa35c23ffc39ab485aa0bb4d1e03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 007/186] fix: no NaN coordinates for retro-reflective and
 grazing configurations

---
 sources/core/params.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 5fcdd4f..d77a91a 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -458,7 +458,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double Kx = invec[0]-invec[3];
 			const double Ky = invec[1]-invec[4];
 			const double Kz = invec[2]+invec[5];
-			outvec[0] = (invec[2] + invec[5]) / sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			const double norm = sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			outvec[0] = (norm > 0.0) ? Kz / norm : 1.0;
 		}
 			break;
 		case params::COS_TLV:
@@ -538,7 +539,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
       //     view[2] = invec[2];
       //     outvec[1] = acos(clamp(half.dot(view),0.,1.));
       // }
-      outvec[1] = acos(diff[2]);
+      outvec[1] = acos(clamp(diff[2], -1.0, 1.0));
 
       // By convention, when DIFF is alongside z⃗, return φd = 0.
       if (alongside_z(diff))
@@ -592,7 +593,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double cos_v  = invec[2];
 			const double cos_l  = invec[5];
-			const double cos_vl = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
+			const double cos_vl = clamp(invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5], -1.0, 1.0);
 			const double sin_l  = sqrt(1.0 - cos_l * cos_l);
 			const double sin_v  = sqrt(1.0 - cos_v * cos_v);
 			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
@@ -627,8 +628,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
+			const double theta_k = (norm > 0.0) ? acos(vkz / norm) : 0.0;
+			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From 32a50cc957857c24c6617945472bf16cd6d68f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 008/186] fix: arc-cosines of rounded dot products are never
 NaN

---
 sources/core/params.cpp | 53 +++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index d77a91a..87089c4 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -431,6 +431,13 @@ static bool alongside_z(const Vector& vec)
 }
 
 
+// The cosine of an angle between unit vectors can exceed one by a rounding
+// error.
+static double safe_acos(double x)
+{
+    return acos(clamp(x, -1.0, 1.0));
+}
+
 void params::from_cartesian(const double* invec, params::input outtype,
 		double* outvec)
 {
@@ -475,12 +482,12 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[1] = half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2];
 			break;
 		case params::RUSIN_TH_TD:
-			outvec[0] = acos(half[2]);
-			outvec[1] = acos(clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0));
+			outvec[0] = safe_acos(half[2]);
+			outvec[1] = safe_acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
 			break;
 		case ISOTROPIC_TV_PROJ_DPHI:
 		{
-			const double theta = acos(invec[2]);
+			const double theta = safe_acos(invec[2]);
 			const double dphi  = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta * cos(dphi);
 			outvec[1] = theta * sin(dphi);
@@ -516,12 +523,12 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			// 3D Parametrization
 		case params::RUSIN_TH_PH_TD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
-			outvec[2] = acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
+			outvec[2] = safe_acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
 			break;
 		case params::RUSIN_TH_TD_PD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 
 			// Compute the diff vector
 			diff[0] = invec[0];
@@ -539,7 +546,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
       //     view[2] = invec[2];
       //     outvec[1] = acos(clamp(half.dot(view),0.,1.));
       // }
-      outvec[1] = acos(clamp(diff[2], -1.0, 1.0));
+      outvec[1] = safe_acos(diff[2]);
 
       // By convention, when DIFF is alongside z⃗, return φd = 0.
       if (alongside_z(diff))
@@ -549,8 +556,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			break;
 		case params::ISOTROPIC_TV_TL_DPHI:
-			outvec[0] = acos(invec[2]);
-			outvec[1] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[2]);
+			outvec[1] = safe_acos(invec[5]);
 			outvec[2] = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
 			break;
 		case params::RUSIN_VH:
@@ -581,8 +588,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-			const double theta_l = acos(invec[5]);
-			const double theta_v = acos(invec[2]);
+			const double theta_l = safe_acos(invec[5]);
+			const double theta_v = safe_acos(invec[2]);
 			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
@@ -591,8 +598,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			break;
 		case RETRO_TL_TVL_PROJ_DPHI:
 		{
-			const double cos_v  = invec[2];
-			const double cos_l  = invec[5];
+			const double cos_v  = clamp(invec[2], -1.0, 1.0);
+			const double cos_l  = clamp(invec[5], -1.0, 1.0);
 			const double cos_vl = clamp(invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5], -1.0, 1.0);
 			const double sin_l  = sqrt(1.0 - cos_l * cos_l);
 			const double sin_v  = sqrt(1.0 - cos_v * cos_v);
@@ -608,16 +615,16 @@ void params::from_cartesian(const double* invec, params::input outtype,
 				const double cos_phi = (cos_v - cos_l*cos_vl) / (sin_l * sin_vl);
 				const double sin_phi = (sin_dp * sin_v) / sin_vl;
 
-				const double theta = acos(cos_vl);
+				const double theta = safe_acos(cos_vl);
 
-				outvec[0] = acos(cos_l);
+				outvec[0] = safe_acos(cos_l);
 				outvec[1] = theta * cos_phi;
 				outvec[2] = theta * sin_phi;
 			}
 			else
 			{
-				outvec[0] = acos(cos_l);
-				outvec[1] = acos(cos_v) - acos(cos_l);
+				outvec[0] = safe_acos(cos_l);
+				outvec[1] = safe_acos(cos_v) - safe_acos(cos_l);
 				outvec[2] = 0.0;
 			}
 		}
@@ -628,9 +635,9 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = (norm > 0.0) ? acos(vkz / norm) : 0.0;
+			const double theta_k = (norm > 0.0) ? safe_acos(vkz / norm) : 0.0;
 			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
-			outvec[0] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
 		}
@@ -666,7 +673,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			// 4D Parametrization
 		case params::RUSIN_TH_PH_TD_PD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
 
 			// Compute the diff vector
@@ -683,15 +690,15 @@ void params::from_cartesian(const double* invec, params::input outtype,
       }
       else
       {
-          outvec[2] = acos(diff[2]);
+          outvec[2] = safe_acos(diff[2]);
           outvec[3] = atan2(diff[1], diff[0]);
       }
 			break;
 
 		case params::SPHERICAL_TL_PL_TV_PV:
-			outvec[0] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = atan2(invec[4], invec[3]);
-			outvec[2] = acos(invec[2]);
+			outvec[2] = safe_acos(invec[2]);
 			outvec[3] = atan2(invec[1], invec[0]);
 #ifdef DEBUG
 			std::cout << invec[2] << " - acos -> " << outvec[0] << std::endl;
-- 
2.43.0


From 6a2c7cb3b38d5ecf290d8bf60b5360c610803b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 009/186] fix: rounding cannot make STARK_3D and NEUMANN
 directions NaN at grazing angles

---
 sources/core/params.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 87089c4..4ab9302 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -12,6 +12,7 @@
 #include "params.h"
 #include "common.h"
 #include <cassert>
+#include <algorithm>
 
 using namespace alta;
 
@@ -182,10 +183,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 		{
 			outvec[0] =   invec[0];
 			outvec[1] =   invec[1];
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
+			outvec[2] =   sqrt(std::max(0.0, 1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]));
 			outvec[3] =   invec[0];
 			outvec[4] = - invec[1];
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[5] =   sqrt(std::max(0.0, 1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]));
 		}
 		break;
 
@@ -285,7 +286,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Constructing the Half vector
 			const double Hx = invec[0];
 			const double Hy = 0;
-			const double Hz = sqrt(1.0 - invec[0]*invec[0] - invec[1]*invec[1]);
+			const double Hz = sqrt(std::max(0.0, 1.0 - invec[0]*invec[0] - invec[1]*invec[1]));
 
 			// Constructing the Back vector using azimuth and elevation angles
 			const double cosPhi = cos(invec[2]);
@@ -326,9 +327,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
-			// invalid configuration
-			if(outvec[0]*outvec[0]+outvec[1]*outvec[1] > 1.0 ||
-				outvec[3]*outvec[3]+outvec[4]*outvec[4] > 1.0) {
+			// invalid configuration. Grazing directions are on the limit, they
+			// can be over it only by the rounding of the coordinates.
+			const double limit = 1.0 + 1.0E-12;
+			if(outvec[0]*outvec[0]+outvec[1]*outvec[1] > limit ||
+				outvec[3]*outvec[3]+outvec[4]*outvec[4] > limit) {
 				outvec[0] =  0.0;
 				outvec[1] =  0.0;
 				outvec[2] = -1.0;
@@ -339,8 +342,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 			}
 
 			// Project the vectorx on the hemisphere.
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[2] =   sqrt(std::max(0.0, 1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]));
+			outvec[5] =   sqrt(std::max(0.0, 1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]));
 		}
 			break;
 
-- 
2.43.0


From d0701ee4dd5deb610614769467fedf46f187b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 010/186] fix: averaging a value vector does not start from the
 output's stale content

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..f48ed3e 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From f8d15f712026f432b9ef646f2d605ebdf0b490b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 011/186] fix: INV_STERADIAN_COSINE_FACTOR values have one
 channel

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index f48ed3e..734ccf7 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -299,6 +299,7 @@ class params
             {
                 // 1D Parametrizations
                 case params::INV_STERADIAN:
+                case params::INV_STERADIAN_COSINE_FACTOR:
                 case params::ENERGY:
                     return 1;
                     break;
-- 
2.43.0


From 3ac0f51e28ce3ce1c3124761c12779d289810960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 012/186] fix: rounding of the half vector or of a dot product
 is not an invalid direction

---
 sources/core/params.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 4ab9302..b187ceb 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -412,8 +412,9 @@ static void half_vector(Real const *invec, Vector &half)
         half /= sqrt(sqnorm);
     }
 
-    assert(half[2] <= 1.);
-    assert(half[2] >= 0.);
+    // Rounding can put HALF slightly above one, or slightly below the horizon.
+    assert(half[2] >= -1.0E-6);
+    half[2] = clamp<Real>(half[2], 0., 1.);
 }
 
 // Return true if X is essentially zero.  We have to resort to this hack
@@ -473,16 +474,16 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		}
 			break;
 		case params::COS_TLV:
-			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
+			outvec[0] = clamp(invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5], -1.0, 1.0);
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
+			outvec[0] = clamp(invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]), -1.0, 1.0);
 			break;
 
 			// 2D Parametrizations
 		case params::COS_TH_TD:
 			outvec[0] = half[2];
-			outvec[1] = half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2];
+			outvec[1] = clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0);
 			break;
 		case params::RUSIN_TH_TD:
 			outvec[0] = safe_acos(half[2]);
-- 
2.43.0


From 24d6c7d3ddc6c8003e14d2bd4e62be8b3e0f84a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 013/186] fix: upper bound of a symmetrical vertical segment
 lies above the value

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From d4d4653f7d38c22b36b2411ace6e734a583e3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 014/186] fix: setting a single value in vertical segments
 creates its segment

---
 sources/core/vertical_segment.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 6a395a0..2a39040 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -151,11 +151,30 @@ void vertical_segment::set(int i, const vec& x)
 {
    // Check if the input data 'x' has the size of a vertical segment (i.e. dimX+3*dimY),
    // if it only has the size of a single value, then create the segment.
-   if(x.size() == column_number()
-      || x.size() == _parameters.dimX() + _parameters.dimY())
+   if(x.size() == column_number())
    {
+       matrix_view().row(i) = x;
+   }
+   else if(x.size() == _parameters.dimX() + _parameters.dimY())
+   {
+       // The bounds (or the radius) of the previous element do not apply to
+       // the new value: use the default segment size.
        auto row = matrix_view().row(i);
-       row.head(x.size()) = x;
+       switch(confidence_interval_kind())
+       {
+       case ASYMMETRICAL_CONFIDENCE_INTERVAL:
+           row = vs(x);
+           break;
+
+       case SYMMETRICAL_CONFIDENCE_INTERVAL:
+           row.head(x.size()) = x;
+           row.tail(_parameters.dimY()).setConstant(_dt);
+           break;
+
+       case NO_CONFIDENCE_INTERVAL:
+           row = x;
+           break;
+       }
    } else {
       std::cerr << "<<ERROR>> Passing an incorrect element to vertical_segment::set" << std::endl;
       throw;
-- 
2.43.0


From 09940aa00e2560c5d36dc581e1e1bf2bc036d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 015/186] fix: refusing an incorrect element raises an
 exception instead of terminating

---
 sources/core/vertical_segment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 2a39040..597ea8d 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <cassert>
 #include <cstring>
+#include <stdexcept>
 
 using namespace alta;
 using namespace Eigen;
@@ -177,7 +178,7 @@ void vertical_segment::set(int i, const vec& x)
        }
    } else {
       std::cerr << "<<ERROR>> Passing an incorrect element to vertical_segment::set" << std::endl;
-      throw;
+      throw std::invalid_argument("incorrect element size in vertical_segment::set");
    }
 }
 
-- 
2.43.0


From f24a181a54e30a0e1032b7f4e421ec9fe8c61be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 016/186] fix: default tolerance of data::equals is the
 numerical precision, not one

---
 sources/core/data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From 3f7f9fbed75750af11f341e9bc4f9626c7e2b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 017/186] fix: a defined value does not equal an undefined one

---
 sources/core/data.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..e023dd4 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -49,8 +49,13 @@ bool data::equals(const data& data, double epsilon)
 
         for (int j = 0; j < self.size(); j++)
         {
+            // Infinities and undefined values are only equal to themselves.
+            if (self[j] == other[j]
+                || (std::isnan(self[j]) && std::isnan(other[j])))
+                continue;
+
             double diff = std::abs(self[j] - other[j]);
-            if (diff > epsilon)
+            if (!(diff <= epsilon))
                 return false;
         }
     }
-- 
2.43.0


From 441d2df7c07d6857bc107daeedba0ca7360e1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 018/186] fix: relative and maximal vertical segments extend on
 both sides of the value

---
 sources/core/data_storage.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..1b1fec6 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -17,6 +17,7 @@
 #include <limits>
 #include <iomanip>
 #include <cassert>
+#include <cmath>
 
 #ifdef __GLIBC__
 # include <endian.h>
@@ -122,15 +123,19 @@ static void read_confidence_interval(std::istream& input,
             max_dt =  dt;
         }
 
+        // Relative sizes follow the magnitude of the value, so that the lower
+        // bound stays below it when it is negative.
+        const double magnitude = std::abs(v(dimX + i));
+
         if(args.is_defined("dt-relative"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) * (1.0 + min_dt) ;
-            v(dimX + 2*dimY+i) = v(dimX + i) * (1.0 + max_dt) ;
+            v(dimX +   dimY+i) = v(dimX + i) + magnitude * min_dt ;
+            v(dimX + 2*dimY+i) = v(dimX + i) + magnitude * max_dt ;
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
-            v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(magnitude * min_dt, min_dt);
+            v(dimX + 2*dimY+i) = v(dimX + i) + std::max(magnitude * max_dt, max_dt);
         }
         else
         {
-- 
2.43.0


From 35060250d7a2c08a556706bef5a1fe660356aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 019/186] fix: blank lines of text data files are not samples

---
 sources/core/data_storage.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 1b1fec6..f168b8d 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -202,8 +202,10 @@ alta::data* alta::load_data_from_text(std::istream& input,
     std::getline(input, line) ;
     std::stringstream linestream(line) ;
 
-    // Discard comments and empty lines.
-    if(line.empty() || linestream.peek() == '#')
+    // Discard comments and empty lines. Lines might hold blanks, including
+    // the carriage return of DOS files.
+    linestream >> std::ws;
+    if(linestream.eof() || linestream.peek() == '#')
     {
       continue ;
     }
-- 
2.43.0


From 37d6f978befbc3126de2fb6e2ab3a584b79e204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 020/186] fix: missing columns of text data files are not read
 from uninitialised memory

---
 sources/core/data_storage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index f168b8d..199bdce 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -110,7 +110,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(i == 0 && kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
         {
-            double dt ;
+            double dt = 0.0 ;
             input >> dt ;
             min_dt = -dt;
             max_dt =  dt;
@@ -216,7 +216,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       // Read the data point x and y coordinates
       for(int i=0; i < dim.first + dim.second; ++i)
       {
-          double item;
+          double item = 0.0;
           linestream >> item;
           content.push_back(item);
       }
-- 
2.43.0


From d16f5195fb7d8f05912b5567536abb2666a489fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 021/186] fix: data files with undefined or invalid dimensions
 raise an exception

---
 sources/core/args.h           |  4 ++--
 sources/core/data_storage.cpp | 26 ++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..44c5967 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -350,7 +350,7 @@ class arguments
 		template<typename T>
 		std::pair<T, T> get_pair(const std::string& key) const {
 
-			std::pair<T, T> res;
+			std::pair<T, T> res = std::pair<T, T>();
 
         //TODO: RP: it is not very efficient to call count + find
         // because find is called twice !!!
@@ -361,7 +361,7 @@ class arguments
 				std::string str = _map.find(key)->second;
 				std::stringstream sstream(str);
 
-				T first, second;
+				T first = T(), second = T();
 				sstream >> first >> second;
 
 				// Update the pair
diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 199bdce..48a8be5 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -18,6 +18,7 @@
 #include <iomanip>
 #include <cassert>
 #include <cmath>
+#include <stdexcept>
 
 #ifdef __GLIBC__
 # include <endian.h>
@@ -159,6 +160,24 @@ static void read_confidence_interval(std::istream& input,
     }
 }
 
+// Return the dimensions found in HEADER, or raise an exception when there are
+// no sensible dimensions in it.
+static std::pair<int, int> get_dimensions(const alta::arguments& header)
+{
+    const int max_dim = 65536;
+
+    std::pair<int, int> dim = header.get_pair<int>("DIM");
+    if (dim.first <= 0 || dim.second <= 0
+        || dim.first > max_dim || dim.second > max_dim)
+    {
+        std::cerr << "<<ERROR>> Invalid dimensions in the file header: DIM "
+                  << header["DIM"] << std::endl;
+        throw std::runtime_error("invalid dimensions");
+    }
+
+    return dim;
+}
+
 alta::data* alta::load_data_from_text(std::istream& input,
                                       const alta::arguments& header,
                                       const alta::arguments& args)
@@ -169,13 +188,13 @@ alta::data* alta::load_data_from_text(std::istream& input,
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-    throw;
+    throw std::runtime_error("undefined dimensions");
   }
 
   params::input  in_param  = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   params::output out_param = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
 
-  std::pair<int, int> dim = header.get_pair<int>("DIM");
+  std::pair<int, int> dim = get_dimensions(header);
   size_t row_count = dim.first + 3 * dim.second;
 
   min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
@@ -369,8 +388,7 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     assert(header["ENDIAN"] == "big");
 #endif
 
-    std::pair<int, int> dim = header.get_pair<int>("DIM");
-    assert(dim.first > 0 && dim.second > 0);
+    std::pair<int, int> dim = get_dimensions(header);
 
     auto kind = ci_kind_from_number(header.get_int("VS"));
 
-- 
2.43.0


From c6d1bbf1cdb292825585fe421d4434ec47b052de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 022/186] fix: binary data files with an invalid header or a
 short payload raise an exception

---
 sources/core/data_storage.cpp | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 48a8be5..08117c0 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -19,6 +19,8 @@
 #include <cassert>
 #include <cmath>
 #include <stdexcept>
+#include <algorithm>
+#include <vector>
 
 #ifdef __GLIBC__
 # include <endian.h>
@@ -379,14 +381,19 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     using namespace alta;
 
     // FIXME: For now we make a number of assumptions.
-    assert(header["FORMAT"] == "binary");
-    assert(header.get_int("VERSION") == 0);
-    assert(header["PRECISION"] == "ieee754-double");
 #if __BYTE_ORDER == __LITTLE_ENDIAN
-    assert(header["ENDIAN"] == "little");
+    const std::string endian = "little";
 #else
-    assert(header["ENDIAN"] == "big");
+    const std::string endian = "big";
 #endif
+    if (header["FORMAT"] != "binary"
+        || header.get_int("VERSION") != 0
+        || header["PRECISION"] != "ieee754-double"
+        || header["ENDIAN"] != endian)
+    {
+        std::cerr << "<<ERROR>> Unsupported binary format, please check the header" << std::endl;
+        throw std::runtime_error("unsupported binary format");
+    }
 
     std::pair<int, int> dim = get_dimensions(header);
 
@@ -395,8 +402,9 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     in.exceptions(std::ios_base::failbit);
 
     int sample_count = header.get_int("SAMPLE_COUNT");
-      if(sample_count <= 0) {
+      if(sample_count < 0 || !header.is_defined("SAMPLE_COUNT")) {
          std::cerr << "<<ERROR>> Uncorrect or not samples count in the header, please check \'SAMPLE_COUNT\'" << std::endl;
+         throw std::runtime_error("invalid sample count");
       }
 
       size_t ci_rows =
@@ -406,17 +414,23 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
 
       size_t rows = dim.first + dim.second + ci_rows * dim.second;
       size_t element_count = sample_count * rows;
-      double *content = new double[element_count];
-      size_t byte_count = element_count * sizeof *content;
 
+      // Read by blocks, such that the memory in use never exceeds by much the
+      // size of the file, whatever the header says.
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
-      for (std::streamsize total = 0;
-           total < byte_count && !in.eof();
-           total += in.gcount())
+      const size_t block = 1 << 20;
+      std::vector<double> buffer;
+      while (buffer.size() < element_count)
       {
-          in.read((char *) content + total, byte_count - total);
+          const size_t start = buffer.size();
+          const size_t count = std::min(block, element_count - start);
+          buffer.resize(start + count);
+          in.read((char *) &buffer[start], count * sizeof(double));
       }
 
+      double *content = new double[element_count];
+      std::copy(buffer.begin(), buffer.end(), content);
+
     parameters param(dim.first, dim.second,
                      params::parse_input(header["PARAM_IN"]),
                      params::parse_output(header["PARAM_OUT"]));
-- 
2.43.0


From 9bdb09e711cf4570da143c24e35bcf8eef523a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 023/186] fix: the header of a binary file stops where the
 stream begins

---
 sources/core/args.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 44c5967..5c9fc5b 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -496,6 +496,12 @@ class arguments
 									}
 								}
 
+                    // The content of a binary stream starts right after
+                    // this line, and might start with a '#'.
+							} else if (key == "BEGIN_STREAM") {
+								args.update(key, data);
+								break;
+
                     // Store the line into the argument
 							} else {
 								while(!linestream.eof()	&& std::isspace(linestream.peek()))	{
-- 
2.43.0


From d5af2ee99ba4c2618f9e42e1dd992be52c6192ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 024/186] fix: a scalar given for a vector option is not
 rounded to single precision

---
 sources/core/args.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 5c9fc5b..b66d080 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -266,10 +266,14 @@ class arguments
 				}
 			}
 
-			float val = get_float(key, default_value);
-			for(int i=0; i<size; ++i)
+			// A single value is used for every element. Keep its full precision.
+			if(_map.count(key) > 0)
 			{
-				res[i] = val;
+				const double val = atof(_map.find(key)->second.c_str());
+				for(int i=0; i<size; ++i)
+				{
+					res[i] = val;
+				}
 			}
 			return res;
 		}
-- 
2.43.0


From dc8946ce2b03f193b0b682ab0449d0827d80df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 025/186] fix: empty elements of a bracketed command line
 argument are not read out of bounds

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index b66d080..fafb920 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -75,7 +75,7 @@ class arguments
                     data.append(next);
 
                     ++i;
-                    while(i < argc && next[next.size()-1] != ']')
+                    while(i < argc && (next.empty() || next[next.size()-1] != ']'))
                     {
                         next = argv[i] ;
                         data.append(" ");
-- 
2.43.0


From 6d1fe2c2b5714978786bf9ce5d1fb5e1f28a603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 026/186] fix: vector options keep empty and long elements,
 never read uninitialised ones

---
 sources/core/args.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index fafb920..57c4f74 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -296,14 +296,12 @@ class arguments
 				if(str[0] == '[' && str[str.size()-1] == ']') // Is an array of type [a, b, c]
 				{
 					std::stringstream stream(str.substr(1, str.size()-2));
-					char s[256];
-					while(stream.good())
+					std::string s;
+					while(std::getline(stream, s, ','))
 					{
 						// Extract the value v from the stream s
-						stream.get(s, 256, ',');
-						stream.ignore(1);
 						std::stringstream sstream(s);
-						T v;
+						T v = T();
 						sstream >> v;
 
 						// Push the value at the end of the vector
-- 
2.43.0


From f832fb305c614f518381f34cdfc25173548bc800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 027/186] fix: negative numbers are values of command line
 options

---
 sources/core/args.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 57c4f74..5854da8 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -66,7 +66,9 @@ class arguments
             if(++i < argc)
             {
                 std::string next(argv[i]) ;
-                if(next[0] == '-')
+                // Another option, and not a negative number
+                if(next[0] == '-' && !(next.size() > 1
+                   && (std::isdigit((unsigned char)next[1]) || next[1] == '.')))
                 {
                     --i;
                 }
-- 
2.43.0


From b0260b140ddcaef30ca2ce58767757ed061325d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 028/186] fix: without filter, samples beyond the single
 precision range are loaded too

---
 sources/core/data_storage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 08117c0..170f640 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -199,14 +199,14 @@ alta::data* alta::load_data_from_text(std::istream& input,
   std::pair<int, int> dim = get_dimensions(header);
   size_t row_count = dim.first + 3 * dim.second;
 
-  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
-  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::max()) ;
+  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::infinity()) ;
+  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::infinity()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << min << " -> " << max << " x-interval" << std::endl;
 #endif
 
-  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::max()) ;
-  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::max()) ;
+  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::infinity()) ;
+  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::infinity()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
-- 
2.43.0


From b9882c9f498aec5b16ce2d3b63cea76fb6b89efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 029/186] fix: loading a text file without samples does not
 copy from a null pointer

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 170f640..8be7206 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -278,7 +278,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
 
 
   double *raw_content = new double[content.size()];
-  memcpy(raw_content, content.data(), content.size() * sizeof(double));
+  std::copy(content.begin(), content.end(), raw_content);
 
   parameters param(dim.first, dim.second, in_param, out_param);
   size_t element_count = content.size() / row_count;
-- 
2.43.0


From 4c456f2b2b6b9023884ada77de027c5bc1887035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 030/186] fix: data_grid allocates the grid it describes, stays
 inside of it and loads its files

---
 sources/plugins/data_interpolants/grid.cpp | 132 +++++++++++----------
 1 file changed, 72 insertions(+), 60 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..ed2fa16 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -18,12 +18,15 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <limits>
+#include <memory>
+#include <stdexcept>
 
 using namespace alta;
 
 static vec get_min(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res = vec::Zero(params::dimension(param));
    switch(param)
    {
       // 1D Parametrizations
@@ -79,7 +82,7 @@ static vec get_min(const params::input& param) {
 
 static vec get_max(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res = vec::Zero(params::dimension(param));
    switch(param)
    {
       // 1D Parametrizations
@@ -127,7 +130,9 @@ static vec get_max(const params::input& param) {
          break;
 
       default:
-         return res;
+         throw std::invalid_argument("the domain of parametrization \""
+                                     + params::get_name(param)
+                                     + "\" is not known to data_grid");
          break;
    }
    return res;
@@ -152,63 +157,73 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
-      BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+      BrdfGrid(const parameters& params, const arguments& args)
+        : vertical_segment(grid_parameters(params, args),
+                           number_of_nodes(grid_parameters(params, args), args)),
+          _size(grid_size(grid_parameters(params, args), args))
       {
-         initialize(args);
+         _min = get_min(parametrization().input_parametrization());
+         _max = get_max(parametrization().input_parametrization());
+
+         // Set the abscissa data
+         vec x = vec::Zero(parametrization().dimX() + parametrization().dimY());
+         for(int n=0; n<this->size(); ++n) {
+            get_abscissa(n, x);
+            set(n, x);
+         }
       }
 
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
-
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
+      // Allow to use a different parametrization than PARAMS depending on
+      // the arguments provided.
+      static parameters grid_parameters(const parameters& params,
+                                        const arguments& args) {
+         params::input in_param = params.input_parametrization();
+         params::output out_param = params.output_parametrization();
+         int nY = params.dimY();
 
          if(args.is_defined("PARAM_IN")) {
             in_param = params::parse_input(args["PARAM_IN"]);
          } else if(args.is_defined("param")) {
             in_param = params::parse_input(args["param"]);
          }
-         nX = params::dimension(in_param);
+         if(in_param == params::UNKNOWN_INPUT) {
+            in_param = params::STARK_2D;
+         }
 
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
+            nY = params::dimension(out_param);
          }
-         nY = params::dimension(out_param);
 
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
+         return parameters(params::dimension(in_param), nY, in_param, out_param);
+      }
+
+      // Get the grid size, by default use an 10^dimX grid
+      static std::vector<int> grid_size(const parameters& params,
+                                        const arguments& args) {
+         std::vector<int> size(params.dimX(), 10);
          if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
+            size = args.get_vec<int>("grid-size");
+         }
 
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
+         double nodes = 1.0;
+         for(auto n : size) {
+            nodes = n < 1 ? std::numeric_limits<double>::infinity() : nodes * n;
          }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
+         if(int(size.size()) != params.dimX()
+            || nodes > std::numeric_limits<int>::max()) {
+            throw std::invalid_argument("invalid grid size");
          }
+         return size;
+      }
 
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
+      static int number_of_nodes(const parameters& params,
+                                 const arguments& args) {
+         int N = 1;
+         for(auto n : grid_size(params, args)) {
+            N *= n;
+         }
+         return N;
       }
 
       inline int get_index(const vec& x) const {
@@ -230,7 +245,8 @@ class BrdfGrid : public vertical_segment {
 
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            const double t = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            k[i] = t > 0.0 ? int(std::min(t, double(_size[i]-1))) : 0;
          }
          return k;
       }
@@ -259,7 +275,7 @@ class BrdfGrid : public vertical_segment {
          // Evaluate the abscissa from the vector indices and
          // the min and max. The grid exactly map [0..1]
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / (_size[i]-1);
+            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / std::max(_size[i]-1, 1);
          }
       }
 
@@ -344,8 +360,9 @@ class BrdfGrid : public vertical_segment {
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
-               cid_s = 0;
+            // Nodes without weight can lie outside of the grid
+            if(alpha == 0.0)
+               continue;
 
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
                                                parametrization().dimY());
@@ -359,7 +376,7 @@ ALTA_DLL_EXPORT data* provide_data(size_t size,
                                    const parameters& params,
                                    const arguments& args)
 {
-    return new BrdfGrid(size, params, args);
+    return new BrdfGrid(params, args);
 }
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input,
@@ -367,19 +384,14 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input,
 {
     arguments header = arguments::parse_header(input);
 
-#ifdef __GNUC__
-# warning FIXME we are not returning a "BrdfGrid"
-#endif
-    // We should probably rewrite this class as a transformation from 'data'
-    // to 'data'.
-
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
-
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
+    const ptr<data> samples(load_data_from_text(input, header));
+    std::unique_ptr<BrdfGrid> result(new BrdfGrid(samples->parametrization(), header));
 
-    return load_data_from_text(input, header);
+    if(samples->size() != result->size()) {
+        throw std::runtime_error("the number of samples is not the size of the grid");
+    }
+    for(int i=0; i<samples->size(); ++i) {
+        result->set(i, samples->get(i));
+    }
+    return result.release();
 }
-- 
2.43.0


From 72df5109bf6f6a609839f0fe57a5fbed248a50f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 031/186] fix: incomplete MERL files raise an exception

---
 sources/plugins/data_io/merl.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..fd96d35 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -33,6 +33,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <algorithm>
+#include <stdexcept>
 
 #define BRDF_SAMPLING_RES_THETA_H  90
 #define BRDF_SAMPLING_RES_THETA_D  90
@@ -425,18 +426,23 @@ private: //methods
 
 static bool read_brdf(std::istream& input, double* &brdf)
 {
-		int dims[3];
+		int dims[3] = { 0, 0, 0 };
     input.read((char *) &dims, sizeof dims);
-		int n = dims[0] * dims[1] * dims[2];
-		if (n != BRDF_SAMPLING_RES_THETA_H *
-        BRDF_SAMPLING_RES_THETA_D *
-        BRDF_SAMPLING_RES_PHI_D / 2)
+    const int n = MERL_SIZE;
+		if (dims[0] != BRDF_SAMPLING_RES_THETA_H ||
+        dims[1] != BRDF_SAMPLING_RES_THETA_D ||
+        dims[2] != BRDF_SAMPLING_RES_PHI_D / 2)
 		{
         fprintf(stderr, "Dimensions don't match\n");
         return false;
 		}
 
     input.read((char *) brdf, 3 * n * sizeof(double));
+    if (size_t(input.gcount()) != 3 * n * sizeof(double))
+    {
+        fprintf(stderr, "The table is incomplete\n");
+        return false;
+    }
 
 		return true;
 }
@@ -455,7 +461,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        throw std::runtime_error("not a complete MERL file");
 		}
 
     return result;
-- 
2.43.0


From ebf46ed8e1de286720a465d095d74339908b7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 032/186] fix: failing to write a MERL file raises an exception

---
 sources/plugins/data_io/merl.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index fd96d35..c75e583 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -114,6 +114,9 @@ public: // methods
 	void save(const std::string& filename) const
 	{
 		FILE *f = fopen(filename.c_str(), "wb");
+		if (f == NULL) {
+			throw std::runtime_error("unable to open \"" + filename + "\" for writing");
+		}
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
@@ -122,10 +125,12 @@ public: // methods
 
 		const int n = dims[0]*dims[1]*dims[2];
 
-		fwrite(dims, sizeof(int), 3, f);
-		fwrite(brdf, sizeof(double), 3*n, f);
+		bool complete = fwrite(dims, sizeof(int), 3, f) == 3
+			&& fwrite(brdf, sizeof(double), 3*n, f) == size_t(3*n);
 
-		fclose(f);
+		if (fclose(f) != 0 || !complete) {
+			throw std::runtime_error("unable to write \"" + filename + "\"");
+		}
 	}
 
 	// Acces to data
-- 
2.43.0


From 8ecc90a4b0418369e58a6ac5edf8dd9882a806ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 033/186] fix: incomplete ASTM files raise an exception instead
 of looping, and samples are released as an array

---
 sources/plugins/data_io/astm.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..aab1f88 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -20,7 +20,10 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <algorithm>
+#include <stdexcept>
 #include <utility>
+#include <vector>
 
 namespace alta {
 
@@ -145,23 +148,28 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
+    if (vars.empty())
+        throw std::runtime_error("ASTM file without variables");
     auto params = compute_parameters(vars);
 
     // Check data size from header
-    assert(header.is_defined("NUM_POINTS"));
+    if (!header.is_defined("NUM_POINTS"))
+        throw std::runtime_error("ASTM file without a number of points");
     int size = header.get_int("NUM_POINTS", 0);
+    if (size < 0)
+        throw std::runtime_error("ASTM file with an invalid number of points");
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-    double* data = new double[size * n];
+    std::vector<double> samples;
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if (!std::getline(input, line))
+	        throw std::runtime_error("ASTM file with missing points");
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
+	samples.resize(i + n, 0.0);
 
         std::replace(line.begin(), line.end(), ',', ' ');
 
@@ -169,11 +177,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            stream >> samples[i + j];
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    std::shared_ptr<double> data(new double[samples.size()],
+                                 std::default_delete<double[]>());
+    std::copy(samples.begin(), samples.end(), data.get());
+
+    return new ASTM(params, size, data);
 }
 
 }
-- 
2.43.0


From a3e3434cbab489f76a539ca381e1c388b091fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 034/186] fix: calling an operation that is not implemented
 raises an exception instead of terminating

---
 sources/core/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/core/common.h b/sources/core/common.h
index af8c87e..131765d 100644
--- a/sources/core/common.h
+++ b/sources/core/common.h
@@ -15,6 +15,7 @@
 #include <iostream>
 #include <cassert>
 #include <cstring>
+#include <stdexcept>
 
 // Math Constants exist in Windows but they need to be included
 // by defining the constant _USE_MATH_DEFINES
@@ -118,12 +119,12 @@ static bool close_to(const T a, const T b, const T epsilon = 1E-7)
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __FUNCDNAME__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::logic_error("not implemented")
 #else
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __PRETTY_FUNCTION__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::logic_error("not implemented")
 #endif
 
 // Mathematical definition not provided on the Window plateform
-- 
2.43.0


From dd433ab90c32169d8c84c6d68d7f436f644184cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 035/186] fix: image loading initialises missing channels,
 failing to write an image is reported

---
 sources/plugins/data_io/EXR_IO.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..9131e5b 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -48,7 +48,7 @@ class t_EXR_IO
 
 			/* Check the different part of loading */
 			int _r = -1;
-			const char* _err;
+			const char* _err = "";
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
@@ -97,7 +97,7 @@ class t_EXR_IO
 			/* Recopy the image into the provided pixel array */
 			W = _image.width;
 			H = _image.height;
-			pix = new FType[W*H*3];
+			pix = new FType[size_t(W)*H*3]();
 			for(int k=0; k<_image.num_channels; ++k) {
 				for(int i=0; i<W*H; ++i) {
 					const FType val = (FType)(reinterpret_cast<float **>(_image.images)[k][i]);
@@ -172,12 +172,15 @@ class t_EXR_IO
 				header.requested_pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of output image to be stored in .EXR
 			}
 
-			const char* err;
+			const char* err = "";
 			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				free(header.channels);
+				free(header.pixel_types);
+				free(header.requested_pixel_types);
+				return false;
 			}
 
 			free(header.channels);
-- 
2.43.0


From 892f0e42330b0857f6d2210f1ea608c32034a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 036/186] fix: BRDF slices that cannot be loaded or saved raise
 an exception, new ones are black

---
 sources/plugins/data_io/slice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..aea14a3 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -14,6 +14,8 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <algorithm>
+#include <stdexcept>
 
 #include "EXR_IO.h"
 
@@ -109,7 +111,7 @@ class BrdfSlice : public data {
 
 		BrdfSlice(const arguments& args)
         : BrdfSlice(args, 512, 512, 1,
-                    new double[3 * 512 * 512])
+                    new double[3 * 512 * 512]())
     {
     }
 
@@ -123,6 +125,7 @@ class BrdfSlice : public data {
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
 				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::runtime_error("unable to write \"" + filename + "\"");
 			}
 		}
 
@@ -273,7 +276,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data))
+        throw std::runtime_error("unable to load the BRDF slice image");
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
-- 
2.43.0


From 91b77e73a2dce34b0d854fcc342ffab42ab1c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 037/186] fix: evaluating a BRDF slice stays inside the image
 and its domain is reported

---
 sources/plugins/data_io/slice.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index aea14a3..262f61e 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -76,7 +76,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
@@ -176,17 +175,17 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
-					return res;
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					return vec::Zero(3);
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper bound of the domain belongs to the last pixel
+			const int i  = std::min<int>(floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width-1);
+			const int j  = std::min<int>(floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From 55dd2ceff99bcb13ba0db09f9c93062169175146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 038/186] fix: incomplete UTIA files raise an exception, new
 tables are black

---
 sources/plugins/data_io/utia.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..84fd17b 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -25,6 +25,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <stdexcept>
 
 #include "EXR_IO.h"
 
@@ -103,7 +104,7 @@ public:
 		this->npv = NPV;
 		this->planes = 3;
 		this->nPerPlane = N_PER_PLANE;
-		this->Bd = new double[planes*nti*npi*ntv*npv];
+		this->Bd = new double[planes*nti*npi*ntv*npv]();
 
 		_min = vec(4);
 	    _min[0] = 0.0;
@@ -326,7 +327,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+    	if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+			delete result;
+			throw std::runtime_error("unable to load the UTIA image");
+		}
+		if(W != NPI*NTI || H != NPV*NTV) {
+			delete[] temp;
+			delete result;
+			throw std::runtime_error("invalid size of the UTIA image");
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -344,6 +353,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
 		input.read((char*)result->Bd, count*sizeof(double));
+		if(size_t(input.gcount()) != count*sizeof(double)) {
+			delete result;
+			throw std::runtime_error("incomplete UTIA file");
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From 9d26ad064b0d5ba5357cb9dd56423eaaead983e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 039/186] fix: UTIA binary files are written the way they are
 read, failing to write is reported

---
 sources/plugins/data_io/utia.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 84fd17b..ec2d5cd 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -137,17 +137,24 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+	  		const bool saved = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
+			if(!saved) {
+				throw std::runtime_error("unable to write \"" + filename + "\"");
+			}
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			int count = 0;
 			for(int isp=0;isp<planes;isp++)	{
 			  for(int ni=0;ni<nti*npi;ni++)
 			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
+			    	stream.write((const char*)&Bd[count++], sizeof(double));
 			    }
 			}
+			stream.close();
+			if(!stream) {
+				throw std::runtime_error("unable to write \"" + filename + "\"");
+			}
 		}
 	}
 
-- 
2.43.0


From 93208d056e1f40fada2f729a5482d3e47f38aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 040/186] fix: the scattered interpolant handles few samples
 and gives access to its samples

---
 sources/plugins/data_interpolants/rbf.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..091a592 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -68,6 +68,7 @@ class rbf_interpolant : public data
 		// Interpolation
 #ifndef USE_DELAUNAY
 		flann::Index< flann::L2<double> >* _kdtree;
+		std::vector<double> _points; // not owned by the index
 #endif
 		int _knn;
 
@@ -77,7 +78,7 @@ class rbf_interpolant : public data
         : data(proxied_data->parametrization(),
                proxied_data->size()),
           _data(proxied_data),
-          _knn(3)
+          _knn(std::min(3, proxied_data->size()))
 		{
         _min = _data->min();
         _max = _data->max();
@@ -97,8 +98,8 @@ class rbf_interpolant : public data
         std::cout << "<<DEBUG>> number of points in input: " << _data->size() << std::endl;
 #else
         // Update the KDtreee by inserting all points
-        double* _d = new double[parametrization().dimX()*_data->size()];
-        flann::Matrix<double> pts(_d, _data->size(), parametrization().dimX());
+        _points.resize(parametrization().dimX()*_data->size());
+        flann::Matrix<double> pts(&_points[0], _data->size(), parametrization().dimX());
         for(int i=0; i<_data->size(); ++i)
         {
             vec x = _data->get(i);
@@ -122,13 +123,13 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename);
 		}
 
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id);
 		}
 		virtual vec operator[](int i) const
 		{
@@ -220,6 +221,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     ptr<data> proxied = plugins_manager::load_data("vertical_segment",
                                                    input, args);
 
+    if(proxied->size() == 0) {
+        throw std::runtime_error("no sample to interpolate");
+    }
+
     return new rbf_interpolant(proxied);
 }
 
-- 
2.43.0


From ece1941d56ad663b0b65fb677ff5a162b558c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 041/186] fix: data_grid files without a known output
 parametrization can be loaded

---
 sources/plugins/data_interpolants/grid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index ed2fa16..29e1c1b 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -192,7 +192,9 @@ class BrdfGrid : public vertical_segment {
 
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
-            nY = params::dimension(out_param);
+            if(out_param != params::UNKNOWN_OUTPUT) {
+               nY = params::dimension(out_param);
+            }
          }
 
          return parameters(params::dimension(in_param), nY, in_param, out_param);
-- 
2.43.0


From 25dc603ff83049677d0b637fa442979b6188612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 042/186] fix: function files with undefined or invalid
 dimensions are refused

---
 sources/core/plugins_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..d9c3419 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -211,6 +211,16 @@ function* plugins_manager::load_function(const std::string& filename)
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
 
+  // The dimensions size everything the function stores
+  const int max_dim = 65536;
+  if(dim.first <= 0 || dim.second <= 0
+     || dim.first > max_dim || dim.second > max_dim)
+  {
+    std::cerr << "<<ERROR>> invalid dimensions in the function file: DIM "
+              << header["DIM"] << std::endl;
+    return NULL;
+  }
+
   param_in = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   param_out = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
   args = arguments::create_arguments(header["CMD"]);
-- 
2.43.0


From 49010da177a16a76bc02a08a79b0f892d477a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 043/186] fix: a sum with an unusable part is refused instead
 of dereferencing a null pointer

---
 sources/core/plugins_manager.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index d9c3419..6f780cd 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -231,11 +231,12 @@ function* plugins_manager::load_function(const std::string& filename)
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f != NULL && f->load(file) )
   {
     return f;
   }
 
+  delete f;
   std::cout << "<<ERROR>> COULD NOT LOAD THE BRDF from File " << filename << std::endl;
    return NULL;
 }
@@ -299,12 +300,12 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_f == NULL)
       {
           std::cerr << "<<ERROR>> only non-linear functions are compatible with a compound" << std::endl;
+          delete f;
+          return NULL;
       }
-      else
-      {
-          functions[i] = ptr<nonlinear_function>(nl_f);
-          function_args[i] = temp_args;
-      }
+
+      functions[i] = ptr<nonlinear_function>(nl_f);
+      function_args[i] = temp_args;
     }
 
     //! create a *compound* class to store multiple ! functions in it.
@@ -381,9 +382,8 @@ function* plugins_manager::get_function(const arguments& args,
       std::cout << " n = " << n << std::endl;
       #endif
 
-      nonlinear_function* func_fres =
-          dynamic_cast<nonlinear_function*>(get_function(arguments::create_arguments(n),
-                                                         params));
+      function* right = get_function(arguments::create_arguments(n), params);
+      nonlinear_function* func_fres = dynamic_cast<nonlinear_function*>(right);
       if(func_fres != NULL)
       {
         bool const fresnel_is_fixed = (args.is_defined("fixed-fresnel")) ? (true) : (false);
@@ -405,6 +405,7 @@ function* plugins_manager::get_function(const arguments& args,
       else
       {
         std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function. Will use only the left part." << std::endl;
+        delete right;
         return func;
       }
    }
-- 
2.43.0


From 67485de147885a04a00a0095ec13594316d0e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 044/186] fix: rational function files with invalid or missing
 coefficients are refused

---
 sources/core/rational_function.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..6458dd4 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -50,29 +50,28 @@ bool rational_function_1d::load(std::istream& in)
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
 	if(token != "#NQ") { return false; }
-	vec a(_np), b(_nq);
+	if(!in || _np < 1 || _nq < 1) { return false; }
 
-	// Parse the p_i coefficients
-	// TODO: Check if the indices match the current index?
-	for(int j=0; j<_np; ++j)
-	{
-		for(int k=0; k<_parameters.dimX(); ++k)
-		{
-			in >> token;
-		}
-		in >> a[j];
-	}
+	// The coefficients are collected as they are read, as their announced
+	// number might exceed what the file contains.
+	std::vector<double> coeffs;
 
-	// Parse the q_i coefficients
+	// Parse the p_i coefficients, then the q_i coefficients
 	// TODO: Check if the indices match the current index?
-	for(int j=0; j<_nq; ++j)
+	for(long j=0; j<long(_np)+_nq; ++j)
 	{
+		double c;
 		for(int k=0; k<_parameters.dimX(); ++k)
 		{
 			in >> token;
 		}
-		in >> b[j];
+		in >> c;
+		if(!in) { return false; }
+		coeffs.push_back(c);
 	}
+
+	const vec a = Eigen::Map<vec>(&coeffs[0], _np);
+	const vec b = Eigen::Map<vec>(&coeffs[_np], _nq);
 #ifdef NONE
 	std::cout << "p_" << i << " = " << a << std::endl;
 	std::cout << "q_" << i << " = " << b << std::endl;
-- 
2.43.0


From c00068a353f359b73e1bccb0c7510e91abb52c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 045/186] fix: retroyoo does not evaluate from uninitialised
 memory, and has as many parameters as it says

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..8c63ae6 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From 515e7b1f6e28e49814dc55cafcb926ace926e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 046/186] fix: the diffuse function has no parameters, its
 vectors are empty

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..930126e 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 39c8e140be758b8c169a0a877161b542461d49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 047/186] fix: a retro spherical gaussian peaks in the retro
 direction, not in the mirror one

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..8acaae1 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -65,6 +65,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 	{
 		params::convert(&x[0], params::CARTESIAN, params::COS_TK, &dot);
 	}
+	else if(_type == Retro)
+	{
+		dot = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
+	}
 	else if(_type == Moment)
 	{
 		double spherical[4];
-- 
2.43.0


From f7106439355820e10883304d463c030f30e8b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 048/186] fix: retro Beckmann uses the dot product of both
 directions

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..6abb7d5 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec beckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From eb06b92f4899f72a044969b8a5375d98c0b82055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 049/186] fix: the normalised Schlick Fresnel allocates its
 parameters

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..f04da10 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(params.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From b2b6e108c5e35e74e73e19351fb4feb3659f884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 050/186] fix: Smith shadowing of the light direction is one at
 the normal for the light, not for the view

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..d483c7d 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -147,7 +147,7 @@ vec smith::value(const vec& x) const
 {
 	vec res(_parameters.dimY());
     //RP: The Step functions are missing ???? !!!
-	if(x[2] == 1.0)
+	if(x[5] == 1.0)
 	{
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
@@ -229,7 +229,7 @@ vec smith::parametersJacobian(const vec& x) const
     for(int i=0; i<nY; ++i)
         for(int j=0; j<nY; ++j)
         {
-			  if(i == j && x[2] < 1.0) 
+			  if(i == j && x[5] < 1.0) 
 			  {
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
-- 
2.43.0


From 668a71cc2431ca97cac26ba02fddd20e8ff630a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 051/186] fix: Walter Smith shadowing uses the published
 coefficient 2.276, as its derivative does

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..ba909e9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -325,7 +325,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
-- 
2.43.0


From 43fc81a162d110c785657f3b12ca78b6f3260c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 052/186] fix: Lafortune functions start with one lobe and are
 evaluated in the cartesian parametrization they use

---
 .../nonlinear_function_lafortune/function.cpp |  3 ++-
 .../nonlinear_function_lafortune/function.h   | 20 -------------------
 2 files changed, 2 insertions(+), 21 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..0333f34 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,8 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params.set_input(6, params::CARTESIAN)),
+    _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
diff --git a/sources/plugins/nonlinear_function_lafortune/function.h b/sources/plugins/nonlinear_function_lafortune/function.h
index 74c4c03..dbf9006 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.h
+++ b/sources/plugins/nonlinear_function_lafortune/function.h
@@ -75,26 +75,6 @@ class lafortune_function : public nonlinear_function
 		//! parameters. 
 		virtual vec parametersJacobian(const vec& x) const ;
 
-		//! \brief Provide the parametrization of the input space of the function.
-		//! For this one, we fix that the parametrization is in THETAD_PHID
-		virtual params::input parametrization() const
-		{
-#ifdef ADAPT_TO_PARAM
-			return _in_param;
-#else
-			return params::CARTESIAN ;
-#endif
-		}
-		virtual void setParametrization(params::input new_param)
-		{
-#ifdef ADAPT_TO_PARAM
-			_in_param = new_param;
-#else
-			std::cerr << "<<ERROR>> Cannot change the ouput parametrization " << __FILE__ << ":" << __LINE__ << std::endl;
-			throw;
-#endif
-		}
-
         //! \brief Set the number of lobes to be used in the fit
         void setNbLobes(int N);
 
-- 
2.43.0


From b01fcec6d7af74914596a4deebd836759f00671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 053/186] fix: derivatives of the ABC function vanish where the
 function does

---
 sources/plugins/nonlinear_function_abc/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..81d5be4 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,9 +107,9 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 const double hn = 1.0 - x[0];
+			 if(i == j && hn >= 0.0 && hn <= 1.0)
 			 {
-				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-- 
2.43.0


From a19b4ab53310d664a69ac5b502973816a1b84ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 054/186] fix: derivative of the Beckmann function with respect
 to its roughness

---
 sources/plugins/nonlinear_function_beckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..1607139 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo / fac) * (2.0/a) * (1 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From 966b8593a869d5fc58dd38cbc7a83262f886233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 055/186] fix: derivatives of the Ward function with respect to
 its roughnesses

---
 sources/plugins/nonlinear_function_ward/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..bba4eb1 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * gauss * (1.0/ax) * (2.0*hx_ax*hx_ax / (h[2]*h[2]) - 1);
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * gauss * (1.0/ay) * (2.0*hy_ay*hy_ay / (h[2]*h[2]) - 1);
 			 }
 			 else
 			 {
-- 
2.43.0


From 9844947687724dc10bfb3fac0a33026ce716a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 056/186] fix: the derivatives of the shifted gamma
 distribution are not zero

---
 .../nonlinear_function_sgd/function.cpp       | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index df1c884..3aa053d 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -134,17 +134,31 @@ void shifted_gamma_function::setParameters(const vec& pi)
 }
 
 //! Obtain the derivatives of the function with respect to the 
-//! parameters. \TODO
+//! parameters, by central differences.
 vec shifted_gamma_function::parametersJacobian(const vec& x) const {
 	
 	const int n = _parameters.dimY();
-    vec jac(n*nbParameters());
+	const int nb = nbParameters();
+    vec jac(n*nb);
 
-	 for(int i=0; i<n; ++i) {
-		 for(int j=0; j<nbParameters(); ++j) {
-		 	jac[i + j*n] = 0.0;
-		 }
-	 }
+	const vec current = parameters();
+	shifted_gamma_function f(*this);
+	for(int j=0; j<nb; ++j) {
+		const double h = 1.0E-6 * std::max(1.0, std::abs(current[j]));
+
+		vec q = current;
+		q[j] = current[j] + h;
+		f.setParameters(q);
+		const vec above = f.value(x);
+
+		q[j] = current[j] - h;
+		f.setParameters(q);
+		const vec below = f.value(x);
+
+		for(int i=0; i<n; ++i) {
+			jac[i*nb + j] = (above[i] - below[i]) / (2.0*h);
+		}
+	}
 
     return jac;
 }
-- 
2.43.0


From c2a356aece8c5857564ce59100416075479278dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 057/186] fix: derivative of the moment spherical gaussian with
 respect to its scale

---
 .../nonlinear_function_spherical_gaussian/function.cpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 8acaae1..56f0d16 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -212,12 +212,13 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double phi = spherical[1];
+			 spherical[1] = _a*phi + 1.5*M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
-			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4];
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * phi * dot2;
 
 		 }
 	 }
-- 
2.43.0


From 24fa1d2ec8a3a920ec48054ebaf82f14cc243615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 058/186] fix: derivative of the retro Beckmann function with
 respect to its roughness

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 6abb7d5..bd03fce 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo / fac) * (2.0/a) * (1 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From 540420b18dfb674eb0a708c916ef7a728d0c9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 059/186] fix: derivatives of the retro Blinn function vanish
 where the function does

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..05d4d3e 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -138,7 +138,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				// df / dk_s
-				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
+				jac[i*nbParameters() + j*2+0] = (x[0] >= 0.0) ? std::pow(x[0], _N[j]) : 0.0;
 
 				// df / dN
                 if(x[0] <= 0.0)
-- 
2.43.0


From 42fd8d2dd19d2d4358518d8778a8630e35dd3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 060/186] fix: derivative of the retroyoo function with respect
 to the mean free path

---
 .../plugins/nonlinear_function_retroyoo/function.cpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8c63ae6..83092f1 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -110,13 +110,16 @@ vec yoo_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				const double q = 2.0 * M_PI * x[0] / 633.0;
-				const double base = factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+				const double expo = exp(- 2.0 * q * 0.7 * _lt[i]);
+				const double diff = 1.0 + q*_lt[i]*_lt[i];
+				const double fac1 = 2.4 + 1.0 / diff;
+				const double fac2 = 1.0 + (1.0 - expo / (q*_lt[i]));
 				// df / dk_r
-				jac[i*nbParameters() + j*2+0] = base;
+				jac[i*nbParameters() + j*2+0] = factor * fac1 * fac2;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (fac1 * expo * (1.4 + 1.0 / (q*_lt[i])) / _lt[i]
+				                                                   - fac2 * 2.0*q*_lt[i] / (diff*diff));
 			}
 			else
 			{
-- 
2.43.0


From 0d632a21e98bd04725c3a2b0fb19bb47564349d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 061/186] fix: derivative of the normalised Schlick Fresnel

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index f04da10..6a7adfd 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -191,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From 2775c5689189333d65cdc29f8321f012bc08f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 062/186] fix: derivative of the Smith shadowing

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index d483c7d..535fca4 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -234,7 +234,7 @@ vec smith::parametersJacobian(const vec& x) const
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (sqrt(2.0 * M_PI) * r * w[i]) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From ac97f115273d0c851864b53128d8a0406b1f1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 063/186] fix: derivative of the Walter Smith shadowing is zero
 where it is constant, and has double precision

---
 .../function.hpp                              | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..35e2315 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -127,7 +127,7 @@ class WalterSmith : public nonlinear_function
      * @param  tan_value The tangent value which either tan( theta_view) or tan(theta_light)
      * @return       the value of the partial derivate 
      */
-    float partialDerivative( float alpha, float tangent_value) const;
+    double partialDerivative( double alpha, double tangent_value) const;
 
   private: // parameters
   vec _alpha; /*!< The roughness parameter. One parameter per output dimension */
@@ -217,16 +217,22 @@ WalterSmith::partialShadowingTerm(vec const & x,
  
 
 inline 
-float
-WalterSmith::partialDerivative( float alpha, float tangent_value) const
+double
+WalterSmith::partialDerivative( double alpha, double tangent_value) const
 {
+  // The shadowing term is constant there
+  if( 1.0 / (alpha * tangent_value) >= 1.6 )
+  {
+    return 0.0;
+  }
+
   //Exported from Maple 
-  float const t1 = tangent_value;
-  float const t2 = alpha * t1;
-  float const t4 = alpha * alpha;
-  float const t5 = t1 * t1;
-  float const t6 = t4 * t5;
-  float t13 = 0.1000e4 * t6 + 0.2276e4 * t2 + 0.2577e4;
+  double const t1 = tangent_value;
+  double const t2 = alpha * t1;
+  double const t4 = alpha * alpha;
+  double const t5 = t1 * t1;
+  double const t6 = t4 * t5;
+  double t13 = 0.1000e4 * t6 + 0.2276e4 * t2 + 0.2577e4;
   t13 *= t13;
   return  -0.1e1 * t1 * (0.4362000e7 * t2 - 0.4145739e7 + 0.3535000e7 * t6) / t13;
 }
-- 
2.43.0


From c0b7ace40b89e7fb7d7aa51686296508162aecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 064/186] fix: derivative of the Walter Smith shadowing is not
 NaN at grazing directions

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 35e2315..b4d08be 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -220,8 +220,8 @@ inline
 double
 WalterSmith::partialDerivative( double alpha, double tangent_value) const
 {
-  // The shadowing term is constant there
-  if( 1.0 / (alpha * tangent_value) >= 1.6 )
+  // The shadowing term is constant there, and zero at grazing directions
+  if( 1.0 / (alpha * tangent_value) >= 1.6 || std::isinf(tangent_value) )
   {
     return 0.0;
   }
-- 
2.43.0


From be7ab8798bb4b17da5e3daad9e67672bfe4a15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 065/186] fix: derivative of the Smith shadowing is not NaN at
 grazing directions

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 535fca4..b8ec0b7 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -229,7 +229,7 @@ vec smith::parametersJacobian(const vec& x) const
     for(int i=0; i<nY; ++i)
         for(int j=0; j<nY; ++j)
         {
-			  if(i == j && x[5] < 1.0) 
+			  if(i == j && x[5] < 1.0 && v[i] != 0.0) 
 			  {
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
-- 
2.43.0


From 305516c725f5bf083b564a5440254c60620b10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 066/186] fix: the retro Beckmann plugin no longer shares its
 class name with the Beckmann plugin, which made one replace the other

---
 .../function.cpp                              | 26 +++++++++----------
 .../function.h                                |  6 ++---
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index bd03fce..2d4bfd6 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -24,10 +24,10 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 {
-    return new beckmann_function(params);
+    return new retrobeckmann_function(params);
 }
 
-beckmann_function::beckmann_function(const alta::parameters& params)
+retrobeckmann_function::retrobeckmann_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN)),
       _use_back_param(true)
 {
@@ -38,11 +38,11 @@ beckmann_function::beckmann_function(const alta::parameters& params)
 
 
 // Overload the function operator
-vec beckmann_function::operator()(const vec& x) const 
+vec retrobeckmann_function::operator()(const vec& x) const 
 {
 	return value(x);
 }
-vec beckmann_function::value(const vec& x) const 
+vec retrobeckmann_function::value(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -78,13 +78,13 @@ vec beckmann_function::value(const vec& x) const
 }
 
 //! Number of parameters to this non-linear function
-int beckmann_function::nbParameters() const 
+int retrobeckmann_function::nbParameters() const 
 {
 	return 2*_parameters.dimY();
 }
 
 //! Get the vector of parameters for the function
-vec beckmann_function::parameters() const 
+vec retrobeckmann_function::parameters() const 
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -96,7 +96,7 @@ vec beckmann_function::parameters() const
 }
 
 //! \brief get the min values for the parameters
-vec beckmann_function::getParametersMin() const
+vec retrobeckmann_function::getParametersMin() const
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -109,7 +109,7 @@ vec beckmann_function::getParametersMin() const
 }
 
 //! Update the vector of parameters for the function
-void beckmann_function::setParameters(const vec& p) 
+void retrobeckmann_function::setParameters(const vec& p) 
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -121,7 +121,7 @@ void beckmann_function::setParameters(const vec& p)
 //! Obtain the derivatives of the function with respect to the 
 //! parameters
 //! \todo finish. 
-vec beckmann_function::parametersJacobian(const vec& x) const 
+vec retrobeckmann_function::parametersJacobian(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -165,7 +165,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
-void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
+void retrobeckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -184,7 +184,7 @@ void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 }
 
 //! Load function specific files
-bool beckmann_function::load(std::istream& in)
+bool retrobeckmann_function::load(std::istream& in)
 {
 	// Parse line until the next comment
 	while(in.peek() != '#')
@@ -246,7 +246,7 @@ bool beckmann_function::load(std::istream& in)
 }
 
 
-void beckmann_function::save_call(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_call(std::ostream& out, const arguments& args) const
 {
 	bool is_alta   = !args.is_defined("export") || args["export"] == "alta";
 
@@ -284,7 +284,7 @@ void beckmann_function::save_call(std::ostream& out, const arguments& args) cons
 	}
 }
 
-void beckmann_function::save_body(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_body(std::ostream& out, const arguments& args) const
 {
     bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
 
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.h b/sources/plugins/nonlinear_function_retrobeckmann/function.h
index 0640881..768bcca 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.h
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.h
@@ -36,12 +36,12 @@ using namespace alta;
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class beckmann_function : public nonlinear_function
+class retrobeckmann_function : public nonlinear_function
 {
 
 	public: // methods
 
-    beckmann_function(const alta::parameters& params);
+    retrobeckmann_function(const alta::parameters& params);
 
 		// Overload the function operator
 		virtual vec operator()(const vec& x) const ;
@@ -80,6 +80,6 @@ class beckmann_function : public nonlinear_function
 		vec _ks, _a; // Lobes data
 		bool _use_back_param;
 
-    beckmann_function() {};
+    retrobeckmann_function() {};
 } ;
 
-- 
2.43.0


From 8670e26203e0d8a6dd5ce0be0949eef7de1fc26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 067/186] fix: the cosine rational plugin no longer shares its
 class names with the Legendre plugin, which made one replace the other

---
 .../rational_function.cpp                     | 14 +++++------
 .../rational_function.h                       | 24 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/sources/plugins/rational_function_cosine/rational_function.cpp b/sources/plugins/rational_function_cosine/rational_function.cpp
index 797091a..c0771fc 100644
--- a/sources/plugins/rational_function_cosine/rational_function.cpp
+++ b/sources/plugins/rational_function_cosine/rational_function.cpp
@@ -18,16 +18,16 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 {
-    return new rational_function_legendre(params);
+    return new rational_function_cosine(params);
 }
 
-rational_function_legendre_1d::rational_function_legendre_1d(const parameters& params,
+rational_function_cosine_1d::rational_function_cosine_1d(const parameters& params,
                                                              int np, int nq)
     : rational_function_1d(params, np, nq)
 {
 }
 
-double rational_function_legendre_1d::legendre(double x, int i) const
+double rational_function_cosine_1d::legendre(double x, int i) const
 {
 	if(i == 0)
 	{
@@ -68,7 +68,7 @@ double rational_function_legendre_1d::legendre(double x, int i) const
 }
 
 // Get the p_i and q_j function
-double rational_function_legendre_1d::p(const vec& x, int i) const
+double rational_function_cosine_1d::p(const vec& x, int i) const
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -90,7 +90,7 @@ double rational_function_legendre_1d::p(const vec& x, int i) const
 
 	return res ;
 }
-double rational_function_legendre_1d::q(const vec& x, int i) const 
+double rational_function_cosine_1d::q(const vec& x, int i) const 
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -102,12 +102,12 @@ double rational_function_legendre_1d::q(const vec& x, int i) const
 	return res ;
 }
 
-rational_function_legendre::rational_function_legendre(const parameters& params)
+rational_function_cosine::rational_function_cosine(const parameters& params)
     : rational_function(params)
 {
 }
 
-rational_function_legendre::~rational_function_legendre()
+rational_function_cosine::~rational_function_cosine()
 {
 }
 
diff --git a/sources/plugins/rational_function_cosine/rational_function.h b/sources/plugins/rational_function_cosine/rational_function.h
index 4a37b12..d58740b 100644
--- a/sources/plugins/rational_function_cosine/rational_function.h
+++ b/sources/plugins/rational_function_cosine/rational_function.h
@@ -24,13 +24,13 @@
 
 using namespace alta;
 
-class rational_function_legendre_1d : public rational_function_1d
+class rational_function_cosine_1d : public rational_function_1d
 {
 	public: // methods
 
-    rational_function_legendre_1d(const parameters& params,
+    rational_function_cosine_1d(const parameters& params,
                                   int np = 0, int nq = 0);
-		virtual ~rational_function_legendre_1d() {}
+		virtual ~rational_function_cosine_1d() {}
 
 		// Get the p_i and q_j function
 		virtual double p(const vec& x, int i) const ;
@@ -42,7 +42,7 @@ class rational_function_legendre_1d : public rational_function_1d
 		double legendre(double x, int i) const;
 
   private:
-		rational_function_legendre_1d() ;
+		rational_function_cosine_1d() ;
 } ;
 
 /*! \ingroup functions
@@ -59,13 +59,13 @@ class rational_function_legendre_1d : public rational_function_1d
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class rational_function_legendre : public rational_function
+class rational_function_cosine : public rational_function
 {
 	public: // methods
 
-    rational_function_legendre(const parameters& params);
+    rational_function_cosine(const parameters& params);
 
-		virtual ~rational_function_legendre() ;
+		virtual ~rational_function_cosine() ;
 
 		//! Get the 1D function associated with color channel i. If no one exist, 
 		//! this function allocates a new element. If i > nY, it returns NULL.
@@ -76,7 +76,7 @@ class rational_function_legendre : public rational_function
 			{
 				if(rs[i] == NULL)
 				{
-          rs[i] = new rational_function_legendre_1d(_parameters, np, nq);
+          rs[i] = new rational_function_cosine_1d(_parameters, np, nq);
 
 					vec _min = min();
 					vec _max = max();
@@ -104,22 +104,22 @@ class rational_function_legendre : public rational_function
 
 		//! Update the y-1D function for the ith dimension.
 		//! \note It will test if the 1D function provided is of the dynamic type
-		//! \name rational_function_legendre_1d
+		//! \name rational_function_cosine_1d
 		virtual void update(int i, rational_function_1d* r)
 		{
-			if(dynamic_cast<rational_function_legendre_1d*>(r) != NULL)
+			if(dynamic_cast<rational_function_cosine_1d*>(r) != NULL)
 			{
 				rational_function::update(i, r);
 			}
 			else
 			{
 #ifdef DEBUG
-				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_legendre\"" << std::endl;
+				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_cosine\"" << std::endl;
 #endif
 			}
 		}
 
 private:
-		rational_function_legendre() {};
+		rational_function_cosine() {};
 } ;
 
-- 
2.43.0


From e216e5b02178df033e82d82a12257344aa579310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 068/186] fix: exponents of all the lobes are read from a
 Lafortune function file

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 0333f34..20c1a39 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -417,7 +417,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From 67c8552f54aea100cdbb455fd5f1be0a9301fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 069/186] fix: the diffuse term of a Lafortune function is
 saved, and an incorrect number of lobes is refused

---
 .../nonlinear_function_lafortune/function.cpp | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 20c1a39..66f1f5b 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -405,16 +405,30 @@ bool lafortune_function::load(std::istream& in)
 	 // Shoudl have the #NB_LOBES [int]
 	 int nb_lobes;
 	 in >> token >> nb_lobes;
+	 if(!in || nb_lobes < 1 || nb_lobes > 65536)
+	 {
+		 std::cerr << "<<ERROR>> incorrect number of lobes." << std::endl;
+		 return false;
+	 }
 	 setNbLobes(nb_lobes);
 
-	// Parse the lobe
+	// Parse the diffuse term, which older files do not have
     const int _nY = _parameters.dimY();
+	in >> token;
+	if(token == "#KD")
+	{
+		for(int i=0; i<_nY; ++i) { in >> _kd[i]; }
+		in >> token;
+	}
+
+	// Parse the lobe
 	for(int n=0; n<_n; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
 		{
 
-			in >> token >> _C[(n*_nY + i)*3 + 0];
+			if(n > 0 || i > 0) { in >> token; }
+			in >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
 			in >> token >> _N[n*_nY + i];
@@ -436,6 +450,9 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     {
         out << "#FUNC nonlinear_function_lafortune" << std::endl ;
         out << "#NB_LOBES " << _n << std::endl ;
+        out << "#KD";
+        for(int i=0; i<_nY; ++i) { out << " " << _kd[i]; }
+        out << std::endl;
 
         for(int n=0; n<_n; ++n)
         {
-- 
2.43.0


From fff00c4ab2b3d1960c7373caa7b1454f6438a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 070/186] fix: a retro Beckmann function loads back with the
 parametrization it was saved with

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 2d4bfd6..94938d5 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -227,11 +227,11 @@ bool retrobeckmann_function::load(std::istream& in)
 	in >> token;
 	if(token.compare("RETRO") != 0) 
 	{ 
-		_use_back_param = false;
+		_use_back_param = true;
 	}
 	else
 	{
-		_use_back_param = true;
+		_use_back_param = false;
 	}
 
 
-- 
2.43.0


From 1f2008cc6aae191e8b1b51358063f899435bcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 071/186] fix: a saved Yoo function can be loaded

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 83092f1..9182df8 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -190,7 +190,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
 
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
-- 
2.43.0


From c3b479b9643afdc3ff0e110304a215199e00fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 072/186] fix: the type of a spherical Gaussian is saved with
 it

---
 .../function.cpp                              | 60 ++++++++++++-------
 .../function.h                                |  4 ++
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 56f0d16..8455e8a 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -237,31 +237,25 @@ void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments&
 	// Parse the lobe type
 	if(args.is_defined("sg-type"))
 	{
-		std::string stype = args.get_string("sg-type", "half");
-		if(stype == "mirror")
+		setType(args.get_string("sg-type", "half"));
+		if(_type == Moment)
 		{
-			_type = Mirror;
-		}
-		else if(stype == "half")
-		{
-			_type = Half;
-		}
-		else if(stype == "back")
-		{
-			_type = Back;
-		}
-		else if(stype == "retro")
-		{
-			_type = Retro;
-		}
-		else if(stype == "moment")
-		{
-			_type = Moment;
 			_a = 1.0;
 		}
 	}
 }
 
+bool spherical_gaussian_function::setType(const std::string& stype)
+{
+	if(stype == "mirror")      { _type = Mirror; }
+	else if(stype == "half")   { _type = Half; }
+	else if(stype == "back")   { _type = Back; }
+	else if(stype == "retro")  { _type = Retro; }
+	else if(stype == "moment") { _type = Moment; }
+	else { return false; }
+	return true;
+}
+
 //! Load function specific files
 bool spherical_gaussian_function::load(std::istream& in)
 {
@@ -293,11 +287,25 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the type of lobe, which older files do not have
+	in >> token;
+	if(token == "#TYPE")
+	{
+		in >> token;
+		if(!setType(token))
+		{
+			std::cerr << "<<ERROR>> unknown type of spherical gaussian: " << token << std::endl;
+			return false;
+		}
+		in >> token;
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
 
-		in >> token >> _ks[i];
+		if(i > 0) { in >> token; }
+		in >> _ks[i];
 		in >> token >> _n[i];
 	}
 	
@@ -320,6 +328,16 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
+		out << "#TYPE ";
+		switch(_type)
+		{
+			case Half:   out << "half";   break;
+			case Back:   out << "back";   break;
+			case Retro:  out << "retro";  break;
+			case Moment: out << "moment"; break;
+			default:     out << "mirror"; break;
+		}
+		out << std::endl;
 
          for(int i=0; i<nY; ++i)
 		 {
@@ -329,7 +347,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	
 		 if(_type == Moment)
 		 {
-			 out << "a  " << _a;
+			 out << "a  " << _a << std::endl;
 		 }
 
 		 out << std::endl;
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.h b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
index d1bef3a..ec752e7 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.h
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
@@ -98,6 +98,10 @@ class spherical_gaussian_function : public nonlinear_function
 		//! different evaluations.
 		double compute_dot(const vec& in) const;
 
+		//! \brief Set the type of lobe from its name. Return false when
+		//! there is no such type.
+		bool setType(const std::string& stype);
+
 	private: // data
 
 		vec _n, _ks; // Lobes data
-- 
2.43.0


From 0868e045a29bd4e2f0259ae0db6270ba6f7461ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 073/186] fix: SGD functions can be saved

---
 .../nonlinear_function_sgd/function.cpp       | 25 +++++++++++++++++--
 .../plugins/nonlinear_function_sgd/function.h | 13 +---------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index 3aa053d..403a9a5 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -305,9 +305,30 @@ bool shifted_gamma_function::load(std::istream& in)
 }
 
 void 
-shifted_gamma_function::save(const std::string& filename, const arguments& args) const
+shifted_gamma_function::save_call(std::ostream& out, const arguments& args) const
 {
-	NOT_IMPLEMENTED();
+	// Only the native format can be exported
+	if(args.is_defined("export") && args["export"] != "alta")
+	{
+		NOT_IMPLEMENTED();
+	}
+
+	out << "#FUNC nonlinear_function_sgd" << std::endl;
+
+	// The order is the one of the load method
+	const int nY = _parameters.dimY();
+	for(int i=0; i<nY; ++i) { out << "rho_d "  << rho_d[i]     << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "rho_s "  << rho_s[i]     << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "alpha "  << alpha[i]     << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "p "      << p[i]         << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "F0 "     << F_0[i]       << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "F1 "     << F_1[i]       << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "K_ap "   << K_ap[i]      << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "lambda " << sh_lambda[i] << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "c "      << sh_c[i]      << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "k "      << sh_k[i]      << std::endl; }
+	for(int i=0; i<nY; ++i) { out << "theta0 " << sh_theta0[i] << std::endl; }
+	out << std::endl;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_sgd/function.h b/sources/plugins/nonlinear_function_sgd/function.h
index e809693..feb21bf 100644
--- a/sources/plugins/nonlinear_function_sgd/function.h
+++ b/sources/plugins/nonlinear_function_sgd/function.h
@@ -35,15 +35,7 @@ class shifted_gamma_function : public nonlinear_function
 		virtual vec value(const vec& x) const ;
 
 		//! \brief Export function
-		virtual void save_call(std::ostream& out, const arguments& args) const 
-    {
-			NOT_IMPLEMENTED();
-		}
-		
-    virtual void save_body(std::ostream& out, const arguments& args) const 
-    {
-			NOT_IMPLEMENTED();
-		}
+		virtual void save_call(std::ostream& out, const arguments& args) const;
 		
 		//! Number of parameters to this non-linear function
 		virtual int nbParameters() const ;
@@ -61,9 +53,6 @@ class shifted_gamma_function : public nonlinear_function
     //! Load BRDF parameters from .brdf file
     virtual bool load(std::istream& in);
 
-    //! Save the Function 
-    virtual void save(const std::string& filename, const arguments& args) const;
-
     friend std::ostream& operator<<(std::ostream& out, const shifted_gamma_function & sgd);
 
 	private:
-- 
2.43.0


From dc00c7ae9102376db98a6aa60261727d99e33bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 074/186] fix: the retro Blinn function always uses its own
 parametrization, also within a sum or once loaded

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 05d4d3e..da58b7c 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -27,7 +27,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 retroblinn_function::retroblinn_function(const alta::parameters &params)
-    : nonlinear_function(params)
+    : nonlinear_function(params.set_input(1, params::COS_TK))
 {
     // Update the length of the vectors
     _ks.resize(_parameters.dimY()) ;
-- 
2.43.0


From 914d23ae7b0346ab379d647a8ba898dada117125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 075/186] fix: the statements of an exported shader are
 terminated whatever the kind of function

---
 sources/core/function.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..ec423f7 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -108,6 +108,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	save_call(file, args);
 	if(is_cpp || is_shader)
 	{
+		file << ";" << std::endl;
 		file << "\treturn res;" << std::endl;
 		file << "}" << std::endl;
 	}
@@ -798,15 +799,11 @@ void compound_function::save_call(std::ostream& out, const arguments& args) cons
 	{
 		if(i != 0 && (is_cpp || is_matlab || is_shader))
 		{
+			out << ";" << std::endl;
 			out << "\tres += ";
 		}
 
 		fs[i]->save_call(out, args);
-
-		if(is_cpp || is_matlab || is_shader)
-		{
-			out << ";" << std::endl;
-		}
 	}
 
 	function::save_call(out, args);
@@ -942,7 +939,7 @@ void product_function::save_call(std::ostream& out, const arguments& args) const
 
 	if(is_cpp || is_matlab || is_shader)
 	{
-		out << ")" << std::endl;
+		out << ")";
 	}
 
 	function::save_call(out, args);
-- 
2.43.0


From 0198a57c53ca8bbae86f783a283b815fe4db3eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 076/186] fix: functions shared by several parts of an
 expression are exported once

---
 sources/core/function.cpp | 52 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index ec423f7..53c7ee5 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,9 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <algorithm>
+#include <sstream>
+#include <vector>
 
 using namespace alta;
 
@@ -47,6 +50,43 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     
 }
 
+// Collect the definitions used by the parts of an expression, each one once.
+static void collect_bodies(const function& f, const arguments& args,
+                           std::vector<std::string>& bodies)
+{
+	if(const compound_function* sum = dynamic_cast<const compound_function*>(&f))
+	{
+		for(unsigned int i=0; i<sum->size(); ++i)
+		{
+			collect_bodies(*(*sum)[i], args, bodies);
+		}
+	}
+	else if(const product_function* prod = dynamic_cast<const product_function*>(&f))
+	{
+		collect_bodies(*prod->first(), args, bodies);
+		collect_bodies(*prod->second(), args, bodies);
+	}
+	else
+	{
+		std::ostringstream body;
+		f.save_body(body, args);
+		if(std::find(bodies.begin(), bodies.end(), body.str()) == bodies.end())
+		{
+			bodies.push_back(body.str());
+		}
+	}
+}
+
+static void save_bodies(const function& f, std::ostream& out, const arguments& args)
+{
+	std::vector<std::string> bodies;
+	collect_bodies(f, args, bodies);
+	for(unsigned int i=0; i<bodies.size(); ++i)
+	{
+		out << bodies[i] << std::endl;
+	}
+}
+
 void function::save(const std::string& filename, const arguments& args) const
 {
 	bool const is_alta     = !args.is_defined("export") || args["export"] == "alta";
@@ -774,11 +814,7 @@ void compound_function::setParameters(const vec& p)
 		
 void compound_function::save_body(std::ostream& out, const arguments& args) const
 {
-	for(unsigned int i=0; i<fs.size(); ++i)
-	{
-		fs[i]->save_body(out, args);
-		out << std::endl;
-	}
+	save_bodies(*this, out, args);
 
 	function::save_body(out, args);
 }
@@ -902,11 +938,7 @@ bool product_function::load(std::istream& in)
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
 {
-	f1->save_body(out, args);
-	out << std::endl;
-	
-	f2->save_body(out, args);
-	out << std::endl;
+	save_bodies(*this, out, args);
 
 	function::save_body(out, args);
 }
-- 
2.43.0


From cf9018153dc56f74c873842774f8093a4d1af9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 077/186] fix: exported rational functions use the scaled
 coordinates, every channel, and the syntax of the language

---
 sources/core/function.cpp          |  7 +--
 sources/core/rational_function.cpp | 95 ++++++++++++++----------------
 2 files changed, 48 insertions(+), 54 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 53c7ee5..42d423a 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -129,12 +129,12 @@ void function::save(const std::string& filename, const arguments& args) const
 		file << "vec brdf(const vec& x)" << std::endl;
 		file << "{" << std::endl;
 		file << "\tvec res(" << parametrization().dimY() << ");" << std::endl;
+		file << "\t";
 	}
 	else if(is_matlab)
 	{
 		file << "function res = brdf(x)" << std::endl;
-		file << "{" << std::endl;
-		file << "\tres = zeros(" << parametrization().dimY() << ");" << std::endl;
+		file << "\tres = zeros(" << parametrization().dimY() << ", 1);" << std::endl;
 		file << "\t";
 	}
 	else if(is_shader)
@@ -155,8 +155,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	else if(is_matlab)
 	{
 		file << ";" << std::endl;
-		file << "\treturn res;" << std::endl;
-		file << "endfunction" << std::endl;
+		file << "end" << std::endl;
 	}
 	file << std::endl;
 
diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 6458dd4..1bac715 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -114,59 +114,42 @@ void rational_function_1d::save_body(std::ostream& out, const arguments& args) c
 			 out << _q_coeffs[i].a << std::endl ;
 		 }
 	 }
-	 else if(is_matlab)
+	 else if(is_matlab || is_cpp)
 	 {
-		 out << "(";
-		 for(unsigned int i=0; i<np; ++i)
+		 // The monomials are expressed on the domain of the function scaled to
+		 // [-1, 1].
+		 for(int l=0; l<2; ++l)
 		 {
-			 out << _p_coeffs[i].a;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 if(k != _parameters.dimX()-1) { out << ".*"; }
-				 out << "x(k).^" << _p_coeffs[i].deg[k];
-			 }
-			 if(i != np-1) { out << " + "; }
-		 }
-		 out << ") / (";
+			 const std::vector<coeff>& coeffs = (l == 0) ? _p_coeffs : _q_coeffs;
 
-		 for(unsigned int i=0; i<nq; ++i)
-		 {
-			 out << _q_coeffs[i].a << "x.^" << i;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 if(k != _parameters.dimX()-1) { out << ".*"; }
-				 out << "x(k).^" << _q_coeffs[i].deg[k];
-			 }
-			 if(i != nq-1) { out << " + "; }
-		 }
-		 out << ")";
-	 }
-	else if(is_cpp)
-	 {
-		 out << "\tdouble num = ";
-		 for(unsigned int i=0; i<np; ++i)
-		 {
-			 out << _p_coeffs[i].a;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 out << "*pow(x[" << k << "], " << _p_coeffs[i].deg[k] << ")";
-			 }
-			 if(i != np-1) { out << " + "; }
-		 }
-		 out << ";" << std::endl;
-
-		out << "\tdouble den = ";
-		 for(unsigned int i=0; i<nq; ++i)
-		 {
-			 out << _q_coeffs[i].a;
-			 for(int k=0; k<_parameters.dimX(); ++k)
+			 out << (l == 0 ? "(" : " / (");
+			 for(unsigned int i=0; i<coeffs.size(); ++i)
 			 {
-				 out << "*pow(x[" << k << "], " << _q_coeffs[i].deg[k] << ")";
+				 if(i > 0) { out << " + "; }
+				 out << coeffs[i].a;
+
+				 for(int k=0; k<_parameters.dimX(); ++k)
+				 {
+					 const int deg = coeffs[i].deg[k];
+					 if(deg == 0) { continue; }
+
+					 std::ostringstream x;
+					 x.copyfmt(out);
+					 x << "2*(x" << (is_cpp ? "[" : "(") << (is_cpp ? k : k+1) << (is_cpp ? "]" : ")")
+					   << " - (" << _min[k] << ")) / (" << _max[k]-_min[k] << ") - 1";
+
+					 if(is_cpp)
+					 {
+						 out << "*pow(" << x.str() << ", " << deg << ")";
+					 }
+					 else
+					 {
+						 out << "*(" << x.str() << ")^" << deg;
+					 }
+				 }
 			 }
-			 if(i != nq-1) { out << " + "; }
+			 out << ")";
 		 }
-		 out << ";" << std::endl;
-		 out << "\tres[0] = num / den;" << std::endl;
 	 }
 	 else
 	 {
@@ -681,7 +664,8 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
 	// out.precision(8);
 	out << std::scientific;
 
-	bool is_alta = !args.is_defined("export") || args["export"] == "alta";
+	bool is_alta   = !args.is_defined("export") || args["export"] == "alta";
+	bool is_matlab = args["export"] == "matlab";
 	if(is_alta) {
 		out << "#FUNC rational_function" << std::endl;
 		out << "#MIN "; for(int k=0; k<_parameters.dimX(); ++k) { out << _min[k] << " "; } out << std::endl;
@@ -696,8 +680,19 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
       // Skip them (XXX: is this the right thing to do?).
       if (rf != NULL)
       {
-          rf->save_body(out, args);
-          out << std::endl;
+          if(is_alta)
+          {
+              rf->save_body(out, args);
+              out << std::endl;
+          }
+          else
+          {
+              // One assignment per channel
+              if(k > 0) { out << ";" << std::endl << "\t"; }
+              if(is_matlab) { out << "res(" << k+1 << ") = "; }
+              else          { out << "res[" << k   << "] = "; }
+              rf->save_body(out, args);
+          }
       }
 	}
 }
-- 
2.43.0


From 3b4bbb45cfdbc53531f68f6b714263ea0b8837fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 078/186] fix: Legendre and Chebychev rational functions are
 exported in their own basis

---
 sources/core/rational_function.cpp            | 23 ++++++++++++++-----
 sources/core/rational_function.h              |  5 ++++
 .../rational_function.cpp                     | 18 +++++++++++++++
 .../rational_function.h                       |  3 +++
 .../rational_function.cpp                     | 18 +++++++++++++++
 .../rational_function.h                       |  3 +++
 6 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 1bac715..92c9f58 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -138,14 +138,18 @@ void rational_function_1d::save_body(std::ostream& out, const arguments& args) c
 					 x << "2*(x" << (is_cpp ? "[" : "(") << (is_cpp ? k : k+1) << (is_cpp ? "]" : ")")
 					   << " - (" << _min[k] << ")) / (" << _max[k]-_min[k] << ") - 1";
 
-					 if(is_cpp)
+					 const std::vector<double> poly = polynomial(deg);
+					 const char* sep = "*(";
+					 for(int d=0; d<=deg; ++d)
 					 {
-						 out << "*pow(" << x.str() << ", " << deg << ")";
-					 }
-					 else
-					 {
-						 out << "*(" << x.str() << ")^" << deg;
+						 if(poly[d] == 0.0) { continue; }
+
+						 out << sep << poly[d];
+						 if(d > 0 && is_cpp) { out << "*pow(" << x.str() << ", " << d << ")"; }
+						 else if(d > 0)      { out << "*(" << x.str() << ")^" << d; }
+						 sep = " + ";
 					 }
+					 out << ")";
 				 }
 			 }
 			 out << ")";
@@ -157,6 +161,13 @@ void rational_function_1d::save_body(std::ostream& out, const arguments& args) c
 	 }
 }
 
+std::vector<double> rational_function_1d::polynomial(int deg) const
+{
+	std::vector<double> res(deg+1, 0.0);
+	res[deg] = 1.0;
+	return res;
+}
+
 void rational_function_1d::update(const vec& in_a,
                                   const vec& in_b)
 {
diff --git a/sources/core/rational_function.h b/sources/core/rational_function.h
index a45fd12..61fda73 100644
--- a/sources/core/rational_function.h
+++ b/sources/core/rational_function.h
@@ -138,6 +138,11 @@ class rational_function_1d : public function
 
 	protected: // functions
 
+		//! \brief Coefficients, lowest degree first, of the one dimensional
+		//! polynomial of degree \a deg in the basis of this function. It is
+		//! used to export the function.
+		virtual std::vector<double> polynomial(int deg) const;
+
 		static int estimate_dk(int k, int d);
 
 		static void populate(std::vector<int>& vec, int N, int M, int j);
diff --git a/sources/plugins/rational_function_chebychev/rational_function.cpp b/sources/plugins/rational_function_chebychev/rational_function.cpp
index 7cf5f73..aad0d9f 100644
--- a/sources/plugins/rational_function_chebychev/rational_function.cpp
+++ b/sources/plugins/rational_function_chebychev/rational_function.cpp
@@ -91,6 +91,24 @@ double chebychev(double x, int i) {
 #endif
 }
 
+std::vector<double> rational_function_chebychev_1d::polynomial(int deg) const
+{
+	// T_{i+1} = 2 x T_i - T_{i-1}
+	std::vector<double> prev(deg+1, 0.0), res(deg+1, 0.0);
+	res[0] = 1.0;
+	for(int i=0; i<deg; ++i)
+	{
+		std::vector<double> next(deg+1, 0.0);
+		for(int d=0; d<=i+1; ++d)
+		{
+			next[d] = (d > 0 ? (i > 0 ? 2.0 : 1.0)*res[d-1] : 0.0) - prev[d];
+		}
+		prev = res;
+		res  = next;
+	}
+	return res;
+}
+
 // Get the p_i and q_j function
 double rational_function_chebychev_1d::p(const vec& x, int i) const
 {
diff --git a/sources/plugins/rational_function_chebychev/rational_function.h b/sources/plugins/rational_function_chebychev/rational_function.h
index e07bc0a..cc71166 100644
--- a/sources/plugins/rational_function_chebychev/rational_function.h
+++ b/sources/plugins/rational_function_chebychev/rational_function.h
@@ -40,6 +40,9 @@ public: // methods
 
 protected:  // methods
 
+    // Chebychev polynomial in the monomial basis
+    virtual std::vector<double> polynomial(int deg) const;
+
 } ;
 
 /*! \ingroup functions
diff --git a/sources/plugins/rational_function_legendre/rational_function.cpp b/sources/plugins/rational_function_legendre/rational_function.cpp
index 71df998..3f5519a 100644
--- a/sources/plugins/rational_function_legendre/rational_function.cpp
+++ b/sources/plugins/rational_function_legendre/rational_function.cpp
@@ -45,6 +45,24 @@ double rational_function_legendre_1d::legendre(double x, int i) const
 	}
 }
 
+std::vector<double> rational_function_legendre_1d::polynomial(int deg) const
+{
+	// (i+1) P_{i+1} = (2i+1) x P_i - i P_{i-1}
+	std::vector<double> prev(deg+1, 0.0), res(deg+1, 0.0);
+	res[0] = 1.0;
+	for(int i=0; i<deg; ++i)
+	{
+		std::vector<double> next(deg+1, 0.0);
+		for(int d=0; d<=i+1; ++d)
+		{
+			next[d] = ((d > 0 ? (2*i+1)*res[d-1] : 0.0) - i*prev[d]) / (i+1);
+		}
+		prev = res;
+		res  = next;
+	}
+	return res;
+}
+
 // Get the p_i and q_j function
 double rational_function_legendre_1d::p(const vec& x, int i) const
 {
diff --git a/sources/plugins/rational_function_legendre/rational_function.h b/sources/plugins/rational_function_legendre/rational_function.h
index 31e9df0..2cd24bd 100644
--- a/sources/plugins/rational_function_legendre/rational_function.h
+++ b/sources/plugins/rational_function_legendre/rational_function.h
@@ -38,6 +38,9 @@ class rational_function_legendre_1d : public rational_function_1d
 
 	protected:  // methods
 
+		// Legendre polynomial in the monomial basis
+		virtual std::vector<double> polynomial(int deg) const;
+
 		// Legendre polynomial evaluation
 		double legendre(double x, int i) const;
 } ;
-- 
2.43.0


From fd5e0abb3911231efb28e7a92eb1c8a755a04bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 079/186] fix: the exported ABC shader is the ABC function

---
 sources/plugins/nonlinear_function_abc/function.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 81d5be4..26f4599 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -287,9 +287,10 @@ void abc_function::save_body(std::ostream& out, const arguments& args) const
         out << "vec3 abc(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 a, vec3 b, vec3 c)" << std::endl;
         out << "{" << std::endl;
         out << "\tvec3  H   = normalize(L + V);" << std::endl;
-        out << "\tfloat hn  = dot(H,N);" << std::endl;
+        out << "\tfloat h   = 1.0f - dot(H,N);" << std::endl;
 		  out << "\t" << std::endl;
-        out << "\treturn a / pow(vec3(1.0f) + b*hn, c);" << std::endl;
+        out << "\tif(h > 1.0f) { return vec3(0.0f); }" << std::endl;
+        out << "\treturn a / pow(vec3(1.0f) + b*max(h, 0.0f), c);" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From d0463a051b4063932e9602fad63ae01d9e79446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 080/186] fix: the exported Beckmann shader is the Beckmann
 function

---
 .../nonlinear_function_beckmann/function.cpp  | 30 ++-----------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 1607139..bb89f92 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -284,33 +284,6 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 
     if(is_shader)
     {
-    	//This is the Rational Approximation Code from Walter2007
-    	out << "vec3 g_beckmann(vec3 M, vec3 N, vec3 a)" << std::endl;
-		  out << "{" << std::endl;
-      out << "\tfloat d = dot(M,N);" << std::endl;
-		  out << "\tvec3 c = d / (a * sqrt(1.0f-d));" << std::endl;
-		  out << "\tvec3 r;" << std::endl;
-		  out << "\tif(c.x < 1.6f) {" << std::endl;
-		  out << "\t\tr.x = (3.535*c.x + 2.181*c.x*c.x) / (1 + 2.276*c.x + 2.577*c.x*c.x);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.x = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.y < 1.6f) {" << std::endl;
-		  out << "\t\tr.y = (3.535*c.y + 2.181*c.y*c.y) / (1 + 2.276*c.y + 2.577*c.y*c.y);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.y = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.z < 1.6f) {" << std::endl;
-		  out << "\t\tr.z = (3.535*c.z + 2.181*c.z*c.z) / (1 + 2.276*c.z + 2.577*c.z*c.z);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.z = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\treturn r;" << std::endl;
-      out << "}" << std::endl;
-
-		  out << std::endl;
-
-		  // This part is the call to beckmann function
       out << "vec3 beckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
       out << "{" << std::endl;
       out << "\tvec3  H   = normalize(L + V);" << std::endl;
@@ -318,7 +291,8 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 		  out << "\tfloat ln  = dot(L,N);" << std::endl;
 		  out << "\tfloat vn  = dot(V,N);" << std::endl;
 		  out << "\t" << std::endl;
-      out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((hn*hn - 1.0) / (a*a*hn*hn)) * g_beckmann(L,N,a) * g_beckmann(V,N,a);" << std::endl;
+		  out << "\tif(hn <= 0.0f || ln*vn <= 0.0f) { return vec3(0.0f); }" << std::endl;
+      out << "\treturn ks / (4 * " << M_PI << " * a*a * hn*hn*hn*hn) * exp((hn*hn - 1.0) / (a*a*hn*hn));" << std::endl;
       out << "}" << std::endl;
     }
 }
-- 
2.43.0


From d129b8c9037398de89877d4c7976ebabe67f7fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 081/186] fix: the diffuse part of a Lafortune function is
 exported

---
 .../nonlinear_function_lafortune/function.cpp      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 66f1f5b..e061d2c 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -472,9 +472,18 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     }
     else
     {
+        // The sum of the diffuse part and the lobes
+        out << "(vec3(";
+        for(int i=0; i<_nY; ++i)
+        {
+            out << _kd[i];
+            if(i < _nY-1) { out << ", "; }
+        }
+        out << ")";
+
         for(int n=0; n<_n; ++n)
         {
-            out << "lafortune(L, V, N, X, Y, vec3(";
+            out << " + lafortune(L, V, N, X, Y, vec3(";
             for(int i=0; i<_nY; ++i)
             {
                 out << _C[(n*_nY + i)*3 + 0];
@@ -502,10 +511,9 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
                 if(i < _nY-1) { out << ", "; }
             }
 
-            // For multiple lobes, add a sum sign
             out << "))";
-            if(n < _n-1) { out << " + "; }
         }
+        out << ")";
     }
 }
 
-- 
2.43.0


From af2bca8d3dd8940f0bd8ecbfe15d21f08ddb62ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 082/186] fix: Lafortune functions write shader code in shaders
 only

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index e061d2c..dbea6e9 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -519,6 +519,9 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
 
 void lafortune_function::save_body(std::ostream& out, const arguments& args) const
 {
+    bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
+    if(!is_shader) { return; }
+
     out << "vec3 lafortune(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 Cx, vec3 Cy, vec3 Cz, vec3 Nl)" << std::endl;
     out << "{" << std::endl;
     out << "\tvec3 ext_dot = Cx * dot(L,X)*dot(V,X) + Cy * dot(L,Y)*dot(V,Y) + Cz * dot(L,N)*dot(V,N);" << std::endl;
-- 
2.43.0


From 26e5acc96a71ae2923ddc94963c372c83d85c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 083/186] fix: the exported retro Blinn shader is scaled

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index da58b7c..4224f25 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -220,7 +220,7 @@ void retroblinn_function::save_body(std::ostream& out,
 		  out << "\tvec3 Vp = 2.0f*N*(dot(N,V)) - V;" << std::endl;
 		  out << "\tvec3 K  = normalize(L + Vp);" << std::endl;
         out << "\tvec3 ext_dot = vec3(dot(K,N));" << std::endl;
-        out << "\treturn pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
+        out << "\treturn ks * pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;
     }
-- 
2.43.0


From 575a297ca92c603f18a02cf0b18aa0e418a266a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 084/186] fix: the exported retro Beckmann shader is the retro
 Beckmann function

---
 .../function.cpp                              | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 94938d5..64deccd 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -267,7 +267,7 @@ void retrobeckmann_function::save_call(std::ostream& out, const arguments& args)
 	}
 	else
 	{
-		out << "retrobeckmann(L, V, N, X, Y, vec3(";
+		out << (_use_back_param ? "retrobeckmann" : "retrobeckmann_retro") << "(L, V, N, X, Y, vec3(";
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
 			out << _ks[i];
@@ -290,15 +290,22 @@ void retrobeckmann_function::save_body(std::ostream& out, const arguments& args)
 
     if(is_shader)
     {
-        out << "vec3 retrobeckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
+        const char* name = _use_back_param ? "retrobeckmann" : "retrobeckmann_retro";
+        out << "vec3 " << name << "(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
         out << "{" << std::endl;
-        out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
-        out << "\tvec3  B   = normalize(L + R);" << std::endl;
-        out << "\tfloat bn  = dot(B,N);" << std::endl;
-		  out << "\tfloat ln  = dot(L,N);" << std::endl;
-		  out << "\tfloat vn  = dot(V,N);" << std::endl;
-		  out << "\t" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
+        if(_use_back_param)
+        {
+            out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
+            out << "\tvec3  B   = normalize(L + R);" << std::endl;
+            out << "\tfloat bn  = dot(B,N);" << std::endl;
+        }
+        else
+        {
+            out << "\tfloat bn  = dot(L,V);" << std::endl;
+        }
+        out << "\t" << std::endl;
+        out << "\tif(bn <= 0.0f) { return vec3(0.0f); }" << std::endl;
+        out << "\treturn ks / (4 * " << M_PI << " * a*a * bn*bn*bn*bn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From e95fb0779f1ad611ef41277ae25e90ba70c51a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 085/186] fix: each type of spherical Gaussian is exported as
 its own shader function

---
 .../function.cpp                              | 28 +++++++++++++++----
 .../function.h                                |  4 +++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 8455e8a..c0d2c3a 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -354,7 +354,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	 }
 	 else
 	 {
-		 out << "spherical_gaussian(L, V, N, X, Y, vec3(";
+		 out << shader_name() << "(L, V, N, X, Y, vec3(";
          for(int i=0; i<nY; ++i)
 		 {
 			 out << _ks[i];
@@ -368,18 +368,34 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
              if(i < nY-1) { out << ", "; }
 		 }
 
-		 out << "))";
+		 out << ")";
+		 if(_type == Moment) { out << ", " << _a; }
+		 out << ")";
 	 }
 
 }
 
+// Name of the shader function, there is one per type.
+const char* spherical_gaussian_function::shader_name() const
+{
+	switch(_type)
+	{
+		case Half:   return "spherical_gaussian_half";
+		case Back:   return "spherical_gaussian_back";
+		case Retro:  return "spherical_gaussian_retro";
+		case Moment: return "spherical_gaussian_moment";
+		default:     return "spherical_gaussian";
+	}
+}
+
 void spherical_gaussian_function::save_body(std::ostream& out, const arguments& args) const
 {
     bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
 
     if(is_shader)
     {
-        out << "vec3 spherical_gaussian(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl)" << std::endl;
+        out << "vec3 " << shader_name() << "(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl"
+            << (_type == Moment ? ", float a)" : ")") << std::endl;
         out << "{" << std::endl;
 
 		  switch(_type)
@@ -390,10 +406,10 @@ void spherical_gaussian_function::save_body(std::ostream& out, const arguments&
 				  break;
 
 			  case Moment:
-				  out << "\tfloat t = " << _a << "*acos(dot(V, N));" << std::endl;
-				  out << "\tfloat p = atan(dot(V, Y), dot(V, X)) + " << M_PI << ";" << std::endl;
+				  out << "\tfloat t = acos(dot(L, N));" << std::endl;
+				  out << "\tfloat p = a*atan(dot(L, Y), dot(L, X)) + " << M_PI << ";" << std::endl;
 				  out << "\tvec3 R = cos(p)*sin(t)*X + sin(p)*sin(t)*Y + cos(t)*N;" << std::endl;
-				  out << "\tvec3 ext_dot = vec3(dot(L,R));" << std::endl;
+				  out << "\tvec3 ext_dot = vec3(dot(V,R));" << std::endl;
 				  break;
 
 			  case Back:
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.h b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
index ec752e7..86f597e 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.h
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
@@ -102,6 +102,10 @@ class spherical_gaussian_function : public nonlinear_function
 		//! there is no such type.
 		bool setType(const std::string& stype);
 
+		//! \brief Name of the function that evaluates this type of lobe in an
+		//! exported shader.
+		const char* shader_name() const;
+
 	private: // data
 
 		vec _n, _ks; // Lobes data
-- 
2.43.0


From fea0934b42bc7d595b9ad91e17e24e22231acdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 086/186] fix: the exported Yoo shader compiles

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 9182df8..4ea5eea 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -226,7 +226,8 @@ void yoo_function::save_body(std::ostream& out, const arguments& args) const
     {
         out << "vec3 retroyoo(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 kr, vec3 lt)" << std::endl;
         out << "{" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn)) * g_yoo(L,N,a) * g_yoo(V,N,a);" << std::endl;
+        out << "\tfloat q = 2.0f * " << M_PI << " * dot(V,X) / 633.0f;" << std::endl;
+        out << "\treturn kr * 3.0f / (16.0f * " << M_PI << ") * (2.4f + 1.0f / (1.0f + q*lt*lt)) * (1.0f + (1.0f - exp(-1.4f * q*lt) / (q*lt)));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 2eb8247c10ef2bd4c93bdb4ce2c300c6d06e67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 087/186] fix: the exported Schlick masking shader is the
 Schlick masking function

---
 .../plugins/nonlinear_shadowing_schlick/function.cpp   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 3646faa..7aee58d 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -89,7 +89,7 @@ void schlick_masking::save_call(std::ostream& out, const arguments& args) const
     }
     else
     {
-        out << "masking_schlick(L, V, N, X, Y, vec3";
+        out << "masking_schlick(L, V, N, X, Y, vec3(";
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << w[i];
@@ -108,11 +108,11 @@ void schlick_masking::save_body(std::ostream& out, const arguments& args) const
         out << std::endl;
         out << "vec3 masking_schlick(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 K)" << std::endl;
         out << "{" << std::endl;
-        out << "\tconst float dotLN = dot(L, N);" << std::endl;
-        out << "\tconst float dotVN = dot(L, N);" << std::endl;
+        out << "\tfloat dotLN = dot(L, N);" << std::endl;
+        out << "\tfloat dotVN = dot(V, N);" << std::endl;
 		  out << std::endl;
-        out << "\tconst vec3 GL = dotLN / (dotLN + K * (dotLN - 1.0));" << std::endl;
-        out << "\tconst vec3 GV = dotVN / (dotVN + K * (dotVN - 1.0));" << std::endl;
+        out << "\tvec3 GL = dotLN / (dotLN + K * (1.0 - dotLN));" << std::endl;
+        out << "\tvec3 GV = dotVN / (dotVN + K * (1.0 - dotVN));" << std::endl;
 		  out << std::endl;
         out << "\treturn vec3(GL*GV);" << std::endl;
         out << "}" << std::endl;
-- 
2.43.0


From 959bd0d6a20d81d3e42135e7a077eeee4b65ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 088/186] fix: Smith shadowing can be exported as a shader

---
 .../nonlinear_shadowing_smith/function.cpp    | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index b8ec0b7..1c5de8f 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -106,13 +106,10 @@ void smith::save_body(std::ostream& out, const arguments& args) const
 
     if(is_shader)
     {
-        std::cerr << " FINISH IMPLEMENTATION AT " << __FILE__ << " " << __LINE__ << std::endl;
-        assert(0);
-
         // Generate code for erf function
         // This code is the same as the one in common.hpp 
         out << "/** The Error function in GLSL **/" << std::endl;
-        out << "float erf( float a_x ) " << std::endl
+        out << "float smith_erf( float a_x ) " << std::endl
             << "{" << std::endl
             << "\t const float a1 = 0.254829592;" << std::endl
             << "\t const float a2 = -0.284496736;" << std::endl
@@ -121,12 +118,12 @@ void smith::save_body(std::ostream& out, const arguments& args) const
             << "\t const float a5 = 1.061405429;" << std::endl
             << "\t const float  p = 0.3275911;" << std::endl
             << "\t // Save the sign of a_x " << std::endl
-            << "\t int sign = 1;" << std::endl
-            << "\t if( a_x < 0 ) { sign = -1; }" << std::endl
-            << "\t const float x = abs( a_x); " << std::endl
-            << "\t const float t = 1.0 / (1.0 + p*x); " << std::endl
-            << "\t const float y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x);" << std::endl
-            << "\t return sign * y" << std::endl
+            << "\t float s = 1.0;" << std::endl
+            << "\t if( a_x < 0.0 ) { s = -1.0; }" << std::endl
+            << "\t float x = abs( a_x); " << std::endl
+            << "\t float t = 1.0 / (1.0 + p*x); " << std::endl
+            << "\t float y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x);" << std::endl
+            << "\t return s * y;" << std::endl
             
             << "}" << std::endl;
 
@@ -135,8 +132,12 @@ void smith::save_body(std::ostream& out, const arguments& args) const
         //Now the shadowing term of smith 
         out << "vec3 shadowing_smith(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 R)" << std::endl;
         out << "{" << std::endl;
-        out << "\t const float SQRT_ONE_OVER_TWO_PI = 0.398942280401439;" << std::endl;
-        out << "\t const float SQRT_2_OVER_2 = 0.70710678118655;" << std::endl;
+        out << "\t float s = length(L - dot(L,N)*N);" << std::endl;
+        out << "\t if(s == 0.0) { return vec3(1.0); }" << std::endl;
+        out << "\t vec3 r = vec3(dot(L,N)/s) / R;" << std::endl;
+        out << "\t vec3 e = vec3(smith_erf(0.70710678118655*r.x), smith_erf(0.70710678118655*r.y), smith_erf(0.70710678118655*r.z));" << std::endl;
+        out << "\t vec3 A = 0.398942280401439*exp(-0.5*r*r)/r - 0.5*(vec3(1.0) - e);" << std::endl;
+        out << "\t return vec3(1.0) / (vec3(1.0) + A);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;        
     
-- 
2.43.0


From 506f5d10357ba6e1f39132f6258b54abe4902081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 089/186] fix: the exported Walter Smith shader compiles

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index ba909e9..47454f5 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -156,13 +156,13 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
 
     out << "\t float tan_theta_v = tan( acos( NdotV ) ); " << std::endl
         << std::endl
-        << "\t vec3 geom_term_view(0.0); " << std::endl
+        << "\t vec3 geom_term_view = vec3(0.0); " << std::endl
         << "\t geom_term_view[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_v)) ;"<< std::endl
         << std::endl
         << "\t float tan_theta_l = tan( acos( NdotL ) ); " << std::endl
-        << "\t vec3 geom_term_light(0.0); " << std::endl    
+        << "\t vec3 geom_term_light = vec3(0.0); " << std::endl    
         << "\t geom_term_light[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_l)) ;" << std::endl
-- 
2.43.0


From 2a4066d9da0fc25113dd15350af76e3234d8eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 090/186] fix: the polynomials of a rational function are
 summed from zero

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 92c9f58..698eb93 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -256,7 +256,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -268,7 +268,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From 96981c5dd4a6ea6744b1a6b77330de404ba52330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 091/186] fix: updating a rational function with another number
 of coefficients sets their degrees

---
 sources/core/rational_function.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 698eb93..4939a96 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -176,12 +176,7 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int nq = in_b.size();
 
 	// Resize the coefficient vector if they do not match
-	if(np != _p_coeffs.size()) {
-		_p_coeffs.resize(np);
-	}
-	if(nq != _q_coeffs.size()) {
-		_q_coeffs.resize(nq);
-	}
+	resize(np, nq);
 
 #define NORMALIZE
 
-- 
2.43.0


From f2489e8f1a63c6da0019f09e957d4bc58950c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 092/186] fix: evaluating a rational function without
 coefficients is not a memory error

---
 sources/core/rational_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 4939a96..15ea3e2 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -598,7 +598,9 @@ vec rational_function::value(const vec& x) const
 
 	for(int k=0; k<_parameters.dimY(); ++k)
 	{
-		res[k] = rs[k]->value(x)[0] ;
+		// A channel that was never set has no coefficients
+		res[k] = (rs[k] != NULL) ? rs[k]->value(x)[0]
+		                         : std::numeric_limits<double>::quiet_NaN();
 	}
 	return res ;
 }
-- 
2.43.0


From aa32efebb95d0ffa04ce69e659ae1424b45fdd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 093/186] fix: QuadProg++: handle chunks larger than the number
 of inequalities

---
 external/quadprog++/QuadProg++.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..85a22dd 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -257,7 +257,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   for (int i = 0; i < m; i++) iai[i] = i;
 
   int chunk_start=0, chunk_size = scheduling.initial_chunk_size;
-  if(scheduling.mode==Scheduling::WorstFirst)
+  if(scheduling.mode==Scheduling::WorstFirst || chunk_size>m)
     chunk_size = m;
 
 //   if(active_set)
@@ -280,7 +280,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   bool done_with_current_subset = false;
   long flops0 = 0, flops1 = 0;
   int iter = 0;
-  int nb_chunks = (m+chunk_size-1)/chunk_size;
+  int nb_chunks = chunk_size>0 ? (m+chunk_size-1)/chunk_size : 0;
   int nb_satisfied_chunks = 0;
   while(iter<=10*m) // make sure we do not run into an infinite loop
   {
-- 
2.43.0


From a1cc414b5031da608d7ee6e115cfa06b7fa5dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 094/186] fix: QuadProg++: always enlarge the window when the
 grow factor asks for it

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 85a22dd..2967e1d 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -343,7 +343,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
           // in this case, let's enlarge the current window size, and re-start sliding from the head,
           // until the window covers the entire set of constriants
           chunk_start = 0;
-          chunk_size = std::min(m,int(chunk_size*scheduling.grow_factor));
+          chunk_size = std::min(m,std::max(chunk_size+1,int(chunk_size*scheduling.grow_factor)));
           continue;
         }
         else
-- 
2.43.0


From f5b0e047d63f1f1956976d0df4262b541d794247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 095/186] fix: QuadProg++: do not return the cost of an
 infeasible point after too many iterations

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 2967e1d..f34634b 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -581,7 +581,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   if(iter>10*m)
   {
     std::cout << "too many iterations...\n";
-    return std::numeric_limits<double>::max();
+    return inf;
   }
 
   g_u = u;
-- 
2.43.0


From 1588ce9886549989987232eb37e85f7e10a9e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 096/186] fix: QuadProg++: remove a global variable written by
 every solve

---
 external/quadprog++/QuadProg++.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index f34634b..f3c8d3d 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -160,8 +160,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   } while (mid != ncut );
 }
 
-VectorXd g_u;
-
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
                                  Ref<const MatrixXd> CI_, Ref<const VectorXd> ci0_,
@@ -271,8 +269,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 //       //u[i] = r[i] = d[i] = z[i] = 0;
 //       add_constraint(R, J, d, iq, R_norm);
 //     }
-//     if(active_set->size()>0)
-//       u.head(iq+1) = g_u.head(iq+1);
 //     //u[iq] = r[iq] = d[iq] = z[iq] = 0;
 //   }
 
@@ -584,8 +580,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return inf;
   }
 
-  g_u = u;
-
   if(active_set)
     *active_set = A.head(iq);
 
-- 
2.43.0


From ca0f9ffaaa45a23a2a98dba5d86e61a7f1fd0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 097/186] fix: QuadProg++: consider the worst inequalities in
 the WorstSetFirst mode

---
 external/quadprog++/QuadProg++.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index f3c8d3d..b066e3e 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -124,19 +124,19 @@ double solve_quadprog(Ref<MatrixXd> G, Ref<const VectorXd> g0,
   return solve_quadprog_with_guess(G, g0, CE, ce0, CI, ci0, x);
 }
 
+// Among the entries [start,end), move the smallest values to [start,ncut)
 template <typename ValuesType, typename MatrixType, typename VectorType>
-void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, int ncut)
+void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, VectorXi &perm, int start, int end, int ncut)
 {
   typedef typename ValuesType::RealScalar RealScalar;
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
   Index first, last ;
 
   ncut--; // to fit the zero-based indices
   first = start;
-  last = n-1;
+  last = end-1;
   if (ncut < first || ncut > last ) return;
 
   do {
@@ -147,12 +147,14 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
         ++mid;
         swap(values(mid), values(j));
         swap(m(mid), m(j));
+        swap(perm(mid), perm(j));
         M.col(mid).swap(M.col(j));
       }
     }
     /* Interchange for the pivot element */
     swap(values(mid), values(first));
     swap(m(mid), m(first));
+    swap(perm(mid), perm(first));
     M.col(mid).swap(M.col(first));
 
     if (mid > ncut) last = mid - 1;
@@ -183,6 +185,8 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   double t, t1, t2; // t is the step length, which is the minimum of the partial step length t1
                     // and the full step length t2
   VectorXi A(m + p), iai(m + p);
+  VectorXi perm(m); // the original index of each of the inequalities
+  for (int i = 0; i < m; i++) perm[i] = i;
   int q, iq;
 
 #ifdef QP_SKIP_DEGENERATE
@@ -358,32 +362,34 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
       if(scheduling.mode==Scheduling::WorstSetFirst && !done_with_current_subset)
       {
         // Pack the active set to the front
+        const int nact = iq-p; // number of active inequalities
         int j = 0;
         for(int i=p; i<iq; ++i)
         {
           int Ai = A[i];
-          if(Ai>=iq-p)
+          if(Ai>=nact)
           {
             while(iai[j]==-1) j++;
             std::swap(s(Ai), s(j));
             std::swap(ci0(Ai), ci0(j));
+            std::swap(perm(Ai), perm(j));
             CI.col(Ai).swap(CI.col(j));
             A[i] = j;
             j++;
           }
         }
         for (int i = 0; i < m; i++) iai[i] = i;
-        for(int i=p; i<iq; ++i)
+        for(int i=0; i<nact; ++i)
           iai[i] = -1;
 
         // Update all remaining inequalities
-        s.tail(m-iq)            = ci0.tail(m-iq);
-        s.tail(m-iq).noalias() += CI.rightCols(m-iq).transpose() * x;
-        flops1 += (m-iq) * n;
+        s.segment(nact,m-nact)            = ci0.tail(m-nact);
+        s.segment(nact,m-nact).noalias() += CI.rightCols(m-nact).transpose() * x;
+        flops1 += (m-nact) * n;
 
         // Pack worst inequalities right after the active set
-        chunk_size = std::min(m,std::max(chunk_size,iq*2));
-        partial_sort(s,CI,ci0,iq,chunk_size-iq);
+        chunk_size = std::min(m,std::max(chunk_size,nact*2));
+        partial_sort(s,CI,ci0,perm,nact,m,chunk_size);
 
         done_with_current_subset = true;
         continue;
@@ -581,7 +587,11 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   }
 
   if(active_set)
+  {
     *active_set = A.head(iq);
+    for(int i=p; i<iq; ++i)
+      (*active_set)[i] = perm[A[i]];
+  }
 
   TRACE_SOLVER_(std::cout << "#iterations = " << iter << " ; inequality update costs: " << 1e-9*flops0 << " + " << 1e-9*flops1 << " = " << 1e-9*(flops0+flops1) << " GFlops");
 
-- 
2.43.0


From 007726683a178f1a7797d540243330e308dd7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 098/186] fix: rational_fitter_quadprog_parallel: do not read
 an uninitialised objective

---
 sources/plugins/rational_fitters/quadratic_program.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..42bed32 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -117,6 +117,7 @@ class quadratic_program
          // Select the size of the result vector to
          // be equal to the dimension of p + q
          G.setIdentity();
+         g.setZero();
 
          // Each constraint (fitting interval or point
          // add another dimension to the constraint
-- 
2.43.0


From a99508da3a336546fac2f766e19cd466d6acd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 099/186] fix: rational_fitter_quadprog_parallel: store each
 converted sample in its own row

---
 .../rational_fitters/quadprog_parallel.cpp     | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..22ba7d2 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -110,22 +110,22 @@ class rational_fitter_parallel : public fitter
             {
                const vec x = dat->get(i);
 
-               for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
-               }
-               for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
-                     (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+               double* row = content + i*elem_size;
+
+               for(int k=0; k<dat->parametrization().dimX() + dat->parametrization().dimY(); ++k) {
+                  row[k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
-                     (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+                  const double y  = x[k + dat->parametrization().dimX()];
+                  const double dy = args.get_float("dt", 0.1) * std::abs(y);
+                  row[k + dat->parametrization().dimX() + dat->parametrization().dimY()]   = y - dy;
+                  row[k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] = y + dy;
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content, std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From 03723030748ae060eef9610191c789d92ae9ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 100/186] fix: rational_fitter_quadprog_parallel: solve the
 program holding all the samples

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 22ba7d2..caae58e 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -348,9 +348,8 @@ class rational_fitter_parallel : public fitter
 #endif
                return false;
             }
-         } while(qp.nb_constraints() < 2*m);
-
-         return false;
+         } while(true); // Once it holds every sample, the program either has no
+                        // solution or its solution passes the test.
       }
 
       void get_constraint(int i, int np, int nq, int ny,
-- 
2.43.0


From 994317acacd2b2c1d64d19917c8e1a5046e8e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 101/186] fix: rational_fitter_quadprog_parallel: accept a
 single starting point

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index caae58e..df8a35d 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -300,7 +300,7 @@ class rational_fitter_parallel : public fitter
 
          // Starting with only a nb_starting_points vertical segments
          std::list<unsigned int> training_set;
-         const int di = std::max((m-1) / (nb_starting_points-1), 1);
+         const int di = std::max((m-1) / std::max(nb_starting_points-1, 1), 1);
          for(int i=0; i<m; ++i)
          {
             if(i % di == 0)
-- 
2.43.0


From 55332f8c5367ce9243ee9382fd6181c603af7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 102/186] fix: rational_fitter_eigen: use the smallest eigen
 value even when rounding makes it negative

---
 sources/plugins/rational_fitters/eigen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 2e2997f..06a1e51 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -181,7 +181,9 @@ class rational_fitter_eigen : public fitter
 				for(int i=0; i<solver.eigenvalues().size(); ++i)
 				{
 					double value = solver.eigenvalues()[i] ;
-					if(value >= 0 && value < min_val)
+					// The matrix is positive, but a null eigen value can
+					// come out slightly negative.
+					if(value < min_val)
 					{
 						min_id  = i ;
 						min_val = value ;
-- 
2.43.0


From 29a6d92a7b77a7ccde770f91999ad0060f511850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 103/186] fix: rational_fitter_leastsquare: report non finite
 coefficients as a failure

---
 sources/plugins/rational_fitters/leastsquare.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/leastsquare.cpp b/sources/plugins/rational_fitters/leastsquare.cpp
index 1c0ba24..110181b 100644
--- a/sources/plugins/rational_fitters/leastsquare.cpp
+++ b/sources/plugins/rational_fitters/leastsquare.cpp
@@ -155,7 +155,7 @@ class rational_fitter_leastsquare : public fitter
       VectorXd pq(np+nq);
       
       // initialize with a constant numerator:
-      pq.head(np).setZero();
+      pq.setZero();
       pq(0) = 1;
       
       // Alternate between fixed numerator and fixed denominator
@@ -212,6 +212,11 @@ class rational_fitter_leastsquare : public fitter
          }
       } // iterations
       
+      if(!pq.allFinite())
+      {
+         return false;
+      }
+
       vec p(np), q(nq);
       Eigen::VectorXd::Map(&p[0], np) = pq.head(np);
       Eigen::VectorXd::Map(&q[0], nq) = pq.tail(nq);
-- 
2.43.0


From d87ac585f4d58572ad2486657cbcad08e107fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 104/186] fix: nonlinear_fitter_ceres: bootstrap functions
 without free parameters too

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..26a33a2 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -133,6 +133,9 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
     }
 
 
+	 /* Bootstrap the function */
+	 nf->bootstrap(d, args);
+
 #ifndef DEBUG
 	 std::cout << "<<DEBUG>> number of parameters: " << nf->nbParameters() << std::endl;
 #endif
@@ -141,9 +144,6 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 return true;
 	 }
 
-	 /* Bootstrap the function */
-	 nf->bootstrap(d, args);
-
 	 /* the following starting values provide a rough fit. */
 	 vec p = nf->parameters();
 
-- 
2.43.0


From 98c5e961fcfae7f96120187382d690d6a648b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 105/186] fix: nonlinear_fitter_ceres: report a failed
 minimisation as a failure

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 26a33a2..5ed39d6 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -179,7 +179,7 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
-	 return true;
+	 return summary.IsSolutionUsable();
 }
 
 void nonlinear_fitter_ceres::set_parameters(const arguments& args)
-- 
2.43.0


From 7f6b1ec37eef4ede114a3a4e19b59ce8bd0546a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 106/186] fix: nonlinear_fitter_ceres: derivative of the
 logarithmic residuals

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 5ed39d6..03c1c3f 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,7 +74,7 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
@@ -82,7 +82,7 @@ class CeresFunctor : public ceres::CostFunction
 
 		// The parameter of the function _f should be set prior to this function
 		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +95,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From 0817bb5a3a4564ff196fb876dab86804d68cbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 107/186] fix: nonlinear_fitter_ceres: gradient and parameter
 tolerance options

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 03c1c3f..cf3fae3 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -213,13 +213,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From d07416964187d0b6bebcc58934a4230035c9c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 108/186] fix: nonlinear_function_diffuse: use the first sample
 of cosine weighted data

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 930126e..0330eed 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -204,7 +204,7 @@ void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
             for(int i=0; i<d->parametrization().dimY(); ++i)
                 _kd[i] = std::numeric_limits<double>::max();
 
-            for(int i=1; i<d->size(); ++i)
+            for(int i=0; i<d->size(); ++i)
             {
                 vec x = d->get(i);
                 params::convert(&x[0],
-- 
2.43.0


From 861c5a2effe794a6a7b52102b8675581d0997101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 109/186] fix: bootstrap the parts that a vector of parameters
 does not describe

---
 sources/core/function.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 42d423a..0710a5f 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -594,7 +594,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 		
 			for(unsigned int i=0; i<fs.size(); ++i)
 			{
-				if(fs[i]->nbParameters() == 0)
+				if(fs[i]->nbParameters() == 0 || is_fixed[i])
 				{
 					fs[i]->bootstrap(d, fs_args[i]);
 				}
@@ -987,6 +987,10 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 		{
 			vec p = args.get_vec("bootstrap", nbParameters());
 			setParameters(p);
+
+			// The vector does not describe these factors
+			if(f1->nbParameters() == 0 || _is_fixed.first)  { f1->bootstrap(d, arguments()); }
+			if(f2->nbParameters() == 0 || _is_fixed.second) { f2->bootstrap(d, arguments()); }
 		}
 		else
 		{
-- 
2.43.0


From 663d4e5f81516bc572a43a302679f09a84248934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 110/186] fix: do not loop forever on a bootstrap file without
 header

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 0710a5f..1455d30 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -614,7 +614,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				// Load the file
 				// For each individual element, the input file is parsed
@@ -1004,7 +1004,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				std::streampos pos = file.tellg();
 
-- 
2.43.0


From 271821540b70f2f12a73362266782b144867e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 111/186] fix: nonlinear_fitter_eigen: refuse a start out of
 bounds

---
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 73967da..a9fe2c4 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -357,6 +357,15 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 }
 
 		 EigenFunctor functor(nf, d, args.is_defined("fit-with-cosine"));
+
+		 // The solver does not look at the status of the first evaluation
+		 Eigen::VectorXd y(functor.values());
+		 if(functor(x, y) < 0)
+		 {
+			 std::cerr << "<<ERROR>> the starting parameters are out of bounds" << std::endl;
+			 return false;
+		 }
+
 		 Eigen::LevenbergMarquardt<EigenFunctor> lm(functor);
 
 		 info = lm.minimize(x);
-- 
2.43.0


From c37f52c8d98b87c6942a931f8ce6c9787ed58852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 112/186] fix: nonlinear_fitter_nlopt: tell the optimizer which
 parameters are not bounded

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..89426a6 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -238,6 +238,14 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	// Set the bounds to the parameters
 	vec p_min = nf->getParametersMin();
 	vec p_max = nf->getParametersMax();
+	const bool global = optimizerName.compare(0, 7, "global-") == 0;
+	for(int i=0; !global && i<nf->nbParameters(); ++i)
+	{
+		// The extreme values stand for the absence of a bound, which only
+		// the global optimizers cannot do without.
+		if(p_min[i] == -std::numeric_limits<double>::max()) { p_min[i] = -HUGE_VAL; }
+		if(p_max[i] ==  std::numeric_limits<double>::max()) { p_max[i] =  HUGE_VAL; }
+	}
 	nlopt_set_lower_bounds(opt, &p_min[0]);
 	nlopt_set_upper_bounds(opt, &p_max[0]);
 
-- 
2.43.0


From 61f6be3084bb3e74ad0770f48b5b2bcd7835ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:24 +0000
Subject: [PATCH 113/186] fix: nonlinear_fitter_nlopt: never return a worse
 point than the first one

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index 89426a6..c6d86cc 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -296,8 +296,21 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	// Launch minimization
 	double f_end;
 	std::cout << p << std::endl;
+	const vec p_start = p;
+	const double f_start = f(nf->nbParameters(), &p[0], NULL, dat);
 	res = nlopt_optimize(opt, &p[0], &f_end);
 
+	// Some optimizers end on a point that is not better than the first one
+	if(res > 0 && (!p.allFinite() || !(f(nf->nbParameters(), &p[0], NULL, dat) <= f_start)))
+	{
+		p     = p_start;
+		f_end = f_start;
+		if(!(f_start <= std::numeric_limits<double>::max()))
+		{
+			res = NLOPT_FAILURE;
+		}
+	}
+
 	if(res > 0)
 	{
 		std::cout << "<<INFO>> optimized distance: " << f_end << std::endl;
-- 
2.43.0


From bffcb12cb96e38f71bb65ee14f15aa6096322936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:30 +0000
Subject: [PATCH 114/186] fix: rational_fitter_parallel: make the choice
 between equally good solutions independent of the schedule

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index df8a35d..936f84e 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -163,6 +163,7 @@ class rational_fitter_parallel : public fitter
 
             double min_delta   = std::numeric_limits<double>::max();
             double min_l2_dist = std::numeric_limits<double>::max();
+            int    best_nq     = i;
             double mean_delta = 0.0;
             int nb_sol_found  = 0;
             int nb_sol_tested = 0;
@@ -218,8 +219,14 @@ class rational_fitter_parallel : public fitter
 
                      // Get the solution with the minimum delta or the minimum L2 distance,
                      // and update the main rational function r.
-                     if((use_delta && delta < min_delta) || (!use_delta && l2_dist < min_l2_dist))
+                     // Among equally good solutions, keep the one with the smallest
+                     // denominator, so that the result does not depend on the order in
+                     // which the threads find them.
+                     const double dist = use_delta ? delta : l2_dist;
+                     const double best = use_delta ? min_delta : min_l2_dist;
+                     if(dist < best || (dist == best && temp_nq < best_nq))
                      {
+                        best_nq     = temp_nq ;
                         min_delta   = delta ;
                         min_l2_dist = l2_dist ;
                         r->setSize(temp_np, temp_nq);
-- 
2.43.0


From 6c567e183c5762052e8165e7c622c7a51c8695c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 115/186] fix: data2data: do not count incorrect configurations
 from several threads at once

---
 sources/softs/data2data/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..908639b 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -231,7 +231,7 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
     unsigned int stats_incorrect = 0;
 
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
 		{
         vec temp(d_in->parametrization().dimX());
-- 
2.43.0


From 811f6101a5749480f492814acce26865713db82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 116/186] fix: data_grid: do not read past the grid for
 abscissas beyond its domain

---
 sources/plugins/data_interpolants/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 29e1c1b..4f571c0 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -342,7 +342,8 @@ class BrdfGrid : public vertical_segment {
          vec alphas(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
             const auto xdiff = (_size[i]-1) * (x[i]-x0[i]) / (_max[i]-_min[i]);
-            alphas[i] = clamp(xdiff, 0.0, 1.0);
+            // There is nothing to interpolate with beyond the last node
+            alphas[i] = k[i] < _size[i]-1 ? clamp(xdiff, 0.0, 1.0) : 0.0;
             assert(alphas[i] >= 0.0 && alphas[i] <= 1.0);
          }
 
-- 
2.43.0


From 29a953fd4b6005e7f3838ab1a98bd5ab19859ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 117/186] fix: errors: compute the metrics of the entries
 selected by the mask

---
 sources/core/metrics.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..c91754a 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -62,7 +62,7 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
       // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -91,6 +91,7 @@ void errors::evaluate(const data* inp,
    const bool has_mask = mask != nullptr;
 
    // Evaluate the input data at each position of data_x configuration
+   int row = 0;
    for(auto i=0; i<ref->size(); i++) {
 
       // If the mask value is set to zero, skip the current entry
@@ -117,8 +118,8 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
@@ -128,9 +129,10 @@ void errors::evaluate(const data* inp,
                          inp_y.row(i).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
+      ++row;
    }
 }
 
-- 
2.43.0


From 0600ae66226631591d69b7e461de405f938471bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 118/186] fix: data_rbf: interpolate the nearest samples, the
 same ones in every run

---
 sources/plugins/data_interpolants/rbf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 091a592..6a9004e 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -105,7 +105,9 @@ class rbf_interpolant : public data
             vec x = _data->get(i);
             memcpy(pts[i], &x[0], parametrization().dimX()*sizeof(double));
         }
-        _kdtree = new flann::Index< flann::L2<double> >(pts, flann::KDTreeIndexParams(4));
+        // A single tree finds the nearest samples. Searching randomized trees is
+        // approximate, and its result would differ from one run to the next.
+        _kdtree = new flann::Index< flann::L2<double> >(pts, flann::KDTreeSingleIndexParams());
         _kdtree->buildIndex();
 #endif
     }
-- 
2.43.0


From 16ad72e7bc656bd1fa4168ff99e4df561155a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 119/186] fix: arguments: keep the bracketed options of the
 elements of a list together

---
 sources/core/args.h | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 5854da8..9e42a62 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -37,6 +37,18 @@ class arguments
   private:
     typedef std::pair<const std::string, std::string> pair_type;
 
+    //! \brief Number of brackets that are still open at the end of \a s.
+    static int nesting(const std::string& s)
+    {
+      int depth = 0;
+      for(size_t i=0; i<s.size(); ++i)
+      {
+        if(s[i] == '[') { ++depth; }
+        if(s[i] == ']') { --depth; }
+      }
+      return depth;
+    }
+
 	public: // functions
 
 		// Constructor and destructor
@@ -72,12 +84,12 @@ class arguments
                 {
                     --i;
                 }
-                else if(next[0] == '[' && next[next.size()-1] != ']')
+                else if(next[0] == '[' && nesting(next) > 0)
                 {
                     data.append(next);
 
                     ++i;
-                    while(i < argc && (next.empty() || next[next.size()-1] != ']'))
+                    while(i < argc && nesting(data) > 0)
                     {
                         next = argv[i] ;
                         data.append(" ");
@@ -324,25 +336,27 @@ class arguments
 
           if(s[0] == '[') // Is an array of type [a, b, c]
           {
-              size_t pos = 1;
-              while(pos != std::string::npos)
+              // The elements can have bracketed options themselves: split at
+              // the commas that are in no other bracket.
+              const std::string list = s.substr(1, s.size()-2);
+              std::string temp;
+              int depth = 0;
+              for(size_t i=0; i<list.size(); ++i)
               {
-                  size_t ppos = s.find(',', pos);
+                  if(list[i] == '[') { ++depth; }
+                  if(list[i] == ']') { --depth; }
 
-                  if(ppos != std::string::npos)
+                  if(list[i] == ',' && depth == 0)
                   {
-                      std::string temp = s.substr(pos, ppos-pos);
                       res.push_back(temp);
-                      pos = ppos+1;
+                      temp.clear();
                   }
                   else
                   {
-                      std::string temp = s.substr(pos, std::string::npos);
-                      temp = temp.substr(0, temp.size()-1);
-                      res.push_back(temp);
-                      pos = ppos;
+                      temp.push_back(list[i]);
                   }
               }
+              res.push_back(temp);
           }
         }
       return res;
-- 
2.43.0


From cf56b78609a731f20d554844cb4c55b6220f0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 120/186] fix: arguments: stop parsing at the end of the header

---
 sources/core/args.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 9e42a62..e584a94 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -504,7 +504,9 @@ class arguments
 							if (key == "ALTA") {
 								std::string first, second;
 								linestream >> first >> second;
-								if (second == "HEADER")	{
+								if (first == "HEADER" && second == "END") {
+									break;
+								} else if (second == "HEADER")	{
 
 									// Add the header type
 									if (first != "END") {
-- 
2.43.0


From 7e2dd1e1816b101f8feef7e2ec79201f2d8ef81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 121/186] fix: arguments: an empty list has no element, and
 spaces are not part of the elements

---
 sources/core/args.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index e584a94..21792ee 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -37,6 +37,14 @@ class arguments
   private:
     typedef std::pair<const std::string, std::string> pair_type;
 
+    //! \brief Remove the spaces around \a s.
+    static std::string trim(const std::string& s)
+    {
+      const size_t first = s.find_first_not_of(" \t");
+      if(first == std::string::npos) { return std::string(); }
+      return s.substr(first, s.find_last_not_of(" \t") - first + 1);
+    }
+
     //! \brief Number of brackets that are still open at the end of \a s.
     static int nesting(const std::string& s)
     {
@@ -256,6 +264,9 @@ class arguments
 				std::string s = _map.find(key)->second;
 				if(s[0] == '[') // Is an array of type [a, b, c]
 				{
+					if(trim(s.substr(1)) == "]") // Without any element
+						return res;
+
 					int i = 0;
 					size_t pos = 1;
 					while(pos != std::string::npos && i<size)
@@ -334,7 +345,8 @@ class arguments
       {
           std::string s = _map.find(key)->second;
 
-          if(s[0] == '[') // Is an array of type [a, b, c]
+          // Is an array of type [a, b, c]
+          if(s[0] == '[' && s.find_first_not_of(" ", 1) != s.size()-1)
           {
               // The elements can have bracketed options themselves: split at
               // the commas that are in no other bracket.
@@ -348,7 +360,7 @@ class arguments
 
                   if(list[i] == ',' && depth == 0)
                   {
-                      res.push_back(temp);
+                      res.push_back(trim(temp));
                       temp.clear();
                   }
                   else
@@ -356,7 +368,7 @@ class arguments
                       temp.push_back(list[i]);
                   }
               }
-              res.push_back(temp);
+              res.push_back(trim(temp));
           }
         }
       return res;
-- 
2.43.0


From 2f0487b641720e6629aa904312b5d8435df19606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 122/186] fix: arguments: a list of spaces has no element
 either

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 21792ee..33857c9 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -320,7 +320,7 @@ class arguments
 				std::string str = _map.find(key)->second;
 				if(str[0] == '[' && str[str.size()-1] == ']') // Is an array of type [a, b, c]
 				{
-					std::stringstream stream(str.substr(1, str.size()-2));
+					std::stringstream stream(trim(str.substr(1, str.size()-2)));
 					std::string s;
 					while(std::getline(stream, s, ','))
 					{
-- 
2.43.0


From 2bf275398fef0356b4e431fc29dc3f46cb432e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 123/186] fix: arguments: get_double accepts every number that
 can be written

---
 sources/core/args.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 33857c9..7f8ebfd 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <cctype>
+#include <stdexcept>
 
 #include "common.h"
 
@@ -219,7 +220,14 @@ class arguments
       auto search = _map.find(key);
       if ( search != _map.end() )
       {
-        return std::stod( search->second );
+        // Unlike std::stod, accept numbers that are too small to be normalized
+        char* end;
+        const double val = std::strtod( search->second.c_str(), &end );
+        if ( end == search->second.c_str() )
+        {
+          throw std::invalid_argument( "\"" + key + "\" is not a number" );
+        }
+        return val;
       }
       return default_value;
 
-- 
2.43.0


From c4a81f41142210d2d15624814953f8997298649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 124/186] fix: commands: report the errors that nothing else
 handled

An exception that left 'main' ended every command by abort().
---
 sources/core/common.h                   | 8 ++++++++
 sources/softs/brdf2brdf/main.cpp        | 2 ++
 sources/softs/brdf2data/main.cpp        | 2 ++
 sources/softs/brdf2gnuplot/main.cpp     | 2 ++
 sources/softs/data2brdf/main.cpp        | 2 ++
 sources/softs/data2data/main.cpp        | 2 ++
 sources/softs/data2moments/main.cpp     | 2 ++
 sources/softs/data2stats/data2stats.cpp | 2 ++
 sources/softs/fit2stat/fit2stat.cpp     | 2 ++
 9 files changed, 24 insertions(+)

diff --git a/sources/core/common.h b/sources/core/common.h
index 131765d..f670f1a 100644
--- a/sources/core/common.h
+++ b/sources/core/common.h
@@ -253,4 +253,12 @@ class timer
 									<< std::endl;														\
 				exit(EXIT_FAILURE);																\
 		}
+
+// Report the errors that nothing else handled.  To be used after the body of
+// the 'main' function of a command, itself written as a 'try' block.
+# define CATCH_ERRORS()																	\
+		catch (const std::exception& e) {											\
+				std::cerr << "<<ERROR>> " << e.what() << std::endl;			\
+				return EXIT_FAILURE;															\
+		}
 }
diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..55e31e3 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -33,6 +33,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 	
@@ -68,3 +69,4 @@ int main(int argc, char** argv)
 
 	return 0 ;
 }
+CATCH_ERRORS()
diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..80e6611 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -35,6 +35,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
    arguments args(argc, argv) ;
 
@@ -129,3 +130,4 @@ int main(int argc, char** argv)
 
    return 0 ;
 }
+CATCH_ERRORS()
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..3b2a508 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -28,6 +28,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv);
 
@@ -223,3 +224,4 @@ int main(int argc, char** argv)
 
 	return 0 ;
 }
+CATCH_ERRORS()
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..e17b37c 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -65,6 +65,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
     arguments args(argc, argv) ;
 
@@ -178,3 +179,4 @@ int main(int argc, char** argv)
 
     return 0 ;
 }
+CATCH_ERRORS()
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 908639b..6aadf78 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -288,6 +288,7 @@ static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 
@@ -412,3 +413,4 @@ int main(int argc, char** argv)
 
 	return EXIT_SUCCESS;
 }
+CATCH_ERRORS()
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..4a202c7 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -43,6 +43,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 
@@ -354,3 +355,4 @@ int main(int argc, char** argv)
 		return 1;
 	}
 }
+CATCH_ERRORS()
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1744653..1e011d5 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -468,6 +468,7 @@ void fastWeightedErrors( Eigen::ArrayXXd const & o_data_y,
  *  regarding the distance to another data file.
  */
 int main(int argc, char* argv[])
+try
 {
 
    arguments args(argc, argv) ;
@@ -586,3 +587,4 @@ int main(int argc, char* argv[])
 
    return EXIT_SUCCESS;
 }
+CATCH_ERRORS()
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..8b70b5c 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -427,6 +427,7 @@ void fastWeightedErrors( Eigen::ArrayXXd const & o_data_y,
 
 int 
 main(int argc, char* argv[])
+try
 {
 
   arguments args(argc, argv) ;
@@ -697,3 +698,4 @@ main(int argc, char* argv[])
 
   return EXIT_SUCCESS;
 }
+CATCH_ERRORS()
-- 
2.43.0


From 80fc4d1814b34f462e0701b8a2024e4f068dbcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 125/186] fix: a file that cannot be written completely is an
 error

function::save only complained about a file that it could not open, and no
save noticed that the disk was full.
---
 sources/core/data.cpp                      | 6 +++---
 sources/core/function.cpp                  | 8 +++++++-
 sources/plugins/data_interpolants/grid.cpp | 5 +++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index e023dd4..56eab2f 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -19,13 +19,13 @@ void data::save(const std::string& filename) const
 {
     std::ofstream file;
 
-    file.exceptions(std::ios_base::failbit);
     file.open(filename.c_str(), std::ios_base::trunc);
-    file.exceptions(std::ios_base::goodbit);
-
+    if(file)
         alta::save_data_as_text(file, *this);
 
     file.close();
+    if(!file)
+        throw std::ios_base::failure("unable to write \"" + filename + "\"");
 }
 
 bool data::equals(const data& data, double epsilon)
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1455d30..2bbb165 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -99,7 +99,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	std::ofstream file(filename.c_str());
 	if(!file.is_open())
 	{
-		std::cerr << "<<ERROR>> unable to open output file for writing" << std::endl;
+		throw std::ios_base::failure("unable to open \"" + filename + "\" for writing");
 	}
 
 	// If the export is the alta format, use the maximum precision formatting
@@ -163,6 +163,12 @@ void function::save(const std::string& filename, const arguments& args) const
 	{
 		file << "::end shader" << std::endl;
 	}
+
+	file.close();
+	if(!file)
+	{
+		throw std::ios_base::failure("unable to write \"" + filename + "\"");
+	}
 }
 		
 //! \brief save the header of the output function file. The header should
diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 4f571c0..80b84ba 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -285,9 +285,7 @@ class BrdfGrid : public vertical_segment {
       {
          std::ofstream file;
 
-         file.exceptions(std::ios_base::failbit);
          file.open(filename.c_str(), std::ios_base::trunc);
-         file.exceptions(std::ios_base::goodbit);
 
          save_header(file);
 
@@ -303,6 +301,9 @@ class BrdfGrid : public vertical_segment {
          }
 
          file.close();
+         if(!file) {
+            throw std::ios_base::failure("unable to write \"" + filename + "\"");
+         }
       }
 
       void save_header(std::ostream& out) const {
-- 
2.43.0


From 138b7b5977442aad2d1c9aa5b5a5e39135939d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 126/186] fix: commands: notice that the output was not written
 completely

---
 sources/softs/brdf2gnuplot/main.cpp     | 13 ++++++++++++-
 sources/softs/data2data/main.cpp        |  3 ++-
 sources/softs/data2moments/main.cpp     |  5 +++++
 sources/softs/data2stats/data2stats.cpp |  4 +++-
 sources/softs/fit2stat/fit2stat.cpp     |  4 +++-
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 3b2a508..7f87e0d 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -175,6 +175,11 @@ try
 		}
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 	else if(args.is_defined("polar-plot"))
 	{
@@ -219,7 +224,13 @@ try
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
 		}
-			file.close();
+
+		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 
 	return 0 ;
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 6aadf78..5f2d5d6 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -402,9 +402,10 @@ try
       try
       {
           std::ofstream out;
-          out.exceptions(std::ios_base::failbit);
+          out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
           out.open(args["output"]);
           save_data_as_binary(out, *d_out);
+          out.close();
       }
       CATCH_FILE_IO_ERROR(args["output"]);
   }
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 4a202c7..566f7a5 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -346,6 +346,11 @@ try
 #endif
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 		return 0 ;
 	}
 	else
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1e011d5..91b332b 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -576,8 +576,10 @@ try
             fwriter << "MSE :"  << mse       << std::endl;
             fwriter << "RMSE :" << rmse      << std::endl;
             fwriter << std::endl;
+            fwriter.close();
+         }
 
-         } else {
+         if(!fwriter) {
             std::cerr << "<<ERROR>> Could not save metrics to "
                       << output_filename << std::endl;
             return EXIT_FAILURE;
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 8b70b5c..d4b32b6 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -671,8 +671,10 @@ try
         fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
         fwriter << std::endl;
+        fwriter.close();
       }
-      else
+
+      if( !fwriter )
       {
         std::cerr << "<<ERROR>> Could not save metrics to " << output_filename << std::endl;
         return EXIT_FAILURE;
-- 
2.43.0


From 6c0bdc4e6481f8b9a4e04059a3719cf2e6916bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 127/186] fix: brdf2brdf: stop when the function cannot be
 loaded

---
 sources/softs/brdf2brdf/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 55e31e3..2bb0d3f 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,6 +63,11 @@ try
 
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot open the function file" << std::endl;
+        return 1;
+    }
 
     // Save it
     f->save(args["output"], args) ;
-- 
2.43.0


From 5b3791624d0fc848f46e130b5043b23a93102628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 128/186] fix: commands: fail when the data cannot be loaded or
 its plugin is missing

The result was used before it was tested, not tested at all, or its absence
was reported by a successful exit.
---
 sources/softs/brdf2data/main.cpp    |  1 +
 sources/softs/brdf2gnuplot/main.cpp |  6 ++++++
 sources/softs/data2brdf/main.cpp    |  6 +++++-
 sources/softs/data2data/main.cpp    | 10 +++-------
 sources/softs/fit2stat/fit2stat.cpp |  6 ++++--
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 80e6611..1112a9c 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -126,6 +126,7 @@ try
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1;
    }
 
    return 0 ;
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 7f87e0d..d4e2f05 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -89,6 +89,12 @@ try
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+		if(!d)
+		{
+			std::cerr << "<<ERROR>> cannot load the data file" << std::endl;
+			return 1;
+		}
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e17b37c..863de50 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -122,7 +122,11 @@ try
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
-    ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    ptr<function> f;
+    if(d)
+    {
+        f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    }
 
     if(!f || !d)
     {
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 5f2d5d6..69e7658 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -360,7 +360,8 @@ try
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl ;
+		return EXIT_FAILURE;
 	}
 
 
@@ -376,12 +377,7 @@ try
                                               args) ;
 	if(!d_out)
 	{
-		std::cout << "<<INFO>> Data will be outputed to ALTA format" << std::endl;
-	}
-
-	if(!d_in || !d_out)
-	{
-		std::cerr << "<<ERROR>> Cannot import or export data" << std::endl ;
+		std::cerr << "<<ERROR>> Cannot export data" << std::endl ;
 		return EXIT_FAILURE;
 	}
 
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index d4b32b6..2ba9365 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -477,12 +477,14 @@ try
                                          "vertical_segment", args);
     t.stop();
   }
-  catch(...)
+  CATCH_FILE_IO_ERROR(args["input"]);
+
+  if(!vs_data)
   {
+    std::cerr << "<<ERROR>> Could not load data file '" << args["input"] << "'" << std::endl;
     return EXIT_FAILURE;
   }
 
-
   std::cout << "<<INFO>> DATA LOADED in " << t << std::endl;
   t.reset();
   std::cout << "<<INFO>> DATA Y dimension :" << vs_data->parametrization().dimY() << std::endl;
-- 
2.43.0


From 0d40fef3b1b8e29a4a80cf11c47a9a9b31130108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 129/186] fix: brdf2gnuplot: say that there is nothing to plot

---
 sources/softs/brdf2gnuplot/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index d4e2f05..2493c58 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -238,6 +238,11 @@ try
 			return 1;
 		}
 	}
+	else
+	{
+		std::cerr << "<<ERROR>> nothing to plot: use --data-file or --polar-plot" << std::endl;
+		return 1;
+	}
 
 	return 0 ;
 }
-- 
2.43.0


From 7468a6bfd7b924e5741997ed75f6b0dfb6bd2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 130/186] fix: plugins_manager: accept plugin names of one
 character

Asking for one raised std::out_of_range.
---
 sources/core/plugins_manager.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 6f780cd..da8767b 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -33,20 +33,23 @@ static std::string library_name(const std::string name)
 {
   std::string filename;
 
-  const int n = name.length();
+  auto has_extension = [&name](const std::string& ext) {
+    return name.length() >= ext.length()
+      && name.compare(name.length() - ext.length(), ext.length(), ext) == 0;
+  };
 #if defined( _WIN32)
-  if(name.substr(n-4, n) != std::string("dll")) {
+  if(!has_extension("dll")) {
     filename.append(name);
     filename.append(".dll");
   }
 #elif defined(__APPLE__)
-  if(name.substr(n-5, n) != std::string("dylib")) {
+  if(!has_extension("dylib")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(!has_extension("so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From a91809ba08a51ed46908ef8cc144492b91f160be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 131/186] fix: data: a row that misses a number is an error

---
 sources/core/data_storage.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 8be7206..71bd754 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -18,6 +18,7 @@
 #include <iomanip>
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <stdexcept>
 #include <algorithm>
 #include <vector>
@@ -89,6 +90,25 @@ static int number_from_ci_kind(vertical_segment::ci_kind kind)
                ? 1 : 0);
 }
 
+// Read the next number of INPUT, which holds one row of a data file.  Raise an
+// exception when there is none.
+static double read_number(std::istream& input)
+{
+    std::string token;
+    input >> token;
+
+    char* end = NULL;
+    const double number = std::strtod(token.c_str(), &end);
+    if(token.empty() || *end != '\0')
+    {
+        std::cerr << "<<ERROR>> "
+                  << (token.empty() ? "missing column" : "not a number: " + token)
+                  << " in the data file" << std::endl;
+        throw std::runtime_error("invalid row in the data file");
+    }
+    return number;
+}
+
 // Read a confidence interval on the output parameters from INPUT into V.
 static void read_confidence_interval(std::istream& input,
                                      vecref v,
@@ -105,16 +125,15 @@ static void read_confidence_interval(std::istream& input,
 
         if(i == 0 && kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL)
         {
-            input >> min_dt ;
-            input >> max_dt ;
+            min_dt = read_number(input);
+            max_dt = read_number(input);
             //min_dt = min_dt-v(dimX + i);
             //max_dt = max_dt-v(dimX + i);
             min_dt = -min_dt;
         }
         else if(i == 0 && kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
         {
-            double dt = 0.0 ;
-            input >> dt ;
+            double dt = read_number(input);
             min_dt = -dt;
             max_dt =  dt;
         }
@@ -237,9 +256,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       // Read the data point x and y coordinates
       for(int i=0; i < dim.first + dim.second; ++i)
       {
-          double item = 0.0;
-          linestream >> item;
-          content.push_back(item);
+          content.push_back(read_number(linestream));
       }
 
       // Save room for the confidence interval.
-- 
2.43.0


From 6b5b46cdef2f53e1c8965907cb3c2b020e313a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:17 +0000
Subject: [PATCH 132/186] fix: functions: exporting to alta writes the header
 too

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 2bbb165..e743258 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -176,7 +176,7 @@ void function::save(const std::string& filename, const arguments& args) const
 //! the dimension of the fit. L2 and L_inf distance could be added here.
 void function::save_header(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		out << "#ALTA FUNC HEADER" << std::endl;
 		out << "#CMD " << args.get_cmd() << std::endl;
@@ -377,7 +377,7 @@ bool nonlinear_function::load(std::istream& in)
 
 void nonlinear_function::save_call(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		// Dump a #FUNC nonlinear
 		out << "#FUNC nonlinear_function" << std::endl;
-- 
2.43.0


From 4e7d1d43aa379384dafa7fbf172729246f72a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 133/186] fix: load_function: refuse files that miss a part of
 the function

---
 sources/core/function.cpp        | 4 ++--
 sources/core/plugins_manager.cpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index e743258..f7742c4 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -579,7 +579,7 @@ bool compound_function::load(std::istream& in)
 		}
 	}
 	std::cout << "<<DEBUG>> number of correct function loaded in compound: " << nb_good  << " / " << fs.size() << std::endl;
-	return nb_good > 0;
+	return nb_good == int(fs.size());
 }
 
 void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
@@ -938,7 +938,7 @@ bool product_function::load(std::istream& in)
 		}
 	}
 
-	return loaded_f1 || loaded_f2;
+	return loaded_f1 && loaded_f2;
 }
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index da8767b..0f28e8f 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -234,11 +234,13 @@ function* plugins_manager::load_function(const std::string& filename)
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f != NULL && f->load(file) )
+  if( f != NULL && f->load(file) && !file.fail() )
   {
     return f;
   }
 
+  std::cerr << "<<ERROR>> the function file \"" << filename << "\" is not complete" << std::endl;
+
   delete f;
   std::cout << "<<ERROR>> COULD NOT LOAD THE BRDF from File " << filename << std::endl;
    return NULL;
-- 
2.43.0


From 2747a8dfb7f74b0a0571a523d6160ece198d93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 134/186] fix: get_function: an unknown plugin is not a
 rational function

---
 sources/core/plugins_manager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 0f28e8f..81e8464 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -326,6 +326,11 @@ function* plugins_manager::get_function(const arguments& args,
   else //Here we check if the argument provided with --func is file describing a function
   {
     const std::string filename = args["func"];
+    if(filename == "rational_function")
+    {
+      return new rational_function(params);
+    }
+
     FunctionPrototype myFunction = open_library<FunctionPrototype>(filename, "provide_function");
     if(myFunction != NULL)
     {
@@ -338,7 +343,7 @@ function* plugins_manager::get_function(const arguments& args,
     else
     {
       std::cerr << "<<ERROR>> no function provider found in file \"" << filename << "\"" << std::endl;
-      return new rational_function(params) ;
+      return NULL;
     }
   }
 
@@ -388,6 +393,12 @@ function* plugins_manager::get_function(const arguments& args,
       #endif
 
       function* right = get_function(arguments::create_arguments(n), params);
+      if(right == NULL)
+      {
+        delete func;
+        return NULL;
+      }
+
       nonlinear_function* func_fres = dynamic_cast<nonlinear_function*>(right);
       if(func_fres != NULL)
       {
-- 
2.43.0


From 9ae3849239cfff92dbc042f765f0df1579e2af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 135/186] fix: check_compatibility: raise an error when the
 output dimensions differ

---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 81e8464..49233e2 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -624,7 +624,7 @@ void plugins_manager::check_compatibility( ptr<data>& d,
 
   if(f->parametrization().dimY() != d->parametrization().dimY())
   {
-    abort();
+    throw std::invalid_argument("the function and the data do not have the same output dimension");
     // FIXME: Used to be this:
     // f->setDimY(d->parametrization().dimY());
   }
-- 
2.43.0


From 7f7dddd037a4cd1f4e721b93e4d548546ae90c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:39 +0000
Subject: [PATCH 136/186] fix: data_grid: the header tells the number of values
 of the samples

---
 sources/plugins/data_interpolants/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 80b84ba..747eaaf 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -192,7 +192,8 @@ class BrdfGrid : public vertical_segment {
 
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
-            if(out_param != params::UNKNOWN_OUTPUT) {
+            // The header of a file tells how many values there are
+            if(out_param != params::UNKNOWN_OUTPUT && !args.is_defined("DIM")) {
                nY = params::dimension(out_param);
             }
          }
-- 
2.43.0


From a7c2de21125288264e6b07dc0ba2d2bcbdb046fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 137/186] fix: functions: the distance to data of other
 dimensions is an error

---
 sources/core/function.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index f7742c4..3615c9c 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -18,6 +18,7 @@
 #include <cassert>
 #include <algorithm>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
 using namespace alta;
@@ -209,9 +210,22 @@ void function::save_call(std::ostream&, const arguments&) const
 
 }
 
+// The distance to D compares one value of D per output dimension, and needs
+// as many coordinates as the function has when there is no conversion.
+static void check_dimensions(const parameters& f, const parameters& d)
+{
+	if(f.dimY() != d.dimY()
+	   || (f.input_parametrization() == params::UNKNOWN_INPUT && f.dimX() > d.dimX()))
+	{
+		throw std::invalid_argument("the function and the data do not have the same dimensions");
+	}
+}
+
 //! \brief L2 norm to data.
 double function::L2_distance(const ptr<data>& d) const
 {
+	check_dimensions(parametrization(), d->parametrization());
+
 	double l2_dist = 0.0;
 	for(int i=0; i<d->size(); ++i)
 	{
@@ -244,6 +258,8 @@ double function::L2_distance(const ptr<data>& d) const
 //! \brief Linf norm to data.
 double function::Linf_distance(const ptr<data>& d) const
 {
+	check_dimensions(parametrization(), d->parametrization());
+
 	vec mean = vec::Zero(parametrization().dimY());
 	vec var  = vec::Zero(parametrization().dimY());
 
-- 
2.43.0


From 83d3b7ce8e500d5b6f1832d77c587416117196e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 138/186] fix: metrics: data of another output dimension are an
 error

---
 sources/core/metrics.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index c91754a..a6bdb48 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -1,4 +1,5 @@
 #include "metrics.h"
+#include <stdexcept>
 
 using namespace alta;
 
@@ -77,6 +78,10 @@ void errors::evaluate(const data* inp,
                       Eigen::MatrixXd& inp_y,
                       Eigen::MatrixXd& ref_y) {
 
+   if(inp->parametrization().dimY() != ref->parametrization().dimY()) {
+      throw std::invalid_argument("the two data do not have the same output dimension");
+   }
+
    // Temp variables
    vec ref_xy = vec::Zero(ref->parametrization().dimX() + ref->parametrization().dimY());
    vec ref_x  = vec::Zero(ref->parametrization().dimX());
-- 
2.43.0


From 1d9d7e79a8f8df7340c24619e12ef028e5491fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 139/186] fix: brdf2data: the function and the data must have
 the same dimensions

---
 sources/softs/brdf2data/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 1112a9c..8b19f1a 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -95,6 +95,18 @@ try
    {
       const bool output_dif = args.is_defined("export-diff");
 
+      if(f->parametrization().dimY() != d->parametrization().dimY())
+      {
+         std::cerr << "<<ERROR>> the function and the data do not have the same output dimension" << std::endl;
+         return 1;
+      }
+      if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+         && f->parametrization().dimX() > d->parametrization().dimX())
+      {
+         std::cerr << "<<ERROR>> the function has more coordinates than the data" << std::endl;
+         return 1;
+      }
+
       vec temp(f->parametrization().dimX());
       for(int i=0; i<d->size(); ++i)
       {
-- 
2.43.0


From 01520090540af848c7b425fa35b901cfeb603d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 140/186] fix: params: a parametrization without transformation
 is an error

---
 sources/core/params.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index b187ceb..e32f0e2 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -12,6 +12,7 @@
 #include "params.h"
 #include "common.h"
 #include <cassert>
+#include <stdexcept>
 #include <algorithm>
 
 using namespace alta;
@@ -388,7 +389,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 		default:
 			std::cerr << "<<ERROR>> Transformation not implemented, " << get_name(intype) << " " << __FILE__ << ":" << __LINE__ << std::endl;
-			throw;
+			throw std::invalid_argument("no transformation from " + get_name(intype));
 			break;
 	}
 
@@ -733,7 +734,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 		default:
 			std::cerr << "<<ERROR>> Transformation not implemented, n°" << outtype << ", " << __FILE__ << ":" << __LINE__ << std::endl;
-			assert(false);
+			throw std::invalid_argument("no transformation to " + get_name(outtype));
 			break;
 	}
 }
-- 
2.43.0


From 6107ec625869b9b4dc2bb995f084071401665913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 141/186] fix: data2data, data2moments: a grid is not a mere
 list of samples

---
 sources/softs/data2data/main.cpp    |  5 ++++-
 sources/softs/data2moments/main.cpp | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 69e7658..93a280e 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -101,6 +101,7 @@
 
 #include <iostream>
 #include <vector>
+#include <typeinfo>
 #include <iostream>
 #include <fstream>
 #include <limits>
@@ -278,7 +279,9 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 // Convert D_IN to D_OUT according to ARGS.
 static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 {
-	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
+	// The classes derived from vertical_segment have abscissae of their own
+	const data& out = *d_out;
+	if(typeid(out) == typeid(vertical_segment) || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out,
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 566f7a5..73ac100 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -34,6 +34,7 @@
 
 #include <iostream>
 #include <vector>
+#include <typeinfo>
 #include <iostream>
 #include <fstream>
 #include <limits>
@@ -88,7 +89,14 @@ try
 	}
 	CATCH_FILE_IO_ERROR(args["input"]);
 
-	if(dynamic_pointer_cast<vertical_segment>(d)) {
+	if(!d) {
+		std::cerr << "<<ERROR>> unable to load file \"" << args["input"] << "\"" << std::endl ;
+		return 1;
+	}
+
+	// The classes derived from vertical_segment can interpolate
+	const data& samples_of_d = *d;
+	if(typeid(samples_of_d) == typeid(vertical_segment)) {
 		std::cerr << "<<ERROR>> this data object is not interpolant." << std::endl;
 		return 1;
 	}
-- 
2.43.0


From 2df50d607ea8267844267c0ed5c13e5de1c07434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 142/186] fix: data2moments: check the options and that there
 is data

---
 sources/softs/data2moments/main.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 73ac100..bd5d0bc 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <vector>
 #include <typeinfo>
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <limits>
@@ -149,7 +150,11 @@ try
 		if(args.is_defined("samples"))
 		{	
 			samples = args.get_vec<int>("samples");
-			assert(samples.size() == nX);
+			if(int(samples.size()) != nX || *std::min_element(samples.begin(), samples.end()) < 1)
+			{
+				std::cerr << "<<ERROR>> --samples needs one positive number per dimension of the data" << std::endl;
+				return 1;
+			}
 		}
 		else
 		{
@@ -163,7 +168,6 @@ try
 		if(args.is_defined("dim"))
 		{
 			dim = args.get_vec<int>("dim");
-			assert(dim.size() == 2);
 		}
 		else
 		{
@@ -171,6 +175,16 @@ try
 			dim.push_back(0);
 			dim.push_back(1);
 		}
+		if(dim.size() != 2 || std::min(dim[0], dim[1]) < 0 || std::max(dim[0], dim[1]) >= nX)
+		{
+			std::cerr << "<<ERROR>> --dim needs the indices of two dimensions of the data" << std::endl;
+			return 1;
+		}
+		if(d->size() == 0)
+		{
+			std::cerr << "<<ERROR>> there is no sample in the data" << std::endl;
+			return 1;
+		}
 
 
 		// Get the minimum element of the dataset
-- 
2.43.0


From e0ed21f46e7790da9acb2956db73219da0636bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 143/186] fix: data2data: report the errors of the
 interpolation

---
 sources/softs/data2data/main.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 93a280e..9f36dae 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -102,6 +102,7 @@
 #include <iostream>
 #include <vector>
 #include <typeinfo>
+#include <exception>
 #include <iostream>
 #include <fstream>
 #include <limits>
@@ -231,9 +232,12 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 		}
 
     unsigned int stats_incorrect = 0;
+    std::exception_ptr error;
 
 #pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
+		// Exceptions cannot leave the parallel region
+		try
 		{
         vec temp(d_in->parametrization().dimX());
         vec cart(6);
@@ -269,6 +273,15 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
         d_out->set(i, x);
 		}
+		catch(...)
+		{
+#pragma omp critical (error)
+        error = std::current_exception();
+		}
+
+    if(error) {
+        std::rethrow_exception(error);
+    }
 
     if(stats_incorrect > 0) {
         std::cerr << "<<DEBUG>> Number of incorrect configuration: "
-- 
2.43.0


From 2bc5ae1b0df8c92087630fee5f575e3ec1039208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 144/186] fix: brdf2data: skip the configurations below the
 horizon

---
 sources/softs/brdf2data/main.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 8b19f1a..0b70d9e 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -108,11 +108,27 @@ try
       }
 
       vec temp(f->parametrization().dimX());
+      vec cart(6);
       for(int i=0; i<d->size(); ++i)
       {
          // Copy the input vector
          vec x = d->get(i);
 
+         // There is no half vector below the horizon: images hold such
+         // configurations, that no direction of the hemisphere reaches.
+         if(d->parametrization().input_parametrization() != params::UNKNOWN_INPUT)
+         {
+            params::convert(&x[0],
+                            d->parametrization().input_parametrization(),
+                            params::CARTESIAN, &cart[0]);
+            if(cart[2] + cart[5] < 0.0)
+            {
+               x.tail(d->parametrization().dimY()).setZero();
+               d->set(i, x);
+               continue;
+            }
+         }
+
          // Convert the data to the function's input space.
          if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
          {
-- 
2.43.0


From 2839f901c4d639674f63ea32f792079b5d1bd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 145/186] fix: data_astm: data to be filled are a list of
 samples

---
 sources/plugins/data_io/astm.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index aab1f88..5845d19 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -58,10 +58,6 @@ public: //methods
          std::shared_ptr<double> input_data)
         : vertical_segment(params, size, input_data, vertical_segment::NO_CONFIDENCE_INTERVAL)
     { }
-
-    ASTM(const alta::parameters& params, size_t size)
-        : vertical_segment(params, size)
-    { }
 };
 
 // Parse ASTM header.
@@ -138,7 +134,8 @@ compute_parameters(const std::vector<std::string>& vars)
 ALTA_DLL_EXPORT data* provide_data(size_t size, const parameters& params,
                                    const arguments&)
 {
-    return new ASTM(params, size);
+    // Data to be filled are a mere list of samples
+    return new vertical_segment(params, size);
 }
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
-- 
2.43.0


From e5b805a0404dea9d474a9526c52dcd38c5638150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 146/186] fix: data_astm: a point that misses a number is an
 error

---
 sources/plugins/data_io/astm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 5845d19..984987a 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -176,6 +176,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         for(int j = 0; j < n; ++j) {
             stream >> samples[i + j];
         }
+        if (!stream)
+            throw std::runtime_error("ASTM file with an invalid point");
     }
 
     std::shared_ptr<double> data(new double[samples.size()],
-- 
2.43.0


From 5bdfb3116932c6d8eafd5f6ba38d82e3bc8c6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:06 +0000
Subject: [PATCH 147/186] fix: brdf2stats: convert both the coordinates and the
 values

---
 sources/softs/fit2stat/fit2stat.cpp | 117 ++++++----------------------
 1 file changed, 24 insertions(+), 93 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 2ba9365..1e79dc2 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -212,103 +212,34 @@ bool convertDataToFunctionParam(ptr<data> const & data,
                                 bool & conversion_necessary,
                                 vertical_segment* & converted_data )
 {
-  conversion_necessary = true;
-  if( data->parametrization().input_parametrization() == f->parametrization().input_parametrization() )
-  {
-    if( data->parametrization().output_parametrization() == f->parametrization().output_parametrization() )
-    {
-      conversion_necessary = false;
-      return true;
-    }
-    else // Ouput parametrizations are different. 
-         // Output parametrization of  the Function prevails
-    {
-      parameters p(f->parametrization().dimX(), f->parametrization().dimY(),
-                   f->parametrization().input_parametrization(),
-                   f->parametrization().output_parametrization());
-      converted_data = new vertical_segment(p, data->size());
-
-      //Note that: data_x = dat.head( data->parametrization().dimX() );
-      //           data_y = dat.tail( data->parametrization().dimY() );
-      vec dat        = vec::Zero( data->parametrization().dimX() + data->parametrization().dimY() );
-      vec data_x     = vec::Zero( data->parametrization().dimX() );
-      vec data_y     = vec::Zero( data->parametrization().dimY() );
-      vec new_data_y = vec::Zero( f->parametrization().dimY() );
-      vec new_data   = vec::Zero(data->parametrization().dimX() + f->parametrization().dimY() );
-
-      for( unsigned int i=0; i < converted_data->size(); i++)
-      {
-        dat = data->get(i);          
-        data_x = dat.head( data->parametrization().dimX() );
-        data_y = dat.tail( data->parametrization().dimY() );
-
-        params::convert(&data_y[0],
-                        data->parametrization().output_parametrization(),
-                        data->parametrization().dimY(),
-                        f->parametrization().output_parametrization(), f->parametrization().dimY(),  &new_data_y[0]);
+  const parameters from = data->parametrization();
+  const parameters to   = f->parametrization();
 
-        new_data.head( data->parametrization().dimX() ) = data_x;
-        new_data.tail( f->parametrization().dimY() )    = new_data_y;
-
-        converted_data->set(i, new_data );
-      }
-      
-    }
-  }// End if 
-  else // Input parametrization are different
+  conversion_necessary = from.input_parametrization() != to.input_parametrization()
+                      || from.output_parametrization() != to.output_parametrization();
+  if( !conversion_necessary )
   {
-    // Output param are the same
-    // Converting to the function input parametrization
-    if( data->parametrization().output_parametrization() == f->parametrization().output_parametrization() ) 
-    {
-      parameters p(f->parametrization().dimX(), f->parametrization().dimY(),
-                   f->parametrization().input_parametrization(), f->parametrization().output_parametrization());
-
-      converted_data = new vertical_segment(p, data->size());
-
-      //Note that: data_x = dat.head( data->parametrization().dimX() );
-      //           data_y = dat.tail( data->parametrization().dimY() );
-      vec dat        = vec::Zero( data->parametrization().dimX() + data->parametrization().dimY() );
-      vec data_x     = vec::Zero( data->parametrization().dimX() );
-      vec data_y     = vec::Zero( data->parametrization().dimY() );
-      
-      vec new_data = vec::Zero( f->parametrization().dimX() + f->parametrization().dimY() );
-      vec new_data_y = vec::Zero( f->parametrization().dimY() );
-      vec new_data_x = vec::Zero( f->parametrization().dimX() );
-
-      for( unsigned int i=0; i < (unsigned int) converted_data->size(); i++)
-      {
-
-        dat = data->get(i);
-        data_x = dat.head( data->parametrization().dimX() );
-        data_y = dat.tail( data->parametrization().dimY() );
-        
-        params::convert(&data_x[0],
-                        data->parametrization().input_parametrization(),
-                        f->parametrization().input_parametrization(),
-                        &new_data_x[0]);
-
-        new_data.head( f->parametrization().dimX() ) = new_data_x;
-        new_data.tail( f->parametrization().dimY() ) = data_y;
+    return true;
+  }
 
-        converted_data->set(i, new_data );
-      }//end of for-loop
+  // Coordinates and values are both expressed as the function does
+  converted_data = new vertical_segment(to, data->size());
 
-    }
-    else //EVERYTHING IS DIFFERENT ! ALL TO FUNCTION PARAMETRIZATIONS
-    {
-      //       unsigned int const new_size = f->parametrization().dimX() + f->parametrization().dimY();
-      // converted_data = new vertical_segment( f->parametrization().dimX(), f->parametrization().dimY(), data->size() );
-      // converted_data->setParametrizations( f->parametrization().input_parametrization(), f->parametrization().output_parametrization() );
-      
-      // for( unsigned int i=0; i < converted_data->size(); i++)
-      // {
-      //   vec const dat = data->get(i);
-      //   vec const data_x = dat.head( data->parametrization().dimX() );
-      //   vec const data_y = dat.tail( data->parametrization().dimY() );
-      // }
-      NOT_IMPLEMENTED();
-    }
+  vec new_data = vec::Zero( to.dimX() + to.dimY() );
+  for( int i=0; i < data->size(); i++)
+  {
+    vec const dat = data->get(i);
+
+    params::convert(&dat[0],
+                    from.input_parametrization(),
+                    to.input_parametrization(),
+                    &new_data[0]);
+    params::convert(&dat[from.dimX()],
+                    from.output_parametrization(), from.dimY(),
+                    to.output_parametrization(), to.dimY(),
+                    &new_data[to.dimX()]);
+
+    converted_data->set(i, new_data);
   }
 
   return true;
-- 
2.43.0


From 6b6031636ce5011f3c86e8e26f02e2c9c5ef56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 148/186] fix: brdf2stats: weight with the cosines of the light
 and view directions

---
 sources/softs/fit2stat/fit2stat.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 1e79dc2..0a4c212 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -255,20 +255,17 @@ void computeCosineFactorsFromData( ptr<data> const & data,
   cosine_theta_view.setZero( data->size() );
   cosine_theta_light.setZero( data->size() );
   
-  if( data->parametrization().input_parametrization() == params::CARTESIAN)
-  {
-    vec data_x = vec::Zero( data->parametrization().dimX() );
-
-    for( unsigned int i=0; i < data->size(); i++)
-    {
-      data_x = (data->get(i)).head( data->parametrization().dimX() );
-      cosine_theta_light[i] = data_x[2];
-      cosine_theta_view[i]  = data_x[5];
-    }
-  }
-  else
+  // The first cartesian vector is the view direction, the second one the
+  // light direction.
+  vec cart = vec::Zero(6);
+  for( int i=0; i < data->size(); i++)
   {
-    NOT_IMPLEMENTED();
+    vec const data_x = (data->get(i)).head( data->parametrization().dimX() );
+    params::convert(&data_x[0],
+                    data->parametrization().input_parametrization(),
+                    params::CARTESIAN, &cart[0]);
+    cosine_theta_view[i]  = cart[2];
+    cosine_theta_light[i] = cart[5];
   }
 }
 
-- 
2.43.0


From aee64900689ed37e2c00cace0d047c07c706fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 149/186] fix: brdf2stats: write the errors weighted with both
 cosines

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 0a4c212..494fd16 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -598,8 +598,8 @@ try
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
         fwriter.close();
       }
-- 
2.43.0


From f6c585adee35e587a141898d421f8ec796f87390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 150/186] fix: images: notice that the file was not written
 completely

---
 sources/plugins/data_io/EXR_IO.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 9131e5b..f63aff3 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -11,6 +11,7 @@
 
 // STL includes
 #include <stdexcept>
+#include <fstream>
 #include <cassert>
 
 // TinyEXR includes
@@ -173,20 +174,27 @@ class t_EXR_IO
 			}
 
 			const char* err = "";
-			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
-			if (ret != TINYEXR_SUCCESS) {
-				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
-				std::cerr << "<<ERROR>> " << err << std::endl;
-				free(header.channels);
-				free(header.pixel_types);
-				free(header.requested_pixel_types);
-				return false;
-			}
-
+			unsigned char* bytes = NULL;
+			const size_t size = SaveEXRImageToMemory(&image, &header, &bytes, &err);
 			free(header.channels);
 			free(header.pixel_types);
 			free(header.requested_pixel_types);
-			return true ;
+
+			// The stream tells whether everything has been written
+			bool saved = size > 0;
+			if (saved) {
+				std::ofstream file(filename, std::ios_base::binary | std::ios_base::trunc);
+				file.write((const char*)bytes, size);
+				file.close();
+				saved = !file.fail();
+			}
+			free(bytes);
+
+			if (!saved) {
+				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
+				std::cerr << "<<ERROR>> " << err << std::endl;
+			}
+			return saved;
 		}
 };
 
-- 
2.43.0


From 5204fbfefca1dd1d720a8bf32c1d49865f32a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 151/186] fix: params: a half vector below the horizon is an
 error, not a crash

---
 sources/core/params.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index e32f0e2..8bd700c 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -414,7 +414,9 @@ static void half_vector(Real const *invec, Vector &half)
     }
 
     // Rounding can put HALF slightly above one, or slightly below the horizon.
-    assert(half[2] >= -1.0E-6);
+    if(!(half[2] >= -1.0E-6)) {
+        throw std::domain_error("the half vector is below the horizon");
+    }
     half[2] = clamp<Real>(half[2], 0., 1.);
 }
 
-- 
2.43.0


From 2bddf8b943a355543e35ae02ff5f05a730ae3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 152/186] fix: data2data: leave out the samples that are not
 kept instead of writing zeros

---
 sources/softs/data2data/main.cpp | 65 +++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 9f36dae..b688e09 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -103,6 +103,7 @@
 #include <vector>
 #include <typeinfo>
 #include <exception>
+#include <stdexcept>
 #include <iostream>
 #include <fstream>
 #include <limits>
@@ -141,10 +142,11 @@ static parameters compute_parameters(const data& d_in,
 // Convert D_IN to D_OUT without doing any interpolation.  That is, call the
 // 'get' method of D_IN to grab its 'x' and 'y' values, and write those to
 // D_OUT.  When ALL_VALUES is true, disable filtering of values that are not
-// in the definition domain.
-static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
-                                     bool verbose = false,
-                                     bool all_values = false)
+// in the definition domain.  Return the number of samples kept: when D_OUT is
+// a list of samples, they are the first ones of D_OUT.
+static int convert_vertical_segment(ptr<data> d_in, ptr<data> d_out, bool is_list,
+                                    bool verbose = false,
+                                    bool all_values = false)
 {
     std::cout << "<<INFO>> Dimensions for Output Data [X,Y] = " << d_out->parametrization().dimX() << ", " << d_out->parametrization().dimY() << std::endl;
 
@@ -160,16 +162,26 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
     save_timer.start();
 
     unsigned int nb_invalid_configs = 0;
+    int kept = 0;
     vec temp(d_out->parametrization().dimX() + d_out->parametrization().dimY());
     for(int i=0; i<d_in->size(); ++i)
     {
 
         // Copy the input vector
         vec x = d_in->get(i);
-        params::convert(&x[0],
-                        d_in->parametrization().input_parametrization(),
-                        d_out->parametrization().input_parametrization(),
-                        &temp[0]);
+        try
+        {
+            params::convert(&x[0],
+                            d_in->parametrization().input_parametrization(),
+                            d_out->parametrization().input_parametrization(),
+                            &temp[0]);
+        }
+        catch(const std::domain_error&)
+        {
+            // This configuration has no coordinates in the new parametrization
+            nb_invalid_configs++;
+            continue;
+        }
 
         // TODO: Change this at some point because we cannot handle BTDF stuff here
         // Check if this  BRDF parametrization is valid (over the hemisphere)
@@ -187,7 +199,8 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                                 d_out->parametrization().dimY(),
                                 &temp[d_out->parametrization().dimX()]);
                 // SAVING THE INVALID CONFIGURATION
-                d_out->set(i, temp);
+                d_out->set(is_list ? kept : i, temp);
+                ++kept;
             }
 
         }
@@ -199,7 +212,8 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                             d_out->parametrization().output_parametrization(),
                             d_out->parametrization().dimY(),
                             &temp[d_out->parametrization().dimX()]);
-            d_out->set(i, temp);
+            d_out->set(is_list ? kept : i, temp);
+            ++kept;
         }
     }
     save_timer.stop();
@@ -211,6 +225,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
 
     std::cout << "<<INFO>> Data saved to file in "<< save_timer << std::endl;
 
+    return kept;
 }
 
 // Convert D_IN to D_OUT, possibly interpolating the value in D_IN using the
@@ -289,17 +304,33 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
     }
 }
 
-// Convert D_IN to D_OUT according to ARGS.
-static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
+// Convert D_IN to D_OUT according to ARGS, and return the result.
+static ptr<data> convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 {
 	// The classes derived from vertical_segment have abscissae of their own
 	const data& out = *d_out;
-	if(typeid(out) == typeid(vertical_segment) || args.is_defined("splat"))
-      convert_vertical_segment(d_in, d_out,
-                               args.is_defined("verbose"),
-                               args.is_defined("all-values"));
+	const bool is_list = typeid(out) == typeid(vertical_segment);
+	if(is_list || args.is_defined("splat"))
+	{
+      const int kept = convert_vertical_segment(d_in, d_out, is_list,
+                                                args.is_defined("verbose"),
+                                                args.is_defined("all-values"));
+
+      // Leave out the samples that were not kept
+      if(is_list && kept < d_out->size())
+      {
+          ptr<data> samples(new vertical_segment(d_out->parametrization(), kept));
+          for(int i=0; i<kept; ++i)
+          {
+              samples->set(i, d_out->get(i));
+          }
+          return samples;
+      }
+	}
 	else
       convert_with_interpolation(d_in, d_out);
+
+	return d_out;
 }
 
 
@@ -404,7 +435,7 @@ try
   std::cout << "<<INFO>> Dimensions for  Input Data [X,Y] = " << d_in->parametrization().dimX()
             << ", " << d_in->parametrization().dimY() << std::endl;
 
-  convert(d_in, d_out, args);
+  d_out = convert(d_in, d_out, args);
 
   // Special-case ALTA's binary output format.  TODO: In the future, 'save'
   // should no longer be a method and we'd have an output format lookup
-- 
2.43.0


From 490cd1ef3f407b06d3b5b5cf5713a695e538293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 153/186] fix: data2data: the validity of a sample does not
 depend on the new parametrization

---
 sources/softs/data2data/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b688e09..8c9cd49 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -184,8 +184,9 @@ static int convert_vertical_segment(ptr<data> d_in, ptr<data> d_out, bool is_lis
         }
 
         // TODO: Change this at some point because we cannot handle BTDF stuff here
-        // Check if this  BRDF parametrization is valid (over the hemisphere)
-        if( params::is_below_hemisphere( &temp[0], d_out->parametrization().input_parametrization()  ) )
+        // Check if this BRDF configuration is valid (over the hemisphere). The
+        // new coordinates might be fewer, and not tell.
+        if( params::is_below_hemisphere( &x[0], d_in->parametrization().input_parametrization()  ) )
         {
             nb_invalid_configs++;
 
-- 
2.43.0


From 6901cd3dad4a73ce209fe9812eecabec25ce9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:14 +0000
Subject: [PATCH 154/186] fix: data: a function file does not hold data

---
 sources/core/args.h           | 2 +-
 sources/core/data_storage.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 7f8ebfd..e54282a 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -530,7 +530,7 @@ class arguments
 
 									// Add the header type
 									if (first != "END") {
-										args.update("TYPE", second);
+										args.update("TYPE", first);
 									} else {
 										break;
 									}
diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 71bd754..8713304 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -206,6 +206,12 @@ alta::data* alta::load_data_from_text(std::istream& input,
   vec min, max ;
   vec ymin, ymax;
 
+  // Function files start with '#ALTA FUNC HEADER'
+  if(header["TYPE"] == "FUNC") {
+    std::cerr << "<<ERROR>> this file holds a function, not data" << std::endl;
+    throw std::runtime_error("not a data file");
+  }
+
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-- 
2.43.0


From 94c3ae317c8a7f4a76ba37735e24bf39fb3452df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 155/186] fix: functions: the distance to no data is an error,
 not a crash

---
 sources/core/function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 3615c9c..9edfc9c 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -225,6 +225,10 @@ static void check_dimensions(const parameters& f, const parameters& d)
 double function::L2_distance(const ptr<data>& d) const
 {
 	check_dimensions(parametrization(), d->parametrization());
+	if(d->size() == 0)
+	{
+		throw std::invalid_argument("there is no sample to compare the function to");
+	}
 
 	double l2_dist = 0.0;
 	for(int i=0; i<d->size(); ++i)
@@ -249,7 +253,6 @@ double function::L2_distance(const ptr<data>& d) const
     l2_dist += std::pow(norm(y-value(x)), 2);
 	}
 
-  assert(d->size() > 0.);
 	l2_dist = std::sqrt(l2_dist / d->size());
 
 	return l2_dist;
-- 
2.43.0


From 9d95866164803e8b843c68f8d8e6ff1af0639090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 156/186] fix: rational_function: the number of coefficients
 must be positive

---
 sources/core/rational_function.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/rational_function.h b/sources/core/rational_function.h
index 61fda73..37a9114 100644
--- a/sources/core/rational_function.h
+++ b/sources/core/rational_function.h
@@ -12,6 +12,7 @@
 
 // Include STL
 #include <vector>
+#include <stdexcept>
 #include <string>
 #include <sstream>
 
@@ -233,6 +234,11 @@ class rational_function : public function
 		//! function will have np and nq fixed as defined.
 		virtual void setSize(int np, int nq)
 		{
+			if(np < 1 || nq < 1)
+			{
+				throw std::invalid_argument("a rational function needs one coefficient at least on both sides");
+			}
+
 			this->np = np;
 			this->nq = nq;
 			clear();
-- 
2.43.0


From e694ef99a4323dfd1f0178673cc996243ed53879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 157/186] fix: EXR_IO: do not pad the file read with zeros

---
 sources/plugins/data_io/EXR_IO.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index f63aff3..4a4f533 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -44,7 +44,17 @@ class t_EXR_IO
 					_memory.resize(_m);
 				}
 
-				_memory[_n++] = (unsigned char)input.get();
+				const int _c = input.get();
+				if(_c != EOF) {
+					_memory[_n++] = (unsigned char)_c;
+				}
+			}
+
+			/* Only what was read is part of the file */
+			_memory.resize(_n);
+			if(_memory.empty()) {
+				std::cerr << "<<ERROR>> Could not read an EXR file from an empty stream" << std::endl;
+				return false;
 			}
 
 			/* Check the different part of loading */
-- 
2.43.0


From f2cb32276cdea8b7738ab53580de764a0f35ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 158/186] fix: functions: a dimension that does not match the
 parametrization is an error

---
 sources/core/plugins_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 49233e2..89f9dd9 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -228,6 +228,14 @@ function* plugins_manager::load_function(const std::string& filename)
   param_out = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
   args = arguments::create_arguments(header["CMD"]);
 
+  // A known parametrization tells the size of the input vectors
+  if(param_in != params::UNKNOWN_INPUT && params::dimension(param_in) != dim.first)
+  {
+    std::cerr << "<<ERROR>> the dimension " << dim.first << " does not match the parametrization "
+              << params::get_name(param_in) << std::endl;
+    return NULL;
+  }
+
   parameters params(dim.first, dim.second, param_in, param_out);
 
   // Create the function from the command line
-- 
2.43.0


From 7e55cb4c3ed5089068689976f102611dacf7fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 159/186] fix: data: a dimension that does not match the
 parametrization is an error

---
 sources/core/data_storage.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 8713304..7126489 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -196,6 +196,17 @@ static std::pair<int, int> get_dimensions(const alta::arguments& header)
         throw std::runtime_error("invalid dimensions");
     }
 
+    // A known parametrization tells the size of the input vectors.
+    params::input param =
+        params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
+    if (param != params::UNKNOWN_INPUT && params::dimension(param) != dim.first)
+    {
+        std::cerr << "<<ERROR>> The dimension " << dim.first
+                  << " does not match the parametrization "
+                  << params::get_name(param) << std::endl;
+        throw std::runtime_error("mismatching dimensions");
+    }
+
     return dim;
 }
 
-- 
2.43.0


From 5fff71bd0ba052f4084e55be2546184966cc24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 160/186] fix: utia: an elevation below zero does not read
 outside of the table

---
 sources/plugins/data_io/utia.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index ec2d5cd..6e1b531 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -219,6 +219,10 @@ public:
 			return RGB;
 		}
 
+		// Rounding can put the elevations slightly below zero
+		theta_i = std::max(theta_i, 0.0);
+		theta_v = std::max(theta_v, 0.0);
+
 		// If the domain of def of one phi is [-pi .. pi] you need to convert it
 		// to the domain [0 .. 2pi]
 		if(phi_i < 0.0) {
-- 
2.43.0


From 4d9ff8e04ae1b8488455b16d6127f08877811513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 161/186] fix: data_grid: an abscissa that is not a number is
 no reason to abort

---
 sources/plugins/data_interpolants/grid.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 747eaaf..af7ce01 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -346,7 +346,8 @@ class BrdfGrid : public vertical_segment {
             const auto xdiff = (_size[i]-1) * (x[i]-x0[i]) / (_max[i]-_min[i]);
             // There is nothing to interpolate with beyond the last node
             alphas[i] = k[i] < _size[i]-1 ? clamp(xdiff, 0.0, 1.0) : 0.0;
-            assert(alphas[i] >= 0.0 && alphas[i] <= 1.0);
+            // The value is not a number where the abscissa is not one
+            assert(!(alphas[i] < 0.0 || alphas[i] > 1.0));
          }
 
          // Result vector
@@ -361,6 +362,12 @@ class BrdfGrid : public vertical_segment {
                bool bitset = ((1 << i) & d);
                auto calpha =  (bitset) ? alphas[i] : 1.0-alphas[i];
 
+               // No weight, even if another abscissa is not a number
+               if(calpha == 0.0) {
+                  alpha = 0.0;
+                  break;
+               }
+
                alpha *= calpha;
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
-- 
2.43.0


From e4853a111dec067599415d8146375af77fd8a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 162/186] fix: abc: the dimension of the function is the one of
 its parametrization

---
 sources/core/plugins_manager.cpp              |  6 ++----
 .../nonlinear_function_abc/function.cpp       | 20 +++++++++++++------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 89f9dd9..d90f621 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -229,11 +229,9 @@ function* plugins_manager::load_function(const std::string& filename)
   args = arguments::create_arguments(header["CMD"]);
 
   // A known parametrization tells the size of the input vectors
-  if(param_in != params::UNKNOWN_INPUT && params::dimension(param_in) != dim.first)
+  if(param_in != params::UNKNOWN_INPUT)
   {
-    std::cerr << "<<ERROR>> the dimension " << dim.first << " does not match the parametrization "
-              << params::get_name(param_in) << std::endl;
-    return NULL;
+    dim.first = params::dimension(param_in);
   }
 
   parameters params(dim.first, dim.second, param_in, param_out);
diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 26f4599..dd748ee 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -22,6 +22,12 @@
 
 using namespace alta;
 
+// Size of the input vectors expressed in the parametrization `param`
+static int input_dimension(params::input param, int dimX)
+{
+	return param == params::UNKNOWN_INPUT ? dimX : params::dimension(param);
+}
+
 ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 {
     return new abc_function(params);
@@ -154,15 +160,16 @@ void abc_function::bootstrap(const ptr<data> d, const arguments& args)
 	
 	if(args.is_defined("param"))
 	{
-      alta::parameters new_params(_parameters.dimX(), _parameters.dimY(),
-                                  params::parse_input(args["param"]),
+      const params::input param = params::parse_input(args["param"]);
+      alta::parameters new_params(input_dimension(param, _parameters.dimX()),
+                                  _parameters.dimY(), param,
                                   _parameters.output_parametrization());
       setParametrization(new_params);
 	}
 	else
 	{
-      alta::parameters new_params(_parameters.dimX(), _parameters.dimY(),
-                                  params::COS_TH,
+      alta::parameters new_params(input_dimension(params::COS_TH, _parameters.dimX()),
+                                  _parameters.dimY(), params::COS_TH,
                                   _parameters.output_parametrization());
       setParametrization(new_params);
 	}
@@ -211,8 +218,9 @@ bool abc_function::load(std::istream& in)
 	}
 	in >> token;
 
-	setParametrization(alta::parameters(_parameters.dimX(), _parameters.dimY(),
-                                      params::parse_input(token),
+	const params::input param = params::parse_input(token);
+	setParametrization(alta::parameters(input_dimension(param, _parameters.dimX()),
+                                      _parameters.dimY(), param,
                                       _parameters.output_parametrization()));
 
 	if(params::dimension(_parameters.input_parametrization()) != 1)
-- 
2.43.0


From 8e01d1b5f3e7e8dda7ef0b2cee62748041d09502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 163/186] fix: brdf2gnuplot: the cosine term is the one of the
 plotted directions

---
 sources/softs/brdf2gnuplot/main.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 2493c58..d93863a 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -24,6 +24,7 @@
 #include <fstream>
 #include <limits>
 #include <cstdlib>
+#include <cmath>
 
 using namespace alta;
 
@@ -144,7 +145,7 @@ try
 			if(cos_plot) 
 			{
 				double cart[6];
-				params::convert(&x[0], f->parametrization().input_parametrization(),
+				params::convert(&v[0], d->parametrization().input_parametrization(),
                         params::CARTESIAN, cart);
 				costerm = cart[5]*cart[2];
 			}
@@ -209,7 +210,10 @@ try
 			params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV,
                       f->parametrization().input_parametrization(), &x[0]);
 
-			vec y = f->value(x);
+			// Add the cosine term, as for a plot based on a data file
+			const double costerm = cos_plot ? cos(spherical[0])*cos(spherical[2]) : 1.0;
+
+			vec y = costerm * f->value(x);
 			file << -spherical[2] << "\t";
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
@@ -225,7 +229,10 @@ try
 			params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV,
                       f->parametrization().input_parametrization(), &x[0]);
 
-			vec y = f->value(x);
+			// Add the cosine term, as for a plot based on a data file
+			const double costerm = cos_plot ? cos(spherical[0])*cos(spherical[2]) : 1.0;
+
+			vec y = costerm * f->value(x);
 			file << spherical[2] << "\t";
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
-- 
2.43.0


From d5e13f498f58efd3073ba590359008f5626c7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 164/186] fix: brdf2brdf: keep the definition of the function
 in the exported file

---
 sources/softs/brdf2brdf/main.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 2bb0d3f..8b77d24 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -69,8 +69,18 @@ try
         return 1;
     }
 
+    // The definition of the function is part of the command line stored in the
+    // file. It is needed to load the function again.
+    std::ifstream input(args["input"].c_str());
+    arguments header = arguments::parse_header(input);
+    arguments save_args = arguments::create_arguments(header["CMD"]);
+    if(args.is_defined("export"))
+    {
+        save_args.update("export", args["export"]);
+    }
+
     // Save it
-    f->save(args["output"], args) ;
+    f->save(args["output"], save_args) ;
 
 	return 0 ;
 }
-- 
2.43.0


From 93e1f39f369f6d7f40831cd445033adea9735f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:09 +0000
Subject: [PATCH 165/186] fix: plugins_manager: a plugin whose name ends with
 the letters so is no file name

---
 sources/core/plugins_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index d90f621..0b8251e 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -38,18 +38,18 @@ static std::string library_name(const std::string name)
       && name.compare(name.length() - ext.length(), ext.length(), ext) == 0;
   };
 #if defined( _WIN32)
-  if(!has_extension("dll")) {
+  if(!has_extension(".dll")) {
     filename.append(name);
     filename.append(".dll");
   }
 #elif defined(__APPLE__)
-  if(!has_extension("dylib")) {
+  if(!has_extension(".dylib")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".dylib");
   }
 #else
-  if(!has_extension("so")) {
+  if(!has_extension(".so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From e8f1a3b5a3024c955a9b549ab93916fb136143ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 166/186] fix: data2moments: the number of samples has to fit
 in an integer

---
 sources/softs/data2moments/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index bd5d0bc..35a8fc0 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -208,6 +208,11 @@ try
 
 			if(length > 0.0)
 			{
+				if(samples[k] > std::numeric_limits<int>::max() / nb)
+				{
+					std::cerr << "<<ERROR>> too many samples, see the option --samples" << std::endl;
+					return 1;
+				}
 				dt *= length;
 				nb *= samples[k];
 			}
-- 
2.43.0


From b51daa92c2edcbbea672f99eabba8f2a166405a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 167/186] fix: functions: the parameters of a new function are
 zero until they are set

---
 .../function.cpp                                   |  2 +-
 .../nonlinear_fresnel_retroschlick/function.cpp    |  2 +-
 .../plugins/nonlinear_fresnel_schlick/function.cpp |  2 +-
 sources/plugins/nonlinear_function_abc/function.h  |  6 +++---
 .../nonlinear_function_beckmann/function.cpp       |  4 ++--
 .../plugins/nonlinear_function_blinn/function.cpp  |  4 ++--
 .../function.cpp                                   | 10 +++++-----
 .../nonlinear_function_lafortune/function.cpp      | 14 +++++++-------
 .../nonlinear_function_retrobeckmann/function.cpp  |  4 ++--
 .../nonlinear_function_retroblinn/function.cpp     |  4 ++--
 .../nonlinear_function_retroyoo/function.cpp       |  4 ++--
 .../function.cpp                                   |  4 ++--
 .../plugins/nonlinear_function_ward/function.cpp   |  6 +++---
 .../nonlinear_shadowing_schlick/function.cpp       |  2 +-
 .../plugins/nonlinear_shadowing_smith/function.cpp |  2 +-
 .../nonlinear_shadowing_walter_smith/function.cpp  |  2 +-
 16 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 6a7adfd..43313ba 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    R.resize(params.dimY());
+    R.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 03ed6b5..341b329 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 retro_schlick::retro_schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    R.resize(params.dimY());
+    R.setZero(params.dimY());
 }
 
 vec retro_schlick::value(const vec& x) const
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 8d6521b..e09a844 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick_fresnel::schlick_fresnel(const alta::parameters& params)
     : nonlinear_function(params)
 {
-    R.resize(params.dimY());
+    R.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_abc/function.h b/sources/plugins/nonlinear_function_abc/function.h
index c04ee5b..37eddf0 100644
--- a/sources/plugins/nonlinear_function_abc/function.h
+++ b/sources/plugins/nonlinear_function_abc/function.h
@@ -52,9 +52,9 @@ class abc_function : public nonlinear_function
         : nonlinear_function(params)
     {
         // Update the length of the vectors
-        _a.resize(params.dimY());
-        _b.resize(params.dimY());
-        _c.resize(params.dimY());
+        _a.setZero(params.dimY());
+        _b.setZero(params.dimY());
+        _c.setZero(params.dimY());
     }
 
 		// Overload the function operator
diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index bb89f92..92a5dd7 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -31,8 +31,8 @@ beckmann_function::beckmann_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
     // Update the length of the vectors
-    _a.resize(parametrization().dimY()) ;
-    _ks.resize(parametrization().dimY()) ;
+    _a.setZero(parametrization().dimY()) ;
+    _ks.setZero(parametrization().dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index 0018de8..fb081d8 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -30,8 +30,8 @@ blinn_function::blinn_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(1, params::COS_TH))
 {
     // Update the length of the vectors
-    _ks.resize(_parameters.dimY()) ;
-    _N.resize(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
+    _N.setZero(_parameters.dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
index fe4f833..dd9fbad 100644
--- a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
@@ -31,10 +31,10 @@ isotropic_lafortune_function::isotropic_lafortune_function(const alta::parameter
     _n(1)
 {
     // Update the length of the vectors
-    _C.resize(_n*_parameters.dimY()*2) ;
-    _N.resize(_n*_parameters.dimY()) ;
+    _C.setZero(_n*_parameters.dimY()*2) ;
+    _N.setZero(_n*_parameters.dimY()) ;
 #ifdef USE_DIFFUSE
-    _kd.resize(_parameters.dimY());
+    _kd.setZero(_parameters.dimY());
 
     for(int i=0; i<nY; ++i)
         _kd[i] = 0.0;
@@ -139,8 +139,8 @@ void isotropic_lafortune_function::setNbLobes(int N)
     _n = N;
 
     // Update the length of the vectors
-    _C.resize(_n*_parameters.dimY()*2) ;
-    _N.resize(_n*_parameters.dimY()) ;
+    _C.setZero(_n*_parameters.dimY()*2) ;
+    _N.setZero(_n*_parameters.dimY()) ;
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index dbea6e9..388e731 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -36,11 +36,11 @@ lafortune_function::lafortune_function(const alta::parameters& params) :
 
     // Update the length of the vectors
     if(_isotropic)
-        _C.resize(_n*nY*2) ;
+        _C.setZero(_n*nY*2) ;
     else
-        _C.resize(_n*nY*3) ;
-    _N.resize(_n*nY) ;
-    _kd.resize(nY);
+        _C.setZero(_n*nY*3) ;
+    _N.setZero(_n*nY) ;
+    _kd.setZero(nY);
 
     for(int i=0; i<nY; ++i)
         _kd[i] = 0.0;
@@ -149,10 +149,10 @@ void lafortune_function::setNbLobes(int N)
 
     // Update the length of the vectors
 	 if(_isotropic)
-		 _C.resize(_n*_nY*2) ;
+		 _C.setZero(_n*_nY*2) ;
 	 else
-		 _C.resize(_n*_nY*3) ;
-    _N.resize(_n*_nY) ;
+		 _C.setZero(_n*_nY*3) ;
+    _N.setZero(_n*_nY) ;
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 64deccd..20ff196 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -32,8 +32,8 @@ retrobeckmann_function::retrobeckmann_function(const alta::parameters& params)
       _use_back_param(true)
 {
     // Update the length of the vectors
-    _a.resize(_parameters.dimY()) ;
-    _ks.resize(_parameters.dimY()) ;
+    _a.setZero(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 4224f25..f906e13 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -30,8 +30,8 @@ retroblinn_function::retroblinn_function(const alta::parameters &params)
     : nonlinear_function(params.set_input(1, params::COS_TK))
 {
     // Update the length of the vectors
-    _ks.resize(_parameters.dimY()) ;
-    _N.resize(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
+    _N.setZero(_parameters.dimY()) ;
 }
 
 // Overload the function operator
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 4ea5eea..35bb8ba 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -31,8 +31,8 @@ yoo_function::yoo_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
     // Update the length of the vectors
-    _lt.resize(_parameters.dimY()) ;
-    _kr.resize(_parameters.dimY()) ;
+    _lt.setZero(_parameters.dimY()) ;
+    _kr.setZero(_parameters.dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index c0d2c3a..dcb3634 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -32,8 +32,8 @@ spherical_gaussian_function::spherical_gaussian_function(const alta::parameters&
       _a(1.0), _type(Mirror)
 {
     // Update the length of the vectors
-    _n.resize(_parameters.dimY()) ;
-    _ks.resize(_parameters.dimY()) ;
+    _n.setZero(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
 }
 
 // Overload the function operator
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index bba4eb1..ef703bf 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -32,9 +32,9 @@ ward_function::ward_function(const alta::parameters& params)
       isotropic(false)
 {
     // Update the length of the vectors
-    _ax.resize(_parameters.dimY()) ;
-    _ay.resize(_parameters.dimY()) ;
-    _ks.resize(_parameters.dimY()) ;
+    _ax.setZero(_parameters.dimY()) ;
+    _ay.setZero(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
 }
 
 // Overload the function operator
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 7aee58d..4d17bdc 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -30,7 +30,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 schlick_masking::schlick_masking(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    w.resize(params.dimY());
+    w.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 1c5de8f..2405f88 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -31,7 +31,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 smith::smith(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    w.resize(params.dimY());
+    w.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 47454f5..af46068 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -27,7 +27,7 @@ WalterSmith::WalterSmith(const alta::parameters& params)
 SQRT_PI( 1.772453850905516 )
 #endif
 {
-    _alpha.resize(params.dimY());
+    _alpha.setZero(params.dimY());
 }
 
 
-- 
2.43.0


From 911f5498fd8ba00a7d0955dc5111af3bda0f43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 168/186] fix: python: indices and sizes of vectors are checked

---
 sources/python/wrapper_vec.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4ef54e6..590c2c2 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -21,19 +21,26 @@ namespace py = pybind11;
 
 // STL include
 #include <iostream>
+#include <stdexcept>
 
 /* Specific function call to set a vector's element
  */
 static void vec_set_item(vec& x, int i, double a) {
+	if (i < 0 || i >= x.size()) throw py::index_error();
 	x[i] = a;
 }
 
 /* Operators on vec
  */
+static void vec_check_sizes(const vec& a, const vec& b) {
+   if(a.size() != b.size()) throw std::invalid_argument("the two vectors do not have the same size");
+}
 static vec vec_add(const vec& a, const vec& b) {
+   vec_check_sizes(a, b);
    return a + b;
 }
 static vec vec_sub(const vec& a, const vec& b) {
+   vec_check_sizes(a, b);
    return a - b;
 }
 
-- 
2.43.0


From 4008825ef83ee815cf26dacc221a1d579e4492a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 169/186] fix: python: indices and sizes of samples are
 checked, get_data takes arguments

---
 sources/python/wrapper_data.h | 52 +++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..d2580b3 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -19,6 +19,13 @@ namespace py = pybind11;
 #include <core/ptr.h>
 #include <core/data.h>
 
+// STL include
+#include <limits>
+#include <stdexcept>
+
+// Local includes
+#include "wrapper_args.h"
+
 using namespace alta;
 
 /* Create a data object from a plugin's name and the data filename. This
@@ -30,31 +37,64 @@ static ptr<data> load_data(const std::string& plugin_name,
     return plugins_manager::load_data(filename, plugin_name);
 }
 
+/* The number of samples of a data object is an integer
+ */
+static void data_check_size(size_t size)
+{
+  if(size > size_t(std::numeric_limits<int>::max())) throw std::invalid_argument("too many samples");
+}
+
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
+  data_check_size(size);
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
 
 static ptr<data> get_data(const std::string& plugin_name, size_t size,
                           const parameters& params)
 {
+  data_check_size(size);
   return plugins_manager::get_data(plugin_name, size, params);
 }
 
+/* Access to the samples: the index has to be the one of a sample, and vectors
+ * have to hold all the coordinates of a sample.
+ */
+static vec data_get_item(const data& d, int i)
+{
+  if(i < 0 || i >= d.size()) throw py::index_error();
+  return d.get(i);
+}
+
+static void data_set_item(data& d, int i, const vec& x)
+{
+  if(i < 0 || i >= d.size()) throw py::index_error();
+  if(x.size() < d.parametrization().dimX() + d.parametrization().dimY())
+    throw std::invalid_argument("this vector is too small to be a sample of the data");
+  d.set(i, x);
+}
+
+static vec data_value(const data& d, const vec& x)
+{
+  if(x.size() < d.parametrization().dimX())
+    throw std::invalid_argument("this vector is too small to be a position in the data");
+  return d.value(x);
+}
+
 /* Register the `data` class to python
  */
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
-      .def("__getitem__", &data::get)
-      .def("__setitem__", &data::set)
+      .def("__getitem__", &data_get_item)
+      .def("__setitem__", &data_set_item)
       .def("__len__", &data::size)
       .def("size",  &data::size)
-      .def("get",   &data::get)
-      .def("set",   &data::set)
-      .def("value", &data::value)
+      .def("get",   &data_get_item)
+      .def("set",   &data_set_item)
+      .def("value", &data_value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
    m.def("get_data",  get_data);
-- 
2.43.0


From 5a3dd0f53cb9b99ffcb71f913c3646c072dd15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:24 +0000
Subject: [PATCH 170/186] fix: python: functions check the size of positions,
 save takes arguments, fits without arguments use the defaults

---
 sources/python/alta.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..441d017 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -60,6 +60,14 @@ static ptr<function> get_function_from_args(const python_arguments& args,
     return func;
 }
 
+/* Evaluate a function object.
+ */
+static vec function_value(const function& func, const vec& x) {
+   if(x.size() < func.parametrization().dimX())
+      throw std::invalid_argument("this vector is too small to be a position for the function");
+   return func.value(x);
+}
+
 /* Load a function object from a file. The arguments object is never used here.
  * The file is supposed to load the function correctly.
  */
@@ -186,6 +194,10 @@ static vec get_function_params(ptr<function>& f) {
 /* Save a function object to a file, without any argument option. This will save the function
  * object in ALTA's format.
  */
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
 static void save_function_without_args(const ptr<function>& f, const std::string& filename) {
    arguments args;
    f->save(filename, args);
@@ -198,6 +210,7 @@ static bool fit_data_without_args(const ptr<fitter>& _fitter,
                                   const ptr<data>& _data,
                                   ptr<function>& _func) {
    arguments args;
+   _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
 }
 
@@ -311,10 +324,10 @@ inline void register_function(py::module& m) {
 		.def("__add__",  &add_function)
 		.def("__mul__",  &mult_function)
 		.def("__rmul__", &mult_function)
-		.def("value",    &function::value)
+		.def("value",    &function_value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
-- 
2.43.0


From d2fe2cff21bc9a9f38a6dbb5aa86aef721189c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 171/186] fix: python: None instead of an object is an error

---
 sources/python/alta.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 441d017..970f296 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -35,6 +35,12 @@ using namespace alta;
 
 
 
+/* None is no object for the functions below.
+ */
+template<class T> static void check_not_none(const T& object) {
+   if(!object) throw std::invalid_argument("None is not a valid argument");
+}
+
 /* Creating functions for the plugins_manager calls
  *
  * TODO: Throw python exceptions if the function is not correctly created.
@@ -209,6 +215,8 @@ static void save_function_without_args(const ptr<function>& f, const std::string
 static bool fit_data_without_args(const ptr<fitter>& _fitter,
                                   const ptr<data>& _data,
                                   ptr<function>& _func) {
+   check_not_none(_data);
+   check_not_none(_func);
    arguments args;
    _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
@@ -217,6 +225,8 @@ static bool fit_data_without_args(const ptr<fitter>& _fitter,
 static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
                                ptr<function>& _func,
                                const python_arguments& args) {
+   check_not_none(_data);
+   check_not_none(_func);
    _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
 }
@@ -228,6 +238,8 @@ static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
  */
 static ptr<data> data2data(const data* d_in, const parameters& target)
 {
+    check_not_none(d_in);
+
     auto delete_array = [](double* array)
     {
         delete[] array;
@@ -275,6 +287,8 @@ static ptr<data> data2data(const data* d_in, const parameters& target)
  * has predefined sample sets.
  */
 static void brdf2data(const ptr<function>& f, ptr<data>& d) {
+	check_not_none(f);
+	check_not_none(d);
 	if(d->size() == 0) {
 		std::cerr << "<<ERROR>> Please provide a data object with a sample structure or load a data file with defined positions." << std::endl;
 		return;
@@ -307,6 +321,9 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 /* Compute distance metric between 'in' and 'ref'.
  */
 static py::dict data2stats(const ptr<data>& in, const ptr<data>& ref) {
+   check_not_none(in);
+   check_not_none(ref);
+
    // Compute the metrics
    errors::metrics res;
    errors::compute(in.get(), ref.get(), nullptr, res);
-- 
2.43.0


From 55ddb0fc7940b9b0196c39154b1b743dc35a9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 172/186] fix: python: dimensions are checked before they are
 used

---
 sources/python/alta.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 970f296..b35324d 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -25,6 +25,7 @@ namespace py = pybind11;
 
 // STL include
 #include <iostream>
+#include <stdexcept>
 
 // Local includes
 #include "wrapper_args.h"
@@ -294,6 +295,14 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 		return;
 	}
 
+	if(f->parametrization().dimY() < d->parametrization().dimY()) {
+		throw std::invalid_argument("the function has fewer outputs than the data");
+	}
+	if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+	   && f->parametrization().dimX() > d->parametrization().dimX()) {
+		throw std::invalid_argument("the data do not have the coordinates of the function");
+	}
+
 	vec temp(f->parametrization().dimX());
 	for(int i=0; i<d->size(); ++i) {
 		// Copy the input vector
@@ -362,6 +371,22 @@ inline void register_fitter(py::module& m) {
 	m.def("get_fitter",  plugins_manager::get_fitter);
 }
 
+/* The dimensions size the vectors, a known parametrization gives the one of the
+ * input space.
+ */
+static parameters create_parameters(unsigned int dimX, unsigned int dimY,
+                                    params::input input, params::output output) {
+   const unsigned int max_dim = 65536;
+   if(dimX > max_dim || dimY > max_dim) {
+      throw std::invalid_argument("the dimensions are too large");
+   }
+   const int dimension = params::dimension(input);
+   if(input != params::UNKNOWN_INPUT && dimension >= 0 && int(dimX) != dimension) {
+      throw std::invalid_argument("the dimension does not match the parametrization");
+   }
+   return parameters(dimX, dimY, input, output);
+}
+
 #define STRINGIFY_(x) #x
 #define STRINGIFY(x)  STRINGIFY_(x)
 
@@ -371,7 +396,7 @@ PYBIND11_MODULE(alta, m) {
 
     /* Register the 'parameters' class and the enums */
     py::class_<parameters>(m, "parameters")
-      .def(py::init<unsigned int, unsigned int, params::input, params::output>());
+      .def(py::init(&create_parameters));
 
 #define PARAM_VALUE(name)                       \
    .value(STRINGIFY(name), params:: name)
-- 
2.43.0


From dcca2cf365f698a0330e6f7efa549b5af3c93dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 173/186] fix: compound_function: functions that cannot be
 added are an error

---
 sources/core/function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 9edfc9c..7411d2c 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -548,7 +548,10 @@ compound_parameters(const std::vector<ptr<nonlinear_function> >& functions)
                                       result.input_parametrization(),
                                       output);
         else if (result.output_parametrization() != output)
-            abort();
+            throw std::invalid_argument("the functions of a compound do not have the same output parametrization");
+
+        if (result.dimY() != f->parametrization().dimY())
+            throw std::invalid_argument("the functions of a compound do not have the same output dimension");
     }
 
     return result;
-- 
2.43.0


From 14e095434f1e35abe7a765b569d335b98fca3479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 174/186] fix: product_function: functions that cannot be
 multiplied are an error

---
 sources/core/function.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 7411d2c..346ddd0 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -881,6 +881,9 @@ product_parameters(const ptr<nonlinear_function>& g1,
 {
     parameters result = g1->parametrization();
 
+    if(g1->parametrization().dimY() != g2->parametrization().dimY())
+        throw std::invalid_argument("the functions of a product do not have the same output dimension");
+
     if(g1->parametrization().input_parametrization() !=
        g2->parametrization().input_parametrization())
     {
-- 
2.43.0


From 30f19791edb4aa759f446fb1c23c38caa76b02cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:27 +0000
Subject: [PATCH 175/186] fix: python: vectors of no element

---
 sources/python/wrapper_vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 590c2c2..34ff8ca 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -20,6 +20,7 @@ namespace py = pybind11;
 #include <core/common.h>
 
 // STL include
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 
@@ -71,7 +72,7 @@ inline void register_vec(py::module& m) {
         .def(py::init<vec>())
         .def(py::init([]( const std::vector<double>& a) {
             vec v(a.size());
-            memcpy((void*)v.data(), (const void*)a.data(), a.size()*sizeof(double));
+            std::copy(a.begin(), a.end(), v.data());
             return v;
         }))
 		.def("__add__", &vec_add)
-- 
2.43.0


From 27a281a972edc3cc13ab6f9481c94c5fd144b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 176/186] fix: python: fits check that the function and the
 data have the same dimensions

---
 sources/python/alta.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index b35324d..82ac424 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -210,14 +210,29 @@ static void save_function_without_args(const ptr<function>& f, const std::string
    f->save(filename, args);
 }
 
+/* A function fits data of the same output dimension. Nonlinear functions convert
+ * the positions of the data, the others use them as they are.
+ */
+static void check_can_fit(const ptr<data>& d, const ptr<function>& f) {
+   check_not_none(d);
+   check_not_none(f);
+   if(f->parametrization().dimY() != d->parametrization().dimY()) {
+      throw std::invalid_argument("the function and the data do not have the same output dimension");
+   }
+   const bool converts = bool(dynamic_pointer_cast<nonlinear_function>(f)) &&
+                         f->parametrization().input_parametrization() != params::UNKNOWN_INPUT;
+   if(!converts && f->parametrization().dimX() != d->parametrization().dimX()) {
+      throw std::invalid_argument("the function and the data do not have the same input dimension");
+   }
+}
+
 /* Fitter interface to allow to launch fit with and without providing an
  * arguments object.
  */
 static bool fit_data_without_args(const ptr<fitter>& _fitter,
                                   const ptr<data>& _data,
                                   ptr<function>& _func) {
-   check_not_none(_data);
-   check_not_none(_func);
+   check_can_fit(_data, _func);
    arguments args;
    _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
@@ -226,8 +241,7 @@ static bool fit_data_without_args(const ptr<fitter>& _fitter,
 static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
                                ptr<function>& _func,
                                const python_arguments& args) {
-   check_not_none(_data);
-   check_not_none(_func);
+   check_can_fit(_data, _func);
    _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
 }
-- 
2.43.0


From 2175505c4f1dff170c0e17750b4631b13a0f311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 177/186] fix: change-param: convert the samples of the data

---
 sources/core/data.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index cb35c9b..a76535e 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -149,6 +149,25 @@ class data_params : public data
       //TODO
       //clustering<data>(d, _nY, d->parametrization(), new_param, _data);
 
+      const int dimX = _parameters.dimX();
+      const int dimY = _parameters.dimY();
+      _min = vec::Constant(dimX,  std::numeric_limits<double>::max());
+      _max = vec::Constant(dimX, -std::numeric_limits<double>::max());
+
+      // Express each sample in the new parametrization
+      for(int i=0; i<size; ++i)
+      {
+        const vec x = d->get(i);
+        vec y(dimX + dimY);
+        params::convert(&x[0], d->parametrization().input_parametrization(),
+                        new_param, &y[0]);
+        y.tail(dimY) = x.segment(d->parametrization().dimX(), dimY);
+
+        _min = _min.cwiseMin(y.head(dimX));
+        _max = _max.cwiseMax(y.head(dimX));
+        _data.push_back(y);
+      }
+
       std::cout << "<<INFO>> clustering left " << _data.size() << "/" << d->size() << " elements" << std::endl;
       save(std::string("cluster.gnuplot"));
     }
@@ -166,7 +185,7 @@ class data_params : public data
 
     virtual void set(int i, const vec& x)
     {
-      this->set(i, x);
+      _data[i] = x;
     }
 
   protected: // data
-- 
2.43.0


From 8c5fe559c2df0fb6edaa213835d8e354156950a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 178/186] fix: correcting data by the cosines divides the
 values and their intervals by the cosines

---
 sources/core/data_storage.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 7126489..04d1b70 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -44,20 +44,17 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + 3*dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
-    double factor = 1.0;
+    // Correction of the data, and of their intervals, by the product of the
+    // cosines of the light and view directions
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
+        const double factor = cart[5]*cart[2];
+        for(unsigned int i = 0; i < 3*dimY; ++i)
         {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
             v(i + dimX) /= factor;
         }
         return true;
@@ -296,8 +293,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From 67e9dd0fdab5e04c3f5da55d15b400d613c48433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 179/186] fix: loading corrected data does not write to a file
 of its own

---
 sources/core/data_storage.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 04d1b70..0af25c6 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -315,9 +315,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
-
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
   return result;
-- 
2.43.0


From 888e9a92b0bf4fabf779d02660c83978d66ea737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 180/186] fix: the documented option --data-positive is taken
 into account

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 0af25c6..0485644 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -165,7 +165,7 @@ static void read_confidence_interval(std::istream& input,
         // You can enforce the vertical segment to stay in the positive
         // region using the --data-positive command line argument. Note
         // that the data point is also clamped to zero if negative.
-        if(args.is_defined("dt-positive"))
+        if(args.is_defined("data-positive") || args.is_defined("dt-positive"))
         {
             v(dimX +        i) = std::max(v(dimX +        i), 0.0);
             v(dimX +   dimY+i) = std::max(v(dimX +   dimY+i), 0.0);
-- 
2.43.0


From 9a979fbcb0c09b31e40323326ddf602453ecacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 181/186] fix: the coefficients of a rational function that was
 not fitted are zero

---
 sources/core/rational_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/rational_function.h b/sources/core/rational_function.h
index 37a9114..c080dc4 100644
--- a/sources/core/rational_function.h
+++ b/sources/core/rational_function.h
@@ -156,7 +156,7 @@ class rational_function_1d : public function
 		// for each dimension.
 		struct coeff
 		{
-			coeff() {}
+			coeff() : a(0.0) {}
 			coeff(double a, std::vector<int> deg) :
 				a(a), deg(deg) { }
 
-- 
2.43.0


From 899f53f56da210901ee5ccfcb78bf7cbd5b84f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 182/186] fix: interval fits with several threads do not accept
 functions whose denominator changes sign between samples

---
 sources/plugins/rational_fitters/quadratic_program.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 42bed32..026b96b 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -166,9 +166,14 @@ class quadratic_program
                vec y = r->value(x);
                bool fail_upper = y[0] > yu[ny];
                bool fail_lower = y[0] < yl[ny];
-               if(fail_lower || fail_upper)
+
+               // The constraints keep the denominator positive. A value might be
+               // in its interval on the other side of a pole.
+               bool fail_sign  = !(r->q(x)[0] > 0.0);
+               if(fail_lower || fail_upper || fail_sign)
                {
-                  const double dev = std::abs(0.5*(yu[ny]+yl[ny]) - y[0]);
+                  const double dev = fail_sign ? std::numeric_limits<double>::max()
+                                               : std::abs(0.5*(yu[ny]+yl[ny]) - y[0]);
 
                   nb_failed++;
 
-- 
2.43.0


From 8e109533cf54add049d547cf31390753ad3c5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 183/186] fix: bootstrapping a function with a file skips the
 header of the file

---
 sources/core/function.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 346ddd0..752a455 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -37,6 +37,22 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     std::ifstream in(args["bootstrap"].c_str());
     if(in.is_open())
     {
+      // Skip the header, if there is one
+      std::string line;
+      std::getline(in, line);
+      if(line == "#ALTA FUNC HEADER")
+      {
+        while(in.good() && line != "#ALTA HEADER END")
+        {
+          std::getline(in, line);
+        }
+      }
+      else
+      {
+        in.clear();
+        in.seekg(0);
+      }
+
       if(!load(in))
 			{
 				std::cerr << "<<ERROR>> cannot bootstrap from file \"" << args["bootstrap"] << "\"" << std::endl;
-- 
2.43.0


From 6013345e559c12b66c663f30d438ca80900764e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 184/186] fix: parts of a sum keep their own options when a
 bootstrap vector or file is given

---
 sources/core/function.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 752a455..6de2db1 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -633,16 +633,15 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 	{
 		if(args.is_vec("bootstrap"))
 		{
-			vec p = args.get_vec("bootstrap", nbParameters());
-			setParameters(p);
-		
+			// The options of the parts are about more than their parameters. They
+			// also define the parts that the vector does not describe.
 			for(unsigned int i=0; i<fs.size(); ++i)
 			{
-				if(fs[i]->nbParameters() == 0 || is_fixed[i])
-				{
-					fs[i]->bootstrap(d, fs_args[i]);
-				}
+				fs[i]->bootstrap(d, fs_args[i]);
 			}
+
+			vec p = args.get_vec("bootstrap", nbParameters());
+			setParameters(p);
       std::cout << "<<DEBUG>> Number of parameters for compound function: " << nbParameters() << std::endl;
       std::cout << "<<INFO>> Will use " << p << " as a bootstrap vector for the compound non-linear function" << std::endl;
 		}
@@ -680,7 +679,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
-							f1->bootstrap(d, args);
+							f1->bootstrap(d, fs_args[i]);
 							std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 						}
 
@@ -692,7 +691,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
-							f2->bootstrap(d, args);
+							f2->bootstrap(d, fs_args[i]);
 							std::cout << "<<DEBUG>> Unable to load second function of product, regular bootstraping" << std::endl;
 						}
 					}
-- 
2.43.0


From b727681f2bef4719086b143a0a5a061b1bcc601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 185/186] fix: factors of a product keep their own options when
 a bootstrap vector or file is given

---
 sources/core/args.h       |  6 ++++++
 sources/core/function.cpp | 15 +++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index e54282a..d50a1c0 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -182,6 +182,12 @@ class arguments
         _map[key] = val;
     }
 
+    //! \brief forget the value stored under key \a key
+    void remove(const std::string& key)
+    {
+        _map.erase(key);
+    }
+
     //! \brief acces to the string value associated with the parameter
 		//! \a key.
 		//!
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 6de2db1..aeaf790 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -1026,17 +1026,20 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	const bool global_bootstrap = args.is_defined("bootstrap");
 
+	// The bootstrap option describes the product, the others are for its factors
+	arguments factor_args(args);
+	factor_args.remove("bootstrap");
+
 	// Check if the bootstrap is global
 	if(global_bootstrap)
 	{
 		if(args.is_vec("bootstrap"))
 		{
+			f1->bootstrap(d, factor_args);
+			f2->bootstrap(d, factor_args);
+
 			vec p = args.get_vec("bootstrap", nbParameters());
 			setParameters(p);
-
-			// The vector does not describe these factors
-			if(f1->nbParameters() == 0 || _is_fixed.first)  { f1->bootstrap(d, arguments()); }
-			if(f2->nbParameters() == 0 || _is_fixed.second) { f2->bootstrap(d, arguments()); }
 		}
 		else
 		{
@@ -1061,7 +1064,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
-					f1->bootstrap(d, args);
+					f1->bootstrap(d, factor_args);
 					std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 				}
 				
@@ -1072,7 +1075,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
-					f2->bootstrap(d, args);
+					f2->bootstrap(d, factor_args);
 					std::cout << "<<DEBUG>> Unable to load second function of product, regular bootstraping" << std::endl;
 				}
 			}
-- 
2.43.0


From a6ab2845d7a4043989e6e59148e8cca19707e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:15 +0000
Subject: [PATCH 186/186] fix: keep NLopt parameters inside their bounds when
 the optimizer leaves them

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index c6d86cc..62e4021 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -300,6 +300,16 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	const double f_start = f(nf->nbParameters(), &p[0], NULL, dat);
 	res = nlopt_optimize(opt, &p[0], &f_end);
 
+	// Some optimizers end slightly outside of the bounds
+	if(res > 0 && p.allFinite())
+	{
+		for(int i=0; i<nf->nbParameters(); ++i)
+		{
+			p[i] = std::min(std::max(p[i], p_min[i]), p_max[i]);
+		}
+		f_end = f(nf->nbParameters(), &p[0], NULL, dat);
+	}
+
 	// Some optimizers end on a point that is not better than the first one
 	if(res > 0 && (!p.allFinite() || !(f(nf->nbParameters(), &p[0], NULL, dat) <= f_start)))
 	{
-- 
2.43.0

