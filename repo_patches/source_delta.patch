From 2e041a0e83eda48419d20e6ac4975e9dffe4cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 001/102] fix: unit vectors for the COS_TK parametrization

---
 sources/core/params.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..d218abd 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -104,10 +104,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
+			outvec[3] =   sqrt(1.0 - invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
-- 
2.43.0


From cdfdd3f9d35818daeda232e22775f32a0ba25ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 002/102] fix: SCHLICK_VK to unit vectors around the back
 vector

---
 sources/core/params.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index d218abd..db5fa14 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -206,14 +206,13 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
-            outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
-            outvec[5] = invec[2];
+            outvec[0] = - invec[0];
+            outvec[1] = - invec[1];
+            outvec[2] =   invec[2];
+            outvec[3] =   invec[0];
+            outvec[4] =   invec[1];
+            outvec[5] =   invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-- 
2.43.0


From 868c2578e98ace52c49038468a3249ba46e2ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 003/102] fix: COS_TLR is the cosine between light and
 reflected view

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index db5fa14..701550c 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -475,7 +475,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[0]*invec[3] - (invec[1]*invec[4] + invec[2]*invec[5]);
+			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
 			break;
 
 			// 2D Parametrizations
-- 
2.43.0


From 07ccf22c5e5f3337220f18301678bae02012c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 004/102] fix: stereographic unprojection must scale the
 tangent coordinates

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 701550c..851c977 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -374,16 +374,16 @@ void params::to_cartesian(const double* invec, params::input intype,
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
          const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
+         outvec[0] = invec[0] * (1.0 + alphL);
+         outvec[1] = invec[1] * (1.0 + alphL);
          outvec[2] = alphL;
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
          const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
+         outvec[3] = invec[2] * (1.0 + alphV);
+         outvec[4] = invec[3] * (1.0 + alphV);
          outvec[5] = alphV;
 		}
          break;
-- 
2.43.0


From 3320b5c97672b77744d7a64253ec6994eb826927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 005/102] fix: register the RUSIN_TH_PH_TD parametrization

---
 sources/core/params.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 851c977..e34c3d9 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -43,6 +43,7 @@ std::map<params::input, const param_info> create_map()
 
 	/* 3D Params */
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
+	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_PH_TD, param_info("RUSIN_TH_PH_TD", 3, "Half angle parametrization without the azimuth of the difference vector")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VH", 3, "Vector representation of the Back angle only")));
-- 
2.43.0


From dbc3aff7a9afa115b3851d6d6c30e1719d7612b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 006/102] fix: orientation of the projected azimuth difference
 in ISOTROPIC_TL_TV_PROJ_DPHI

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index e34c3d9..2df812e 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -593,7 +593,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double theta_l = acos(invec[5]);
 			const double theta_v = acos(invec[2]);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
+			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
 			outvec[2] = theta_v * sin(dphi);
-- 
2.43.0


From d7021c5df2131df6c10bb8c12e98e8ac88b77ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 007/102] fix: orientation of the projected azimuth difference
 in SCHLICK_TL_TK_PROJ_DPHI

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 2df812e..7964a7e 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -639,7 +639,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
 			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(vky/norm, vkx/norm);
+			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From bacdd05f174bd7b8da5b811162499141e88b28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 008/102] fix: RETRO_TL_TVL_PROJ_DPHI conversions are inverse
 of each other

---
 sources/core/params.cpp | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 7964a7e..b14f129 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -268,24 +268,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double cos_phi  = (theta_vl > 0.0) ? invec[1] / theta_vl : 0.0;
 			const double sin_phi  = (theta_vl > 0.0) ? invec[2] / theta_vl : 0.0;
 
-			// Compute the cosine of the outgoing vector using the
-			// spherical law of cosines
-			const double cos_v = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
-			const double sin_v = sqrt(1.0 - std::min(cos_v*cos_v, 1.0));
-
-			if(sin_v != 0.0)
-			{
-				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
-
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
-				outvec[1] = sin_v * sin_dphi;
-			}
-			else
-			{
-				outvec[0] = 0.0;
-				outvec[1] = 0.0;
-			}
-			outvec[2] = cos_v;
+			// Compute the outgoing vector in the frame of the light vector,
+			// phi being measured from the direction of the normal.
+			outvec[0] = sin_l*cos_vl - cos_phi*cos_l*sin_vl;
+			outvec[1] = sin_phi*sin_vl;
+			outvec[2] = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
 			outvec[3] = sin(invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = cos(invec[0]);
@@ -609,7 +596,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
 
 			// Sine of the \Delta_{\phi} angle
-			const double sin_dp = sin(atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]));
+			const double sin_dp = sin(atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]));
 
 			if(sin_vl != 0.0 && sin_l != 0.0)
 			{
-- 
2.43.0


From c9e1f694c31d5647a6c79dbfb6f3f6d4e4161532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 009/102] fix: azimuth of the back vector in STARK_3D

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index b14f129..a94af20 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -292,7 +292,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
-- 
2.43.0


From 0f56b08f69734bf83621e68c902c9d7d4a5dd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 010/102] fix: orientation of the back vector in NEUMANN_3D

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index a94af20..9023e07 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -318,10 +318,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From 8fd14dfc500467e0c03e02d036a564e835b8f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 011/102] fix: average of the output values must not accumulate
 into the destination

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..f48ed3e 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From 950365448c7b583a8906e23539782fffc3f6c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 012/102] fix: dimension of the INV_STERADIAN_COSINE_FACTOR
 output parametrization

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index f48ed3e..734ccf7 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -299,6 +299,7 @@ class params
             {
                 // 1D Parametrizations
                 case params::INV_STERADIAN:
+                case params::INV_STERADIAN_COSINE_FACTOR:
                 case params::ENERGY:
                     return 1;
                     break;
-- 
2.43.0


From 56a871ddaa642cdf479cb26ef2b3445a299d2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 013/102] fix: upper bound of symmetrical confidence intervals

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From 4496ab3ccbe210ecb006faf4bf2c013430d9577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 014/102] fix: default tolerance of the comparison of data

---
 sources/core/data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From bdf763fec8c1f744a970bf61996a7c26a48baa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 015/102] fix: data with undefined values must not compare
 equal to any other data

---
 sources/core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..9ca6ae2 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -50,7 +50,7 @@ bool data::equals(const data& data, double epsilon)
         for (int j = 0; j < self.size(); j++)
         {
             double diff = std::abs(self[j] - other[j]);
-            if (diff > epsilon)
+            if (!(diff <= epsilon) && self[j] != other[j])
                 return false;
         }
     }
-- 
2.43.0


From b144a75fbeee9f5c2c090aa498f4ece6b00749a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 016/102] fix: the metrics are computed on the entries kept by
 the mask

---
 sources/core/metrics.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..e9b3ce3 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -62,7 +62,7 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
       // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -90,6 +90,9 @@ void errors::evaluate(const data* inp,
    // Is there a mask function to be applied
    const bool has_mask = mask != nullptr;
 
+   // Index of the current entry, once the masked ones are removed
+   int row = 0;
+
    // Evaluate the input data at each position of data_x configuration
    for(auto i=0; i<ref->size(); i++) {
 
@@ -117,8 +120,8 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
@@ -128,9 +131,10 @@ void errors::evaluate(const data* inp,
                          inp_y.row(i).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
+      ++row;
    }
 }
 
-- 
2.43.0


From b5ec27a3da63515a36351c12b101de4ffd3dfe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 017/102] fix: lower bound of the confidence intervals with
 --dt-max

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..5a3b260 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -129,7 +129,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
             v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
         }
         else
-- 
2.43.0


From 849e93966eed83df2f5ff0698b38cfa98eed5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 018/102] fix: the documented --data-positive option was
 ignored

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 5a3b260..001f647 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -141,7 +141,7 @@ static void read_confidence_interval(std::istream& input,
         // You can enforce the vertical segment to stay in the positive
         // region using the --data-positive command line argument. Note
         // that the data point is also clamped to zero if negative.
-        if(args.is_defined("dt-positive"))
+        if(args.is_defined("data-positive") || args.is_defined("dt-positive"))
         {
             v(dimX +        i) = std::max(v(dimX +        i), 0.0);
             v(dimX +   dimY+i) = std::max(v(dimX +   dimY+i), 0.0);
-- 
2.43.0


From e11cd8dbb029ea7d5f48c2953f7e014932d31310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 019/102] fix: the header ends where the binary payload begins

---
 sources/core/args.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..c3e22c2 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -504,6 +504,12 @@ class arguments
 
 								getline(linestream, data, '\r');
 								args.update(key, data) ;
+
+								// What follows is a binary payload, whose
+								// first byte may well be a hash sign.
+								if (key == "BEGIN_STREAM") {
+									break;
+								}
 							}
 						}
 					}
-- 
2.43.0


From c0c19717c659e446aa51146e1a273c5bf3715628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 020/102] fix: refuse binary data without any payload

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 001f647..113202a 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -386,7 +386,7 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
       for (std::streamsize total = 0;
-           total < byte_count && !in.eof();
+           total < byte_count;
            total += in.gcount())
       {
           in.read((char *) content + total, byte_count - total);
-- 
2.43.0


From 779c68898a5be3d6492c460044843a98a81f4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 021/102] fix: the ABC lobe is constant outside of its domain

---
 sources/plugins/nonlinear_function_abc/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..81d5be4 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,9 +107,9 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 const double hn = 1.0 - x[0];
+			 if(i == j && hn >= 0.0 && hn <= 1.0)
 			 {
-				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-- 
2.43.0


From 9a7856be969903c02ae45eebb73d25919333a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 022/102] fix: the diffuse function has no parameter to expose

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..930126e 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 3ea042c42030166183ad38b7e9ced1c8819434a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 023/102] fix: the Lafortune function is created with
 uninitialised number of lobes

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..3b432dc 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params), _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
-- 
2.43.0


From dbad048ff9c5a0c68239ba3427829a5c8ef0be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 024/102] fix: the retro Blinn lobe is constant below the
 horizon

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..f2442e0 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -135,7 +135,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 		for(int j=0; j<_parameters.dimY(); ++j)
 		{
-			if(i == j)
+			if(i == j && x[0] >= 0.0)
 			{
 				// df / dk_s
 				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
-- 
2.43.0


From 5cdef09612acfe09e0b69a9523f8599f74547fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 025/102] fix: the retro Yoo function multiplied an
 uninitialised value

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..a14a48e 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
-- 
2.43.0


From 0c6e391be0db81565a52417adeb7ff5c9d8acf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 026/102] fix: number of parameters of the retro Yoo function

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index a14a48e..8c63ae6 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From 3bf068d55f299dc667a2f9f08199391993be8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 027/102] fix: derivative of the retro Yoo function with
 respect to its free path

---
 .../plugins/nonlinear_function_retroyoo/function.cpp  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8c63ae6..ae08eaf 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -110,13 +110,18 @@ vec yoo_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				const double q = 2.0 * M_PI * x[0] / 633.0;
-				const double base = factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+				const double expo = exp(- 2.0 * q * 0.7 * _lt[i]);
+				const double diff = 1.0 + q*_lt[i]*_lt[i];
+				const double A    = 2.4 + 1.0 / diff;
+				const double B    = 1.0 + (1.0 - expo / (q*_lt[i]));
+				const double base = factor * A * B;
 				// df / dk_r
 				jac[i*nbParameters() + j*2+0] = base;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				const double dA = - 2.0 * q * _lt[i] / (diff*diff);
+				const double dB = expo * (2.0 * 0.7 / _lt[i] + 1.0 / (q*_lt[i]*_lt[i]));
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (dA * B + A * dB);
 			}
 			else
 			{
-- 
2.43.0


From 3350707b621edffaeba29f335534f235c358bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 028/102] fix: allocate the parameters of the normalized
 Schlick function

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..2c1329d 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(_parameters.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From d4a1ef7cdaae1904a0b6f041c6bfa9ea5c80f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 029/102] fix: derivative of the normalized Schlick function

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 2c1329d..0ed36d5 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -191,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From 6c800af67c9d29f37665a5600aa2c6c15063b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 030/102] fix: derivative of the Smith shadowing function

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..3cb3b40 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -234,7 +234,7 @@ vec smith::parametersJacobian(const vec& x) const
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (r * w[i] * sqrt(2.0 * M_PI)) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From df005a18010b03bdfc7c5cd6d7980ac49eca51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 031/102] fix: derivative of the Beckmann function with respect
 to its roughness

---
 sources/plugins/nonlinear_function_beckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..6c97ee3 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a)/(M_PI*a2*a2*dh2*dh2)) * (1 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From a6898d4c928fe2c5572ab1c1d312e89968fe0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 032/102] fix: derivative of the Retrobeckmann function with
 respect to its roughness

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..b5cd08f 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a)/(M_PI*a2*a2*dh2*dh2)) * (1 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From 35da678aa3e97a327fc55fef6da540c68b69fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 033/102] fix: cosine between the light and view directions in
 the Retrobeckmann function

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index b5cd08f..733fd00 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec beckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From 29a1c8246353a0c504104bc5edbecf1650628035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 034/102] fix: derivatives of the Ward function with respect to
 its roughness

---
 sources/plugins/nonlinear_function_ward/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..6dba7f4 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * ((2.0*hx_ax*hx_ax) / (h[2]*h[2]) - 1.0) * gauss;
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * ((2.0*hy_ay*hy_ay) / (h[2]*h[2]) - 1.0) * gauss;
 			 }
 			 else
 			 {
-- 
2.43.0


From f81c163e28d37540136b7b2d088c73ef1e48f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 035/102] fix: nonlinear_shadowing_walter_smith: coefficient of
 the rational approximation (2.276, as in the paper and in the derivative)

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..ba909e9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -325,7 +325,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
-- 
2.43.0


From e4159f04c3a490a39b75a463b46e4c89ebb1e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 036/102] fix: nonlinear_shadowing_walter_smith: null
 derivative where the shadowing term is constant

---
 .../plugins/nonlinear_shadowing_walter_smith/function.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..ab590e4 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -220,6 +220,12 @@ inline
 float
 WalterSmith::partialDerivative( float alpha, float tangent_value) const
 {
+  // The shadowing term is constant where the approximation is clamped to one
+  if( 1.0 / (alpha * tangent_value) >= 1.6 )
+  {
+    return 0.0f;
+  }
+
   //Exported from Maple 
   float const t1 = tangent_value;
   float const t2 = alpha * t1;
-- 
2.43.0


From fd822aa0d716aaab5edbd39f3e4afca3e5da861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 037/102] fix: nonlinear_function_retrobeckmann: load the lobe
 type that was saved

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 733fd00..8377a23 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -225,7 +225,7 @@ bool beckmann_function::load(std::istream& in)
 	}
 
 	in >> token;
-	if(token.compare("RETRO") != 0) 
+	if(token.compare("BACK") != 0) 
 	{ 
 		_use_back_param = false;
 	}
-- 
2.43.0


From 4f2b281e828789d8256cca73f12f474396f235ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 038/102] fix: nonlinear_function_retroyoo: stray token in the
 saved file that shifted the parameters

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index ae08eaf..cdfce20 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -192,7 +192,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
 
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
-- 
2.43.0


From 413a3cc08df85418713591e4e94d991bd87ddb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 039/102] fix: nonlinear_function_spherical_gaussian: the retro
 lobe uses the cosine between the directions, as its shader does

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..28c2ad8 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -76,6 +76,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 		params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
 		dot = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
 	}
+	else if(_type == Retro)
+	{
+		dot = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
+	}
 	else
 	{
 		double spherical[4];
-- 
2.43.0


From 933e3d182d13f5e11e743c401f66a214483d1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 040/102] fix: nonlinear_function_diffuse: the initialisation
 with cosine weighted data ignored the first sample

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 930126e..0330eed 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -204,7 +204,7 @@ void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
             for(int i=0; i<d->parametrization().dimY(); ++i)
                 _kd[i] = std::numeric_limits<double>::max();
 
-            for(int i=1; i<d->size(); ++i)
+            for(int i=0; i<d->size(); ++i)
             {
                 vec x = d->get(i);
                 params::convert(&x[0],
-- 
2.43.0


From d339a8734e9d8726d80f3b793941881b4f37a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 041/102] fix: nonlinear_function_spherical_gaussian:
 derivative with respect to the moment parameter

---
 .../nonlinear_function_spherical_gaussian/function.cpp    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 28c2ad8..4a217a5 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -212,12 +212,14 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double phi = spherical[1];
+			 spherical[1] *= _a;
+			 spherical[1] += 1.5* M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
-			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 double dot2 = phi * (cart[0]*cart[3] + cart[1]*cart[4]);
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * dot2;
 
 		 }
 	 }
-- 
2.43.0


From a8641eaf5c74a5d782b9fd7b079dbbcc3afa7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 042/102] fix: nonlinear_function_spherical_gaussian: save and
 load the type of the lobe

---
 .../function.cpp                              | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 4a217a5..162161c 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -294,11 +294,24 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the type of the lobe, mirror when it is not specified
+	_type = Mirror;
+	in >> token;
+	if(token.compare("#TYPE") == 0)
+	{
+		in >> token;
+		if(token.compare("HALF") == 0)        { _type = Half;   }
+		else if(token.compare("BACK") == 0)   { _type = Back;   }
+		else if(token.compare("RETRO") == 0)  { _type = Retro;  }
+		else if(token.compare("MOMENT") == 0) { _type = Moment; }
+		in >> token;
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
-
-		in >> token >> _ks[i];
+		if(i > 0) { in >> token; }
+		in >> _ks[i];
 		in >> token >> _n[i];
 	}
 	
@@ -322,6 +335,12 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
 
+		// The mirror lobe is the default
+		if(_type == Half)        { out << "#TYPE HALF"   << std::endl; }
+		else if(_type == Back)   { out << "#TYPE BACK"   << std::endl; }
+		else if(_type == Retro)  { out << "#TYPE RETRO"  << std::endl; }
+		else if(_type == Moment) { out << "#TYPE MOMENT" << std::endl; }
+
          for(int i=0; i<nY; ++i)
 		 {
 			 out << "Ks " << _ks[i] << std::endl;
-- 
2.43.0


From f4b24a931afc9f6dc7b6b5a2714f87f1a1d8c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 043/102] fix: initialisation from a file without header never
 ended

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..a79131b 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -574,7 +574,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				// Load the file
 				// For each individual element, the input file is parsed
@@ -972,7 +972,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				std::streampos pos = file.tellg();
 
-- 
2.43.0


From 22143a51321fae4e6eaa62c5fe676e79ef4a5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 044/102] fix: rational_function_1d: sums of the numerator and
 denominator start from zero

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..bc938b5 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -263,7 +263,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -275,7 +275,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From 115d271ebd0ce51a7ee1d36322b30092dbac8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 045/102] fix: rational_function_1d::update: set the exponents
 of the added coefficients

---
 sources/core/rational_function.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index bc938b5..71fdc54 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -183,12 +183,9 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int nq = in_b.size();
 
 	// Resize the coefficient vector if they do not match
-	if(np != _p_coeffs.size()) {
-		_p_coeffs.resize(np);
-	}
-	if(nq != _q_coeffs.size()) {
-		_q_coeffs.resize(nq);
-	}
+	resize(np, nq);
+	_p_coeffs.resize(np);
+	_q_coeffs.resize(nq);
 
 #define NORMALIZE
 
-- 
2.43.0


From 73b878c7f6779e9e5e8c62dda8d861f3b955db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 046/102] fix: rational_function::load: use the domain of the
 file for a function already in use

---
 sources/core/rational_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 71fdc54..0fed63f 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -666,7 +666,9 @@ bool rational_function::load(std::istream& in)
 
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
-		// Update the i_th color channel
+		// Update the i_th color channel, over the domain just read
+		delete rs[i];
+		rs[i] = NULL;
 		if(!get(i)->load(in)) { return false; }
 	}
 
-- 
2.43.0


From 5b67782bb134013c9d877a97e06addbaecc5337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 047/102] fix: plugins_manager: only names with the .so
 extension are file names

---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..4fdb8c2 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -46,7 +46,7 @@ static std::string library_name(const std::string name)
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(n < 3 || name.substr(n-3, n) != std::string(".so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From 1fc1180600ff5d28e1a3fbed5c6faa850a5f59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 048/102] fix: plugins_manager: a sum leaves out the elements
 that are not nonlinear functions

---
 sources/core/plugins_manager.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 4fdb8c2..d25e45c 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -221,7 +221,7 @@ function* plugins_manager::load_function(const std::string& filename)
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f != NULL && f->load(file) )
   {
     return f;
   }
@@ -267,8 +267,8 @@ function* plugins_manager::get_function(const arguments& args,
 
    //! For each args_vec element, create a function object and add ! it to the
    //compound one.
-    std::vector<ptr<nonlinear_function> > functions(args_vec.size());
-    std::vector<arguments> function_args(args_vec.size());
+    std::vector<ptr<nonlinear_function> > functions;
+    std::vector<arguments> function_args;
 
     for(unsigned int i=0; i<args_vec.size(); ++i)
     {
@@ -292,11 +292,17 @@ function* plugins_manager::get_function(const arguments& args,
       }
       else
       {
-          functions[i] = ptr<nonlinear_function>(nl_f);
-          function_args[i] = temp_args;
+          functions.push_back(ptr<nonlinear_function>(nl_f));
+          function_args.push_back(temp_args);
       }
     }
 
+    // None of the elements can be used
+    if(functions.empty())
+    {
+        return NULL;
+    }
+
     //! create a *compound* class to store multiple ! functions in it.
     compound_function* compound = new compound_function(functions, function_args);
 
-- 
2.43.0


From 02b8adf427a60ba3c31401056b9d099c83b8cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 049/102] fix: nonlinear_function_lafortune: load the exponent
 of every lobe

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 3b432dc..858a8a3 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -416,7 +416,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From 2eaf4d5e740888dfd01c0e4fcbdac104546946fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 050/102] fix: merl: refuse a file that ends before its last
 sample

---
 sources/plugins/data_io/merl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..b533f0c 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -438,7 +438,7 @@ static bool read_brdf(std::istream& input, double* &brdf)
 
     input.read((char *) brdf, 3 * n * sizeof(double));
 
-		return true;
+		return input.good();
 }
 
 
-- 
2.43.0


From 82d7d061406077588f065a6bac72f2217a26bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 051/102] fix: merl: raise an exception for an invalid file

---
 sources/plugins/data_io/merl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index b533f0c..388632d 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -33,6 +33,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <algorithm>
+#include <stdexcept>
 
 #define BRDF_SAMPLING_RES_THETA_H  90
 #define BRDF_SAMPLING_RES_THETA_D  90
@@ -455,7 +456,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        throw std::runtime_error("invalid MERL file");
 		}
 
     return result;
-- 
2.43.0


From d962fcde291d9eb26a12f250b5f57954a912c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 052/102] fix: data_grid: the value on and outside of the
 bounds of the grid reads inside of the grid

---
 sources/plugins/data_interpolants/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..2be48a0 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -230,7 +230,10 @@ class BrdfGrid : public vertical_segment {
 
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            // The last node belongs to the last cell, and points outside of the
+            // grid belong to the closest cell.
+            const double p = (_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]);
+            k[i] = (int)floor(clamp(p, 0.0, std::max(_size[i]-2.0, 0.0)));
          }
          return k;
       }
-- 
2.43.0


From 7fb13428e6fbb616c514b245d4cb65c82c832f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 053/102] fix: data_grid: size the data after the grid and its
 parametrization

---
 sources/plugins/data_interpolants/grid.cpp | 88 ++++++++++++----------
 1 file changed, 48 insertions(+), 40 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 2be48a0..701b252 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -152,63 +152,71 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
-      BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+      // The number of elements is the number of nodes of the grid.
+      BrdfGrid(size_t, const parameters& params, const arguments& args)
+        : vertical_segment(grid_parametrization(params, args),
+                           grid_elements(grid_sizes(params, args))),
+          _size(grid_sizes(params, args))
       {
-         initialize(args);
+         _min = get_min(parametrization().input_parametrization());
+         _max = get_max(parametrization().input_parametrization());
+
+         // Set the abscissa data
+         vec x = vec::Zero(parametrization().dimX() + parametrization().dimY());
+         for(int n=0; n<size(); ++n) {
+            get_abscissa(n, x);
+            set(n, x);
+         }
       }
 
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
-
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
+      // Allow to load a different parametrization depending on the
+      // parameters provided.
+      static parameters grid_parametrization(const parameters& params,
+                                             const arguments& args) {
 
+         params::input in_param = params.input_parametrization();
          if(args.is_defined("PARAM_IN")) {
             in_param = params::parse_input(args["PARAM_IN"]);
          } else if(args.is_defined("param")) {
             in_param = params::parse_input(args["param"]);
          }
-         nX = params::dimension(in_param);
+         if(in_param == params::UNKNOWN_INPUT) {
+            in_param = params::STARK_2D;
+         }
 
+         params::output out_param = params.output_parametrization();
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
          }
-         nY = params::dimension(out_param);
+         if(out_param == params::UNKNOWN_OUTPUT) {
+            out_param = params::RGB_COLOR;
+         }
 
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
+         return parameters(params::dimension(in_param),
+                           params::dimension(out_param),
+                           in_param, out_param);
+      }
 
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
-         }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
+      // Get the grid size, by default use an 10^dimX grid
+      static std::vector<int> grid_sizes(const parameters& params,
+                                         const arguments& args) {
+
+         const int nX = grid_parametrization(params, args).dimX();
+         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+            const std::vector<int> sizes = args.get_vec<int>("grid-size");
+            assert(sizes.size() == (size_t)nX);
+            return sizes;
          }
+         return std::vector<int>(nX, 10);
+      }
 
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
+      static int grid_elements(const std::vector<int>& sizes) {
+
+         int N = 1;
+         for(size_t i=0; i<sizes.size(); ++i) {
+            N *= sizes[i];
+         }
+         return N;
       }
 
       inline int get_index(const vec& x) const {
-- 
2.43.0


From 6010d979a36aa19520b881c60c4eed9653e3aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 054/102] fix: data_grid: refuse the parametrizations whose
 bounds are not known

---
 sources/plugins/data_interpolants/grid.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 701b252..a2255db 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <stdexcept>
 
 using namespace alta;
 
@@ -71,8 +72,9 @@ static vec get_min(const params::input& param) {
          break;
 
       default:
-         return res;
-         break;
+         std::cerr << "<<ERROR>> no grid for the parametrization "
+                   << params::get_name(param) << std::endl;
+         throw std::invalid_argument("data_grid: unsupported parametrization");
    }
    return res;
 }
@@ -127,8 +129,9 @@ static vec get_max(const params::input& param) {
          break;
 
       default:
-         return res;
-         break;
+         std::cerr << "<<ERROR>> no grid for the parametrization "
+                   << params::get_name(param) << std::endl;
+         throw std::invalid_argument("data_grid: unsupported parametrization");
    }
    return res;
 }
-- 
2.43.0


From 58e1b18933f2a446859a4cdbe10fc6a2832ea09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 055/102] fix: data_grid: load a saved grid

---
 sources/plugins/data_interpolants/grid.cpp | 28 ++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index a2255db..5851e3e 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -381,19 +381,17 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input,
 {
     arguments header = arguments::parse_header(input);
 
-#ifdef __GNUC__
-# warning FIXME we are not returning a "BrdfGrid"
-#endif
-    // We should probably rewrite this class as a transformation from 'data'
-    // to 'data'.
-
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
-
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
-
-    return load_data_from_text(input, header);
+    // The file holds the samples of all the nodes, in the order of the grid.
+    const std::unique_ptr<data> samples(load_data_from_text(input, header));
+    std::unique_ptr<BrdfGrid> result(new BrdfGrid(samples->size(),
+                                                  samples->parametrization(),
+                                                  header));
+    if(samples->size() != result->size()) {
+       throw std::runtime_error("data_grid: not the samples of a grid");
+    }
+    for(int i=0; i<result->size(); ++i) {
+       result->set(i, samples->get(i));
+    }
+
+    return result.release();
 }
-- 
2.43.0


From b9447f07953dd475bc5b45f03dee54a32ffe63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 056/102] fix: utia: save the binary values that load_data()
 reads

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..84815b7 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -144,7 +144,7 @@ public:
 			for(int isp=0;isp<planes;isp++)	{
 			  for(int ni=0;ni<nti*npi;ni++)
 			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
+			    	stream.write((const char*)&Bd[count++], sizeof(double));
 			    }
 			}
 		}
-- 
2.43.0


From 4a88fcb58562be238d403b46193e499d3c5a7737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 057/102] fix: utia: refuse the files that do not hold all the
 samples

---
 sources/plugins/data_io/utia.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 84815b7..9e53101 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -25,6 +25,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <stdexcept>
 
 #include "EXR_IO.h"
 
@@ -326,7 +327,16 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+    	if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+    		delete result;
+    		throw std::runtime_error("invalid EXR file");
+    	}
+    	if(W != result->npi*result->nti || H != result->npv*result->ntv) {
+    		std::cerr << "<<ERROR>> the EXR image does not have the size of a UTIA BRDF" << std::endl;
+    		delete[] temp;
+    		delete result;
+    		throw std::runtime_error("invalid UTIA file");
+    	}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -344,6 +354,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
 		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input.good()) {
+			std::cerr << "<<ERROR>> not enough data for a UTIA file" << std::endl;
+			delete result;
+			throw std::runtime_error("invalid UTIA file");
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From a246d0daa7da55fc1278f7195e3f5bd0bc350ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 058/102] fix: utia: samples that are not set are black

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 9e53101..1b4b3e1 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -104,7 +104,7 @@ public:
 		this->npv = NPV;
 		this->planes = 3;
 		this->nPerPlane = N_PER_PLANE;
-		this->Bd = new double[planes*nti*npi*ntv*npv];
+		this->Bd = new double[planes*nti*npi*ntv*npv]();
 
 		_min = vec(4);
 	    _min[0] = 0.0;
-- 
2.43.0


From c59ac7090107a589e3949bbb00b33de8323c6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 059/102] fix: utia: no read before the samples for negative
 elevations

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 1b4b3e1..d6c0935 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -205,7 +205,7 @@ public:
 
 
 		// Check is the angular configuration is above the hemisphere
-		if(theta_i > PI2 || theta_v > PI2) {
+		if(theta_i > PI2 || theta_v > PI2 || theta_i < 0.0 || theta_v < 0.0) {
 			RGB[0] = 0.0;
 			RGB[1] = 0.0;
 			RGB[2] = 0.0;
-- 
2.43.0


From 48d00417e25935199f929e8ce31776d28d42bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 060/102] fix: slice: refuse the files that are not EXR images

---
 sources/plugins/data_io/slice.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..e20c080 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -273,7 +273,9 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data)) {
+        throw std::runtime_error("invalid EXR file");
+    }
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
-- 
2.43.0


From 251291818f32cf89364ccf030429aa729e0b92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 061/102] fix: slice: the value outside of the domain is zero

---
 sources/plugins/data_io/slice.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index e20c080..8981a1e 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -173,10 +173,9 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
-					return res;
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					return vec::Zero(3);
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
-- 
2.43.0


From 659002f9feb7adc59435cfdd4371c8c50a791221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 062/102] fix: slice: the value on the upper bounds reads
 inside of the image

---
 sources/plugins/data_io/slice.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 8981a1e..1311e14 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -181,8 +181,9 @@ class BrdfSlice : public data {
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper bounds belong to the last pixels.
+			const int i  = std::min((int)floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width - 1);
+			const int j  = std::min((int)floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height - 1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From f7d2d84a7e3439b39712d63bce1b5e6d8d0fe571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 063/102] fix: slice: set the bounds that min() and max() of
 the data return

---
 sources/plugins/data_io/slice.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 1311e14..336cd61 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -74,7 +74,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
-- 
2.43.0


From cd97f9a31201b4cb49d0785e839f4a5e3d802009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 064/102] fix: EXR_IO: report that an image could not be saved

---
 sources/plugins/data_io/EXR_IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..73dd21f 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -177,7 +177,7 @@ class t_EXR_IO
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				return false;
 			}
 
 			free(header.channels);
-- 
2.43.0


From eb6002c1953855b7ad655ed78425ada71eb64d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 065/102] fix: EXR_IO: channels that are not in the file are
 black

---
 sources/plugins/data_io/EXR_IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 73dd21f..18020a3 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -97,7 +97,7 @@ class t_EXR_IO
 			/* Recopy the image into the provided pixel array */
 			W = _image.width;
 			H = _image.height;
-			pix = new FType[W*H*3];
+			pix = new FType[W*H*3]();
 			for(int k=0; k<_image.num_channels; ++k) {
 				for(int i=0; i<W*H; ++i) {
 					const FType val = (FType)(reinterpret_cast<float **>(_image.images)[k][i]);
-- 
2.43.0


From 1f7ad4a8554fa013e3aef7b7328f4102ef969cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 066/102] fix: a new slice held uninitialised pixels

---
 sources/plugins/data_io/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 336cd61..1115565 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -108,7 +108,7 @@ class BrdfSlice : public data {
 
 		BrdfSlice(const arguments& args)
         : BrdfSlice(args, 512, 512, 1,
-                    new double[3 * 512 * 512])
+                    new double[3 * 512 * 512]())
     {
     }
 
-- 
2.43.0


From 0833f2650028d5de159ef6cbea48f2416fa65f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 067/102] fix: ceres: derivatives of the logarithmic residuals

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..3ebd01f 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,7 +74,7 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
@@ -82,7 +82,7 @@ class CeresFunctor : public ceres::CostFunction
 
 		// The parameter of the function _f should be set prior to this function
 		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +95,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From b5563455813a9f34a0894014ddc5939d2f5170ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 068/102] fix: ceres: report the failures of the solver

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 3ebd01f..4cbe681 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -176,6 +176,12 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 #ifdef DEBUG
 	 std::cout << summary.BriefReport() << std::endl;
 #endif
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> the solver failed: " << summary.message << std::endl;
+		 return false;
+	 }
+
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
-- 
2.43.0


From cbe4d071c7e5fe92ed6e0aaf60b47e1f3a868b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 069/102] fix: ceres: the gradient and parameter tolerances
 changed the function tolerance

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 4cbe681..1af7e70 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -219,13 +219,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From 0860991ecdf422b2c47581b31f4891035451f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 070/102] fix: nlopt: the relative tolerance of the function
 changed the tolerance of the parameters

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..e7b1e45 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -258,9 +258,9 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	if( args.is_defined(FUNC_TOLERANCE) )
 	{
 			double const new_func_tol = args.get_double(FUNC_TOLERANCE,1e-4);			
-			res = nlopt_set_xtol_rel(opt, new_func_tol );		
+			res = nlopt_set_ftol_rel(opt, new_func_tol );		
 			
-			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_xtol_rel"); }
+			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_ftol_rel"); }
 	}
 
 	//Absolute Tolerance Function on a value
-- 
2.43.0


From d375ccc2b34df465036cfa13ef2d907adf2a7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 071/102] fix: quadprog: the vector left by a solver out of
 iterations was taken for a solution

---
 sources/plugins/rational_fitters/quadprog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index e1f4f1b..d1f3430 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -386,7 +386,9 @@ class rational_fitter_quadprog : public fitter
                Xf << std::setprecision(16) << x[k] << "\n";
          }
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         // The solver returns infinity when there is no solution, and max()
+         // when it stops before reaching one.
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          for(int i=0; i<np+nq; ++i)
          {
             const double v = x[i];
-- 
2.43.0


From 84bca897297928246952d0b4e118b71c253a2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 072/102] fix: quadprog_parallel: the vector left by a solver
 out of iterations was taken for a solution

---
 sources/plugins/rational_fitters/quadratic_program.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..db8645d 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -139,7 +139,9 @@ class quadratic_program
          // Compute the solution
          const double cost = QuadProgPP::solve_quadprog(G, g, CE, ce, CI, ci, v);
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         // The solver returns infinity when there is no solution, and max()
+         // when it stops before reaching one.
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          return solves_qp;
       }
 
-- 
2.43.0


From 3df79d2f074cc2e901156a4593d17efe3326732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 073/102] fix: quadprog_parallel: uninitialised linear term of
 the quadratic programs

---
 sources/plugins/rational_fitters/quadratic_program.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index db8645d..e2d91bc 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -117,6 +117,7 @@ class quadratic_program
          // Select the size of the result vector to
          // be equal to the dimension of p + q
          G.setIdentity();
+         g.setZero();
 
          // Each constraint (fitting interval or point
          // add another dimension to the constraint
-- 
2.43.0


From b8b6dfdc5193053631615599d37ff883cee1aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 074/102] fix: quadprog_parallel: overlapping samples in the
 conversion to vertical segments

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..7ba16d8 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -111,21 +111,22 @@ class rational_fitter_parallel : public fitter
                const vec x = dat->get(i);
 
                for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
+                  content[i*elem_size + k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
                      (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
                      (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content,
+                        std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From 1f45657b4e13a1c175c663f42bf63b7443f79a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 075/102] fix: quadprog_parallel: the --nb-starting-points
 option was ignored

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 7ba16d8..85cbd66 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -140,7 +140,7 @@ class rational_fitter_parallel : public fitter
          const int _max_np = args.get_int("np", _min_np);
          std::cout << "<<INFO>> N in  [" << _min_np << ", " << _max_np << "]"  << std::endl ;
 
-         const int nb_starting_points = args.get_int("nb-starting-points", 100);
+         nb_starting_points = args.get_int("nb-starting-points", 100);
          std::cout << "<<INFO>> number of data point used in start: " << nb_starting_points << std::endl;
 
          const int  step      = args.get_int("np-step", 1);
@@ -301,7 +301,7 @@ class rational_fitter_parallel : public fitter
 
          // Starting with only a nb_starting_points vertical segments
          std::list<unsigned int> training_set;
-         const int di = std::max((m-1) / (nb_starting_points-1), 1);
+         const int di = std::max((m-1) / std::max(nb_starting_points-1, 1), 1);
          for(int i=0; i<m; ++i)
          {
             if(i % di == 0)
-- 
2.43.0


From 8cdbbdd120ce46dcda51dd4566a762075fd8a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 076/102] fix: quadprog_parallel: the program with the
 constraints of all samples was never solved

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 85cbd66..835c854 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -349,7 +349,7 @@ class rational_fitter_parallel : public fitter
 #endif
                return false;
             }
-         } while(qp.nb_constraints() < 2*m);
+         } while(qp.nb_constraints() <= 2*m);
 
          return false;
       }
-- 
2.43.0


From 40ffcce1a3a00f745f86cf4be8a4649940b04877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 077/102] fix: QuadProg++: partial sorts starting after the
 first constraint ignored the last ones

---
 external/quadprog++/QuadProg++.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..85c0fd3 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -131,12 +131,11 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
   Index first, last ;
 
-  ncut--; // to fit the zero-based indices
+  ncut += start-1; // to fit the zero-based indices
   first = start;
-  last = n-1;
+  last = values.size()-1;
   if (ncut < first || ncut > last ) return;
 
   do {
-- 
2.43.0


From 8e6296c3c534f09a16b4e9a1255e0cdd2fb6c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 078/102] fix: QuadProg++: sliding windows of one constraint
 did not grow, the solver never returned

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 85c0fd3..f4b23be 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -342,7 +342,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
           // in this case, let's enlarge the current window size, and re-start sliding from the head,
           // until the window covers the entire set of constriants
           chunk_start = 0;
-          chunk_size = std::min(m,int(chunk_size*scheduling.grow_factor));
+          chunk_size = std::min(m,std::max(chunk_size+1,int(chunk_size*scheduling.grow_factor)));
           continue;
         }
         else
-- 
2.43.0


From c8d2819d30b21139d366f0978522a9861f1a179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 079/102] fix: QuadProg++: remove a global variable written by
 all the threads

---
 external/quadprog++/QuadProg++.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index f4b23be..bb5700b 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -159,8 +159,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   } while (mid != ncut );
 }
 
-VectorXd g_u;
-
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
                                  Ref<const MatrixXd> CI_, Ref<const VectorXd> ci0_,
@@ -583,8 +581,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return std::numeric_limits<double>::max();
   }
 
-  g_u = u;
-
   if(active_set)
     *active_set = A.head(iq);
 
-- 
2.43.0


From 2c4bf90eefa53114c88800b2e1be6b7cfd5aac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 080/102] fix: data2data: null dereference when the input
 plugin does not exist

---
 sources/softs/data2data/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..b667a83 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -359,7 +359,8 @@ int main(int argc, char** argv)
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl ;
+		return EXIT_FAILURE;
 	}
 
 
-- 
2.43.0


From de8b7c5973488d8628e1d26b6ce427cf6ef96e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 081/102] fix: data2data: samples below the surface were
 replaced by null samples

---
 sources/softs/data2data/main.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b667a83..cd3e449 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -140,7 +140,7 @@ static parameters compute_parameters(const data& d_in,
 // 'get' method of D_IN to grab its 'x' and 'y' values, and write those to
 // D_OUT.  When ALL_VALUES is true, disable filtering of values that are not
 // in the definition domain.
-static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
+static void convert_vertical_segment(ptr<data> d_in, ptr<data>& d_out,
                                      bool verbose = false,
                                      bool all_values = false)
 {
@@ -157,6 +157,9 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
     alta::timer save_timer;
     save_timer.start();
 
+    // A vertical segment only holds the samples that are kept
+    const bool compact = bool(dynamic_pointer_cast<vertical_segment>(d_out));
+    int nb_samples = 0;
     unsigned int nb_invalid_configs = 0;
     vec temp(d_out->parametrization().dimX() + d_out->parametrization().dimY());
     for(int i=0; i<d_in->size(); ++i)
@@ -185,7 +188,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                                 d_out->parametrization().dimY(),
                                 &temp[d_out->parametrization().dimX()]);
                 // SAVING THE INVALID CONFIGURATION
-                d_out->set(i, temp);
+                d_out->set(compact ? nb_samples++ : i, temp);
             }
 
         }
@@ -197,9 +200,16 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                             d_out->parametrization().output_parametrization(),
                             d_out->parametrization().dimY(),
                             &temp[d_out->parametrization().dimX()]);
-            d_out->set(i, temp);
+            d_out->set(compact ? nb_samples++ : i, temp);
         }
     }
+    if(compact && nb_samples < d_out->size())
+    {
+        ptr<data> kept(new vertical_segment(d_out->parametrization(), nb_samples));
+        for(int i=0; i<nb_samples; ++i)
+            kept->set(i, d_out->get(i));
+        d_out = kept;
+    }
     save_timer.stop();
 
     if( nb_invalid_configs > 0 )
@@ -276,7 +286,7 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 }
 
 // Convert D_IN to D_OUT according to ARGS.
-static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
+static void convert(ptr<data> d_in, ptr<data>& d_out, const arguments& args)
 {
 	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out,
-- 
2.43.0


From 0c6941d91a879388ed45f09ea713caef31099c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 082/102] fix: brdf2brdf: null dereference when the function
 cannot be loaded

---
 sources/softs/brdf2brdf/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..67af5c0 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,6 +63,12 @@ int main(int argc, char** argv)
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
 
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot open the function file" << std::endl ;
+        return 1 ;
+    }
+
     // Save it
     f->save(args["output"], args) ;
 
-- 
2.43.0


From d9a9abda927b4c9c48e40cde89dc153a0a20dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:41 +0000
Subject: [PATCH 083/102] fix: brdf2brdf: the exported file could not be
 loaded, it did not name the function plugins

---
 sources/softs/brdf2brdf/main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 67af5c0..ab137d2 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -69,8 +69,15 @@ int main(int argc, char** argv)
         return 1 ;
     }
 
+    // The options the function was created with are needed to load the
+    // exported file.
+    std::ifstream file(args["input"].c_str()) ;
+    std::string line ;
+    std::getline(file, line) ;
+    arguments header = arguments::parse_header(file) ;
+
     // Save it
-    f->save(args["output"], args) ;
+    f->save(args["output"], arguments::create_arguments(header["CMD"] + args.get_cmd())) ;
 
 	return 0 ;
 }
-- 
2.43.0


From d3c1de9bc02dbbd0a21a50138ebd58b3c03320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:36 +0000
Subject: [PATCH 084/102] fix: quadprog: first sets of constraints larger than
 the program were read out of bounds

---
 sources/plugins/rational_fitters/quadprog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index d1f3430..977ac9e 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -339,7 +339,7 @@ class rational_fitter_quadprog : public fitter
             scheduling.initWorstSetFirst(N,2*M);
          }
          if(_scheduling_chunk_size>0)
-            scheduling.initial_chunk_size = _scheduling_chunk_size;
+            scheduling.initial_chunk_size = std::min(_scheduling_chunk_size, 2*M);
 
          if(_export_qp)
          {
-- 
2.43.0


From 2ed50aef2546dac2f45d1dacafbc7c5f18102441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:42 +0000
Subject: [PATCH 085/102] fix: rational_fitter_eigen: exact fits were missed
 when rounding makes the smallest eigenvalue negative

---
 sources/plugins/rational_fitters/eigen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 2e2997f..8fba152 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -181,7 +181,7 @@ class rational_fitter_eigen : public fitter
 				for(int i=0; i<solver.eigenvalues().size(); ++i)
 				{
 					double value = solver.eigenvalues()[i] ;
-					if(value >= 0 && value < min_val)
+					if(value < min_val)
 					{
 						min_id  = i ;
 						min_val = value ;
-- 
2.43.0


From cbb07e5ef78721b53a0848fa7629b268667a1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 086/102] fix: --data-correct-cosine multiplied by the light
 cosine and divided by the other

The option is documented to divide by the product of the two cosines.
---
 sources/core/data_storage.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 113202a..397f6f0 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -41,18 +41,15 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 
     assert(v.size() == dimX + dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
+    // Correction of the data by 1/(cosine(theta_L) * cosine(theta_V))
     double factor = 1.0;
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
+        factor = cart[5]*cart[2];
         for(unsigned int i = 0; i < dimY; ++i)
         {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
             v(i + dimX) /= factor;
         }
         return true;
-- 
2.43.0


From 9eccc304d47be9ab64cb0cb65268c154614221ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 087/102] fix: --data-correct-cosine left the confidence
 intervals around the values of the file

---
 sources/core/data_storage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 397f6f0..64a33b4 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -39,7 +39,7 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + 3 * dimY);
 
     // Correction of the data by 1/(cosine(theta_L) * cosine(theta_V))
     double factor = 1.0;
@@ -48,7 +48,8 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
         factor = cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
+        // Values and bounds of their confidence intervals.
+        for(unsigned int i = 0; i < 3 * dimY; ++i)
         {
             v(i + dimX) /= factor;
         }
@@ -231,8 +232,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From da2f50a4b23b28dd37b0598ea7df78b7c4cfbd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 088/102] fix: loading data with --data-correct-cosine
 overwrote a file in /tmp

---
 sources/core/data_storage.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 64a33b4..8924710 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -254,9 +254,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
-
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
   return result;
-- 
2.43.0


From 09606f1df9fbee5175dc60b079757cdc77189951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:48 +0000
Subject: [PATCH 089/102] fix: brdf2stats: the errors weighted by both cosines
 were those weighted by one

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..1213030 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -667,8 +667,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From af448b8d911ad109b09398bef68494e0366a4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:48 +0000
Subject: [PATCH 090/102] fix: brdf2gnuplot: --cos-plot was ignored by polar
 plots

---
 sources/softs/brdf2gnuplot/main.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..5634e96 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -198,6 +198,13 @@ int main(int argc, char** argv)
                       f->parametrization().input_parametrization(), &x[0]);
 
 			vec y = f->value(x);
+			if(cos_plot)
+			{
+				double cart[6];
+				params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV,
+				                params::CARTESIAN, cart);
+				y *= cart[5]*cart[2];
+			}
 			file << -spherical[2] << "\t";
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
@@ -214,6 +221,13 @@ int main(int argc, char** argv)
                       f->parametrization().input_parametrization(), &x[0]);
 
 			vec y = f->value(x);
+			if(cos_plot)
+			{
+				double cart[6];
+				params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV,
+				                params::CARTESIAN, cart);
+				y *= cart[5]*cart[2];
+			}
 			file << spherical[2] << "\t";
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
-- 
2.43.0


From 6851a608ef274ce6cea051c2cb2120da2b559184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:48 +0000
Subject: [PATCH 091/102] fix: data2moments: dimensions that the data do not
 have were read out of bounds

---
 sources/softs/data2moments/main.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..aed8fb7 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -92,6 +92,27 @@ int main(int argc, char** argv)
 		return 1;
 	}
 
+	// The number of samples and the two dimensions must match the input space
+	if(d)
+	{
+		const int nX = d->parametrization().dimX();
+		if(args.is_defined("samples") && args.get_vec<int>("samples").size() != nX) {
+			std::cerr << "<<ERROR>> --samples requires one value per input dimension." << std::endl;
+			return 1;
+		}
+
+		std::vector<int> dim(2);
+		dim[0] = 0;
+		dim[1] = 1;
+		if(args.is_defined("dim")) {
+			dim = args.get_vec<int>("dim");
+		}
+		if(dim.size() != 2 || dim[0] < 0 || dim[0] >= nX || dim[1] < 0 || dim[1] >= nX) {
+			std::cerr << "<<ERROR>> --dim requires two dimensions of the input space." << std::endl;
+			return 1;
+		}
+	}
+
 	// Create output file
 	std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 
-- 
2.43.0


From 09037e459410965e85ac5806f15e7e4ce41813ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 092/102] fix: relative confidence intervals of negative values
 were upside down

---
 sources/core/data_storage.cpp                         | 11 +++++++----
 sources/core/vertical_segment.cpp                     |  5 +++--
 .../plugins/rational_fitters/quadprog_parallel.cpp    |  6 ++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 8924710..66f0b41 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -17,6 +17,7 @@
 #include <limits>
 #include <iomanip>
 #include <cassert>
+#include <cmath>
 
 #ifdef __GLIBC__
 # include <endian.h>
@@ -122,13 +123,15 @@ static void read_confidence_interval(std::istream& input,
 
         if(args.is_defined("dt-relative"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) * (1.0 + min_dt) ;
-            v(dimX + 2*dimY+i) = v(dimX + i) * (1.0 + max_dt) ;
+            // The interval extends on both sides of negative values too
+            const double sign = v(dimX + i) < 0.0 ? -1.0 : 1.0;
+            v(dimX +   dimY+i) = v(dimX + i) * (1.0 + sign * min_dt) ;
+            v(dimX + 2*dimY+i) = v(dimX + i) * (1.0 + sign * max_dt) ;
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
-            v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(std::abs(v(dimX + i)) * min_dt, min_dt);
+            v(dimX + 2*dimY+i) = v(dimX + i) + std::max(std::abs(v(dimX + i)) * max_dt, max_dt);
         }
         else
         {
diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 6a395a0..a040f0f 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -174,8 +174,9 @@ vec vertical_segment::vs(const vec& x) const {
          y[i + _parameters.dimX()+1*_parameters.dimY()] = val - _dt;
          y[i + _parameters.dimX()+2*_parameters.dimY()] = val + _dt;
       } else {
-         y[i + _parameters.dimX()+1*_parameters.dimY()] = val * (1.0 - _dt);
-         y[i + _parameters.dimX()+2*_parameters.dimY()] = val * (1.0 + _dt);
+         const double dt = val < 0.0 ? -_dt : _dt;
+         y[i + _parameters.dimX()+1*_parameters.dimY()] = val * (1.0 - dt);
+         y[i + _parameters.dimX()+2*_parameters.dimY()] = val * (1.0 + dt);
       }
    }
 
diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 835c854..e3ee320 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -114,12 +114,14 @@ class rational_fitter_parallel : public fitter
                   content[i*elem_size + k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
+                  const double y = x[k + dat->parametrization().dimX()];
                   content[i*elem_size + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
-                     (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+                     (y < 0.0 ? 1.0 + args.get_float("dt", 0.1) : 1.0 - args.get_float("dt", 0.1)) * y;
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
+                  const double y = x[k + dat->parametrization().dimX()];
                   content[i*elem_size + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
-                     (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+                     (y < 0.0 ? 1.0 - args.get_float("dt", 0.1) : 1.0 + args.get_float("dt", 0.1)) * y;
                }
             }
 
-- 
2.43.0


From 362da21d2efb19019e621ab55c8bc97ade9f6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:10 +0000
Subject: [PATCH 093/102] fix: the samples of RBF interpolants were
 uninitialised vectors

---
 sources/plugins/data_interpolants/rbf.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..e347852 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -127,8 +127,7 @@ class rbf_interpolant : public data
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id) ;
 		}
 		virtual vec operator[](int i) const
 		{
-- 
2.43.0


From 5960601eefa5e3947a93dd4031205aee2bfa968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:10 +0000
Subject: [PATCH 094/102] fix: saving RBF interpolants wrote nothing

---
 sources/plugins/data_interpolants/rbf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index e347852..9325f83 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -122,6 +122,7 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename);
 		}
 
 		// Acces to data
-- 
2.43.0


From e7e52e5f6aa3534b64d384eab582c76df6a2f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:21 +0000
Subject: [PATCH 095/102] fix: ASTM files without VARS read the last of no
 columns

---
 sources/plugins/data_io/astm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..b3c7686 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -21,6 +21,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <utility>
+#include <stdexcept>
 
 namespace alta {
 
@@ -145,6 +146,9 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
+    if (vars.empty()) {
+        throw std::runtime_error("ASTM header without VARS");
+    }
     auto params = compute_parameters(vars);
 
     // Check data size from header
-- 
2.43.0


From 79c55366130316aa9975ea998304e85443160639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:21 +0000
Subject: [PATCH 096/102] fix: truncated ASTM files were read forever, and
 samples released with delete

---
 sources/plugins/data_io/astm.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index b3c7686..3d3c874 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -157,14 +157,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-    double* data = new double[size * n];
+    std::shared_ptr<double> samples(new double[size * n], std::default_delete<double[]>());
+    double* data = samples.get();
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if (!std::getline(input, line)) {
+	        throw std::runtime_error("unexpected end of ASTM file");
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
@@ -177,7 +178,7 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, samples);
 }
 
 }
-- 
2.43.0


From 1fce3e26e14c31355b2079221f5cdf22787f3753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:53 +0000
Subject: [PATCH 097/102] fix: setting elements past the end of Python vectors
 was not an error

---
 sources/python/wrapper_vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4ef54e6..e0d2a69 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -24,7 +24,8 @@ namespace py = pybind11;
 
 /* Specific function call to set a vector's element
  */
-static void vec_set_item(vec& x, int i, double a) {
+static void vec_set_item(vec& x, unsigned int i, double a) {
+	if (i >= x.size()) throw py::index_error();
 	x[i] = a;
 }
 
-- 
2.43.0


From 27bc90cbfab5be60e018aff7cedb9a3653f50e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:53 +0000
Subject: [PATCH 098/102] fix: adding Python vectors of different sizes aborted

---
 sources/python/wrapper_vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index e0d2a69..3fae358 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -32,9 +32,11 @@ static void vec_set_item(vec& x, unsigned int i, double a) {
 /* Operators on vec
  */
 static vec vec_add(const vec& a, const vec& b) {
+   if (a.size() != b.size()) throw py::value_error("vectors of different sizes");
    return a + b;
 }
 static vec vec_sub(const vec& a, const vec& b) {
+   if (a.size() != b.size()) throw py::value_error("vectors of different sizes");
    return a - b;
 }
 
-- 
2.43.0


From 32765b1b88b1c3d8a4159924ab2ffcae8cda5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:53 +0000
Subject: [PATCH 099/102] fix: Python data objects could not be made with
 arguments

---
 sources/python/wrapper_data.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..112fcd3 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -19,6 +19,9 @@ namespace py = pybind11;
 #include <core/ptr.h>
 #include <core/data.h>
 
+// Local includes
+#include "wrapper_args.h"
+
 using namespace alta;
 
 /* Create a data object from a plugin's name and the data filename. This
@@ -33,7 +36,7 @@ static ptr<data> load_data(const std::string& plugin_name,
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
-- 
2.43.0


From 9c2c3b81c86d5aeceb95287cf24128d860fb1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:53 +0000
Subject: [PATCH 100/102] fix: Python functions could not be saved with
 arguments

---
 sources/python/alta.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..e10a197 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -190,6 +190,10 @@ static void save_function_without_args(const ptr<function>& f, const std::string
    arguments args;
    f->save(filename, args);
 }
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
 
 /* Fitter interface to allow to launch fit with and without providing an
  * arguments object.
@@ -314,7 +318,7 @@ inline void register_function(py::module& m) {
 		.def("value",    &function::value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
-- 
2.43.0


From 0a65e425885ed62a37819d8b7442e5a6103a3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:53 +0000
Subject: [PATCH 101/102] fix: reading samples past the end of Python data
 objects was not an error

---
 sources/python/wrapper_data.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index 112fcd3..e110af4 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -47,16 +47,31 @@ static ptr<data> get_data(const std::string& plugin_name, size_t size,
   return plugins_manager::get_data(plugin_name, size, params);
 }
 
+/* Access to the samples of a data object. Python relies on the IndexError to
+ * end iterations.
+ */
+static vec data_get_item(const data& d, unsigned int i)
+{
+  if (i >= (unsigned int)d.size()) throw py::index_error();
+  return d.get(i);
+}
+
+static void data_set_item(data& d, unsigned int i, const vec& x)
+{
+  if (i >= (unsigned int)d.size()) throw py::index_error();
+  d.set(i, x);
+}
+
 /* Register the `data` class to python
  */
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
-      .def("__getitem__", &data::get)
-      .def("__setitem__", &data::set)
+      .def("__getitem__", &data_get_item)
+      .def("__setitem__", &data_set_item)
       .def("__len__", &data::size)
       .def("size",  &data::size)
-      .def("get",   &data::get)
-      .def("set",   &data::set)
+      .def("get",   &data_get_item)
+      .def("set",   &data_set_item)
       .def("value", &data::value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
-- 
2.43.0


From def0817a7277fc401abcd219483793a8df58658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:53 +0000
Subject: [PATCH 102/102] fix: brdf2data read missing channels of functions out
 of bounds in Python

---
 sources/python/alta.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index e10a197..364489c 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -271,6 +271,11 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 		return;
 	}
 
+	if(d->parametrization().dimY() != f->parametrization().dimY()) {
+		std::cerr << "<<ERROR>> The data object and the function have different output dimensions." << std::endl;
+		return;
+	}
+
 	vec temp(f->parametrization().dimX());
 	for(int i=0; i<d->size(); ++i) {
 		// Copy the input vector
-- 
2.43.0

