From 06e59347ea0c8b488b0767e50b1e4da790f1cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 01/16] fix: do not report a stale model when a robust
 estimator object is reused

---
 include/opengv/sac/implementation/Lmeds.hpp       | 4 ++++
 include/opengv/sac/implementation/MultiRansac.hpp | 1 +
 include/opengv/sac/implementation/Ransac.hpp      | 1 +
 3 files changed, 6 insertions(+)

diff --git a/include/opengv/sac/implementation/Lmeds.hpp b/include/opengv/sac/implementation/Lmeds.hpp
index 637b4b0..e9e7021 100644
--- a/include/opengv/sac/implementation/Lmeds.hpp
+++ b/include/opengv/sac/implementation/Lmeds.hpp
@@ -45,6 +45,10 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   // Warn and exit if no threshold was set
   if (threshold_ == std::numeric_limits<double>::max())
   {
diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e723c96..e91628e 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -49,6 +49,7 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  model_.clear();  // forget the result of a previous run
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index a01adc8..178c4e0 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -49,6 +49,7 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  model_.clear();  // forget the result of a previous run
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
-- 
2.43.0


From 2aa994675affefc4b6f1662494bd689564ee1768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 02/16] fix: Ransac and MultiRansac evaluate at most
 max_iterations_ hypotheses

---
 include/opengv/sac/implementation/MultiRansac.hpp | 2 +-
 include/opengv/sac/implementation/Ransac.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e91628e..3bc076c 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -128,7 +128,7 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index 178c4e0..58ed8e2 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -118,7 +118,7 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
-- 
2.43.0


From 24f922c80f39ddff4d62e8d6762ec0a814f78853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 03/16] fix: rot2quaternion must not return NaN for rotations
 with vanishing off-diagonal terms

---
 src/math/quaternion.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/math/quaternion.cpp b/src/math/quaternion.cpp
index 22d50db..4443a6b 100644
--- a/src/math/quaternion.cpp
+++ b/src/math/quaternion.cpp
@@ -49,6 +49,14 @@ opengv::math::quaternion2rot( const quaternion_t & q)
   return R;
 }
 
+//sign of a number (a vanishing off-diagonal term goes along with a vanishing
+//component of the quaternion, for which the sign does not matter)
+static double
+sign( double x )
+{
+  return (x < 0.0) ? -1.0 : 1.0;
+}
+
 opengv::quaternion_t
 opengv::math::rot2quaternion( const rotation_t & R )
 {
@@ -69,29 +77,29 @@ opengv::math::rot2quaternion( const rotation_t & R )
   if(q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3])
   {
     q[0] *= +1.0;
-    q[1] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
-    q[2] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[3] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
+    q[1] *= sign(R(2,1)-R(1,2));
+    q[2] *= sign(R(0,2)-R(2,0));
+    q[3] *= sign(R(1,0)-R(0,1));
   }
   else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])
   {
-    q[0] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
+    q[0] *= sign(R(2,1)-R(1,2));
     q[1] *= +1.0;
-    q[2] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
-    q[3] *= ((R(0,2)+R(2,0))/fabs(R(0,2)+R(2,0)));
+    q[2] *= sign(R(1,0)+R(0,1));
+    q[3] *= sign(R(0,2)+R(2,0));
   }
   else if(q[2] >= q[0] && q[2] >= q[1] && q[2] >= q[3])
   {
-    q[0] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[1] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
+    q[0] *= sign(R(0,2)-R(2,0));
+    q[1] *= sign(R(1,0)+R(0,1));
     q[2] *= +1.0;
-    q[3] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));
+    q[3] *= sign(R(2,1)+R(1,2));
   }
   else if(q[3] >= q[0] && q[3] >= q[1] && q[3] >= q[2])
   {
-    q[0] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
-    q[1] *= ((R(2,0)+R(0,2))/fabs(R(2,0)+R(0,2)));
-    q[2] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));  
+    q[0] *= sign(R(1,0)-R(0,1));
+    q[1] *= sign(R(2,0)+R(0,2));
+    q[2] *= sign(R(2,1)+R(1,2));  
     q[3] *= +1.0;
   }
   else
-- 
2.43.0


From 746aa57657117464f9106740a07f0979c327b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 04/16] fix: p2p must not lose the position when two baseline
 components tie and the third vanishes

---
 src/absolute_pose/methods.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index b1f0889..6ceb95b 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -73,7 +73,7 @@ opengv::absolute_pose::p2p(
   Eigen::Vector3d n1 = adapter.getPoint(index1) - adapter.getPoint(index0);
   n1 = n1/n1.norm();
   Eigen::Vector3d n3;
-  if( (fabs(n1[0]) > fabs(n1[1])) && (fabs(n1[0]) > fabs(n1[2])) )
+  if( (fabs(n1[0]) >= fabs(n1[1])) && (fabs(n1[0]) >= fabs(n1[2])) )
   {
     n3[1] = 1.0;
     n3[2] = 0.0;
@@ -81,7 +81,7 @@ opengv::absolute_pose::p2p(
   }
   else
   {
-    if( (fabs(n1[1]) > fabs(n1[0])) && (fabs(n1[1]) > fabs(n1[2])) )
+    if( (fabs(n1[1]) >= fabs(n1[0])) && (fabs(n1[1]) >= fabs(n1[2])) )
     {
       n3[2] = 1.0;
       n3[0] = 0.0;
-- 
2.43.0


From 8772436f7390852ebba5aaed0303dfafb3d510d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 05/16] fix: o3_roots returns the roots of cubics with
 vanishing theta_0 and of triple roots

The cube root argument 0.5*(theta_1+sqrt(term)) vanishes for theta_1<0 and
theta_0==0 (e.g. x^3-8), and all three values came out as NaN. Take the
solution of larger magnitude, and return the triple root if both vanish.
---
 src/math/roots.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index c31b27c..0cb012b 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -52,7 +52,12 @@ opengv::math::o3_roots( const std::vector<double> & p )
   
   if( term >= 0.0 )
   {
-    double C3 = 0.5 * (theta_1 + sqrt(term));
+    //use the solution of larger magnitude, it only vanishes for a triple root
+    double C3 = 0.5 *
+        ((theta_1 < 0.0) ? (theta_1 - sqrt(term)) : (theta_1 + sqrt(term)));
+    
+    if( C3 == 0.0 )
+      return std::vector<double>( 3, -b / (3.0 * a) );
     
     if( C3 < 0.0 )
       C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
-- 
2.43.0


From c0843aed43f93ad004c22edb9261817d03671678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 06/16] fix: o4_roots returns the roots of quartics whose
 resolvent root w vanishes

Dividing by w==0 made all four values NaN, e.g. for x^4-1 or x^4+5x^2+4.
The linear term vanishes then; solve the biquadratic directly.
---
 src/math/roots.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index 0cb012b..ba168a1 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -89,6 +89,22 @@ opengv::math::o3_roots( const std::vector<double> & p )
   return roots;
 }
 
+//real parts of the roots of (x-shift)^4 + alpha*(x-shift)^2 + gamma
+static std::vector<double>
+biquadraticRoots( double alpha, double gamma, double shift )
+{
+  std::complex<double> temp = sqrt(std::complex<double>(alpha*alpha/4-gamma,0));
+  std::complex<double> x1 = sqrt(-alpha/2+temp);
+  std::complex<double> x2 = sqrt(-alpha/2-temp);
+
+  std::vector<double> realRoots;
+  realRoots.push_back(shift+x1.real());
+  realRoots.push_back(shift+x2.real());
+  realRoots.push_back(shift-x2.real());
+  realRoots.push_back(shift-x1.real());
+  return realRoots;
+}
+
 std::vector<double>
 opengv::math::o4_roots( const Eigen::MatrixXd & p )
 {
@@ -126,6 +142,9 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
 
   std::complex<double> w = sqrt(alpha+2.0*y);
 
+  if (w == 0.0)
+    return biquadraticRoots(alpha,gamma,-B/(4.0*A));
+
   std::vector<double> realRoots;
   std::complex<double> temp;
   temp = -B/(4.0*A) + 0.5*(w+sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)));
@@ -177,6 +196,9 @@ opengv::math::o4_roots( const std::vector<double> & p )
 
   std::complex<double> w = sqrt(alpha+2.0*y);
 
+  if (w == 0.0)
+    return biquadraticRoots(alpha,gamma,-B/(4.0*A));
+
   std::vector<double> realRoots;
   std::complex<double> temp;
   temp = -B/(4.0*A) + 0.5*(w+sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)));
-- 
2.43.0


From ae0696ffa8e87042daae974c4f866c310acf19cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 07/16] fix: Sturm chain of polynomials whose remainder drops
 by more than one degree

The negated remainder divided by the vanishing leading coefficient (e.g. for
x^4-1), and the NaN entries lost the roots.
---
 src/math/Sturm.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 0cebf13..a0bdc7d 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -441,21 +441,28 @@ opengv::math::Sturm::computeNegatedRemainder(
     const Eigen::MatrixXd & p2,
     Eigen::MatrixXd & r )
 {
-  //we have to create 3 subtraction polynomials
-  Eigen::MatrixXd poly_1(1,p1.cols());
-  poly_1.block(0,0,1,p2.cols()) = (p1(0,0)/p2(0,0)) * p2;
-  poly_1(0,p1.cols()-1) = 0.0;
+  r = -p1;
 
-  Eigen::MatrixXd poly_2(1,p1.cols());
-  poly_2.block(0,1,1,p2.cols()) = (p1(0,1)/p2(0,0)) * p2;
-  poly_2(0,0) = 0.0;
+  //the degree may drop by more than one, so skip vanishing leading coefficients
+  int lead = 0;
+  while( lead < p2.cols() && p2(0,lead) == 0.0 )
+    lead++;
 
-  Eigen::MatrixXd poly_3(1,p1.cols());
-  poly_3.block(0,1,1,p2.cols()) = (-p2(0,1)*p1(0,0)/pow(p2(0,0),2)) * p2;
-  poly_3(0,0) = 0.0;
+  //the chain has already ended
+  if( lead == p2.cols() )
+  {
+    r.setZero();
+    return;
+  }
 
-  //compute remainder
-  r = -p1 + poly_1 + poly_2 + poly_3;
+  //polynomial division
+  for( int i = 0; i < lead + 2; i++ )
+  {
+    double factor = r(0,i) / p2(0,lead);
+    for( int j = lead; j < p2.cols(); j++ )
+      r(0,i+j-lead) -= factor * p2(0,j);
+    r(0,i) = 0.0;
+  }
 }
 
 double
-- 
2.43.0


From 19422b99ee08e2647529ecdc70ce6d826947e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 08/16] fix: Sturm root counting with a root on the bound of a
 bracket

A zero value at the bound was taken for a negative sign, and a root equal to
the initial bound fell out of the half-open bracket: x^2-4 had no roots.
---
 src/math/Sturm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index a0bdc7d..729a457 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -358,7 +358,7 @@ opengv::math::Sturm::evaluateChain( double bound )
     signs.block(i,0,1,1) = _C.block(i,i,1,_dimension-i) * monomials.block(i,0,_dimension-i,1);
   
   bool positive = false;
-  if( signs(0,0) > 0.0 )
+  if( signs(0,0) > 0.0 || (signs(0,0) == 0.0 && signs(1,0) > 0.0) )
     positive = true;
   
   int signChanges = 0;
@@ -407,7 +407,7 @@ opengv::math::Sturm::evaluateChain2( double bound )
   }
   
   bool positive = false;
-  if( signs[0] > 0.0 )
+  if( signs[0] > 0.0 || (signs[0] == 0.0 && signs[1] > 0.0) )
     positive = true;
   
   int signChanges = 0;
@@ -494,6 +494,7 @@ opengv::math::Sturm::computeLagrangianBound()
       max2 = coefficients[i];
   }
 
-  double bound = max1 + max2;
+  //a root may lie on the bound itself, but brackets exclude their lower bound
+  double bound = 1.001 * (max1 + max2);
   return bound;
 }
-- 
2.43.0


From e1a70aeee731cc40b5295af172f9a7bb244f97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 09/16] fix: multi-camera relative distances read the bearing
 vectors of the selected correspondences

The points were triangulated from the selected correspondences, but compared
with the bearing vectors at the position in the list.
---
 .../relative_pose/MultiCentralRelativePoseSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 25f446a..078ba2f 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -151,8 +151,10 @@ opengv::sac_problems::
       bearingVector_t reprojection2 = inverseSolution * p_hom;
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
-      bearingVector_t f1 = _adapter.getBearingVector1(pairIndex,correspondenceIndex);
-      bearingVector_t f2 = _adapter.getBearingVector2(pairIndex,correspondenceIndex);
+      bearingVector_t f1 = _adapter.getBearingVector1(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
+      bearingVector_t f2 = _adapter.getBearingVector2(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index cd9596e..12b5cdd 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -316,9 +316,11 @@ opengv::sac_problems::relative_pose::
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
       bearingVector_t f1 =
-          _adapter.getBearingVector1(camIndex,correspondenceIndex);
+          _adapter.getBearingVector1(
+          camIndex,indices[camIndex][correspondenceIndex]);
       bearingVector_t f2 =
-          _adapter.getBearingVector2(camIndex,correspondenceIndex);
+          _adapter.getBearingVector2(
+          camIndex,indices[camIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
-- 
2.43.0


From 183f4bf37c28d485e9bbfea1f8eb19d58710a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 10/16] fix: start camera of a multi-camera sample is out of
 range when rand() returns RAND_MAX

---
 .../absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp   | 2 +-
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 6f20e48..112eb0d 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -175,7 +175,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberFrames()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / ((double) RAND_MAX + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 12b5cdd..12e2a55 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -71,7 +71,7 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         std::vector<int> sindices;
         //set it to a random cam index where to start
         size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-            ((double) rand()) / ((double) RAND_MAX));
+            ((double) rand()) / ((double) RAND_MAX + 1.0));
         std::vector<int> tempIndices;
         for( int i = 0; i < (int) indices.size(); i++ )
           tempIndices.push_back(0);
@@ -381,7 +381,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / ((double) RAND_MAX + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
-- 
2.43.0


From fd4792120fde8b0cc52fee25be9e741be7da628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 11/16] fix: p3p_kneip loses all poses when a bearing vector is
 perpendicular to the frame axes

---
 src/absolute_pose/modules/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index ed0c271..181437e 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -179,9 +179,12 @@ opengv::absolute_pose::modules::p3p_kneip_main(
 
   for( int i = 0; i < 4; i++ )
   {
+    //f_2 vanishes if f3 lies in the plane spanned by e1 and e3, and f_1 as well
+    //if f3 is perpendicular to both f1 and f2
+    double k = (f_1 == 0 && f_2 == 0) ? 1.0 : f_2;
     double cot_alpha =
-        (-f_1*p_1/f_2-realRoots[i]*p_2+d_12*b)/
-        (-f_1*realRoots[i]*p_2/f_2+p_1-d_12);
+        (-f_1*p_1-k*(realRoots[i]*p_2-d_12*b))/
+        (-f_1*realRoots[i]*p_2+k*(p_1-d_12));
 
     double cos_theta = realRoots[i];
     double sin_theta = sqrt(1-pow(realRoots[i],2));
-- 
2.43.0


From a5eaffd2d8803a6db7f27314ab3f2ed3008d940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 12/16] fix: p3p_gao rejects well-posed configurations as
 coplanar

---
 src/absolute_pose/modules/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 181437e..87b7892 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -260,7 +260,7 @@ opengv::absolute_pose::modules::p3p_gao_main(
   double qSq = q*q;
   double rSq = r*r;
 
-  if ((pSq + qSq + rSq - p*q*r - 1) == 0)
+  if ((pSq + qSq + rSq - p*q*r - 4) == 0)
     return;
 
   Eigen::Matrix<double,5,1> factors;
-- 
2.43.0


From 29365ceea502dc369a5659225e405b93969b5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 13/16] fix: sixpt sample-consensus model takes the translation
 from the smallest eigenvalue's eigenvector

---
 .../MultiNoncentralRelativePoseSacProblem.cpp       | 13 +++++++++++--
 .../NoncentralRelativePoseSacProblem.cpp            | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 12e2a55..0589a5c 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -166,13 +166,22 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
           
           //decompose G to find the rotation
           Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
+          Eigen::Matrix<std::complex<double>,4,1> D = Eig.eigenvalues();
           Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          //the eigenvalues are not sorted: take the one of smallest magnitude
+          int minIndex = 0;
+          for( int k = 1; k < 4; k++ )
+          {
+            if( fabs(D[k].real()) < fabs(D[minIndex].real()) )
+              minIndex = k;
+          }
+
+          double factor = V(3,minIndex).real();
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,minIndex).real();
           transformations.push_back(transformation);
         }
         
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index df58181..287b196 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -114,13 +114,22 @@ opengv::sac_problems::
           
           //decompose G to find the rotation
           Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
+          Eigen::Matrix<std::complex<double>,4,1> D = Eig.eigenvalues();
           Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          //the eigenvalues are not sorted: take the one of smallest magnitude
+          int minIndex = 0;
+          for( int k = 1; k < 4; k++ )
+          {
+            if( fabs(D[k].real()) < fabs(D[minIndex].real()) )
+              minIndex = k;
+          }
+
+          double factor = V(3,minIndex).real();
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,minIndex).real();
           transformations.push_back(transformation);
         }
         
-- 
2.43.0


From cb79f404a5a6732d24e6c7603906229fb8f5e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 14/16] fix: gp3p: discard both members of a complex eigenvalue
 pair

---
 src/absolute_pose/modules/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 87b7892..5ff596c 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -400,7 +400,7 @@ opengv::absolute_pose::modules::gp3p_main(
   {
     std::complex<double> eigValue = D[c];
 
-    if( eigValue.imag() < 0.0001 )
+    if( fabs(eigValue.imag()) < 0.0001 )
     {
       cayley_t cayley;
       Eigen::Vector3d n;
-- 
2.43.0


From aa3340d988a0d25bfb5f6b1b6f29150ce3dbdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 15/16] fix: gpnp: use all four control points and the right
 factor for the null-space coefficients

---
 src/absolute_pose/modules/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 5ff596c..5692cd6 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -453,9 +453,9 @@ opengv::absolute_pose::modules::gpnp_main(
   Eigen::Matrix<double,12,1> vec_1 = V.col(11);
 
   point_t c0 = c[0];
-  point_t c1 = c[0];
-  point_t c2 = c[0];
-  point_t c3 = c[0];
+  point_t c1 = c[1];
+  point_t c2 = c[2];
+  point_t c3 = c[3];
 
   Eigen::Matrix<double,12,1> solution;
   std::vector<double> errors;
@@ -564,7 +564,7 @@ opengv::absolute_pose::modules::gpnp_main(
       groebnerMatrix5(39,78)*factors[0]+groebnerMatrix5(39,79))/
       groebnerMatrix5(39,75);
   factors.push_back(
-      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[1]+
+      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[2]+
       groebnerMatrix5(38,77)*factors[1]+groebnerMatrix5(38,78)*factors[0]+
       groebnerMatrix5(38,79))/groebnerMatrix5(38,74));
   gpnp_optimize( a, V, c, factors );
-- 
2.43.0


From e19a59879017f7583e6bff0925d6e2bf024f43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 16/16] fix: upnp: use the symmetric solver from four points on
 (the general template holds for three only)

---
 src/absolute_pose/methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index 6ceb95b..7c4396a 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -535,7 +535,7 @@ transformations_t upnp(
   
   //now do the main computation
   std::vector<std::pair<double,Eigen::Vector4d>,Eigen::aligned_allocator< std::pair<double,Eigen::Vector4d> > > quaternions1;
-  if( indices.size() > 4 )
+  if( indices.size() > 3 )
     modules::upnp_main_sym( M, C, gamma, quaternions1 );
   else
     modules::upnp_main( M, C, gamma, quaternions1 );
-- 
2.43.0

