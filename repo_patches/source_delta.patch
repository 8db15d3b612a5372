From 95721bfddbd55e7da192ccd886fa550640828933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 01/12] fix: return the normalized quaternion from
 quaternionFromAngleAndAxisRotation

---
 src/types/alquaternion.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..6895f79 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -146,8 +146,7 @@ namespace AL {
       qua.y = pAxisY*sin_a;
       qua.z = pAxisZ*sin_a;
 
-      qua.normalize();
-      return qua;
+      return qua.normalize();
     }
 
 
-- 
2.43.0


From ad7f2b5612cced4b1b32a76cc3c69d0ae687f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 02/12] fix: use the normalized quaternion in
 angleAndAxisRotationFromQuaternion

---
 src/types/alquaternion.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 6895f79..bc4da42 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -241,8 +241,7 @@ namespace AL {
       float& pAxisY,
       float& pAxisZ)
     {
-      Quaternion copy = pQuaternion;
-      copy.normalize();
+      const Quaternion copy = pQuaternion.normalize();
       pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
       float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
 
-- 
2.43.0


From c7625e6932ddb6f8a5ff3469306e01fcaea57070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 03/12] fix: PIDController::computeFeedback ignored the period
 it was given

---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From f221a56ed1d179e41909abafbc49d126beedc138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 04/12] fix: PIDController::initialize kept the parameters it
 rejected

---
 src/dsp/pidcontroller.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 21d6948..0024600 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -69,6 +69,14 @@ void PIDController::initialize(const float pKp,
                                const float pStaticOffset,
                                const float pPeriod)
 {
+  // check before assigning: rejected values must not be kept
+  xCheckPositif(pKp);
+  xCheckPositif(pKv);
+  xCheckPositif(pKi);
+  xCheckPositif(pThreshold);
+  xCheckPositif(pStaticOffset);
+  xCheckStriclyPositif(pPeriod);
+
   fKp = pKp;
   fKv = pKv;
   fKi = pKi;
@@ -76,7 +84,6 @@ void PIDController::initialize(const float pKp,
   fStaticOffset = pStaticOffset;
   fPeriod       = pPeriod;
 
-  xCheckData();
   xResetParameters();
 }
 
-- 
2.43.0


From 742598d185817e9b6d411efadc81aedb141cacb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 05/12] fix: transformLogarithm underestimated rotations
 smaller than 1e-3 rad

---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..7fe8ee4 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,7 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          coeff = 0.5f; // limit of angle/(2*sin(angle))
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From 5c51ff18b496fca48d6be07d5f17affc55256ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 06/12] fix: transformLogarithm left the rotation unset for
 half turns about non-principal axes

---
 src/tools/altransformhelpers.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 7fe8ee4..1e443b5 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -130,7 +130,24 @@ namespace AL {
           }
           else
           {
-            //std::cout << "transformLogarithmInPlace : co cas non traite" << std::endl;
+            // half turn about any other axis n: R + I = 2*n*n', so that the
+            // column with the largest diagonal term is along n
+            Position3D n(pH.r1_c1 + 1.0f, pH.r2_c1, pH.r3_c1);
+            if ((pH.r2_c2 >= pH.r1_c1) && (pH.r2_c2 >= pH.r3_c3))
+            {
+              n = Position3D(pH.r1_c2, pH.r2_c2 + 1.0f, pH.r3_c2);
+            }
+            else if (pH.r3_c3 >= pH.r1_c1)
+            {
+              n = Position3D(pH.r1_c3, pH.r2_c3, pH.r3_c3 + 1.0f);
+            }
+            const Position3D w = normalize(n)*angle;
+            const Position3D p(pH.r1_c4, pH.r2_c4, pH.r3_c4);
+            const Position3D wp = crossProduct(w, p);
+            lambda = 1.0f/(PI*PI);
+            const Position3D v = p - wp*0.5f + crossProduct(w, wp)*lambda;
+            pVOut = Velocity6D(v.x, v.y, v.z, w.x, w.y, w.z);
+            return;
           }
         }
         else
-- 
2.43.0


From c8f31182efff3f473c5303b3ab991329aca2e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 07/12] fix: modulo2PI returned -PI for -PI (documented range
 is ]-PI, PI])

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..0729b15 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From d5833dd0b9e25471820088e117dc96b64aa9875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 08/12] fix: orthogonalSpace returned a base skewed by up to
 1e-4 for axes close to z

---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 1e443b5..4649f31 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1119,7 +1119,7 @@ namespace AL {
       }
       else
       {
-        axis = AL::Math::Position3D(axis3.z, 0.0f, 0.0f);
+        axis = AL::Math::Position3D(axis3.z, 0.0f, -axis3.x);
       }
 
       axis1 = AL::Math::normalize(axis);
-- 
2.43.0


From a7849b6706e83dff0e7b41bac20ecca15711ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 09/12] fix: axisRotationProjection returned NaN when every
 angle about the axis is a solution

---
 src/tools/altransformhelpers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 4649f31..a96a0bb 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -847,7 +847,9 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos( c / std::sqrt( a*a + b*b ) );
+      const float ab2    = a*a + b*b;
+      // when a, b and c are all null, every angle is a solution
+      const float beta   = (ab2 > 0.0f) ? std::acos(c / std::sqrt(ab2)) : 0.0f;
 
       const float cos_1 = 1.0f - std::cos( alpha + beta );
       const float cos_2 = 1.0f - std::cos( alpha - beta );
@@ -950,7 +952,9 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos(c / std::sqrt(a*a + b*b));
+      const float ab2    = a*a + b*b;
+      // when a, b and c are all null, every angle is a solution
+      const float beta   = (ab2 > 0.0f) ? std::acos(c / std::sqrt(ab2)) : 0.0f;
 
       const float cos_1 = 1.0f - std::cos(alpha + beta);
       const float cos_2 = 1.0f - std::cos(alpha - beta);
-- 
2.43.0


From c26473d2b8670f0161e45552194ab905f4569fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 10/12] fix: give the default DigitalFilter room for one input
 sample

Its input weights are {1}, but the input history had no capacity: processFilter
read an element of an empty circular buffer.
---
 src/dsp/digitalfilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..8b5d95a 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -14,7 +14,8 @@ namespace DSP
 {
 
 DigitalFilter::DigitalFilter(void)
-  :fFilterDcGain(1.0f)
+  :fFilterBufferIn(1u)
+  ,fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
 {}
 
-- 
2.43.0


From ffeca144046054345a9473e45863b5aee9457a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 11/12] fix: rotate inertia tensors from their own frame to the
 target frame

The transpose was on the wrong side, so that the inertia of a tilted
inertial frame was rotated by the inverse rotation, both when reading an
urdf inertial and when compounding two bodies.
---
 almath/scenegraph/urdfeigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From 28119011a018928de609b71dcbb706591a57ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 12/12] fix: squashJointMass must not keep the child's inertial
 origin when the new one is null

When the parent link has no inertial, the child's is copied, and only the
non-null parts of its new origin are written. A null translation or rotation
left the child's own xyz or rpy in place.
---
 src/scenegraph/urdf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..d9f33c7 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -840,6 +840,7 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     // we can copy the child inertial as-is, except for the pose which
     // needs to get updated.
     new_inertial = child_inertial->pt;
+    new_inertial.erase("origin");
     new_inertial_pose = child_inertial_pose;
   } else {
     const EPose parent_inertial_pose =
-- 
2.43.0

