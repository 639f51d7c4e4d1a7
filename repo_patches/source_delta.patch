From 509ed2a71412c8cdf3506c17321490a30e4e37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 01/59] fix: projectPoint scales points behind the camera by
 their depth too

The absolute value was taken of the comparison instead of the coordinate, so the
Eigen overload did not divide points with negative z and disagreed with the
pointer overload.
---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..b6b6b67 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z()) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From dd1b717a2c4713d8803eb8eb20efae729e75c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 02/59] fix: PnP solves guesses without rotation

The angle-axis norm is not differentiable at zero, so a guess without rotation
(the default of the virtual target comparison) gave a NaN Jacobian, no solution,
and an abort inside the covariance computation. Use transformPoint, whose
derivatives exist there.
---
 .../src/rct_optimizations/pnp.cpp             | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..ac54d1d 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
-    // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Transform points into camera coordinates (differentiable also at zero rotation)
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +55,13 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
-    // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Transform points into camera coordinates (differentiable also at zero rotation)
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From 140ed7020358aec3609001296399e479669c7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 03/59] fix: label pose covariances in the order the pose is
 stored

Pose6d holds rx, ry, rz, x, y, z, but the labels of the pose parameters were
listed translation first, so every rotation value was reported under a
translation name and vice versa.
---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 .../rct_optimizations/extrinsic_multi_static_camera_only.h    | 2 +-
 .../extrinsic_multi_static_camera_wrist_only.h                | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
index b369a08..f94922d 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
@@ -49,7 +49,7 @@ struct ExtrinsicMultiStaticCameraOnlyProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_base_to_target = "base_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
index 8b9de11..00c0ebd 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
@@ -50,7 +50,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem
    */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 7cb6d7982886c316835abb926a6c4643e019902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 04/59] fix: refuse covariance of blocks outside the problem
 instead of aborting

A pose without any observation never enters the Ceres problem; asking Ceres for
its size is a fatal check failure that ends the process (e.g. target pose
estimation from an empty image).
---
 .../src/rct_optimizations/covariance_analysis.cpp           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..5d24baf 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -110,6 +110,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::map<const double*, std::vector<std::string>> dummy_param_names;
   for (std::size_t block_index = 0; block_index < parameter_blocks.size(); block_index++)
   {
+    if (!problem.HasParameterBlock(parameter_blocks[block_index]))
+      throw CovarianceException("Covariance requested for a parameter block that is not part of the problem");
+
     int size = problem.ParameterBlockSize(parameter_blocks[block_index]);
     std::vector<std::string> block_names;
     for (int i = 0; i < size; i++)
@@ -153,6 +156,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
+    if (!problem.HasParameterBlock(b))
+      throw CovarianceException("Covariance requested for a parameter block that is not part of the problem");
+
     int block_size = problem.ParameterBlockSize(b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
-- 
2.43.0


From aad624b4b70cd2d9bc98110e86941ecef9045ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 05/59] fix: intrinsic calibration leaves images without a pose
 out of the covariance

Their poses are not part of the optimization problem, so asking for their
covariance ended the process.
---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..9ba570f 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -235,7 +235,8 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  // Images whose pose could not be estimated are not part of the problem
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
-- 
2.43.0


From 5ee5d691b065c8a6c8a8c52a980e280e4e4596e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 06/59] fix: refuse covariance of problems that cannot be
 evaluated instead of aborting

With a NaN feature or pose, Ceres decomposes an empty Jacobian and ends the
process on an assertion.
---
 .../src/rct_optimizations/covariance_analysis.cpp           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 5d24baf..7bbec88 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -188,6 +188,12 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   }
 
   // 1. Compute covariance matrix
+  // Ceres does not check that the Jacobian it decomposes could be evaluated (e.g. for non-finite data)
+  double cost = 0.0;
+  std::vector<double> gradient;
+  if (!problem.Evaluate(ceres::Problem::EvaluateOptions(), &cost, nullptr, &gradient, nullptr))
+    throw CovarianceException("Could not evaluate the problem in computeCovariance()");
+
   ceres::Covariance covariance(options);
 
   if (!covariance.Compute(parameter_blocks, &problem))
-- 
2.43.0


From ffc4ad1c4445a7b35c3b453179829037b2aec99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 07/59] fix: intrinsic calibration leaves out images with fewer
 than three features

One or two features do not determine a pose, but the PnP sub-problem reports
convergence for them, and the undetermined pose then made the covariance of the
whole calibration fail.
---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 9ba570f..eee2257 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -116,6 +116,10 @@ static rct_optimizations::Pose6d solvePnP(const rct_optimizations::CameraIntrins
 {
   using namespace rct_optimizations;
 
+  // A pose has six degrees of freedom and each feature fixes two
+  if (obs.size() < 3)
+    throw std::runtime_error("too few features to solve PnP sub-problem");
+
   PnPProblem problem;
   problem.camera_to_target_guess = poseCalToEigen(guess);
   problem.intr = intr;
-- 
2.43.0


From 454de04c9ecdc2ae2ad0a954f7a9a419c05ebfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 08/59] fix: refuse negative mask indices

---
 .../include/rct_optimizations/local_parameterization.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/local_parameterization.h b/rct_optimizations/include/rct_optimizations/local_parameterization.h
index b907048..6875c88 100644
--- a/rct_optimizations/include/rct_optimizations/local_parameterization.h
+++ b/rct_optimizations/include/rct_optimizations/local_parameterization.h
@@ -109,6 +109,14 @@ void addSubsetParameterization(ceres::Problem& problem, const std::map<const dou
         auto last = std::unique(mask.begin(), mask.end());
         mask.erase(last, mask.end());
 
+        // Check that the indices are not negative
+        if (mask.front() < 0)
+        {
+          std::stringstream ss;
+          ss << "Mask indices cannot be negative (" << mask.front() << ")";
+          throw OptimizationException(ss.str());
+        }
+
         // Check that the max index is not greater than the number of elements in the block
         auto it = std::max_element(mask.begin(), mask.end());
         if (static_cast<std::size_t>(*it) >= block_size)
-- 
2.43.0


From 551bffb8cafbded1f8de6fda62ec995a2c5f0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 09/59] fix: kinematic calibration adjusts transforms guessed
 without rotation

---
 .../rct_optimizations/dh_chain_kinematic_calibration.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..5415b4b 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -151,15 +151,13 @@ public:
   static Isometry3<T> createTransform(T const* const* params, const std::size_t idx)
   {
     Eigen::Map<const Vector3<T>> t(params[idx]);
-    Eigen::Map<const Vector3<T>> aa(params[idx + 1]);
 
     Isometry3<T> result = Isometry3<T>::Identity() * Eigen::Translation<T, 3>(t);
 
-    T aa_norm = aa.norm();
-    if (aa_norm > std::numeric_limits<T>::epsilon())
-    {
-      result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
-    }
+    // Use the Ceres conversion because it has valid derivatives at zero rotation
+    Eigen::Matrix<T, 3, 3> rotation;
+    ceres::AngleAxisToRotationMatrix(params[idx + 1], rotation.data());
+    result.linear() = rotation;
     return result;
   }
 
-- 
2.43.0


From 4f62eb03e6f918aae758a292992717ae8eff6fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 10/59] fix: covariance of extrinsic calibrations is that of
 the labelled transforms

The hand-eye and moving-target solvers optimized the inverse of the camera
transform but labelled its covariance with the name of the transform itself.
---
 .../rct_optimizations/ceres_math_utilities.h  | 10 +++++
 .../rct_optimizations/extrinsic_hand_eye.cpp  | 42 +++++++++----------
 .../extrinsic_multi_static_camera.cpp         | 28 ++++++-------
 3 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index b6b6b67..75c43ed 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -16,6 +16,16 @@ inline void transformPoint(const T angle_axis[3], const T tx[3], const T point[3
   t_point[2] = t_point[2] + tx[2];
 }
 
+/** @brief Transforms a point by the inverse of the given pose */
+template <typename T>
+inline void inverseTransformPoint(const T angle_axis[3], const T tx[3], const T point[3], T t_point[3])
+{
+  const T inverse_angle_axis[3] = { -angle_axis[0], -angle_axis[1], -angle_axis[2] };
+  const T diff[3] = { point[0] - tx[0], point[1] - tx[1], point[2] - tx[2] };
+
+  ceres::AngleAxisRotatePoint(inverse_angle_axis, diff, t_point);
+}
+
 template <typename T>
 inline void poseTransformPoint(const Pose6d& pose, const T point[3], T t_point[3])
 {
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
index d6b418c..c6e1c4e 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
@@ -36,15 +36,15 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const;
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const;
 
   template <typename T>
-  void getTargetPointInCamera(const T* pose_camera_to_camera_mount,
+  void getTargetPointInCamera(const T* pose_camera_mount_to_camera,
                               const T* pose_target_mount_to_target,
                               T* camera_point) const
   {
-    const T* camera_angle_axis = pose_camera_to_camera_mount + 0;
-    const T* camera_position = pose_camera_to_camera_mount + 3;
+    const T* camera_angle_axis = pose_camera_mount_to_camera + 0;
+    const T* camera_position = pose_camera_mount_to_camera + 3;
 
     const T* target_angle_axis = pose_target_mount_to_target + 0;
     const T* target_position = pose_target_mount_to_target + 3;
@@ -61,7 +61,7 @@ public:
     transformPoint(target_angle_axis, target_position, target_pt, target_mount_point);
     poseTransformPoint(base_to_target_mount_, target_mount_point, world_point);
     poseTransformPoint(camera_mount_to_base_, world_point, camera_mount_point);
-    transformPoint(camera_angle_axis, camera_position, camera_mount_point, camera_point);
+    inverseTransformPoint(camera_angle_axis, camera_position, camera_mount_point, camera_point);
   }
 
 protected:
@@ -87,11 +87,11 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const
   {
     // Get the point in the frame of the camera
     T camera_point[3];
-    getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+    getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
     // Project the point into the image
     T xy_image[2];
@@ -117,11 +117,11 @@ public:
   using ObservationCost<3>::ObservationCost;
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const
   {
     // Get the target point in the frame of the camera
     T camera_point[3];
-    getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+    getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
     // Calculate the residual error
     residual[0] = camera_point[0] - obs_.x();
@@ -132,15 +132,15 @@ public:
   }
 };
 
-bool isPointVisible(const Pose6d& camera_to_camera_mount,
+bool isPointVisible(const Pose6d& camera_mount_to_camera,
                     const Pose6d& target_mount_to_target,
                     const ObservationCost2D3D* cost_fn)
 {
-  const double* pose_camera_to_camera_mount = camera_to_camera_mount.values.data();
+  const double* pose_camera_mount_to_camera = camera_mount_to_camera.values.data();
   const double* pose_target_mount_to_target = target_mount_to_target.values.data();
 
   double camera_point[3];
-  cost_fn->getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+  cost_fn->getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
   // Return whether or not the projected point's Z value is greater than zero
   return camera_point[2] > 0.0;
@@ -153,7 +153,7 @@ namespace rct_optimizations
 ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 {
   Pose6d internal_base_to_target = poseEigenToCal(params.target_mount_to_target_guess);
-  Pose6d internal_camera_to_wrist = poseEigenToCal(params.camera_mount_to_camera_guess.inverse());
+  Pose6d internal_camera_mount_to_camera = poseEigenToCal(params.camera_mount_to_camera_guess);
 
   ceres::Problem problem;
 
@@ -175,7 +175,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 
       // Check that the target feature in camera coordinates is visible by the camera
       // Target features that project behind the camera tend to prevent the optimization from converging
-      if (!isPointVisible(internal_camera_to_wrist, internal_base_to_target, cost_fn))
+      if (!isPointVisible(internal_camera_mount_to_camera, internal_base_to_target, cost_fn))
       {
         throw std::runtime_error("Projected target feature lies behind the image plane using the "
                                  "current target mount and camera mount transform guesses. Try updating the initial "
@@ -183,7 +183,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
       }
 
       problem.AddResidualBlock(
-          cost_block, NULL, internal_camera_to_wrist.values.data(), internal_base_to_target.values.data());
+          cost_block, NULL, internal_camera_mount_to_camera.values.data(), internal_base_to_target.values.data());
     }
   }
 
@@ -196,7 +196,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
   ExtrinsicHandEyeResult result;
   result.converged = summary.termination_type == ceres::CONVERGENCE;
   result.target_mount_to_target = poseCalToEigen(internal_base_to_target);
-  result.camera_mount_to_camera = poseCalToEigen(internal_camera_to_wrist).inverse();
+  result.camera_mount_to_camera = poseCalToEigen(internal_camera_mount_to_camera);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
@@ -215,7 +215,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
   }
 
   std::map<const double*, std::vector<std::string>> param_labels;
-  param_labels[internal_camera_to_wrist.values.data()] = labels_camera_mount_to_camera;
+  param_labels[internal_camera_mount_to_camera.values.data()] = labels_camera_mount_to_camera;
   param_labels[internal_base_to_target.values.data()] = labels_target_mount_to_target;
 
   result.covariance = rct_optimizations::computeCovariance(problem, param_labels);
@@ -226,7 +226,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
 {
   Pose6d internal_base_to_target = poseEigenToCal(params.target_mount_to_target_guess);
-  Pose6d internal_camera_to_wrist = poseEigenToCal(params.camera_mount_to_camera_guess.inverse());
+  Pose6d internal_camera_mount_to_camera = poseEigenToCal(params.camera_mount_to_camera_guess);
 
   ceres::Problem problem;
 
@@ -246,7 +246,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
       auto* cost_block = new ceres::AutoDiffCostFunction<ObservationCost3D3D, 3, 6, 6>(cost_fn);
 
       problem.AddResidualBlock(
-          cost_block, NULL, internal_camera_to_wrist.values.data(), internal_base_to_target.values.data());
+          cost_block, NULL, internal_camera_mount_to_camera.values.data(), internal_base_to_target.values.data());
     }
   }
 
@@ -258,7 +258,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
   ExtrinsicHandEyeResult result;
   result.converged = summary.termination_type == ceres::CONVERGENCE;
   result.target_mount_to_target = poseCalToEigen(internal_base_to_target);
-  result.camera_mount_to_camera = poseCalToEigen(internal_camera_to_wrist).inverse();
+  result.camera_mount_to_camera = poseCalToEigen(internal_camera_mount_to_camera);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
@@ -277,7 +277,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
   }
 
   std::map<const double*, std::vector<std::string>> param_labels;
-  param_labels[internal_camera_to_wrist.values.data()] = labels_camera_mount_to_camera;
+  param_labels[internal_camera_mount_to_camera.values.data()] = labels_camera_mount_to_camera;
   param_labels[internal_base_to_target.values.data()] = labels_target_mount_to_target;
 
   result.covariance = rct_optimizations::computeCovariance(problem, param_labels);
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
index fe1d98d..eff79cf 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
@@ -23,10 +23,10 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* const pose_camera_to_base, const T* pose_wrist_to_target, T* residual) const
+  bool operator()(const T* const pose_base_to_camera, const T* pose_wrist_to_target, T* residual) const
   {
-    const T* camera_angle_axis = pose_camera_to_base + 0;
-    const T* camera_position = pose_camera_to_base + 3;
+    const T* camera_angle_axis = pose_base_to_camera + 0;
+    const T* camera_position = pose_base_to_camera + 3;
 
     const T* target_angle_axis = pose_wrist_to_target + 0;
     const T* target_position = pose_wrist_to_target + 3;
@@ -43,7 +43,7 @@ public:
 
     transformPoint(target_angle_axis, target_position, target_pt, link_point);
     poseTransformPoint(wrist_pose_, link_point, world_point);
-    transformPoint(camera_angle_axis, camera_position, world_point, camera_point);
+    inverseTransformPoint(camera_angle_axis, camera_position, world_point, camera_point);
 
     // Compute projected point into image plane and compute residual
     T xy_image[2];
@@ -69,15 +69,15 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
 {
   Pose6d internal_wrist_to_target = poseEigenToCal(params.wrist_to_target_guess);
 
-  std::vector<Pose6d> internal_camera_to_base;
-  internal_camera_to_base.resize(params.base_to_camera_guess.size());
+  std::vector<Pose6d> internal_base_to_camera;
+  internal_base_to_camera.resize(params.base_to_camera_guess.size());
 
   ceres::Problem problem;
 
   for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
   {
     assert(params.image_observations[c].size() == params.wrist_poses[c].size());
-    internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());
+    internal_base_to_camera[c] = poseEigenToCal(params.base_to_camera_guess[c]);
     for (std::size_t i = 0; i < params.wrist_poses[c].size(); ++i)  // For each wrist pose / image set
     {
       for (std::size_t j = 0; j < params.image_observations[c][i].size();
@@ -96,7 +96,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
         auto* cost_block = new ceres::AutoDiffCostFunction<ReprojectionCost, 2, 6, 6>(cost_fn);
 
         problem.AddResidualBlock(
-            cost_block, NULL, internal_camera_to_base[c].values.data(), internal_wrist_to_target.values.data());
+            cost_block, NULL, internal_base_to_camera[c].values.data(), internal_wrist_to_target.values.data());
       }
     }  // for each wrist pose
   }    // end for each camera
@@ -111,24 +111,24 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
   result.converged = summary.termination_type == ceres::CONVERGENCE;
 
   for (std::size_t i = 0; i < params.base_to_camera_guess.size(); ++i)
-    result.base_to_camera[i] = poseCalToEigen(internal_camera_to_base[i]).inverse();
+    result.base_to_camera[i] = poseCalToEigen(internal_base_to_camera[i]);
 
   result.wrist_to_target = poseCalToEigen(internal_wrist_to_target);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
   // collect parameter blocks so that order is consistent with labels
-  std::vector<const double*> param_blocks(internal_camera_to_base.size());
-  for (std::size_t c = 0; c < internal_camera_to_base.size(); c++)
+  std::vector<const double*> param_blocks(internal_base_to_camera.size());
+  for (std::size_t c = 0; c < internal_base_to_camera.size(); c++)
   {
-    param_blocks[c] = internal_camera_to_base[c].values.data();
+    param_blocks[c] = internal_base_to_camera[c].values.data();
   }
   param_blocks.push_back(internal_wrist_to_target.values.data());
 
   std::map<const double*, std::vector<std::string>> param_labels;
 
   // compose labels "camera_mount_to_camera_x", etc.
-  for (std::size_t index_camera = 0; index_camera < internal_camera_to_base.size(); index_camera++)
+  for (std::size_t index_camera = 0; index_camera < internal_base_to_camera.size(); index_camera++)
   {
     std::vector<std::string> labels_base_to_camera;
     for (auto label_isometry : params.labels_isometry3d)
@@ -136,7 +136,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
       labels_base_to_camera.emplace_back(params.label_base_to_camera + std::to_string(index_camera) + "_" +
                                          label_isometry);
     }
-    param_labels[internal_camera_to_base[index_camera].values.data()] = labels_base_to_camera;
+    param_labels[internal_base_to_camera[index_camera].values.data()] = labels_base_to_camera;
   }
 
   // compose labels "target_mount_to_target_x", etc.
-- 
2.43.0


From 92295dce193fff80d6c7a3988e4b1947b834f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 11/59] fix: standard deviation of parameters without variance
 is zero

Dividing by one instead of zero for the correlations of a row also replaced
the standard deviation on the diagonal that follows it.
---
 .../src/rct_optimizations/covariance_analysis.cpp         | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 7bbec88..23b4f40 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -24,12 +24,10 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
-        if (sigma_j < std::numeric_limits<double>::epsilon())
-          sigma_j = 1;
+        const double scale_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
+        const double scale_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (scale_i * scale_j);
       }
     }
   }
-- 
2.43.0


From 79c7c512289b46fab59c70e2e4a0e225637d179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 12/59] fix: refuse covariance results with the wrong number of
 names instead of reading past them

---
 .../src/rct_optimizations/covariance_analysis.cpp              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 23b4f40..b0ff839 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -38,6 +38,9 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
 CovarianceResult computeCovarianceResults(const Eigen::MatrixXd& cov_matrix,
                                           const std::vector<std::string>& parameter_names)
 {
+  if (static_cast<Eigen::Index>(parameter_names.size()) != cov_matrix.rows())
+    throw CovarianceException("Number of parameter names does not match the size of the covariance matrix");
+
   // 0. Save original covariance matrix output
   // For parameter blocks [p1, p2], the structure of this matrix will be:
   /*    |     p1    |     p2    |
-- 
2.43.0


From 053d1eb06a9e3d6c7949e5efa5f64f686d1c5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 13/59] fix: circle fit reports the covariance of the radius,
 not of its square root

---
 rct_optimizations/src/rct_optimizations/circle_fit.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/circle_fit.cpp b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
index 706afe6..7a0b69d 100644
--- a/rct_optimizations/src/rct_optimizations/circle_fit.cpp
+++ b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
@@ -46,7 +46,13 @@ rct_optimizations::CircleFitResult rct_optimizations::optimize(const rct_optimiz
   result.radius = pow(circle_params[2], 2);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
-  result.covariance = rct_optimizations::computeCovariance(problem, param_block_labels);
+
+  // The last optimized parameter is the square root of the radius: propagate its covariance to the radius itself
+  Eigen::MatrixXd covariance = rct_optimizations::computeCovariance(problem, param_block_labels).covariance_matrix;
+  const double dr = 2.0 * circle_params[2];
+  covariance.row(2) *= dr;
+  covariance.col(2) *= dr;
+  result.covariance = rct_optimizations::computeCovarianceResults(covariance, params.labels);
 
   return result;
 }
-- 
2.43.0


From f9b9a3490f5a8ba0c3f04d9b846c298b6dd65161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 14/59] fix: chain made from another chain and offsets keeps
 joint names, limits and seeds

---
 .../src/rct_optimizations/dh_chain.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..dfe21f6 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -52,15 +52,20 @@ DHChain::DHChain(std::vector<DHTransform> transforms, const Eigen::Isometry3d& b
 }
 
 DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
+  : transforms_(other.transforms_), base_offset_(other.base_offset_)
 {
-  transforms_.reserve(other.transforms_.size());
-  for (std::size_t i = 0; i < other.transforms_.size(); ++i)
+  if (dh_offsets.rows() < static_cast<Eigen::Index>(transforms_.size()))
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    std::stringstream ss;
+    ss << "DH offsets have fewer rows (" << dh_offsets.rows() << ") than the chain has transforms ("
+       << transforms_.size() << ")";
+    throw std::runtime_error(ss.str());
   }
 
-  base_offset_ = other.base_offset_;
+  for (std::size_t i = 0; i < transforms_.size(); ++i)
+  {
+    transforms_[i].params += dh_offsets.row(i).transpose();
+  }
 }
 
 Eigen::VectorXd DHChain::createUniformlyRandomPose() const
-- 
2.43.0


From 2509ae95bedf819b3d85d91f8daedf510807e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 15/59] fix: random joint poses may be drawn from several
 threads

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index dfe21f6..738da20 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -25,8 +25,8 @@ DHTransform::DHTransform(const Eigen::Vector4d& params_,
 
 double DHTransform::createRandomJointValue() const
 {
-  // Create a static random number generator so that this object does not get continuously re-instantiated
-  static std::mt19937 mt_rand = std::mt19937(random_seed);
+  // Create one random number generator per thread so that this object does not get continuously re-instantiated
+  thread_local std::mt19937 mt_rand = std::mt19937(random_seed);
 
   // Create a new uniform distribution object with the current min and max values
   std::uniform_real_distribution<double> dist(min, max);
-- 
2.43.0


From 3a638f7c7530c531addbfc789693ad66e90f655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 16/59] fix: kinematic observations compare their
 correspondences and joint counts

---
 rct_optimizations/include/rct_optimizations/types.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..69f33c5 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,8 +145,10 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
@@ -178,7 +180,9 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
-- 
2.43.0


From ddeb3f59a2ae0882a089c29fcc03511fbc26acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 17/59] fix: maximum likelihood refuses mean and deviation
 tables of different shape

---
 .../include/rct_optimizations/maximum_likelihood.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
index 1a26a60..d50591c 100644
--- a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
+++ b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
@@ -19,7 +19,7 @@ class MaximumLikelihood
 public:
   MaximumLikelihood(const Eigen::ArrayXXd& mean_, const Eigen::ArrayXXd& stdev_) : mean(mean_), stdev(stdev_)
   {
-    if (mean.size() != stdev.size())
+    if (mean.rows() != stdev.rows() || mean.cols() != stdev.cols())
       throw OptimizationException("Mean and standard deviation matrix are not the same size");
   }
 
-- 
2.43.0


From c4e9f0e18ade53a85f33d2f480974ad438eac1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 18/59] fix: hand-eye results load the rotation that was saved

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..e36e502 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -111,11 +111,11 @@ struct convert<rct_optimizations::ExtrinsicHandEyeResult>
     rhs.final_cost_per_obs = node["final_cost_per_obs"].as<decltype(rhs.final_cost_per_obs)>();
 
     Eigen::Vector3d target_mount_to_target_pos = node["target_mount_to_target_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>();
     rhs.target_mount_to_target = toIsometry<double>(target_mount_to_target_pos, target_mount_to_target_rpy);
 
     Eigen::Vector3d camera_mount_to_camera_pos = node["camera_mount_to_camera_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>();
     rhs.camera_mount_to_camera = toIsometry<double>(camera_mount_to_camera_pos, camera_mount_to_camera_rpy);
 
     return true;
-- 
2.43.0


From 0de329548220f8f89c3495777a078f691c77c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 19/59] fix: kinematic chain data whose transforms are not a
 list is refused

---
 .../include/rct_optimizations/serialization/types.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..f631374 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -134,6 +134,9 @@ struct convert<rct_optimizations::DHChain>
     val.base_offset_ = n["base_transform"].as<Eigen::Isometry3d>();
 
     const YAML::Node& transforms = n["dh_transforms"];
+    if (!transforms.IsSequence())
+      return false;
+
     val.transforms_.clear();
     val.transforms_.reserve(transforms.size());
     for (std::size_t i = 0; i < transforms.size(); i++)
-- 
2.43.0


From 86ca6506f814c70169ebc68b3f6a5bb00ccef144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 20/59] fix: joints read from YAML have a defined random seed

---
 rct_optimizations/include/rct_optimizations/dh_chain.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain.h b/rct_optimizations/include/rct_optimizations/dh_chain.h
index 0c1bd4b..194b0a9 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain.h
@@ -2,6 +2,7 @@
 
 #include <Eigen/Geometry>
 #include <memory>
+#include <random>
 #include <utility>
 #include <vector>
 
@@ -125,7 +126,7 @@ struct DHTransform
   /** @brief Label for this transform */
   std::string name;
   /** @brief Seed for random number generator */
-  std::size_t random_seed;
+  std::size_t random_seed = std::random_device{}();
 
 protected:
   friend struct YAML::as_if<DHTransform, void>;
-- 
2.43.0


From 09f73bd2fb3f0d52cc225d034eb4774cbe8702ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 21/59] fix: refuse an incomplete set of circle grid features
 instead of aborting

---
 .../src/rct_image_tools/modified_circle_grid_target.cpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
index 2364a5e..007239a 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
@@ -1,5 +1,7 @@
 #include "rct_image_tools/modified_circle_grid_target.h"
 
+#include <stdexcept>
+
 namespace rct_image_tools
 {
 ModifiedCircleGridTarget::ModifiedCircleGridTarget(const unsigned rows_, const unsigned cols_, const double spacing_)
@@ -21,7 +23,8 @@ rct_optimizations::Correspondence2D3D::Set
 ModifiedCircleGridTarget::createCorrespondences(const TargetFeatures& target_features) const
 {
   std::vector<Eigen::Vector3d> target_points = createPoints();
-  assert(target_features.size() == target_points.size());
+  if (target_features.size() != target_points.size())
+    throw std::runtime_error("The number of features does not match the number of points in the target");
 
   rct_optimizations::Correspondence2D3D::Set correspondences;
   correspondences.reserve(target_features.size());
-- 
2.43.0


From e1406fc366bd2c985be326885bcdb914efc25307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 22/59] fix: targets of different marker dictionaries are not
 equal

---
 rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp | 8 ++++++++
 .../src/rct_image_tools/charuco_grid_target.cpp           | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp b/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
index 60f5836..f3cb9dd 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
@@ -2,6 +2,13 @@
 
 namespace
 {
+bool sameDictionary(const cv::aruco::Dictionary& lhs, const cv::aruco::Dictionary& rhs)
+{
+  return lhs.markerSize == rhs.markerSize && lhs.bytesList.size() == rhs.bytesList.size() &&
+         lhs.bytesList.type() == rhs.bytesList.type() &&
+         (lhs.bytesList.empty() || cv::norm(lhs.bytesList, rhs.bytesList, cv::NORM_INF) == 0);
+}
+
 /**
  * @brief For a given ArUco GridBoard, create a map of marker corner coordinates keyed to marker IDs.
  * @param board - ArUco GridBoard to use when generating the map
@@ -58,6 +65,7 @@ bool ArucoGridTarget::operator==(const ArucoGridTarget& other) const
   equal &= (std::abs(other.board->getMarkerSeparation() - board->getMarkerSeparation()) <
             std::numeric_limits<float>::epsilon());
   equal &= other.points == points;
+  equal &= sameDictionary(*other.board->dictionary, *board->dictionary);
   return equal;
 }
 
diff --git a/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp b/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
index efda68b..516ecd9 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
@@ -2,6 +2,13 @@
 
 namespace
 {
+bool sameDictionary(const cv::aruco::Dictionary& lhs, const cv::aruco::Dictionary& rhs)
+{
+  return lhs.markerSize == rhs.markerSize && lhs.bytesList.size() == rhs.bytesList.size() &&
+         lhs.bytesList.type() == rhs.bytesList.type() &&
+         (lhs.bytesList.empty() || cv::norm(lhs.bytesList, rhs.bytesList, cv::NORM_INF) == 0);
+}
+
 /**
  * @brief For a given ChArUco board, create a map of chessboard intersection coordinates keyed to marker IDs.
  * @param board - ChArUco board to use when generating the map
@@ -54,6 +61,7 @@ bool CharucoGridTarget::operator==(const CharucoGridTarget& other) const
       (std::abs(other.board->getSquareLength() - board->getSquareLength()) < std::numeric_limits<float>::epsilon());
   equal &= other_board_size.width == board_size.width;
   equal &= other_board_size.height == board_size.height;
+  equal &= sameDictionary(*other.board->dictionary, *board->dictionary);
   return equal;
 }
 
-- 
2.43.0


From e0f0c6ee44fd6fe5aba986aff7afa9043f451c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 23/59] fix: multi-camera calibrations refuse observations that
 do not match the cameras and poses

---
 .../rct_optimizations/extrinsic_multi_static_camera.cpp  | 9 ++++++++-
 .../extrinsic_multi_static_camera_only.cpp               | 8 +++++++-
 .../extrinsic_multi_static_camera_wrist_only.cpp         | 8 +++++++-
 .../src/rct_optimizations/multi_camera_pnp.cpp           | 4 ++++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
index eff79cf..83808a2 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
@@ -74,9 +74,16 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
 
   ceres::Problem problem;
 
+  const std::size_t n_cameras = params.base_to_camera_guess.size();
+  if (params.image_observations.size() < n_cameras || params.wrist_poses.size() < n_cameras ||
+      params.intr.size() < n_cameras)
+    throw OptimizationException("The numbers of cameras, intrinsics, poses and sets of image observations do not match");
+
   for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
   {
-    assert(params.image_observations[c].size() == params.wrist_poses[c].size());
+    if (params.image_observations[c].size() != params.wrist_poses[c].size())
+      throw OptimizationException("The numbers of cameras, intrinsics, poses and sets of image observations do not match");
+
     internal_base_to_camera[c] = poseEigenToCal(params.base_to_camera_guess[c]);
     for (std::size_t i = 0; i < params.wrist_poses[c].size(); ++i)  // For each wrist pose / image set
     {
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp
index 012e014..079f62f 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp
@@ -115,12 +115,18 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraO
 
   ceres::Problem problem;
 
+  const std::size_t n_cameras = params.base_to_camera_guess.size();
+  if (params.image_observations.size() < n_cameras || params.intr.size() < n_cameras)
+    throw OptimizationException("The numbers of cameras, intrinsics, poses and sets of image observations do not match");
+
   for (std::size_t i = 0; i < params.base_to_target_guess.size(); ++i)  // For each wrist pose / image set
   {
     internal_base_to_target[i] = poseEigenToCal(params.base_to_target_guess[i]);
     for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
     {
-      assert(params.image_observations[c].size() == params.base_to_target_guess.size());
+      if (params.image_observations[c].size() != params.base_to_target_guess.size())
+        throw OptimizationException("The numbers of cameras, intrinsics, poses and sets of image observations do not match");
+
       internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());
 
       for (std::size_t j = 0; j < params.image_observations[c][i].size();
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_wrist_only.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_wrist_only.cpp
index cae4502..ef2c838 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_wrist_only.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_wrist_only.cpp
@@ -80,9 +80,15 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
 
   ceres::Problem problem;
 
+  const std::size_t n_cameras = params.base_to_camera_guess.size();
+  if (params.image_observations.size() < n_cameras || params.intr.size() < n_cameras)
+    throw OptimizationException("The numbers of cameras, intrinsics, poses and sets of image observations do not match");
+
   for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
   {
-    assert(params.image_observations[c].size() == params.wrist_poses.size());
+    if (params.image_observations[c].size() != params.wrist_poses.size())
+      throw OptimizationException("The numbers of cameras, intrinsics, poses and sets of image observations do not match");
+
     for (std::size_t i = 0; i < params.wrist_poses.size(); ++i)  // For each wrist pose / image set
     {
       for (std::size_t j = 0; j < params.image_observations[c][i].size();
diff --git a/rct_optimizations/src/rct_optimizations/multi_camera_pnp.cpp b/rct_optimizations/src/rct_optimizations/multi_camera_pnp.cpp
index 5194d18..b367de5 100644
--- a/rct_optimizations/src/rct_optimizations/multi_camera_pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/multi_camera_pnp.cpp
@@ -64,6 +64,10 @@ rct_optimizations::optimize(const rct_optimizations::MultiCameraPnPProblem& para
 
   ceres::Problem problem;
 
+  const std::size_t n_cameras = params.base_to_camera.size();
+  if (params.image_observations.size() < n_cameras || params.intr.size() < n_cameras)
+    throw OptimizationException("The numbers of cameras, intrinsics and sets of image observations do not match");
+
   for (std::size_t c = 0; c < params.base_to_camera.size(); ++c)  // For each camera
   {
     for (std::size_t i = 0; i < params.image_observations[c].size(); ++i)  // For each 3D point seen in the 2D image
-- 
2.43.0


From c7ece567401da8871e6988508c4993cf8fb467c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 24/59] fix: refuse a joint with an unreadable DH parameter
 instead of aborting

---
 .../include/rct_optimizations/serialization/types.h          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index f631374..0504787 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -113,10 +113,7 @@ struct convert<rct_optimizations::DHTransform>
       YAML::Node r = n["r"];
       YAML::Node alpha = n["alpha"];
 
-      Eigen::Vector4d params;
-      params << d.as<double>(), theta.as<double>(), r.as<double>(), alpha.as<double>();
-
-      val.params = params;
+      val.params = Eigen::Vector4d(d.as<double>(), theta.as<double>(), r.as<double>(), alpha.as<double>());
     }
 
     val.name = n["joint_name"].as<std::string>();
-- 
2.43.0


From 80792d600f489142f15537548f401eae9fb48b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 25/59] fix: random homography samples are distinct

---
 .../validation/homography_validation.cpp           | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..2d82757 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -1,5 +1,7 @@
 #include <rct_optimizations/validation/homography_validation.h>
+#include <algorithm>
 #include <Eigen/Dense>
+#include <numeric>
 #include <rct_optimizations/types.h>
 
 namespace rct_optimizations
@@ -63,14 +65,14 @@ RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n_cor
 
 std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const
 {
-  // Create a random number generator with a uniform distribution across all indices
+  // Put all of the indices in a random order
   std::mt19937 rand_gen(seed);
-  std::uniform_int_distribution<std::size_t> dist(0, n_correspondences - 1);
-  auto fn = [&rand_gen, &dist]() -> std::size_t { return dist(rand_gen); };
+  std::vector<std::size_t> output(n_correspondences);
+  std::iota(output.begin(), output.end(), 0);
+  std::shuffle(output.begin(), output.end(), rand_gen);
 
-  // Generate a vector of 4 random correspondence indices
-  std::vector<std::size_t> output(n_samples);
-  std::generate(output.begin(), output.end(), fn);
+  // Keep the requested number of them, such that no correspondence is sampled more than once
+  output.resize(n_samples);
 
   return output;
 }
-- 
2.43.0


From 70623565a0f46681e4968eb275a7c95275bc7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 26/59] fix: refuse to sample the corners of a grid with a
 single row or column

---
 .../validation/homography_validation.cpp                  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index 2d82757..0f63b6a 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -26,6 +26,14 @@ std::vector<std::size_t> GridCorrespondenceSampler::getSampleCorrespondenceIndic
     throw std::runtime_error(ss.str());
   }
 
+  // Make sure that the grid has four different corners
+  if (rows < 2 || cols < 2)
+  {
+    std::stringstream ss;
+    ss << "A grid of " << rows << " rows and " << cols << " columns does not have four corners";
+    throw std::runtime_error(ss.str());
+  }
+
   std::vector<std::size_t> correspondence_indices;
   correspondence_indices.reserve(n_samples);
 
-- 
2.43.0


From 1927004de263f86750068edee082073084ccf581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 27/59] fix: homography error of 3D features behind the sensor
 is not negative

---
 .../src/rct_optimizations/validation/homography_validation.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index 0f63b6a..489ce46 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -215,7 +215,7 @@ Eigen::VectorXd calculateHomographyError(const Correspondence3D3D::Set& correspo
   Eigen::VectorXd error = calculateHomographyError(correspondences_2d, correspondence_sampler);
 
   // Scale the errors again by the z values of the original correspondences
-  return error.cwiseProduct(z_values);
+  return error.cwiseProduct(z_values.cwiseAbs());
 }
 
 }  // namespace rct_optimizations
-- 
2.43.0


From 22f0c427a29528969a05e107653fd9d7fa751374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 28/59] fix: the orientation of a single image has no spread
 instead of an undefined one

---
 .../src/rct_optimizations/validation/noise_qualification.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp b/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
index 3d69ee2..f986b25 100644
--- a/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
@@ -57,7 +57,9 @@ QuaternionStats computeQuaternionStats(const std::vector<Eigen::Quaterniond>& qu
   {
     q_var += std::pow(q_stats.mean.angularDistance(q), 2.0);
   }
-  q_var /= static_cast<double>(quaternions.size() - 1);
+  // A single quaternion does not have any spread
+  if (quaternions.size() > 1)
+    q_var /= static_cast<double>(quaternions.size() - 1);
   q_stats.stdev = std::sqrt(q_var);
 
   return q_stats;
-- 
2.43.0


From 5c016a8d667e9ccc93236eda5e435b046cd0a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 29/59] fix: refuse the mean of no or non-finite quaternions
 instead of aborting

---
 .../rct_optimizations/validation/noise_qualification.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp b/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
index f986b25..d8a1763 100644
--- a/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
@@ -7,7 +7,7 @@
 #include <boost/accumulators/statistics/stats.hpp>
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/variance.hpp>
-#include <cassert>
+#include <stdexcept>
 
 namespace rct_optimizations
 {
@@ -26,6 +26,9 @@ Eigen::Quaterniond computeQuaternionMean(const std::vector<Eigen::Quaterniond>&
    * In this case, all quaternions are equally weighted (i.e. w_i = 1)
    */
 
+  if (quaterns.empty())
+    throw std::runtime_error("The mean of no quaternions is not defined");
+
   Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
 
   for (const Eigen::Quaterniond& q : quaterns)
@@ -41,8 +44,8 @@ Eigen::Quaterniond computeQuaternionMean(const std::vector<Eigen::Quaterniond>&
   Eigen::Quaterniond q;
   q.coeffs() << svd.matrixU().col(0);
 
-  assert(std::isnan(q.w()) == false && std::isnan(q.x()) == false && std::isnan(q.y()) == false &&
-         std::isnan(q.z()) == false);
+  if (!q.coeffs().allFinite())
+    throw std::runtime_error("The mean of the quaternions is not finite");
 
   return q;
 };
-- 
2.43.0


From 149b78199597135ca463b37b428f54340ea0c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 30/59] fix: refuse to measure the intrinsic calibration
 accuracy of no observations

---
 .../validation/camera_intrinsic_calibration_validation.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..67d230c 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -64,6 +64,9 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
                                     const Eigen::Isometry3d& camera_base_to_target_base,
                                     const double pnp_sq_error_threshold)
 {
+  if (observations.empty())
+    throw OptimizationException("No observations with which to measure the intrinsic calibration accuracy");
+
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
   for (std::size_t i = 0; i < observations.size() - 1; ++i)
-- 
2.43.0


From c057c41990bb2312c094fc59504100e37a46d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 31/59] fix: hand-eye calibration that refuses a feature behind
 the camera does not leak its cost

---
 rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
index c6e1c4e..405016a 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
@@ -177,6 +177,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
       // Target features that project behind the camera tend to prevent the optimization from converging
       if (!isPointVisible(internal_camera_mount_to_camera, internal_base_to_target, cost_fn))
       {
+        delete cost_block;
         throw std::runtime_error("Projected target feature lies behind the image plane using the "
                                  "current target mount and camera mount transform guesses. Try updating the initial "
                                  "transform guesses to more accurately represent the problem");
-- 
2.43.0


From 38c43ce420255afa511906bc5179dc7d4af345ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 32/59] fix: circles centered outside of the image are left out
 instead of read past it

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..ec51550 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,10 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of an ellipse that was fitted to an open curve can lie outside of the image
+      const cv::Point center(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(cv::Point(0, 0), binarized_image.size()).contains(center) ||
+          binarized_image.at<uchar>(center) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From d9ce0b02d02faf1c8bb00a1f7a6db509ba4e0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 33/59] fix: circles that fit an ellipse perfectly have finite
 keypoints

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index ec51550..61cc6ef 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -50,6 +50,7 @@ the use of this software, even if advised of the possibility of such damage.
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
 #include <yaml-cpp/yaml.h>
 
 namespace
@@ -211,7 +212,7 @@ DetectionResult findCircles(const cv::Mat& image,
       // Create the center
       rct_image_tools::CircleDetector::Center center;
       center.location = box.center;
-      center.confidence = 1.0 / err;
+      center.confidence = 1.0 / std::max(err, std::numeric_limits<double>::epsilon());  // A perfect fit has no error
       center.radius = (box.size.height + box.size.width) / 4.0;
 
       result.centers.push_back(center);
-- 
2.43.0


From d4f230d1fa0ebf567fe92da50e98d7239fa0ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 34/59] fix: a circle grid found with rows and columns
 exchanged is ordered by its own corners

---
 .../rct_image_tools/modified_circle_grid_finder.cpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..362c5c8 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -117,8 +117,8 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   std::size_t temp_cols = flipped ? rows : cols;
 
   std::size_t start_first_row = 0;
-  std::size_t end_first_row = cols - 1;
-  std::size_t start_last_row = rows * cols - cols;
+  std::size_t end_first_row = temp_cols - 1;
+  std::size_t start_last_row = rows * cols - temp_cols;
   std::size_t end_last_row = rows * cols - 1;
 
   // Determine size of corners relative to their adjacent circles
@@ -155,28 +155,28 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   // Comparing the start last row corner to the second point in the last row
   double start_last_row_rel_row_size = feature_sizes[start_last_row] / feature_sizes[start_last_row + 1];
   // Comparing the start last row corner to the start of the second to last row
-  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - cols];
+  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - temp_cols];
   // Find the average relative size of the start last row corner to its two adjacent circles
   start_last_row_avg_rel_size = (start_last_row_rel_row_size + start_last_row_rel_col_size) / 2.0;
 
   // Comparing the end last row corner to the second to last point in the last row
   double end_last_row_rel_row_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - 1];
   // Comparing the end last row corner to the end of the second to last row
-  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - cols];
+  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - temp_cols];
   // Find the average relative size of the end last row corner to its two adjacent circles
   end_last_row_avg_rel_size = (end_last_row_rel_row_size + end_last_row_rel_col_size) / 2.0;
 
   // Comparing the start fisrt row corner to the second point in the first row
   double start_first_row_rel_row_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + 1];
   // Comparing the start first row corner to the start of the second  row
-  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + cols];
+  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + temp_cols];
   // Find the average relative size of the start first row corner to its two adjacent circles
   start_first_row_avg_rel_size = (start_first_row_rel_row_size + start_first_row_rel_col_size) / 2.0;
 
   // Comparing the end first row corner to the second to last point in the first row
   double end_first_row_rel_row_size = feature_sizes[end_first_row] / feature_sizes[end_first_row - 1];
   // Comparing the end first row corner to the end of the second row
-  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + cols];
+  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + temp_cols];
   // Find the average relative size of the end first row corner to its two adjacent circles
   end_first_row_avg_rel_size = (end_first_row_rel_row_size + end_first_row_rel_col_size) / 2.0;
 
-- 
2.43.0


From f1f583451ad7169d5d183ca7e78c26be5ff860c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 35/59] fix: mirrored orderings of a circle grid start at the
 top row above the large circle

---
 .../rct_image_tools/modified_circle_grid_finder.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 362c5c8..ac10ddb 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -297,11 +297,11 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     }
     else  // unusual ordering
     {
-      for (std::size_t j = 0; j < temp_cols; j++)
+      for (std::size_t k = 0; k < temp_rows; k++)
       {
-        for (std::size_t k = 0; k < temp_rows; k++)
+        for (int j = static_cast<int>(temp_cols) - 1; j >= 0; j--)
         {
-          observation_points.push_back(feature_coordinates[k * temp_cols + j]);
+          observation_points.push_back(feature_coordinates[k * temp_cols + static_cast<std::size_t>(j)]);
         }
       }
     }
@@ -332,12 +332,11 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     }
     else  // unusual ordering
     {
-      for (int j = static_cast<int>(temp_cols) - 1; j >= 0; j--)
+      for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
       {
-        for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
+        for (std::size_t j = 0; j < temp_cols; j++)
         {
-          observation_points.push_back(
-              feature_coordinates[static_cast<std::size_t>(k) * temp_cols + static_cast<std::size_t>(j)]);
+          observation_points.push_back(feature_coordinates[static_cast<std::size_t>(k) * temp_cols + j]);
         }
       }
     }
-- 
2.43.0


From 65a7b1f9d49e45cde060861b73accc696ac4c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 36/59] fix: a grid with rows and columns exchanged is refused
 instead of matched to the wrong circles

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index ac10ddb..004052f 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -202,6 +202,13 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     usual_ordering = false;
   }
 
+  // The row with the largest circle at its start must be as long as a row of the target. It is not if the image shows a
+  // grid with the rows and columns of the target exchanged, whose circles have no counterpart in the target.
+  const bool large_on_rising_diagonal = std::max(start_last_row_avg_rel_size, end_first_row_avg_rel_size) >
+                                        std::max(end_last_row_avg_rel_size, start_first_row_avg_rel_size);
+  if ((large_on_rising_diagonal == usual_ordering ? temp_cols : temp_rows) != cols)
+    throw std::runtime_error("The rows and columns of the grid in the image are exchanged");
+
   // Construct the output object
   std::vector<cv::Point2d> observation_points;
   observation_points.reserve(feature_coordinates.size());
-- 
2.43.0


From 6dcca82c7159c379194e6f294c905f73f2913936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 37/59] fix: a circle grid finder for a target without circles
 is refused in release builds too

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 004052f..261ddfa 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -404,8 +404,8 @@ ModifiedCircleGridTargetFinder::ModifiedCircleGridTargetFinder(const ModifiedCir
                                                                const CircleDetectorParams& params)
   : TargetFinder(), target_(target), params_(params)
 {
-  assert(target_.cols > 0);
-  assert(target_.rows > 0);
+  if (target_.cols == 0 || target_.rows == 0)
+    throw std::runtime_error("The target must have at least one row and one column");
 }
 
 ModifiedCircleGridTargetFinder::ModifiedCircleGridTargetFinder(const ModifiedCircleGridTarget& target)
-- 
2.43.0


From 10ccffa3938b542e0471e7fc61af59265c260987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 38/59] fix: drawing marker features leaves the caller's image
 untouched

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp   | 5 +++--
 rct_image_tools/src/rct_image_tools/charuco_finder.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 528129c..bb7ad98 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -51,7 +51,8 @@ cv::Mat ArucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     });
     marker_corners.push_back(cv_obs);
   }
-  cv::aruco::drawDetectedMarkers(image, marker_corners, marker_ids);
-  return image;
+  cv::Mat out_image = image.clone();
+  cv::aruco::drawDetectedMarkers(out_image, marker_corners, marker_ids);
+  return out_image;
 }
 }  // namespace rct_image_tools
diff --git a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
index 0107117..040e439 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
@@ -65,9 +65,10 @@ cv::Mat CharucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
   }
 
   // Draw the detected corners
-  cv::aruco::drawDetectedCornersCharuco(image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
+  cv::Mat out_image = image.clone();
+  cv::aruco::drawDetectedCornersCharuco(out_image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
 
-  return image;
+  return out_image;
 }
 
 }  // namespace rct_image_tools
-- 
2.43.0


From 43b7f019f79db581de06ae02556a082b7c4af0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 39/59] fix: markers that are not on the ArUco target are left
 out of its features

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index bb7ad98..aa2aff5 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -25,6 +25,10 @@ TargetFeatures ArucoGridBoardTargetFinder::findTargetFeatures(const cv::Mat& ima
 
   for (unsigned i = 0; i < marker_ids.size(); i++)
   {
+    // Leave out markers of the same dictionary that are not on the target
+    if (target_.points.find(marker_ids[i]) == target_.points.end())
+      continue;
+
     std::vector<cv::Point2f> corner_pts = marker_corners[i];
     VectorEigenVector<2> obs_pts(4);
 
-- 
2.43.0


From 61849f14a47eef3ba863909e3cad0474e22ce093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 40/59] fix: data sets are found next to an index file named
 without a directory

---
 rct_ros_tools/src/data_set.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09ae4e7..7b1c795 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -11,7 +11,9 @@
 static std::string rootPath(const std::string& filename)
 {
   const auto last_idx = filename.find_last_of('/');
-  assert(last_idx != std::string::npos);
+  // A file name without a directory is in the current directory
+  if (last_idx == std::string::npos)
+    return ".";
   return filename.substr(0, last_idx);
 }
 
-- 
2.43.0


From c9d0933926c3e8d949b337b836011e13c1b9b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 41/59] fix: correspondence tables of cameras with different
 numbers of images stay in bounds

---
 rct_ros_tools/src/data_set.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 7b1c795..3e58967 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -131,8 +131,13 @@ rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
   if (debug)
     cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
 
-  correspondences_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
-  mask_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
+  // Cameras may have different numbers of images: the target was not found in those that are missing
+  std::size_t image_count = 0;
+  for (const rct_ros_tools::ExtrinsicDataSet& data_set : extrinsic_data_set)
+    image_count = std::max(image_count, data_set.images.size());
+
+  correspondences_.resize(extrinsic_data_set.size(), image_count);
+  mask_.setZero(extrinsic_data_set.size(), image_count);
   for (std::size_t c = 0; c < extrinsic_data_set.size(); ++c)
   {
     // We know it exists, so define a helpful alias
-- 
2.43.0


From 438a1e3bd3f4c63a430e18135743cca82cd67303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 42/59] fix: saving a data set that cannot be written is
 reported

---
 rct_ros_tools/src/data_set.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 3e58967..09d4d33 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -75,14 +75,16 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
   }
 }
 
-void writePose(const std::string& path, const Eigen::Isometry3d& pose)
+bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
 {
   YAML::Node root(pose);
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return ofh.good();
 }
 
-void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
+bool writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
   YAML::Node root;
 
@@ -97,6 +99,8 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return ofh.good();
 }
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
@@ -108,18 +112,18 @@ bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
     auto name = path + "/images/" + std::to_string(i) + ".png";
-    cv::imwrite(name, data.images[i]);
+    if (!cv::imwrite(name, data.images[i]))
+      return false;
   }
 
   for (std::size_t i = 0; i < data.tool_poses.size(); ++i)
   {
     auto name = path + "/poses/" + std::to_string(i) + ".yaml";
-    writePose(name, data.tool_poses[i]);
+    if (!writePose(name, data.tool_poses[i]))
+      return false;
   }
 
-  writeDirectory(path + "/data.yaml", data);
-
-  return true;
+  return writeDirectory(path + "/data.yaml", data);
 }
 
 rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
-- 
2.43.0


From 5a54e7867689b0bc264cb65976c7db0add2f506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 43/59] fix: pose and intrinsics files that cannot be read are
 refused as bad files

---
 rct_ros_tools/src/data_set.cpp          | 2 +-
 rct_ros_tools/src/parameter_loaders.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09d4d33..1bf8b53 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -68,7 +68,7 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
     const std::string root_path = rootPath(path);
     return parse(root, root_path);
   }
-  catch (const YAML::Exception& ex)
+  catch (const std::exception& ex)
   {
     ROS_ERROR_STREAM("Error while parsing YAML file: " << ex.what());
     return {};
diff --git a/rct_ros_tools/src/parameter_loaders.cpp b/rct_ros_tools/src/parameter_loaders.cpp
index cb13470..6651ff1 100644
--- a/rct_ros_tools/src/parameter_loaders.cpp
+++ b/rct_ros_tools/src/parameter_loaders.cpp
@@ -64,7 +64,7 @@ rct_optimizations::CameraIntrinsics loadIntrinsics(const std::string& path)
     YAML::Node n = YAML::LoadFile(path);
     return n.as<rct_optimizations::CameraIntrinsics>();
   }
-  catch (YAML::Exception& ex)
+  catch (std::exception& ex)
   {
     throw BadFileException(std::string("YAML failure: ") + ex.what());
   }
@@ -132,7 +132,7 @@ Eigen::Isometry3d loadPose(const std::string& path)
     YAML::Node n = YAML::LoadFile(path);
     return n.as<Eigen::Isometry3d>();
   }
-  catch (YAML::Exception& ex)
+  catch (std::exception& ex)
   {
     throw BadFileException(std::string("YAML failure: ") + ex.what());
   }
-- 
2.43.0


From 450f97f485dd959b220964c87d6ff2d7874bb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 44/59] fix: poses in YAML whose quaternion is not of unit
 length are rigid

---
 .../include/rct_optimizations/serialization/eigen.h         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/eigen.h b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
index 4017eac..7c271f5 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/eigen.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
@@ -85,6 +85,12 @@ struct convert<Eigen::Transform<FloatT, 3, Eigen::Isometry>>
     quat.y() = node["qy"].as<FloatT>();
     quat.z() = node["qz"].as<FloatT>();
 
+    // The rotation is only one if the quaternion has unit length
+    const FloatT norm = quat.norm();
+    if (!(norm > std::numeric_limits<FloatT>::epsilon()) || !std::isfinite(norm))
+      return false;
+    quat.coeffs() /= norm;
+
     val = Eigen::Translation<FloatT, 3>(trans) * quat;
 
     return true;
-- 
2.43.0


From 270f47b51182511697b13e3ca7c900fc0267927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 45/59] fix: empty arrays in parameters are converted to empty
 YAML sequences

---
 rct_ros_tools/src/loader_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_ros_tools/src/loader_utils.cpp b/rct_ros_tools/src/loader_utils.cpp
index 196f2cf..2679a14 100644
--- a/rct_ros_tools/src/loader_utils.cpp
+++ b/rct_ros_tools/src/loader_utils.cpp
@@ -59,6 +59,12 @@ YAML::Node toYAML(XmlRpc::XmlRpcValue value)
         node[it->first] = toYAML(it->second);
         break;
       case XmlRpc::XmlRpcValue::TypeArray:
+        // An array without elements has no element type
+        if (it->second.size() == 0)
+        {
+          node[it->first] = YAML::Node(YAML::NodeType::Sequence);
+          break;
+        }
         switch (getArrayType(it->second))
         {
           case XmlRpc::XmlRpcValue::TypeBoolean:
-- 
2.43.0


From 065aa2d43a6a88d8e4a1ad782eece6a563627180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 46/59] fix: a circle grid with a negative number of rows or
 columns is refused

---
 rct_ros_tools/src/target_loader_plugins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/target_loader_plugins.cpp b/rct_ros_tools/src/target_loader_plugins.cpp
index b8b613a..032cecd 100644
--- a/rct_ros_tools/src/target_loader_plugins.cpp
+++ b/rct_ros_tools/src/target_loader_plugins.cpp
@@ -80,8 +80,8 @@ public:
 
   void init(const YAML::Node& config) override
   {
-    int rows = config["rows"].as<int>();
-    int cols = config["cols"].as<int>();
+    unsigned rows = config["rows"].as<unsigned>();
+    unsigned cols = config["cols"].as<unsigned>();
     double spacing = config["spacing"].as<double>();
     rct_image_tools::ModifiedCircleGridTarget target(rows, cols, spacing);
 
-- 
2.43.0


From 9d465688fe94a74cdc38ae0924b2e3c3e5b86f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 47/59] fix: drawing features that are not a whole circle grid
 is refused

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 261ddfa..c09ffbb 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -33,6 +33,9 @@ static cv::Mat renderObservations(const cv::Mat& input,
 
   if (!observation_points.empty())
   {
+    if (observation_points.size() != static_cast<std::size_t>(target.rows) * target.cols)
+      throw std::runtime_error("The number of features does not match the number of points in the target");
+
     cv::Size pattern_size(static_cast<int>(target.cols), static_cast<int>(target.rows));
 
     cv::Mat center_image = cv::Mat(observation_points);
-- 
2.43.0


From 8b3bcb13e0d27784e7e430b52d4de50b96d7a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 48/59] fix: random joint values between limits that are not a
 range are refused

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 738da20..3e54213 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -1,4 +1,5 @@
 #include <rct_optimizations/dh_chain.h>
+#include <cmath>
 #include <random>
 
 namespace rct_optimizations
@@ -25,6 +26,10 @@ DHTransform::DHTransform(const Eigen::Vector4d& params_,
 
 double DHTransform::createRandomJointValue() const
 {
+  if (!(min <= max) || !std::isfinite(max - min))
+    throw std::runtime_error("Cannot create a random value for joint '" + name + "' between limits " +
+                             std::to_string(min) + " and " + std::to_string(max));
+
   // Create one random number generator per thread so that this object does not get continuously re-instantiated
   thread_local std::mt19937 mt_rand = std::mt19937(random_seed);
 
-- 
2.43.0


From 1ad4fec463709fa2f03ba5134eaf70512e8c97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 49/59] fix: covariance of the same parameter block twice is
 refused

---
 .../src/rct_optimizations/covariance_analysis.cpp             | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index b0ff839..c735b72 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -1,4 +1,5 @@
 ﻿#include <rct_optimizations/covariance_analysis.h>
+#include <algorithm>
 #include <sstream>
 
 namespace rct_optimizations
@@ -160,6 +161,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
     if (!problem.HasParameterBlock(b))
       throw CovarianceException("Covariance requested for a parameter block that is not part of the problem");
 
+    if (std::count(parameter_blocks.begin(), parameter_blocks.end(), b) != 1)
+      throw CovarianceException("Covariance requested for the same parameter block more than once");
+
     int block_size = problem.ParameterBlockSize(b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
-- 
2.43.0


From 19bdce14bbc528f766f9cfef44f35ada7ccd379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 50/59] fix: covariance of a problem whose parameters are all
 constant is zero

---
 .../rct_optimizations/covariance_analysis.cpp | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index c735b72..eedc6a4 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -199,15 +199,21 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   if (!problem.Evaluate(ceres::Problem::EvaluateOptions(), &cost, nullptr, &gradient, nullptr))
     throw CovarianceException("Could not evaluate the problem in computeCovariance()");
 
-  ceres::Covariance covariance(options);
+  // Constant parameters have no covariance, and Ceres cannot extract a covariance matrix that has no variable parameter
+  Eigen::MatrixXd cov_matrix = Eigen::MatrixXd::Zero(n_params_in_selected, n_params_in_selected);
+  if (!std::all_of(parameter_blocks.begin(), parameter_blocks.end(), [&problem](const double* b) {
+        return problem.IsParameterBlockConstant(b);
+      }))
+  {
+    ceres::Covariance covariance(options);
 
-  if (!covariance.Compute(parameter_blocks, &problem))
-    throw CovarianceException("Could not compute covariance in computeCovariance()");
+    if (!covariance.Compute(parameter_blocks, &problem))
+      throw CovarianceException("Could not compute covariance in computeCovariance()");
 
-  Eigen::MatrixXd cov_matrix(n_params_in_selected, n_params_in_selected);
-  if (!covariance.GetCovarianceMatrix(parameter_blocks, cov_matrix.data()))
-  {
-    throw CovarianceException("GetCovarianceMatrix failed in computeCovariance()");
+    if (!covariance.GetCovarianceMatrix(parameter_blocks, cov_matrix.data()))
+    {
+      throw CovarianceException("GetCovarianceMatrix failed in computeCovariance()");
+    }
   }
 
   // 2. Extract the tangent space cov matrix
-- 
2.43.0


From f90fe5e14439383011a2cfbb4866f0daef7e5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 51/59] fix: kinematic observations with more joint values than
 joints are refused

---
 .../dh_chain_kinematic_calibration.cpp        | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index ca8c808..05f9e17 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -69,6 +69,24 @@ void printOptimizationLabels(ceres::Problem& problem,
   }
 }
 
+/**
+ * @brief Checks that the joint values of an observation belong to the kinematic chains
+ * @throws OptimizationException if there are more joint values than joints
+ */
+template <typename Problem, typename Observation>
+void checkJoints(const Problem& params, const Observation& observation)
+{
+  if (static_cast<std::size_t>(observation.camera_chain_joints.size()) > params.camera_chain.dof() ||
+      static_cast<std::size_t>(observation.target_chain_joints.size()) > params.target_chain.dof())
+  {
+    std::stringstream ss;
+    ss << "Observation has more joint values (" << observation.camera_chain_joints.size() << ", "
+       << observation.target_chain_joints.size() << ") than the kinematic chains have joints ("
+       << params.camera_chain.dof() << ", " << params.target_chain.dof() << ")";
+    throw OptimizationException(ss.str());
+  }
+}
+
 KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& params)
 {
   // Initialize the optimization variables
@@ -174,6 +192,8 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& param
 
   for (const auto& observation : params.observations)
   {
+    checkJoints(params, observation);
+
     for (const auto& correspondence : observation.correspondence_set)
     {
       // Allocate Ceres data structures - ownership is taken by the ceres
@@ -404,6 +424,8 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
 
   for (const auto& observation : params.observations)
   {
+    checkJoints(params, observation);
+
     // Allocate Ceres data structures - ownership is taken by the ceres
     // Problem data structure
     auto* cost_fn =
-- 
2.43.0


From 1cb2441131ed823d71ab0f570e9c63e5fa90359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 52/59] fix: kinematic calibration without observations is
 refused

---
 .../rct_optimizations/dh_chain_kinematic_calibration.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index 05f9e17..ad3c879 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -233,6 +233,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& param
     }
   }
 
+  if (problem.NumResidualBlocks() == 0)
+    throw OptimizationException("The kinematic calibration problem has no observations");
+
   // Tell the optimization to keep constant the dummy DH offsets that might have been added to the 0-DoF chains
   if (params.camera_chain.dof() == 0)
     problem.SetParameterBlockConstant(camera_chain_dh_offsets.data());
@@ -457,6 +460,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
     problem.AddResidualBlock(cost_block, nullptr, parameters);
   }
 
+  if (problem.NumResidualBlocks() == 0)
+    throw OptimizationException("The kinematic calibration problem has no observations");
+
   // Tell the optimization to keep constant the dummy DH offsets that might have been added to the 0-DoF chains
   if (params.camera_chain.dof() == 0)
     problem.SetParameterBlockConstant(camera_chain_dh_offsets.data());
-- 
2.43.0


From 284320aa8a66601037ea580fb8a5d8d50090f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 53/59] fix: labels of features with huge or non-finite
 coordinates do not overflow

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index c09ffbb..1e83135 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -1,6 +1,7 @@
 #include <rct_image_tools/modified_circle_grid_finder.h>
 #include <rct_image_tools/circle_detector.h>
 #include <opencv2/calib3d.hpp>
+#include <cmath>
 #include <memory>
 
 template <typename T>
@@ -15,7 +16,9 @@ drawPointLabel(const std::string& label, const cv::Point2d& position, const cv::
   const double font_scale = 0.75;
   const int line_thickness = 2;
 
-  cv::Point label_origin = cv::Point(static_cast<int>(position.x), static_cast<int>(position.y));
+  // (features outside of the range of integers have no place in the image but may not overflow either)
+  cv::Point label_origin =
+      cv::Point(cv::saturate_cast<int>(std::trunc(position.x)), cv::saturate_cast<int>(std::trunc(position.y)));
 
   cv::putText(image, label, label_origin, cv::FONT_HERSHEY_SIMPLEX, font_scale, color, line_thickness);
 
-- 
2.43.0


From 7c7bdc0114d05a8733cf08cac44121e5004f3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 54/59] fix: noise qualification tool looks at every image, not
 only at the first one

---
 rct_examples/src/tools/noise_qualification_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 97f6e7d..7848641 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -62,7 +62,7 @@ int main(int argc, char** argv)
       // Each entry should have an image path. This path is relative to the root_path directory!
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
-      static cv::Mat image = readImageOpenCV(image_name);
+      const cv::Mat image = readImageOpenCV(image_name);
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From e59b779666b0af8203faee2fb0a9ec87000b2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 55/59] fix: multi camera calibration tool reports a data set
 that cannot be loaded

---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 14a817e..c51ebf6 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -108,7 +108,7 @@ int main(int argc, char** argv)
       data_path[c] = get<std::string>(pnh, param_name);
 
       // Attempt to load the data set from the specified path
-      boost::optional<ExtrinsicDataSet> data_set = *parseFromFile(data_path[c]);
+      boost::optional<ExtrinsicDataSet> data_set = parseFromFile(data_path[c]);
       if (!data_set)
         throw std::runtime_error("Failed to parse data set from path = " + data_path[c]);
       maybe_data_set[c] = *data_set;
-- 
2.43.0


From b3d4c11c0c5f1346d6c96568d9e5e32937f67752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 56/59] fix: multi step calibration tool shows reprojections on
 the image they belong to

---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index e85653b..2fcef2a 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -145,6 +145,8 @@ int main(int argc, char** argv)
 
     // build problem
     problem_def.fix_first_camera = fix_first_camera;
+    // The target may not be found by all cameras in every image, so keep track of the indices of the images used
+    std::vector<std::size_t> image_indices;
     for (std::size_t i = 0; i < corr_data_set.getImageCount(); ++i)
     {
       // Currently requires that an image is found by all cameras but it maybe should
@@ -153,6 +155,7 @@ int main(int argc, char** argv)
       {
         problem_def.base_to_target_guess.push_back(maybe_data_set[0].tool_poses[i] * wrist_to_target);
         problem_wrist_def.wrist_poses.push_back(maybe_data_set[0].tool_poses[i]);
+        image_indices.push_back(i);
         for (std::size_t c = 0; c < corr_data_set.getCameraCount(); ++c)
         {
           problem_def.image_observations[c].push_back(corr_data_set.getCorrespondenceSet(c, i));
@@ -238,8 +241,8 @@ int main(int argc, char** argv)
         corr_set.push_back(problem_def.image_observations[c][i]);
       }
 
-      printTitle("REPROJECT IMAGE " + std::to_string(i));
-      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[i], corr_set);
+      printTitle("REPROJECT IMAGE " + std::to_string(image_indices[i]));
+      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[image_indices[i]], corr_set);
     }
   }
   catch (const std::exception& ex)
-- 
2.43.0


From 3b2483c5eb1f76951c87bd38ee433a43c2dd3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 57/59] fix: intrinsic calibration tool refuses data sets
 without a usable image

---
 rct_examples/src/tools/intrinsic_calibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_examples/src/tools/intrinsic_calibration.cpp b/rct_examples/src/tools/intrinsic_calibration.cpp
index c75efe7..a680e20 100644
--- a/rct_examples/src/tools/intrinsic_calibration.cpp
+++ b/rct_examples/src/tools/intrinsic_calibration.cpp
@@ -136,6 +136,9 @@ int main(int argc, char** argv)
     }
     cv::destroyWindow(WINDOW);
 
+    if (problem_def.image_observations.empty())
+      throw std::runtime_error("The target was not found in any image");
+
     // Also try the OpenCV cameraCalibrate function
     printTitle("OpenCV Calibration");
     opencvCameraCalibration(
-- 
2.43.0


From 1501b31bcbfd9fcfda174804f2a529187b01ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 58/59] fix: multi step calibration tool refuses data sets
 without an image usable by all cameras

---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index 2fcef2a..4020fc6 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -163,6 +163,9 @@ int main(int argc, char** argv)
       }
     }
 
+    if (image_indices.empty())
+      throw std::runtime_error("The target was not found by all of the cameras in any image");
+
     // Run optimization
     printTitle("Running calibration for only cameras");
 
-- 
2.43.0


From 6ad04da73aa4f25943d0fefba93c4a97fb14fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 59/59] fix: data collection node reports data sets that could
 not be saved

---
 rct_ros_tools/src/command_line_cal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 16fca3b..9875152 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -182,7 +182,11 @@ struct DataCollection
     }
 
     ROS_INFO_STREAM("Saving data-set to " << save_dir_);
-    rct_ros_tools::saveToDirectory(save_dir_, data);
+    if (!rct_ros_tools::saveToDirectory(save_dir_, data))
+    {
+      ROS_ERROR_STREAM("Failed to save data-set to " << save_dir_);
+      return false;
+    }
     return true;
   }
 
-- 
2.43.0

