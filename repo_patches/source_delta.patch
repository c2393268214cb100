From aa07c9bdff20fdcffacb8c80966e264753c25e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 01/22] fix: gyroscope intrinsics missing in the
 accelerometer-intrinsics block of the discrete transition matrix

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 47879ec..cf026f8 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -925,7 +925,7 @@ void Propagator::compute_F_and_G_discrete(std::shared_ptr<State> state, double d
   // begin to add the state transition matrix for the acc intrinsics Da part
   if (Da_id != -1) {
     Eigen::MatrixXd H_Da = compute_H_Da(state, a_uncorrected);
-    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Tg * R_atoI * H_Da;
+    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Dw * Tg * R_atoI * H_Da;
     F.block(p_id, Da_id, 3, state->_calib_imu_da->size()) = 0.5 * R_k.transpose() * dt * dt * R_atoI * H_Da;
     F.block(v_id, Da_id, 3, state->_calib_imu_da->size()) = R_k.transpose() * dt * R_atoI * H_Da;
     F.block(Da_id, Da_id, state->_calib_imu_da->size(), state->_calib_imu_da->size()).setIdentity();
-- 
2.43.0


From 008d0b721ab20e681fa1751af86da7ca2cfa5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 02/22] fix: fisheye projection Jacobian is zero at the image
 centre

---
 ov_core/src/cam/CamEqui.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cam/CamEqui.h b/ov_core/src/cam/CamEqui.h
index df72717..6b14951 100644
--- a/ov_core/src/cam/CamEqui.h
+++ b/ov_core/src/cam/CamEqui.h
@@ -184,7 +184,7 @@ public:
 
     // Jacobian of "normalized" pixel to normalized pixel
     Eigen::Matrix<double, 2, 2> dxy_dxyn = Eigen::Matrix<double, 2, 2>::Zero();
-    dxy_dxyn << theta_d * inv_r, 0, 0, theta_d * inv_r;
+    dxy_dxyn << cdist, 0, 0, cdist;
 
     // Jacobian of "normalized" pixel to r
     Eigen::Matrix<double, 2, 1> dxy_dr = Eigen::Matrix<double, 2, 1>::Zero();
-- 
2.43.0


From 0c7290811d164bd718e2edd0c05de3b5abe7d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 03/22] fix: first estimate of anchored inverse-depth features
 returned the current estimate

---
 ov_core/src/types/Landmark.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/types/Landmark.cpp b/ov_core/src/types/Landmark.cpp
index 4d20e4e..6eea84d 100644
--- a/ov_core/src/types/Landmark.cpp
+++ b/ov_core/src/types/Landmark.cpp
@@ -46,14 +46,15 @@ Eigen::Matrix<double, 3, 1> Landmark::get_xyz(bool getfej) const {
   // CASE: Anchored MSCKF inverse depth feature representation
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH) {
     Eigen::Matrix<double, 3, 1> p_FinA;
-    Eigen::Matrix<double, 3, 1> p_invFinA = value();
+    Eigen::Matrix<double, 3, 1> p_invFinA = (getfej) ? fej() : value();
     p_FinA << (1 / p_invFinA(2)) * p_invFinA(0), (1 / p_invFinA(2)) * p_invFinA(1), 1 / p_invFinA(2);
     return p_FinA;
   }
 
   // CASE: Estimate single depth of the feature using the initial bearing
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
-    // if(getfej) return 1.0/fej()(0)*uv_norm_zero_fej;
+    if (getfej)
+      return 1.0 / fej()(0) * uv_norm_zero_fej;
     return 1.0 / value()(0) * uv_norm_zero;
   }
 
-- 
2.43.0


From f2b326ba42ac52842e4cecd6457ca954676092af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 04/22] fix: default inertial intrinsics of the rpng model were
 not the identity

---
 ov_msckf/src/state/State.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/State.cpp b/ov_msckf/src/state/State.cpp
index f8c4612..4782fb6 100644
--- a/ov_msckf/src/state/State.cpp
+++ b/ov_msckf/src/state/State.cpp
@@ -53,7 +53,7 @@ State::State(StateOptions &options) {
   } else {
     // upper triangular of the matrix (column-wise)
     Eigen::Matrix<double, 6, 1> _imu_default = Eigen::Matrix<double, 6, 1>::Zero();
-    _imu_default << 1.0, 0.0, 0.0, 1.0, 0.0, 1.0;
+    _imu_default << 1.0, 0.0, 1.0, 0.0, 0.0, 1.0;
     _calib_imu_dw->set_value(_imu_default);
     _calib_imu_dw->set_fej(_imu_default);
     _calib_imu_da->set_value(_imu_default);
-- 
2.43.0


From b64224247ecec1895f2331fddf9802c2a623e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 05/22] fix: inertial readings selected for initialisation
 stopped short of an end time in the last pair of readings

---
 ov_init/src/utils/helper.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ov_init/src/utils/helper.h b/ov_init/src/utils/helper.h
index d2c3f03..f270e56 100644
--- a/ov_init/src/utils/helper.h
+++ b/ov_init/src/utils/helper.h
@@ -112,6 +112,12 @@ public:
       return prop_data;
     }
 
+    // If the end falls into (or on the end of) the last pair of readings, then the above loop has not added it
+    if (prop_data.at(prop_data.size() - 1).timestamp < time1 && imu_data_tmp.at(imu_data_tmp.size() - 1).timestamp >= time1) {
+      ov_core::ImuData data = interpolate_data(imu_data_tmp.at(imu_data_tmp.size() - 2), imu_data_tmp.at(imu_data_tmp.size() - 1), time1);
+      prop_data.push_back(data);
+    }
+
     // Loop through and ensure we do not have an zero dt values
     // This would cause the noise covariance to be Infinity
     for (size_t i = 0; i < prop_data.size() - 1; i++) {
-- 
2.43.0


From 585ea1058634cb553cf50f4acb92263b314d7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 06/22] fix: high-rate prediction added the camera time offset
 to a time that is already on the inertial clock

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index cf026f8..1eb2b3a 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -151,7 +151,7 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
 
   // First lets construct an IMU vector of measurements we need
   double time0 = cache_state_time + cache_t_off;
-  double time1 = timestamp + cache_t_off;
+  double time1 = timestamp; // already in the IMU clock
   std::vector<ov_core::ImuData> prop_data;
   {
     std::lock_guard<std::mutex> lck(imu_data_mtx);
-- 
2.43.0


From 37ead7669d0e3506b1d2a9953bd9b1370a317d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 07/22] fix: disparity with fewer than two common features was
 not a number instead of the documented -1

---
 ov_core/src/feat/FeatureHelper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ov_core/src/feat/FeatureHelper.h b/ov_core/src/feat/FeatureHelper.h
index db35c55..b038383 100644
--- a/ov_core/src/feat/FeatureHelper.h
+++ b/ov_core/src/feat/FeatureHelper.h
@@ -91,6 +91,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
@@ -164,6 +165,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
-- 
2.43.0


From 4a6423819eb3dd62084d30719ba6a6df8c95f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 08/22] fix: sign of the gravity term in the first column of
 the velocity Jacobian of continuous preintegration

---
 ov_core/src/cpi/CpiV2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cpi/CpiV2.cpp b/ov_core/src/cpi/CpiV2.cpp
index 10e2806..18e9a84 100644
--- a/ov_core/src/cpi/CpiV2.cpp
+++ b/ov_core/src/cpi/CpiV2.cpp
@@ -230,7 +230,7 @@ void CpiV2::feed_IMU(double t_0, double t_1, Eigen::Matrix<double, 3, 1> w_m_0,
       H_al * skew_x((J_save * e_3)) * g_tau;
   J_b.block(0, 0, 3, 1) +=
       (d_R_bw_1 * Beta_arg + R_tau12k * (df_3_dbw_1 * w_x - f_3 * e_1x + df_4_dbw_1 * w_x_2 - f_4 * (e_1x * w_x + w_x * e_1x))) * a_hat -
-      -H_be * skew_x((J_save * e_1)) * g_tau;
+      H_be * skew_x((J_save * e_1)) * g_tau;
   J_b.block(0, 1, 3, 1) +=
       (d_R_bw_2 * Beta_arg + R_tau12k * (df_3_dbw_2 * w_x - f_3 * e_2x + df_4_dbw_2 * w_x_2 - f_4 * (e_2x * w_x + w_x * e_2x))) * a_hat -
       H_be * skew_x((J_save * e_2)) * g_tau;
-- 
2.43.0


From 4e9a423e274bd9a316af9b439ffb9a63ff550687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 09/22] fix: orientation of an empty preintegration was
 uninitialised

---
 ov_core/src/cpi/CpiBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cpi/CpiBase.h b/ov_core/src/cpi/CpiBase.h
index a05be84..c7960b9 100644
--- a/ov_core/src/cpi/CpiBase.h
+++ b/ov_core/src/cpi/CpiBase.h
@@ -119,7 +119,7 @@ public:
   double DT = 0;                                                                 ///< measurement integration time
   Eigen::Matrix<double, 3, 1> alpha_tau = Eigen::Matrix<double, 3, 1>::Zero();   ///< alpha measurement mean
   Eigen::Matrix<double, 3, 1> beta_tau = Eigen::Matrix<double, 3, 1>::Zero();    ///< beta measurement mean
-  Eigen::Matrix<double, 4, 1> q_k2tau;                                           ///< orientation measurement mean
+  Eigen::Matrix<double, 4, 1> q_k2tau = Eigen::Matrix<double, 4, 1>::Unit(3);    ///< orientation measurement mean
   Eigen::Matrix<double, 3, 3> R_k2tau = Eigen::Matrix<double, 3, 3>::Identity(); ///< orientation measurement mean
 
   // Jacobians
-- 
2.43.0


From 8cbc9402d202015a2ddd11ba558609cc77994118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 10/22] fix: only the first corner of a fiducial tag used the
 tag options in the landmark updates

---
 ov_msckf/src/update/UpdaterSLAM.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ov_msckf/src/update/UpdaterSLAM.cpp b/ov_msckf/src/update/UpdaterSLAM.cpp
index a769d01..c67290a 100644
--- a/ov_msckf/src/update/UpdaterSLAM.cpp
+++ b/ov_msckf/src/update/UpdaterSLAM.cpp
@@ -158,7 +158,7 @@ void UpdaterSLAM::delayed_init(std::shared_ptr<State> state, std::vector<std::sh
 
     // If we are using single inverse depth, then it is equivalent to using the msckf inverse depth
     auto feat_rep =
-        ((int)feat.featid < state->_options.max_aruco_features) ? state->_options.feat_rep_aruco : state->_options.feat_rep_slam;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? state->_options.feat_rep_aruco : state->_options.feat_rep_slam;
     feat.feat_representation = feat_rep;
     if (feat_rep == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
       feat.feat_representation = LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH;
@@ -224,12 +224,12 @@ void UpdaterSLAM::delayed_init(std::shared_ptr<State> state, std::vector<std::sh
 
     // Measurement noise matrix
     double sigma_pix_sq =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
     Eigen::MatrixXd R = sigma_pix_sq * Eigen::MatrixXd::Identity(res.rows(), res.rows());
 
     // Try to initialize, delete new pointer if we failed
     double chi2_multipler =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
     if (StateHelper::initialize(state, landmark, Hx_order, H_x, H_f, R, res, chi2_multipler)) {
       state->_features_SLAM.insert({(*it2)->featid, landmark});
       (*it2)->to_delete = true;
@@ -390,7 +390,7 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
     Eigen::MatrixXd P_marg = StateHelper::get_marginal_covariance(state, Hxf_order);
     Eigen::MatrixXd S = H_xf * P_marg * H_xf.transpose();
     double sigma_pix_sq =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
     S.diagonal() += sigma_pix_sq * Eigen::VectorXd::Ones(S.rows());
     double chi2 = res.dot(S.llt().solve(res));
 
@@ -406,9 +406,9 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
 
     // Check if we should delete or not
     double chi2_multipler =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
     if (chi2 > chi2_multipler * chi2_check) {
-      if ((int)feat.featid < state->_options.max_aruco_features) {
+      if ((int)feat.featid <= 4 * state->_options.max_aruco_features) {
         PRINT_WARNING(YELLOW "[SLAM-UP]: rejecting aruco tag %d for chi2 thresh (%.3f > %.3f)\n" RESET, (int)feat.featid, chi2,
                       chi2_multipler * chi2_check);
       } else {
@@ -420,7 +420,7 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
     }
 
     // Debug print when we are going to update the aruco tags
-    if ((int)feat.featid < state->_options.max_aruco_features) {
+    if ((int)feat.featid <= 4 * state->_options.max_aruco_features) {
       PRINT_DEBUG("[SLAM-UP]: accepted aruco tag %d for chi2 thresh (%.3f < %.3f)\n", (int)feat.featid, chi2, chi2_multipler * chi2_check);
     }
 
-- 
2.43.0


From 8aa6b276134c3f9acef2d4d6966af6579b31c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 11/22] fix: the number of poses to use for trajectory
 alignment was ignored

---
 ov_eval/src/alignment/AlignTrajectory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ov_eval/src/alignment/AlignTrajectory.cpp b/ov_eval/src/alignment/AlignTrajectory.cpp
index 0cfdd1f..4ddff63 100644
--- a/ov_eval/src/alignment/AlignTrajectory.cpp
+++ b/ov_eval/src/alignment/AlignTrajectory.cpp
@@ -93,7 +93,7 @@ void AlignTrajectory::align_posyaw(const std::vector<Eigen::Matrix<double, 7, 1>
     // Get just position vectors
     assert(!traj_es.empty());
     std::vector<Eigen::Vector3d> pos_est, pos_gt;
-    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned < 0 || (int)i < n_aligned); i++) {
       pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
       pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
     }
@@ -135,7 +135,7 @@ void AlignTrajectory::align_se3(const std::vector<Eigen::Matrix<double, 7, 1>> &
     // Get just position vectors
     assert(!traj_es.empty());
     std::vector<Eigen::Vector3d> pos_est, pos_gt;
-    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned < 0 || (int)i < n_aligned); i++) {
       pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
       pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
     }
@@ -156,7 +156,7 @@ void AlignTrajectory::align_sim3(const std::vector<Eigen::Matrix<double, 7, 1>>
   // Get just position vectors
   assert(!traj_es.empty());
   std::vector<Eigen::Vector3d> pos_est, pos_gt;
-  for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+  for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned < 0 || (int)i < n_aligned); i++) {
     pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
     pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
   }
-- 
2.43.0


From 8193e0560e5cf82845081c3e11f5cda0be0bc845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 12/22] fix: computing statistics again added the previous
 error to the new rmse

---
 ov_eval/src/utils/Statistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_eval/src/utils/Statistics.h b/ov_eval/src/utils/Statistics.h
index bd4fe90..6f0ce59 100644
--- a/ov_eval/src/utils/Statistics.h
+++ b/ov_eval/src/utils/Statistics.h
@@ -99,6 +99,7 @@ public:
 
     // Compute mean and rmse
     mean = 0;
+    rmse = 0;
     for (size_t i = 0; i < values_sorted.size(); i++) {
       assert(!std::isnan(values_sorted.at(i)));
       mean += values_sorted.at(i);
-- 
2.43.0


From 6733e0ccac8a825f458ee82f2250c621c8aedf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 13/22] fix: a ground-truth time at exactly the largest allowed
 difference blocked closer matches

---
 ov_eval/src/alignment/AlignUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_eval/src/alignment/AlignUtils.cpp b/ov_eval/src/alignment/AlignUtils.cpp
index 1a54015..f1ebfa2 100644
--- a/ov_eval/src/alignment/AlignUtils.cpp
+++ b/ov_eval/src/alignment/AlignUtils.cpp
@@ -130,7 +130,7 @@ void AlignUtils::perform_association(double offset, double max_difference, std::
     // If we are closer than max difference, see if we can do any better
     while (gt_pointer < gt_times.size() && std::abs(gt_times.at(gt_pointer) - (est_times.at(i) + offset)) <= max_difference) {
       // Break if we found a good match but are getting worse, we are done
-      if (std::abs(gt_times.at(gt_pointer) - (est_times.at(i) + offset)) >= best_diff) {
+      if (best_gt_idx != -1 && std::abs(gt_times.at(gt_pointer) - (est_times.at(i) + offset)) >= best_diff) {
         break;
       }
       // We have a closer match, save it and move on
-- 
2.43.0


From cb8874a8ceeed1a62d3054166f6b2207cd82ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 14/22] fix: active tracks use the observations of every camera
 of an image

---
 ov_msckf/src/core/VioManagerHelper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/core/VioManagerHelper.cpp b/ov_msckf/src/core/VioManagerHelper.cpp
index 48198bc..702374f 100644
--- a/ov_msckf/src/core/VioManagerHelper.cpp
+++ b/ov_msckf/src/core/VioManagerHelper.cpp
@@ -259,7 +259,12 @@ void VioManager::retriangulate_active_tracks(const ov_core::CameraData &message)
       // Append to our linear system
       Eigen::Matrix3d Ai = Bperp.transpose() * Bperp;
       Eigen::Vector3d bi = Ai * p_CiinG;
-      if (active_feat_linsys_A.find(featid) == active_feat_linsys_A.end()) {
+      if (active_feat_linsys_A_new.find(featid) != active_feat_linsys_A_new.end()) {
+        // Already seen by another camera in this image
+        active_feat_linsys_A_new[featid] += Ai;
+        active_feat_linsys_b_new[featid] += bi;
+        active_feat_linsys_count_new[featid] += 1;
+      } else if (active_feat_linsys_A.find(featid) == active_feat_linsys_A.end()) {
         active_feat_linsys_A_new.insert({featid, Ai});
         active_feat_linsys_b_new.insert({featid, bi});
         active_feat_linsys_count_new.insert({featid, 1});
-- 
2.43.0


From efa83262f9df755eb95149232e6fb7cc66e9b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 15/22] fix: the gradient of a generic prior was applied with
 the wrong triangular factor

---
 ov_init/src/ceres/Factor_GenericPrior.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_init/src/ceres/Factor_GenericPrior.cpp b/ov_init/src/ceres/Factor_GenericPrior.cpp
index 96fa034..375158f 100644
--- a/ov_init/src/ceres/Factor_GenericPrior.cpp
+++ b/ov_init/src/ceres/Factor_GenericPrior.cpp
@@ -64,8 +64,8 @@ Factor_GenericPrior::Factor_GenericPrior(const Eigen::MatrixXd &x_lin_, const st
   // Comes from the form: cost = A * (x - x_lin) + b
   Eigen::LLT<Eigen::MatrixXd> lltOfI(prior_Info);
   sqrtI = lltOfI.matrixL().transpose();
-  Eigen::MatrixXd I = Eigen::MatrixXd::Identity(prior_Info.rows(), prior_Info.rows());
-  b = sqrtI.triangularView<Eigen::Upper>().solve(I) * prior_grad;
+  Eigen::MatrixXd sqrtI_T = sqrtI.transpose();
+  b = sqrtI_T.triangularView<Eigen::Lower>().solve(prior_grad);
 
   // Check that we have a valid matrix that we can get the information of
   if (std::isnan(prior_Info.norm()) || std::isnan(sqrtI.norm()) || std::isnan(b.norm())) {
-- 
2.43.0


From 8b9124e7140b0daf9a661938eb2b7582cae406a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 16/22] fix: changing a feature id did not reach the feature
 database

---
 ov_core/src/track/TrackBase.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index e214c23..45c78bc 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -229,12 +229,17 @@ void TrackBase::display_history(cv::Mat &img_out, int r1, int g1, int b1, int r2
 
 void TrackBase::change_feat_id(size_t id_old, size_t id_new) {
 
-  // If found in db then replace
-  if (database->get_internal_data().find(id_old) != database->get_internal_data().end()) {
-    std::shared_ptr<Feature> feat = database->get_internal_data().at(id_old);
-    database->get_internal_data().erase(id_old);
-    feat->featid = id_new;
-    database->get_internal_data().insert({id_new, feat});
+  // If found in db then move all its measurements to the new id
+  // NOTE: get_internal_data() only gives a copy, thus we need to change the database through its own functions
+  std::shared_ptr<Feature> feat = database->get_feature(id_old, true);
+  if (feat != nullptr) {
+    for (auto const &cam_times : feat->timestamps) {
+      for (size_t i = 0; i < cam_times.second.size(); i++) {
+        const Eigen::VectorXf &uv = feat->uvs.at(cam_times.first).at(i);
+        const Eigen::VectorXf &uv_norm = feat->uvs_norm.at(cam_times.first).at(i);
+        database->update_feature(id_new, cam_times.second.at(i), cam_times.first, uv(0), uv(1), uv_norm(0), uv_norm(1));
+      }
+    }
   }
 
   // Update current track IDs
-- 
2.43.0


From 03f444d41b24108a62a7683a045d6d57c9cb4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 17/22] fix: stereo detection masked the right image with the
 left mask

---
 ov_core/src/track/TrackKLT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index d2fe388..e07e949 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -718,7 +718,7 @@ void TrackKLT::perform_detection_stereo(const std::vector<cv::Mat> &img0pyr, con
   float size_y1 = (float)img1pyr.at(0).rows / (float)grid_y;
   cv::Size size_grid1(grid_x, grid_y); // width x height
   cv::Mat grid_2d_grid1 = cv::Mat::zeros(size_grid1, CV_8UC1);
-  cv::Mat mask1_updated = mask0.clone();
+  cv::Mat mask1_updated = mask1.clone();
   it0 = pts1.begin();
   it1 = ids1.begin();
   while (it0 != pts1.end()) {
-- 
2.43.0


From ef2b6ca5a15991dc87014cc7c111d60a212930f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 18/22] fix: stereo tracks just outside of the left image were
 kept

---
 ov_core/src/track/TrackKLT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index e07e949..535b547 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -305,8 +305,8 @@ void TrackKLT::feed_stereo(const CameraData &message, size_t msg_id_left, size_t
   // Loop through all left points
   for (size_t i = 0; i < pts_left_new.size(); i++) {
     // Ensure we do not have any bad KLT tracks (i.e., points are negative)
-    if (pts_left_new.at(i).pt.x < 0 || pts_left_new.at(i).pt.y < 0 || (int)pts_left_new.at(i).pt.x > img_left.cols ||
-        (int)pts_left_new.at(i).pt.y > img_left.rows)
+    if (pts_left_new.at(i).pt.x < 0 || pts_left_new.at(i).pt.y < 0 || (int)pts_left_new.at(i).pt.x >= img_left.cols ||
+        (int)pts_left_new.at(i).pt.y >= img_left.rows)
       continue;
     // See if we have the same feature in the right
     bool found_right = false;
-- 
2.43.0


From 41d694ecd531b0e1b91d6ea8959cdc6fe0d5dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 19/22] fix: stereo tracking did not reject tracks that move
 into the mask

---
 ov_core/src/track/TrackKLT.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index 535b547..b7d9857 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -298,6 +298,19 @@ void TrackKLT::feed_stereo(const CameraData &message, size_t msg_id_left, size_t
     return;
   }
 
+  // Reject any tracks that are in the mask
+  // NOTE: mask has max value of 255 (white) if it should be
+  auto reject_masked = [](const cv::Mat &mask, const std::vector<cv::KeyPoint> &pts, std::vector<uchar> &mask_out) {
+    for (size_t i = 0; i < pts.size(); i++) {
+      int x = (int)pts.at(i).pt.x;
+      int y = (int)pts.at(i).pt.y;
+      if (x >= 0 && y >= 0 && x < mask.cols && y < mask.rows && mask.at<uint8_t>(y, x) > 127)
+        mask_out.at(i) = 0;
+    }
+  };
+  reject_masked(mask_left, pts_left_new, mask_ll);
+  reject_masked(mask_right, pts_right_new, mask_rr);
+
   // Get our "good tracks"
   std::vector<cv::KeyPoint> good_left, good_right;
   std::vector<size_t> good_ids_left, good_ids_right;
-- 
2.43.0


From 9fc5d371df04f49618fdc193bd1e0448aeb319f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 20/22] fix: the aruco tag with the maximum id shared feature
 ids with the first tag

---
 ov_core/src/track/TrackAruco.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackAruco.cpp b/ov_core/src/track/TrackAruco.cpp
index 953eaa3..6c3931a 100644
--- a/ov_core/src/track/TrackAruco.cpp
+++ b/ov_core/src/track/TrackAruco.cpp
@@ -131,8 +131,8 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
 
   // Append to our feature database this new information
   for (size_t i = 0; i < ids_aruco[cam_id].size(); i++) {
-    // Skip if ID is greater then our max
-    if (ids_aruco[cam_id].at(i) > max_tag_id)
+    // Skip if ID is not one of our tags (they start from zero, thus the max itself would share its ids with the corners of the zero tag)
+    if (ids_aruco[cam_id].at(i) >= max_tag_id)
       continue;
     // Assert we have 4 points (we will only use one of them)
     assert(corners[cam_id].at(i).size() == 4);
-- 
2.43.0


From 70f6d27224f8a44c759b9465e90b31271626fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 21/22] fix: right descriptors were bounded by the size of the
 left image

---
 ov_core/src/track/TrackDescriptor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackDescriptor.cpp b/ov_core/src/track/TrackDescriptor.cpp
index 915873d..1420c0f 100644
--- a/ov_core/src/track/TrackDescriptor.cpp
+++ b/ov_core/src/track/TrackDescriptor.cpp
@@ -455,8 +455,8 @@ void TrackDescriptor::perform_detection_stereo(const cv::Mat &img0, const cv::Ma
     int y1 = (int)kpt1.pt.y;
     int x1_grid = (int)(kpt1.pt.x / (float)min_px_dist);
     int y1_grid = (int)(kpt1.pt.y / (float)min_px_dist);
-    if (x1_grid < 0 || x1_grid >= size1.width || y1_grid < 0 || y1_grid >= size1.height || x1 < 0 || x1 >= img0.cols || y1 < 0 ||
-        y1 >= img0.rows) {
+    if (x1_grid < 0 || x1_grid >= size1.width || y1_grid < 0 || y1_grid >= size1.height || x1 < 0 || x1 >= img1.cols || y1 < 0 ||
+        y1 >= img1.rows) {
       continue;
     }
 
-- 
2.43.0


From 78b94a73a8d1ed9fc24f8cfb2de20beef74a5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 22/22] fix: accept masks of the raw image size when cameras
 are downsampled

---
 ov_msckf/src/core/VioManagerOptions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/core/VioManagerOptions.h b/ov_msckf/src/core/VioManagerOptions.h
index 0df7d15..4add8af 100644
--- a/ov_msckf/src/core/VioManagerOptions.h
+++ b/ov_msckf/src/core/VioManagerOptions.h
@@ -292,7 +292,9 @@ struct VioManagerOptions {
           }
           cv::Mat mask = cv::imread(total_mask_path, cv::IMREAD_GRAYSCALE);
           masks.insert({i, mask});
-          if (mask.cols != camera_intrinsics.at(i)->w() || mask.rows != camera_intrinsics.at(i)->h()) {
+          // The mask is of the raw image, and is halved together with it if we are downsampling
+          int factor = (downsample_cameras) ? 2 : 1;
+          if (mask.cols / factor != camera_intrinsics.at(i)->w() || mask.rows / factor != camera_intrinsics.at(i)->h()) {
             PRINT_ERROR(RED "VioManager(): mask size does not match camera!\n" RESET);
             PRINT_ERROR(RED "\t- mask%d - %s\n" RESET, i, total_mask_path.c_str());
             PRINT_ERROR(RED "\t- mask%d - %d x %d\n" RESET, mask.cols, mask.rows);
-- 
2.43.0

