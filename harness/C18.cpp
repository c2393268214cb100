// Feature measurement residual and Jacobians, every feature representation
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: two cameras (radial-tangential; one fisheye in the thorough tier), up to three poses, every one of the six feature representations, with and without extrinsic/intrinsic calibration and first-estimate Jacobians; feature anywhere on a seeded line through the scene (every point in the thorough tier), every pixel measurement; seeded rational poses with distinct first estimates
// VF-OUTSIDE: rounding; symbolic poses
#include "vision_common.h"
static void run(int ri, bool fej, int calib, int layout) {
  h::Rep rep = h::reps[ri];
  StateOptions o;
  o.do_fej = fej; o.do_calib_camera_pose = calib & 1; o.do_calib_camera_intrinsics = calib & 2; o.do_calib_camera_timeoffset = true;
  auto s = h::vision_state(o, 2, vf::thorough() ? 2 : 0, 3, true); // the fisheye Jacobians themselves are decided by the camera-model check
  bool sph = rep == h::Rep::GLOBAL_FULL_INVERSE_DEPTH || rep == h::Rep::ANCHORED_FULL_INVERSE_DEPTH;
  if (sph && h::relative(rep) && !vf::thorough()) s->_clones_IMU[layout == 1 ? 2 : 1]->set_fej(s->_clones_IMU[layout == 1 ? 2 : 1]->value()); // keeps the spherical coordinates simple
  UpdaterHelper::UpdaterHelperFeature f;
  f.featid = 3; f.feat_representation = rep;
  // who sees the feature; the anchor need not be among them
  static const int sees[3][6][2] = {{{0, 1}, {0, 2}, {-1, 0}}, {{1, 2}, {0, 3}, {0, 1}, {-1, 0}}, {{0, 2}, {1, 2}, {1, 3}, {-1, 0}}};
  int n = 0;
  for (; sees[layout][n][0] >= 0; n++) {
    int c = sees[layout][n][0]; double t = sees[layout][n][1];
    Eigen::VectorXf uv(2), un(2);
    for (int i = 0; i < 2; i++) { uv(i) = vf::input("uv" + std::to_string(n) + std::to_string(i), 0, 800); un(i) = vf::rnd("un" + std::to_string(n) + std::to_string(i), -1, 1); }
    f.uvs[c].push_back(uv); f.uvs_norm[c].push_back(un); f.timestamps[c].push_back(t);
  }
  int ac = layout == 1 ? 1 : 0; double at = layout == 2 ? 1 : layout == 1 ? 2 : 1;
  // the estimate of the point and its first estimate
  Eigen::Vector3d x, d = vf::rnds("dir", 3);
  if (vf::thorough() && calib == 0) { x << vf::input("x", -2, 2), vf::input("y", -2, 2), vf::input("z", 3, 8); }
  else if (sph) { double u = vf::input("u", 3, 9); x << u * 15 / 65, u * 20 / 65, u * 60 / 65; }
  else { double u = vf::input("u", 0, 1); x << -0.5 + u * d(0), 0.25 + u * d(1), 4 + u * d(2); }
  if (h::relative(rep)) { f.anchor_cam_id = ac; f.anchor_clone_timestamp = at; f.p_FinA = x; f.p_FinA_fej = x + vf::rnds("xf", 3, 1, -0.1, 0.1); f.p_FinG.setConstant(77); f.p_FinG_fej.setConstant(78); }
  else { f.p_FinG = x; f.p_FinG_fej = sph && !vf::thorough() ? Eigen::Vector3d(x(1) * 1.0625, x(0) * 1.0625, x(2) * 1.0625) : Eigen::Vector3d(x + vf::rnds("xf", 3, 1, -0.1, 0.1)); f.p_FinA.setConstant(77); f.p_FinA_fej.setConstant(78); }
  Eigen::Vector3d G = h::relative(rep) ? h::to_global(s, at, ac, x, false) : x;
  Vars all = s->_variables; Eigen::VectorXd v0 = h::values(all);
  Eigen::MatrixXd Hf, Hx; Eigen::VectorXd res; Vars ord;
  UpdaterHelper::get_feature_jacobian_full(s, f, Hf, Hx, res, ord);
  vf::check_eq("state untouched", h::values(all), v0);
  int nx = 0; for (auto &v : ord) nx += v->size();
  vf::check("one column block per listed variable", Hx.cols() == nx && Hx.rows() == 2 * n && Hf.rows() == 2 * n && res.rows() == 2 * n && Hf.cols() == (ri == 5 ? 1 : 3));
  for (size_t i = 0; i < ord.size(); i++) {
    for (size_t j = i + 1; j < ord.size(); j++) vf::check("no variable twice", ord[i] != ord[j]);
    vf::check("variables of the filter state", ord[i]->id() >= 0 && std::find(all.begin(), all.end(), ord[i]) != all.end());
  }
  // what is linearised: poses and point at the first estimate when asked, calibration at the estimate
  Eigen::Vector3d L = fej ? (h::relative(rep) ? G : f.p_FinG_fej) : G;
  std::vector<Eigen::MatrixXd> keep;
  for (auto &v : all) keep.push_back(v->value());
  int row = 0;
  // rows come camera by camera in the feature's own order
  for (auto const &pair : f.timestamps) {
    int c = (int)pair.first;
    for (size_t m = 0; m < pair.second.size(); m++) {
      double t = pair.second[m];
      Eigen::Vector3d pc = h::to_cam(s, t, c, G, false);
      Eigen::Vector2d un(pc(0) / pc(2), pc(1) / pc(2)), z = s->_cam_intrinsics_cameras[c]->distort_d(un);
      Eigen::Vector2d um((double)f.uvs[c][m](0), (double)f.uvs[c][m](1));
      vf::check_near("residual is measured less predicted", res.segment(row, 2), um - z, 1e-2);
      Eigen::MatrixXd Jn, Jz;
      s->_cam_intrinsics_cameras[c]->compute_distort_jacobian(un, Jn, Jz);
      auto g = [&](const Eigen::VectorXd &e) {
        if (fej) for (auto &p : s->_clones_IMU) p.second->set_value(p.second->fej());
        Eigen::Vector3d a = L;
        if (h::relative(rep)) a = h::to_cam(s, at, ac, L, false);
        h::add_error(ord, e.head(nx));
        a = h::perturb_point(rep, a, e.tail(Hf.cols()));
        if (h::relative(rep)) a = h::to_global(s, at, ac, a, false);
        Eigen::Vector3d b = h::to_cam(s, t, c, a, false);
        Eigen::VectorXd y(2); y << b(0) / b(2), b(1) / b(2);
        for (size_t i = 0; i < all.size(); i++) all[i]->set_value(keep[i]);
        return y;
      };
      Eigen::MatrixXd D = Jn * vf::jacobian(g, nx + Hf.cols());
      // intrinsics enter directly
      if (calib & 2) { int a = 0; for (auto &v : ord) { if (v == s->_cam_intrinsics[c]) D.block(0, a, 2, 8) = Jz; a += v->size(); } }
      int a = 0;
      for (auto &v : ord) { 
        std::string nm = "by " + std::string(v->size() == 8 ? "intrinsics" : v == s->_calib_IMUtoCAM[0] || v == s->_calib_IMUtoCAM[1] ? "extrinsics" : "pose");
        vf::check_eq(nm, Hx.block(row, a, 2, v->size()), D.block(0, a, 2, v->size()), 1000); a += v->size(); }
      vf::check_eq("by the feature", Hf.block(row, 0, 2, Hf.cols()), D.rightCols(Hf.cols()), 1000);
      row += 2;
    }
  }
  vf::reach("end");
}
static void grid(int ri) {
  int k = vf::choose("configuration", vf::thorough() ? 12 : 4);
  // fej, calibration, who sees it
  static const int cfg[12][3] = {{0, 3, 0}, {1, 3, 1}, {1, 0, 2}, {0, 1, 1}, {0, 0, 0}, {0, 2, 2}, {1, 1, 0}, {1, 2, 1}, {0, 3, 2}, {1, 3, 2}, {0, 0, 1}, {1, 0, 0}};
  run(ri, cfg[k][0], cfg[k][1], cfg[k][2]);
}
VF_CASE(global_xyz) { grid(0); }
VF_CASE(global_inverse_depth) { grid(1); }
VF_CASE(anchored_xyz) { grid(2); }
VF_CASE(anchored_inverse_depth) { grid(3); }
VF_CASE(anchored_msckf_inverse_depth) { grid(4); }
VF_CASE(anchored_single_depth) { grid(5); }
