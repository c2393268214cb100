// Moving an anchored landmark to another window pose keeps the point and the joint distribution
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/update/UpdaterSLAM.cpp ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureInitializer.cpp
// VF-BUDGET: 90 300
// VF-BOUNDS: three window poses, two cameras, every anchored representation, same or other camera, with and without extrinsic calibration and first-estimate Jacobians; every cross covariance with a further variable at a seeded point over a seeded joint covariance, and the same for every point on a seeded line; seeded rational poses with distinct first estimates
// VF-OUTSIDE: rounding; symbolic poses; the part of the single-depth error that is off the bearing (not modelled by that representation)
#include "vision_common.h"
#include "update/UpdaterSLAM.h"
#include "feat/FeatureInitializer.h"
using h::Rep;
static std::shared_ptr<UpdaterSLAM> updater() { UpdaterOptions a, b; FeatureInitializerOptions f; return std::make_shared<UpdaterSLAM>(a, b, f); }
static std::shared_ptr<Landmark> landmark(std::shared_ptr<State> s, size_t id, Rep r, double t, int cam, const Eigen::Vector3d &x, const Eigen::Vector3d &xf) {
  auto l = h::add_landmark(s, id, r);
  l->_anchor_cam_id = cam; l->_anchor_clone_timestamp = t;
  l->set_from_xyz(x, false); l->set_from_xyz(xf, true);
  return l;
}
// parameters of a point
static Eigen::VectorXd params(Rep r, const Eigen::Vector3d &x) {
  Eigen::VectorXd v(3);
  if (r == Rep::ANCHORED_3D) v = x;
  else if (r == Rep::ANCHORED_FULL_INVERSE_DEPTH) { double n = x.norm(); v << atan2(x(1), x(0)), acos(x(2) / n), 1 / n; }
  else if (r == Rep::ANCHORED_MSCKF_INVERSE_DEPTH) v << x(0) / x(2), x(1) / x(2), 1 / x(2);
  else { v.resize(1); v << 1 / x(2); }
  return v;
}
// how the new parameters depend on the errors of the listed variables and of the old parameters (old: in the poses and point used for linearisation)
static Eigen::MatrixXd change_jacobian(std::shared_ptr<State> s, Rep r, const Vars &vs, int nl, double t0, int c0, double t1, int c1, const Eigen::Vector3d &G, bool fej) {
  Vars all = s->_variables;
  std::vector<Eigen::MatrixXd> keep; for (auto &v : all) keep.push_back(v->value());
  int nx = 0; for (auto &v : vs) nx += v->size();
  auto f = [&](const Eigen::VectorXd &e) {
    if (fej) for (auto &p : s->_clones_IMU) p.second->set_value(p.second->fej());
    Eigen::Vector3d a0 = h::to_cam(s, t0, c0, G, false), a1 = h::to_cam(s, t1, c1, G, false);
    h::add_error(vs, e.head(nx));
    Eigen::Vector3d g = h::to_global(s, t0, c0, h::perturb_point(r, a0, e.tail(nl)), false), b = h::to_cam(s, t1, c1, g, false);
    Eigen::VectorXd y;
    if (r == Rep::ANCHORED_INVERSE_DEPTH_SINGLE) { // along the bearing only
      Eigen::Vector3d k = -a1(2) * a1; // derivative of the point by its inverse depth
      y.resize(1); y << k.dot(b - a1) / k.dot(k);
    } else y = params(r, b);
    for (size_t i = 0; i < all.size(); i++) all[i]->set_value(keep[i]);
    return y;
  };
  return vf::jacobian(f, nx + nl);
}
static void run(Rep r, bool symbolic_point) {
  StateOptions o;
  o.do_fej = vf::choose("fej", 2); o.do_calib_camera_pose = vf::choose("extrinsics", 2); o.do_calib_imu_g_sensitivity = o.do_calib_imu_intrinsics = false;
  auto s = h::vision_state(o, 2, 0, 3, true);
  bool sph = r == Rep::ANCHORED_FULL_INVERSE_DEPTH;
  int c1 = symbolic_point ? 0 : sph ? 0 : vf::choose("new camera", 2);
  double t0 = 1, t1 = 3;
  Eigen::Vector3d x, xf = vf::rnds("xf", 3, 1, -0.1, 0.1);
  if (sph) { double u = symbolic_point ? vf::input("u", 3, 9) : 6.5; x << u * 15 / 65, u * 20 / 65, u * 60 / 65; }
  else if (symbolic_point) { double u = vf::input("u", 0, 1); Eigen::Vector3d d = vf::rnds("d", 3); x << -0.5 + u * d(0), 0.25 + u * d(1), 4 + u * d(2); }
  else x << vf::rnd("x0", -1, 1), vf::rnd("x1", -1, 1), vf::rnd("x2", 3, 6);
  if (sph) { // keeps the spherical coordinates simple: the distances to the anchors are rational
    auto c1p = s->_clones_IMU[1.0], c3p = s->_clones_IMU[3.0];
    c1p->set_fej(c1p->value());
    xf << 0.5, -0.5, 0; // first estimate (2, 1.5, 6) in the old anchor
    Eigen::Vector3d G0 = h::to_global(s, t0, 0, x, false), y[2];
    y[0] << 1.5, 2, 6; y[1] << 1, 1.5, 3; // in the new anchor; the first estimate at (1.5, 1, 3)
    for (int k = 0; k < 2; k++) {
      Eigen::Matrix<double, 7, 1> v; v << (k ? Eigen::MatrixXd(c3p->fej()) : Eigen::MatrixXd(c3p->value()));
      if (k) { v.head(4) = c1p->value().block(0, 0, 4, 1); c3p->set_fej(v); }
      Eigen::Matrix3d R; Eigen::Vector3d p; h::cam_pose(s, t1, c1, R, p, k == 1);
      v.tail(3) += G0 - R * y[k] - p;
      if (k) c3p->set_fej(v); else c3p->set_value(v);
    }
  }
  auto other = landmark(s, 5, Rep::GLOBAL_3D, -1, -1, vf::rnds("o", 3), vf::rnds("of", 3));
  auto l = landmark(s, 7, r, t0, 0, x, x + xf);
  auto last = std::make_shared<Vec>(2); last->set_value(vf::rnds("z", 2)); last->set_fej(vf::rnds("zf", 2)); h::append(s, last);
  int n = s->_Cov.rows(), nl = l->size(), li = l->id();
  // cross covariance of everything with the last variable symbolic: it shows the whole transition
  Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n, n);
  if (!symbolic_point) P = h::cov("P", n, false);
  for (int i = 0; i < last->id(); i++) { double v = vf::input("P" + std::to_string(i), -0.2, 0.2); P(i, n - 1) = v; P(n - 1, i) = v; }
  s->_Cov = P;
  Vars vs = {s->_clones_IMU[1.0], s->_clones_IMU[3.0]};
  if (o.do_calib_camera_pose) { vs.push_back(s->_calib_IMUtoCAM[0]); if (c1 == 1) vs.push_back(s->_calib_IMUtoCAM[1]); }
  Eigen::Vector3d G = h::to_global(s, t0, 0, x, false), Gf = h::to_global(s, t0, 0, l->get_xyz(true), true);
  Eigen::MatrixXd J = change_jacobian(s, r, vs, nl, t0, 0, t1, c1, G, o.do_fej);
  Eigen::MatrixXd T = Eigen::MatrixXd::Identity(n, n);
  T.middleRows(li, nl).setZero();
  int k = 0;
  for (auto &v : vs) { T.block(li, v->id(), nl, v->size()) = J.middleCols(k, v->size()); k += v->size(); }
  T.block(li, li, nl, nl) = J.rightCols(nl);
  Vars rest; for (auto &v : s->_variables) if (v != l) rest.push_back(v);
  Eigen::VectorXd v0 = h::values(rest);
  Eigen::MatrixXd E = T * P * T.transpose();
  updater()->perform_anchor_change(s, l, t1, c1);
  vf::check_eq("other variables", h::values(rest), v0);
  vf::check("anchor", l->_anchor_cam_id == c1 && l->_anchor_clone_timestamp == t1 && l->_feat_representation == r && l->_featid == 7 && l->has_had_anchor_change);
  vf::check_eq("the point stays where it is", l->get_xyz(false), h::to_cam(s, t1, c1, G, false));
  vf::check_eq("the first estimate of the point stays where it is", l->get_xyz(true), h::to_cam(s, t1, c1, Gf, true));
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
    bool li_i = i >= li && i < li + nl, li_j = j >= li && j < li + nl;
    std::string w = li_i && li_j ? "landmark covariance" : li_i || li_j ? "landmark cross covariance" : "other covariance";
    vf::check_eq(w, s->_Cov(i, j), E(i, j), 100); vf::check_eq(w, s->_Cov(j, i), E(i, j), 100);
  }
  vf::reach("end");
}
VF_CASE(joint_xyz) { run(Rep::ANCHORED_3D, false); }
VF_CASE(joint_inverse_depth) { run(Rep::ANCHORED_FULL_INVERSE_DEPTH, false); }
VF_CASE(joint_msckf_inverse_depth) { run(Rep::ANCHORED_MSCKF_INVERSE_DEPTH, false); }
VF_CASE(joint_single_depth) { run(Rep::ANCHORED_INVERSE_DEPTH_SINGLE, false); }
VF_CASE(point_xyz) { run(Rep::ANCHORED_3D, true); }
VF_CASE(point_msckf_inverse_depth) { run(Rep::ANCHORED_MSCKF_INVERSE_DEPTH, true); }
VF_CASE(point_single_depth) { run(Rep::ANCHORED_INVERSE_DEPTH_SINGLE, true); }
VF_CASE(which) { // only landmarks anchored in the pose about to leave the full window move, and to the current time
  StateOptions o; o.do_fej = true; o.max_clone_size = 2 + vf::choose("window", 2);
  auto s = h::vision_state(o, 2, 0, 3, true);
  std::vector<std::shared_ptr<Landmark>> ls; std::vector<double> at; std::vector<int> cams;
  for (int i = 0; i < 3; i++) {
    Rep r = i == 2 ? Rep::GLOBAL_3D : i ? Rep::ANCHORED_3D : Rep::ANCHORED_MSCKF_INVERSE_DEPTH;
    double t = i == 2 ? -1.0 : 1.0 + vf::choose("anchor" + std::to_string(i), 3);
    int cam = i == 2 ? -1 : i;
    Eigen::Vector3d x(vf::rnd("x" + std::to_string(i), -1, 1), vf::rnd("y" + std::to_string(i), -1, 1), vf::rnd("z" + std::to_string(i), 3, 6));
    ls.push_back(landmark(s, 10 + i, r, t, cam, x, x)); at.push_back(t); cams.push_back(cam);
  }
  s->_Cov = h::cov("P", s->_Cov.rows(), false);
  s->_Cov(ls[0]->id(), ls[0]->id()) = vf::input("var", 1, 3);
  Eigen::MatrixXd P = s->_Cov;
  bool full = o.max_clone_size == 2;
  Eigen::MatrixXd v0[3], f0[3]; for (int i = 0; i < 3; i++) { v0[i] = ls[i]->value(); f0[i] = ls[i]->fej(); }
  updater()->change_anchors(s);
  for (int i = 0; i < 3; i++) {
    bool moves = full && i < 2 && at[i] == 1.0;
    vf::check("who moves", ls[i]->_anchor_clone_timestamp == (moves ? 3.0 : at[i]) && ls[i]->_anchor_cam_id == cams[i]);
    if (!moves) { vf::check_eq("others keep their value", ls[i]->value(), v0[i]); vf::check_eq("others keep their first estimate", ls[i]->fej(), f0[i]); }
    for (int j = 0; j < 3; j++) {
      bool mj = full && j < 2 && at[j] == 1.0;
      if (!moves && !mj) vf::check_eq("others keep their covariance", s->_Cov.block(ls[i]->id(), ls[j]->id(), ls[i]->size(), ls[j]->size()), P.block(ls[i]->id(), ls[j]->id(), ls[i]->size(), ls[j]->size()));
    }
  }
  vf::reach("end");
}
