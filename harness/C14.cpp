// Covariance propagation: P' = Phi P Phi^T + Q on the propagated block, cross terms carried, everything else untouched
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: every symmetric covariance, every transition matrix and every symmetric noise, for state layouts of up to 6 variables (1..7 dof each), propagated block at the start, in the middle or at the end, old variables contiguous or not, in any listed order; the full 15-dof IMU block in a state with calibration, one clone and one landmark
// VF-OUTSIDE: larger states; rounding
#include "state_common.h"
static void run(std::shared_ptr<State> s, const Vars &nw, const Vars &old, const Eigen::MatrixXd &P, const Eigen::MatrixXd &Phi, const Eigen::MatrixXd &Q) {
  int n = P.rows(), m = Phi.rows(), id = nw[0]->id();
  Eigen::MatrixXd F = Eigen::MatrixXd::Identity(n, n);
  F.block(id, 0, m, n).setZero();
  int at = 0;
  for (auto &v : old) { F.block(id, v->id(), m, v->size()) = Phi.block(0, at, m, v->size()); at += v->size(); }
  Eigen::MatrixXd E = F * P * F.transpose();
  E.block(id, id, m, m) += Q;
  for (int i = 0; i < n; i++) vf::assume(vf::le(0, E(i, i)));
  Eigen::VectorXd before = h::values(s->_variables);
  s->_Cov = P;
  StateHelper::EKFPropagation(s, nw, old, Phi, Q);
  vf::check_eq("covariance is F P F^T + Q", s->_Cov, E);
  vf::check_eq("estimates untouched", h::values(s->_variables), before);
  vf::check("layout untouched", h::layout_ok(s));
  vf::reach("propagated");
}
VF_CASE(plain_layouts) {
  Vars v;
  auto s = h::plain_state({2, 1, 3, 1}, v);
  Eigen::MatrixXd P = h::cov("P", 7, true);
  static const int lay[6][2][4] = {{{0, -1}, {0, -1}}, {{0, 1, -1}, {0, 1, -1}}, {{0, -1}, {0, 3, -1}}, {{1, 2, -1}, {2, 0, 1, -1}}, {{3, -1}, {1, -1}}, {{1, -1}, {3, 0, -1}}};
  int k = vf::choose("layout", 6);
  Vars nw, old; int a = 0, b = 0;
  for (int i = 0; lay[k][0][i] >= 0; i++) { nw.push_back(v[lay[k][0][i]]); a += nw.back()->size(); }
  for (int i = 0; lay[k][1][i] >= 0; i++) { old.push_back(v[lay[k][1][i]]); b += old.back()->size(); }
  run(s, nw, old, P, vf::inputs("Phi", a, b, -10, 10), h::cov("Q", a, true));
}
VF_CASE(imu_block) {
  StateOptions o;
  o.do_calib_camera_timeoffset = true; o.do_calib_camera_pose = true;
  auto s = std::make_shared<State>(o);
  h::set_imu(s->_imu, "imu");
  h::add_clone(s, 1.0, "c");
  h::add_landmark(s, 7);
  int n = s->_Cov.rows();
  Eigen::MatrixXd Phi = vf::rnds("Phi", 15, 15);
  for (int i = 0; i < 15; i++) { Phi(i, (i * 4 + 1) % 15) = vf::input("f" + std::to_string(i), -5, 5); Phi(i, (i * 7 + 2) % 15) = 0; }
  run(s, {s->_imu}, {s->_imu}, h::cov("P", n, true), Phi, h::cov("Q", 15, true));
}
VF_CASE(imu_with_intrinsics) {
  StateOptions o;
  o.do_calib_imu_intrinsics = true; o.do_calib_imu_g_sensitivity = vf::choose("tg", 2);
  o.imu_model = vf::choose("rpng", 2) ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  auto s = std::make_shared<State>(o);
  h::set_imu(s->_imu, "imu");
  h::add_clone(s, 1.0, "c");
  Vars nw{s->_imu, s->_calib_imu_dw, s->_calib_imu_da};
  if (o.do_calib_imu_g_sensitivity) nw.push_back(s->_calib_imu_tg);
  if (o.imu_model == StateOptions::ImuModel::RPNG) nw.push_back(s->_calib_imu_ACCtoIMU); else nw.push_back(s->_calib_imu_GYROtoIMU);
  int m = 15 + s->imu_intrinsic_size();
  Eigen::MatrixXd Phi = vf::rnds("Phi", m, m);
  run(s, nw, nw, h::cov("P", m + 6, false), Phi, h::cov("Q", m, true));
}
VF_CASE(repeated) {
  // three steps in a row equal one step with the composed transition
  Vars v;
  auto s = h::plain_state({2, 2}, v);
  Eigen::MatrixXd P = h::cov("P", 4, false), Phi = vf::rnds("Phi", 2, 2), Q = h::cov("Q", 2, false);
  Phi(0, 1) = vf::input("a", -1, 1);
  P(0, 3) = P(3, 0) = vf::input("c", -0.1, 0.1);
  s->_Cov = P;
  Eigen::MatrixXd F = Eigen::MatrixXd::Identity(4, 4), G = Eigen::MatrixXd::Zero(4, 4), E = P;
  F.block(0, 0, 2, 2) = Phi; G.block(0, 0, 2, 2) = Q;
  for (int i = 0; i < 3; i++) { E = F * E * F.transpose() + G; for (int k = 0; k < 4; k++) vf::assume(vf::le(0, E(k, k))); }
  for (int i = 0; i < 3; i++) StateHelper::EKFPropagation(s, {v[0]}, {v[0]}, Phi, Q);
  vf::check_eq("three steps", s->_Cov, E);
  vf::reach("end");
}
