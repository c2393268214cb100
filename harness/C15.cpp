// Measurement update: K = P H^T (H P H^T + R)^-1, x' = x boxplus K r, P' = P - K H P, for measurements of any variables in any order
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: up to 3 measurement rows; every symmetric covariance with given rational H, R and every H, R, residual with a given rational covariance (plain layouts up to 8 dof); the real state layout (IMU, calibration, clone, landmark, two cameras) with symbolic residual, symbolic Jacobian entries and symbolic covariance entries
// VF-OUTSIDE: more rows; rounding; singular innovation covariance
#include "state_common.h"
static void run(std::shared_ptr<State> s, const Vars &ord, const Eigen::MatrixXd &P, const Eigen::MatrixXd &H, const Eigen::VectorXd &r, const Eigen::MatrixXd &R) {
  int n = P.rows(), m = H.rows();
  Eigen::MatrixXd HX = Eigen::MatrixXd::Zero(m, n);
  int at = 0;
  for (auto &v : ord) { HX.block(0, v->id(), m, v->size()) += H.block(0, at, m, v->size()); at += v->size(); }
  Eigen::MatrixXd M = P * HX.transpose();
  Eigen::MatrixXd S = HX * M + R;
  Eigen::MatrixXd Si = S.inverse();
  Eigen::MatrixXd E = P - M * Si * M.transpose();
  Eigen::VectorXd dx = M * (Si * r);
  for (int i = 0; i < n; i++) vf::assume(vf::le(0, E(i, i)));
  Vars want;
  for (auto &v : s->_variables) { want.push_back(v->clone()); want.back()->update(dx.segment(v->id(), v->size())); }
  s->_Cov = P;
  StateHelper::EKFUpdate(s, ord, H, r, R);
  vf::check_eq("P' = P - P H^T S^-1 H P", s->_Cov, E);
  vf::check_eq("covariance symmetric", s->_Cov, Eigen::MatrixXd(s->_Cov.transpose()));
  vf::check_eq("every variable moved by its own part of K r", h::values(s->_variables), h::values(want));
  vf::check("layout untouched", h::layout_ok(s));
  vf::reach("updated");
}
static const int ords[5][4] = {{0, -1}, {2, -1}, {0, 1, -1}, {3, 0, -1}, {2, 3, 1, -1}};
static Vars pick(const Vars &v, int k, int &sz) { Vars o; sz = 0; for (int i = 0; ords[k][i] >= 0; i++) { o.push_back(v[ords[k][i]]); sz += o.back()->size(); } return o; }
VF_CASE(any_covariance) {
  Vars v; auto s = h::plain_state({2, 1, 3, 1}, v);
  int sz; Vars o = pick(v, vf::choose("order", 5), sz); int m = 1 + vf::choose("rows", 2);
  run(s, o, h::cov("P", 7, true), vf::rnds("H", m, sz), vf::inputs("r", m, 1, -5, 5), h::cov("R", m, false));
}
VF_CASE(any_jacobian) {
  Vars v; auto s = h::plain_state({2, 1, 3, 1}, v);
  int sz; Vars o = pick(v, vf::choose("order", 5), sz); int m = 1 + vf::choose("rows", 2);
  Eigen::MatrixXd H = vf::inputs("H", m, sz, -5, 5);
  run(s, o, h::cov("P", 7, false), H, vf::inputs("r", m, 1, -5, 5), h::cov("R", m, false));
}
VF_CASE(any_noise) {
  Vars v; auto s = h::plain_state({2, 1, 3, 1}, v);
  int sz; Vars o = pick(v, 4, sz);
  run(s, o, h::cov("P", 7, false), vf::rnds("H", 3, sz), vf::inputs("r", 3, 1, -5, 5), h::cov("R", 3, true));
}
VF_CASE(full_state) {
  StateOptions op;
  op.do_calib_camera_timeoffset = true; op.do_calib_camera_pose = true; op.do_calib_camera_intrinsics = vf::choose("intrinsics", 2); op.num_cameras = 2;
  auto s = std::make_shared<State>(op);
  h::set_imu(s->_imu, "imu");
  std::vector<Eigen::MatrixXd> before;
  for (int c = 0; c < 2; c++) {
    h::set_pose(s->_calib_IMUtoCAM[c], "e" + std::to_string(c));
    Eigen::MatrixXd k = vf::rnds("k" + std::to_string(c), 8);
    s->_cam_intrinsics[c]->set_value(k); s->_cam_intrinsics[c]->set_fej(k);
    s->_cam_intrinsics_cameras[c] = std::make_shared<CamRadtan>(64, 48);
    s->_cam_intrinsics_cameras[c]->set_value(k);
  }
  auto c1 = h::add_clone(s, 1.0, "c");
  auto f = h::add_landmark(s, 7);
  f->set_from_xyz(vf::rnds("f", 3), false); f->set_from_xyz(vf::rnds("ff", 3), true);
  Vars ord{c1, f, s->_calib_IMUtoCAM[1]};
  if (op.do_calib_camera_intrinsics) ord.push_back(s->_cam_intrinsics[1]);
  ord.push_back(s->_calib_dt_CAMtoIMU);
  int sz = 0; for (auto &v : ord) sz += v->size();
  int n = s->_Cov.rows();
  Eigen::MatrixXd P = h::cov("P", n, false), H = vf::rnds("H", 2, sz);
  int k = vf::choose("symbolic", 3);
  if (k == 1) H(0, 2) = vf::input("h0", -1, 1);
  if (k == 2) P(c1->id() + 1, n - 2) = P(n - 2, c1->id() + 1) = vf::input("p0", -0.1, 0.1);
  run(s, ord, P, H, vf::inputs("r", 2, 1, -1, 1, k == 0), h::cov("R", 2, false));
  for (int c = 0; c < 2; c++) vf::check_eq("camera models follow the calibration estimate", s->_cam_intrinsics_cameras[c]->get_value(), s->_cam_intrinsics[c]->value());
  vf::reach("end");
}
