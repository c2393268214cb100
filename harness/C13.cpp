// The transition matrix and the injected noise are the derivatives of the mean propagation
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/Propagator.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: one step of any length in (0, 1] s, every specific force, every body rate about seeded rational axes (angle within the step 0.001..3 rad; also no rotation), every noise level; both intrinsic models, with and without intrinsics and gravity sensitivity, closed-form and first-order integration; seeded rational state and calibration values
// VF-OUTSIDE: rounding; transition matrix of the Runge-Kutta mean (taken from the closed-form model); rates strictly between 0 and 0.5 deg/s in the closed-form model
#include "prop_common.h"
static const double ax[3][3] = {{2, 1, 2}, {-2, 2, 1}, {1, -2, 2}};
struct Setup { StateOptions o; std::shared_ptr<State> s; ImuData m1, m2; double dt; Eigen::Vector3d w, a; };
static Setup mk(StateOptions::IntegrationMethod im, bool fej_differs, bool rotate, bool split, bool fixed_rate = false, int calib = -1) {
  Setup S;
  S.o.integration_method = im;
  int k = calib >= 0 ? calib : vf::choose("calibration", 5);
  S.o.do_calib_imu_intrinsics = k > 0; S.o.do_calib_imu_g_sensitivity = k == 2 || k == 4; S.o.imu_model = k > 2 ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  S.o.do_fej = fej_differs;
  S.s = h::imu_state(S.o, fej_differs);
  S.dt = fixed_rate ? vf::rnd("dt", 0.1, 0.5) : vf::input("dt", 1e-3, 1);
  S.w = Eigen::Vector3d::Zero();
  if (!fixed_rate && rotate) { double th = vf::in_angle("theta", 0.01, 3); int x = vf::choose("axis", vf::thorough() ? 3 : 1); for (int i = 0; i < 3; i++) S.w(i) = ax[x][i] / 3 * th / S.dt; }
  S.a = vf::in_vec3("a", true, -20, 20);
  // the two readings differ, their average is (w, a)
  Eigen::Vector3d dw = Eigen::Vector3d::Zero(), da = Eigen::Vector3d::Zero();
  if (split) { dw = vf::rnds("dwm", 3, 1, -0.1, 0.1); da = vf::rnds("dam", 3); }
  S.m1 = h::raw(S.s, 5, S.w - dw, S.a - da);
  S.m2 = h::raw(S.s, 5 + S.dt, S.w + dw, S.a + da);
  return S;
}
static void derivative(Setup S, bool still = false) {
  const double tol = 0;
  NoiseManager nm = h::noises();
  Propagator p(nm, 9.81);
  Eigen::MatrixXd F, Q;
  Vars vs = h::imu_vars(S.s);
  int n = 0; for (auto &v : vs) n += v->size();
  std::vector<Eigen::MatrixXd> x0, x1;
  for (auto &v : vs) x0.push_back(v->value());
  p.predict_and_compute(S.s, S.m1, S.m2, F, Q);
  Eigen::MatrixXd r = S.s->_imu->value();
  vf::check_eq("new linearisation point is the new estimate", S.s->_imu->fej(), r);
  vf::check_eq("biases constant", r.block(10, 0, 6, 1), x0[0].block(10, 0, 6, 1));
  for (size_t i = 1; i < vs.size(); i++) vf::check_eq("calibration constant", vs[i]->value(), x0[i]);
  auto f = [&](const Eigen::VectorXd &e) {
    for (size_t i = 0; i < vs.size(); i++) { vs[i]->set_value(x0[i]); vs[i]->set_fej(x0[i]); }
    h::boxplus(vs, e);
    for (auto &v : vs) v->set_fej(v->value());
    if (still) { // exact motion to first order in the rate, written out here (the code's own mean is an approximation at very small rates)
      Eigen::Matrix3d Rw = S.s->_calib_imu_GYROtoIMU->Rot(), Ra = S.s->_calib_imu_ACCtoIMU->Rot(), R0 = S.s->_imu->Rot();
      Eigen::Vector3d ac = Ra * h::Dmat(S.o, S.s->_calib_imu_da->value()) * (S.m1.am - S.s->_imu->bias_a());
      Eigen::Vector3d w = Rw * h::Dmat(S.o, S.s->_calib_imu_dw->value()) * (S.m1.wm - S.s->_imu->bias_g() - h::Tmat(S.s->_calib_imu_tg->value()) * ac), g(0, 0, 9.81);
      Eigen::Matrix3d E = (Eigen::Matrix3d::Identity() - S.dt * skew_x(w)) * R0 * quat_2_Rot(r.block(0, 0, 4, 1)).transpose();
      Eigen::VectorXd y = e;
      y(0) = 0.5 * (E(1, 2) - E(2, 1)); y(1) = 0.5 * (E(2, 0) - E(0, 2)); y(2) = 0.5 * (E(0, 1) - E(1, 0));
      y.segment(3, 3) = S.s->_imu->pos() + S.dt * S.s->_imu->vel() + R0.transpose() * (0.5 * S.dt * S.dt * ac + S.dt * S.dt * S.dt / 6 * skew_x(w) * ac) - 0.5 * S.dt * S.dt * g - r.block(4, 0, 3, 1);
      y.segment(6, 3) = S.s->_imu->vel() + R0.transpose() * (S.dt * ac + 0.5 * S.dt * S.dt * skew_x(w) * ac) - S.dt * g - r.block(7, 0, 3, 1);
      return y;
    }
    Eigen::MatrixXd F2, Q2;
    p.predict_and_compute(S.s, S.m1, S.m2, F2, Q2);
    Eigen::VectorXd y = e;
    y.head(15) = h::imu_error(S.s->_imu->value(), r);
    return y;
  };
  Eigen::MatrixXd D = vf::jacobian(f, n);
  auto cmp = [&](const std::string &nm, int i, int j, int a, int b) {
    if (tol > 0) vf::check_near(nm, F.block(i, j, a, b), D.block(i, j, a, b), tol); else vf::check_eq(nm, F.block(i, j, a, b), D.block(i, j, a, b));
  };
  static const char *out[5] = {"orientation", "position", "velocity", "gyro bias", "accel bias"};
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) cmp(std::string("F: ") + out[i] + " by " + out[j], 3 * i, 3 * j, 3, 3);
  int at = 15;
  for (size_t k = 1; k < vs.size(); k++) {
    static const char *c6[2] = {"gyro intrinsics", "accel intrinsics"};
    std::string nm = k <= 2 ? c6[k - 1] : vs[k]->size() == 9 ? "gravity sensitivity" : "sensor rotation";
    for (int i = 0; i < 5; i++) cmp(std::string("F: ") + out[i] + " by " + nm, 3 * i, at, 3, vs[k]->size());
    cmp("F: " + nm + " by everything", at, 0, vs[k]->size(), n);
    at += vs[k]->size();
  }
  // white noise enters like the biases, bias walks enter the biases
  Eigen::MatrixXd Gw = D.middleCols(9, 3), Ga = D.middleCols(12, 3);
  Gw.middleRows(9, n - 9).setZero(); Ga.middleRows(9, n - 9).setZero();
  Eigen::MatrixXd E = nm.sigma_w * nm.sigma_w / S.dt * Gw * Gw.transpose() + nm.sigma_a * nm.sigma_a / S.dt * Ga * Ga.transpose();
  for (int i = 0; i < 3; i++) { E(9 + i, 9 + i) += nm.sigma_wb * nm.sigma_wb * S.dt; E(12 + i, 12 + i) += nm.sigma_ab * nm.sigma_ab * S.dt; }
  if (tol == 0) vf::check_eq("injected noise", Q, E);
  vf::reach("end");
}
VF_CASE(closed_form) { derivative(mk(StateOptions::IntegrationMethod::ANALYTICAL, false, true, false, false, 0)); }
VF_CASE_THOROUGH(closed_form_kalibr_intrinsics) { derivative(mk(StateOptions::IntegrationMethod::ANALYTICAL, false, true, false, false, 1)); }
VF_CASE(closed_form_kalibr_all) { derivative(mk(StateOptions::IntegrationMethod::ANALYTICAL, false, true, true, false, 2)); }
VF_CASE_THOROUGH(closed_form_rpng_intrinsics) { derivative(mk(StateOptions::IntegrationMethod::ANALYTICAL, false, true, true, false, 3)); }
VF_CASE(closed_form_rpng_all) { derivative(mk(StateOptions::IntegrationMethod::ANALYTICAL, false, true, false, false, 4)); }
VF_CASE(first_order) { vf::set_half_angles(true); derivative(mk(StateOptions::IntegrationMethod::DISCRETE, false, true, false)); }
// directions the sensors cannot observe stay unobservable, whatever the linearisation point: translation and rotation about gravity
static void unobservable(StateOptions::IntegrationMethod im) {
  Setup S = mk(im, true, true, false, im == StateOptions::IntegrationMethod::RK4);
  NoiseManager nm = h::noises();
  Propagator p(nm, 9.81);
  Eigen::MatrixXd F, Q;
  Eigen::Vector3d g(0, 0, 1);
  auto N = [&](const Eigen::MatrixXd &x, int n) {
    Eigen::Vector4d q = x.block(0, 0, 4, 1); Eigen::Vector3d pp = x.block(4, 0, 3, 1), v = x.block(7, 0, 3, 1);
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(n, 4);
    R.block(0, 0, 3, 1) = quat_2_Rot(q) * g; R.block(3, 0, 3, 1) = -skew_x(pp) * g; R.block(6, 0, 3, 1) = -skew_x(v) * g;
    R.block(3, 1, 3, 3).setIdentity();
    return R;
  };
  Eigen::MatrixXd f0 = S.s->_imu->fej();
  p.predict_and_compute(S.s, S.m1, S.m2, F, Q);
  vf::check_eq("unobservable directions are mapped to themselves", F * N(f0, F.cols()), N(S.s->_imu->value(), F.rows()));
  vf::reach("end");
}
VF_CASE(unobservable_closed_form) { unobservable(StateOptions::IntegrationMethod::ANALYTICAL); }
VF_CASE(unobservable_first_order) { unobservable(StateOptions::IntegrationMethod::DISCRETE); }
VF_CASE(unobservable_runge_kutta) { unobservable(StateOptions::IntegrationMethod::RK4); }
VF_CASE(no_rotation) { derivative(mk(StateOptions::IntegrationMethod::ANALYTICAL, false, false, false, false, 2), true); }
