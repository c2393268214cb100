// The IMU mean prediction is the solution of the motion equations for the chosen integration method
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/Propagator.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: closed form and first-order methods: every rate about seeded rational axes (turning angle 0.001..3 rad in the step), every specific force, velocity and position, every step; Runge-Kutta: every pair of specific forces with seeded rates (within 1e-6 rad, 5e-6 m/s, 5e-7 m of the exact motion at turning angles up to 0.1 rad, rates changing by up to 0.1 rad/s), exact without rotation; every option of the inertial intrinsic model with seeded values
// VF-OUTSIDE: rounding; closed form at rates in (0, 0.5) deg/s only within the size of the turning angle
#include "prop_common.h"
static const double ax[3][3] = {{2, 1, 2}, {-2, 2, 1}, {1, -2, 2}};
struct Out { Eigen::Vector4d q; Eigen::Vector3d p, v; };
static std::shared_ptr<State> mk(StateOptions &o, StateOptions::IntegrationMethod im, int calib) {
  o.integration_method = im;
  o.imu_model = calib & 1 ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  o.do_calib_imu_intrinsics = calib & 2; o.do_calib_imu_g_sensitivity = calib & 2; o.do_fej = calib & 1;
  auto s = h::imu_state(o, true);
  Eigen::Matrix<double, 16, 1> x = s->_imu->value();
  x.block(4, 0, 3, 1) = vf::in_vec3("p0", true, -100, 100); x.block(7, 0, 3, 1) = vf::in_vec3("v0", true, -20, 20);
  s->_imu->set_value(x);
  return s;
}
static Out predict(std::shared_ptr<State> s, double dt, const Eigen::Vector3d &w1, const Eigen::Vector3d &a1, const Eigen::Vector3d &w2, const Eigen::Vector3d &a2) {
  NoiseManager nm;
  Propagator p(nm, 9.81);
  ImuData m1 = h::raw(s, 5, w1, a1), m2 = h::raw(s, 5, w2, a2);
  m1.timestamp = 0; m2.timestamp = dt;
  Eigen::MatrixXd F, Q, x0 = s->_imu->value(), f0 = s->_imu->fej();
  p.predict_and_compute(s, m1, m2, F, Q);
  Out r{s->_imu->quat(), s->_imu->pos(), s->_imu->vel()};
  vf::check_eq("biases constant", s->_imu->value().block(10, 0, 6, 1), x0.block(10, 0, 6, 1));
  s->_imu->set_value(x0); s->_imu->set_fej(f0);
  return r;
}
static const Eigen::Vector3d grav(0, 0, 9.81);
VF_CASE(closed_form) {
  StateOptions o;
  auto s = mk(o, StateOptions::IntegrationMethod::ANALYTICAL, vf::choose("calibration", 4));
  double rate = vf::input("rate", 0.01, 100), th = vf::in_angle("theta", 0.001, 3), dt = th / rate;
  Eigen::Vector3d w, a = vf::in_vec3("a", true, -20, 20);
  int k = vf::choose("axis", vf::thorough() ? 3 : 1);
  for (int i = 0; i < 3; i++) w(i) = ax[k][i] / 3 * rate;
  vf::set_half_angles(true);
  Out r = predict(s, dt, w, a, w, a);
  // the motion equations
  auto f = [&](const Eigen::VectorXd &e) { Out y = predict(s, dt + e(0), w, a, w, a); Eigen::VectorXd z(10); z << y.q, y.p, y.v; return z; };
  Eigen::VectorXd d = vf::jacobian(f, 1);
  Eigen::Matrix3d R = quat_2_Rot(r.q);
  vf::check_eq("orientation rate", d.head(4), 0.5 * Omega(w) * r.q);
  vf::check_eq("velocity is the rate of position", d.segment(4, 3), r.v);
  vf::check_eq("acceleration is rotated specific force less gravity", d.tail(3), R.transpose() * a - grav);
  vf::check_eq("orientation", R, exp_so3(-w * dt) * s->_imu->Rot());
  vf::reach("end");
}
VF_CASE(closed_form_start) { // the integration constant
  StateOptions o;
  auto s = mk(o, StateOptions::IntegrationMethod::ANALYTICAL, vf::choose("calibration", 4));
  Eigen::Vector3d w = vf::rnds("w", 3), a = vf::in_vec3("a", true, -20, 20);
  if (vf::choose("small", 2)) w = w / 1000;
  Out r = predict(s, 0, w, a, w, a);
  vf::check_eq("q", quat_2_Rot(r.q), s->_imu->Rot()); vf::check_eq("p", r.p, s->_imu->pos()); vf::check_eq("v", r.v, s->_imu->vel());
  vf::reach("end");
}
VF_CASE(no_rotation) {
  static const StateOptions::IntegrationMethod ims[3] = {StateOptions::IntegrationMethod::ANALYTICAL, StateOptions::IntegrationMethod::RK4, StateOptions::IntegrationMethod::DISCRETE};
  StateOptions o;
  int k = vf::choose("method", 3);
  auto s = mk(o, ims[k], vf::choose("calibration", 4));
  Eigen::Vector3d w = Eigen::Vector3d::Zero(), a1 = vf::in_vec3("a1", true, -20, 20), a2 = vf::in_vec3("a2", true, -20, 20);
  double dt = vf::input("dt", 1e-4, 1);
  Out r = predict(s, dt, w, a1, w, a2);
  vf::check_eq("q", quat_2_Rot(r.q), s->_imu->Rot());
  Eigen::Vector3d mean = 0.5 * (a1 + a2);
  Eigen::Vector3d second = k == 1 ? Eigen::Vector3d(a1 / 3 + a2 / 6) : Eigen::Vector3d(0.5 * mean); // linear specific force, or its mean
  vf::check_eq("v", r.v, s->_imu->vel() + dt * (s->_imu->Rot().transpose() * mean - grav));
  vf::check_eq("p", r.p, s->_imu->pos() + dt * s->_imu->vel() + dt * dt * (s->_imu->Rot().transpose() * second - 0.5 * grav));
  vf::reach("end");
}
VF_CASE(first_order) {
  StateOptions o;
  auto s = mk(o, StateOptions::IntegrationMethod::DISCRETE, vf::choose("calibration", 4));
  double rate = vf::input("rate", 0.001, 100), th = vf::in_angle("theta", 0.001, 3), dt = th / rate;
  Eigen::Vector3d w, a1 = vf::in_vec3("a1", true, -20, 20), a2 = vf::in_vec3("a2", true, -20, 20);
  for (int i = 0; i < 3; i++) w(i) = ax[1][i] / 3 * rate;
  Eigen::Vector3d dw = vf::rnds("dw", 3);
  vf::set_half_angles(true);
  Out r = predict(s, dt, w + dw, a1, w - dw, a2);
  Eigen::Vector3d a = 0.5 * (a1 + a2);
  vf::check_eq("q", quat_2_Rot(r.q), exp_so3(-w * dt) * s->_imu->Rot());
  vf::check_eq("v", r.v, s->_imu->vel() + dt * (s->_imu->Rot().transpose() * a - grav));
  vf::check_eq("p", r.p, s->_imu->pos() + dt * s->_imu->vel() + 0.5 * dt * dt * (s->_imu->Rot().transpose() * a - grav));
  vf::reach("end");
}
VF_CASE(runge_kutta) {
  vf::set_rounded_constants(true);
  StateOptions o;
  auto s = mk(o, StateOptions::IntegrationMethod::RK4, vf::thorough() ? vf::choose("calibration", 4) : 2);
  Eigen::MatrixXd t0 = Eigen::MatrixXd::Zero(9, 1); s->_calib_imu_tg->set_value(t0); // keeps the rates constants; the sensitivity is covered by the other cases
  Eigen::Vector3d w1 = vf::rnds("w1", 3), w2 = w1 + vf::rnds("w2", 3) * 0.125, a1 = vf::in_vec3("a1", true, -20, 20), a2 = a1 + vf::in_vec3("da2", true, -2, 2);
  double dt = vf::rnd("dt", 0.02, 0.06);
  Out r = predict(s, dt, w1, a1, w2, a2);
  // the exact motion, by composing many small rotations and Simpson sums (its own error is below 1e-9)
  int n = 24;
  std::vector<Eigen::Matrix3d> Rt(2 * n + 1);
  Rt[0].setIdentity();
  double hstep = dt / (2 * n);
  for (int i = 0; i < 2 * n; i++) { Eigen::Vector3d wm = w1 + (w2 - w1) * (double(2 * i + 1) / (4 * n)); Rt[i + 1] = Rt[i] * exp_so3(wm * hstep); }
  Eigen::Matrix3d A0 = Eigen::Matrix3d::Zero(), A1 = A0, B0 = A0, B1 = A0; // integrals of R, R s, (dt - t) R, (dt - t) R s
  for (int i = 0; i <= 2 * n; i++) {
    double c = hstep / 3 * (i == 0 || i == 2 * n ? 1 : i % 2 ? 4 : 2), sx = double(i) / (2 * n);
    A0 += c * Rt[i]; A1 += c * sx * Rt[i]; B0 += c * dt * (1 - sx) * Rt[i]; B1 += c * dt * (1 - sx) * sx * Rt[i];
  }
  Eigen::Matrix3d R0 = s->_imu->Rot();
  vf::check_near("q", quat_2_Rot(r.q), Rt[2 * n].transpose() * R0, 1e-6);
  vf::check_near("v", r.v, s->_imu->vel() + R0.transpose() * (A0 * a1 + A1 * (a2 - a1)) - dt * grav, 5e-6);
  vf::check_near("p", r.p, s->_imu->pos() + dt * s->_imu->vel() + R0.transpose() * (B0 * a1 + B1 * (a2 - a1)) - 0.5 * dt * dt * grav, 5e-7);
  vf::reach("end");
}
VF_CASE(closed_form_small_rate) { // an approximation below half a degree per second: off by at most the turning angle
  StateOptions o;
  auto s = mk(o, StateOptions::IntegrationMethod::ANALYTICAL, 0);
  vf::set_rounded_constants(true);
  Eigen::Vector3d w, a = vf::in_vec3("a", true, -20, 20);
  double dt = vf::rnd("dt", 0.02, 0.2), rate = vf::rnd("rate", 0.001, 0.008);
  for (int i = 0; i < 3; i++) w(i) = ax[0][i] / 3 * rate;
  Out r = predict(s, dt, w, a, w, a);
  Eigen::Matrix3d R0 = s->_imu->Rot();
  vf::check_near("q", quat_2_Rot(r.q), exp_so3(-w * dt) * R0, 1e-10);
  Eigen::Vector3d v = s->_imu->vel() + dt * (R0.transpose() * a - grav), p = s->_imu->pos() + dt * s->_imu->vel() + 0.5 * dt * dt * (R0.transpose() * a - grav);
  vf::check_near("v", r.v, v, 60 * 0.0016 * 0.2); vf::check_near("p", r.p, p, 60 * 0.0016 * 0.2 * 0.2);
  vf::reach("end");
}
