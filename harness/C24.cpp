// Moving the filter to a camera time: readings, time offset, covariance and the new window pose; high-rate prediction
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/Propagator.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: two consecutive camera times over seeded readings (five in total), every joint covariance of the state (inertial, calibration and window poses), every noise level, every integration method; high-rate prediction: two to three successive calls, every noise level, covariance and velocity
// VF-OUTSIDE: rounding; high-rate covariance with a non-trivial inertial calibration (documented as not modelled)
#include "prop_common.h"
static const double g = 9.81;
static std::vector<ImuData> readings(int n, double dt, double from) {
  std::vector<ImuData> d;
  for (int i = 0; i < n; i++) { ImuData m; m.timestamp = from + dt * i; m.wm = vf::rnds("w" + std::to_string(i), 3); m.am = vf::rnds("a" + std::to_string(i), 3, 1, -5, 5); d.push_back(m); }
  return d;
}
static NoiseManager fixed_noises() { NoiseManager nm; nm.sigma_w = 0.01; nm.sigma_a = 0.02; nm.sigma_wb = 0.03; nm.sigma_ab = 0.04; nm.sigma_w_2 = 0.0001; nm.sigma_a_2 = 0.0004; nm.sigma_wb_2 = 0.0009; nm.sigma_ab_2 = 0.0016; return nm; }
static std::shared_ptr<State> copy(std::shared_ptr<State> s, StateOptions &o) {
  auto r = h::imu_state(o, true);
  r->_imu->set_value(s->_imu->value()); r->_imu->set_fej(s->_imu->fej());
  return r;
}
static void go(StateOptions::IntegrationMethod im, int calib) {
  StateOptions o;
  o.integration_method = im;
  o.do_calib_imu_intrinsics = calib & 1; o.do_calib_imu_g_sensitivity = calib & 1; o.do_calib_camera_timeoffset = calib & 2; o.do_fej = vf::choose("fej", 2);
  o.imu_model = calib & 1 ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR; o.max_clone_size = 5;
  auto s = h::imu_state(o, true);
  NoiseManager nm = fixed_noises();
  Propagator p(nm, g), ref(nm, g);
  double off0 = 0.0625, off1 = 0.0859375, off2 = 0.0546875; // the estimate of the time offset between the calls
  Eigen::MatrixXd off(1, 1);
  off << off0; s->_calib_dt_CAMtoIMU->set_value(off);
  s->_timestamp = 10;
  h::add_clone(s, 10, "c");
  int n = s->_Cov.rows();
  s->_Cov = h::cov("P", n, false);
  // a covariance with one symbolic block: the window pose against everything propagated
  for (int j = 0; j < 3; j++) for (int i = 0; i < 15; i++) { double v = vf::input("X" + std::to_string(i) + "," + std::to_string(j), -1, 1); s->_Cov(i, n - 3 + j) = v; s->_Cov(n - 3 + j, i) = v; }
  for (int i = 3; i < 9; i++) for (int j = 3; j <= i; j++) { double v = vf::input("Y" + std::to_string(i) + "," + std::to_string(j), i == j ? 1 : -0.1, i == j ? 2 : 0.1); s->_Cov(i, j) = v; s->_Cov(j, i) = v; }
  auto d = readings(6, 0.03125, 10.046875);
  for (auto &m : d) p.feed_imu(m);
  double times[3] = {10, 10.0625, 10.140625};
  double last = off0, next[3] = {off0, off1, off2};
  std::shared_ptr<State> r = copy(s, o);
  Eigen::MatrixXd P = s->_Cov;
  int steps = vf::choose("steps", 2) + 1;
  for (int k = 1; k <= steps; k++) {
    // an update in between moves the offset: the interval starts where the last one ended
    double cur = k == 1 ? off0 : next[k - 1];
    off << cur; s->_calib_dt_CAMtoIMU->set_value(off); s->_calib_dt_CAMtoIMU->set_fej(off);
    auto sel = Propagator::select_imu_readings(d, times[k - 1] + last, times[k] + cur);
    Vars v = h::imu_vars(s);
    int m = 0; for (auto &x : v) m += x->size();
    Eigen::MatrixXd F = Eigen::MatrixXd::Identity(m, m), Q = Eigen::MatrixXd::Zero(m, m);
    for (size_t i = 0; i + 1 < sel.size(); i++) { Eigen::MatrixXd Fi, Qi; ref.predict_and_compute(r, sel[i], sel[i + 1], Fi, Qi); F = Fi * F; Q = Fi * Q * Fi.transpose() + Qi; }
    // the diagonal stays positive (the filter stops otherwise)
    Eigen::MatrixXd A = Eigen::MatrixXd::Identity(P.rows(), P.rows()), N = Eigen::MatrixXd::Zero(P.rows(), P.rows());
    A.topLeftCorner(m, m) = F; N.topLeftCorner(m, m) = Q;
    Eigen::MatrixXd E = A * P * A.transpose() + N;
    for (int i = 0; i < m; i++) vf::assume(vf::le(0.0, E(i, i)));
    // the new pose: a copy of the current one, moving with the offset
    int nn = E.rows();
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(nn + 6, nn); J.topRows(nn).setIdentity(); J.block(nn, 0, 6, 6).setIdentity();
    if (o.do_calib_camera_timeoffset) {
      int t = s->_calib_dt_CAMtoIMU->id();
      Eigen::Matrix3d Dw = h::Dmat(o, s->_calib_imu_dw->value()), Da = h::Dmat(o, s->_calib_imu_da->value()), Tg = h::Tmat(s->_calib_imu_tg->value());
      Eigen::Vector3d a = quat_2_Rot(s->_calib_imu_ACCtoIMU->value()) * Da * (sel.back().am - r->_imu->bias_a());
      Eigen::Vector3d w = quat_2_Rot(s->_calib_imu_GYROtoIMU->value()) * Dw * (sel.back().wm - r->_imu->bias_g() - Tg * a);
      J.block(nn, t, 3, 1) = w; J.block(nn + 3, t, 3, 1) = r->_imu->vel();
    }
    P = J * E * J.transpose();
    p.propagate_and_clone(s, times[k]);
    last = cur;
    std::string at = " after step " + std::to_string(k);
    vf::check_near("inertial state" + at, s->_imu->value(), r->_imu->value(), 1e-9);
    vf::check_near("first estimate" + at, s->_imu->fej(), r->_imu->fej(), 1e-9);
    vf::check_eq("time" + at, s->_timestamp, times[k]);
    vf::check("new window pose" + at, (int)s->_clones_IMU.size() == k + 1 && s->_clones_IMU.count(times[k]));
    vf::check_eq("window pose value" + at, s->_clones_IMU.at(times[k])->value(), s->_imu->pose()->value());
    vf::check_eq("window pose first estimate" + at, s->_clones_IMU.at(times[k])->fej(), s->_imu->pose()->fej());
    vf::check_near("joint covariance" + at, s->_Cov, P, 1e-9);
    vf::check("layout" + at, h::layout_ok(s));
  }
  vf::reach("end");
}
VF_CASE(first_order) { vf::set_rounded_constants(true); go(StateOptions::IntegrationMethod::DISCRETE, vf::choose("calibration", 4)); }
VF_CASE(runge_kutta) { vf::set_rounded_constants(true); go(StateOptions::IntegrationMethod::RK4, vf::choose("calibration", 4)); }
VF_CASE(closed_form) { vf::set_rounded_constants(true); go(StateOptions::IntegrationMethod::ANALYTICAL, vf::choose("calibration", 4)); }
VF_CASE(high_rate) {
  vf::set_rounded_constants(true);
  bool calib = vf::choose("calibration", 2);
  StateOptions o;
  o.do_calib_imu_intrinsics = calib; o.do_calib_imu_g_sensitivity = calib;
  auto s = calib ? h::imu_state(o, true) : std::make_shared<State>(o);
  h::set_imu(s->_imu, "imu", true);
  Eigen::MatrixXd off(1, 1); off << 0.0625; s->_calib_dt_CAMtoIMU->set_value(off);
  s->_timestamp = 10;
  h::add_clone(s, 10, "c");
  s->_Cov = h::cov("P", s->_Cov.rows(), false);
  int calls = 1 + vf::choose("calls", 3), shift = vf::choose("between readings", 2);
  bool noisy = calls == 1 && shift;
  if (!noisy) for (int i = 3; i < 9; i++) for (int j = 3; j <= i; j++) { double v = vf::input("Y" + std::to_string(i) + "," + std::to_string(j), i == j ? 1 : -0.1, i == j ? 2 : 0.1); s->_Cov(i, j) = v; s->_Cov(j, i) = v; }
  Eigen::MatrixXd x0 = s->_imu->value(); x0.block(7, 0, 3, 1) = vf::in_vec3("v", true, -10, 10); s->_imu->set_value(x0);
  NoiseManager nm = noisy ? h::noises() : fixed_noises();
  Propagator p(nm, g);
  auto d = readings(6, 0.03125, 10.046875);
  for (auto &m : d) p.feed_imu(m);
  Eigen::MatrixXd before = h::values(s->_variables), P0 = s->_Cov;
  double times[3] = {10.09375, 10.125, 10.15625}; // on the inertial clock
  Eigen::Matrix<double, 13, 1> x; Eigen::Matrix<double, 12, 12> C;
  // reference: the first-order prediction over the readings from the state's time to the asked time
  Eigen::Vector4d q = s->_imu->quat(); Eigen::Vector3d pp = s->_imu->pos(), v = s->_imu->vel(), bg = s->_imu->bias_g(), ba = s->_imu->bias_a();
  Eigen::MatrixXd P = s->_Cov.topLeftCorner(15, 15);
  Eigen::Matrix3d R = quat_2_Rot(q), Dw = h::Dmat(o, s->_calib_imu_dw->value()), Da = h::Dmat(o, s->_calib_imu_da->value()), Tg = h::Tmat(s->_calib_imu_tg->value());
  Eigen::Matrix3d Rw = quat_2_Rot(s->_calib_imu_GYROtoIMU->value()), Ra = quat_2_Rot(s->_calib_imu_ACCtoIMU->value());
  Eigen::Vector3d w, a, gr(0, 0, g); double dt = 1, from = 10 + 0.0625;
  for (int k = 0; k < calls; k++) {
    double to = times[k] + 0.015625 * shift;
    vf::check("prediction available", p.fast_state_propagate(s, to, x, C));
    auto sel = Propagator::select_imu_readings(d, from, to);
    for (size_t i = 0; i + 1 < sel.size(); i++) {
      dt = sel[i + 1].timestamp - sel[i].timestamp;
      Eigen::Vector3d a1 = Ra * Da * (sel[i].am - ba), a2 = Ra * Da * (sel[i + 1].am - ba);
      a = 0.5 * (a1 + a2);
      w = 0.5 * (Rw * Dw * (sel[i].wm - bg - Tg * a1) + Rw * Dw * (sel[i + 1].wm - bg - Tg * a2));
      Eigen::Vector3d th = -w * dt;
      Eigen::Matrix3d dR = exp_so3(th), J = Jr_so3(th), I = Eigen::Matrix3d::Identity();
      Eigen::MatrixXd F = Eigen::MatrixXd::Identity(15, 15), Q = Eigen::MatrixXd::Zero(15, 15), G = Eigen::MatrixXd::Zero(15, 6);
      F.block(0, 0, 3, 3) = dR; F.block(0, 9, 3, 3) = -dR * J * dt;
      F.block(6, 0, 3, 3) = -R.transpose() * skew_x(a * dt); F.block(6, 12, 3, 3) = -R.transpose() * dt;
      F.block(3, 0, 3, 3) = -0.5 * R.transpose() * skew_x(a * dt * dt); F.block(3, 6, 3, 3) = I * dt; F.block(3, 12, 3, 3) = -0.5 * R.transpose() * dt * dt;
      G.block(0, 0, 3, 3) = F.block(0, 9, 3, 3); G.block(6, 3, 3, 3) = F.block(6, 12, 3, 3); G.block(3, 3, 3, 3) = F.block(3, 12, 3, 3);
      for (int c = 0; c < 6; c++) Q += (c < 3 ? nm.sigma_w * nm.sigma_w : nm.sigma_a * nm.sigma_a) / dt * G.col(c) * G.col(c).transpose();
      for (int c = 0; c < 3; c++) { Q(9 + c, 9 + c) = nm.sigma_wb * nm.sigma_wb * dt; Q(12 + c, 12 + c) = nm.sigma_ab * nm.sigma_ab * dt; }
      P = F * P * F.transpose() + Q;
      pp = pp + v * dt + 0.5 * R.transpose() * a * dt * dt - 0.5 * gr * dt * dt;
      v = v + R.transpose() * a * dt - gr * dt;
      R = dR * R;
    }
    from = to;
    std::string at = " after call " + std::to_string(k + 1);
    a = Ra * Da * (sel.back().am - ba); w = Rw * Dw * (sel.back().wm - bg - Tg * a);
    vf::check_near("orientation" + at, quat_2_Rot(x.block(0, 0, 4, 1)), R, 1e-7);
    vf::check_near("position" + at, x.block(4, 0, 3, 1), pp, 1e-7);
    vf::check_near("velocity in the body frame" + at, x.block(7, 0, 3, 1), R * v, 1e-7);
    vf::check_near("angular velocity" + at, x.block(10, 0, 3, 1), w, 1e-7);
    if (!calib) {
      Eigen::MatrixXd T = Eigen::MatrixXd::Identity(9, 9); T.block(6, 6, 3, 3) = R;
      vf::check_near("covariance" + at, C.block(0, 0, 9, 9), T * P.topLeftCorner(9, 9) * T.transpose(), 1e-7);
    }
  }
  vf::check_eq("the filter state is untouched", h::values(s->_variables), before);
  vf::check_eq("the filter covariance is untouched", s->_Cov, P0);
  vf::check_eq("the filter time is untouched", s->_timestamp, 10.0);
  vf::reach("end");
}
