// Zero-velocity detection and update
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/update/UpdaterZeroVelocity.cpp ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_msckf/src/state/Propagator.cpp ov_core/src/feat/FeatureDatabase.cpp ov_core/src/feat/Feature.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: one to three intervals between two to four readings, one or three calls in a row; every value of one component of a reading in +-2, of the speed in +-3 m/s, seeded states and covariances, every listed noise, gate and disparity setting
// VF-OUTSIDE: rounding (relative 1e-6); the variants switched off inside the function (integrated acceleration, explicit zero motion)
#include "updater_common.h"
#include "prop_common.h"
#include "update/UpdaterZeroVelocity.h"
#include "feat/FeatureDatabase.h"
struct Cfg { double mult, gate, vmax, dmax, g; };
struct Scene {
  StateOptions o; std::shared_ptr<State> s; NoiseManager n; Cfg c; std::shared_ptr<FeatureDatabase> db; std::shared_ptr<UpdaterZeroVelocity> up;
  std::vector<ImuData> raw; std::vector<double> t; std::vector<Eigen::Vector3d> w, a; // calibrated
};
static Scene scene(int mode, bool fej) {
  Scene k;
  k.o.do_fej = fej; k.o.imu_model = mode % 2 ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  k.s = h::imu_state(k.o, true);
  for (int i = 0; i < 2; i++) { auto p = std::make_shared<PoseJPL>(); h::near_pose(p, "c" + std::to_string(i), 0.2, 0.5, true); h::append(k.s, p); k.s->_clones_IMU[i * 0.5] = p; }
  k.s->_timestamp = 1; // not one of the clones
  auto v = k.s->_imu->value(); for (int i = 7; i < 10; i++) v(i) = v(i) * 0.1; k.s->_imu->set_value(v);
  k.s->_Cov = h::small_cov(k.s->_Cov.rows());
  k.n.sigma_w = mode ? double(0.0625) : double(0.125); k.n.sigma_a = mode ? double(0.25) : double(0.125); k.n.sigma_wb = mode ? double(0.03125) : double(0.0625); k.n.sigma_ab = mode ? double(0.0625) : double(0.03125);
  if (mode) k.c = {double(10), double(1), double(0.5), double(1.5), double(9.8125)}; else k.c = {double(1), double(2), double(2), double(0.5), double(9.75)};
  return k;
}
static void build(Scene &k) {
  k.db = std::make_shared<FeatureDatabase>();
  UpdaterOptions u; u.chi2_multipler = k.c.gate;
  k.up = std::make_shared<UpdaterZeroVelocity>(u, k.n, k.db, nullptr, k.c.g, k.c.vmax, k.c.mult, k.c.dmax);
}
// a reading at rest up to the given disturbance
static void reading(Scene &k, double t, const Eigen::Vector3d &dw, const Eigen::Vector3d &da) {
  Eigen::Vector3d w = vf::rnds("w" + std::to_string(k.raw.size()), 3, 1, -0.05, 0.05), a = k.s->_imu->Rot() * Eigen::Vector3d(0, 0, k.c.g);
  w += dw; a += da;
  ImuData m = h::raw(k.s, t, w, a);
  k.up->feed_imu(m); k.raw.push_back(m); k.t.push_back(t); k.w.push_back(w); k.a.push_back(a);
}
static void tracks(Scene &k, double t0, double t1, int n, double moved) {
  for (int i = 0; i < n; i++) {
    k.db->update_feature(100 + i, t0, 0, 100 + 4 * i, 50, 0.25, 0.5);
    k.db->update_feature(100 + i, t1, 0, 100 + 4 * i + moved * (i % 2 ? 1 : -1), 50, 0.25, 0.5);
  }
}
struct Lin { Eigen::MatrixXd H; Eigen::VectorXd r; double dt; };
// stacked over the intervals between times ta and tb; the raw readings are linearly interpolated at both ends
static Lin linear(Scene &k, double ta, double tb) {
  std::vector<double> t; std::vector<Eigen::Vector3d> w, a;
  auto at = [&](double x, int i) { double l = (x - k.t[i]) / (k.t[i + 1] - k.t[i]); t.push_back(x); w.push_back(k.w[i] + l * (k.w[i + 1] - k.w[i])); a.push_back(k.a[i] + l * (k.a[i + 1] - k.a[i])); };
  int m = k.t.size();
  for (int i = 0; i < m; i++) {
    if (k.t[i] > ta && k.t[i] < tb) { t.push_back(k.t[i]); w.push_back(k.w[i]); a.push_back(k.a[i]); }
    if (i + 1 < m && k.t[i] <= ta && k.t[i + 1] > ta) at(ta, i);
  }
  t.push_back(tb); // its reading is not needed
  int n = t.size() - 1, N = k.s->_Cov.rows();
  Lin l; l.H = Eigen::MatrixXd::Zero(6 * n, N); l.r = Eigen::VectorXd::Zero(6 * n); l.dt = tb - ta;
  Eigen::Vector3d g(0, 0, k.c.g), Rg = k.s->_imu->Rot() * g, Rgf = (k.o.do_fej ? k.s->_imu->Rot_fej() : k.s->_imu->Rot()) * g;
  for (int i = 0; i < n; i++) {
    double d = sqrt(t[i + 1] - t[i]), cw = d / k.n.sigma_w, ca = d / k.n.sigma_a;
    l.r.segment(6 * i, 3) = -cw * w[i]; l.r.segment(6 * i + 3, 3) = -ca * (a[i] - Rg);
    for (int q = 0; q < 3; q++) { l.H(6 * i + q, k.s->_imu->bg()->id() + q) = -cw; l.H(6 * i + 3 + q, k.s->_imu->ba()->id() + q) = -ca; }
    l.H.block(6 * i + 3, k.s->_imu->q()->id(), 3, 3) = -ca * skew_x(Rgf);
  }
  return l;
}
struct Kept { Eigen::MatrixXd P; Eigen::VectorXd x, all; std::vector<int> at; double t; };
static Kept keep(Scene &k) { Kept r; r.P = k.s->_Cov; r.all = h::values(k.s->_variables); h::additive(k.s, r.at, r.x); r.t = k.s->_timestamp; return r; }
static void judge(Scene &k, const Kept &b, const Lin &l, double t, bool ok, bool disparity, double speed) {
  int N = b.P.rows(), m = l.r.rows();
  Eigen::MatrixXd P = b.P;
  for (int q = 0; q < 3; q++) { int g = k.s->_imu->bg()->id() + q, a = k.s->_imu->ba()->id() + q; P(g, g) += l.dt * k.n.sigma_wb * k.n.sigma_wb; P(a, a) += l.dt * k.n.sigma_ab * k.n.sigma_ab; }
  Eigen::MatrixXd PH = P * l.H.transpose(), W = Eigen::MatrixXd(l.H * PH + k.c.mult * Eigen::MatrixXd::Identity(m, m)).inverse();
  double hi = l.r.dot(W * l.r), lo = hi;
  if (m > 9) { // the part of the residual no state explains may or may not be kept by the compression
    Eigen::MatrixXd Z = l.H.block(0, 0, m, 15); std::vector<int> c{3 - 3 + 0};
    Eigen::MatrixXd B(m, 6); B << Z.block(0, k.s->_imu->bg()->id(), m, 3), Z.block(0, k.s->_imu->ba()->id(), m, 3);
    Eigen::VectorXd e = l.r - B * Eigen::MatrixXd(B.transpose() * B).inverse() * (B.transpose() * l.r);
    lo = hi - e.dot(e) / k.c.mult;
  }
  double gate = k.c.gate * vf::chi2_quantile(m < 9 ? m : 9, 0.95);
  if (ok) {
    if (!disparity) { vf::check("accepted only within the gate", vf::le(lo, gate * 1.00001 + 1e-4)); vf::check("accepted only below the speed limit", vf::le(speed, k.c.vmax * 1.00001)); }
    vf::check("time moves to the image", k.s->_timestamp == t);
    vf::check_near("covariance after the update", k.s->_Cov, Eigen::MatrixXd(P - PH * W * PH.transpose()), 1e-7);
    Eigen::VectorXd dx = PH * (W * l.r), x; std::vector<int> at;
    h::additive(k.s, at, x);
    Eigen::VectorXd d(at.size()); for (size_t q = 0; q < at.size(); q++) d(q) = dx(at[q]);
    vf::check_near("estimate after the update", Eigen::VectorXd(x - b.x), d, 1e-5);
  } else {
    vf::check("a small disparity is always accepted", !disparity);
    vf::check("rejected only beyond the gate or the speed limit", hi >= gate * 0.99999 - 1e-4 || speed >= k.c.vmax * 0.99999);
    vf::check("rejected: time stays", k.s->_timestamp == b.t);
    vf::check_eq("rejected: covariance", k.s->_Cov, b.P);
    vf::check_eq("rejected: estimates", h::values(k.s->_variables), b.all);
  }
  vf::check("no clone is added", k.s->_clones_IMU.size() == 2 && h::layout_ok(k.s));
}
static void one(int between, bool symbolic_speed) {
  vf::set_rounded_constants(true);
  int mode = vf::choose("settings", 2);
  Scene k = scene(mode, mode);
  double speed;
  auto v = k.s->_imu->value();
  if (symbolic_speed) { double x = vf::input("vx", -3, 3); v(7) = x; v(8) = 0; v(9) = 0; k.s->_imu->set_value(v); speed = x; if (x < 0) speed = 0 - x; }
  else { v(7) = vf::rnd("vx", -0.2, 0.2); v(8) = 0.125; v(9) = 0; k.s->_imu->set_value(v); speed = sqrt(v(7) * v(7) + v(8) * v(8)); }
  double off = 0.0625; Eigen::MatrixXd c(1, 1); c << off; k.s->_calib_dt_CAMtoIMU->set_value(c); k.s->_calib_dt_CAMtoIMU->set_fej(c);
  build(k);
  Eigen::Vector3d z(0, 0, 0), dw = z, da = z;
  int which = symbolic_speed ? 0 : vf::choose("disturbed", 2);
  double e = symbolic_speed ? double(0.0625) : double(vf::input("disturbance", -2, 2));
  if (which) da(mode) = e; else dw(2 - mode) = e;
  double t0 = 1 + off, t1 = 1.25 + off;
  reading(k, t0 - 0.5, z, z);
  reading(k, t0 - 0.03125, between ? z : dw, between ? z : da);
  for (int i = 0; i < between; i++) reading(k, t0 + 0.0625 * (i + 1), i ? z : dw, i ? z : da);
  reading(k, t1 + 0.03125, z, z); reading(k, t1 + 0.5, z, z);
  int dm = symbolic_speed && !vf::thorough() ? 0 : vf::choose("disparity", symbolic_speed ? 4 : between ? 2 : 4);
  // none, small, small but too few, large
  if (dm) tracks(k, 1, 1.25, dm == 2 ? 20 : 21, dm == 3 ? double(k.c.dmax + 0.25) : double(k.c.dmax - 0.25));
  Kept b = keep(k);
  Lin l = linear(k, t0, t1);
  bool ok = k.up->try_update(k.s, 1.25);
  judge(k, b, l, 1.25, ok, dm == 1, speed);
  vf::reach("end");
}
VF_CASE(single_interval) { one(0, false); }
VF_CASE(two_intervals) { one(1, false); }
VF_CASE_THOROUGH(three_intervals) { one(2, false); }
VF_CASE(speed) { one(0, true); }
// three calls in a row: each continues where the last one ended, in the inertial clock as it was known then
VF_CASE(sequence) {
  vf::set_rounded_constants(true);
  Scene k = scene(0, vf::choose("first estimates", 2));
  k.c.gate = 1000;
  double off = 0.0625; Eigen::MatrixXd c(1, 1); c << off; k.s->_calib_dt_CAMtoIMU->set_value(c);
  build(k);
  Eigen::Vector3d z(0, 0, 0), d(0, 0, 0);
  int which = vf::choose("disturbed", 2); // second or third interval
  d(0) = vf::input("disturbance", -0.25, 0.25);
  const double at[6] = {0.9375, 1.28125, 1.34375, 1.53125, 1.65625, 1.90625};
  for (int i = 0; i < 6; i++) reading(k, at[i], i == 2 + which * 2 ? d : z, z);
  for (int i = 0; i < 4; i++) for (int f = 0; f < 3; f++) k.db->update_feature(f, 0.75 + 0.25 * i, 0, 10 * f, 20 + i * 8, 0.25, 0.5);
  double told = 0.0625;
  for (int i = 0; i < 2 + which; i++) {
    double now = 0.0625 + 0.015625 * i; c << now; k.s->_calib_dt_CAMtoIMU->set_value(c);
    for (int f = 0; f < 3; f++) k.db->update_feature(f, 1.25 + 0.25 * i, 0, 10 * f, 20, 0.25, 0.5);
    // readings are calibrated with the current biases
    for (size_t q = 0; q < k.raw.size(); q++) {
      k.a[q] = k.s->_calib_imu_ACCtoIMU->Rot() * h::Dmat(k.o, k.s->_calib_imu_da->value()) * (k.raw[q].am - k.s->_imu->bias_a());
      k.w[q] = k.s->_calib_imu_GYROtoIMU->Rot() * h::Dmat(k.o, k.s->_calib_imu_dw->value()) * (k.raw[q].wm - k.s->_imu->bias_g() - h::Tmat(k.s->_calib_imu_tg->value()) * k.a[q]);
    }
    Kept b = keep(k);
    double t = 1.25 + 0.25 * i;
    Lin l = linear(k, t - 0.25 + told, t + now);
    bool ok = k.up->try_update(k.s, t);
    vf::check("accepted", ok);
    judge(k, b, l, t, ok, true, 0);
    told = now;
    for (int f = 0; f < 3; f++) {
      auto &ts = k.db->get_internal_data().at(f)->timestamps.at(0);
      std::vector<double> want; for (int q = 0; q < 4; q++) want.push_back(0.75 + 0.25 * q); 
      want.clear();
      for (int q = 0; q < 4; q++) if (!(i == 2 && q == 3)) want.push_back(0.75 + 0.25 * q);
      for (int q = 0; q <= i; q++) if (!(i == 2 && q == 1)) want.push_back(1.25 + 0.25 * q);
      bool same = ts.size() == want.size(); for (size_t q = 0; same && q < ts.size(); q++) same = ts[q] == want[q];
      vf::check("only the observations of the previous standstill image are dropped, from the third on", same);
    }
  }
  vf::reach("end");
}
VF_CASE(nothing_to_decide) {
  Scene k = scene(0, false);
  build(k);
  int how = vf::choose("how", 4);
  Eigen::Vector3d z(0, 0, 0);
  if (how == 1) { reading(k, 0.5, z, z); reading(k, 1.5, z, z); }
  if (how == 2) { reading(k, 0.5, z, z); reading(k, 0.75, z, z); }
  if (how == 3) reading(k, 0.5, z, z);
  tracks(k, 1, 1.25, 30, 0);
  Kept b = keep(k);
  bool ok = k.up->try_update(k.s, how == 1 ? 1.0 : 1.25);
  vf::check("nothing to decide on: rejected", !ok);
  vf::check("time stays", k.s->_timestamp == b.t);
  vf::check_eq("covariance stays", k.s->_Cov, b.P);
  vf::check_eq("estimates stay", h::values(k.s->_variables), b.all);
  vf::reach("end");
}
