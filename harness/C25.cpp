// Starting from rest: when rest is recognised, and the state it gives; the gravity aligned frame and the gravity constraint's polynomial
// VF-PKG: ov_msckf
// VF-SOURCES: ov_init/src/static/StaticInitializer.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: every direction of gravity away from the degenerate pole of the rational chart, every size; two to three (thorough: four) readings per half window at seeded values with one reading, its time and the threshold symbolic; every symmetric D of the polynomial with two entries and two of d symbolic at a time
// VF-OUTSIDE: rounding; which of the two tangent directions is chosen as the x axis
#include "static/StaticInitializer.h"
#include "types/IMU.h"
#include "utils/helper.h"
#include "utils/quat_ops.h"
#include "utils/sensor_data.h"
#include "vf.h"
using namespace ov_core; using namespace ov_type; using namespace ov_init;
VF_CASE(frame) {
  Eigen::Vector3d u = vf::in_unit3("u"); double n = vf::input("size", 0.1, 20);
  Eigen::Vector3d g = u * n;
  Eigen::Matrix3d R;
  InitializerHelper::gram_schmidt(g, R);
  vf::check_eq("orthonormal", Eigen::MatrixXd(R.transpose() * R), Eigen::MatrixXd(Eigen::Matrix3d::Identity()));
  vf::check_eq("right handed", R.determinant(), 1.0);
  vf::check_eq("z of the global frame along gravity", Eigen::MatrixXd(R * Eigen::Vector3d(0, 0, 1)), Eigen::MatrixXd(u));
  vf::reach("end");
}
// the polynomial whose roots are the multipliers: det((D - l I)^2 - d d^T / g^2)
static void poly(int which) {
  Eigen::MatrixXd D = vf::rnds("D", 3, 3, -2, 2), d = vf::rnds("d", 3, 1, -2, 2);
  for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) D(i, j) = D(j, i);
  double x = vf::input("x", -3, 3), y = vf::input("y", -3, 3);
  int a[6] = {0, 0, 0, 1, 1, 2}, b[6] = {0, 1, 2, 1, 2, 2};
  D(a[which], b[which]) = x; D(b[which], a[which]) = x;
  d(which % 3, 0) = y;
  double g = 9.81;
  Eigen::Matrix<double, 7, 1> c = InitializerHelper::compute_dongsi_coeff(D, d, g);
  for (int k = -3; k <= 3; k++) {
    double l = k; Eigen::Matrix3d M = D; for (int i = 0; i < 3; i++) M(i, i) = M(i, i) - l;
    Eigen::Matrix3d A = M * M - d * d.transpose() / (g * g);
    double p = 0; for (int i = 0; i < 7; i++) p = p * l + c(i, 0);
    vf::check_eq("polynomial", p, A.determinant(), 1e4);
  }
  vf::reach("end");
}
VF_CASE(polynomial) { poly(vf::choose("entry", 6)); }

struct Still {
  InertialInitializerOptions o; std::shared_ptr<FeatureDatabase> db; std::shared_ptr<std::vector<ImuData>> imu; std::shared_ptr<IMU> t; double stamp = -7; Eigen::MatrixXd cov; std::vector<std::shared_ptr<Type>> order;
  Still() { imu = std::make_shared<std::vector<ImuData>>(); t = std::make_shared<IMU>(); o.init_window_time = 2; o.gravity_mag = 9.81; }
  void add(double at, Eigen::Vector3d w, Eigen::Vector3d a) { ImuData d; d.timestamp = at; d.wm = w; d.am = a; imu->push_back(d); }
  bool run(bool jerk) { StaticInitializer s(o, db, imu); return s.initialize(stamp, cov, order, t, jerk); }
};
static bool same(const std::shared_ptr<IMU> &t, const Eigen::MatrixXd &v) { for (int i = 0; i < 16; i++) if (!(t->value()(i, 0) == v(i, 0))) return false; return true; }
// rest or a jerk is recognised from the spread of the accelerations in the two halves of the window
VF_CASE(recognised) {
  Still s; bool jerk = vf::choose("wait for a jerk", 2);
  Eigen::MatrixXd before = s.t->value();
  int n = vf::thorough() ? 3 : 2;
  Eigen::Vector3d a0(1, -2, 9.5), w0(0.1, -0.2, 0.05);
  s.o.init_imu_thresh = vf::input("threshold", 0.01, 3);
  double e1 = vf::input("older deviation", -2, 2), e0 = vf::input("newer deviation", -2, 2);
  std::vector<Eigen::Vector3d> old, now;
  for (int i = 0; i < n; i++) { Eigen::Vector3d a = a0; a(0) = a(0) + 0.1 * i; if (i == 1) a(1) = a(1) + e1; s.add(8.25 + 0.2 * i, w0, a); old.push_back(a); }
  for (int i = 0; i < n; i++) { Eigen::Vector3d a = a0; a(2) = a(2) - 0.2 * i; if (i == 0) a(1) = a(1) + e0; s.add(9.3 + (0.7 / (n - 1)) * i, w0, a); now.push_back(a); }
  s.imu->insert(s.imu->begin(), s.imu->front()); s.imu->front().timestamp = 7.5; s.imu->front().am = Eigen::Vector3d(100, 100, 100); s.imu->front().wm = s.imu->front().am;
  auto var = [&](const std::vector<Eigen::Vector3d> &v) { double t = 0; for (int k = 0; k < 3; k++) { double m = 0; for (auto &a : v) m += a(k); m /= (double)v.size(); for (auto &a : v) t += (a(k) - m) * (a(k) - m); } return double(t / ((double)v.size() - 1)); };
  double vo = var(old), vn = var(now), th = s.o.init_imu_thresh * s.o.init_imu_thresh;
  bool ok = s.run(jerk);
  if (ok) {
    vf::check("the older half was at rest", vf::le(vo, th + 1e-9));
    if (jerk) vf::check("then something moved", vf::le(th, vn + 1e-9)); else vf::check("still at rest", vf::le(vn, th + 1e-9));
  } else {
    bool would = vo < th - 1e-9 && (jerk ? vn > th + 1e-9 : vn < th - 1e-9);
    vf::check("recognised when it is so", !would);
    vf::check("nothing given otherwise", same(s.t, before) && s.order.empty());
    vf::check_eq("no time", s.stamp, -7.0);
  }
  vf::reach("end");
}
// which readings count: the older half of the window ending at the newest reading
VF_CASE(window) {
  Still s; s.o.init_imu_thresh = 1e6; bool jerk = false;
  double x = vf::input("time", 7.5, 9.9), w = vf::input("rate", -3, 3);
  bool early = vf::choose("a reading from before the window", 2) == 0;
  Eigen::Vector3d a(1, -2, 9.5);
  if (early) s.add(7, Eigen::Vector3d(5, 5, 5), a);
  double ts[4] = {8.3, 8.7, 9.4, 10}; bool put = false;
  for (double t : ts) { if (!put && x < t) { put = true; s.add(x, Eigen::Vector3d(w, 0, 0), a); } s.add(t, Eigen::Vector3d(0.1, -0.2, 0.05), a); }
  bool ok = s.run(jerk);
  double span; if (early) span = 3; else span = x < 8.3 ? double(10 - x) : double(1.7);
  vf::check("needs a whole window", ok == (span >= 2));
  if (ok) {
    bool in = x > 8 && x <= 9; double n = in ? 3 : 2; double add = in ? w : double(0);
    vf::check_eq("gyroscope bias is the mean rate", s.t->bias_g()(0), (0.2 + add) / n);
    vf::check_eq("gyroscope bias is the mean rate", s.t->bias_g()(1), -0.4 / n);
    double last = x > 8.7 && x <= 9 ? x : double(8.7);
    vf::check_eq("state at the end of the older half", s.stamp, last);
  }
  vf::reach("end");
}
VF_CASE(few) {
  Still s; s.o.init_imu_thresh = 1e6; int o = vf::choose("older", 3), n = vf::choose("newer", 3); s.add(6, Eigen::Vector3d::Zero(), Eigen::Vector3d(0, 0, 9.8));
  for (int i = 0; i < o; i++) s.add(8.5 + 0.1 * i, Eigen::Vector3d::Zero(), Eigen::Vector3d(0, 0, 9.8));
  for (int i = 0; i < n; i++) s.add(9.5 + 0.5 * i / (n > 1 ? n - 1 : 1), Eigen::Vector3d::Zero(), Eigen::Vector3d(0, 0, 9.8));
  bool ok = s.run(false);
  if (n == 2) vf::check("two readings in each half", ok == (o == 2)); else vf::check("too few", !ok || (n == 2 && o == 2));
  vf::reach("end");
}
// gravity comes out along the measured acceleration, the rest is bias
VF_CASE(state) {
  Still s; s.o.init_imu_thresh = 1e6; s.o.gravity_mag = vf::input("gravity", 9, 10);
  Eigen::Vector3d u = vf::in_unit3("u"); double n = vf::input("size", 8, 11); Eigen::Vector3d a = u * n;
  Eigen::Vector3d d = vf::in_vec3("d", true, -0.2, 0.2), w = vf::in_vec3("w", true, -1, 1), e = vf::in_vec3("e", true, -0.1, 0.1);
  s.add(7, w, a); s.add(8.5, w + e, a + d); s.add(8.8, w - e, a - d); s.add(9.5, w, a); s.add(10, w, a);
  vf::check("at rest", s.run(false));
  Eigen::Matrix3d R = s.t->Rot(); Eigen::Vector4d q = s.t->quat();
  vf::check_eq("unit quaternion", q.dot(q), 1.0);
  vf::check_eq("vertical axis along the measured acceleration", Eigen::MatrixXd(R * Eigen::Vector3d(0, 0, 1)), Eigen::MatrixXd(u), 10);
  vf::check_eq("predicted accelerometer reading", Eigen::MatrixXd(R * Eigen::Vector3d(0, 0, s.o.gravity_mag) + s.t->bias_a()), Eigen::MatrixXd(a), 10);
  vf::check_eq("gyroscope bias", Eigen::MatrixXd(s.t->bias_g()), Eigen::MatrixXd(w));
  vf::check_eq("at the origin", Eigen::MatrixXd(s.t->pos()), Eigen::MatrixXd(Eigen::Vector3d::Zero())); vf::check_eq("not moving", Eigen::MatrixXd(s.t->vel()), Eigen::MatrixXd(Eigen::Vector3d::Zero()));
  vf::check_eq("first estimate", Eigen::MatrixXd(s.t->fej()), Eigen::MatrixXd(s.t->value()));
  vf::check("the covariance is of this state", (int)s.order.size() == 1 && s.order[0] == s.t && s.cov.rows() == 15 && s.cov.cols() == 15);
  for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) { double v = 0; if (i == j) v = i < 3 ? 0.0004 : i < 6 ? 0.0025 : i < 9 ? 0.0001 : 0.0004; vf::check_eq("uncertainty", s.cov(i, j), v); }
  vf::reach("end");
}
