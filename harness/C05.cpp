// Preintegrated inertial measurements, both models: means, bias Jacobians, covariance
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/cpi/CpiV1.cpp ov_core/src/cpi/CpiV2.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: one and two successive readings, every rate about seeded rational axes (turning angle 0.01..3 per reading), every specific force, bias and gravity direction, with and without averaging; slow rotation (below 0.0087 rad/s) at every force, and Jacobians at every rate, up to step lengths of 1/16 s within 1e-6; covariance for every noise level at seeded readings (relative accuracy 1e-3 at turning angles of 0.03 per reading)
// VF-OUTSIDE: rounding; Jacobians of the gravity model with averaging (an approximation by design)
#include "vf.h"
#include "cpi/CpiV1.h"
#include "cpi/CpiV2.h"
#include "utils/quat_ops.h"
using namespace ov_core;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::MatrixXd MX;
static const double ax[3][3] = {{2, 1, 2}, {-2, 2, 1}, {1, -2, 2}};
struct Reading { double dt; V3 w0, a0, w1, a1; };
struct Setup { std::vector<Reading> r; V3 bw, ba, g; Eigen::Vector4d qk; bool avg = false; int model = 1; bool numeric = false; };
static std::shared_ptr<CpiBase> feed(const Setup &s, const V3 &bw, const V3 &ba, const Eigen::Vector4d &qk, double sw = 1, double swb = 1, double sa = 1, double sab = 1) {
  std::shared_ptr<CpiBase> c;
  if (s.model == 1) c = std::make_shared<CpiV1>(sw, swb, sa, sab, s.avg);
  else { auto d = std::make_shared<CpiV2>(sw, swb, sa, sab, s.avg); d->state_transition_jacobians = s.numeric; c = d; }
  c->setLinearizationPoints(bw, ba, qk, s.g);
  double t = 0;
  for (auto &r : s.r) { c->feed_IMU(t, t + r.dt, r.w0, r.a0, r.w1, r.a1); t = t + r.dt; }
  return c;
}
// the strapdown equations over one reading with constant rate w and force a(s) (from the start frame k)
static void step(double dt, double th, const V3 &u, const V3 &a, M3 &R, V3 &al, V3 &be) {
  M3 K = skew_x(u), I = M3::Identity();
  double w = th / dt;
  M3 E = I - sin(th) * K + (1 - cos(th)) * K * K;
  V3 b = (dt * I + (1 - cos(th)) / w * K + (dt - sin(th) / w) * K * K) * a, p = (dt * dt / 2 * I + (th - sin(th)) / (w * w) * K + (th * th / 2 + cos(th) - 1) / (w * w) * K * K) * a;
  al += be * dt + R.transpose() * p; be += R.transpose() * b; R = E * R;
}
static Setup fast(int n, int model, bool avg, bool symbolic_all, std::vector<double> &th, std::vector<V3> &u) {
  Setup s; s.model = model; s.avg = avg;
  s.bw = vf::in_vec3("bw", false); s.ba = symbolic_all ? vf::in_vec3("ba", true, -1, 1) : vf::in_vec3("ba", false); s.g = vf::in_vec3("g", symbolic_all && model == 2, -10, 10); s.qk = vf::in_quat("qk", false);
  if (model == 2 && !symbolic_all) s.g << 0, 0, vf::input("gravity", 9, 10);
  for (int i = 0; i < n; i++) {
    std::string k = std::to_string(i);
    Reading r; V3 v; r.dt = i ? 0.125 : 0.0625;
    bool free_angle = i == n - 1;
    double t = free_angle ? vf::in_angle("theta" + k, 0.01, 3) : double(0.25);
    int x = i == 0 ? vf::choose("axis", vf::thorough() ? 3 : 1) : 1;
    for (int j = 0; j < 3; j++) v(j) = ax[x][j] / 3;
    V3 w = v * (t / r.dt), dw = avg ? vf::in_vec3("dw" + k, false) : V3(V3::Zero());
    r.w0 = s.bw + w - dw; r.w1 = s.bw + w + dw;
    r.a0 = vf::in_vec3("a0" + k, symbolic_all || free_angle, -20, 20); r.a1 = vf::in_vec3("a1" + k, symbolic_all, -20, 20);
    s.r.push_back(r); th.push_back(t); u.push_back(v);
  }
  return s;
}
static void means(int model) {
  std::vector<double> th; std::vector<V3> u;
  bool avg = vf::choose("averaging", 2);
  int n = 1 + vf::choose("readings", 2);
  Setup s = fast(n, model, avg, true, th, u);
  auto c = feed(s, s.bw, s.ba, s.qk);
  M3 R = M3::Identity(); V3 al = V3::Zero(), be = V3::Zero();
  double T = 0;
  M3 Rk = quat_2_Rot(s.qk);
  for (int i = 0; i < n; i++) {
    M3 E = M3::Identity() - sin(th[i]) * skew_x(u[i]) + (1 - cos(th[i])) * skew_x(u[i]) * skew_x(u[i]), Rn = E * R;
    V3 a = s.r[i].a0 - s.ba, b = s.r[i].a1 - s.ba;
    if (model == 2) { a -= R * Rk * s.g; b -= Rn * Rk * s.g; }
    if (avg) a = 0.5 * (a + b);
    step(s.r[i].dt, th[i], u[i], a, R, al, be); T = T + s.r[i].dt;
  }
  vf::check_eq("time", c->DT, T);
  vf::check_eq("rotation", MX(c->R_k2tau), MX(R));
  vf::check_eq("velocity", c->beta_tau, be, 10); vf::check_eq("position", c->alpha_tau, al, 10);
  vf::reach("end");
}
VF_CASE(means_1) { means(1); }
VF_CASE(means_2) { means(2); }
VF_CASE(rotation_forms) { // quaternion and matrix agree; an empty measurement is the identity; no time, no change
  vf::set_half_angles(true);
  Setup s; s.model = 1 + vf::choose("model", 2); s.bw = s.ba = s.g = V3::Zero(); s.qk << 0, 0, 0, 1;
  auto e = feed(s, s.bw, s.ba, s.qk);
  vf::check_eq("empty", e->q_k2tau, s.qk); vf::check_eq("empty", MX(e->R_k2tau), MX(M3::Identity())); vf::check_eq("empty", e->alpha_tau, s.g); vf::check_eq("empty", e->beta_tau, s.g); vf::check_eq("empty", e->DT, 0.0);
  Reading r; r.dt = 0.25; int x = vf::choose("axis", 3);
  double t = vf::in_angle("theta", 0.01, 1);
  V3 u(ax[x][0] / 3, ax[x][1] / 3, ax[x][2] / 3);
  r.w0 = r.w1 = u * (t / r.dt); r.a0 = r.a1 = vf::rnds("a", 3);
  s.r.push_back(r);
  auto c = feed(s, s.bw, s.ba, s.qk);
  vf::check_eq("unit quaternion", c->q_k2tau.dot(c->q_k2tau), 1.0);
  vf::check_eq("quaternion and matrix", MX(quat_2_Rot(c->q_k2tau)), MX(c->R_k2tau));
  V3 a0 = c->alpha_tau, b0 = c->beta_tau; MX R0 = c->R_k2tau, P0 = c->P_meas;
  c->feed_IMU(0.25, 0.25, vf::rnds("w", 3), vf::rnds("x", 3), vf::rnds("w2", 3), vf::rnds("x2", 3));
  vf::check_eq("no time", c->alpha_tau, a0); vf::check_eq("no time", c->beta_tau, b0); vf::check_eq("no time", MX(c->R_k2tau), R0); vf::check_eq("no time", MX(c->P_meas), P0); vf::check_eq("no time", c->DT, 0.25);
  vf::reach("end");
}
// means as a function of the biases (and, for model 2, of the orientation used for gravity)
static MX bias_jacobian(const Setup &s) {
  auto f = [&](const Eigen::VectorXd &e) {
    Eigen::Vector4d dq; dq << 0.5 * e(6), 0.5 * e(7), 0.5 * e(8), 1;
    auto c = feed(s, s.bw + e.head(3), s.ba + e.segment(3, 3), s.model == 2 ? quat_multiply(dq, s.qk) : s.qk);
    Eigen::VectorXd y(15); y << c->R_k2tau.col(0), c->R_k2tau.col(1), c->R_k2tau.col(2), c->beta_tau, c->alpha_tau;
    return y;
  };
  return vf::jacobian(f, s.model == 2 ? 9 : 9);
}

static void compare(const Setup &s, vf::Num tol) { // tol 0: exact
  auto c = feed(s, s.bw, s.ba, s.qk);
  MX D = bias_jacobian(s), Q(9, 3);
  for (int k = 0; k < 3; k++) { M3 X = skew_x(V3(c->J_q.col(k))) * c->R_k2tau; Q.col(k) << X.col(0), X.col(1), X.col(2); }
  auto eq = [&](const std::string &n, const MX &a, const MX &b) { if (tol == 0) vf::check_eq(n, a, b, 10); else vf::check_near(n, a, b, tol); };
  eq("rotation by gyroscope bias", Q, D.block(0, 0, 9, 3));
  eq("velocity by gyroscope bias", c->J_b, D.block(9, 0, 3, 3)); eq("position by gyroscope bias", c->J_a, D.block(12, 0, 3, 3));
  eq("velocity by accelerometer bias", c->H_b, D.block(9, 3, 3, 3)); eq("position by accelerometer bias", c->H_a, D.block(12, 3, 3, 3));
  eq("rotation does not depend on the accelerometer bias", MX::Zero(9, 3), D.block(0, 3, 9, 3));
  if (s.model == 2) { auto d = std::dynamic_pointer_cast<CpiV2>(c); eq("velocity by orientation", d->O_b, D.block(9, 6, 3, 3)); eq("position by orientation", d->O_a, D.block(12, 6, 3, 3)); }
}
static void biases(int model, int n) {
  std::vector<double> th; std::vector<V3> u;
  Setup s = fast(n, model, model == 1 && vf::choose("averaging", 2), n == 1, th, u);
  compare(s, 0);
  vf::reach("end");
}
VF_CASE(biases_1) { biases(1, 1); }
VF_CASE(biases_1_twice) { biases(1, 2); }
VF_CASE(biases_2) { biases(2, 1); }
VF_CASE(biases_2_twice) { biases(2, 2); }
// readings at seeded turning rates, forces symbolic
static Setup seeded(int n, int model, bool avg, double dt) {
  Setup s; s.model = model; s.avg = avg; s.bw = vf::rnds("bw", 3, 1, -0.1, 0.1); s.ba = vf::rnds("ba", 3, 1, -0.1, 0.1); s.qk = vf::in_quat("qk", false); s.g << 0, 0, 9.81;
  for (int i = 0; i < n; i++) {
    std::string k = std::to_string(i);
    Reading r; r.dt = dt;
    V3 w(ax[i % 3][0] * 2 / 3.0, ax[i % 3][1] * 2 / 3.0, ax[i % 3][2] * 2 / 3.0), dw = avg ? vf::rnds("dw" + k, 3, 1, -0.1, 0.1) : vf::MatX(V3::Zero());
    r.w0 = s.bw + w - dw; r.w1 = s.bw + w + dw; r.a0 = vf::in_vec3("a0" + k, true, -20, 20); r.a1 = vf::in_vec3("a1" + k, true, -20, 20);
    s.r.push_back(r);
  }
  return s;
}
VF_CASE(biases_2_integrated) { // the numerically integrated Jacobians of the second model
  vf::set_rounded_constants(true);
  Setup s = seeded(2, 2, false, 0.015625); s.numeric = true;
  compare(s, 1e-6);
  vf::reach("end");
}
static void slow(int model, bool jac) { // below the rate threshold
  Setup s; s.model = model; s.avg = model == 1 && vf::choose("averaging", 2); s.bw = vf::rnds("bw", 3, 1, -0.1, 0.1); s.ba = vf::rnds("ba", 3, 1, -0.1, 0.1); s.qk = vf::in_quat("qk", false); s.g << 0, 0, 9.81;
  V3 al = V3::Zero(), be = V3::Zero(); M3 R = M3::Identity(), Rk = quat_2_Rot(s.qk), I = M3::Identity();
  vf::set_rounded_constants(true);
  for (int i = 0; i < 2; i++) {
    std::string k = std::to_string(i);
    Reading r; r.dt = i ? 0.0625 : 0.03125;
    // the rate is along one axis at a time in the second reading: keeps the polynomials small
    V3 w(0, 0, 0);
    if (i) w(2) = vf::input("wz", -0.008, 0.008); else w = vf::rnds("w0", 3, 1, -0.004, 0.004);
    r.w0 = r.w1 = s.bw + w; r.a0 = vf::in_vec3("a0" + k, !jac, -20, 20); r.a1 = r.a0;
    s.r.push_back(r);
    double t = r.dt; M3 K = skew_x(w);
    M3 E = I - t * K + t * t / 2 * K * K - t * t * t / 6 * K * K * K, Rn = E * R;
    V3 a = r.a0 - s.ba, b = a;
    if (model == 2) { a -= R * Rk * s.g; b -= Rn * Rk * s.g; if (s.avg) a = 0.5 * (a + b); }
    // series of the integrals of the rotation
    V3 p = (t * t / 2 * I + t * t * t / 6 * K + t * t * t * t / 24 * K * K) * a, v = (t * I + t * t / 2 * K + t * t * t / 6 * K * K) * a;
    al += be * t + R.transpose() * p; be += R.transpose() * v; R = Rn;
  }
  auto c = feed(s, s.bw, s.ba, s.qk);
  if (jac) { compare(s, 1e-5); vf::reach("end"); return; }
  vf::check_near("rotation", MX(c->R_k2tau), MX(R), 1e-7); vf::check_near("velocity", c->beta_tau, be, 1e-6); vf::check_near("position", c->alpha_tau, al, 1e-6);
  vf::reach("end");
}
VF_CASE(slow_1) { slow(1, false); }
VF_CASE(slow_2) { slow(2, false); }
VF_CASE(slow_biases_1) { slow(1, true); }
VF_CASE(slow_biases_2) { slow(2, true); }
static void covariance(int model) {
  vf::set_rounded_constants(true);
  Setup s = seeded(2, model, model == 1 && vf::choose("averaging", 2), 0.015625);
  for (auto &r : s.r) { std::string k = std::to_string(&r - &s.r[0]); r.a0 = vf::rnds("fa" + k, 3, 1, -10, 10); r.a1 = vf::rnds("fb" + k, 3, 1, -10, 10); }
  double n[4]; vf::Num hi[4] = {2, 2, 2, 2};
  for (int i = 0; i < 4; i++) n[i] = vf::input("sigma" + std::to_string(i), 0, hi[i]);
  auto c = feed(s, s.bw, s.ba, s.qk, n[0], n[1], n[2], n[3]);
  // the same stochastic equations, integrated in finer steps
  int d = model == 1 ? 15 : 21, sub = 2;
  MX P = MX::Zero(d, d); M3 R = M3::Identity(), Rk = quat_2_Rot(s.qk);
  for (auto &r : s.r) {
    V3 w = r.w0 - s.bw, a = r.a0 - s.ba;
    if (s.avg) { w = 0.5 * (w + r.w1 - s.bw); }
    double len = w.norm();
    auto rot = [&](double t) { M3 K = skew_x(V3(w / len)); double x = len * t; return M3((M3::Identity() - sin(x) * K + (1 - cos(x)) * K * K) * R); };
    if (s.avg) a = 0.5 * (a + r.a1 - s.ba);
    if (model == 2) { a -= R * Rk * s.g; P.block(15, 0, 3, d) = P.block(0, 0, 3, d); P.block(0, 15, d, 3) = P.block(0, 0, d, 3); P.block(15, 15, 3, 3) = P.block(0, 0, 3, 3); }
    auto dot = [&](double t, const MX &X) {
      M3 B = rot(t).transpose(); V3 gl = Rk * s.g;
      MX F = MX::Zero(d, d), Q = MX::Zero(d, d);
      F.block(0, 0, 3, 3) = -skew_x(w); F.block(0, 3, 3, 3) = -M3::Identity(); F.block(6, 0, 3, 3) = -B * skew_x(a); F.block(6, 9, 3, 3) = -B; F.block(12, 6, 3, 3).setIdentity();
      if (model == 2) { F.block(6, 15, 3, 3) = -B * skew_x(V3(R * gl)); F.block(6, 18, 3, 3) = -B * R * skew_x(gl); }
      for (int i = 0; i < 3; i++) { Q(i, i) = n[0] * n[0]; Q(3 + i, 3 + i) = n[1] * n[1]; Q(6 + i, 6 + i) = n[2] * n[2]; Q(9 + i, 9 + i) = n[3] * n[3]; }
      MX FX = F * X;
      return MX(FX + FX.transpose() + Q);
    };
    double hs = r.dt / sub;
    for (int k = 0; k < sub; k++) {
      double t = k * hs;
      MX k1 = dot(t, P), k2 = dot(t + hs / 2, P + hs / 2 * k1), k3 = dot(t + hs / 2, P + hs / 2 * k2), k4 = dot(t + hs, P + hs * k3);
      P += hs / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    }
    R = rot(r.dt);
  }
  vf::check_eq("symmetric", MX(c->P_meas), MX(c->P_meas.transpose()));
  MX C = c->P_meas;
  static const char *nm[5] = {"rotation", "gyroscope bias", "velocity", "accelerometer bias", "position"};
  for (int i = 0; i < 5; i++) for (int j = 0; j <= i; j++) vf::check_near(std::string("covariance of ") + nm[i] + " and " + nm[j], C.block(3 * i, 3 * j, 3, 3), P.block(3 * i, 3 * j, 3, 3), 1e-6);
  vf::reach("end");
}
VF_CASE(covariance_1) { covariance(1); }
VF_CASE(covariance_2) { covariance(2); }
