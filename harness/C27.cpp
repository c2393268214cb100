// Cost terms of the initialisation's refinement: residuals, weights, Jacobians; quaternion parameters
// VF-PKG: ov_init
// VF-SOURCES: ov_init/src/ceres/Factor_GenericPrior.cpp ov_init/src/ceres/Factor_ImageReprojCalib.cpp ov_init/src/ceres/Factor_ImuCPIv1.cpp ov_init/src/ceres/State_JPLQuatLocal.cpp ov_core/src/cpi/CpiV1.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: quaternion parameters: every quaternion and every turn below a half; camera term: seeded poses, both camera models, every pixel measured, noise, weight and point on a seeded line, every intrinsic parameter; inertial term: seeded orientations, readings and information, every position, velocity, bias change and gravity size (orientation by bias at the linearisation point, with a first-order change); prior: seeded orientations and information, every gradient and vector value, every turn about seeded axes
// VF-OUTSIDE: rounding; the optimisation itself (Ceres); the derivative of the inertial orientation residual by the gyroscope bias away from the linearisation point (first order there by design); the prior on heading alone away from its linearisation point
#include "vf.h"
#include "ceres/Factor_GenericPrior.h"
#include "ceres/Factor_ImageReprojCalib.h"
#include "ceres/Factor_ImuCPIv1.h"
#include "ceres/State_JPLQuatLocal.h"
#include "cpi/CpiV1.h"
#include "cam/CamRadtan.h"
#include "cam/CamEqui.h"
#include "utils/quat_ops.h"
using namespace ov_core;
using namespace ov_init;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
// the error [d/2; 1] to first order applied on the left of a quaternion
static V4 turned(const V4 &q, const V3 &d) { V4 e; e << 0.5 * d, 1; V4 r = quat_multiply(e, q); return r; }
struct Out { VX r; std::vector<MX> J; };
static Out eval(const ceres::CostFunction &f, const std::vector<VX> &x, bool want = false, int only = -1) {
  std::vector<std::vector<double>> xs, js;
  std::vector<const double *> px; std::vector<double *> pj;
  int m = f.num_residuals();
  for (auto &v : x) { xs.push_back({}); for (int i = 0; i < v.rows(); i++) xs.back().push_back(v(i)); js.push_back(std::vector<double>(m * v.rows(), double(77))); }
  for (size_t i = 0; i < x.size(); i++) { px.push_back(xs[i].data()); pj.push_back(only < 0 || only == (int)i ? js[i].data() : nullptr); }
  std::vector<double> r(m, double(55));
  vf::check("evaluated", f.Evaluate(px.data(), r.data(), want ? pj.data() : nullptr));
  Out o; o.r.resize(m); for (int i = 0; i < m; i++) o.r(i) = r[i];
  for (size_t i = 0; i < x.size(); i++) { MX J(m, x[i].rows()); for (int a = 0; a < m; a++) for (int b = 0; b < J.cols(); b++) J(a, b) = js[i][a * J.cols() + b]; o.J.push_back(J); }
  return o;
}
// a Jacobian is the derivative of the residual by the parameter's error; the fourth column of a quaternion is not used
static MX derivative(const ceres::CostFunction &f, const std::vector<VX> &x, int k) {
  bool q = x[k].rows() == 4;
  return vf::jacobian([&](const VX &e) { std::vector<VX> y = x; if (q) y[k] = turned(V4(x[k]), V3(e)); else y[k] = x[k] + e; return eval(f, y).r; }, q ? 3 : (int)x[k].rows());
}
static void jacobians(const ceres::CostFunction &f, const std::vector<VX> &x, double scale, std::vector<std::string> names, int only = -1) {
  Out o = eval(f, x, true), p = eval(f, x);
  vf::check_eq("same residual with and without Jacobians", o.r, p.r);
  for (size_t k = 0; k < x.size(); k++) {
    if (only >= 0 && only != (int)k) continue;
    MX D = derivative(f, x, k), J = o.J[k];
    vf::check_eq("derivative by " + names[k], J.leftCols(D.cols()), D, scale);
    if (J.cols() == 4) vf::check_eq("fourth column of " + names[k], J.col(3), VX(VX::Zero(J.rows())));
    Out s = eval(f, x, true, (int)k);
    vf::check_eq("asked for alone: " + names[k], s.J[k], J);
    vf::check_eq("nothing written that was not asked for", s.J[(k + 1) % x.size()](0, 0), 77.0);
  }
}
VF_CASE(quaternion_parameter) {
  State_JPLQuatLocal l;
  vf::check("sizes", l.AmbientSize() == 4 && l.TangentSize() == 3);
  V4 q = vf::in_quat("q"), y;
  V3 d; int c = vf::choose("turn", 3);
  static const double ax[2][3] = {{2, 1, 2}, {-2, 2, 1}};
  M3 E = M3::Identity();
  vf::set_half_angles(true);
  if (c < 2) {
    double t = vf::in_angle("theta", 0.001, 3.1);
    V3 u(ax[c][0] / 3, ax[c][1] / 3, ax[c][2] / 3);
    d = u * t; E = M3::Identity() - sin(t) * skew_x(u) + (1 - cos(t)) * skew_x(u) * skew_x(u);
  } else d.setZero();
  vf::check("done", l.Plus(q.data(), d.data(), y.data()));
  vf::check_eq("unit", y.dot(y), 1.0);
  vf::check_eq("turned on the left", MX(quat_2_Rot(y)), MX(E * quat_2_Rot(q)));
  double j[12]; for (auto &v : j) v = 5;
  vf::check("done", l.PlusJacobian(q.data(), j));
  for (int a = 0; a < 4; a++) for (int b = 0; b < 3; b++) vf::check_eq("selects the three columns of the error", j[a * 3 + b], double(a == b ? 1 : 0));
  for (auto &v : j) v = 5;
  vf::check("done", l.MinusJacobian(q.data(), j));
  for (int a = 0; a < 3; a++) for (int b = 0; b < 4; b++) vf::check_eq("selects the three rows of the error", j[a * 4 + b], double(a == b ? 1 : 0));
  vf::reach("end");
}
VF_CASE(quaternion_difference) { // the difference is the turn that brings one to the other
  State_JPLQuatLocal l;
  vf::set_half_angles(true);
  V4 q = vf::in_quat("q", false), y, z; V3 d, e;
  static const double ax[2][3] = {{2, 1, 2}, {-2, 2, 1}};
  int c = vf::choose("axis", 2);
  double t = vf::in_angle("theta", 0.001, 3.1);
  V3 u(ax[c][0] / 3, ax[c][1] / 3, ax[c][2] / 3);
  d = u * t;
  l.Plus(q.data(), d.data(), y.data());
  vf::check("done", l.Minus(y.data(), q.data(), e.data()));
  V3 back = u * (2 * atan2(sin(t / 2), cos(t / 2))); // the turn itself
  vf::check_eq("the turn back", e, back);
  vf::check("done", l.Minus(q.data(), q.data(), e.data()));
  vf::check_eq("no turn", e, V3(V3::Zero()));
  vf::reach("end");
}
static void camera(bool fisheye, bool params) {
  V4 qi = vf::in_quat("qi", false), qc; V3 t = vf::rnds("tc", 3, 1, -0.2, 0.2); qc = vf::unit_quat(t);
  V3 pi = vf::rnds("pi", 3), pc = vf::rnds("pc", 3, 1, -0.2, 0.2);
  M3 Ri = quat_2_Rot(qi), Rc = quat_2_Rot(qc);
  V3 inC; if (params) inC << vf::rnd("x", -1, 1), vf::rnd("y", -1, 1), vf::rnd("z", 2, 4); else { double u = vf::input("u", 0, 1); inC << 0.25 + u, u - 0.5, 4 - u; }
  if (fisheye) inC = V3(0.5, -1, 1.5) ;
  V3 pf = Ri.transpose() * (Rc.transpose() * (inC - pc)) + pi;
  VX k(8); for (int i = 0; i < 8; i++) k(i) = params ? vf::input("k" + std::to_string(i), i < 4 ? 100 : -0.2, i < 4 ? 600 : 0.2) : i < 4 ? vf::rnd("k" + std::to_string(i), 200, 600) : vf::rnd("k" + std::to_string(i), -0.05, 0.05);
  V3 none = V3::Zero(); (void)none;
  Eigen::Vector2d uv; uv << vf::input("uv0", 0, 800), vf::input("uv1", 0, 800);
  double sigma = params ? double(1.5) : vf::input("sigma", 0.1, 5), gate = params ? double(0.5) : vf::input("gate", 0, 1);
  Factor_ImageReprojCalib f(uv, sigma, fisheye);
  vf::check_eq("weight", f.gate, 1.0);
  f.gate = gate;
  vf::check("sizes", f.num_residuals() == 2 && f.parameter_block_sizes() == std::vector<int>({4, 3, 3, 4, 3, 8}));
  std::vector<VX> x = {qi, pi, pf, qc, pc, k};
  Out o = eval(f, x);
  double a = inC(0) / inC(2), b = inC(1) / inC(2), r2 = a * a + b * b, du, dv;
  if (fisheye) {
    std::shared_ptr<CamBase> cam = std::make_shared<CamEqui>(0, 0); cam->set_value(k); Eigen::Vector2d z = cam->distort_d(Eigen::Vector2d(a, b)); du = z(0); dv = z(1);
  } else {
    double rad = 1 + k(4) * r2 + k(5) * r2 * r2;
    du = k(0) * (a * rad + 2 * k(6) * a * b + k(7) * (r2 + 2 * a * a)) + k(2); dv = k(1) * (b * rad + k(6) * (r2 + 2 * b * b) + 2 * k(7) * a * b) + k(3);
  }
  vf::check_eq("predicted less measured, in deviations", o.r(0) * sigma, gate * (du - uv(0)), 1000); vf::check_eq("predicted less measured, in deviations", o.r(1) * sigma, gate * (dv - uv(1)), 1000);
  jacobians(f, x, 1000, {"orientation", "position", "point", "camera orientation", "camera position", "intrinsics"});
  vf::reach("end");
}
VF_CASE(camera_term) { camera(false, false); }
VF_CASE(camera_term_parameters) { camera(false, true); }
VF_CASE(camera_term_fisheye) { camera(true, false); }
// a rational lower triangular factor, well conditioned
static MX factor(const std::string &n, int m) {
  MX L = MX::Zero(m, m);
  for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) L(i, j) = i == j ? vf::rnd(n + std::to_string(i), 1, 2) : i - j < 5 ? vf::rnd(n + std::to_string(i) + "," + std::to_string(j), -0.3, 0.3) : double(0);
  return L;
}
static MX lower_inverse(const MX &L) {
  int n = L.rows(); MX X = MX::Zero(n, n);
  for (int c = 0; c < n; c++) for (int i = c; i < n; i++) { double s = i == c ? 1 : 0; for (int k = c; k < i; k++) s = s - L(i, k) * X(k, c); X(i, c) = s / L(i, i); }
  return X;
}
struct Imu { std::shared_ptr<Factor_ImuCPIv1> f; std::shared_ptr<CpiV1> c; std::vector<VX> x; MX L; V3 g, bw, ba; double dt; };
static std::shared_ptr<CpiV1> integrate(const V3 &bw, const V3 &ba, double swb = 1, double sab = 1) {
  auto c = std::make_shared<CpiV1>(1, swb, 1, sab, false);
  c->setLinearizationPoints(bw, ba);
  for (int k = 0; k < 2; k++) c->feed_IMU(k * 0.125, k * 0.125 + 0.125, vf::rnds("w" + std::to_string(k), 3, 1, -1, 1), vf::rnds("a" + std::to_string(k), 3, 1, -10, 10), V3::Zero(), V3::Zero());
  return c;
}
// a term over seeded preintegrated quantities
static Imu imu(bool moved) {
  Imu m; m.dt = 0.25; m.g << 0, 0, vf::input("gravity", 9, 10);
  m.bw = vf::rnds("bw", 3); m.ba = vf::rnds("ba", 3);
  V3 al = vf::rnds("alpha", 3), be = vf::rnds("beta", 3), t = vf::rnds("tq", 3, 1, -0.2, 0.2);
  V4 q = vf::unit_quat(t);
  M3 Jq = vf::rnds("Jq", 3, 3), Jb = vf::rnds("Jb", 3, 3), Ja = vf::rnds("Ja", 3, 3), Hb = vf::rnds("Hb", 3, 3), Ha = vf::rnds("Ha", 3, 3);
  m.L = factor("L", 15);
  MX X = lower_inverse(m.L);
  Eigen::Matrix<double, 15, 15> P = X.transpose() * X;
  m.f = std::make_shared<Factor_ImuCPIv1>(m.dt, m.g, al, be, q, m.ba, m.bw, Jq, Jb, Ja, Hb, Ha, P);
  V4 q1 = vf::in_quat("q1", false); V3 td = vf::rnds("td", 3, 1, -0.1, 0.1);
  V4 q2 = quat_multiply(vf::unit_quat(td), quat_multiply(q, q1));
  auto v = [&](const std::string &n) { return VX(vf::in_vec3(n, true, -10, 10)); };
  VX b1 = moved ? VX(m.bw + vf::rnds("dbw", 3, 1, -0.1, 0.1)) : VX(m.bw);
  m.x = {q1, b1, v("v1"), v("ba1"), v("p1"), q2, v("bw2"), v("v2"), v("ba2"), v("p2")};
  return m;
}
static const std::vector<std::string> inames = {"orientation", "gyroscope bias", "velocity", "accelerometer bias", "position", "next orientation", "next gyroscope bias", "next velocity", "next accelerometer bias", "next position"};
VF_CASE(inertial_term) {
  Imu m = imu(true);
  auto &f = *m.f;
  vf::check("sizes", f.num_residuals() == 15 && f.parameter_block_sizes() == std::vector<int>({4, 3, 3, 3, 3, 4, 3, 3, 3, 3}));
  Out o = eval(f, m.x, true);
  M3 R1 = quat_2_Rot(V4(m.x[0])), R2 = quat_2_Rot(V4(m.x[5]));
  // the error in its own frame, then its squared size in the information of the measurement
  V3 dbw = V3(m.x[1]) - m.bw, dba = V3(m.x[3]) - m.ba, v1 = m.x[2], v2 = m.x[7], p1 = m.x[4], p2 = m.x[9];
  V3 s = f.J_q * dbw; double nn = sqrt(1 + 0.25 * s.dot(s));
  V4 qb; qb << 0.5 * s / nn, 1 / nn;
  V4 qr = quat_multiply(quat_multiply(quat_multiply(V4(m.x[5]), Inv(V4(m.x[0]))), Inv(f.q_breve)), qb);
  VX e(15);
  e << 2 * qr.head(3), V3(m.x[6] - m.x[1]), R1 * (v2 - v1 + m.g * m.dt) - f.J_b * dbw - f.H_b * dba - f.beta, V3(m.x[8] - m.x[3]), R1 * (p2 - p1 - v1 * m.dt + 0.5 * m.g * m.dt * m.dt) - f.J_a * dbw - f.H_a * dba - f.alpha;
  VX w = m.L.transpose() * e;
  vf::check_eq("cost", o.r.dot(o.r), w.dot(w), 1000);
  for (int k = 0; k < 10; k++) if (k != 1) {
    MX D = derivative(f, m.x, k);
    vf::check_eq("derivative by " + inames[k], o.J[k].leftCols(3), D, 10);
    if (o.J[k].cols() == 4) vf::check_eq("fourth column of " + inames[k], o.J[k].col(3), VX(VX::Zero(15)));
  }
  vf::reach("end");
}
VF_CASE(inertial_term_bias) { // at the biases the measurement was integrated with
  Imu m = imu(false);
  jacobians(*m.f, m.x, 10, inames, 1);
  vf::reach("end");
}
VF_CASE(inertial_term_motion) { // nothing is left where the motion follows the readings, also to first order after the biases change
  vf::set_rounded_constants(true);
  V3 bw = vf::rnds("bw", 3), ba = vf::rnds("ba", 3), g; g << 0, 0, vf::input("gravity", 9, 10);
  auto c = integrate(bw, ba);
  MX L = factor("L", 15), X = lower_inverse(L);
  Eigen::Matrix<double, 15, 15> P = X.transpose() * X;
  Factor_ImuCPIv1 f(c->DT, g, c->alpha_tau, c->beta_tau, c->q_k2tau, ba, bw, c->J_q, c->J_b, c->J_a, c->H_b, c->H_a, P);
  V4 q1 = vf::in_quat("q1", false); M3 R1 = quat_2_Rot(q1);
  V3 v1 = vf::in_vec3("v1", true, -10, 10), p1 = vf::in_vec3("p1", true, -10, 10);
  auto r = [&](const VX &e) {
    V3 b1 = bw + V3(e.head(3)), b2 = ba + V3(e.tail(3));
    auto k = integrate(b1, b2);
    V4 q2 = quat_multiply(k->q_k2tau, q1);
    V3 v2 = v1 - g * k->DT + R1.transpose() * k->beta_tau, p2 = p1 + v1 * k->DT - 0.5 * g * k->DT * k->DT + R1.transpose() * k->alpha_tau;
    return eval(f, {q1, b1, v1, b2, p1, q2, b1, v2, b2, p2}).r;
  };
  VX z = VX::Zero(6);
  vf::check_near("the motion of the readings", r(z), VX(VX::Zero(15)), 1e-8);
  vf::check_near("after the biases change", vf::jacobian(r, 6), MX(MX::Zero(15, 6)), 1e-4);
  vf::reach("end");
}
VF_CASE(inertial_term_order) { // the covariance handed over is in the order of the residual
  vf::set_rounded_constants(true);
  double a = vf::input("swb", 0.1, 2), b = vf::input("sab", 0.1, 2);
  auto c = integrate(V3::Zero(), V3::Zero(), a, b);
  vf::check_near("gyroscope bias second", MX(c->P_meas.block(3, 3, 3, 3)), MX(M3::Identity() * (a * a * 0.25)), 1e-8);
  vf::check_near("accelerometer bias fourth", MX(c->P_meas.block(9, 9, 3, 3)), MX(M3::Identity() * (b * b * 0.25)), 1e-8);
  vf::reach("end");
}
static void prior(bool yaw) {
  std::vector<std::string> types = {"vec3", yaw ? "quat_yaw" : "quat", "vec1", "vec8"};
  int nq = yaw ? 1 : 3, n = 12 + nq;
  MX L = factor("L", n), info = L * L.transpose(), g = vf::inputs("g", n, 1, -5, 5);
  V4 q0 = vf::in_quat("q0", false), q = q0;
  V3 th = V3::Zero(); M3 Jr = M3::Identity(); (void)Jr;
  if (!yaw || vf::choose("turned", 2)) {
    vf::set_half_angles(true);
    double t = vf::in_angle("theta", 0.01, 3); V3 u; u << 2.0 / 3, 1.0 / 3, 2.0 / 3;
    if (yaw) u << 0, 0, 1;
    // R = R0 Exp(-th) ... the error is the turn from the linearisation point, in its own frame
    th = u * t; V4 dq; V3 r = quat_2_Rot(q0) * u * sin(t / 2); dq << r, cos(t / 2);
    q = quat_multiply(dq, q0);
  }
  VX lin(16); VX a = vf::rnds("a", 3), b = vf::rnds("b", 1), c = vf::rnds("c", 8);
  lin << a, q0, b, c;
  VX da = vf::inputs("da", 3, 1, -5, 5), db = vf::inputs("db", 1, 1, -5, 5), dc = vf::inputs("dc", 8, 1, -5, 5);
  std::vector<VX> x = {a + da, q, b + db, c + dc}, x0 = {a, q0, b, c};
  Factor_GenericPrior f(lin, types, info, g);
  vf::check("sizes", f.num_residuals() == n && f.parameter_block_sizes() == std::vector<int>({3, 4, 1, 8}));
  Out o = eval(f, x), z = eval(f, x0);
  VX e(n);
  M3 R0 = quat_2_Rot(q0);
  if (yaw) e << da, -th(2), db, dc; else e << da, -th, db, dc; // the turn after the one of the linearisation point: R = R0 Exp(e)
  VX w = L.transpose() * e;
  vf::check_eq("cost around the linearisation point", o.r.dot(o.r), z.r.dot(z.r) + w.dot(w) + 2 * e.dot(VX(g)), 1000);
  Out p = eval(f, x, true);
  for (int k = 0; k < 4; k++) if (k != 1) { vf::check_eq("derivative by " + types[k], p.J[k], derivative(f, x, k), 10); }
  Out at = eval(f, x0, true);
  MX D = derivative(f, x0, 1);
  vf::check_near("derivative by orientation there", at.J[1].leftCols(3), D, 1e-4);
  vf::check_eq("fourth column of orientation", at.J[1].col(3), VX(VX::Zero(n)));
  if (!yaw) vf::check_eq("derivative by orientation", p.J[1].leftCols(3), derivative(f, x, 1), 10);
  vf::reach("end");
}
VF_CASE(prior_term) { prior(false); }
VF_CASE(prior_term_heading) { prior(true); }
