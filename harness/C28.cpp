// Trajectory alignment: the transform minimises the squared position error over the allowed transforms
// VF-PKG: ov_eval
// VF-SOURCES: ov_eval/src/alignment/AlignTrajectory.cpp ov_eval/src/alignment/AlignUtils.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: three to five poses; full alignment: seeded shapes (aligned, noisy, mirrored, scaled) times every factor and offset; yaw alignment: the same shapes, and every turn of the first pose; single-pose alignment: every quaternion (turn below half) and position of both poses; every method and number of poses
// VF-OUTSIDE: rounding (relative 1e-6) inside the singular value decomposition; shapes in degenerate position (all points on a line)
#include "vf.h"
#include "alignment/AlignTrajectory.h"
#include "alignment/AlignUtils.h"
using namespace ov_eval;
typedef std::vector<Eigen::Matrix<double, 3, 1>> Pts;
typedef std::vector<Eigen::Matrix<double, 7, 1>> Poses;
static Pts cloud(const std::string &n, int k) { Pts r; for (int i = 0; i < k; i++) r.push_back(vf::rnds(n + std::to_string(i), 3)); return r; }
static Pts shape(int kind, const Pts &d, double f, const Eigen::Vector3d &t) {
  Eigen::Matrix3d R = ov_core::quat_2_Rot(vf::unit_quat(Eigen::Vector3d(vf::rnds("turn", 3))));
  Pts r;
  for (size_t i = 0; i < d.size(); i++) {
    Eigen::Vector3d x = R * d[i];
    if (kind) { Eigen::Vector3d e = vf::rnds("noise" + std::to_string(i), 3); x += (kind == 3 ? double(0.8) : double(0.2)) * e; }
    if (kind == 2) x(0) = 0 - x(0);
    r.push_back(f * x + t);
  }
  return r;
}
struct Sums { Eigen::Vector3d md, mm; Eigen::Matrix3d C; double var; }; // C = mean of model data^T
static Sums sums(const Pts &d, const Pts &m, size_t n) {
  Sums s; s.md.setZero(); s.mm.setZero(); s.C.setZero(); s.var = 0;
  for (size_t i = 0; i < n; i++) { s.md += d[i]; s.mm += m[i]; }
  s.md = s.md / (double)n; s.mm = s.mm / (double)n;
  for (size_t i = 0; i < n; i++) { Eigen::Vector3d a = d[i] - s.md, b = m[i] - s.mm; s.C += b * a.transpose(); s.var = s.var + a.dot(a); }
  s.C = s.C / (double)n; s.var = s.var / (double)n;
  return s;
}
static void best(const Sums &q, double f, const Eigen::Matrix3d &R, const Eigen::Vector3d &t, double s, bool fixed_scale) {
  vf::check_near("a rotation", Eigen::Matrix3d(R * R.transpose()), Eigen::Matrix3d(Eigen::Matrix3d::Identity()), 1e-9);
  double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
  vf::check_near("not a reflection", det, 1, 1e-9);
  // maximal trace of R^T C over the rotations: R^T C symmetric, trace I - R^T C positive semidefinite
  Eigen::Matrix3d B = R.transpose() * q.C / f;
  vf::check_near("stationary", Eigen::Matrix3d(B - B.transpose()), Eigen::Matrix3d(Eigen::Matrix3d::Zero()), 1e-9);
  Eigen::Matrix3d H = (B(0, 0) + B(1, 1) + B(2, 2)) * Eigen::Matrix3d::Identity() - B;
  double minors[5] = {H(0, 0), H(1, 1), H(2, 2), H(0, 0) * H(1, 1) - H(0, 1) * H(1, 0), H(0, 0) * (H(1, 1) * H(2, 2) - H(1, 2) * H(2, 1)) - H(0, 1) * (H(1, 0) * H(2, 2) - H(1, 2) * H(2, 0)) + H(0, 2) * (H(1, 0) * H(2, 1) - H(1, 1) * H(2, 0))};
  for (int i = 0; i < 5; i++) vf::check("a minimum", vf::le(-1e-9, minors[i]));
  if (fixed_scale) vf::check_eq("scale is one", s, double(1));
  else vf::check_near("best scale", s / f, (B(0, 0) + B(1, 1) + B(2, 2)) / q.var, 1e-7);
  Eigen::Vector3d tt = q.mm - s * (R * q.md);
  vf::check_near("best translation", Eigen::Vector3d((t - tt) / f), Eigen::Vector3d(Eigen::Vector3d::Zero()), 1e-9);
}
VF_CASE(full) {
  vf::set_rounded_constants(true);
  int kind = vf::choose("shape", 4); bool known = vf::choose("scale known", 2);
  Pts d = cloud("d", kind == 1 ? 4 : 5);
  double f = vf::input("factor", 0.01, 100); Eigen::Vector3d t0 = vf::in_vec3("offset", true, -100, 100);
  Pts m = shape(kind, d, f, t0);
  Eigen::Matrix3d R; Eigen::Vector3d t; double s;
  AlignUtils::align_umeyama(d, m, R, t, s, known, false);
  best(sums(d, m, d.size()), f, R, t, s, known);
  vf::reach("end");
}
VF_CASE(recovers) { // a noise-free copy is mapped exactly
  vf::set_rounded_constants(true);
  Pts d = cloud("d", 4);
  double f = vf::input("factor", 0.01, 100); Eigen::Vector3d t0 = vf::in_vec3("offset", true, -100, 100);
  Pts m = shape(0, d, f, t0);
  Eigen::Matrix3d R; Eigen::Vector3d t; double s;
  AlignUtils::align_umeyama(d, m, R, t, s, false, false);
  for (int i = 0; i < 4; i++) vf::check_near("maps onto the model", Eigen::Vector3d((s * (R * d[i]) + t - m[i]) / f), Eigen::Vector3d(Eigen::Vector3d::Zero()), 1e-9);
  vf::reach("end");
}
static void yaw_best(const Sums &q, const Eigen::Matrix3d &R, const Eigen::Vector3d &t) {
  vf::check_eq("turns about the vertical only", Eigen::MatrixXd((Eigen::MatrixXd(1, 5) << R(0, 2), R(1, 2), R(2, 0), R(2, 1), R(2, 2)).finished()), Eigen::MatrixXd((Eigen::MatrixXd(1, 5) << 0, 0, 0, 0, 1).finished()));
  double A = q.C(1, 0) - q.C(0, 1), B = q.C(0, 0) + q.C(1, 1), c = R(0, 0), s = R(1, 0);
  vf::check_eq("a turn", Eigen::MatrixXd((Eigen::MatrixXd(1, 2) << R(1, 1), R(0, 1)).finished()), Eigen::MatrixXd((Eigen::MatrixXd(1, 2) << c, 0 - s).finished()));
  vf::check_eq("of unit length", c * c + s * s, double(1));
  vf::check_eq("stationary yaw", A * c, B * s);
  double top = sqrt(A * A + B * B);
  vf::check_eq("a minimum", B * c + A * s, top);
  vf::check_eq("best translation", t, Eigen::Vector3d(q.mm - R * q.md));
}
static void yaw_near(const Sums &q, double f, const Eigen::Matrix3d &R, const Eigen::Vector3d &t) {
  double A = q.C(1, 0) - q.C(0, 1), B = q.C(0, 0) + q.C(1, 1), c = R(0, 0), z = R(1, 0);
  vf::check_near("stationary yaw", (A * c - B * z) / f, 0, 1e-9); vf::check("a minimum", vf::le(-1e-9, (B * c + A * z) / f)); vf::check_near("unit", c * c + z * z, 1, 1e-9);
  vf::check_near("about the vertical", R, Eigen::Matrix3d((Eigen::Matrix3d() << c, 0 - z, 0, z, c, 0, 0, 0, 1).finished()), 1e-12);
  vf::check_near("best translation", Eigen::Vector3d((t - (q.mm - R * q.md)) / f), Eigen::Vector3d(Eigen::Vector3d::Zero()), 1e-9);
}
VF_CASE(yaw) {
  vf::set_rounded_constants(true);
  int k = 3 + vf::choose("points", 2);
  Pts d = cloud("d", k);
  double f = vf::input("factor", 0.01, 100); Eigen::Vector3d t0 = vf::in_vec3("offset", true, -100, 100);
  Pts m = shape(vf::choose("shape", 4), d, f, t0);
  Eigen::Matrix3d R; Eigen::Vector3d t; double s = 0;
  AlignUtils::align_umeyama(d, m, R, t, s, true, true);
  vf::check_eq("scale is one", s, double(1));
  yaw_near(sums(d, m, k), f, R, t);
  vf::reach("end");
}
static Poses poses(const std::string &n, int k, bool symbolic_first) {
  Poses r;
  for (int i = 0; i < k; i++) { std::string m = n + std::to_string(i); Eigen::Matrix<double, 7, 1> p; p << vf::in_vec3(m + ".p", symbolic_first && i == 0), vf::in_quat(m + ".q", symbolic_first && i == 0); r.push_back(p); }
  return r;
}
static Eigen::Matrix3d rot(const Eigen::Matrix<double, 7, 1> &p) { return ov_core::quat_2_Rot(p.tail(4)).transpose(); }
VF_CASE(single_pose) {
  Poses e, g = poses("g", 3, true);
  bool both = vf::choose("which", 2); e = poses("e", 2, both);
  if (both) { for (int i = 3; i < 7; i++) g[0](i) = vf::rnd("gq" + std::to_string(i), -1, 1); Eigen::Vector3d h = vf::rnds("gt", 3); g[0].tail(4) = vf::unit_quat(h); }
  int how = vf::choose("called as", 2);
  Eigen::Matrix3d R; Eigen::Vector3d t; double s = 0;
  if (how) AlignTrajectory::align_trajectory(e, g, R, t, s, "se3", 1); else AlignTrajectory::align_trajectory(e, g, R, t, s, "se3single");
  vf::check_eq("scale is one", s, double(1));
  vf::check_eq("first orientations coincide", Eigen::Matrix3d(R * rot(e[0])), rot(g[0]));
  vf::check_eq("first positions coincide", Eigen::Vector3d(R * e[0].head(3) + t), Eigen::Vector3d(g[0].head(3)));
  vf::reach("end");
}
VF_CASE(single_pose_yaw) {
  Poses e = poses("e", 2, false), g = poses("g", 3, false);
  Eigen::Vector3d pe = vf::in_vec3("pe", true), pg = vf::in_vec3("pg", true); e[0].head(3) = pe; g[0].head(3) = pg;
  double w = vf::input("w", -4, 4); Eigen::Vector3d h(0.25, w, -0.5); g[0].tail(4) = vf::unit_quat(h);
  int how = vf::choose("called as", 2);
  Eigen::Matrix3d R; Eigen::Vector3d t; double s = 0;
  if (how) AlignTrajectory::align_trajectory(e, g, R, t, s, "posyaw", 1); else AlignTrajectory::align_trajectory(e, g, R, t, s, "posyawsingle");
  vf::check_eq("scale is one", s, double(1));
  Sums q; q.C = rot(g[0]) * rot(e[0]).transpose(); q.mm = pg; q.md = pe;
  yaw_best(q, R, t);
  vf::reach("end");
}
VF_CASE(methods) {
  vf::set_rounded_constants(true);
  int m = vf::choose("method", 4), k = 5;
  static const int ns[4] = {-1, 3, 5, 9}; int n = ns[vf::choose("poses used", 4)];
  Poses e = poses("e", k, false), g = poses("g", k, false);
  double f = vf::input("factor", 0.01, 100); Eigen::Vector3d t0 = vf::in_vec3("offset", true, -100, 100);
  Pts d, y; for (auto &p : e) d.push_back(p.head(3));
  y = shape(1, d, f, t0); for (int i = 0; i < k; i++) g[i].head(3) = y[i];
  static const char *names[4] = {"posyaw", "se3", "sim3", "none"};
  Eigen::Matrix3d R; Eigen::Vector3d t; double s = 0;
  AlignTrajectory::align_trajectory(e, g, R, t, s, names[m], n);
  size_t used = n < 0 || n > k ? k : n;
  Sums q = sums(d, y, used);
  if (m == 3) { vf::check_eq("no rotation", R, Eigen::Matrix3d(Eigen::Matrix3d::Identity())); vf::check_eq("no translation", t, Eigen::Vector3d(Eigen::Vector3d::Zero())); vf::check_eq("no scale", s, double(1)); }
  else if (m == 0) {
    yaw_near(q, f, R, t);
    vf::check_eq("scale is one", s, double(1));
  } else best(q, f, R, t, s, m == 1);
  vf::reach("end");
}
