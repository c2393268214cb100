// Trajectory errors against ground truth: absolute, relative, normalised, per axis
// VF-PKG: ov_eval
// VF-SOURCES: ov_eval/src/calc/ResultTrajectory.cpp ov_eval/src/alignment/AlignTrajectory.cpp ov_eval/src/alignment/AlignUtils.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: three to five poses, with and without an alignment; every turn of 0.01..3.1 rad about seeded axes and every offset of one pose, every covariance entry of it; relative errors: every spacing of the poses along the path; roll, pitch and yaw at listed attitudes including both sides of the half turn
// VF-OUTSIDE: reading the files (the poses are handed over in place of the file loader); rounding; pitch at a right angle
#include "vf.h"
#include "calc/ResultTrajectory.h"
#include "utils/Loader.h"
using namespace ov_eval;
typedef Eigen::Matrix<double, 7, 1> Pose;
struct Traj { std::vector<double> t; std::vector<Pose> p; std::vector<Eigen::Matrix3d> o, x; };
static Traj est, gt;
namespace ov_eval {
void Loader::load_data(std::string path, std::vector<double> &times, std::vector<Eigen::Matrix<double, 7, 1>> &poses, std::vector<Eigen::Matrix3d> &co, std::vector<Eigen::Matrix3d> &cp) { Traj &k = path == "est" ? est : gt; times = k.t; poses = k.p; co = k.o; cp = k.x; }
double Loader::get_total_length(const std::vector<Eigen::Matrix<double, 7, 1>> &) { return 1; }
}
static Eigen::Vector4d mul(const Eigen::Vector4d &q, const Eigen::Vector4d &p) {
  Eigen::Vector4d r; Eigen::Vector3d a = q.head(3), b = p.head(3);
  Eigen::Vector3d v = q(3) * b + p(3) * a - a.cross(b);
  r << v, q(3) * p(3) - a.dot(b);
  return r;
}
static Eigen::Vector4d turn(const Eigen::Vector3d &axis, double angle) { Eigen::Vector4d q; q << axis * sin(angle / 2.0), cos(angle / 2.0); return q; }
static Eigen::Vector3d axis(int k) { static const double a[4][3] = {{2. / 3, 1. / 3, 2. / 3}, {-3. / 5, 0, 4. / 5}, {2. / 7, -6. / 7, 3. / 7}, {0, 0, 1}}; return Eigen::Vector3d(a[k][0], a[k][1], a[k][2]); }
static Eigen::Matrix3d rot(const Pose &p) { return ov_core::quat_2_Rot(p.tail(4)); }
static Eigen::Matrix3d id() { return Eigen::Matrix3d::Identity(); }
static Pose pose(const std::string &n) { Pose p; p << vf::rnds(n + ".p", 3), vf::in_quat(n + ".q", false); return p; }
// the ground truth, and the same seen from another frame with one pose turned by q (in the body) and moved
struct Frame { Eigen::Matrix3d R; Eigen::Vector4d q; Eigen::Vector3d t; std::string method; };
static Frame frame(int aligned) {
  Frame f; f.R = id(); f.q << 0, 0, 0, 1; f.t.setZero(); f.method = "none";
  if (aligned) { f.q = vf::in_quat("frame.q", false); f.R = ov_core::quat_2_Rot(f.q); f.t = vf::rnds("frame.t", 3); f.method = aligned == 1 ? "se3single" : "se3"; }
  return f;
}
static Pose to_gt(const Frame &f, const Pose &e) { Pose r; Eigen::Vector4d qi = f.q; qi.head(3) = -1.0 * f.q.head(3); r << f.R * e.head(3) + f.t, mul(e.tail(4), qi); return r; }
static void fill(const Frame &f, int n) { est = Traj(); gt = Traj(); for (int i = 0; i < n; i++) { Pose e = pose("e" + std::to_string(i)); est.p.push_back(e); gt.p.push_back(to_gt(f, e)); est.t.push_back(i); gt.t.push_back(i); } }
VF_CASE(absolute) {
  vf::set_half_angles(true);
  Frame f = frame(vf::choose("aligned", 2));
  fill(f, 4);
  int k = 1 + vf::choose("which pose", 3);
  double th = vf::in_angle("turn", 0.01, 3.1); Eigen::Vector3d d = vf::in_vec3("moved", true, -10, 10);
  gt.p[k].tail(4) = mul(turn(axis(k - 1), th), Eigen::Vector4d(gt.p[k].tail(4)));
  Eigen::Vector3d x = gt.p[k].head(3); x += d; gt.p[k].head(3) = x;
  ResultTrajectory r("est", "gt", f.method);
  Statistics o, p;
  r.calculate_ate(o, p);
  vf::check("one error per pose", o.values.size() == 4 && p.values.size() == 4 && o.timestamps.size() == 4 && p.timestamps.size() == 4);
  for (int i = 0; i < 4; i++) {
    vf::check("at its time", o.timestamps[i] == i && p.timestamps[i] == i);
    vf::check("not negative", vf::le(0, p.values[i]));
    if (i == k) { vf::check_eq("angle between the orientations", o.values[i], double(180.0 / M_PI) * th); vf::check_eq("distance between the positions", p.values[i] * p.values[i], d.dot(d)); }
    else { vf::check_eq("no angle", o.values[i], double(0)); vf::check_eq("no distance", p.values[i], double(0)); }
  }
  vf::reach("end");
}
VF_CASE(absolute_planar) {
  vf::set_half_angles(true);
  Frame f = frame(vf::choose("aligned", 2));
  fill(f, 3);
  double th = vf::in_angle("turn", 0.01, 3.1); Eigen::Vector3d d = vf::in_vec3("moved", true, -10, 10);
  // turned about the vertical
  Eigen::Vector3d z(0, 0, 1);
  gt.p[1].tail(4) = mul(Eigen::Vector4d(gt.p[1].tail(4)), turn(z, th));
  Eigen::Vector3d x = gt.p[1].head(3); x += d; gt.p[1].head(3) = x;
  ResultTrajectory r("est", "gt", f.method);
  Statistics o, p;
  r.calculate_ate_2d(o, p);
  vf::check("one error per pose", o.values.size() == 3 && p.values.size() == 3);
  vf::check_eq("size of the heading difference", o.values[1] * o.values[1], double(180.0 / M_PI) * th * (double(180.0 / M_PI) * th));
  vf::check_eq("horizontal distance", p.values[1] * p.values[1], d(0) * d(0) + d(1) * d(1));
  vf::check_eq("no angle", o.values[2], double(0)); vf::check_eq("no distance", p.values[2], double(0));
  vf::reach("end");
}
VF_CASE(normalised) {
  vf::set_half_angles(true);
  Frame f = frame(vf::choose("aligned", 2));
  fill(f, 3);
  bool turned = vf::choose("turned", 2);
  double th = vf::in_angle("turn", 0.01, 3.1); Eigen::Vector3d d = vf::in_vec3("moved", true, -10, 10);
  int ax = vf::choose("axis", 3);
  // moved in the frame of the estimate
  if (turned) gt.p[1].tail(4) = mul(turn(axis(ax), th), Eigen::Vector4d(gt.p[1].tail(4)));
  Eigen::Vector3d x = gt.p[1].head(3); x += f.R * d; gt.p[1].head(3) = x;
  for (int i = 0; i < 3; i++) {
    Eigen::Matrix3d a, b; 
    for (int u = 0; u < 3; u++) for (int v = 0; v <= u; v++) { std::string n = std::to_string(i) + std::to_string(u) + std::to_string(v); a(u, v) = a(v, u) = u == v ? vf::rnd("a" + n, 1, 2) : vf::rnd("a" + n, -0.3, 0.3); b(u, v) = b(v, u) = u == v ? vf::rnd("b" + n, 1, 2) : vf::rnd("b" + n, -0.3, 0.3); }
    est.o.push_back(a); est.x.push_back(b);
  }
  ResultTrajectory r("est", "gt", f.method);
  Statistics o, p;
  r.calculate_nees(o, p);
  vf::check("one per pose", o.values.size() == 3 && p.values.size() == 3);
  Eigen::Vector3d e = turned ? Eigen::Vector3d(th * axis(ax)) : Eigen::Vector3d(Eigen::Vector3d::Zero());
  Eigen::Vector3d ye = est.o[1].inverse() * e, yd = est.x[1].inverse() * d;
  vf::check_eq("orientation error in its covariance", o.values[1], e.dot(ye));
  vf::check_eq("position error in its covariance", p.values[1], d.dot(yd));
  vf::check_eq("none", o.values[2], double(0)); vf::check_eq("none", p.values[2], double(0));
  vf::reach("end");
}
// along a straight path with symbolic spacing; which segments are compared, and their errors
static void relative(bool symbolic_spacing) {
  Frame f = frame(vf::choose("aligned", 2));
  int n = symbolic_spacing ? 4 : 5;
  fill(f, n);
  Eigen::Vector3d u = axis(0);
  std::vector<double> at{0};
  for (int i = 1; i < n; i++) at.push_back(at[i - 1] + (symbolic_spacing ? double(vf::input("step" + std::to_string(i), 0.01, 2)) : double(0.375 * (1 + i % 2))));
  Eigen::Vector3d move = symbolic_spacing ? Eigen::Vector3d(0.5, -0.25, 0.125) : Eigen::Vector3d(vf::in_vec3("moved", true, -10, 10));
  std::vector<Pose> truth;
  for (int i = 0; i < n; i++) {
    gt.p[i].head(3) = at[i] * u;
    // the estimate in the ground-truth frame, with an offset growing along the path and a turn at one pose
    Pose e = gt.p[i]; Eigen::Vector3d x = e.head(3); x += move * double(i * i) / 4.0; e.head(3) = x;
    if (i == 2) e.tail(4) = mul(vf::in_quat("bent", false), Eigen::Vector4d(e.tail(4)));
    truth.push_back(e);
    // back into the frame of the estimate
    Eigen::Vector3d y = f.R.transpose() * (x - f.t);
    est.p[i].head(3) = y; est.p[i].tail(4) = mul(Eigen::Vector4d(e.tail(4)), f.q);
  }
  // aligned by the first pose, which is the same in both
  ResultTrajectory r("est", "gt", f.method);
  std::map<double, std::pair<Statistics, Statistics>> m;
  double len = 1;
  r.calculate_rpe({len}, m);
  vf::check("one entry per length", m.size() == 1);
  auto &o = m.begin()->second.first; auto &p = m.begin()->second.second;
  size_t k = 0;
  for (int i = 0; i < n; i++) {
    int b = -1; double bd = 0.5;
    for (int j = i; j < n; j++) { double w = at[j] - at[i] - len; if (w < 0) w = 0 - w; if (w < bd) { b = j; bd = w; } }
    if (b < 0) continue;
    if (k >= p.values.size() || k >= o.values.size()) { vf::check("a segment for every start that has an end", false); return; }
    Eigen::Matrix3d Ri = rot(gt.p[i]), Rj = rot(gt.p[b]), Ei = rot(truth[i]), Ej = rot(truth[b]);
    Eigen::Vector3d g = Ri * (gt.p[b].head(3) - gt.p[i].head(3)), e = Ei * (truth[b].head(3) - truth[i].head(3)), d = e - g;
    vf::check("start of the segment", p.timestamps[k] == i && o.timestamps[k] == i);
    vf::check("not negative", vf::le(0, p.values[k]));
    vf::check_eq("error of the relative position", p.values[k] * p.values[k], d.dot(d));
    Eigen::Matrix3d D = (Ri * Rj.transpose()).transpose() * (Ei * Ej.transpose());
    double c = (D(0, 0) + D(1, 1) + D(2, 2) - 1) / 2, ca = cos(o.values[k] * double(M_PI / 180.0));
    if (!symbolic_spacing) vf::check_near("error of the relative orientation", ca, c, 1e-6);
    k++;
  }
  vf::check("no other segments", p.values.size() == k && o.values.size() == k);
  vf::reach("end");
}
VF_CASE(relative_errors) { vf::set_rounded_constants(true); relative(false); }
VF_CASE(relative_segments) { vf::set_rounded_constants(true); relative(true); }
// per axis
VF_CASE(axes) {
  vf::set_rounded_constants(true);
  Frame f = frame(vf::choose("aligned", 2));
  fill(f, 3);
  static const double ang[4][6] = {{0.3, -0.4, 0.5, 0.31, -0.42, 0.47}, {3.1, 0.2, -3.12, -3.12, 0.21, 3.13}, {-3.13, -0.9, 3.1, 3.12, -0.91, -3.11}, {-1.6, 1.2, 1.7, -1.55, 1.25, 1.6}};
  int k = vf::choose("attitude", 4);
  auto q = [](double roll, double pitch, double yaw) { // orientation of the body with these angles, as the rotation into the body
    Eigen::Vector3d x(1, 0, 0), y(0, 1, 0), z(0, 0, 1);
    return mul(mul(turn(x, roll), turn(y, pitch)), turn(z, yaw));
  };
  bool withcov = vf::choose("covariances", 2);
  Eigen::Vector3d d = vf::in_vec3("moved", !withcov, -10, 10);
  // in the frame of the estimate
  Eigen::Vector4d qe = q(ang[k][0], ang[k][1], ang[k][2]), qg = q(ang[k][3], ang[k][4], ang[k][5]);
  est.p[1].tail(4) = qe;
  Pose g = est.p[1]; Eigen::Vector3d xg = g.head(3); xg += d; g << xg, qg; gt.p[1] = to_gt(f, g);
  Eigen::Matrix3d P = id(), X = id();
  if (withcov) {
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { std::string n = std::to_string(i) + std::to_string(j); P(i, j) = P(j, i) = i == j ? vf::rnd("P" + n, 1, 2) : vf::rnd("P" + n, -0.3, 0.3); X(i, j) = X(j, i) = i == j ? vf::input("X" + n, 1, 2) : vf::input("X" + n, -0.3, 0.3); }
    double s = vf::input("scale", 0.01, 4); P = P * s;
    for (int i = 0; i < 3; i++) { est.o.push_back(i == 1 ? P : id()); est.x.push_back(i == 1 ? X : id()); }
  }
  ResultTrajectory r("est", "gt", f.method);
  Statistics s[9];
  r.calculate_error(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]);
  for (auto &x : s) vf::check("one per pose, bounds with covariances only", x.values.size() == 3 && x.timestamps.size() == 3 && x.values_bound.size() == (withcov ? 3 : 0));
  Eigen::Matrix3d R = ov_core::quat_2_Rot(qe);
  Eigen::Vector4d qi = qe; qi.head(3) = -1.0 * qe.head(3);
  Eigen::Vector4d dq = mul(qg, qi); if (dq(3) < 0) dq = -1.0 * dq;
  Eigen::Vector3d th = 2.0 * (R.transpose() * dq.head(3));
  double deg = 180.0 / M_PI;
  for (int i = 0; i < 3; i++) {
    vf::check_near("position", s[i].values[1], d(i), 1e-9);
    vf::check_near("orientation in the global frame", s[3 + i].values[1], deg * th(i), 1e-6);
    double a = ang[k][3 + i] - ang[k][i]; if (a > M_PI) a = a - 2.0 * M_PI; if (a < -M_PI) a = a + 2.0 * M_PI;
    vf::check_near("roll, pitch, yaw", s[6 + i].values[1], deg * a, 1e-6);
    if (withcov) {
      vf::check_near("position bound", s[i].values_bound[1] * s[i].values_bound[1], 9.0 * X(i, i), 1e-6);
      Eigen::Matrix3d G = R.transpose() * P * R;
      vf::check_near("orientation bound", s[3 + i].values_bound[1] * s[3 + i].values_bound[1], 9.0 * deg * deg * G(i, i), 1e-4);
      vf::check("bounds are positive", vf::le(0, s[i].values_bound[1])); vf::check("bounds are positive", vf::le(0, s[3 + i].values_bound[1])); vf::check("bounds are positive", vf::le(0, s[6 + i].values_bound[1]));
    }
  }
  if (withcov) {
    // derivative of the angles by a turn of the body, to first order: the rates of roll, pitch and yaw from body rates
    double cr = cos(ang[k][0]), sr = sin(ang[k][0]), cp = cos(ang[k][1]), sp = sin(ang[k][1]), tp = sp / cp;
    Eigen::Matrix3d J; J << 1, sr * tp, cr * tp, 0, cr, 0 - sr, 0, sr / cp, cr / cp;
    Eigen::Matrix3d G = J * P * J.transpose();
    for (int i = 0; i < 3; i++) vf::check_near("roll, pitch, yaw bound", s[6 + i].values_bound[1] * s[6 + i].values_bound[1], 9.0 * deg * deg * G(i, i), 1e-4);
  }
  vf::reach("end");
}
