// Triangulation of a feature from known camera poses, its refinement and its acceptance
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/feat/FeatureInitializer.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: two to four views from one or two cameras with seeded rational orientations; linear triangulation with every camera position, refinement of one Levenberg step with every observation of one view near its prediction, acceptance with every distance and baseline
// VF-OUTSIDE: rounding and single-precision residuals (1e-4); the numerical singular values (known here from the geometry); more than two refinement steps
#include "vf.h"
#include "feat/FeatureInitializer.h"
#include "feat/Feature.h"
using namespace ov_core;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
struct View { size_t cam; double t; M3 R; V3 c; Eigen::Vector2d uv; V3 d() const { V3 b(uv(0), uv(1), 1); return R.transpose() * b; } };
typedef std::unordered_map<size_t, std::unordered_map<double, FeatureInitializer::ClonePose>> Clones;
static M3 rot(const std::string &n) { return quat_2_Rot(vf::in_quat(n, false)); }
struct Scene { std::vector<View> v; std::shared_ptr<Feature> f; Clones c; };
static void finish(Scene &s) {
  s.f = std::make_shared<Feature>();
  s.f->featid = 7; s.f->p_FinA = V3(1, 2, 3); s.f->p_FinG = V3(4, 5, 6);
  for (auto &v : s.v) {
    s.f->timestamps[v.cam].push_back(v.t);
    Eigen::VectorXf u(2); u << (float)v.uv(0), (float)v.uv(1);
    s.f->uvs_norm[v.cam].push_back(u); s.f->uvs[v.cam].push_back(u);
    s.c[v.cam].insert({v.t, FeatureInitializer::ClonePose(v.R, v.c)});
    if (v.cam == 0) s.c[1].insert({v.t + 100, FeatureInitializer::ClonePose()}); // poses without an observation
  }
}
// anchored in the camera with most observations, at its latest one
static const View &anchor(const Scene &s) {
  std::map<size_t, int> n; for (auto &v : s.v) n[v.cam]++;
  size_t best = s.v[0].cam; for (auto &k : n) if (k.second > n[best]) best = k.first;
  int got = s.f->anchor_cam_id; if (got >= 0 && n.count(got) && n[got] == n[best]) best = got; // either of two with as many
  const View *a = nullptr; for (auto &v : s.v) if (v.cam == best) a = &v;
  vf::check("anchored in the camera with most observations", s.f->anchor_cam_id == (int)best);
  vf::check_eq("anchored at its last observation", s.f->anchor_clone_timestamp, a->t);
  return *a;
}
static Scene linear_scene(int k) {
  static const double uv[4][2] = {{0.5, -0.25}, {-0.5, 0.125}, {0.25, 0.75}, {-0.125, -0.375}};
  static const int cams[4][4] = {{0, 0, -1, -1}, {0, 0, 1, -1}, {1, 0, 1, 1}, {0, 1, 0, 1}};
  static const double ts[4] = {1, 2, 2.5, 3};
  Scene s;
  for (int i = 0; i < 4 && cams[k][i] >= 0; i++) {
    View v; v.cam = cams[k][i]; v.t = ts[i]; v.R = rot("R" + std::to_string(i)); v.c = vf::in_vec3("c" + std::to_string(i), true, -10, 10); v.uv = Eigen::Vector2d(uv[i][0], uv[i][1]);
    s.v.push_back(v);
  }
  finish(s);
  return s;
}
static M3 proj(const View &v) { V3 d = v.d(); double n = d.dot(d); return M3::Identity() - d * d.transpose() / n; }
static void linear(bool oned) {
  Scene s = linear_scene(vf::choose("views", 4));
  FeatureInitializerOptions o;
  o.min_dist = 0.25; o.max_dist = 40; o.max_cond_number = 1e9;
  FeatureInitializer fi(o);
  bool ok; if (oned) ok = fi.single_triangulation_1d(s.f, s.c); else ok = fi.single_triangulation(s.f, s.c);
  const View &a = anchor(s);
  // the point closest to all lines of sight (to the others, along the anchor's own line of sight)
  V3 want;
  if (!oned) {
    M3 A = M3::Zero(); V3 b = V3::Zero();
    for (auto &v : s.v) { A += proj(v); b += proj(v) * v.c; }
    want = A.colPivHouseholderQr().solve(b);
  } else {
    double A = 0, b = 0; V3 d = a.d();
    for (auto &v : s.v) { if (&v == &a) continue; A += d.dot(proj(v) * d); b += d.dot(proj(v) * (v.c - a.c)); }
    want = a.c + d * (b / A);
  }
  V3 inA = a.R * (want - a.c);
  if (ok) {
    vf::check_eq("closest to the lines of sight", s.f->p_FinG, want, 20);
    vf::check_eq("in the anchor frame", s.f->p_FinA, inA, 20);
    vf::check("not too close", vf::le(0.25, inA(2))); vf::check("not too far", vf::le(inA(2), 40.0));
  } else {
    if (inA(2) >= 0.25) vf::check("refused only when too far or too close", vf::le(40.0, inA(2)));
    vf::check_eq("refused: position untouched", s.f->p_FinG, V3(4, 5, 6));
  }
  vf::reach("end");
}
VF_CASE(linear_3d) { linear(false); }
VF_CASE(linear_1d) { linear(true); }
VF_CASE(exact_point) { // perfect observations give the point itself
  bool oned = vf::choose("one dimensional", 2);
  Scene s = linear_scene(vf::choose("views", 4));
  V3 p = vf::in_vec3("p", true, -10, 10);
  for (size_t i = 0; i < s.v.size(); i++) s.v[i].c = p - s.v[i].d() * double(vf::input("depth" + std::to_string(i), 0.5, 30));
  finish(s);
  s.c.clear(); for (auto &v : s.v) s.c[v.cam].insert({v.t, FeatureInitializer::ClonePose(v.R, v.c)});
  FeatureInitializerOptions o;
  o.max_cond_number = 1e9;
  FeatureInitializer fi(o);
  bool ok; if (oned) ok = fi.single_triangulation_1d(s.f, s.c); else ok = fi.single_triangulation(s.f, s.c);
  const View &a = anchor(s);
  vf::check("accepted", ok);
  vf::check_eq("the point", s.f->p_FinG, p, 50);
  vf::check_eq("the point in the anchor frame", s.f->p_FinA, V3(a.R * (p - a.c)), 50);
  vf::reach("end");
}
VF_CASE(condition) { // two rays at a known angle: the condition number is 2 / (1 - |cos|)
  static const double cs[3][2] = {{4. / 5, 3. / 5}, {24. / 25, 7. / 25}, {-40. / 41, 9. / 41}};
  int k = vf::choose("angle", 3);
  Scene s;
  M3 K = skew_x(V3(-2. / 3, 2. / 3, 1. / 3)); // axis orthogonal to the ray (2, 1, 2)
  V3 p = vf::in_vec3("p", true, -10, 10);
  M3 Ra = rot("Ra");
  for (int i = 0; i < 2; i++) {
    View v; v.cam = 0; v.t = i; v.uv = Eigen::Vector2d(1, 0.5);
    v.R = M3::Identity(); if (i == 0) v.R += cs[k][1] * K + (1 - cs[k][0]) * K * K;
    v.R = v.R * Ra;
    v.c = p - v.d() * double(vf::input("depth" + std::to_string(i), 0.5, 30));
    s.v.push_back(v);
  }
  finish(s);
  double c = cs[k][0]; if (k == 2) c = -c;
  bool over = vf::choose("above the limit", 2);
  FeatureInitializerOptions o;
  o.max_cond_number = 2 / (1 - c); if (over) o.max_cond_number *= 0.999; else o.max_cond_number *= 1.001;
  FeatureInitializer fi(o);
  vf::check("accepted exactly when well conditioned", fi.single_triangulation(s.f, s.c) == !over);
  vf::reach("end");
}
// acceptance after refinement: distance and baseline ratio
VF_CASE(acceptance) {
  static const double dir[3][3] = {{2, 1, 2}, {-2, 6, 3}, {4, -4, 7}}; static const double nd[3] = {3, 7, 9};
  static const double base[3][3] = {{1, 2, -2}, {3, 0, 4}, {0, 1, 0}};
  int k = vf::choose("direction", 3), views = 2 + vf::choose("third view", 2);
  Scene s;
  V3 u(dir[k][0] / nd[k], dir[k][1] / nd[k], dir[k][2] / nd[k]);
  View a; a.cam = 0; a.t = 5; a.R = rot("Ra"); a.c = vf::in_vec3("ca", true, -10, 10); a.uv = Eigen::Vector2d(0, 0);
  double best = 0;
  for (int i = 1; i < views; i++) {
    View v; v.cam = i - 1; v.t = i; v.R = rot("R" + std::to_string(i)); v.uv = Eigen::Vector2d(0, 0);
    double l = vf::input("baseline" + std::to_string(i), 0.01, 10);
    V3 e(base[i][0], base[i][1], base[i][2]);
    v.c = a.c + a.R.transpose() * (e * l);
    V3 off = e - u * u.dot(e);
    double sq = l * l * off.dot(off);
    if (sq > best) best = sq;
    s.v.push_back(v);
  }
  s.v.push_back(a);
  finish(s);
  FeatureInitializerOptions o;
  o.max_runs = 0; o.min_dist = 0.5; o.max_dist = 30; o.max_baseline = vf::choose("tight baseline", 2) ? double(8) : double(40);
  double d = vf::input("distance", 0.1, 100);
  s.f->p_FinA = u * d; s.f->anchor_cam_id = 0; s.f->anchor_clone_timestamp = 5;
  FeatureInitializer fi(o);
  bool ok = fi.single_gaussnewton(s.f, s.c);
  vf::check_eq("unrefined point kept", s.f->p_FinA, V3(u * d), 50);
  bool far = d * d > o.max_baseline * o.max_baseline * best, range = u(2) * d >= 0.5 && u(2) * d <= 30;
  if (ok) { vf::check("enough parallax", !far); vf::check("in range", range); vf::check_eq("global position", s.f->p_FinG, V3(a.R.transpose() * (u * d) + a.c), 50); }
  else { vf::check("refused with a reason", far || !range); vf::check_eq("refused: position untouched", s.f->p_FinG, V3(4, 5, 6)); }
  vf::reach("end");
}
// one Levenberg step
static Eigen::VectorXd predict(const Scene &s, const View &a, const V3 &x) {
  Eigen::VectorXd z(2 * (int)s.v.size());
  V3 p = V3(x(0), x(1), 1) / x(2);
  for (size_t i = 0; i < s.v.size(); i++) { V3 q = s.v[i].R * (a.R.transpose() * p + a.c - s.v[i].c); z(2 * i) = q(0) / q(2); z(2 * i + 1) = q(1) / q(2); }
  return z;
}
static double cost(const Eigen::VectorXd &e) { return e.dot(e); }
static void refinement(int views) {
  vf::set_limits(20000, 4000, 100);
  int which = vf::thorough() ? vf::choose("which observation is free", 2) : 0;
  Scene s;
  auto coarse = [](const std::string &n, vf::Num lo, vf::Num hi, double k) { double x = vf::rnd(n, lo, hi); return double(floor(x * k) / k); };
  for (int i = 0; i < views; i++) {
    View v; v.cam = i == 1 ? 1 : 0; v.t = i;
    std::string n = std::to_string(i);
    static const double tq[3][2] = {{3. / 5, 4. / 5}, {-5. / 13, 12. / 13}, {0, 1}};
    M3 K = skew_x(V3(i == 0, i == 1, 0)); v.R = M3::Identity() + tq[i][0] * K + (1 - tq[i][1]) * K * K;
    v.c = V3(i + coarse("x" + n, -0.5, 0.5, 4), coarse("y" + n, -1, 1, 4), coarse("z" + n, -1, 1, 4));
    s.v.push_back(v);
  }
  int ai = views == 3 ? 2 : 0;
  View a = s.v[ai];
  V3 x0(0.25, -0.125, 0.25), xt(coarse("alpha", 0.2, 0.3, 64), coarse("beta", -0.2, -0.1, 64), coarse("rho", 0.2, 0.3, 64));
  Eigen::VectorXd z = predict(s, a, xt);
  for (int i = 0; i < z.rows(); i++) z(i) = floor(z(i) * 256) / 256;
  for (int i = 0; i < views; i++) s.v[i].uv = Eigen::Vector2d(z(2 * i), z(2 * i + 1));
  double n0 = vf::input("noise", -0.02, 0.02);
  if (which) s.v[1].uv(1) = s.v[1].uv(1) + n0; else s.v[0].uv(0) = s.v[0].uv(0) + n0;
  for (int i = 0; i < views; i++) { z(2 * i) = s.v[i].uv(0); z(2 * i + 1) = s.v[i].uv(1); }
  finish(s);
  FeatureInitializerOptions o;
  o.max_runs = 1; o.init_lamda = vf::choose("damping", 2) ? double(0.5) : double(1e-3); o.max_lamda = o.init_lamda * 2; o.min_dist = 0.01; o.max_dist = 1000; o.max_baseline = 1e6; o.min_dcost = (vf::thorough() && vf::choose("converged", 2)) ? double(2) : double(1e-6);
  s.f->p_FinA = V3(x0(0), x0(1), 1) / x0(2); s.f->anchor_cam_id = (int)a.cam; s.f->anchor_clone_timestamp = a.t;
  FeatureInitializer fi(o);
  bool ok = fi.single_gaussnewton(s.f, s.c);
  V3 x(s.f->p_FinA(0) / s.f->p_FinA(2), s.f->p_FinA(1) / s.f->p_FinA(2), 1 / s.f->p_FinA(2));
  Eigen::VectorXd r0 = z - predict(s, a, x0);
  Eigen::MatrixXd H = vf::jacobian([&](const Eigen::VectorXd &e) { return predict(s, a, V3(x0 + e)); }, 3);
  M3 N = H.transpose() * H; for (int i = 0; i < 3; i++) N(i, i) = N(i, i) * (1 + o.init_lamda);
  V3 g = H.transpose() * r0, dx = N.colPivHouseholderQr().solve(g);
  double c0 = cost(r0), c1 = cost(z - predict(s, a, V3(x0 + dx)));
  bool better = c1 <= c0;
  V3 want = x0; if (better) want += dx;
  vf::check_near("damped least squares step, taken exactly when it does not increase the reprojection error", x, want, 1e-4);
  if (ok) vf::check_near("global position", s.f->p_FinG, V3(a.R.transpose() * s.f->p_FinA + a.c), 1e-3);
  vf::reach("end");
}
// perfect observations from a poor start: the refinement reaches the point, wherever in the world it is
static void converges(int views) {
  vf::set_rounded_constants(true);
  Scene s; V3 w = vf::in_vec3("world", false, -100, 100);
  View a; V3 p(vf::rnd("px", -0.5, 0.5), vf::rnd("py", -0.5, 0.5), vf::rnd("pz", 4, 6)), g(0, 0, 0);
  for (int i = 0; i < views; i++) {
    View v; v.cam = i == 1 ? 1 : 0; v.t = i; std::string n = std::to_string(i);
    V3 t; for (int j = 0; j < 3; j++) t(j) = vf::rnd("t" + n + std::to_string(j), -0.15, 0.15);
    v.R = quat_2_Rot(vf::unit_quat(t)); v.c = V3(i + vf::rnd("x" + n, -0.3, 0.3), vf::rnd("y" + n, -1, 1), vf::rnd("z" + n, -0.5, 0.5));
    s.v.push_back(v);
  }
  int ai = views == 2 ? 0 : views - 1;
  g = s.v[ai].R.transpose() * p + s.v[ai].c;
  for (auto &v : s.v) { V3 q = v.R * (g - v.c); v.uv = Eigen::Vector2d(q(0) / q(2), q(1) / q(2)); v.c += w; }
  a = s.v[ai]; finish(s);
  FeatureInitializerOptions o; o.max_runs = 30; o.max_dist = 1000; o.max_baseline = 1e6; o.min_dcost = 0; o.min_dx = 1e-9; o.max_lamda = 1e12; o.init_lamda = vf::choose("damping", 2) ? double(1) : double(1e-3);
  s.f->p_FinA = V3(p(0) + 0.2, p(1) - 0.3, p(2) * (vf::choose("start", 2) ? 0.7 : 1.5)); s.f->anchor_cam_id = (int)a.cam; s.f->anchor_clone_timestamp = a.t;
  FeatureInitializer fi(o);
  vf::check("accepted", fi.single_gaussnewton(s.f, s.c));
  vf::check_near("the point in the anchor", s.f->p_FinA, p, 1e-4); vf::check_near("the point in the world", s.f->p_FinG, V3(g + w), 1e-4);
  vf::reach("end");
}
VF_CASE(converges_two_views) { converges(2); }
VF_CASE(converges_four_views) { converges(4); }
VF_CASE(refinement_two_views) { refinement(2); }
VF_CASE_THOROUGH(refinement_three_views) { refinement(3); }
