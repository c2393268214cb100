// Update with features that are not kept in the state: gating, elimination of the point, bookkeeping
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/update/UpdaterMSCKF.cpp ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/feat/FeatureInitializer.cpp ov_core/src/feat/Feature.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: one or two features seen in two to three clones by one or two cameras in every representation, seeded poses and covariance; every error of one pixel coordinate in +-100 pixels, gates on both sides, every noise setting of the listed ones
// VF-OUTSIDE: rounding (relative 1e-6); iterative refinement (switched off here, see C08); more features or clones
#include "updater_common.h"
#include "update/UpdaterMSCKF.h"
static UpdaterOptions opts(int k) { UpdaterOptions u; u.sigma_pix = k ? double(0.5) : double(2); u.chi2_multipler = k ? double(3) : double(1); return u; }
static FeatureInitializerOptions triangulation() { FeatureInitializerOptions o; o.refine_features = false; o.max_cond_number = 1e8; return o; }
struct Scene { StateOptions o; std::shared_ptr<State> s; h::Rep rep; };
static Scene scene(int nc, int clones, int rep) {
  Scene k;
  k.rep = h::reps[rep]; k.o.feat_rep_msckf = k.rep; k.o.do_fej = false;
  k.s = h::vision_state(k.o, nc, 0, clones, false);
  int i = 0; for (auto &c : k.s->_clones_IMU) { auto v = c.second->value(); v(4) = v(4) + i++; c.second->set_value(v); c.second->set_fej(v); }
  k.s->_Cov = h::small_cov(k.s->_Cov.rows());
  return k;
}
static std::vector<h::Seen> views(int nc, int clones) { std::vector<h::Seen> r; for (int c = 0; c < nc; c++) for (int t = 1; t <= clones; t++) r.push_back({c, (double)t, 0, 0}); return r; }
// the update expected from the accepted features, point eliminated by minimisation
static void expect(Scene &k, const std::vector<h::Lin> &ls, double s2, const Eigen::MatrixXd &P, const Eigen::VectorXd &x0) {
  int m = 0, nf = 0; for (auto &l : ls) { m += l.H.rows(); nf += 3; }
  h::Lin a; a.H = Eigen::MatrixXd::Zero(m, P.rows()); a.Hf = Eigen::MatrixXd::Zero(m, nf); a.r = Eigen::VectorXd::Zero(m);
  int i = 0, j = 0; for (auto &l : ls) { a.H.block(i, 0, l.H.rows(), P.rows()) = l.H; a.Hf.block(i, j, l.H.rows(), 3) = l.Hf; a.r.segment(i, l.H.rows()) = l.r; i += l.H.rows(); j += 3; }
  Eigen::MatrixXd W = h::weight(a, P, s2, true), PH = P * a.H.transpose();
  vf::check_near("covariance after the update", k.s->_Cov, Eigen::MatrixXd(P - PH * W * PH.transpose()), 1e-7);
  Eigen::VectorXd dx = PH * (W * a.r), x; std::vector<int> at;
  h::additive(k.s, at, x);
  Eigen::VectorXd d(at.size()); for (size_t q = 0; q < at.size(); q++) d(q) = dx(at[q]);
  vf::check_near("estimate after the update", Eigen::VectorXd(x - x0), d, 1e-5);
}
static void one(int nc, int clones, int rep) {
  vf::set_rounded_constants(true);
  Scene k = scene(nc, clones, rep);
  int mode = vf::choose("noise, gate and pixel", 2);
  auto u = opts(mode); auto fo = triangulation();
  auto vs = views(nc, clones);
  int which = (vf::thorough() ? vf::choose("whose pixel is off", 2) : mode) ? (int)vs.size() - 1 : 0;
  double n = vf::input("error", -100, 100);
  if (which) vs[which].dv = n; else vs[which].du = n;
  Eigen::Vector3d p(0.3, -0.2, 4);
  auto f = h::feature(k.s, 12, p, vs);
  UpdaterMSCKF up(u, fo);
  Eigen::MatrixXd P = k.s->_Cov; Eigen::VectorXd x0, all0 = h::values(k.s->_variables); std::vector<int> at; h::additive(k.s, at, x0);
  h::Lin l = h::linear(k.s, f, h::reps[0], p, p, 0, 1); // with the point eliminated the representation makes no difference
  double s2 = u.sigma_pix * u.sigma_pix, gate = u.chi2_multipler * vf::chi2_quantile((int)l.r.rows() - 3, 0.95);
  double chi2 = l.r.dot(h::weight(l, P, s2, true) * l.r);
  std::vector<std::shared_ptr<Feature>> fs{f};
  up.update(k.s, fs);
  vf::check("used or not, its observations are spent", f->to_delete);
  if (fs.size() == 1) {
    vf::check("accepted only within the gate", vf::le(chi2, gate * 1.00001 + 1e-4));
    expect(k, {l}, s2, P, x0);
  } else {
    vf::check("rejected only beyond the gate", vf::le(gate * 0.99999 - 1e-4, chi2));
    vf::check_eq("a rejected feature changes no covariance", k.s->_Cov, P);
    vf::check_eq("a rejected feature changes no estimate", h::values(k.s->_variables), all0);
  }
  vf::check("no landmark is added", k.s->_features_SLAM.empty() && h::layout_ok(k.s));
  vf::reach("end");
}
VF_CASE(one_camera) { one(1, 3, vf::choose("representation", vf::thorough() ? 6 : 2) ); }
VF_CASE(one_camera_anchored) { one(1, 3, 2 + vf::choose("representation", 4)); }
VF_CASE(two_cameras) { one(2, 2, vf::choose("anchored", 2) ? 4 : 0); }
// a mixture: good, outlier, seen once, seen at no clone, not triangulable
VF_CASE(mixture) {
  vf::set_rounded_constants(true);
  Scene k = scene(1, 3, vf::choose("anchored", 2) ? 4 : 0);
  auto u = opts(0); auto fo = triangulation();
  double n = vf::input("error", -1, 1);
  Eigen::Vector3d p(0.3, -0.2, 4), q(-0.4, 0.1, 5), far(0.1, 0.2, 200);
  auto vs = views(1, 3), bad = vs, extra = vs; vs[1].dv = n; bad[2].du = 90;
  extra.push_back({0, 9.5, 5, 5}); // one more observation at no clone: ignored
  auto good = h::feature(k.s, 12, p, vs), outlier = h::feature(k.s, 13, p, bad), once = h::feature(k.s, 14, p, {{0, 2, 0, 0}}), never = h::feature(k.s, 15, p, {{0, 9.5, 0, 0}, {0, 9.75, 0, 0}}), distant = h::feature(k.s, 16, far, views(1, 3)), more = h::feature(k.s, 17, q, extra);
  std::vector<std::shared_ptr<Feature>> all;
  bool with_good = vf::choose("any good one", 2);
  if (vf::choose("order", 2)) all = {outlier, good, once, more, never, distant}; else all = {distant, never, once, good, outlier, more};
  if (!with_good) { std::vector<std::shared_ptr<Feature>> r; for (auto &f : all) if (f != good && f != more) r.push_back(f); all = r; }
  UpdaterMSCKF up(u, fo);
  Eigen::MatrixXd P = k.s->_Cov; Eigen::VectorXd x0, all0 = h::values(k.s->_variables); std::vector<int> at; h::additive(k.s, at, x0);
  h::Lin l = h::linear(k.s, good, h::reps[0], p, p, 0, 1), m = h::linear(k.s, h::feature(k.s, 17, q, views(1, 3)), h::reps[0], q, q, 0, 1);
  auto fs = all;
  up.update(k.s, fs);
  for (auto &f : all) vf::check("every feature is spent", f->to_delete);
  vf::check("what is left is what was used", fs.size() == (with_good ? 2u : 0u));
  for (auto &f : fs) vf::check("only good ones are used", f == good || f == more);
  if (with_good) expect(k, {l, m}, u.sigma_pix * u.sigma_pix, P, x0);
  else { vf::check_eq("nothing usable: covariance", k.s->_Cov, P); vf::check_eq("nothing usable: estimates", h::values(k.s->_variables), all0); }
  vf::reach("end");
}
VF_CASE(nothing) { Scene k = scene(1, 2, 0); auto u = opts(0); auto fo = triangulation(); UpdaterMSCKF up(u, fo); Eigen::MatrixXd P = k.s->_Cov; std::vector<std::shared_ptr<Feature>> fs; up.update(k.s, fs); vf::check_eq("no features, no change", k.s->_Cov, P); vf::reach("end"); }
