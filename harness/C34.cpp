// Landmarks of the state: adding them from their observations, updating with them, tags against plain points
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/update/UpdaterSLAM.cpp ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/feat/FeatureInitializer.cpp ov_core/src/feat/Feature.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: one to three landmarks in every representation seen in one to three clones by one or two cameras, seeded poses and covariance, plain and tag numbers on both sides of the limit; every error of one pixel coordinate in +-100 pixels
// VF-OUTSIDE: rounding (relative 1e-6); iterative refinement (see C08); more landmarks or clones; moving a landmark to another anchor (see C21)
#include "updater_common.h"
#include "update/UpdaterSLAM.h"
static UpdaterOptions opts(bool tag) { UpdaterOptions u; u.sigma_pix = tag ? double(0.5) : double(2); u.chi2_multipler = tag ? double(3) : double(1); return u; }
static FeatureInitializerOptions triangulation() { FeatureInitializerOptions o; o.refine_features = false; o.max_cond_number = 1e8; return o; }
struct Scene { StateOptions o; std::shared_ptr<State> s; };
static const int MAXT = 5; // tag numbers reach 4 * MAXT
static Scene scene(int nc, int clones, h::Rep slam, h::Rep tag) {
  Scene k;
  k.o.feat_rep_slam = slam; k.o.feat_rep_aruco = tag; k.o.do_fej = false; k.o.max_aruco_features = MAXT;
  k.s = h::vision_state(k.o, nc, 0, clones, false);
  int i = 0; for (auto &c : k.s->_clones_IMU) { auto v = c.second->value(); v(4) = v(4) + i++; c.second->set_value(v); c.second->set_fej(v); }
  return k;
}
static std::vector<h::Seen> views(int nc, int clones) { std::vector<h::Seen> r; for (int c = 0; c < nc; c++) for (int t = 1; t <= clones; t++) r.push_back({c, (double)t, 0, 0}); return r; }
static std::shared_ptr<Landmark> landmark(Scene &k, size_t id, h::Rep rep, const Eigen::Vector3d &pG, double anchor_t) {
  auto f = h::add_landmark(k.s, id, rep);
  f->_anchor_cam_id = 0; f->_anchor_clone_timestamp = anchor_t;
  Eigen::Vector3d x = pG; if (h::relative(rep)) x = h::to_cam(k.s, anchor_t, 0, pG, false);
  f->set_from_xyz(x, false); f->set_from_xyz(x, true);
  return f;
}
// system of one landmark update: the landmark's columns at its place, the bearing of a depth-only one eliminated
static h::Lin system(Scene &k, std::shared_ptr<Feature> f, std::shared_ptr<Landmark> lm, const Eigen::Vector3d &pG) {
  h::Lin l = h::linear(k.s, f, lm->_feat_representation, pG, pG, 0, lm->_anchor_clone_timestamp);
  Eigen::MatrixXd Hf = l.Hf;
  l.H.block(0, lm->id(), l.H.rows(), lm->size()) += Hf.rightCols(lm->size());
  if (lm->size() == 1) l.Hf = Hf.leftCols(2); else l.Hf.resize(Hf.rows(), 0);
  return l;
}
static void expect(Scene &k, const std::vector<h::Lin> &ls, const std::vector<double> &s2, const Eigen::MatrixXd &P, const Eigen::VectorXd &x0) {
  int m = 0, nf = 0; for (auto &l : ls) { m += l.H.rows(); nf += l.Hf.cols(); }
  h::Lin a; a.H = Eigen::MatrixXd::Zero(m, P.rows()); a.Hf = Eigen::MatrixXd::Zero(m, nf); a.r = Eigen::VectorXd::Zero(m);
  int i = 0, j = 0;
  for (size_t q = 0; q < ls.size(); q++) { auto &l = ls[q]; double w = 1 / sqrt(s2[q]); a.H.block(i, 0, l.H.rows(), P.rows()) = l.H * w; if (l.Hf.cols()) a.Hf.block(i, j, l.H.rows(), l.Hf.cols()) = l.Hf * w; a.r.segment(i, l.H.rows()) = l.r * w; i += l.H.rows(); j += l.Hf.cols(); }
  Eigen::MatrixXd W = h::weight(a, P, 1, true), PH = P * a.H.transpose();
  vf::check_near("covariance after the update", k.s->_Cov, Eigen::MatrixXd(P - PH * W * PH.transpose()), 1e-7);
  Eigen::VectorXd dx = PH * (W * a.r), x; std::vector<int> at;
  h::additive(k.s, at, x);
  Eigen::VectorXd d(at.size()); for (size_t q = 0; q < at.size(); q++) d(q) = dx(at[q]);
  vf::check_near("estimate after the update", Eigen::VectorXd(x - x0), d, 1e-5);
}
static void update_one(h::Rep rep, size_t id, int nviews, double n) {
  bool tag = id <= 4 * MAXT;
  Scene k = scene(1, 3, tag ? h::reps[0] : rep, tag ? rep : h::reps[0]);
  Eigen::Vector3d p(0.3, -0.2, 4);
  auto other = landmark(k, 90, h::reps[0], Eigen::Vector3d(1, 1, 6), 1);
  auto lm = landmark(k, id, rep, p, 2);
  k.s->_Cov = h::small_cov(k.s->_Cov.rows());
  std::vector<h::Seen> vs; for (int i = 0; i < nviews; i++) vs.push_back({0, nviews == 1 ? double(3) : double(1.0 + i), 0, 0});
  vs.push_back({0, 7.5, 3, 4}); // and once at no clone
  vs[0].dv = n;
  auto f = h::feature(k.s, id, p, vs);
  UpdaterOptions us = opts(false), ut = opts(true); auto fo = triangulation();
  UpdaterSLAM up(us, ut, fo);
  UpdaterOptions u = opts(tag);
  Eigen::MatrixXd P = k.s->_Cov; Eigen::VectorXd x0, all0 = h::values(k.s->_variables); std::vector<int> at; h::additive(k.s, at, x0);
  vs.pop_back(); auto clean = h::feature(k.s, id, p, vs);
  h::Lin l = system(k, clean, lm, p);
  double s2 = u.sigma_pix * u.sigma_pix, gate = u.chi2_multipler * vf::chi2_quantile((int)(l.r.rows() - l.Hf.cols()), 0.95);
  double chi2 = l.r.dot(h::weight(l, P, s2, true) * l.r);
  std::vector<std::shared_ptr<Feature>> fs{f};
  lm->update_fail_count = 2; other->update_fail_count = 5;
  up.update(k.s, fs);
  vf::check("its observations are spent", f->to_delete);
  if (fs.size() == 1) {
    vf::check("accepted only within the gate", vf::le(chi2, gate * 1.00001 + 1e-4));
    vf::check("an accepted landmark counts no failure", lm->update_fail_count == 2);
    expect(k, {l}, {s2}, P, x0);
  } else {
    vf::check("rejected only beyond the gate", vf::le(gate * 0.99999 - 1e-4, chi2));
    vf::check("a rejected point counts one failure, a rejected tag none", lm->update_fail_count == (tag ? 2 : 3));
    vf::check_eq("a rejected landmark changes no covariance", k.s->_Cov, P);
    vf::check_eq("a rejected landmark changes no estimate", h::values(k.s->_variables), all0);
  }
  vf::check("no other landmark counts a failure", other->update_fail_count == 5);
  vf::check("landmarks stay", k.s->_features_SLAM.size() == 2 && k.s->_features_SLAM.at(id) == lm && h::layout_ok(k.s));
  vf::reach("end");
}
static const size_t ids[4] = {3, 17, 20, 21}; // a tag corner, another corner, the last tag number, the first point
VF_CASE(update_points) { vf::set_rounded_constants(true); int r = vf::choose("representation", 5); update_one(h::reps[r], vf::thorough() && vf::choose("tag", 2) ? 17 : 21, r % 2 ? 1 : 2, vf::input("error", -100, 100)); }
VF_CASE(update_numbers) { vf::set_rounded_constants(true); update_one(h::reps[0], ids[vf::choose("number", 4)], 2, vf::input("error", -100, 100)); }
VF_CASE(update_depth_only) { vf::set_rounded_constants(true); update_one(h::reps[5], vf::choose("tag", 2) ? 17 : 21, 3, vf::input("error", -100, 100)); }
// several landmarks at once: accepted ones together, rejected ones left out, ones with too few observations set aside
VF_CASE(update_several) {
  vf::set_rounded_constants(true);
  Scene k = scene(1, 3, h::reps[0], h::reps[0]);
  Eigen::Vector3d p(0.3, -0.2, 4), q(-0.5, 0.4, 5), w(0.1, 0.6, 3);
  auto a = landmark(k, 30, h::reps[0], p, 2), b = landmark(k, 4, h::reps[4], q, 1), c = landmark(k, 31, h::reps[5], w, 3), d = landmark(k, 32, h::reps[0], w, 3), e = landmark(k, 33, h::reps[2], w, 3);
  k.s->_Cov = h::small_cov(k.s->_Cov.rows());
  double n = vf::input("error", -0.25, 0.25);
  std::vector<h::Seen> va = {{0, 1, n, 0}}, vb = {{0, 2, 0, 0.25}, {0, 3, -0.125, n}}, vc = {{0, 2, 0, 0}}, vd = {{0, 1, 80, 0}, {0, 2, 0, 0}}, ve = {{0, 11.5, 0, 0}};
  auto fa = h::feature(k.s, 30, p, va), fb = h::feature(k.s, 4, q, vb), fc = h::feature(k.s, 31, w, vc), fd = h::feature(k.s, 32, w, vd), fe = h::feature(k.s, 33, w, ve);
  std::vector<std::shared_ptr<Feature>> fs; if (vf::choose("order", 2)) fs = {fd, fe, fb, fc, fa}; else fs = {fa, fc, fb, fe, fd};
  UpdaterOptions us = opts(false), ut = opts(true); auto fo = triangulation();
  UpdaterSLAM up(us, ut, fo);
  Eigen::MatrixXd P = k.s->_Cov; Eigen::VectorXd x0; std::vector<int> at; h::additive(k.s, at, x0);
  h::Lin la = system(k, fa, a, p), lb = system(k, fb, b, q);
  up.update(k.s, fs);
  vf::check("used ones remain", fs.size() == 2 && std::count(fs.begin(), fs.end(), fa) == 1 && std::count(fs.begin(), fs.end(), fb) == 1);
  vf::check("used, rejected and empty ones are spent", fa->to_delete && fb->to_delete && fd->to_delete && fe->to_delete);
  vf::check("a depth-only one keeps its single observation for later", !fc->to_delete);
  vf::check("failures", a->update_fail_count == 0 && b->update_fail_count == 0 && c->update_fail_count == 0 && d->update_fail_count == 1 && e->update_fail_count == 0);
  expect(k, {la, lb}, {4, 0.25}, P, x0);
  vf::reach("end");
}
// a landmark enters the state
static void enter(h::Rep rep, size_t id, int nc, double n) {
  bool tag = id <= 4 * MAXT;
  Scene k = scene(nc, 3, tag ? h::reps[1] : rep, tag ? rep : h::reps[1]);
  Eigen::Vector3d p(0.3, -0.2, 4);
  landmark(k, 90, h::reps[0], Eigen::Vector3d(1, 1, 6), 1);
  k.s->_Cov = h::small_cov(k.s->_Cov.rows());
  int N = k.s->_Cov.rows();
  auto vs = views(nc, 3); if (nc == 2) vs.pop_back();
  vs[0].dv = n;
  auto f = h::feature(k.s, id, p, vs); f->uvs[0].push_back(f->uvs[0][0]); f->uvs_norm[0].push_back(f->uvs_norm[0][0]); f->timestamps[0].push_back(7.5);
  UpdaterOptions us = opts(false), ut = opts(true); auto fo = triangulation();
  UpdaterSLAM up(us, ut, fo);
  UpdaterOptions u = opts(tag);
  Eigen::MatrixXd P = k.s->_Cov; Eigen::VectorXd x0, all0 = h::values(k.s->_variables); std::vector<int> at; h::additive(k.s, at, x0);
  auto clean = h::feature(k.s, id, p, vs);
  h::Lin l = h::linear(k.s, clean, rep, p, p, 0, 3); // anchored in the last clone of camera 0, which sees it most
  double s2 = u.sigma_pix * u.sigma_pix;
  std::vector<std::shared_ptr<Feature>> fs{f};
  up.delayed_init(k.s, fs);
  vf::check("its observations are spent", f->to_delete);
  if (fs.empty()) {
    vf::check("a rejected one is not added", k.s->_features_SLAM.size() == 1 && h::layout_ok(k.s));
    vf::check_eq("a rejected one changes no covariance", k.s->_Cov, P);
    vf::check_eq("a rejected one changes no estimate", h::values(k.s->_variables), all0);
    double d = n; vf::check("perfect observations are accepted", d < -0.5 || d > 0.5);
    vf::reach("rejected");
    return;
  }
  vf::check("added under its number", k.s->_features_SLAM.size() == 2 && k.s->_features_SLAM.count(id) == 1 && h::layout_ok(k.s));
  auto lm = k.s->_features_SLAM.at(id);
  vf::check("number and representation", lm->_featid == id && lm->_feat_representation == rep && lm->size() == (rep == h::reps[5] ? 1 : 3) && lm->id() == N);
  if (h::relative(rep)) vf::check("anchor", lm->_anchor_cam_id == 0 && lm->_anchor_clone_timestamp == 3.0 && lm->_unique_camera_id == 0);
  // jointly most likely state and landmark, the bearing of a depth-only landmark eliminated
  int z = lm->size();
  h::Lin a; a.H = l.H; a.r = l.r; if (z == 1) a.Hf = l.Hf.leftCols(2); else a.Hf.resize(l.Hf.rows(), 0);
  Eigen::MatrixXd W = h::weight(a, P, s2, true), Hl = l.Hf.rightCols(z);
  Eigen::MatrixXd A = Hl.transpose() * W * Hl, Cf = A.inverse(), B = Hl.transpose() * W;
  Eigen::MatrixXd K = P * l.H.transpose(), Wx = W - B.transpose() * Cf * B;
  Eigen::MatrixXd want(N + z, N + z);
  want.topLeftCorner(N, N) = P - K * Wx * K.transpose();
  want.bottomRightCorner(z, z) = Cf;
  want.topRightCorner(N, z) = -K * B.transpose() * Cf;
  want.bottomLeftCorner(z, N) = -Cf * B * K.transpose();
  vf::check_near("joint covariance", k.s->_Cov, want, 1e-5);
  Eigen::VectorXd dx = K * (Wx * l.r), df = Cf * (B * l.r), x;
  auto keep = k.s->_features_SLAM; k.s->_features_SLAM.erase(id);
  std::vector<int> at2; h::additive(k.s, at2, x); k.s->_features_SLAM = keep;
  Eigen::VectorXd d(at.size()); for (size_t q = 0; q < at.size(); q++) d(q) = dx(at[q]);
  vf::check_near("estimate of the rest", Eigen::VectorXd(x - x0), d, 1e-5);
  Landmark fresh(z); fresh._feat_representation = rep;
  Eigen::Vector3d start = p; if (h::relative(rep)) start = Eigen::Vector3d(f->p_FinA); else start = Eigen::Vector3d(f->p_FinG);
  fresh.set_from_xyz(start, false);
  vf::check_near("estimate of the landmark", Eigen::VectorXd(lm->value() - fresh.value()), df, 1e-5);
  vf::reach("added");
}
VF_CASE(enter_global) { vf::set_rounded_constants(true); enter(h::reps[0], ids[vf::choose("number", 4)], 1, vf::input("error", -60, 60)); }
VF_CASE(enter_anchored) { vf::set_rounded_constants(true); static const int r[4] = {2, 4, 3, 1}; enter(h::reps[r[vf::choose("representation", vf::thorough() ? 4 : 2)]], 25, 2, vf::input("error", -60, 60)); }
VF_CASE(enter_depth_only) { vf::set_rounded_constants(true); enter(h::reps[5], vf::choose("tag", 2) ? 9 : 25, 1, vf::input("error", -60, 60)); }
