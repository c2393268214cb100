// scenes and the reference solution for the visual updates
#ifndef UPDATER_COMMON_H
#define UPDATER_COMMON_H
#include "vision_common.h"
#include "feat/Feature.h"
#include "feat/FeatureInitializer.h"
#include "feat/FeatureInitializerOptions.h"
namespace h {
struct Seen { int cam; double t; double du, dv; };
// where a global point is seen in a camera, in pixels and normalised
inline void project(std::shared_ptr<State> s, const Eigen::Vector3d &pG, int cam, double t, Eigen::Vector2d &uv, Eigen::Vector2d &un) {
  Eigen::Vector3d p = to_cam(s, t, cam, pG, false);
  un = Eigen::Vector2d(p(0) / p(2), p(1) / p(2));
  uv = s->_cam_intrinsics_cameras.at(cam)->distort_d(un);
}
// a feature with perfect normalised coordinates whose pixels carry the given noise
inline std::shared_ptr<Feature> feature(std::shared_ptr<State> s, size_t id, const Eigen::Vector3d &pG, const std::vector<Seen> &seen) {
  auto f = std::make_shared<Feature>();
  f->featid = id; f->to_delete = false;
  for (auto &o : seen) {
    Eigen::Vector2d uv, un; 
    if (s->_clones_IMU.count(o.t)) project(s, pG, o.cam, o.t, uv, un); else { uv << 10, 20; un << 0.125, 0.25; }
    Eigen::VectorXf a(2), b(2); a << (float)(uv(0) + o.du), (float)(uv(1) + o.dv); b << (float)un(0), (float)un(1);
    f->uvs[o.cam].push_back(a); f->uvs_norm[o.cam].push_back(b); f->timestamps[o.cam].push_back(o.t);
  }
  return f;
}
// linear system of one feature over the whole state, at a given point
struct Lin { Eigen::MatrixXd H, Hf; Eigen::VectorXd r; };
inline Lin linear(std::shared_ptr<State> s, std::shared_ptr<Feature> f, Rep rep, const Eigen::Vector3d &pG, const Eigen::Vector3d &pG_fej, int anchor_cam, double anchor_t) {
  UpdaterHelper::UpdaterHelperFeature u;
  u.featid = f->featid; u.uvs = f->uvs; u.uvs_norm = f->uvs_norm; u.timestamps = f->timestamps;
  u.feat_representation = rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? Rep::ANCHORED_MSCKF_INVERSE_DEPTH : rep;
  if (relative(rep)) { u.anchor_cam_id = anchor_cam; u.anchor_clone_timestamp = anchor_t; u.p_FinA = to_cam(s, anchor_t, anchor_cam, pG, false); u.p_FinA_fej = to_cam(s, anchor_t, anchor_cam, pG_fej, false); }
  else { u.p_FinG = pG; u.p_FinG_fej = pG_fej; }
  // derivatives of the projection by the window poses, extrinsics and the point, where the filter is to linearise (see C18)
  Rep rp = u.feat_representation; bool fej = s->_options.do_fej;
  Eigen::Vector3d L = pG; if (fej && !relative(rp)) L = pG_fej;
  Vars o; for (auto &c : s->_clones_IMU) o.push_back(c.second);
  if (s->_options.do_calib_camera_pose) for (auto &c : s->_calib_IMUtoCAM) o.push_back(c.second);
  int nx = 0, m = 0, row = 0; for (auto &v : o) nx += v->size();
  for (auto &c : f->timestamps) m += (int)c.second.size();
  Lin l; l.H = Eigen::MatrixXd::Zero(2 * m, s->_Cov.rows()); l.Hf = Eigen::MatrixXd::Zero(2 * m, 3); l.r = Eigen::VectorXd::Zero(2 * m);
  std::vector<Eigen::MatrixXd> keep; for (auto &v : o) keep.push_back(v->value());
  for (auto const &c : f->timestamps) for (size_t k = 0; k < c.second.size(); k++) {
    int cam = (int)c.first; double t = c.second[k];
    Eigen::Vector2d z, un; project(s, pG, cam, t, z, un);
    for (int i = 0; i < 2; i++) l.r(row + i) = (double)f->uvs[c.first][k](i) - z(i);
    Eigen::MatrixXd Jn, Jz; s->_cam_intrinsics_cameras.at(cam)->compute_distort_jacobian(un, Jn, Jz);
    auto g = [&](const Eigen::VectorXd &e) {
      if (fej) for (auto &p : s->_clones_IMU) p.second->set_value(p.second->fej());
      Eigen::Vector3d a = L; if (relative(rp)) a = to_cam(s, anchor_t, anchor_cam, L, false);
      add_error(o, e.head(nx));
      a = perturb_point(rp, a, e.tail(3));
      if (relative(rp)) a = to_global(s, anchor_t, anchor_cam, a, false);
      Eigen::Vector3d b = to_cam(s, t, cam, a, false);
      Eigen::VectorXd y(2); y << b(0) / b(2), b(1) / b(2);
      for (size_t i = 0; i < o.size(); i++) o[i]->set_value(keep[i]);
      return y; };
    Eigen::MatrixXd D = Jn * vf::jacobian(g, nx + 3);
    int a = 0; for (auto &v : o) { l.H.block(row, v->id(), 2, v->size()) = D.block(0, a, 2, v->size()); a += v->size(); }
    if (s->_options.do_calib_camera_intrinsics) l.H.block(row, s->_cam_intrinsics.at(cam)->id(), 2, 8) = Jz;
    l.Hf.block(row, 0, 2, 3) = D.rightCols(3); row += 2;
  }
  return l;
}
// information form: W with the unknown Hf eliminated; its residual distance
inline Eigen::MatrixXd weight(const Lin &l, const Eigen::MatrixXd &P, double s2, bool eliminate) {
  int m = l.H.rows();
  Eigen::MatrixXd S = l.H * P * l.H.transpose() + s2 * Eigen::MatrixXd::Identity(m, m);
  Eigen::MatrixXd Si = S.inverse();
  if (!eliminate || l.Hf.cols() == 0) return Si;
  Eigen::MatrixXd G = Si * l.Hf, A = l.Hf.transpose() * G;
  return Si - G * A.inverse() * G.transpose();
}
// the additive parts of the state (everything but orientations) with their positions in the error vector
inline void additive(std::shared_ptr<State> s, std::vector<int> &at, Eigen::VectorXd &x) {
  std::vector<double> v; at.clear();
  auto add = [&](std::shared_ptr<Type> t) { for (int i = 0; i < t->size(); i++) { at.push_back(t->id() + i); v.push_back(t->value()(i)); } };
  add(s->_imu->p()); add(s->_imu->v()); add(s->_imu->bg()); add(s->_imu->ba());
  for (auto &c : s->_clones_IMU) add(c.second->p());
  for (auto &f : s->_features_SLAM) add(f.second);
  x.resize(v.size()); for (size_t i = 0; i < v.size(); i++) x(i) = v[i];
}
inline Eigen::MatrixXd small_cov(int n, const std::string &name = "P") { Eigen::MatrixXd P = cov(name, n, false); return P * 0.001; }
} // namespace h
#endif
