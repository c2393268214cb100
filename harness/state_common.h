// building filter states for the harnesses
#ifndef STATE_COMMON_H
#define STATE_COMMON_H
#include "vf.h"
#include "state/State.h"
#include "state/StateHelper.h"
#include "state/StateOptions.h"
#include "types/IMU.h"
#include "types/JPLQuat.h"
#include "types/Landmark.h"
#include "types/PoseJPL.h"
#include "types/Vec.h"
#include "cam/CamRadtan.h"
#include "cam/CamEqui.h"
using namespace ov_core;
using namespace ov_type;
using namespace ov_msckf;
typedef std::vector<std::shared_ptr<Type>> Vars;
namespace h {
// a symmetric matrix; every entry an input when symbolic, otherwise a seeded rational, diagonally dominant one
inline Eigen::MatrixXd cov(const std::string &n, int d, bool symbolic) {
  Eigen::MatrixXd P(d, d);
  for (int j = 0; j < d; j++) for (int i = 0; i <= j; i++) {
    std::string nm = n + "[" + std::to_string(i) + "," + std::to_string(j) + "]";
    double v = symbolic ? vf::input(nm, -100, 100) : (i == j ? vf::rnd(nm, 1, 2) : vf::rnd(nm, -0.3, 0.3) / d);
    P(i, j) = v; P(j, i) = v;
  }
  return P;
}
inline void set_pose(std::shared_ptr<PoseJPL> p, const std::string &n, bool fej_differs = true) {
  Eigen::Matrix<double, 7, 1> v;
  v << vf::in_quat(n + ".q", false), vf::in_vec3(n + ".p", false);
  p->set_value(v); 
  if (fej_differs) v << vf::in_quat(n + ".qf", false), vf::in_vec3(n + ".pf", false);
  p->set_fej(v);
}
inline void set_imu(std::shared_ptr<IMU> p, const std::string &n, bool fej_differs = true) {
  Eigen::Matrix<double, 16, 1> v;
  v << vf::in_quat(n + ".q", false), vf::rnds(n + ".x", 12);
  p->set_value(v);
  if (fej_differs) v << vf::in_quat(n + ".qf", false), vf::rnds(n + ".xf", 12);
  p->set_fej(v);
}
inline void append(std::shared_ptr<State> s, std::shared_ptr<Type> v) {
  int n = (int)s->_Cov.rows(), m = v->size();
  v->set_local_id(n);
  s->_variables.push_back(v);
  Eigen::MatrixXd P = Eigen::MatrixXd::Identity(n + m, n + m);
  P.block(0, 0, n, n) = s->_Cov;
  s->_Cov = P;
}
inline std::shared_ptr<PoseJPL> add_clone(std::shared_ptr<State> s, double t, const std::string &n) {
  auto p = std::make_shared<PoseJPL>();
  set_pose(p, n);
  append(s, p);
  s->_clones_IMU[t] = p;
  return p;
}
inline std::shared_ptr<Landmark> add_landmark(std::shared_ptr<State> s, size_t id, LandmarkRepresentation::Representation rep = LandmarkRepresentation::Representation::GLOBAL_3D) {
  auto f = std::make_shared<Landmark>(rep == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3);
  f->_featid = id; f->_feat_representation = rep; f->_unique_camera_id = 0;
  append(s, f);
  s->_features_SLAM[id] = f;
  return f;
}
// what each variable represents, flattened: used to see that a call left it alone
inline Eigen::VectorXd values(const Vars &vs) {
  int n = 0; for (auto &v : vs) n += (int)v->value().rows() * 2;
  Eigen::VectorXd r(n); int k = 0;
  for (auto &v : vs) { r.segment(k, v->value().rows()) = v->value(); k += v->value().rows(); r.segment(k, v->fej().rows()) = v->fej(); k += v->fej().rows(); }
  return r;
}
// a state of plain vector variables with the given sizes, nothing else
inline std::shared_ptr<State> plain_state(const std::vector<int> &sizes, Vars &vars) {
  StateOptions o;
  auto s = std::make_shared<State>(o);
  s->_variables.clear();
  s->_Cov = Eigen::MatrixXd::Zero(0, 0);
  int k = 0;
  for (int z : sizes) {
    auto v = std::make_shared<Vec>(z);
    v->set_value(vf::rnds("x" + std::to_string(k), z));
    v->set_fej(vf::rnds("xf" + std::to_string(k), z));
    k++;
    append(s, v);
    vars.push_back(v);
  }
  return s;
}
// rows x k matrix whose Givens elimination stays rational: rotations with Pythagorean cosines applied to an upper triangle
inline Eigen::MatrixXd nice_tall(int rows, const Eigen::MatrixXd &U) {
  static const double cs[4][2] = {{3. / 5, 4. / 5}, {5. / 13, 12. / 13}, {-4. / 5, 3. / 5}, {8. / 17, -15. / 17}};
  int k = U.cols();
  Eigen::MatrixXd L = Eigen::MatrixXd::Zero(rows, k);
  L.topRows(k) = U;
  int t = 0;
  for (int n = k - 1; n >= 0; n--) for (int m = n + 1; m < rows; m++) {
    double c = cs[t % 4][0], s = cs[t % 4][1]; t++;
    Eigen::MatrixXd a = L.row(m - 1), b = L.row(m);
    L.row(m - 1) = c * a - s * b;
    L.row(m) = s * a + c * b;
  }
  return L;
}
inline bool layout_ok(std::shared_ptr<State> s) {
  int at = 0;
  for (auto &v : s->_variables) { if (v->id() != at) return false; at += v->size(); }
  return s->_Cov.rows() == at && s->_Cov.cols() == at && s->max_covariance_size() == at;
}
} // namespace h
#endif
