// states with cameras and features for the vision harnesses
#ifndef VISION_COMMON_H
#define VISION_COMMON_H
#include "state_common.h"
#include "update/UpdaterHelper.h"
#include "utils/quat_ops.h"
namespace h {
typedef LandmarkRepresentation::Representation Rep;
static const Rep reps[6] = {Rep::GLOBAL_3D, Rep::GLOBAL_FULL_INVERSE_DEPTH, Rep::ANCHORED_3D, Rep::ANCHORED_FULL_INVERSE_DEPTH, Rep::ANCHORED_MSCKF_INVERSE_DEPTH, Rep::ANCHORED_INVERSE_DEPTH_SINGLE};
inline bool relative(Rep r) { return r != Rep::GLOBAL_3D && r != Rep::GLOBAL_FULL_INVERSE_DEPTH; }
// a pose near the identity (so that points a few metres ahead are seen), value and first estimate differing slightly when asked
inline void near_pose(std::shared_ptr<PoseJPL> p, const std::string &n, double rot, double pos, bool fej_differs) {
  Eigen::Matrix<double, 7, 1> v;
  for (int k = 0; k < 2; k++) {
    std::string m = n + (k ? "f" : "");
    if (k == 0 || fej_differs) {
      Eigen::Vector3d t, x;
      for (int i = 0; i < 3; i++) { t(i) = vf::rnd(m + ".t" + std::to_string(i), -rot, rot); x(i) = vf::rnd(m + ".p" + std::to_string(i), -pos, pos); }
      v << vf::unit_quat(t), x;
    }
    if (k) p->set_fej(v); else p->set_value(v);
  }
}
inline Eigen::MatrixXd camera_params(const std::string &n) {
  Eigen::MatrixXd v(8, 1);
  for (int i = 0; i < 8; i++) v(i) = i < 2 ? vf::rnd(n + std::to_string(i), 300, 600) : i < 4 ? vf::rnd(n + std::to_string(i), 200, 400) : vf::rnd(n + std::to_string(i), -0.03, 0.03);
  return v;
}
// IMU, nc cameras (fisheye: bit mask), clones at times 1, 2, ...
inline std::shared_ptr<State> vision_state(StateOptions &o, int nc, int fisheye, int clones, bool fej_differs) {
  o.num_cameras = nc;
  auto s = std::make_shared<State>(o);
  set_imu(s->_imu, "imu", fej_differs);
  for (int c = 0; c < nc; c++) {
    near_pose(s->_calib_IMUtoCAM[c], "e" + std::to_string(c), 0.1, 0.2, false);
    Eigen::MatrixXd k = camera_params("k" + std::to_string(c));
    s->_cam_intrinsics[c]->set_value(k); s->_cam_intrinsics[c]->set_fej(k);
    if (fisheye >> c & 1) s->_cam_intrinsics_cameras[c] = std::make_shared<CamEqui>(640, 480); else s->_cam_intrinsics_cameras[c] = std::make_shared<CamRadtan>(640, 480);
    s->_cam_intrinsics_cameras[c]->set_value(k);
  }
  for (int i = 0; i < clones; i++) {
    auto p = std::make_shared<PoseJPL>();
    near_pose(p, "c" + std::to_string(i), 0.1, 0.5, fej_differs);
    append(s, p);
    s->_clones_IMU[i + 1.0] = p;
  }
  s->_timestamp = clones;
  return s;
}
// camera to global
inline void cam_pose(std::shared_ptr<State> s, double t, int c, Eigen::Matrix3d &R, Eigen::Vector3d &p, bool fej) {
  auto k = s->_clones_IMU.at(t); auto e = s->_calib_IMUtoCAM.at(c);
  Eigen::Matrix3d Rg = fej ? k->Rot_fej() : k->Rot();
  R = Rg.transpose() * e->Rot().transpose();
  p = (fej ? k->pos_fej() : k->pos()) - R * e->pos();
}
inline Eigen::Vector3d to_global(std::shared_ptr<State> s, double t, int c, const Eigen::Vector3d &x, bool fej) { Eigen::Matrix3d R; Eigen::Vector3d p; cam_pose(s, t, c, R, p, fej); return R * x + p; }
inline Eigen::Vector3d to_cam(std::shared_ptr<State> s, double t, int c, const Eigen::Vector3d &x, bool fej) { Eigen::Matrix3d R; Eigen::Vector3d p; cam_pose(s, t, c, R, p, fej); return R.transpose() * (x - p); }
// error state added to a list of variables
inline void add_error(const Vars &v, const Eigen::VectorXd &e) { int k = 0; for (auto &x : v) { x->update(e.segment(k, x->size())); k += x->size(); } }
// point from a feature parametrisation, and the parametrisation's error applied
inline Eigen::Vector3d perturb_point(Rep r, const Eigen::Vector3d &x, const Eigen::VectorXd &d) {
  double rho = 1 / x(2);
  if (r == Rep::GLOBAL_3D || r == Rep::ANCHORED_3D) return x + d;
  if (r == Rep::GLOBAL_FULL_INVERSE_DEPTH || r == Rep::ANCHORED_FULL_INVERSE_DEPTH) {
    double n = x.norm(), th = atan2(x(1), x(0)) + d(0), ph = acos(x(2) / n) + d(1), rh = 1 / n + d(2);
    return Eigen::Vector3d(cos(th) * sin(ph), sin(th) * sin(ph), cos(ph)) / rh;
  }
  if (r == Rep::ANCHORED_MSCKF_INVERSE_DEPTH) return Eigen::Vector3d(x(0) * rho + d(0), x(1) * rho + d(1), 1) / (rho + d(2));
  return Eigen::Vector3d(x * rho) / (rho + d(0));
}
} // namespace h
#endif
