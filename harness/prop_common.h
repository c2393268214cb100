#ifndef PROP_COMMON_H
#define PROP_COMMON_H
#include "state_common.h"
#include "state/Propagator.h"
#include "utils/NoiseManager.h"
#include "utils/sensor_data.h"
#include "utils/quat_ops.h"
namespace h {
struct Imu {
  StateOptions o;
  std::shared_ptr<State> s;
  int n;              // size of the propagated block
  double wm1[3], am1[3];
};
// a state with the given options; everything that is calibrated or estimated gets seeded values
inline std::shared_ptr<State> imu_state(StateOptions &o, bool fej_differs) {
  auto s = std::make_shared<State>(o);
  set_imu(s->_imu, "imu", fej_differs);
  Eigen::MatrixXd d = vf::rnds("dw", 6, 1, -0.1, 0.1), e = vf::rnds("da", 6, 1, -0.1, 0.1);
  int diag[3] = {0, o.imu_model == StateOptions::ImuModel::KALIBR ? 3 : 2, 5};
  for (int i = 0; i < 3; i++) { d(diag[i]) = d(diag[i]) + 1; e(diag[i]) = e(diag[i]) + 1; }
  s->_calib_imu_dw->set_value(d); s->_calib_imu_dw->set_fej(d);
  s->_calib_imu_da->set_value(e); s->_calib_imu_da->set_fej(e);
  Eigen::MatrixXd t = vf::rnds("tg", 9, 1, -0.2, 0.2);
  s->_calib_imu_tg->set_value(t); s->_calib_imu_tg->set_fej(t);
  bool kal = o.imu_model == StateOptions::ImuModel::KALIBR;
  Eigen::MatrixXd q = vf::in_quat("qx", false);
  (kal ? s->_calib_imu_GYROtoIMU : s->_calib_imu_ACCtoIMU)->set_value(q);
  (kal ? s->_calib_imu_GYROtoIMU : s->_calib_imu_ACCtoIMU)->set_fej(q);
  return s;
}
// the variables propagated together with the IMU, in state order
inline Vars imu_vars(std::shared_ptr<State> s) {
  Vars v{s->_imu};
  if (s->_options.do_calib_imu_intrinsics) {
    v.push_back(s->_calib_imu_dw); v.push_back(s->_calib_imu_da);
    if (s->_options.do_calib_imu_g_sensitivity) v.push_back(s->_calib_imu_tg);
    if (s->_options.imu_model == StateOptions::ImuModel::KALIBR) v.push_back(s->_calib_imu_GYROtoIMU); else v.push_back(s->_calib_imu_ACCtoIMU);
  }
  return v;
}
inline void boxplus(const Vars &v, const Eigen::VectorXd &e) { int k = 0; for (auto &x : v) { x->update(e.segment(k, x->size())); k += x->size(); } }
// D (KALIBR: lower, RPNG: upper triangular, column by column), written out again
inline Eigen::Matrix3d Dmat(const StateOptions &o, const Eigen::MatrixXd &d) {
  Eigen::Matrix3d D;
  if (o.imu_model == StateOptions::ImuModel::KALIBR) D << d(0), 0, 0, d(1), d(3), 0, d(2), d(4), d(5); else D << d(0), d(1), d(3), 0, d(2), d(4), 0, 0, d(5);
  return D;
}
inline Eigen::Matrix3d Tmat(const Eigen::MatrixXd &t) { Eigen::Matrix3d T; T << t(0), t(3), t(6), t(1), t(4), t(7), t(2), t(5), t(8); return T; }
// raw readings that the calibration turns into the body rate w and the body specific force a
inline ImuData raw(std::shared_ptr<State> s, double t, const Eigen::Vector3d &w, const Eigen::Vector3d &a) {
  ImuData m;
  m.timestamp = t;
  Eigen::Matrix3d Dw = Dmat(s->_options, s->_calib_imu_dw->value()), Da = Dmat(s->_options, s->_calib_imu_da->value()), Tg = Tmat(s->_calib_imu_tg->value());
  Eigen::Matrix3d Rw = quat_2_Rot(s->_calib_imu_GYROtoIMU->value()), Ra = quat_2_Rot(s->_calib_imu_ACCtoIMU->value());
  m.am = Da.inverse() * Ra.transpose() * a + s->_imu->bias_a();
  m.wm = Dw.inverse() * Rw.transpose() * w + s->_imu->bias_g() + Tg * a;
  return m;
}
inline NoiseManager noises() {
  NoiseManager n;
  n.sigma_w = vf::input("sigma_w", 1e-4, 1); n.sigma_a = vf::input("sigma_a", 1e-4, 1); n.sigma_wb = vf::input("sigma_wb", 1e-5, 1); n.sigma_ab = vf::input("sigma_ab", 1e-5, 1);
  n.sigma_w_2 = n.sigma_w * n.sigma_w; n.sigma_a_2 = n.sigma_a * n.sigma_a; n.sigma_wb_2 = n.sigma_wb * n.sigma_wb; n.sigma_ab_2 = n.sigma_ab * n.sigma_ab;
  return n;
}
// error of the IMU state with respect to a reference: rotation, position, velocity, biases
inline Eigen::VectorXd imu_error(const Eigen::MatrixXd &x, const Eigen::MatrixXd &r) {
  Eigen::Vector4d q = x.block(0, 0, 4, 1), p = r.block(0, 0, 4, 1);
  Eigen::Matrix3d E = quat_2_Rot(q) * quat_2_Rot(p).transpose(); // = I - [theta]x to first order
  Eigen::VectorXd e(15);
  e(0) = 0.5 * (E(1, 2) - E(2, 1)); e(1) = 0.5 * (E(2, 0) - E(0, 2)); e(2) = 0.5 * (E(0, 1) - E(1, 0));
  e.tail(12) = x.block(4, 0, 12, 1) - r.block(4, 0, 12, 1);
  return e;
}
} // namespace h
#endif
