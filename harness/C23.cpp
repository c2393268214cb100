// A new filter state holds exactly the variables that are estimated, with consistent defaults and priors
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/State.cpp ov_msckf/src/state/StateHelper.cpp
// VF-BUDGET: 60 200
// VF-BOUNDS: every combination of calibration options, both inertial models, 1..3 cameras; every initial covariance of the inertial state
// VF-OUTSIDE: more cameras
#include "state_common.h"
#include "utils/quat_ops.h"
static std::shared_ptr<State> mk(StateOptions &o) {
  int m = vf::choose("calibration", 32);
  o.do_calib_imu_intrinsics = m & 1; o.do_calib_imu_g_sensitivity = m & 2; o.do_calib_camera_timeoffset = m & 4; o.do_calib_camera_pose = m & 8; o.do_calib_camera_intrinsics = m & 16;
  o.imu_model = vf::choose("model", 2) ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  o.num_cameras = 1 + vf::choose("cameras", vf::thorough() ? 3 : 2);
  return std::make_shared<State>(o);
}
static Vars estimated(std::shared_ptr<State> s) {
  StateOptions &o = s->_options;
  Vars e{s->_imu};
  if (o.do_calib_imu_intrinsics) {
    e.push_back(s->_calib_imu_dw); e.push_back(s->_calib_imu_da);
    if (o.do_calib_imu_g_sensitivity) e.push_back(s->_calib_imu_tg);
    if (o.imu_model == StateOptions::ImuModel::KALIBR) e.push_back(s->_calib_imu_GYROtoIMU); else e.push_back(s->_calib_imu_ACCtoIMU);
  }
  if (o.do_calib_camera_timeoffset) e.push_back(s->_calib_dt_CAMtoIMU);
  for (int i = 0; i < o.num_cameras; i++) {
    if (o.do_calib_camera_pose) e.push_back(s->_calib_IMUtoCAM.at(i));
    if (o.do_calib_camera_intrinsics) e.push_back(s->_cam_intrinsics.at(i));
  }
  return e;
}
VF_CASE(contents) {
  StateOptions o;
  auto s = mk(o);
  Vars e = estimated(s), all{s->_imu, s->_calib_imu_dw, s->_calib_imu_da, s->_calib_imu_tg, s->_calib_imu_GYROtoIMU, s->_calib_imu_ACCtoIMU, s->_calib_dt_CAMtoIMU};
  vf::check("a pose and intrinsics for every camera, no more", (int)s->_calib_IMUtoCAM.size() == o.num_cameras && (int)s->_cam_intrinsics.size() == o.num_cameras);
  for (int i = 0; i < o.num_cameras; i++) { all.push_back(s->_calib_IMUtoCAM.at(i)); all.push_back(s->_cam_intrinsics.at(i)); }
  vf::check("number of estimated variables", s->_variables.size() == e.size());
  for (auto &v : all) {
    int in = std::count(s->_variables.begin(), s->_variables.end(), v), want = std::count(e.begin(), e.end(), v);
    vf::check("estimated exactly when asked", in == want);
    vf::check("a position exactly when estimated", want ? v->id() >= 0 : v->id() == -1);
  }
  vf::check("variables tile the covariance", h::layout_ok(s));
  vf::check("nothing in the window", s->_clones_IMU.empty() && s->_features_SLAM.empty());
  // what is propagated together lies together, the inertial state first
  Vars p{s->_imu}; int n = 15;
  if (o.do_calib_imu_intrinsics) { p.assign(e.begin(), e.begin() + (o.do_calib_imu_g_sensitivity ? 5 : 4)); n = 0; for (auto &v : p) n += v->size(); }
  vf::check("size of the propagated block", s->imu_intrinsic_size() + 15 == n);
  int at = 0; for (auto &v : p) { vf::check("propagated block is contiguous and first", v->id() == at); at += v->size(); }
  vf::reach("end");
}
VF_CASE(defaults) {
  StateOptions o;
  auto s = mk(o);
  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
  for (int f = 0; f < 2; f++) {
    Eigen::MatrixXd dw = f ? s->_calib_imu_dw->fej() : s->_calib_imu_dw->value(), da = f ? s->_calib_imu_da->fej() : s->_calib_imu_da->value(), tg = f ? s->_calib_imu_tg->fej() : s->_calib_imu_tg->value();
    vf::check_eq("gyroscope matrix starts at the identity", State::Dm(o.imu_model, dw), I);
    vf::check_eq("accelerometer matrix starts at the identity", State::Dm(o.imu_model, da), I);
    vf::check_eq("no gravity sensitivity", State::Tg(tg), Eigen::Matrix3d::Zero());
    vf::check_eq("no rotation between the sensors", f ? s->_calib_imu_GYROtoIMU->Rot_fej() : s->_calib_imu_GYROtoIMU->Rot(), I);
    vf::check_eq("no rotation between the sensors", f ? s->_calib_imu_ACCtoIMU->Rot_fej() : s->_calib_imu_ACCtoIMU->Rot(), I);
  }
  vf::check_eq("no time offset", s->_calib_dt_CAMtoIMU->value()(0), 0.0);
  vf::check("no time yet", vf::lt(s->_timestamp, 0.0));
  vf::reach("end");
}
VF_CASE(matrices) { // the layouts of the intrinsic matrices
  Eigen::MatrixXd d = vf::inputs("d", 6, 1, -10, 10), t = vf::inputs("t", 9, 1, -10, 10);
  Eigen::Matrix3d K, R, T;
  K << d(0), 0, 0, d(1), d(3), 0, d(2), d(4), d(5);
  R << d(0), d(1), d(3), 0, d(2), d(4), 0, 0, d(5);
  T << t(0), t(3), t(6), t(1), t(4), t(7), t(2), t(5), t(8);
  vf::check_eq("lower triangular, column by column", State::Dm(StateOptions::ImuModel::KALIBR, d), K);
  vf::check_eq("upper triangular, column by column", State::Dm(StateOptions::ImuModel::RPNG, d), R);
  vf::check_eq("full, column by column", State::Tg(t), T);
  vf::reach("end");
}
VF_CASE(priors) {
  StateOptions o;
  auto s = mk(o);
  Vars e = estimated(s);
  Eigen::MatrixXd P = StateHelper::get_full_covariance(s), D = P.diagonal().asDiagonal();
  vf::check_eq("independent priors", P, D);
  for (int i = 0; i < P.rows(); i++) vf::check("positive prior", vf::lt(0.0, P(i, i)));
  // standard deviations of the calibration priors
  auto sd = [&](std::shared_ptr<Type> v, int from, int n, double x) { for (int i = 0; i < n; i++) vf::check_eq("prior of a calibrated variable", P(v->id() + from + i, v->id() + from + i), x * x); };
  if (o.do_calib_imu_intrinsics) { sd(s->_calib_imu_dw, 0, 6, 0.005); sd(s->_calib_imu_da, 0, 6, 0.008); if (o.do_calib_imu_g_sensitivity) sd(s->_calib_imu_tg, 0, 9, 0.005);
    if (o.imu_model == StateOptions::ImuModel::KALIBR) sd(s->_calib_imu_GYROtoIMU, 0, 3, 0.005); else sd(s->_calib_imu_ACCtoIMU, 0, 3, 0.005); }
  if (o.do_calib_camera_timeoffset) sd(s->_calib_dt_CAMtoIMU, 0, 1, 0.01);
  for (int i = 0; i < o.num_cameras; i++) {
    if (o.do_calib_camera_pose) { sd(s->_calib_IMUtoCAM.at(i), 0, 3, 0.005); sd(s->_calib_IMUtoCAM.at(i), 3, 3, 0.015); }
    if (o.do_calib_camera_intrinsics) { sd(s->_cam_intrinsics.at(i), 0, 4, 1.0); sd(s->_cam_intrinsics.at(i), 4, 4, 0.005); }
  }
  // the initial covariance of the inertial state replaces its own block only
  Eigen::MatrixXd C = h::cov("C", 15, true);
  StateHelper::set_initial_covariance(s, C, {s->_imu});
  Eigen::MatrixXd E = P; E.block(0, 0, 15, 15) = C;
  vf::check_eq("initial covariance", StateHelper::get_full_covariance(s), E);
  vf::reach("end");
}
VF_CASE(initial_covariance_order) { // as the initialisers list it: orientation, position, velocity, biases in any order
  StateOptions o;
  o.do_calib_camera_timeoffset = vf::choose("time offset", 2);
  auto s = std::make_shared<State>(o);
  Eigen::MatrixXd P = StateHelper::get_full_covariance(s), C = h::cov("C", 15, true);
  Vars parts{s->_imu->q(), s->_imu->p(), s->_imu->v(), s->_imu->bg(), s->_imu->ba()}, order;
  int perm[3][5] = {{0, 1, 2, 3, 4}, {0, 3, 2, 4, 1}, {4, 2, 0, 1, 3}}, k = vf::choose("order", 3);
  for (int i = 0; i < 5; i++) order.push_back(parts[perm[k][i]]);
  StateHelper::set_initial_covariance(s, C, order);
  Eigen::MatrixXd E = P;
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) E.block(3 * perm[k][i], 3 * perm[k][j], 3, 3) = C.block(3 * i, 3 * j, 3, 3);
  vf::check_eq("initial covariance", StateHelper::get_full_covariance(s), E);
  vf::reach("end");
}
