// Structural operations on the joint distribution: marginalise, clone, marginal/full/initial covariance, time-offset aware clone
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: every symmetric covariance; plain layouts up to 8 dof and the real state layout with calibration, up to 4 clones and 4 landmarks; every variable as the target
// VF-OUTSIDE: larger windows
#include "state_common.h"
static const std::vector<int> SZ{2, 1, 3, 1};
VF_CASE(marginalize) {
  Vars v; auto s = h::plain_state(SZ, v);
  Eigen::MatrixXd P = h::cov("P", 7, true);
  s->_Cov = P;
  int k = vf::choose("which", 4);
  Vars rest; for (int i = 0; i < 4; i++) if (i != k) rest.push_back(v[i]);
  std::vector<int> keep; for (auto &x : rest) for (int j = 0; j < x->size(); j++) keep.push_back(x->id() + j);
  Eigen::VectorXd val = h::values(rest);
  Eigen::MatrixXd E((int)keep.size(), (int)keep.size());
  for (size_t a = 0; a < keep.size(); a++) for (size_t b = 0; b < keep.size(); b++) E(a, b) = P(keep[a], keep[b]);
  StateHelper::marginalize(s, v[k]);
  vf::check_eq("remaining covariance is the marginal", s->_Cov, E);
  vf::check("remaining variables in order", s->_variables == rest);
  vf::check("identifiers tile the covariance", h::layout_ok(s));
  vf::check("removed variable is out of the covariance", v[k]->id() == -1);
  vf::check_eq("estimates untouched", h::values(rest), val);
  vf::reach("end");
}
VF_CASE(clone_any) {
  Vars v; auto s = h::plain_state(SZ, v);
  Eigen::MatrixXd P = h::cov("P", 7, true);
  s->_Cov = P;
  int k = vf::choose("which", 4), z = v[k]->size(), id = v[k]->id();
  Eigen::MatrixXd T = Eigen::MatrixXd::Zero(7 + z, 7);
  T.topRows(7).setIdentity(); T.block(7, id, z, z).setIdentity();
  Eigen::VectorXd val = h::values(v);
  auto c = StateHelper::clone(s, v[k]);
  vf::check_eq("joint covariance of the state with a copy", s->_Cov, T * P * T.transpose());
  vf::check("copy is a new variable at the end", c != v[k] && s->_variables.back() == c && c->id() == 7 && c->size() == z && s->_variables.size() == 5);
  vf::check("identifiers tile the covariance", h::layout_ok(s));
  vf::check_eq("copy has the value", c->value(), v[k]->value());
  vf::check_eq("copy has the linearisation point", c->fej(), v[k]->fej());
  vf::check_eq("estimates untouched", h::values(v), val);
  vf::reach("end");
}
VF_CASE(clone_subvariable) {
  StateOptions op; op.do_calib_camera_pose = true;
  auto s = std::make_shared<State>(op);
  h::set_imu(s->_imu, "imu");
  int n = s->_Cov.rows();
  Eigen::MatrixXd P = h::cov("P", n, true);
  s->_Cov = P;
  Vars sub{s->_imu->pose(), s->_imu->q(), s->_imu->p(), s->_imu->v(), s->_imu->bg(), s->_imu->ba(), s->_calib_IMUtoCAM[0], s->_imu};
  auto x = sub[vf::choose("which", 8)];
  int z = x->size(), id = x->id();
  Eigen::MatrixXd T = Eigen::MatrixXd::Zero(n + z, n);
  T.topRows(n).setIdentity(); T.block(n, id, z, z).setIdentity();
  auto c = StateHelper::clone(s, x);
  vf::check_eq("joint covariance of the state with a copy", s->_Cov, T * P * T.transpose());
  vf::check_eq("copy has the value", c->value(), x->value());
  vf::check_eq("copy has the linearisation point", c->fej(), x->fej());
  vf::check("identifiers tile the covariance", h::layout_ok(s) && c->id() == n);
  vf::reach("end");
}
VF_CASE(marginal_covariance) {
  StateOptions op; op.do_calib_camera_pose = true;
  auto s = std::make_shared<State>(op);
  auto c = h::add_clone(s, 1, "c"); auto f = h::add_landmark(s, 9);
  int n = s->_Cov.rows();
  Eigen::MatrixXd P = h::cov("P", n, true);
  s->_Cov = P;
  std::vector<Vars> q{{s->_imu}, {c, s->_imu}, {f, c}, {s->_imu->pose(), f}, {s->_imu->v(), s->_imu->q(), c->p()}, {s->_calib_IMUtoCAM[0], f, c, s->_imu}, {}};
  Vars &o = q[vf::choose("query", (int)q.size())];
  std::vector<int> keep; for (auto &x : o) for (int j = 0; j < x->size(); j++) keep.push_back(x->id() + j);
  Eigen::MatrixXd E((int)keep.size(), (int)keep.size());
  for (size_t a = 0; a < keep.size(); a++) for (size_t b = 0; b < keep.size(); b++) E(a, b) = P(keep[a], keep[b]);
  vf::check_eq("marginal of the listed variables in the listed order", StateHelper::get_marginal_covariance(s, o), E);
  vf::check_eq("full covariance", StateHelper::get_full_covariance(s), P);
  vf::check_eq("queries do not change the state", s->_Cov, P);
  vf::reach("end");
}
VF_CASE(initial_covariance) {
  StateOptions op; op.do_calib_camera_pose = true; op.do_calib_camera_timeoffset = true;
  auto s = std::make_shared<State>(op);
  int n = s->_Cov.rows();
  Eigen::MatrixXd P = h::cov("P", n, true);
  s->_Cov = P;
  std::vector<Vars> q{{s->_imu}, {s->_imu, s->_calib_dt_CAMtoIMU}, {s->_calib_IMUtoCAM[0], s->_imu->p()}, {s->_imu->q(), s->_imu->p(), s->_imu->v(), s->_imu->bg(), s->_imu->ba()}};
  Vars &o = q[vf::choose("query", (int)q.size())];
  std::vector<int> keep; for (auto &x : o) for (int j = 0; j < x->size(); j++) keep.push_back(x->id() + j);
  Eigen::MatrixXd N = h::cov("N", (int)keep.size(), true), E = P;
  for (size_t a = 0; a < keep.size(); a++) for (size_t b = 0; b < keep.size(); b++) E(keep[a], keep[b]) = N(a, b);
  StateHelper::set_initial_covariance(s, N, o);
  vf::check_eq("given blocks inserted, the rest kept", s->_Cov, E);
  vf::reach("end");
}
VF_CASE(augment_clone) {
  StateOptions op; op.do_calib_camera_timeoffset = vf::choose("dt", 2); op.do_calib_camera_pose = true;
  auto s = std::make_shared<State>(op);
  h::set_imu(s->_imu, "imu");
  Eigen::Matrix<double, 16, 1> x = s->_imu->value(); x.segment(7, 3) = vf::in_vec3("vel", true); s->_imu->set_value(x);
  auto old = h::add_clone(s, 1.0, "c");
  s->_timestamp = 2.0;
  int n = s->_Cov.rows();
  Eigen::MatrixXd P = h::cov("P", n, true);
  s->_Cov = P;
  Eigen::Vector3d w = vf::in_vec3("w", true);
  Eigen::MatrixXd T = Eigen::MatrixXd::Zero(n + 6, n);
  T.topRows(n).setIdentity(); T.block(n, s->_imu->pose()->id(), 6, 6).setIdentity();
  if (op.do_calib_camera_timeoffset) { int d = s->_calib_dt_CAMtoIMU->id(); T.block(n, d, 3, 1) += w; T.block(n + 3, d, 3, 1) += s->_imu->vel(); }
  StateHelper::augment_clone(s, w);
  vf::check_eq("clone is a function of pose and time offset", s->_Cov, T * P * T.transpose());
  vf::check("clone stored under the current time", s->_clones_IMU.size() == 2 && s->_clones_IMU.count(2.0) && s->_clones_IMU.at(1.0) == old && s->_variables.back() == s->_clones_IMU.at(2.0));
  vf::check_eq("clone value", s->_clones_IMU.at(2.0)->value(), s->_imu->pose()->value());
  vf::check_eq("clone linearisation point", s->_clones_IMU.at(2.0)->fej(), s->_imu->pose()->fej());
  vf::check("identifiers tile the covariance", h::layout_ok(s));
  vf::reach("end");
}
VF_CASE(old_clone_window) {
  StateOptions op; op.max_clone_size = 1 + vf::choose("window", 4);
  auto s = std::make_shared<State>(op);
  std::vector<double> t{0.5, 1.0, 1.5};
  // inserted in any time order
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int k = vf::choose("order", 6);
  for (int i = 0; i < 3; i++) h::add_clone(s, t[perm[k][i]], "c" + std::to_string(i));
  auto f = h::add_landmark(s, 3);
  Eigen::MatrixXd P = h::cov("P", s->_Cov.rows(), true);
  s->_Cov = P;
  auto oldest = s->_clones_IMU.at(0.5);
  vf::check_eq("oldest time", s->margtimestep(), 0.5);
  Vars all = s->_variables;
  StateHelper::marginalize_old_clone(s);
  bool dropped = op.max_clone_size < 3;
  vf::check("only the oldest clone leaves, and only beyond the window", s->_clones_IMU.size() == (dropped ? 2u : 3u) && (s->_clones_IMU.count(0.5) == 0) == dropped && s->_clones_IMU.count(1.0) && s->_clones_IMU.count(1.5));
  vf::check("variables", s->_variables.size() == all.size() - (dropped ? 1 : 0) && (std::find(s->_variables.begin(), s->_variables.end(), oldest) == s->_variables.end()) == dropped);
  vf::check("identifiers tile the covariance", h::layout_ok(s));
  vf::check("landmark kept", s->_features_SLAM.size() == 1);
  vf::reach("end");
}
VF_CASE(marginalize_flagged_landmarks) {
  StateOptions op; op.max_aruco_features = 2;
  auto s = std::make_shared<State>(op);
  size_t ids[4] = {3, 9, 12, 40}; // one tag corner, three ordinary features
  std::map<size_t, bool> flag;
  std::map<size_t, std::shared_ptr<Landmark>> lm;
  for (int i = 0; i < 4; i++) { lm[ids[i]] = h::add_landmark(s, ids[i]); flag[ids[i]] = vf::choose("flag" + std::to_string(i), 2); lm[ids[i]]->should_marg = flag[ids[i]]; }
  auto c = h::add_clone(s, 1.0, "c");
  int n = s->_Cov.rows();
  Eigen::MatrixXd P = h::cov("P", n, true);
  s->_Cov = P;
  std::vector<int> keep;
  for (auto &v : s->_variables) { bool drop = false; for (auto &x : lm) if (x.second == v && flag[x.first] && x.first > 8) drop = true; if (!drop) for (int j = 0; j < v->size(); j++) keep.push_back(v->id() + j); }
  Eigen::MatrixXd E((int)keep.size(), (int)keep.size());
  for (size_t a = 0; a < keep.size(); a++) for (size_t b = 0; b < keep.size(); b++) E(a, b) = P(keep[a], keep[b]);
  StateHelper::marginalize_slam(s);
  for (int i = 0; i < 4; i++) vf::check("flagged features leave, others and tags stay", (s->_features_SLAM.count(ids[i]) == 0) == (flag[ids[i]] && i > 0));
  vf::check_eq("covariance of the rest", s->_Cov, E);
  vf::check("identifiers tile the covariance", h::layout_ok(s));
  vf::reach("end");
}
