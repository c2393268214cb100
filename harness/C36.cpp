// Life of the filter: calibration it starts with, starting from a known or estimated motion, images queued meanwhile, readings kept, standing still
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/core/VioManager.cpp ov_msckf/src/core/VioManagerHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp ov_core/src/track/TrackBase.cpp ov_core/src/track/TrackSIM.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: every calibration value and starting state; up to five images queued during initialisation at any times; up to four readings at any times with every time offset up to a twentieth of a second and windows of none to two poses; one or two images at rest
// VF-OUTSIDE: the concurrent schedule of a detached initialisation thread (the queue is exercised by images arriving while it runs, one after another); the initialisers' arithmetic (C25, C26)
#include "manager_common.h"
static void put(Eigen::MatrixXd &v, const std::string &n) { for (int i = 0; i < v.rows(); i++) v(i, 0) = vf::input(n + std::to_string(i), -2, 2); }
VF_CASE(calibration) {
  int cams = 1 + vf::choose("two cameras", 2);
  auto p = h::options(cams);
  Eigen::MatrixXd dw(6, 1), da(6, 1), tg(9, 1); put(dw, "dw"); put(da, "da"); put(tg, "tg");
  p.vec_dw = dw; p.vec_da = da; p.vec_tg = tg; p.q_ACCtoIMU = vf::in_quat("qa", false); p.q_GYROtoIMU = vf::in_quat("qg", false);
  p.calib_camimu_dt = vf::input("offset", -1, 1); p.init_options.init_max_features = 75; p.try_zupt = vf::choose("standing still", 2);
  p.imu_noises.sigma_w = vf::input("sigma_w", 0.001, 1);
  for (int i = 0; i < cams; i++) { Eigen::VectorXd e = p.camera_extrinsics[i]; for (int j = 4; j < 7; j++) e(j) = vf::input("e" + std::to_string(i) + std::to_string(j), -2, 2); p.camera_extrinsics[i] = e; }
  VioManager m(p);
  auto s = m.get_state();
  for (int fej = 0; fej < 2; fej++) {
    auto v = [&](std::shared_ptr<Type> t) { Eigen::MatrixXd r; if (fej) r = t->fej(); else r = t->value(); return r; };
    vf::check_eq("gyroscope scale", v(s->_calib_imu_dw), dw); vf::check_eq("accelerometer scale", v(s->_calib_imu_da), da); vf::check_eq("gravity sensitivity", v(s->_calib_imu_tg), tg);
    vf::check_eq("gyroscope frame", v(s->_calib_imu_GYROtoIMU), p.q_GYROtoIMU); vf::check_eq("accelerometer frame", v(s->_calib_imu_ACCtoIMU), p.q_ACCtoIMU);
    vf::check_eq("time offset", v(s->_calib_dt_CAMtoIMU)(0), p.calib_camimu_dt);
    for (int i = 0; i < cams; i++) { vf::check_eq("extrinsics", v(s->_calib_IMUtoCAM.at(i)), p.camera_extrinsics.at(i)); vf::check_eq("intrinsics", v(s->_cam_intrinsics.at(i)), p.camera_intrinsics.at(i)->get_value()); }
  }
  for (int i = 0; i < cams; i++) { vf::check("one camera object", s->_cam_intrinsics_cameras.at(i) == p.camera_intrinsics.at(i)); vf::check("tracker and state share the camera", m.trackFEATS->camera_calib.at(i) == s->_cam_intrinsics_cameras.at(i)); }
  vf::check("features while initialising", m.trackFEATS->get_num_features() == 75 / cams);
  vf::check("all parts are there", m.updaterMSCKF != nullptr && m.updaterSLAM != nullptr && m.propagator != nullptr && m.initializer != nullptr && m.trackFEATS != nullptr);
  vf::check("not started", !m.initialized() && !m.is_initialized_vio && (m.updaterZUPT != nullptr) == p.try_zupt);
  vf::check("initialiser looks at the tracker's observations", m.initializer->_db == m.trackFEATS->get_feature_database());
  if (p.try_zupt) vf::check("rest detection shares them and the propagator", m.updaterZUPT->_db == m.trackFEATS->get_feature_database() && m.updaterZUPT->_prop == m.propagator);
  vf::check_eq("noise reaches the propagator", m.propagator->_noises.sigma_w, p.imu_noises.sigma_w);
  vf::reach("end");
}
// a fresh state holds the inertial state and exactly what is to be calibrated, each part once with its prior and uncorrelated
VF_CASE(fresh_state) {
  int cams = 1 + vf::choose("two cameras", 2); auto p = h::options(cams); auto &o = p.state_options;
  bool imu = vf::choose("inertial calibration", 2), g = vf::choose("gravity sensitivity", 2), kalibr = vf::choose("model", 2), dt = vf::choose("time offset", 2), ext = vf::choose("extrinsics", 2), in = vf::choose("intrinsics", 2);
  o.do_calib_imu_intrinsics = imu; o.do_calib_imu_g_sensitivity = g; o.imu_model = kalibr ? StateOptions::ImuModel::KALIBR : StateOptions::ImuModel::RPNG; o.do_calib_camera_timeoffset = dt; o.do_calib_camera_pose = ext; o.do_calib_camera_intrinsics = in;
  p.calib_camimu_dt = vf::input("offset", -1, 1);
  VioManager m(p); auto s = m.get_state();
  std::vector<std::pair<std::shared_ptr<Type>, std::vector<std::pair<int, double>>>> want; // variable, sizes and standard deviations
  want.push_back({s->_imu, {{15, 0.001}}});
  if (imu) { want.push_back({s->_calib_imu_dw, {{6, 0.005}}}); want.push_back({s->_calib_imu_da, {{6, 0.008}}}); if (g) want.push_back({s->_calib_imu_tg, {{9, 0.005}}}); std::shared_ptr<Type> r = s->_calib_imu_ACCtoIMU; if (kalibr) r = s->_calib_imu_GYROtoIMU; want.push_back({r, {{3, 0.005}}}); }
  if (dt) want.push_back({s->_calib_dt_CAMtoIMU, {{1, 0.01}}});
  for (int i = 0; i < cams; i++) { if (ext) want.push_back({s->_calib_IMUtoCAM.at(i), {{3, 0.005}, {3, 0.015}}}); if (in) want.push_back({s->_cam_intrinsics.at(i), {{4, 1.0}, {4, 0.005}}}); }
  vf::check("holds what is calibrated and nothing else", s->_variables.size() == want.size());
  Eigen::MatrixXd P = Eigen::MatrixXd::Zero(s->_Cov.rows(), s->_Cov.cols()); int n = 0; std::vector<int> used(s->_Cov.rows(), 0);
  for (auto &w : want) {
    vf::check("in the state", std::find(s->_variables.begin(), s->_variables.end(), w.first) != s->_variables.end());
    int k = w.first->id(), size = 0; for (auto &q : w.second) size += q.first; n += size;
    bool fits = k >= 0 && k + size <= (int)used.size(); vf::check("inside the covariance", fits); if (!fits) return;
    for (auto &q : w.second) for (int j = 0; j < q.first; j++) { vf::check("its own place", !used[k]); used[k] = 1; P(k, k) = q.second * q.second; k++; }
  }
  vf::check("covariance of that size", s->_Cov.rows() == n && s->_Cov.cols() == n);
  vf::check_near("prior uncertainty, uncorrelated", s->_Cov, P, 1e-15);
  if (imu) { int a = s->_calib_imu_dw->id(), b = s->_calib_imu_da->id(); vf::check("inertial calibration beside the inertial state", a == 15 && b == 21); }
  vf::reach("end");
}
VF_CASE(known_start) {
  auto p = h::options(2); p.state_options.do_calib_camera_pose = true; p.state_options.do_calib_camera_timeoffset = true;
  VioManager m(p);
  auto s = m.get_state();
  auto sim = std::make_shared<TrackSIM>(s->_cam_intrinsics_cameras, 4); m.trackFEATS = sim;
  double t = vf::input("time", 1, 100), seen = vf::input("seen", 1, 100);
  auto f = h::track(sim->get_feature_database(), 100, {{0, seen}});
  int n = (int)s->_Cov.rows();
  s->_Cov = h::cov("P", n, true);
  Eigen::MatrixXd P = s->_Cov;
  Eigen::MatrixXd x(17, 1); x(0) = t;
  x.block(1, 0, 4, 1) = vf::in_quat("q", false); for (int i = 5; i < 17; i++) x(i) = vf::input("x" + std::to_string(i), -10, 10);
  Eigen::Matrix<double, 17, 1> xs = x;
  m.initialize_with_gt(xs);
  Eigen::MatrixXd v = x.block(1, 0, 16, 1);
  vf::check_eq("state", s->_imu->value(), v); vf::check_eq("first estimate", s->_imu->fej(), v);
  vf::check_eq("state time", s->_timestamp, t); vf::check_eq("start time", m.initialized_time(), t); vf::check("started", m.is_initialized_vio);
  Eigen::MatrixXd W = P;
  int i0 = s->_imu->id();
  static const double sd[5] = {0.017, 0.05, 0.01, 0.02, 0.02};
  for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) { double d = 0; if (i == j) d = sd[i / 3] * sd[i / 3]; W(i0 + i, i0 + j) = d; }
  for (int i = 0; i < 15; i++) vf::check("positive prior", vf::lt(0.0, s->_Cov(i0 + i, i0 + i)));
  Eigen::MatrixXd B = s->_Cov.block(i0, i0, 15, 15), BT = B.transpose();
  vf::check_eq("symmetric prior", B, BT);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i < i0 || i >= i0 + 15) && (j < i0 || j >= i0 + 15)) vf::check_eq("calibration prior kept", s->_Cov(i, j), P(i, j));
  vf::check("older observations dropped", (sim->get_feature_database()->get_feature(100) == nullptr) == (seen <= t));
  vf::check("no images yet", !m.initialized());
  vf::reach("end");
}
// images that arrive while the start is computed are caught up afterwards
VF_CASE(estimated_start) {
  auto p = h::options(1); p.try_zupt = vf::choose("rest detection", 2); p.state_options.max_clone_size = 2 + vf::choose("window", 2); p.num_pts = 150; p.zupt_max_velocity = vf::choose("slow limit", 2) ? 2 : 0.5;
  VioManager m(p);
  auto s = m.get_state();
  auto sim = std::make_shared<TrackSIM>(s->_cam_intrinsics_cameras, 4); m.trackFEATS = sim;
  int queued = vf::choose("images meanwhile", 6);
  h::calls.init_ok = vf::choose("succeeds", 2) == 0;
  h::calls.init_time = vf::input("start", 1, 12);
  Eigen::VectorXd x(16); x << vf::in_quat("q", false), vf::rnds("p", 3), Eigen::Vector3d(0.8, 0, 0.6), vf::rnds("b", 6);
  h::calls.init_value = x; h::calls.init_cov = h::cov("P0", 15, false);
  double seen = vf::input("seen", 1, 12);
  auto f = h::track(sim->get_feature_database(), 100, {{0, seen}});
  std::vector<double> t;
  for (int i = 0; i < queued; i++) t.push_back(2 * i + 2);
  std::vector<bool> nested;
  h::calls.during_init = [&]() { for (double x : t) nested.push_back(m.try_to_initialize(h::image(x, {0}))); };
  Eigen::MatrixXd P = s->_Cov;
  bool now = m.try_to_initialize(h::image(1.5, {0}));
  vf::check("this image does not start the filter yet", !now);
  for (bool b : nested) vf::check("nor do the ones meanwhile", !b);
  vf::check("one attempt", (int)std::count(h::calls.order.begin(), h::calls.order.end(), std::string("initialize")) == 1);
  vf::check("waits for motion only without rest detection", h::calls.wait_for_jerk == !p.try_zupt);
  if (h::calls.init_ok) {
    std::vector<double> later; for (double x : t) if (x > h::calls.init_time) later.push_back(x);
    auto &g = h::calls.propagated;
    vf::check("caught up through images after the start", g.size() <= later.size() && (g.empty() == later.empty()) && (int)g.size() <= p.state_options.max_clone_size);
    if ((int)later.size() < p.state_options.max_clone_size) vf::check("through each when there are few", g.size() == later.size());
    size_t k = 0; for (double x : g) { while (k < later.size() && later[k] < x) k++; vf::check("in order, at image times", k < later.size() && later[k] == x); k++; }
    if (g.empty()) vf::check_eq("state time", s->_timestamp, h::calls.init_time); else { vf::check_eq("state time", s->_timestamp, g.back()); vf::check_eq("starting at the first", g[0], later[0]); }
    vf::check_eq("start time", m.initialized_time(), h::calls.init_time);
    Eigen::MatrixXd C = s->_Cov.block(s->_imu->id(), s->_imu->id(), 15, 15);
    vf::check_eq("covariance", C, h::calls.init_cov); vf::check_eq("state", s->_imu->value(), x);
    vf::check("window within its size", (int)s->_clones_IMU.size() == (int)g.size() && h::layout_ok(s));
    vf::check("features while running", sim->get_num_features() == 150);
    vf::check("older observations dropped", (sim->get_feature_database()->get_feature(100) == nullptr) == (seen <= h::calls.init_time));
    vf::check("moving when fast", m.has_moved_since_zupt == (p.zupt_max_velocity < 1));
    vf::check("queue empty", m.camera_queue_init.empty());
    vf::check("the next image starts", m.try_to_initialize(h::image(20, {0})));
  } else {
    vf::check("failed: nothing changed", h::calls.propagated.empty() && s->_clones_IMU.empty() && m.camera_queue_init.empty() && !m.thread_init_running && !m.thread_init_success);
    vf::check_eq("failed: covariance", s->_Cov, P); vf::check("failed: observations kept", sim->get_feature_database()->get_feature(100) == f);
    h::calls.during_init = nullptr; 
    vf::check("the next image tries again", !m.try_to_initialize(h::image(20, {0})) && (int)std::count(h::calls.order.begin(), h::calls.order.end(), std::string("initialize")) == 2);
  }
  vf::reach("end");
}
static bool holds(const std::vector<ImuData> &v, int tag) { for (auto &m : v) if (m.wm(2) == double(tag)) return true; return false; }
// readings are kept as long as a later interval can need them, and no longer than the window
VF_CASE(readings) {
  auto p = h::options(1); p.try_zupt = true; p.zupt_only_at_beginning = vf::choose("rest only at the start", 2); p.init_options.init_window_time = 2;
  p.calib_camimu_dt = vf::input("offset", -0.05, 0.05);
  VioManager m(p);
  auto s = m.get_state();
  int clones = vf::choose("poses", 3); m.is_initialized_vio = vf::choose("started", 2) == 0; m.has_moved_since_zupt = vf::choose("moved", 2);
  double oldest = vf::input("oldest pose", 5, 10), newest = vf::input("newest pose", 5, 10);
  if (clones == 1) vf::assume(vf::eq(oldest, newest)); else vf::assume(vf::lt(oldest, newest));
  if (clones > 0) { s->_timestamp = oldest; StateHelper::augment_clone(s, Eigen::Vector3d(0, 0, 0)); }
  if (clones > 1) { s->_timestamp = newest; StateHelper::augment_clone(s, Eigen::Vector3d(0, 0, 0)); }
  if (clones == 0) s->_timestamp = newest;
  std::vector<double> t;
  for (int i = 0; i < 3; i++) { t.push_back(vf::input("t" + std::to_string(i), 1, 12)); if (i) vf::assume(vf::lt(t[i - 1], t[i])); ImuData d; d.timestamp = t[i]; d.wm = Eigen::Vector3d(1, 2, i); d.am = Eigen::Vector3d(4, 5, i); m.feed_measurement_imu(d); }
  auto kept = m.propagator->imu_data;
  double must, may; // needed from here on; not kept before
  if (!m.is_initialized_vio) { must = t[2] - 2 + p.calib_camimu_dt - 0.05; may = must - 1; }
  else if (clones == 0) { must = 0; may = 0; }
  else { must = oldest - 0.09; may = must - 1; }
  for (int i = 0; i < 3; i++) { bool k = holds(kept, i); if (t[i] >= must) vf::check("needed reading kept", k); if (t[i] < may) vf::check("stale reading dropped", !k); }
  for (size_t i = 1; i < kept.size(); i++) vf::check("in order", kept[i - 1].timestamp <= kept[i].timestamp);
  for (auto &d : kept) for (int i = 0; i < 3; i++) if (d.wm(2) == double(i)) { vf::check_eq("unchanged", d.am, Eigen::Vector3d(4, 5, i)); vf::check_eq("unchanged", d.timestamp, t[i]); }
  vf::check("the initialiser gets them until started", (int)h::calls.init_imu.size() == (m.is_initialized_vio ? 0 : 3));
  if (!m.is_initialized_vio) for (int i = 0; i < 3; i++) vf::check("and is told what it may drop", vf::le(h::calls.init_oldest[i], t[i] - 2 + p.calib_camimu_dt - 0.05));
  bool rest = m.is_initialized_vio && (!p.zupt_only_at_beginning || !m.has_moved_since_zupt);
  if (!rest) vf::check("rest detection is not fed", m.updaterZUPT->imu_data.empty());
  else for (int i = 0; i < 3; i++) { bool k = holds(m.updaterZUPT->imu_data, i); if (t[i] >= must) vf::check("needed reading kept for rest detection", k); if (t[i] < may) vf::check("stale reading dropped by rest detection", !k); }
  vf::reach("end");
}
// at rest the update replaces moving the window
VF_CASE(at_rest) {
  auto p = h::options(2); p.try_zupt = vf::choose("rest detection", 2) == 0; p.zupt_only_at_beginning = vf::choose("only at the start", 2); p.calib_camimu_dt = vf::input("offset", -0.05, 0.05);
  VioManager m(p);
  auto s = m.get_state();
  bool moved = vf::choose("moved", 2);
  m.is_initialized_vio = true; m.has_moved_since_zupt = moved; m.startup_time = 0; s->_timestamp = 5;
  for (int i = 0; i < 4; i++) { ImuData d; d.timestamp = 5 + 0.25 * i; d.wm = Eigen::Vector3d::Zero(); d.am = d.wm; m.propagator->imu_data.push_back(d); if (m.updaterZUPT) m.updaterZUPT->imu_data.push_back(d); }
  double r = vf::input("reading", 4, 6); ImuData d; d.timestamp = r; d.wm = Eigen::Vector3d(0, 0, 7); d.am = d.wm; m.propagator->imu_data.insert(m.propagator->imu_data.begin(), d);
  m.propagator->cache_imu_valid = true;
  h::calls.zupt_ok = vf::choose("standing", 2) == 0;
  bool images = vf::choose("image or simulated", 2);
  auto db0 = m.trackFEATS->get_feature_database();
  auto feed = [&](double t, int cam) {
    if (images) { m.feed_measurement_camera(h::image(t, {cam})); return; }
    Eigen::VectorXf uv(2); uv << 100, 120;
    m.feed_measurement_simulation(t, {cam}, {{{7, uv}}});
  };
  feed(6, 0);
  bool tried = p.try_zupt && (!p.zupt_only_at_beginning || !moved);
  bool rest = tried && h::calls.zupt_ok;
  vf::check("rest is tried only when allowed", (int)h::calls.zupt.size() == (tried ? 1 : 0));
  if (tried) vf::check_eq("for this image", h::calls.zupt[0], 6.0);
  vf::check("at rest the window does not move", h::calls.propagated.empty() == rest && (int)s->_clones_IMU.size() == (rest ? 0 : 1));
  vf::check_eq("state at the image", s->_timestamp, 6.0);
  if (rest) {
    vf::check("cached prediction dropped", !m.propagator->cache_imu_valid);
    double need = 6 + p.calib_camimu_dt;
    bool kept = holds(m.propagator->imu_data, 7);
    if (r >= need - 0.09) vf::check("needed reading kept", kept);
    if (r < need - 1) vf::check("stale reading dropped", !kept);
  }
  // the other camera at the same time: the same decision, not a second update
  h::calls.zupt_ok = false;
  feed(6, 1);
  vf::check("decided once per time", (int)h::calls.zupt.size() == (tried && !rest ? 1 : tried ? 1 : 0));
  vf::check("still at rest", h::calls.propagated.empty() == rest);
  if (images) { vf::check("every image reaches the tracker", (int)h::calls.fed.size() == 2 && h::calls.fed[1].sensor_ids == std::vector<int>{1}); vf::check_eq("at its time", h::calls.fed[0].timestamp, 6.0); }
  else vf::check("one tracker for everyone", m.initializer->_db == m.trackFEATS->get_feature_database() && (!p.try_zupt || m.updaterZUPT->_db == m.trackFEATS->get_feature_database()) && m.trackFEATS->get_feature_database() != db0);
  vf::reach("end");
}
// simulated measurements are recorded as they are, under ids that cannot collide with tags
VF_CASE(simulated) {
  auto p = h::options(2); p.state_options.max_aruco_features = 3; p.state_options.max_clone_size = 8;
  VioManager m(p);
  m.is_initialized_vio = true; m.startup_time = 0; auto s = m.get_state(); s->_timestamp = 5;
  std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> z(2);
  for (int c = 0; c < 2; c++) for (int k = 0; k < 2; k++) { Eigen::VectorXf uv(2); uv << (float)vf::input("u" + std::to_string(c) + std::to_string(k), 0, 640), (float)vf::input("v" + std::to_string(c) + std::to_string(k), 0, 480); z[c].push_back({(size_t)(c + k), uv}); }
  m.feed_measurement_simulation(6, {0, 1}, z);
  auto db = m.trackFEATS->get_feature_database();
  vf::check("three points", (int)db->get_internal_data().size() == 3);
  auto ids = m.trackFEATS->get_last_ids(); auto obs = m.trackFEATS->get_last_obs();
  for (int c = 0; c < 2; c++) { vf::check("two observations per camera", (int)ids[c].size() == 2 && (int)obs[c].size() == 2);
    for (int k = 0; k < 2; k++) {
      size_t id = ids[c][k];
      vf::check("not a tag", (int)id > 4 * 3);
      vf::check("the same point has the same id", (id == ids[0][0]) == (c + k == 0) && (id == ids[1][1]) == (c + k == 2));
      auto f = db->get_feature(id);
      vf::check("recorded", f != nullptr && (int)f->uvs[c].size() == 1);
      double u = z[c][k].second(0), v = z[c][k].second(1);
      vf::check_eq("pixel", (double)f->uvs[c][0](0), u); vf::check_eq("pixel", (double)f->uvs[c][0](1), v); vf::check_eq("time", f->timestamps[c][0], 6.0);
      vf::check_near("normalised", (double)f->uvs_norm[c][0](0), (u - 320) / (400 + 16 * c), 1e-5); vf::check_near("normalised", (double)f->uvs_norm[c][0](1), (v - 240) / 384, 1e-5);
      vf::check_eq("shown where seen", (double)obs[c][k].pt.x, u);
    } }
  vf::reach("end");
}
