// Which initialiser runs: enough tracks, how far they moved in each half of the window, what is forgotten before
// VF-PKG: ov_msckf
// VF-SOURCES: ov_init/src/init/InertialInitializer.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: fourteen to sixteen tracks on one or two cameras, moving any number of pixels in each half of the window; one observation and one reading at any time; every threshold and time offset up to a fifth of a second
// VF-OUTSIDE: the two initialisers' own work (C25; the nonlinear one is not claimed); waiting for a jerk while the disparity test is switched off (the comment there promises more than the code does)
#include "init/InertialInitializer.h"
#include "dynamic/DynamicInitializer.h"
#include "static/StaticInitializer.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "types/IMU.h"
#include "types/Landmark.h"
#include "types/PoseJPL.h"
#include "vf.h"
using namespace ov_core; using namespace ov_type; using namespace ov_init;
namespace h { int stat = 0, dyn = 0; bool jerk = false, ok = false; double stamp = 0; std::vector<ImuData> seen; }
bool StaticInitializer::initialize(double &t, Eigen::MatrixXd &c, std::vector<std::shared_ptr<Type>> &o, std::shared_ptr<IMU> i, bool j) { h::stat++; h::jerk = j; h::seen = *imu_data; t = 42; o.push_back(i); return h::ok; }
bool DynamicInitializer::initialize(double &t, Eigen::MatrixXd &c, std::vector<std::shared_ptr<Type>> &o, std::shared_ptr<IMU> &i, std::map<double, std::shared_ptr<PoseJPL>> &, std::unordered_map<size_t, std::shared_ptr<Landmark>> &) { h::dyn++; h::seen = *imu_data; t = 43; o.push_back(i); return h::ok; }
static InertialInitializerOptions opts() { InertialInitializerOptions o; o.init_window_time = 2; o.init_max_disparity = 5; o.init_imu_thresh = 1; o.init_dyn_use = true; o.calib_camimu_dt = 0; return o; }
static void see(std::shared_ptr<FeatureDatabase> db, size_t id, double t, int cam, double u, double v) { db->update_feature(id, t, cam, (float)u, (float)v, (float)((u - 320) / 400), (float)((v - 240) / 400)); }
static void track(std::shared_ptr<FeatureDatabase> db, size_t id, int cam, double a, double b, bool older = true, bool newer = true) {
  double u = 300 + 10.0 * (double)(id % 7), v = 200;
  if (older) { see(db, id, 8.25, cam, u, v); see(db, id, 8.5, cam, u + 1000, v); see(db, id, 8.75, cam, u + a, v); }
  if (newer) { see(db, id, 9.25, cam, u, v); see(db, id, 9.5, cam, u - 1000, v); see(db, id, 9.75, cam, u, v + b); }
  see(db, id, 10, cam, u + 3000, v);
}
static bool run(InertialInitializer &m, bool jerk) { double t = -7; Eigen::MatrixXd c; std::vector<std::shared_ptr<Type>> o; auto i = std::make_shared<IMU>(); h::stat = h::dyn = 0; bool r = m.initialize(t, c, o, i, jerk); h::stamp = t; return r; }
// the choice between the two ways to start, and what they are told
VF_CASE(choice) {
  auto o = opts(); o.init_dyn_use = vf::choose("dynamic", 2) == 0; o.init_imu_thresh = vf::choose("static", 2) == 0 ? 1 : 0; bool jerk = vf::choose("wait for a jerk", 2); h::ok = vf::choose("works", 2) == 0;
  o.init_max_disparity = vf::input("threshold", 1, 20);
  double a = vf::input("older motion", 0, 40), b = vf::input("newer motion", 0, 40);
  auto db = std::make_shared<FeatureDatabase>(); for (size_t i = 0; i < 15; i++) track(db, i, 0, a, b);
  InertialInitializer m(o, db);
  bool r = run(m, jerk);
  bool m0 = a > o.init_max_disparity, m1 = b > o.init_max_disparity;
  bool st = o.init_imu_thresh > 0 && (jerk ? (!m0 && m1) : (!m0 && !m1)), dy = !st && o.init_dyn_use && (m0 || m1);
  vf::check("starts from rest exactly when it was at rest, then moved if asked", h::stat == (st ? 1 : 0));
  vf::check("starts in motion exactly when it moved", h::dyn == (dy ? 1 : 0));
  if (st) vf::check("told what to wait for", h::jerk == jerk);
  vf::check("succeeds exactly when it does", r == ((st || dy) && h::ok));
  if (st || dy) vf::check_eq("its time", h::stamp, st ? 42.0 : 43.0);
  vf::reach("end");
}
// the motion is the average over tracks seen twice in that half, of every camera, and there must be enough of them
VF_CASE(enough) {
  auto o = opts(); int n = 14 + vf::choose("older tracks", 2), k = 14 + vf::choose("newer tracks", 2); bool two = vf::choose("two cameras", 2), apart = vf::choose("different points", 2);
  double a = vf::input("one older motion", 0, 400), b = vf::input("one newer motion", 0, 400); h::ok = true;
  auto db = std::make_shared<FeatureDatabase>();
  auto id = [&](int i) { return (size_t)(two && i % 2 && !apart ? i - 1 : i); };
  for (int i = 0; i < n; i++) track(db, id(i), two ? i % 2 : 0, i == 1 ? a : double(2), 0, true, false);
  for (int i = 0; i < k; i++) track(db, id(i) + 100, two ? i % 2 : 0, 0, i == 2 ? b : double(3), false, true);
  InertialInitializer m(o, db);
  bool jerk = false, r = run(m, jerk);
  if (n < 15 || k < 15) { vf::check("too few tracks", !r && !h::stat && !h::dyn); vf::reach("few"); return; }
  bool m0 = a + 28 > 75, m1 = b + 42 > 75;
  vf::check("still", h::stat == (!m0 && !m1 ? 1 : 0)); vf::check("moving", h::dyn == (m0 || m1 ? 1 : 0)); vf::check("done", r);
  vf::reach("end");
}
// without the disparity test rest is always assumed; without tracks nothing happens
VF_CASE(no_tracks) {
  auto o = opts(); int off = vf::choose("disparity test off", 3); o.init_max_disparity = off == 0 ? 0 : off == 1 ? -1 : 5; h::ok = true;
  auto db = std::make_shared<FeatureDatabase>(); int n = vf::choose("tracks", 3); double t = vf::input("when", 0, 10);
  for (int i = 0; i < n; i++) see(db, i, t, 0, 100, 100);
  InertialInitializer m(o, db); ImuData d; d.timestamp = 0; d.wm = d.am = Eigen::Vector3d::Zero(); m.feed_imu(d);
  bool r = run(m, false);
  bool have = n > 0 && t - 2.1 >= 0;
  if (n > 0 && t - 2.1 > -1e-9 && t - 2.1 < 1e-9) return;
  vf::check("no tracks, no start", r == (have && off != 2) && h::stat == (have && off != 2) && !h::dyn);
  vf::reach("end");
}
// observations and readings from before the window (with a tenth to spare) are forgotten, nothing else is
VF_CASE(forgets) {
  auto o = opts(); o.calib_camimu_dt = vf::input("offset", -0.2, 0.2); o.init_max_disparity = 0; h::ok = false;
  double to = vf::input("observed", 7, 9.9), tr = vf::input("read", 7, 9.9);
  auto db = std::make_shared<FeatureDatabase>(); see(db, 1, to, 0, 5, 6); see(db, 1, 9.95, 0, 7, 8); see(db, 2, to, 1, 9, 10); see(db, 3, 10, 1, 9, 10); see(db, 4, 7, 0, 1, 1);
  InertialInitializer m(o, db);
  auto feed = [&](double t, double w) { ImuData d; d.timestamp = t; d.wm = Eigen::Vector3d(w, 0, 0); d.am = d.wm; m.feed_imu(d); };
  feed(6, 1); feed(tr, 2); feed(9.95, 3); feed(11, 4);
  vf::check("readings are kept in order", (int)m.imu_data->size() == 4);
  run(m, false);
  double lim = 10 - 2 - 0.1;
  bool ko = to >= lim, kr = tr >= lim + o.calib_camimu_dt;
  if (to - lim < 1e-9 && lim - to < 1e-9) return; double g = tr - lim - o.calib_camimu_dt; if (g < 1e-9 && -g < 1e-9) return;
  auto f = db->get_feature(1);
  vf::check("stale observations are forgotten", f != nullptr && (int)f->timestamps[0].size() == (ko ? 2 : 1) && (int)f->uvs[0].size() == (ko ? 2 : 1) && (db->get_feature(2) != nullptr) == ko && db->get_feature(4) == nullptr);
  vf::check("newest kept", db->get_feature(3) != nullptr);
  if (ko) vf::check_eq("kept as seen", f->timestamps[0][0], to);
  vf::check("stale readings are forgotten", h::stat == 1 && (int)h::seen.size() == (kr ? 3 : 2));
  if ((int)h::seen.size() == 3) { vf::check_eq("kept", h::seen[0].wm(0), 2.0); vf::check_eq("kept", h::seen[0].timestamp, tr); }
  vf::check_eq("kept", h::seen.back().wm(0), 4.0);
  vf::check("the initialisers look at the same readings and tracks", m.init_static->imu_data == m.imu_data && m.init_dynamic->imu_data == m.imu_data && m.init_static->_db == db && m.init_dynamic->_db == db);
  vf::reach("end");
}
VF_CASE(feed) {
  auto o = opts(); auto db = std::make_shared<FeatureDatabase>(); InertialInitializer m(o, db);
  double t[3], cut = vf::input("oldest needed", 0, 10); bool use = vf::choose("limit given", 2);
  for (int i = 0; i < 3; i++) { t[i] = vf::input("t" + std::to_string(i), 0, 10); ImuData d; d.timestamp = t[i]; d.wm = Eigen::Vector3d(i, 1, 2); d.am = Eigen::Vector3d(3, 4, i); if (i == 2 && use) m.feed_imu(d, cut); else m.feed_imu(d); }
  std::vector<int> want; for (int i = 0; i < 3; i++) if (!use || t[i] >= cut) want.push_back(i);
  vf::check("readings older than needed are dropped", m.imu_data->size() == want.size());
  for (size_t k = 0; k < want.size() && k < m.imu_data->size(); k++) { auto &d = m.imu_data->at(k); vf::check_eq("in order", d.timestamp, t[want[k]]); vf::check_eq("whole", d.wm(0), double(want[k])); vf::check_eq("whole", d.am(2), double(want[k])); }
  vf::reach("end");
}
