// the filter's manager with its neighbours (trackers, updaters, propagator, initialiser) replaced by recorders that keep their contracts
#ifndef MANAGER_COMMON_H
#define MANAGER_COMMON_H
#include "state_common.h"
#include "core/VioManager.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "feat/FeatureInitializer.h"
#include "init/InertialInitializer.h"
#include "dynamic/DynamicInitializer.h"
#include "static/StaticInitializer.h"
#include "state/Propagator.h"
#include "track/TrackSIM.h"
#include "track/TrackKLT.h"
#include "track/TrackDescriptor.h"
#include "track/TrackAruco.h"
#include "update/UpdaterMSCKF.h"
#include "update/UpdaterSLAM.h"
#include "update/UpdaterZeroVelocity.h"
typedef std::vector<std::shared_ptr<ov_core::Feature>> Feats;
namespace h {
struct Calls {
  std::vector<std::string> order;                   // who was called, in order
  std::vector<Feats> msckf, slam, delayed;          // with which features
  std::vector<double> propagated;                   // to which times
  std::vector<double> zupt;
  int windows_at_anchor_change = -1;                // window size when the anchors were moved
  bool can_propagate = true, zupt_ok = false, init_ok = false, wait_for_jerk = false; int refuse = -1;
  double init_time = 0; Eigen::MatrixXd init_cov; Eigen::VectorXd init_value;
  std::vector<ov_core::ImuData> init_imu; std::vector<double> init_oldest;
  std::vector<ov_core::CameraData> fed;
  std::function<void()> during_init;
};
static Calls calls;
} // namespace h
namespace ov_msckf {
inline void vf_done(Feats &v, int refuse) { // used observations are marked; a refused feature is taken out of the list
  for (auto &f : v) f->to_delete = true;
  if (refuse >= 0) for (size_t i = 0; i < v.size(); i++) if ((int)v[i]->featid == refuse) { v.erase(v.begin() + i); break; }
}
UpdaterMSCKF::UpdaterMSCKF(UpdaterOptions &, ov_core::FeatureInitializerOptions &) {}
void UpdaterMSCKF::update(std::shared_ptr<State>, Feats &v) { h::calls.order.push_back("msckf"); h::calls.msckf.push_back(v); vf_done(v, h::calls.refuse); }
UpdaterSLAM::UpdaterSLAM(UpdaterOptions &, UpdaterOptions &, ov_core::FeatureInitializerOptions &) {}
void UpdaterSLAM::update(std::shared_ptr<State>, Feats &v) { h::calls.order.push_back("slam"); h::calls.slam.push_back(v); vf_done(v, h::calls.refuse); }
void UpdaterSLAM::delayed_init(std::shared_ptr<State>, Feats &v) { h::calls.order.push_back("delayed"); h::calls.delayed.push_back(v); vf_done(v, h::calls.refuse); }
void UpdaterSLAM::change_anchors(std::shared_ptr<State> s) { h::calls.order.push_back("anchors"); h::calls.windows_at_anchor_change = (int)s->_clones_IMU.size(); }
UpdaterZeroVelocity::UpdaterZeroVelocity(UpdaterOptions &, NoiseManager &, std::shared_ptr<ov_core::FeatureDatabase> db, std::shared_ptr<Propagator> prop, double, double, double, double) : _db(db), _prop(prop) {}
bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> s, double t) { h::calls.order.push_back("zupt"); h::calls.zupt.push_back(t); if (h::calls.zupt_ok) s->_timestamp = t; return h::calls.zupt_ok; }
void Propagator::propagate_and_clone(std::shared_ptr<State> s, double t) {
  h::calls.order.push_back("propagate"); h::calls.propagated.push_back(t);
  if (!h::calls.can_propagate) return;
  s->_timestamp = t;
  StateHelper::augment_clone(s, Eigen::Vector3d(0, 0, 0));
}
} // namespace ov_msckf
namespace ov_init {
InertialInitializer::InertialInitializer(InertialInitializerOptions &, std::shared_ptr<ov_core::FeatureDatabase> db) : _db(db) {}
void InertialInitializer::feed_imu(const ov_core::ImuData &m, double oldest) { h::calls.init_imu.push_back(m); h::calls.init_oldest.push_back(oldest); }
bool InertialInitializer::initialize(double &t, Eigen::MatrixXd &P, std::vector<std::shared_ptr<ov_type::Type>> &order, std::shared_ptr<ov_type::IMU> imu, bool wait) {
  h::calls.order.push_back("initialize"); h::calls.wait_for_jerk = wait;
  if (h::calls.during_init) h::calls.during_init();
  if (!h::calls.init_ok) return false;
  t = h::calls.init_time; P = h::calls.init_cov; order = {imu}; imu->set_value(h::calls.init_value); imu->set_fej(h::calls.init_value);
  return true;
}
} // namespace ov_init
namespace ov_core {
void TrackKLT::feed_new_camera(const CameraData &m) { h::calls.order.push_back("track"); h::calls.fed.push_back(m); }
void TrackDescriptor::feed_new_camera(const CameraData &m) { h::calls.order.push_back("track"); h::calls.fed.push_back(m); }
void TrackAruco::feed_new_camera(const CameraData &m) { h::calls.order.push_back("tags"); }
} // namespace ov_core
namespace h {
inline std::shared_ptr<CamBase> camera(int k) {
  auto c = std::make_shared<CamRadtan>(640, 480);
  Eigen::MatrixXd v(8, 1); v << 400 + 16 * k, 384, 320, 240, 0, 0, 0, 0;
  c->set_value(v);
  return c;
}
inline VioManagerOptions options(int cams) {
  calls = Calls();
  VioManagerOptions p;
  p.state_options.num_cameras = cams; p.init_options.num_cameras = cams;
  p.state_options.max_clone_size = 6; p.state_options.max_slam_features = 0; p.state_options.max_msckf_in_update = 100; p.state_options.max_slam_in_update = 100; p.state_options.max_aruco_features = 4;
  p.use_aruco = false; p.use_multi_threading_subs = false; p.use_stereo = false; p.dt_slam_delay = 0;
  for (int i = 0; i < cams; i++) {
    p.camera_intrinsics[i] = camera(i);
    Eigen::VectorXd e(7); e << vf::in_quat("ext" + std::to_string(i), false), vf::in_vec3("pext" + std::to_string(i), false);
    p.camera_extrinsics[i] = e;
    p.init_options.camera_intrinsics[i] = p.camera_intrinsics[i]; p.init_options.camera_extrinsics[i] = e;
  }
  p.vec_dw << 1, 0, 0, 1, 0, 1; p.vec_da << 1, 0, 0, 1, 0, 1; p.vec_tg << 0, 0, 0, 0, 0, 0, 0, 0, 0; p.q_ACCtoIMU << 0, 0, 0, 1; p.q_GYROtoIMU << 0, 0, 0, 1;
  return p;
}
inline CameraData image(double t, std::vector<int> cams) {
  CameraData m; m.timestamp = t; m.sensor_ids = cams;
  for (size_t i = 0; i < cams.size(); i++) { m.images.push_back(cv::Mat::zeros(cv::Size(640, 480), CV_8UC1)); m.masks.push_back(cv::Mat::zeros(cv::Size(640, 480), CV_8UC1)); }
  return m;
}
inline std::shared_ptr<Feature> track(std::shared_ptr<FeatureDatabase> db, size_t id, const std::vector<std::pair<int, double>> &seen) {
  for (auto &o : seen) db->update_feature(id, o.second, o.first, 100, 120, 0.125, 0.25);
  return db->get_feature(id);
}
inline bool has(const Feats &v, std::shared_ptr<Feature> f) { return std::find(v.begin(), v.end(), f) != v.end(); }
inline int count(const Feats &v, std::shared_ptr<Feature> f) { return (int)std::count(v.begin(), v.end(), f); }
inline bool has(const Feats &v, size_t id) { for (auto &f : v) if (f->featid == id) return true; return false; }
inline std::shared_ptr<Landmark> slam(std::shared_ptr<State> s, size_t id, int cam = 0) {
  auto l = add_landmark(s, id); l->_unique_camera_id = cam; l->should_marg = false; l->update_fail_count = 0;
  Eigen::Vector3d v = vf::rnds("landmark" + std::to_string(id), 3); l->set_value(v); l->set_fej(v);
  return l;
}
} // namespace h
#endif
