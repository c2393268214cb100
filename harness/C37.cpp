// What the filter reports about points: landmark and tag positions, positions and depths of the active tracks
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/core/VioManager.cpp ov_msckf/src/core/VioManagerHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp ov_core/src/track/TrackBase.cpp ov_core/src/track/TrackSIM.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: every landmark position, tag limit and representation at seeded poses, on one or two cameras; every pixel a track is shown at; tracks of up to five images with one pose off by up to two metres each way, every limit of depth
// VF-OUTSIDE: the drawn images; rounding (1e-6)
#include "manager_common.h"
#include "vision_common.h"
static Eigen::Vector3d coarse(const std::string &n, double a, double b, double q) { Eigen::Vector3d r; for (int i = 0; i < 3; i++) r(i) = floor(vf::rnd(n + std::to_string(i), a, b) * q) / q; return r; }
static void coarse_pose(std::shared_ptr<PoseJPL> p, const std::string &n, double rot, double pos) {
  for (int k = 0; k < 2; k++) { Eigen::Matrix<double, 7, 1> v; v << vf::unit_quat(coarse(n + "t" + std::to_string(k), -rot, rot, 32)), coarse(n + "p" + std::to_string(k), -pos, pos, 8); if (k) p->set_fej(v); else p->set_value(v); }
}
struct Shown {
  VioManagerOptions p; std::shared_ptr<VioManager> m; std::shared_ptr<State> s; std::shared_ptr<TrackSIM> t;
  Shown(VioManagerOptions p_, int clones) : p(p_) {
    m = std::make_shared<VioManager>(p); s = m->state; t = std::make_shared<TrackSIM>(s->_cam_intrinsics_cameras, p.state_options.max_aruco_features); m->trackFEATS = t;
    m->is_initialized_vio = true; m->startup_time = 0;
    for (auto &c : s->_calib_IMUtoCAM) coarse_pose(c.second, "e" + std::to_string(c.first), 0.1, 0.3);
    for (int i = 1; i <= clones; i++) clone(i);
  }
  void clone(int i) { s->_timestamp = i; StateHelper::augment_clone(s, Eigen::Vector3d(0, 0, 0)); coarse_pose(s->_clones_IMU.at(i), "c" + std::to_string(i), 0.1, 1); }
  void landmark(size_t id, h::Rep rep, double t0, int cam, const Eigen::Vector3d &g) {
    auto l = std::make_shared<Landmark>(rep == h::Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3); l->_featid = id; l->_unique_camera_id = 0; l->_feat_representation = rep; l->has_had_anchor_change = false;
    Eigen::Vector3d x = g; if (h::relative(rep)) { l->_anchor_cam_id = cam; l->_anchor_clone_timestamp = t0; x = h::to_cam(s, t0, cam, g, false); }
    l->set_from_xyz(x, false); l->set_from_xyz(x + Eigen::Vector3d(0.25, -0.125, 0.5), true); h::append(s, l); s->_features_SLAM[id] = l;
  }
  void last(int cam, const std::vector<std::pair<size_t, Eigen::Vector2d>> &z) {
    t->pts_last[cam].clear(); t->ids_last[cam].clear();
    for (auto &o : z) { cv::KeyPoint k; k.pt.x = (float)o.second(0); k.pt.y = (float)o.second(1); t->pts_last[cam].push_back(k); t->ids_last[cam].push_back(o.first); }
  }
  Eigen::Vector2d seen(int cam, double at, const Eigen::Vector3d &g) { Eigen::Vector3d x = h::to_cam(s, at, cam, g, false); return Eigen::Vector2d((400 + 16 * cam) * x(0) / x(2) + 320, 384 * x(1) / x(2) + 240); }
  bool has(size_t id) { return m->active_tracks_posinG.count(id); }
};
// landmarks are reported at their position, tags and features apart
VF_CASE(landmarks) {
  int k = vf::choose("representation", 6), cams = 2; h::Rep rep = h::reps[k]; bool trig = rep == h::Rep::GLOBAL_FULL_INVERSE_DEPTH || rep == h::Rep::ANCHORED_FULL_INVERSE_DEPTH;
  auto p = h::options(cams); int lim = vf::choose("tags", 3); p.state_options.max_aruco_features = lim; size_t edge = 4 * lim;
  Shown g(p, 3);
  Eigen::Vector3d a = trig ? vf::rnds("a", 3, 1, 2, 4) : Eigen::MatrixXd(vf::in_vec3("a", true, -1, 1)), b = vf::rnds("b", 3, 1, 2, 4); if (!trig) a(2) = a(2) + 5;
  g.landmark(edge, rep, 2, 1, b); g.landmark(edge + 1, rep, 1, vf::choose("camera", 2), a);
  auto f = g.m->get_features_SLAM(), q = g.m->get_features_ARUCO();
  vf::check("features and tags apart", (int)f.size() == 1 && (int)q.size() == 1);
  if (trig) { vf::check_near("feature", Eigen::MatrixXd(f[0]), Eigen::MatrixXd(a), 1e-9); vf::check_near("tag", Eigen::MatrixXd(q[0]), Eigen::MatrixXd(b), 1e-9); }
  else { vf::check_eq("feature", Eigen::MatrixXd(f[0]), Eigen::MatrixXd(a), 10); vf::check_eq("tag", Eigen::MatrixXd(q[0]), Eigen::MatrixXd(b), 10); }
  vf::reach("end");
}
// landmarks seen now by the first camera are shown there with their depth
VF_CASE(shown) {
  int k = vf::choose("representation", 3); h::Rep rep = k == 0 ? h::Rep::GLOBAL_3D : k == 1 ? h::Rep::ANCHORED_3D : h::Rep::ANCHORED_MSCKF_INVERSE_DEPTH;
  auto p = h::options(2); Shown g(p, 3);
  Eigen::Vector3d a = vf::in_vec3("a", true, -1, 1); a(2) = vf::input("ahead", 3, 8); int edge = vf::choose("edge", 4); double u = edge == 0 ? vf::input("u", -2, 2) : edge == 1 ? vf::input("u", 638, 642) : double(100), v = edge == 2 ? vf::input("v", -2, 2) : edge == 3 ? vf::input("v", 478, 482) : double(200);
  if (k == 0) a(2) = vf::input("depth", -3, 8);
  g.landmark(50, rep, 1, 1, a); g.landmark(51, h::Rep::GLOBAL_3D, 1, 0, Eigen::Vector3d(0, 0, 5));
  g.last(0, {{50, Eigen::Vector2d(u, v)}, {70, Eigen::Vector2d(10, 10)}}); g.last(1, {{50, Eigen::Vector2d(3, 4)}, {51, Eigen::Vector2d(3, 4)}});
  g.m->retriangulate_active_tracks(h::image(3, {0, 1}));
  double now; std::unordered_map<size_t, Eigen::Vector3d> pos, uvd; g.m->get_active_tracks(now, pos, uvd);
  vf::check_eq("of this image", now, 3.0);
  vf::check("landmarks are reported, fresh tracks not", (int)pos.size() == 2 && pos.count(50) && pos.count(51));
  vf::check_eq("position", Eigen::MatrixXd(pos[50]), Eigen::MatrixXd(a), 10);
  Eigen::Vector3d c = h::to_cam(g.s, 3, 0, a, false);
  bool in = c(2) >= 0.1 && u >= 0 && u < 640 && v >= 0 && v < 480;
  vf::check("shown when in front and inside the image of the first camera", (int)uvd.count(50) == (in ? 1 : 0) && !uvd.count(51));
  if (uvd.count(50)) { vf::check_eq("pixel", uvd[50](0), u); vf::check_eq("pixel", uvd[50](1), v); vf::check_eq("depth", uvd[50](2), c(2), 10); }
  vf::reach("end");
}
// a track seen often enough is placed where its observations meet best, from then on while it is seen
static void tracks(int cams, int images) {
  vf::set_rounded_constants(true);
  auto p = h::options(cams); p.featinit_options.min_dist = -std::numeric_limits<double>::infinity(); p.featinit_options.max_dist = p.featinit_options.max_cond_number = std::numeric_limits<double>::infinity(); Shown g(p, images);
  Eigen::Vector3d a = coarse("a", -0.5, 0.5, 64); a(2) = a(2) + 4;
  int which = vf::choose("which pose is off", images), missed = images == 5 ? vf::choose("missed", 3) - 1 : -1;
  std::vector<std::vector<Eigen::Vector2d>> z(images + 1);
  for (int i = 1; i <= images; i++) for (int c = 0; c < cams; c++) { Eigen::Vector2d q = g.seen(c, i, a); for (int j = 0; j < 2; j++) q(j) = floor(q(j) * 16) / 16; z[i].push_back(q); }
  // the pose lies elsewhere, so that the rays need not meet
  { auto k = g.s->_clones_IMU.at(which + 1); Eigen::MatrixXd v = k->value(); for (int j = 0; j < 3; j++) v(4 + j) = v(4 + j) + vf::input("off" + std::to_string(j), -2, 2); k->set_value(v); }
  Eigen::Matrix3d A = Eigen::Matrix3d::Zero(); Eigen::Vector3d b = Eigen::Vector3d::Zero(); int n = 0;
  for (int i = 1; i <= images; i++) {
    std::vector<int> ids;
    if (i - 1 == missed) { A.setZero(); b.setZero(); n = 0; }
    for (int c = 0; c < cams; c++) {
      std::vector<std::pair<size_t, Eigen::Vector2d>> l; if (i - 1 != missed) l.push_back({9, z[i][c]}); if (i == 1) l.push_back({8, z[i][c]});
      g.last(c, l); ids.push_back(c);
      if (i - 1 == missed) continue;
      Eigen::Matrix3d R; Eigen::Vector3d o; h::cam_pose(g.s, i, c, R, o, false);
      Eigen::Vector3d d = R * Eigen::Vector3d((z[i][c](0) - 320) / (400 + 16 * c), (z[i][c](1) - 240) / 384, 1); double q = d.dot(d);
      Eigen::Matrix3d B = Eigen::Matrix3d::Identity() - d * d.transpose() / q; A += B; b += B * o; n++;
    }
    g.m->retriangulate_active_tracks(h::image(i, ids));
    if (n <= 3) { vf::check("not before it was seen four times", !g.has(9)); continue; }
    vf::check("placed once seen four times", g.has(9)); if (!g.has(9)) continue;
    Eigen::Vector3d x = g.m->active_tracks_posinG[9];
    vf::check_near("where its observations meet", Eigen::MatrixXd(A * x), Eigen::MatrixXd(b), 1e-6);
    double depth = h::to_cam(g.s, i, 0, x, false)(2);
    bool inside = z[i][0](0) >= 0 && z[i][0](0) < 640 && z[i][0](1) >= 0 && z[i][0](1) < 480;
    vf::check("shown when in front and inside", (int)g.m->active_tracks_uvd.count(9) == (inside && depth >= 0.1 ? 1 : 0));
    if (g.m->active_tracks_uvd.count(9)) { vf::check_near("depth", g.m->active_tracks_uvd[9](2), depth, 1e-6); vf::check_near("pixel", g.m->active_tracks_uvd[9](0), z[i][0](0), 1e-4); }
    vf::reach("placed");
  }
  vf::check("tracks no longer seen are forgotten", !g.has(8) && !g.m->active_feat_linsys_A.count(8) && (int)g.m->active_feat_linsys_A.size() == 1);
  vf::reach("end");
}
VF_CASE(one_camera) { tracks(1, 4); }
VF_CASE(two_cameras) { tracks(2, 2); }
VF_CASE(missed) { tracks(1, 5); }
// limits of depth
VF_CASE(limits) {
  vf::set_rounded_constants(true);
  auto p = h::options(1); p.featinit_options.min_dist = vf::input("nearest", 0.5, 8); p.featinit_options.max_dist = vf::input("farthest", 2, 20); p.featinit_options.max_cond_number = 1e9; Shown g(p, 4);
  Eigen::Vector3d a = coarse("a", -0.5, 0.5, 64); a(2) = a(2) + 4; bool slam = vf::choose("landmark", 2);
  if (slam) g.landmark(9, h::Rep::GLOBAL_3D, 1, 0, Eigen::Vector3d(1, 1, 5));
  for (int i = 1; i <= 4; i++) { g.last(0, {{9, g.seen(0, i, a)}}); g.m->retriangulate_active_tracks(h::image(i, {0})); }
  double d = h::to_cam(g.s, 4, 0, a, false)(2);
  if (slam) { vf::check("a landmark keeps its estimate", g.has(9) && g.m->active_feat_linsys_A.empty()); vf::check_eq("estimate", g.m->active_tracks_posinG[9](0), 1.0); vf::reach("landmark"); return; }
  double gap = 1e-6; bool sure = d > p.featinit_options.min_dist + gap && d < p.featinit_options.max_dist - gap, out = d < p.featinit_options.min_dist - gap || d > p.featinit_options.max_dist + gap;
  if (sure) { vf::check("placed within the limits of depth", g.has(9)); if (g.has(9)) vf::check_near("at the point", Eigen::MatrixXd(g.m->active_tracks_posinG[9]), Eigen::MatrixXd(a), 1e-6); }
  if (out) vf::check("not outside them", !g.has(9));
  vf::reach("end");
}
