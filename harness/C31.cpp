// What the manager does with one image: tracks are routed to one use each, the window stays bounded, used observations go
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/core/VioManager.cpp ov_msckf/src/core/VioManagerHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp ov_core/src/track/TrackBase.cpp ov_core/src/track/TrackSIM.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: one image over windows of two to seven poses with one or two cameras; up to three tracks whose last and first observation times are any times, up to five long tracks, up to five landmarks, every start-up delay; updaters, propagator and retriangulation stand in as recorders that mark what they use, as the real ones do
// VF-OUTSIDE: what the updaters do with the tracks they are given (C20, C34) and the propagator's arithmetic (C24)
#include "manager_common.h"
struct Rig {
  VioManagerOptions p; std::shared_ptr<VioManager> m; std::shared_ptr<State> s; std::shared_ptr<FeatureDatabase> db, tags;
  Rig(VioManagerOptions p_, int clones) : p(p_) {
    m = std::make_shared<VioManager>(p); s = m->state;
    auto t = std::make_shared<TrackSIM>(s->_cam_intrinsics_cameras, p.state_options.max_aruco_features);
    m->trackFEATS = t; db = t->get_feature_database();
    m->is_initialized_vio = true; m->startup_time = 0;
    for (int i = 1; i <= clones; i++) { s->_timestamp = i; StateHelper::augment_clone(s, Eigen::Vector3d(0, 0, 0)); }
    s->_timestamp = clones;
  }
  void with_tags() { m->trackARUCO = std::make_shared<TrackSIM>(s->_cam_intrinsics_cameras, p.state_options.max_aruco_features); tags = m->trackARUCO->get_feature_database(); }
  void image(double t, std::vector<int> cams) {
    auto sim = std::dynamic_pointer_cast<TrackSIM>(m->trackFEATS);
    for (int c : cams) { sim->pts_last[c]; sim->ids_last[c]; }
    m->do_feature_propagate_update(h::image(t, cams));
  }
};
static Feats all(const std::vector<Feats> &v) { Feats r; for (auto &x : v) r.insert(r.end(), x.begin(), x.end()); return r; }
static size_t length(std::shared_ptr<Feature> f) { size_t n = 0; for (auto &c : f->timestamps) n += c.second.size(); return n; }

// a track goes to the update exactly when it ended before this image or reaches back to the pose about to leave
VF_CASE(lost_and_oldest) {
  int n = 4 + vf::choose("window before the image", 3), at = n + 1; // the image is taken at this time
  auto p = h::options(1);
  p.state_options.max_clone_size = 6;
  Rig g(p, n);
  std::vector<std::shared_ptr<Feature>> f; std::vector<double> first, last;
  for (int k = 0; k < 2; k++) {
    double a = vf::input("first" + std::to_string(k), 0.5, 8), b = vf::input("last" + std::to_string(k), 0.5, 8);
    vf::assume(vf::lt(a, b)); vf::assume(vf::le(b, double(at)));
    f.push_back(h::track(g.db, 100 + k, {{0, a}, {0, b}})); first.push_back(a); last.push_back(b);
  }
  auto gone = h::track(g.db, 200, {{0, 1.0}, {0, 2.0}}); gone->to_delete = true; // already used
  g.image(at, {0});
  vf::check("one update", h::calls.msckf.size() == 1);
  bool full = at > 5; // the window has reached the size from which the oldest pose is given up or used
  Feats used = all(h::calls.msckf);
  for (int k = 0; k < 2; k++) {
    bool lost = last[k] < double(at), oldest = full && (first[k] == 1.0 || last[k] == 1.0);
    vf::check("used exactly when ended or reaching the oldest pose", h::count(used, f[k]) == (lost || oldest ? 1 : 0));
    bool there = g.db->get_feature(100 + k) != nullptr;
    if (h::has(used, f[k])) vf::check("its observations are not used again", !there);
    else vf::check("kept for later", there);
  }
  vf::check("nothing else", (int)used.size() <= 2 && !h::has(used, gone));
  vf::check("no landmark work", h::calls.slam.empty() && all(h::calls.delayed).empty());
  vf::reach("end");
}
// until there are enough poses nothing is used
VF_CASE(waiting) {
  int size = 3 + 4 * vf::choose("window size", 2), n = 1 + vf::choose("poses before", 5), at = n + 1;
  if (n > size) return;
  auto p = h::options(1);
  p.state_options.max_clone_size = size;
  Rig g(p, n);
  double last = vf::input("last", 0.5, 6); vf::assume(vf::le(last, double(at)));
  auto f = h::track(g.db, 100, {{0, last}});
  g.image(at, {0});
  vf::check("moved to the image", h::calls.propagated.size() == 1); vf::check_eq("at its time", h::calls.propagated[0], double(at));
  int have = at, need = size < 5 ? size : 5;
  if (have < need) { vf::check("too few poses: nothing used", h::calls.msckf.empty() && g.db->get_feature(100) == f); vf::check("every pose kept", (int)g.s->_clones_IMU.size() == have); }
  else {
    vf::check("used", h::calls.msckf.size() == 1 && h::calls.delayed.size() == 1);
    vf::check("window bounded", (int)g.s->_clones_IMU.size() == (have > size ? size : have));
    vf::check("newest pose kept", g.s->_clones_IMU.count(at) == 1); vf::check("moved since standing still", g.m->has_moved_since_zupt);
  }
  vf::check("state consistent", h::layout_ok(g.s));
  vf::reach("end");
}
// an image before the state, or one that cannot be reached, changes nothing
VF_CASE(out_of_order) {
  auto p = h::options(1); p.state_options.max_clone_size = 6;
  Rig g(p, 6);
  bool can = vf::choose("can propagate", 2) == 0;
  h::calls.can_propagate = can;
  double t = vf::input("image time", 0.5, 9);
  auto f = h::track(g.db, 100, {{0, 2.0}});
  Eigen::MatrixXd P = g.s->_Cov;
  if (!can) { vf::assume(vf::lt(t, 20.0)); }
  if (t < 6.0) {
    g.image(t, {0});
    vf::check("late image: ignored", h::calls.order.empty() && (int)g.s->_clones_IMU.size() == 6 && g.db->get_feature(100) == f && !f->to_delete);
    vf::check_eq("time untouched", g.s->_timestamp, 6.0);
  } else if (!can) {
    if (t > 6.0) {
      g.image(t, {0});
      vf::check("unreachable image: nothing used", h::calls.msckf.empty() && h::calls.slam.empty() && h::calls.delayed.empty() && g.db->get_feature(100) == f && (int)g.s->_clones_IMU.size() == 6);
      vf::check("not counted as motion", !g.m->has_moved_since_zupt);
      vf::check_eq("time untouched", g.s->_timestamp, 6.0);
    }
  } else {
    g.image(t, {0});
    bool same = t == 6.0;
    vf::check("moved only when the time differs", h::calls.propagated.size() == (same ? 0 : 1));
    if (!same) vf::check_eq("moved to the image", h::calls.propagated[0], t);
    vf::check("used", h::calls.msckf.size() == 1);
  }
  vf::reach("end");
}
// a track that only other cameras saw waits for their image
VF_CASE(other_camera) {
  auto p = h::options(2); p.state_options.max_clone_size = 8;
  Rig g(p, 4);
  int cams = vf::choose("image of", 3); // camera 0, camera 1, both
  std::vector<int> ids; if (cams != 1) ids.push_back(0); if (cams != 0) ids.push_back(1);
  std::vector<std::shared_ptr<Feature>> f; std::vector<int> seen; std::vector<double> last;
  for (int k = 0; k < 2; k++) {
    int by = vf::choose("track seen by", 3); seen.push_back(by);
    double b = vf::input("last" + std::to_string(k), 0.5, 5); last.push_back(b);
    std::vector<std::pair<int, double>> o; if (by != 1) o.push_back({0, b}); if (by != 0) o.push_back({1, b});
    f.push_back(h::track(g.db, 100 + k, o));
  }
  g.image(5, ids);
  Feats used = all(h::calls.msckf);
  for (int k = 0; k < 2; k++) {
    bool mine = cams == 2 || seen[k] == 2 || cams == seen[k], lost = last[k] < 5.0;
    vf::check("used exactly when one of the image's cameras lost it", h::count(used, f[k]) == (mine && lost ? 1 : 0));
    vf::check("otherwise kept", (g.db->get_feature(100 + k) != nullptr) == !(mine && lost));
  }
  vf::reach("end");
}
// tracks over the whole window become landmarks while there is room
VF_CASE(promotion) {
  auto p = h::options(2);
  p.state_options.max_clone_size = 3; int allowed = vf::choose("landmarks allowed", 5); p.state_options.max_slam_features = allowed < 4 ? allowed : 7; p.state_options.max_aruco_features = 2;
  p.dt_slam_delay = vf::input("delay", 0, 10);
  p.state_options.max_msckf_in_update = vf::choose("few per update", 2) ? 2 : 100;
  Rig g(p, 5);
  double start = vf::input("start", 0, 6); g.m->startup_time = start;
  int have = vf::choose("landmarks already", 3), tags = vf::choose("tags already", 2);
  for (int i = 0; i < have; i++) h::slam(g.s, 50 + i, 1);   // seen by the other camera: not touched by this image
  for (int i = 0; i < tags; i++) h::slam(g.s, 8, 1);        // four corners per tag: the last id of a tag
  Feats lng, rest;
  for (int k = 0; k < 5; k++) lng.push_back(h::track(g.db, 100 + k, {{0, 1.0}, {0, 2.0}, {0, 3.0}, {0, 4.0 + k * 0.25}, {0, 6.0}}));   // longer than the window
  rest.push_back(h::track(g.db, 200, {{0, 1.0}, {0, 2.0}, {0, 6.0}}));               // as long as the window: not longer
  rest.push_back(h::track(g.db, 201, {{0, 2.0}, {1, 4.0}, {1, 1.0}, {0, 3.0}, {0, 6.0}}));   // long only over both cameras together
  rest.push_back(h::track(g.db, 202, {{0, 2.0}, {0, 3.0}}));                         // ended
  g.image(6, {0});
  Feats fresh = all(h::calls.delayed), used = all(h::calls.msckf);
  bool waited = 6.0 - start >= p.dt_slam_delay;
  int room = waited ? p.state_options.max_slam_features - have : 0; if (room < 0) room = 0; if (room > 5) room = 5;
  vf::check("as many new landmarks as there is room for", (int)fresh.size() == room && h::calls.delayed.size() == 1);
  int cnt = 0; for (auto &f : lng) { cnt += h::count(fresh, f); vf::check("one use each", h::count(fresh, f) + h::count(used, f) <= 1); }
  vf::check("new landmarks are long tracks", cnt == room);
  int total = 5 - room + 3;
  vf::check("the others go to the update, within its limit", (int)used.size() == (total < p.state_options.max_msckf_in_update ? total : p.state_options.max_msckf_in_update));
  size_t shortest = 1000; for (auto &f : used) { size_t l = 0; l += f->featid < 200 ? 5 : f->featid == 200 ? 3 : f->featid == 201 ? 5 : 2; if (l < shortest) shortest = l; }
  for (auto &f : lng) if (!h::has(used, f) && !h::has(fresh, f)) vf::check("the longest are preferred", 5 <= shortest);
  if (!h::has(used, rest[0])) vf::check("the longest are preferred", 3 <= shortest);
  if (!h::has(used, rest[1])) vf::check("the longest are preferred", 5 <= shortest);
  if (!h::has(used, rest[2])) vf::check("the longest are preferred", 2 <= shortest);
  for (auto &f : lng) vf::check("exactly what was used is forgotten", (g.db->get_feature(f->featid) == nullptr) == (h::has(used, f) || h::has(fresh, f)));
  for (auto &f : used) vf::check("used observations are forgotten", g.db->get_feature(f->featid) == nullptr);
  vf::check("window bounded after the image", (int)g.s->_clones_IMU.size() == 5);
  vf::reach("end");
}
// landmarks: tracked ones are updated, lost or failing ones leave, tags stay
VF_CASE(landmarks) {
  auto p = h::options(2);
  p.state_options.max_clone_size = 5; p.state_options.max_slam_features = 10; p.state_options.max_aruco_features = 2; p.state_options.max_slam_in_update = 1 + vf::choose("per update", 3);
  Rig g(p, 5);
  bool tags = vf::choose("tag tracker", 2) == 0; if (tags) g.with_tags();
  int cams = vf::choose("image of", 2);
  struct L { size_t id; int cam; bool tracked; int fails; };
  std::vector<L> l = {{60, 0, true, 0}, {61, 0, false, 0}, {62, 1, false, 0}, {63, 0, true, 2}, {64, 0, true, 1}, {8, 0, false, 0}, {9, 0, false, 0}, {7, 0, true, 3}};
  double seen = vf::input("seen at", 5.5, 6); vf::assume(vf::eq(seen, 6.0));
  for (auto &x : l) {
    auto k = h::slam(g.s, x.id, x.cam); k->update_fail_count = x.fails;
    if (x.tracked) { if (tags && x.id <= 8) h::track(g.tags, x.id, {{x.cam, 6.0}}); else h::track(g.db, x.id, {{x.cam, 6.0}}); }
  }
  g.image(6, {cams});
  Feats upd = all(h::calls.slam);
  for (auto &x : l) {
    bool left = !x.tracked && x.cam == cams; if (x.fails > 1) left = true;
    if (tags && x.id == 7 && x.fails > 1) left = true;
    if (x.id <= 8) left = false; // tags are never given up
    vf::check("landmark " + std::to_string(x.id) + " stays exactly while tracked and consistent", (g.s->_features_SLAM.count(x.id) == 1) == !left);
    bool want = x.tracked && !left; int c = 0; for (auto &f : upd) c += f->featid == x.id;
    vf::check("landmark " + std::to_string(x.id) + " updated once by its track", c == (want ? 1 : 0));
  }
  for (auto &b : h::calls.slam) vf::check("updates in batches", (int)b.size() >= 1 && (int)b.size() <= p.state_options.max_slam_in_update);
  vf::check("as few batches as possible", (int)h::calls.slam.size() == ((int)upd.size() + p.state_options.max_slam_in_update - 1) / p.state_options.max_slam_in_update);
  vf::check("state consistent", h::layout_ok(g.s));
  // order: the window tracks, then landmarks, then new landmarks, then anchors move while the leaving pose is still there
  vf::check("anchors move before the pose leaves", h::calls.windows_at_anchor_change == 6 && (int)g.s->_clones_IMU.size() == 5);
  vf::check("last step", !h::calls.order.empty() && h::calls.order.back() == "anchors");
  vf::reach("end");
}
// tags seen when the oldest pose leaves become landmarks after the delay
VF_CASE(tags) {
  auto p = h::options(1);
  p.state_options.max_clone_size = 4; p.state_options.max_slam_features = vf::choose("landmarks allowed", 2) ? 5 : 0; p.state_options.max_aruco_features = 2;
  p.dt_slam_delay = vf::input("delay", 0, 10);
  int n = 3 + vf::choose("window before", 3), at = n + 1;
  Rig g(p, n); g.with_tags();
  double start = vf::input("start", 0, 3); g.m->startup_time = start;
  double a = vf::input("seen", 0.5, 3);
  auto f = h::track(g.tags, 3, {{0, a}, {0, double(at)}});
  g.image(at, {0});
  bool due = at > 4 && a == 1.0 && double(at) - start >= p.dt_slam_delay;
  vf::check("new tag landmark", (int)all(h::calls.delayed).size() == (due ? 1 : 0) && (!due || h::has(all(h::calls.delayed), f)));
  vf::check("used only as a landmark", all(h::calls.msckf).empty());
  vf::check("forgotten exactly when used", (g.tags->get_feature(3) == nullptr) == due || at > 4);
  vf::reach("end");
}
// observations no pose of the window can use are dropped when the oldest pose leaves
VF_CASE(forgetting) {
  auto p = h::options(1);
  p.state_options.max_clone_size = 4 + 4 * vf::choose("window size", 2);
  Rig g(p, 5); g.with_tags();
  double a = vf::input("first", 0.25, 3), b = vf::input("second", 0.25, 6); vf::assume(vf::lt(a, b));
  auto f = h::track(g.db, 100, {{0, a}, {0, b}, {0, 6.0}}), t = h::track(g.tags, 4, {{0, a}, {0, b}, {0, 6.0}});
  bool oldest = a == 1.0 || b == 1.0;
  if (!oldest) {
    g.image(6, {0});
    bool full = p.state_options.max_clone_size < 6;
    for (auto &x : {f, t}) {
      int keep = 1; if (!full || b > 1.0) keep++; if (!full || a > 1.0) keep++;
      vf::check("observations from before the window are dropped", (int)x->timestamps.at(0).size() == keep && (int)x->uvs.at(0).size() == keep && (int)x->uvs_norm.at(0).size() == keep);
      vf::check_eq("the newest is kept", x->timestamps.at(0).back(), 6.0);
    }
    vf::check("tracks kept", g.db->get_feature(100) == f && g.tags->get_feature(4) == t);
    vf::check("window", (int)g.s->_clones_IMU.size() == (full ? 5 : 6) && (g.s->_clones_IMU.count(1.0) == 1) == !full);
  }
  vf::reach("end");
}
