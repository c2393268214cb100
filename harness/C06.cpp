// Queries and clean-up of the feature database against a plain list of observations
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: two to three features, up to two cameras and three observations each with every time order between features and every query time (before, at, between and after the observations), every observation value, every combination of the removal, deletion-flag and skip options
// VF-OUTSIDE: observations of one feature in one camera out of time order; concurrent access
#include "vf.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
using namespace ov_core;
struct Obs { size_t id; size_t cam; double t, u, v, un, vn; };
struct Model { std::vector<Obs> o; std::map<size_t, bool> del; };
static void see(FeatureDatabase &db, Model &m, size_t id, size_t cam, double t, const std::string &n, bool symbolic = false) {
  Obs o; o.id = id; o.cam = cam; o.t = t;
  double *f[4] = {&o.u, &o.v, &o.un, &o.vn};
  for (int i = 0; i < 4; i++) *f[i] = symbolic ? vf::input(n + std::to_string(i), -1000, 1000) : 1.0 * (int)(m.o.size() * 8 + i) / 4;
  db.update_feature(id, t, cam, (float)o.u, (float)o.v, (float)o.un, (float)o.vn);
  m.o.push_back(o); m.del[id];
}
static void same(FeatureDatabase &db, const Model &m) {
  std::set<size_t> ids; for (auto &o : m.o) ids.insert(o.id);
  auto in = db.get_internal_data();
  vf::check("the features are those with observations", in.size() == ids.size() && db.size() == ids.size());
  for (auto &f : in) {
    vf::check("features are filed under their number", f.first == f.second->featid && ids.count(f.first) == 1);
    size_t n = 0;
    for (auto &c : f.second->timestamps) {
      size_t k = 0;
      for (auto &o : m.o) if (o.id == f.first && o.cam == c.first) {
        if (k < c.second.size()) {
          vf::check_eq("time of an observation", c.second[k], o.t);
          Eigen::VectorXf uv = f.second->uvs[c.first].at(k), un = f.second->uvs_norm[c.first].at(k);
          vf::check_eq("pixel of an observation", Eigen::Vector2d((double)uv(0), (double)uv(1)), Eigen::Vector2d(o.u, o.v));
          vf::check_eq("normalised coordinates of an observation", Eigen::Vector2d((double)un(0), (double)un(1)), Eigen::Vector2d(o.un, o.vn));
        }
        k++;
      }
      vf::check("as many observations as seen", c.second.size() == k && f.second->uvs[c.first].size() == k && f.second->uvs_norm[c.first].size() == k);
      n += k;
    }
    size_t total = 0; for (auto &o : m.o) total += o.id == f.first;
    vf::check("observations of every camera", total == n);
  }
}
static void forget(Model &m, size_t id) { std::vector<Obs> r; for (auto &o : m.o) if (o.id != id) r.push_back(o); m.o = r; }
static void same_set(const std::string &n, const std::vector<std::shared_ptr<Feature>> &r, const std::set<size_t> &want) {
  std::set<size_t> got; for (auto &f : r) got.insert(f->featid);
  vf::check(n, got == want && r.size() == want.size());
}
// feature 4: cameras 0 and 1; feature 9: camera 1; times ordered within a camera, free otherwise
static void scene(FeatureDatabase &db, Model &m, bool values = false) {
  int shape = vf::choose("observations", vf::thorough() ? 4 : 3);
  static const int counts[4][3] = {{2, 0, 1}, {1, 1, 1}, {0, 2, 2}, {2, 2, 2}};
  static const size_t who[3][2] = {{4, 0}, {4, 1}, {9, 1}};
  for (int g = 0; g < 3; g++) {
    double t = vf::input("t" + std::to_string(g), 0, 100);
    for (int k = 0; k < counts[shape][g]; k++) { if (k) t = t + vf::input("dt" + std::to_string(g) + std::to_string(k), 1e-3, 10); see(db, m, who[g][0], who[g][1], t, "o" + std::to_string(g) + std::to_string(k), values); }
  }
}
static double query_time(const Model &m) { // anywhere, or exactly an observation's time
  int k = vf::choose("query at", (int)m.o.size() + 1);
  return k < (int)m.o.size() ? m.o[k].t : double(vf::input("query", 0, 120));
}
static void query(int which) {
  FeatureDatabase db; Model m;
  scene(db, m);
  double t = query_time(m);
  bool remove = vf::choose("remove", 2), skip = vf::choose("skip deleted", 2), flag = vf::choose("one is flagged", 2);
  if (flag) db.get_feature(4)->to_delete = true;
  std::set<size_t> want;
  for (size_t id : {(size_t)4, (size_t)9}) {
    bool newer = false, older = false, at = false, any = false;
    for (auto &o : m.o) if (o.id == id) { any = true; newer = newer || o.t >= t; older = older || o.t < t; at = at || o.t == t; }
    if (!any || (skip && flag && id == 4)) continue;
    if (which == 0 ? !newer : which == 1 ? older : at) want.insert(id);
  }
  auto r = which == 0 ? db.features_not_containing_newer(t, remove, skip) : which == 1 ? db.features_containing_older(t, remove, skip) : db.features_containing(t, remove, skip);
  same_set("exactly the features asked for", r, want);
  for (auto &f : r) { auto k = db.get_feature(f->featid); vf::check("returned features are the stored ones, gone when removed", remove ? k == nullptr : k == f); }
  if (remove) for (size_t id : want) forget(m, id);
  same(db, m);
  vf::reach("end");
}
VF_CASE(not_newer) { query(0); }
VF_CASE(older) { query(1); }
VF_CASE(containing) { query(2); }
VF_CASE(values) {
  FeatureDatabase db; Model m;
  scene(db, m, true);
  same(db, m);
  Feature c;
  vf::check("unknown features are not found", db.get_feature(5) == nullptr && !db.get_feature_clone(5, c));
  vf::check("found", db.get_feature_clone(9, c));
  auto f = db.get_feature(9);
  vf::check("a copy of a feature", c.featid == 9 && c.to_delete == f->to_delete && c.timestamps[1].size() == f->timestamps[1].size() && c.uvs.size() == f->uvs.size() && c.uvs_norm.size() == f->uvs_norm.size() && c.anchor_cam_id == f->anchor_cam_id);
  see(db, m, 9, 1, m.o.back().t + 5, "late", true);
  vf::check("the copy is independent", c.timestamps[1].size() + 1 == f->timestamps[1].size());
  vf::check("the stored one goes on", db.get_feature(9, true) == f && db.get_feature(9) == nullptr);
  forget(m, 9);
  same(db, m);
  double old = db.get_oldest_timestamp();
  bool is = m.o.empty(), none = true;
  for (auto &o : m.o) { vf::check("no observation is older than the oldest", vf::le(old, o.t)); is = is || old == o.t; none = false; }
  vf::check("the oldest time is one of an observation", none || is);
  vf::reach("end");
}
VF_CASE(clean_up) {
  FeatureDatabase db; Model m;
  scene(db, m);
  double t = query_time(m);
  int how = vf::choose("how", 3);
  std::vector<Obs> keep;
  if (how == 0) { // flagged features go
    size_t id = vf::choose("which", 2) ? 9 : 4;
    if (db.get_feature(id)) db.get_feature(id)->to_delete = true;
    db.cleanup(); forget(m, id);
  } else {
    for (auto &o : m.o) { bool gone = how == 1 ? bool(o.t <= t) : bool(o.t == t); if (!gone) keep.push_back(o); }
    if (how == 1) db.cleanup_measurements(t); else db.cleanup_measurements_exact(t);
    m.o = keep;
  }
  same(db, m);
  vf::reach("end");
}
VF_CASE(append) { // merging another database: every observation at a new time is added, none is lost or doubled
  auto db = std::make_shared<FeatureDatabase>(), other = std::make_shared<FeatureDatabase>(); Model a, b;
  double t[4]; t[0] = vf::input("t0", 0, 10);
  for (int i = 1; i < 4; i++) t[i] = t[i - 1] + vf::input("dt" + std::to_string(i), 1e-3, 5);
  see(*db, a, 4, 0, t[0], "a0"); see(*db, a, 4, 0, t[1], "a1"); see(*db, a, 7, 1, t[1], "a2");
  int mask = vf::choose("observations of the other", 32);
  if (mask & 1) see(*other, b, 4, 0, t[1], "b0", true);
  if (mask & 2) see(*other, b, 4, 0, t[2], "b1", true);
  if (mask & 4) see(*other, b, 4, 1, t[1], "b2", true);
  if (mask & 8) see(*other, b, 9, 1, t[3], "b3", true);
  if (mask & 16) see(*other, b, 7, 1, t[3], "b4", true);
  Model keep = b;
  db->append_new_measurements(other);
  for (auto &o : b.o) { bool have = false; for (auto &p : a.o) have = have || (p.id == o.id && p.cam == o.cam && p.t == o.t); if (!have) a.o.push_back(o); }
  same(*db, a);
  same(*other, keep);
  for (auto &f : db->get_internal_data()) vf::check("the databases stay separate", !other->get_feature(f.first) || other->get_feature(f.first) != f.second);
  vf::reach("end");
}
