// Tracks between images: identity, what is recorded of a track, where points may lie, new points
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/track/TrackKLT.cpp ov_core/src/track/TrackBase.cpp ov_core/src/track/TrackSIM.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: one or two cameras with images of 60 or 64 by 48 pixels, up to sixteen tracks of which up to two are found anywhere around the image's border, a mask's border or the border of a cell of the minimum distance, in up to three images; every outcome of following them
// VF-OUTSIDE: what OpenCV finds in images (corners, their refinement, the flow and the outliers are given by the harness, which assumes nothing of them); concurrent schedules; descriptor matching
#include "tracker_common.h"
#include "track/TrackKLT.h"
#include "track/TrackSIM.h"
typedef std::map<size_t, std::pair<double, double>> Points;
static const int W[2] = {60, 64}, H = 48;
struct Rig {
  std::unordered_map<size_t, std::shared_ptr<CamBase>> cams; std::shared_ptr<TrackKLT> klt; h::World world; int n; double t = 1;
  Rig(int n, bool stereo, int features, int min_dist = 5) : n(n) {
    for (int i = 0; i < n; i++) { cams[i] = h::pinhole(W[i], H, i); world.cams.push_back(cams[i]); }
    klt = std::make_shared<TrackKLT>(cams, features, 10, stereo, TrackBase::HistogramMethod::NONE, 10, 3, 2, min_dist);
    world.install();
  }
  CameraData message(std::vector<cv::Mat> masks) { CameraData m; t += 0.125; m.timestamp = t; for (int i = 0; i < n; i++) { m.sensor_ids.push_back(i); m.images.push_back(h::grey(W[i], H)); m.masks.push_back(masks[i]); } return m; }
  // tracks as they were in the last image, each observed there
  void last(int cam, const std::vector<std::pair<size_t, std::pair<double, double>>> &p, const cv::Mat &mask) {
    for (auto &k : p) { klt->pts_last[cam].push_back(h::key(k.second.first, k.second.second)); klt->ids_last[cam].push_back(k.first); klt->database->update_feature(k.first, t, cam, k.second.first, k.second.second, 0, 0); }
    klt->img_last[cam] = h::grey(W[cam], H); klt->img_mask_last[cam] = mask; klt->img_pyramid_last[cam] = {klt->img_last[cam]}; if (klt->currid < 1000) klt->currid = 1000;
  }
  Points now(int cam) {
    Points r; auto ids = klt->get_last_ids(); auto pts = klt->get_last_obs();
    vf::check("a place for each identity", ids[cam].size() == pts[cam].size()); if (ids[cam].size() != pts[cam].size()) return r;
    for (size_t i = 0; i < ids[cam].size(); i++) r[ids[cam][i]] = {pts[cam][i].pt.x, pts[cam][i].pt.y};
    vf::check("each identity once", r.size() == ids[cam].size());
    return r;
  }
  // observations recorded for this image: exactly the tracks, where they are
  void recorded(int cam, const Points &p, const std::set<size_t> &all, double time) {
    for (size_t id : all) {
      auto f = klt->get_feature_database()->get_feature(id); int k = 0, at = -1; if (f != nullptr) for (size_t i = 0; i < f->timestamps[cam].size(); i++) if (f->timestamps[cam][i] == time) { k++; at = (int)i; }
      vf::check("recorded once if followed, otherwise not", k == (p.count(id) ? 1 : 0)); if (k != 1 || !p.count(id)) continue;
      auto q = p.at(id); Eigen::MatrixXd v(4, 1), w(4, 1); auto c = cams[cam]->get_value();
      v << f->uvs[cam][at](0), f->uvs[cam][at](1), f->uvs_norm[cam][at](0), f->uvs_norm[cam][at](1); w << q.first, q.second, (q.first - c(2)) / c(0), (q.second - c(3)) / c(1);
      vf::check_near("at its place, undistorted by its camera", v, w, 1e-3);
    }
  }
};
static bool in_image(int cam, double x, double y) { return x >= 0 && y >= 0 && x < W[cam] && y < H; }
static bool masked(const cv::Mat &m, double x, double y) { return m.at<uint8_t>((int)y, (int)x) > 127; }
static std::vector<std::pair<size_t, std::pair<double, double>>> grid(int n, int id0, double dx = 0) { std::vector<std::pair<size_t, std::pair<double, double>>> r; for (int i = 0; i < n; i++) r.push_back({(size_t)(id0 + i), {12.5 + dx + 5 * (i % 7), 12.5 + 5 * (i / 7)}}); return r; }
// anywhere around the left, right, upper or lower border of the image, or of the masked block
static std::pair<double, double> around(const std::string &n, int cam, int kind) {
  if (kind == 0) return {vf::input(n + ".x", -1.5, 1.5), 20.5};
  if (kind == 1) return {W[cam] + vf::input(n + ".x", -1.5, 1.5), 20.5};
  if (kind == 2) return {22.5, vf::input(n + ".y", -1.5, 1.5)};
  if (kind == 3) return {22.5, H + vf::input(n + ".y", -1.5, 1.5)};
  if (kind == 4) return {32 + vf::input(n + ".x", -1.5, 1.5), 30.5};
  return {36.5, 38 + vf::input(n + ".y", -1.5, 1.5)};
}
// one camera: a track goes on exactly if it was followed, agrees with the motion, and lies in the image and not in the mask
VF_CASE(one_camera) {
  int kind = vf::choose("where", 6); bool ok = vf::choose("followed", 2), in = vf::choose("agrees", 2); int shade = vf::choose("shade", 2);
  Rig r(1, false, 11); cv::Mat old = h::grey(W[0], H), mask = h::grey(W[0], H); h::paint(mask, 32, 28, 40, 38, shade ? 128 : 127);
  auto p = grid(11, 100); r.last(0, p, old);
  auto to = around("to", 0, kind); std::set<size_t> ids; Points want;
  for (int i = 0; i < 11; i++) {
    h::Flow f{p[i].second.first, p[i].second.second, p[i].second.first + 1.25, p[i].second.second - 0.5, true, true}; if (i == 3) { f.x1 = to.first; f.y1 = to.second; f.ok = ok; f.inlier = in; } if (i == 5) f.ok = false; if (i == 7) f.inlier = false;
    r.world.flows.push_back(f); ids.insert(100 + i); if (f.ok && f.inlier && in_image(0, f.x1, f.y1)) if (!masked(mask, f.x1, f.y1)) want[100 + i] = {f.x1, f.y1};
  }
  r.world.unknown_stays = false;
  auto m = r.message({mask}); r.klt->feed_new_camera(m);
  vf::check("followed from where the tracks were", r.world.strange == 0); vf::check("outliers sought on the undistorted points", r.world.not_normalised == 0);
  Points got = r.now(0); vf::check("how many go on", got.size() == want.size());
  for (auto &w : want) { vf::check("goes on", got.count(w.first)); if (!got.count(w.first)) return; vf::check_near("to where it was found", Eigen::Vector2d(got[w.first].first, got[w.first].second), Eigen::Vector2d(w.second.first, w.second.second), 1e-3); }
  r.recorded(0, want, ids, m.timestamp);
  if (want.count(103)) vf::reach("goes on"); else vf::reach("ends");
}
// too few points to tell outliers: nothing goes on, and the next image starts anew
VF_CASE(few) {
  int n = 7 + vf::choose("tracks", 4); Rig r(1, false, n); cv::Mat mask = h::grey(W[0], H);
  r.last(0, grid(n, 100), mask); std::set<size_t> ids; for (int i = 0; i < n; i++) ids.insert(100 + i);
  auto m = r.message({mask}); r.klt->feed_new_camera(m); Points got = r.now(0);
  vf::check("ten or none", got.size() == (n >= 10 ? (size_t)n : 0)); r.recorded(0, got, ids, m.timestamp);
  cv::hooks().fast = [](cv::Rect b, std::vector<cv::KeyPoint> &k) { k.push_back(h::key(7, 9)); };
  if (n < 10) { auto m2 = r.message({mask}); r.klt->feed_new_camera(m2); Points again = r.now(0); vf::check("starts anew", again.size() == 6); for (auto &a : again) vf::check("with new identities", a.first > 1000); vf::reach("anew"); } else vf::reach("on");
}
// points are kept or made apart from each other, away from the border, outside the mask, under identities never used
struct Candidate { int x, y, response; double rx, ry; };
static void offer(std::vector<Candidate> &c, int cam) { // corners found in an image and where they are refined to
  cv::hooks().fast = [&c](cv::Rect b, std::vector<cv::KeyPoint> &k) { for (auto &q : c) if (q.x >= b.x && q.y >= b.y && q.x < b.x + b.width && q.y < b.y + b.height) k.push_back(h::key(q.x - b.x, q.y - b.y, q.response)); };
  cv::hooks().refine = [&c](std::vector<cv::Point2f> &p) { for (auto &v : p) for (auto &q : c) if (h::same(v.x, q.x) && h::same(v.y, q.y)) { v.x = q.rx; v.y = q.ry; break; } };
}
static std::pair<int, int> cell(double x, double y, int d = 5) { return {(int)(x / d), (int)(y / d)}; }
static void apart(const Points &p) { std::set<std::pair<int, int>> used; for (auto &k : p) vf::check("apart from each other", used.insert(cell(k.second.first, k.second.second)).second); }
VF_CASE(new_points) {
  int kind = vf::choose("what", 5);
  Rig r(1, false, 40); cv::Mat mask = h::grey(W[0], H), clear = h::grey(W[0], H); h::paint(mask, 40, 26, 60, 48, 255);
  auto p = grid(10, 100); // ten tracks in the upper cells; an eleventh somewhere
  double x = 30.5, y = 30.5;
  if (kind == 0) x = vf::input("x", 8.5, 11.5); if (kind == 1) y = 38 + vf::input("y", -1.5, 1.5); if (kind == 2) x = 40 + vf::input("x", -1.5, 1.5); if (kind == 3) { x = 20 + vf::input("x", -1.5, 1.5); y = 12.5 + 0.25; }
  p.push_back({110, {x, y}});
  r.last(0, p, mask); h::paint(r.klt->img_mask_last[0], 0, 0, 0, 0, 0);
  double dx = 0, dy = 0; if (kind == 4) { dx = vf::input("dx", -2, 2); dy = vf::rnd("dy", -1, 1); }
  std::vector<Candidate> c{{16, 37, 9, 16 + dx, 37 + dy}, {18, 38, 8, 18, 38}, {45, 37, 9, 45, 37}, {26, 43, 5, 26, 43}, {14, 14, 20, 14, 14}, {31, 32, 7, 31, 32}, {6, 44, 3, 6, 44}};
  offer(c, 0);
  auto m = r.message({clear}); r.klt->feed_new_camera(m); Points got = r.now(0); apart(got);
  bool edge = x < 10 || y >= H - 10; bool hidden = false; if (kind == 2 && x >= 40) hidden = true; bool taken = kind == 3 && x < 20 ? true : false; if (kind == 3) taken = true; // kind 3: both neighbouring cells hold a track
  vf::check("a track near the border, masked or on another one ends", (got.count(110) == 1) == (!edge && !hidden && !taken));
  for (int i = 0; i < 10; i++) vf::check("other tracks go on", got.count(100 + i) == 1 || (kind == 3 && got.count(110)));
  int found = 0; std::set<size_t> ids;
  for (auto &k : got) {
    ids.insert(k.first); if (k.first <= 1000) continue;
    int which = -1; for (size_t i = 0; i < c.size(); i++) if (h::same(k.second.first, c[i].rx) && h::same(k.second.second, c[i].ry)) which = (int)i;
    vf::check("a new point is one that was found", which >= 0); if (which < 0) return; found |= 1 << which;
  }
  vf::check("no new point in the mask", !(found & 4)); vf::check("no new point on a track", !(found & 16)); vf::check("no new point beside a track", !(found & 32) || kind != 4);
  vf::check("a free place is taken", (found & 8) && (found & 64)); vf::check("of two at one place one is taken", (found & 3) != 0); 
  if (kind != 4) vf::check("and the stronger one", (found & 3) == 1);
  for (int i = 0; i <= 10; i++) ids.insert(100 + i);
  r.recorded(0, got, ids, m.timestamp); vf::reach("end");
}
// from the first image on: identities of their own, kept while a point is followed
VF_CASE(history) {
  Rig r(1, false, 40); cv::Mat clear = h::grey(W[0], H); std::vector<Candidate> c; for (int i = 0; i < 14; i++) { int x = 12 + 6 * (i % 6), y = 12 + 6 * (i / 6); c.push_back({x, y, 50 - i, x + 0.25, y - 0.25}); }
  offer(c, 0);
  auto m1 = r.message({clear}); r.klt->feed_new_camera(m1); Points one = r.now(0); vf::check("all found", one.size() == c.size()); for (auto &k : one) vf::check("above the tags' identities", k.first > 40);
  if (one.size() != c.size()) return;
  cv::hooks().fast = nullptr; Points a = one, b; std::set<size_t> ids; for (auto &k : one) { ids.insert(k.first); double mx = vf::rnd("mx", -1, 1); r.world.flows.push_back({k.second.first, k.second.second, k.second.first + mx, k.second.second + 0.5, true, true}); b[k.first] = {k.second.first + mx, k.second.second + 0.5}; }
  r.world.unknown_stays = false;
  auto m2 = r.message({clear}); r.klt->feed_new_camera(m2); Points two = r.now(0); vf::check("all followed", two.size() == b.size());
  for (auto &k : b) { vf::check("same identity", two.count(k.first)); if (!two.count(k.first)) return; vf::check("same point", h::same(two[k.first].first, k.second.first) && h::same(two[k.first].second, k.second.second)); }
  r.recorded(0, b, ids, m2.timestamp);
  r.world.flows.clear(); size_t lost = one.begin()->first, odd = one.rbegin()->first; Points d;
  double ox = vf::input("ox", 1, 58), oy = 20.5; vf::assume(vf::le(20.25, ox)); vf::assume(vf::le(ox, 22.75));
  for (auto &k : b) { h::Flow f{k.second.first, k.second.second, k.second.first - 1, k.second.second, k.first != lost, true}; if (k.first == odd) { f.x1 = ox; f.y1 = oy; } r.world.flows.push_back(f); if (f.ok) d[k.first] = {f.x1, f.y1}; }
  cv::hooks().fast = [](cv::Rect b, std::vector<cv::KeyPoint> &k) { if (b.x == 0 && b.y > 0) k.push_back(h::key(3, 14)); };
  auto m3 = r.message({clear}); r.klt->feed_new_camera(m3); Points three = r.now(0);
  vf::check("followed from where the tracks were", r.world.strange <= 1);
  for (auto &k : d) { vf::check("same identity again", three.count(k.first)); if (three.count(k.first)) vf::check("same point again", h::same(three[k.first].first, k.second.first) && h::same(three[k.first].second, k.second.second)); }
  vf::check("what is lost stays lost", !three.count(lost)); for (auto &k : three) vf::check("others are new", d.count(k.first) || (k.first > odd && !ids.count(k.first)));
  for (auto &k : three) if (!d.count(k.first)) d[k.first] = k.second;
  r.recorded(0, d, ids, m3.timestamp); vf::reach("end");
}
// two cameras seeing the same points: an observation for each camera that has a good one, under one identity
VF_CASE(stereo) {
  int left = vf::choose("left", 7), right = vf::choose("right", 7); bool okl = vf::choose("left followed", 2), okr = vf::choose("right followed", 2);
  if (left < 6 && right < 6 && left != right) vf::assume(false); // one border at a time, or the same in both
  Rig r(2, true, 12); std::vector<cv::Mat> mask{h::grey(W[0], H), h::grey(W[1], H)}, old{h::grey(W[0], H), h::grey(W[1], H)}; h::paint(mask[0], 32, 28, 40, 38, 255); h::paint(mask[1], 32, 24, 40, 38, 255); h::paint(mask[1], 2, 2, 6, 6, 255);
  auto p = grid(12, 100), q = grid(12, 104, 0.25); r.last(0, p, old[0]); r.last(1, q, old[1]); // 104..111 in both
  std::set<size_t> ids; Points want[2]; std::map<size_t, bool> other_bad; bool in[2][20]; 
  for (int c = 0; c < 2; c++) for (int i = 0; i < 12; i++) {
    auto &k = c ? q[i] : p[i]; h::Flow f{k.second.first, k.second.second, k.second.first + 1 + c, k.second.second + 0.5, true, true};
    if (k.first == 106) { int kind = c ? right : left; if (kind < 6) { auto to = around(c ? "right" : "left", c, kind); f.x1 = to.first; f.y1 = to.second; } f.ok = c ? okr : okl; }
    if (k.first == (size_t)(c ? 113 : 101)) f.inlier = false; if (k.first == (size_t)(c ? 108 : 109)) f.ok = false;
    r.world.flows.push_back(f); ids.insert(k.first); bool inside = in_image(c, f.x1, f.y1); in[c][k.first - 100] = inside;
    if (f.ok && f.inlier && inside) if (!masked(mask[c], f.x1, f.y1)) want[c][k.first] = {f.x1, f.y1};
    if (f.ok && f.inlier && !inside) other_bad[k.first] = true;
  }
  r.world.unknown_stays = false;
  auto m = r.message(mask); r.klt->feed_new_camera(m);
  vf::check("followed from where the tracks were", r.world.strange == 0); vf::check("outliers sought on the undistorted points", r.world.not_normalised == 0);
  for (int c = 0; c < 2; c++) {
    Points got = r.now(c);
    for (auto &g : got) { vf::check("only good observations", want[c].count(g.first)); if (want[c].count(g.first)) vf::check("where it was found", h::same(g.second.first, want[c][g.first].first) && h::same(g.second.second, want[c][g.first].second)); }
    for (auto &w : want[c]) if (!other_bad.count(w.first)) vf::check("every good one", got.count(w.first)); // a point that left the other image may be given up in both
    r.recorded(c, got, ids, m.timestamp);
  }
  vf::check("one track of both cameras", r.klt->get_feature_database()->size() == 16);
  if (want[0].count(106) && want[1].count(106)) vf::reach("in both"); if (want[0].count(106) && !want[1].count(106)) vf::reach("left only"); if (!want[0].count(106) && want[1].count(106)) vf::reach("right only"); if (!want[0].count(106) && !want[1].count(106)) vf::reach("in none");
}
// first pair of images: points of the left found in the right get one identity; each camera's own mask counts
VF_CASE(stereo_new) {
  int kind = vf::choose("where", 5); bool ok = vf::choose("found", 2), hide = vf::choose("masked camera", 2);
  Rig r(2, true, 40); std::vector<cv::Mat> mask{h::grey(W[0], H), h::grey(W[1], H)}; h::paint(mask[hide], 42, 10, 56, 40, 255);
  std::vector<Candidate> cl, cr; // left grid cells are 20 wide, right ones 21
  for (int i = 0; i < 4; i++) cl.push_back({12 + 6 * i, 14, 9 - i, 12.25 + 6 * i, 14.25});
  cl.push_back({46, 20, 5, 46, 20}); cr.push_back({47, 20, 5, 47, 20}); cr.push_back({20, 34, 5, 20, 34}); cr.push_back({12, 15, 5, 12, 15});
  cv::hooks().fast = [&](cv::Rect b, std::vector<cv::KeyPoint> &k) { for (auto &q : b.width == 20 ? cl : cr) if (q.x >= b.x && q.y >= b.y && q.x < b.x + b.width && q.y < b.y + b.height) k.push_back(h::key(q.x - b.x, q.y - b.y, q.response)); };
  cv::hooks().refine = [&](std::vector<cv::Point2f> &p) { for (auto &v : p) for (auto *c : {&cl, &cr}) for (auto &q : *c) if (h::same(v.x, q.x) && h::same(v.y, q.y)) { v.x = q.rx; v.y = q.ry; } };
  double dx = vf::input("dx", -1.5, 1.5), tx = 26.5 + dx, ty = 30.5;
  if (kind == 1) tx = dx; if (kind == 2) tx = W[1] + dx; if (kind == 3) { tx = 22.5; ty = H + dx; } if (kind == 4) { tx = 11.5 + dx; }
  for (int i = 0; i < 4; i++) { h::Flow f{12.25 + 6 * i, 14.25, 14.5 + 6 * i, 14.5, true, true}; if (i == 1) { f.x1 = tx; f.y1 = ty; f.ok = ok; } if (i == 3) f.ok = false; r.world.flows.push_back(f); }
  r.world.flows.push_back({46, 20, 48.5, 26.5, false, true});
  auto m = r.message(mask); r.klt->feed_new_camera(m); Points L = r.now(0), R = r.now(1);
  auto id = [&](Points &p, double x, double y) { for (auto &k : p) if (h::same(k.second.first, x) && h::same(k.second.second, y)) return (long)k.first; return -1L; };
  for (int i = 0; i < 4; i++) vf::check("left points", id(L, 12.25 + 6 * i, 14.25) > 40);
  long a = id(L, 12.25, 14.25), b = id(L, 18.25, 14.25), d = id(L, 30.25, 14.25);
  vf::check("found in both: one identity", id(R, 14.5, 14.5) == a); vf::check("not found: left only", !R.count(d));
  bool inside = tx >= 10 && ty >= 10 && tx < W[1] - 10 && ty < H - 10, out = !in_image(1, tx, ty);
  if (ok && inside) { vf::check("in the right image", id(R, tx, ty) == b); vf::reach("both"); } if (!ok || out) { vf::check("not in the right image", !R.count(b)); vf::reach("left only"); }
  vf::check("left mask counts on the left", (id(L, 46, 20) > 40) == (hide == 1)); vf::check("right mask counts on the right", (id(R, 47, 20) > 40) == (hide == 0));
  vf::check("right points of its own", id(R, 20, 34) > 40 && !L.count(id(R, 20, 34))); 
  for (auto &k : R) vf::check("right points are those found", L.count(k.first) ? k.first != (size_t)d : id(R, 20, 34) == (long)k.first || id(R, 47, 20) == (long)k.first || id(R, 12, 15) == (long)k.first);
  std::set<size_t> all; for (auto &k : L) all.insert(k.first); for (auto &k : R) all.insert(k.first); vf::check("identities are used once", r.klt->currid >= *all.rbegin());
  vf::check("nothing recorded before it is followed", r.klt->get_feature_database()->size() == 0);
}
// two cameras: in each, tracks and new points are apart, away from the border and outside its own mask; a point seen by both may lie near another
VF_CASE(stereo_points) {
  int side = vf::choose("special track of", 2), kind = vf::choose("what", 4); bool both = vf::choose("also in the other", 2);
  Rig r(2, true, 40); std::vector<cv::Mat> mask{h::grey(W[0], H), h::grey(W[1], H)}, clear{h::grey(W[0], H), h::grey(W[1], H)};
  h::paint(mask[0], 40, 26, 60, 48, 255); h::paint(mask[1], 44, 26, 64, 48, 255);
  auto p = grid(10, 100), q = grid(10, 104, 0.25); double x = 30.5, y = 30.5; // 104..109 in both
  if (kind == 0) x = vf::input("x", 8.5, 11.5); if (kind == 1) y = 38 + vf::input("y", -1.5, 1.5); if (kind == 2) x = (side ? 44 : 40) + vf::input("x", -1.5, 1.5); if (kind == 3) { x = 20 + vf::input("x", -1.5, 1.5); y = 12.625; }
  (side ? q : p).push_back({120, {x, y}}); if (both) (side ? p : q).push_back({120, {30.5, 30.5}});
  r.last(0, p, mask[0]); r.last(1, q, mask[1]);
  struct P { double x, y, response; bool want; };
  std::vector<P> c[2] = {{{16, 37, 9, true}, {18, 38, 8, false}, {45, 37, 9, false}, {26, 43, 5, true}, {14, 14, 20, false}, {6, 44, 3, true}, {31, 32, 7, false}},
                         {{24, 43, 5, true}, {56, 30, 9, false}, {22, 36, 8, false}, {33, 14, 9, false}, {40, 44, 6, false}, {41, 43, 7, true}, {31, 32, 7, false}, {6, 44, 3, true}}};
  cv::hooks().fast = [&](cv::Rect b, std::vector<cv::KeyPoint> &k) { for (auto &v : c[b.width == 20 ? 0 : 1]) if (v.x >= b.x && v.y >= b.y && v.x < b.x + b.width && v.y < b.y + b.height) k.push_back(h::key(v.x - b.x, v.y - b.y, (int)v.response)); };
  cv::hooks().flow = [](const std::vector<cv::Point2f> &a, std::vector<cv::Point2f> &b, std::vector<uchar> &ok) { // new points to the other camera; or tracks to the next image, where nothing moves
    bool tracks = false; for (auto &v : a) if (h::same(v.y, 12.5)) tracks = true;
    for (size_t i = 0; i < a.size(); i++) { b[i] = a[i]; ok[i] = 1; if (tracks) continue; ok[i] = h::same(a[i].x, 16); if (ok[i]) { b[i].x = 18.5; b[i].y = 36.5; } }
  };
  auto m = r.message(clear); r.klt->feed_new_camera(m);
  Points got[2] = {r.now(0), r.now(1)}; std::set<size_t> ids; for (int i = 0; i < 14; i++) ids.insert(100 + i); ids.insert(120);
  bool edge = x < 10 || y >= H - 10, hidden = false; if (kind == 2 && x >= (side ? 44 : 40)) hidden = true; bool taken = kind == 3 && !(side && both);
  vf::check("a track near the border, masked or on another one ends", (got[side].count(120) == 1) == (!edge && !hidden && !taken));
  if (both) vf::check("it goes on in the other image", got[1 - side].count(120) == 1); else vf::check("it is not in the other image", !got[1 - side].count(120));
  for (int i = 0; i < 14; i++) vf::check("other tracks go on", (i > 9 || got[0].count(100 + i) == 1) && (i < 4 || got[1].count(100 + i) == 1));
  bool near[2] = {side == 1 && both, side == 0 && both}; long A = -1;
  for (int s = 0; s < 2; s++) {
    std::vector<int> hit(c[s].size(), 0); int extra = 0;
    for (auto &k : got[s]) {
      ids.insert(k.first); if (k.first <= 1000) continue; bool known = false;
      for (size_t i = 0; i < c[s].size(); i++) if (h::same(k.second.first, c[s][i].x) && h::same(k.second.second, c[s][i].y)) { hit[i]++; known = true; if (s == 0 && i == 0) A = (long)k.first; }
      bool pair = s == 1 && h::same(k.second.first, 18.5) && h::same(k.second.second, 36.5); if (pair) { extra++; vf::check("a new point found in both has one identity", (long)k.first == A); }
      else if (s == 1) vf::check("a point not found in the other image is not in it", !got[0].count(k.first));
      vf::check("a new point is one that was found", known || pair);
    }
    for (size_t i = 0; i < c[s].size(); i++) if (!(c[s][i].x == 31)) vf::check("new points are those at free places, the stronger of two, not masked", hit[i] == (c[s][i].want ? 1 : 0)); else if (near[s] && got[s].count(120)) vf::check("no new point beside a track", hit[i] == 0);
    if (s == 1) vf::check("the new point is seen by both", extra == 1);
  }
  apart(got[0]);
  for (int s = 0; s < 2; s++) r.recorded(s, got[s], ids, m.timestamp);
  vf::reach("end");
}
// simulated tracks: recorded under their identity above the tags', at their place
VF_CASE(simulated) {
  std::unordered_map<size_t, std::shared_ptr<CamBase>> cams; for (int i = 0; i < 2; i++) cams[i] = h::pinhole(W[i], H, i);
  int tags = vf::choose("tags", 3); TrackSIM s(cams, tags); double t = vf::input("t", 1, 2);
  std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> f(2); Points want[2];
  for (int c = 0; c < 2; c++) for (int i = 0; i < 2; i++) { Eigen::VectorXf v(2); double x = vf::input("x" + std::to_string(c) + std::to_string(i), 0, 60), y = vf::input("y" + std::to_string(c) + std::to_string(i), 0, 48); v << x, y; f[c].push_back({(size_t)(i + c), v}); want[c][i + c] = {x, y}; }
  bool swapped = vf::choose("order", 2); if (swapped) s.feed_measurement_simulation(t, {1, 0}, {f[1], f[0]}); else s.feed_measurement_simulation(t, {0, 1}, f);
  auto ids = s.get_last_ids(); auto pts = s.get_last_obs(); std::set<size_t> all;
  for (int c = 0; c < 2; c++) {
    vf::check("each once", ids[c].size() == 2 && pts[c].size() == 2); if (ids[c].size() != 2) return;
    for (int i = 0; i < 2; i++) {
      size_t id = ids[c][i]; all.insert(id); auto ft = s.get_feature_database()->get_feature(id); vf::check("above the tags", id > (size_t)4 * tags); vf::check("recorded", ft != nullptr && ft->uvs[c].size() == 1); if (ft == nullptr || ft->uvs[c].size() != 1) return;
      long off = (long)id - 4 * tags - 1; vf::check("identity", want[c].count(off)); if (!want[c].count(off)) return; auto w = want[c][off]; auto k = cams[c]->get_value();
      Eigen::MatrixXd a(7, 1), b(7, 1); a << pts[c][i].pt.x, pts[c][i].pt.y, ft->uvs[c][0](0), ft->uvs[c][0](1), ft->uvs_norm[c][0](0), ft->uvs_norm[c][0](1), ft->timestamps[c][0]; b << w.first, w.second, w.first, w.second, (w.first - k(2)) / k(0), (w.second - k(3)) / k(1), t;
      vf::check_near("observation", a, b, 1e-3);
    }
  }
  vf::check("shared points are one track", all.size() == 3 && s.get_feature_database()->size() == 3);
  size_t from = *all.begin(); s.change_feat_id(from, 900); auto d = s.get_feature_database(); auto n = s.get_last_ids(); int now = 0, then = 0; for (auto &c : n) for (size_t k : c.second) { now += k == 900; then += k == from; }
  vf::check("identity changed in the last image", then == 0 && now == 1); vf::check("the track has the new identity only", d->get_feature(from) == nullptr && d->get_feature(900) != nullptr && d->get_feature(900)->featid == 900); vf::reach("end");
}
