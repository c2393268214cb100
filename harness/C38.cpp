// Tags and described points: their identities and what is recorded of them
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/track/TrackAruco.cpp ov_core/src/track/TrackDescriptor.cpp ov_core/src/track/TrackBase.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp
// VF-DEFS: -DENABLE_ARUCO_TAGS=1
// VF-BUDGET: 60 300
// VF-BOUNDS: up to three tags with numbers around zero and the number of tags, one corner anywhere in the image or around a mask's border, full or half size; two or three images of up to fifteen described points in one camera or two of different size, of which two points' likenesses and one place are symbolic
// VF-OUTSIDE: what OpenCV finds in images (tags, corners, descriptors' distances and outliers are given by the harness); likenesses that are all zero; concurrent schedules
#include "tracker_common.h"
#include "track/TrackAruco.h"
#include "track/TrackDescriptor.h"
typedef std::map<size_t, std::pair<double, double>> Points;
static const int W[2] = {60, 68}, H = 48;
typedef std::unordered_map<size_t, std::shared_ptr<CamBase>> Cams;
static Cams cameras(int n) { Cams c; for (int i = 0; i < n; i++) c[i] = h::pinhole(W[i], H, i); return c; }
// images carry a number in their first pixel
static CameraData message(double t, int n, int first, std::vector<cv::Mat> masks) {
  CameraData m; m.timestamp = t; for (int i = 0; i < n; i++) { m.sensor_ids.push_back(i); cv::Mat im = h::grey(W[i], H); im.at<uint8_t>(0, 0) = (uint8_t)(first + i); m.images.push_back(im); m.masks.push_back(masks[i]); }
  return m;
}
static Points now(TrackBase &t, int cam) {
  Points r; auto ids = t.get_last_ids(); auto pts = t.get_last_obs(); vf::check("a place for each identity", ids[cam].size() == pts[cam].size()); if (ids[cam].size() != pts[cam].size()) return r;
  for (size_t i = 0; i < ids[cam].size(); i++) r[ids[cam][i]] = {pts[cam][i].pt.x, pts[cam][i].pt.y};
  vf::check("each identity once", r.size() == ids[cam].size()); return r;
}
// recorded of an identity in this camera and image: exactly this place
static void recorded(TrackBase &t, Cams &cams, int cam, size_t id, double time, bool wanted, const double &x, const double &y) {
  auto f = t.get_feature_database()->get_feature(id); int k = 0, at = -1; if (f != nullptr) for (size_t i = 0; i < f->timestamps[cam].size(); i++) if (f->timestamps[cam][i] == time) { k++; at = (int)i; }
  vf::check("recorded once if seen, otherwise not", k == (wanted ? 1 : 0)); if (k != 1 || !wanted) return;
  Eigen::MatrixXd v(4, 1), w(4, 1); auto c = cams[cam]->get_value(); v << f->uvs[cam][at](0), f->uvs[cam][at](1), f->uvs_norm[cam][at](0), f->uvs_norm[cam][at](1); w << x, y, (x - c(2)) / c(0), (y - c(3)) / c(1);
  vf::check_near("at its place, undistorted by its camera", v, w, 1e-3);
}
static void clear_hooks() { cv::hooks() = cv::Hooks(); }
// each corner of each tag below the number of tags has one identity of its own, below four times that number, the same in every image and camera
VF_CASE(tags) {
  clear_hooks(); const int N = 10; int a = vf::choose("first", 4), b = vf::choose("second", 4); const int no[4] = {0, 9, 10, 4}; int half = vf::choose("half size", 2); int where = vf::choose("where", 5);
  int ids[3] = {no[a], no[b], 7}; if (ids[0] == ids[1]) vf::assume(false);
  auto cams = cameras(2); TrackAruco t(cams, N, false, TrackBase::HistogramMethod::NONE, half); std::vector<cv::Mat> mask{h::grey(W[0], H), h::grey(W[1], H)}; h::paint(mask[0], 20, 12, 40, 30, 255); h::paint(mask[1], 4, 4, 8, 8, 128);
  double s = half ? 2 : 1; double px = 14.5, py = 20.5; // the first tag's first corner in the full image
  if (where == 0) px = 20 + vf::input("x", -1.5, 1.5); if (where == 1) px = 40 + vf::input("x", -1.5, 1.5); if (where == 2) { px = 24.5; py = 12 + vf::input("y", -1.5, 1.5); } if (where == 3) { px = 24.5; py = 30 + vf::input("y", -1.5, 1.5); }
  if (where == 4) { px = 2.5; py = vf::input("y", 0, 2); }
  auto at = [&](int cam, int tag, int n, double &x, double &y) { x = (tag == 0 && n == 0 && cam == 0) ? px : double(42 + 6 * tag % 12 + (n % 2) * 2 + cam); y = (tag == 0 && n == 0 && cam == 0) ? py : double(5 + 8 * tag + (n / 2) * 2); };
  int size[2] = {0, 0};
  cv::hooks().tags = [&](int im, cv::Size z, std::vector<int> &id, std::vector<std::vector<cv::Point2f>> &c, std::vector<std::vector<cv::Point2f>> &) {
    int cam = (im - 1) % 2; size[cam] = z.width; 
    for (int k = 0; k < 3; k++) { int tag = cam ? 2 - k : k; id.push_back(ids[tag]); std::vector<cv::Point2f> p(4); for (int n = 0; n < 4; n++) { double x, y; at(cam, tag, n, x, y); p[n].x = x / s; p[n].y = y / s; } c.push_back(p); }
  };
  std::map<size_t, std::pair<int, int>> owner;
  for (int k = 0; k < 2; k++) {
    auto m = message(1 + k, 2, 1 + 2 * k, mask); t.feed_new_camera(m);
    for (int cam = 0; cam < 2; cam++) {
      vf::check("searched at the asked size", size[cam] == W[cam] / (half ? 2 : 1));
      Points got = now(t, cam); size_t want = 0;
      for (int tag = 0; tag < 3; tag++) for (int n = 0; n < 4; n++) {
        double x, y; at(cam, tag, n, x, y); bool hidden = mask[cam].at<uint8_t>((int)y, (int)x) > 127;
        size_t who = (size_t)-1; for (auto &g : got) if (h::same(g.second.first, x) && h::same(g.second.second, y)) who = g.first;
        bool wanted = ids[tag] < N && !hidden; if (wanted) want++;
        vf::check("a corner is tracked unless its tag is beyond the number or it is masked", (who != (size_t)-1) == wanted); if (who == (size_t)-1) continue;
        vf::check("identities of tags lie below", who < (size_t)4 * N);
        if (!owner.count(who)) owner[who] = {ids[tag], n};
        vf::check("one identity for one corner", owner[who].first == ids[tag] && owner[who].second == n);
        for (auto &o : owner) if (o.second == std::make_pair(ids[tag], n)) vf::check("one corner, one identity", o.first == who);
        recorded(t, cams, cam, who, m.timestamp, true, x, y);
        vf::check("the first corner has its tag's number", n != 0 || who == (size_t)ids[tag]);
      }
      vf::check("nothing else", got.size() == want);
    }
  }
  size_t total = 0; for (auto &f : t.get_feature_database()->get_internal_data()) { total++; vf::check("only corners are recorded", owner.count(f.first) == 1); }
  vf::check("all corners are recorded", total == owner.size()); vf::reach("end"); clear_hooks();
}
// --- described points: the label of a point in an image is what its descriptor says
struct Scene {
  struct Seen { int label; double x, y; int response; }; // whole pixels; found in the corner detector's answer there
  std::map<int, std::vector<Seen>> images; std::map<std::pair<int, int>, double> likeness; std::map<std::pair<int, int>, std::pair<double, double>> refined; std::atomic<int> strange{0};
  Cams cams; std::pair<int, int> outlier{-1, -1}; 
  double distance(int a, int b) { auto k = likeness.find({std::min(a, b), std::max(a, b)}); if (k != likeness.end()) return k->second; return a == b || (a % 50) == (b % 50) ? 10 : 60; }
  void install() {
    clear_hooks();
    cv::hooks().fast_in = [this](int im, cv::Rect b, std::vector<cv::KeyPoint> &k) { for (auto &s : images[im]) if ((int)s.x >= b.x && (int)s.x < b.x + b.width && (int)s.y >= b.y && (int)s.y < b.y + b.height) k.push_back(h::key((int)s.x - b.x, (int)s.y - b.y, s.response)); };
    cv::hooks().refine = [this](std::vector<cv::Point2f> &p) { for (auto &q : p) for (auto &r : refined) if (q.x == r.first.first && q.y == r.first.second) { q.x = r.second.first; q.y = r.second.second; break; } };
    cv::hooks().describe = [this](int im, const cv::KeyPoint &k) { for (auto &s : images[im]) { double x = s.x, y = s.y; auto r = refined.find({(int)s.x, (int)s.y}); if (r != refined.end()) { x = r->second.first; y = r->second.second; } if (h::same(k.pt.x, x) && h::same(k.pt.y, y)) return (uchar)s.label; } strange++; return (uchar)0; };
    cv::hooks().distance = [this](uchar a, uchar b) { return distance(a, b); };
    cv::hooks().inliers = [this](const std::vector<cv::Point2f> &p, const std::vector<cv::Point2f> &q, double, std::vector<uchar> &in) {
      for (size_t i = 0; i < p.size(); i++) { in[i] = 1; auto has = [&](const cv::Point2f &z, int x, int y) { for (auto &c : cams) { auto v = c.second->get_value(); if (h::same(z.x * v(0) + v(2), x) && h::same(z.y * v(1) + v(3), y)) return true; } return false; };
        if (outlier.first >= 0 && (has(q[i], outlier.first, outlier.second) || has(p[i], outlier.first, outlier.second))) in[i] = 0; }
    };
  }
};
// which of the last points a new one is: the best likeness on either side, distinctly better than the second, and no outlier
static std::vector<int> same_point(Scene &s, const std::vector<int> &old_l, const std::vector<int> &new_l, const std::set<int> &out, double ratio) {
  auto best = [&](int l, const std::vector<int> &o) { int b = -1, c = -1; for (int i = 0; i < (int)o.size(); i++) { double d = s.distance(l, o[i]); if (b < 0 || d < s.distance(l, o[b])) { c = b; b = i; } else if (c < 0 || d < s.distance(l, o[c])) c = i; } if (b < 0 || c < 0) return -1; if (s.distance(l, o[b]) > ratio * s.distance(l, o[c])) return -1; return b; };
  std::vector<int> r(new_l.size(), -1); int n = 0;
  for (int i = 0; i < (int)new_l.size(); i++) { int b = best(new_l[i], old_l); if (b >= 0 && best(old_l[b], new_l) == i) { r[i] = b; n++; } }
  for (int i = 0; i < (int)new_l.size(); i++) if (n < 10 || out.count(i)) r[i] = -1;
  return r;
}
VF_CASE(described) {
  vf::set_limits(4000, 3000, 1000); int kind = vf::choose("kind", 6); int count = kind == 5 ? 9 : 12;
  Scene s; s.cams = cameras(1); TrackDescriptor t(s.cams, 60, 10, false, TrackBase::HistogramMethod::NONE, 10, 3, 2, 5, 0.75); cv::Mat mask = h::grey(W[0], H); h::paint(mask, 44, 26, 60, 48, 255); std::vector<cv::Mat> masks{mask};
  std::vector<int> old_l, new_l; std::vector<Scene::Seen> one, two;
  for (int i = 0; i < count; i++) { Scene::Seen p{100 + i, double(6 + 5 * (i % 6)), double(6 + 5 * (i / 6)), 20}; one.push_back(p); old_l.push_back(100 + i); p.x += 2; p.y += 1; p.label = 150 + i; two.push_back(p); new_l.push_back(150 + i); }
  s.images[1] = one; s.install();
  if (kind == 0) { s.likeness[{103, 153}] = vf::input("own", 2, 80); s.likeness[{103, 154}] = vf::input("other", 2, 80); }
  if (kind == 1) { s.likeness[{103, 153}] = vf::input("own", 2, 80); s.likeness[{104, 153}] = vf::input("other", 2, 80); }
  if (kind == 2) { s.outlier = {(int)two[5].x, (int)two[5].y}; two.erase(two.begin() + 7); new_l.erase(new_l.begin() + 7); }
  if (kind == 3) { two.push_back({190, 46, 30, 30}); two.push_back({191, 40, 40, 30}); new_l.push_back(191); two.push_back({192, 41, 42, 10}); } // in the mask; new; beside it
  double dx = 0, dy = 0; if (kind == 4) { dx = vf::input("dx", -1.5, 1.5); dy = vf::rnd("dy", -1, 1); two.push_back({191, 52, 8, 30}); s.refined[{52, 8}] = {52 + dx, 8 + dy}; new_l.push_back(191); }
  auto m1 = message(1, 1, 1, masks); t.feed_new_camera(m1); Points a = now(t, 0); vf::check("all are found", (int)a.size() == count); size_t top = 40;
  std::map<int, size_t> id_of; for (auto &k : a) { vf::check("above the tags' identities", k.first > 40); top = std::max(top, k.first); for (auto &p : one) if (h::same(p.x, k.second.first) && h::same(p.y, k.second.second)) id_of[p.label] = k.first; }
  vf::check("where they are", (int)id_of.size() == count); if ((int)id_of.size() != count) return;
  s.images[2] = two; auto m2 = message(2, 1, 2, masks); t.feed_new_camera(m2); Points b = now(t, 0); vf::check("described where they are", s.strange == 0);
  std::set<int> out; if (kind == 2) out.insert(5); auto same = same_point(s, old_l, new_l, out, 0.75);
  vf::check("exactly the points found outside the mask, apart from each other", b.size() == new_l.size()); std::set<size_t> seen;
  for (size_t i = 0; i < new_l.size(); i++) {
    double x = 0, y = 0; for (auto &p : two) if (p.label == new_l[i]) { x = p.x; y = p.y; } if (new_l[i] == 191 && kind == 4) { x += dx; y += dy; }
    size_t who = 0; for (auto &k : b) if (h::same(k.second.first, x) && h::same(k.second.second, y)) who = k.first; vf::check("a point found is tracked", who != 0); if (!who) continue; seen.insert(who);
    if (same[i] >= 0) vf::check("the same point keeps its identity", who == id_of[old_l[same[i]]]); else vf::check("another point has a new one", who > top);
    recorded(t, s.cams, 0, who, 2, true, x, y);
  }
  for (auto &k : id_of) if (!seen.count(k.second)) recorded(t, s.cams, 0, k.second, 2, false, 0, 0);
  vf::reach("end"); clear_hooks();
}
// two cameras: pairs matched between the images share an identity, which goes on only if both sides are the same points
VF_CASE(described_stereo) {
  vf::set_limits(4000, 3000, 1000); int kind = vf::choose("kind", 8); const int count = 12;
  Scene s; s.cams = cameras(2); TrackDescriptor t(s.cams, 60, 10, true, TrackBase::HistogramMethod::NONE, 10, 3, 2, 5, 0.75); std::vector<cv::Mat> masks{h::grey(W[0], H), h::grey(W[1], H)};
  // labels: 50 left old, 100 right old, 150 left new, 200 right new, each plus the point's number
  std::vector<int> ol, orr, nl, nr; auto place = [&](int i, int cam, int time) { return Scene::Seen{50 + 50 * cam + 100 * time + i, double(8 + 5 * (i % 6) + 2 * time - 3 * cam), double(7 + 5 * (i / 6) + time), 20}; };
  for (int i = 0; i < count; i++) for (int c = 0; c < 2; c++) for (int k = 0; k < 3; k++) { auto v = place(i, c, k); if (k == 2) v.label -= 200; s.images[1 + 2 * k + c].push_back(v); }
  if (kind == 0) s.likeness[{153, 203}] = vf::input("across", 2, 80);
  if (kind == 1) s.likeness[{53, 153}] = vf::input("left", 2, 80);
  if (kind == 2) s.likeness[{103, 203}] = vf::input("right", 2, 80);
  if (kind == 3) { double o = vf::input("own", 2, 80); s.likeness[{104, 203}] = o; s.likeness[{103, 203}] = 30; s.likeness[{103, 204}] = 12; s.likeness[{104, 204}] = 70; } // the right points look exchanged
  if (kind == 4) { s.images[4].erase(s.images[4].begin() + 3); s.outlier = {(int)place(6, 0, 1).x, (int)place(6, 0, 1).y}; }
  if (kind == 5) { s.images[1].push_back({50 + 40, 40, 40, 30}); s.images[2].push_back({100 + 40, 61, 40, 30}); }
  double edge = 1; if (kind >= 6) { // found in the right image at its left or upper border
    edge = vf::input("edge", -1.5, 1.5); s.images[1].push_back({50 + 40, 40, 40, 30}); if (edge > -1 && edge < 0) vf::assume(false); // less than a pixel outside: either way
    double px = kind == 6 ? 1 : 30, py = kind == 6 ? 40 : 1, qx = 30, qy = 40; if (kind == 6) qx = edge; else qy = edge;
    s.images[2].push_back({100 + 40, px, py, 30}); s.refined[{kind == 6 ? 1 : 30, kind == 6 ? 40 : 1}] = {qx, qy};
  }
  s.install();
  auto pairs = [&](int im, std::vector<std::pair<int, int>> &r) { // what is found left and right of one scene
    std::vector<int> l, q; for (auto &p : s.images[im]) l.push_back(p.label); for (auto &p : s.images[im + 1]) if (p.label != 140 || edge >= 0) q.push_back(p.label); std::set<int> out; if (s.outlier.first >= 0) for (size_t i = 0; i < q.size(); i++) if (im == 3 && q[i] % 50 == 6) out.insert((int)i);
    auto m = same_point(s, l, q, out, 0.75); for (size_t i = 0; i < q.size(); i++) if (m[i] >= 0) r.push_back({l[m[i]], q[i]});
  };
  auto at = [&](int im, int label, double &x, double &y) { for (auto &p : s.images[im]) if (p.label == label) { x = p.x; y = p.y; auto r = s.refined.find({(int)p.x, (int)p.y}); if (r != s.refined.end()) { x = r->second.first; y = r->second.second; } } };
  std::vector<std::pair<int, int>> found[3]; for (int k = 0; k < 3; k++) pairs(1 + 2 * k, found[k]); std::vector<size_t> before; size_t top = 40;
  for (int k = 0; k < 3; k++) {
    auto m = message(1 + k, 2, 1 + 2 * k, masks); t.feed_new_camera(m); Points got[2] = {now(t, 0), now(t, 1)}; auto &P = found[k]; size_t next = top; std::vector<size_t> ids;
    vf::check("exactly the pairs found", got[0].size() == P.size() && got[1].size() == P.size());
    std::vector<int> l0, r0, l1, r1; if (k) for (auto &p : found[k - 1]) { l0.push_back(p.first); r0.push_back(p.second); } for (auto &p : P) { l1.push_back(p.first); r1.push_back(p.second); }
    std::vector<int> sl, sr; if (k) { std::set<int> ol_, or_; if (s.outlier.first >= 0) for (size_t i = 0; i < l1.size(); i++) if (l1[i] % 50 == 6) ol_.insert((int)i); sl = same_point(s, l0, l1, ol_, 0.75); sr = same_point(s, r0, r1, or_, 0.75); }
    for (size_t i = 0; i < P.size(); i++) {
      double x[2] = {0, 0}, y[2] = {0, 0}; at(1 + 2 * k, P[i].first, x[0], y[0]); at(2 + 2 * k, P[i].second, x[1], y[1]); size_t who[2] = {0, 0};
      for (int c = 0; c < 2; c++) for (auto &g : got[c]) if (h::same(g.second.first, x[c]) && h::same(g.second.second, y[c])) who[c] = g.first;
      vf::check("both sides have one identity", who[0] && who[0] == who[1]); ids.push_back(who[0]); if (!who[0]) continue;
      bool on = k && sl[i] >= 0 && sr[i] >= 0 && sl[i] == sr[i];
      if (on) vf::check("the same pair keeps its identity", who[0] == before[sl[i]]); else vf::check("another pair has a new one", who[0] > top);
      next = std::max(next, who[0]);
      if (k) for (int c = 0; c < 2; c++) recorded(t, s.cams, c, who[0], m.timestamp, true, x[c], y[c]);
    }
    top = next; before = ids;
  }
  vf::check("described where they are", s.strange == 0); vf::reach("end"); clear_hooks();
}
