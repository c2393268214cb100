// Disparity statistics of feature tracks
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: up to three features in up to two cameras with up to three observations each, every pixel position, every increasing observation time and every query time
// VF-OUTSIDE: rounding; more observations
#include "vf.h"
#include "feat/FeatureHelper.h"
using namespace ov_core;
struct Track { size_t id, cam; std::vector<double> t, u, v; };
static std::vector<Track> scene(std::shared_ptr<FeatureDatabase> db, const std::vector<int> &counts, double same_start) {
  static const size_t who[4][2] = {{4, 0}, {4, 1}, {9, 1}, {2, 0}};
  std::vector<Track> r;
  for (size_t g = 0; g < counts.size(); g++) {
    Track k; k.id = who[g][0]; k.cam = who[g][1];
    double t = same_start >= 0 ? same_start : double(vf::input("t" + std::to_string(g), 0, 10));
    for (int i = 0; i < counts[g]; i++) {
      std::string n = std::to_string(g) + std::to_string(i);
      if (i) t = t + (same_start >= 0 ? double(1.0) : double(vf::input("dt" + n, 1e-3, 10)));
      k.t.push_back(t); k.u.push_back(vf::input("u" + n, 0, 1000)); k.v.push_back(vf::input("v" + n, 0, 1000));
      db->update_feature(k.id, t, k.cam, (float)k.u.back(), (float)k.v.back(), 0, 0);
    }
    r.push_back(k);
  }
  return r;
}
static void judge(const std::vector<double> &d, double mean, double var, int n) {
  if (d.size() < 2) {
    vf::check("too few: no features reported", n == 0);
    vf::check_eq("too few: mean is -1", mean, -1.0); vf::check_eq("too few: deviation is -1", var, -1.0);
    return;
  }
  vf::check("number of features", n == (int)d.size());
  double m = 0, s = 0, k = (double)(int)d.size();
  for (double x : d) m = m + x;
  m = m / k;
  for (double x : d) s = s + (x - m) * (x - m);
  vf::check_near("mean disparity", mean, m, 1e-3);
  vf::check_near("squared deviation", var * var, s / (k - 1), 1e-1);
  vf::check("deviation is not negative", vf::le(0.0, var));
}
static double dist(const Track &k, int i, int j) { double a = k.u[j] - k.u[i], b = k.v[j] - k.v[i]; return sqrt(a * a + b * b); }
VF_CASE(two_frames) {
  auto db = std::make_shared<FeatureDatabase>();
  static const int cs[5][4] = {{2, 2, 2, 0}, {2, 0, 1, 0}, {3, 1, 2, 2}, {0, 2, 0, 3}, {1, 0, 0, 1}};
  int sh = vf::choose("shape", 5);
  auto tr = scene(db, {cs[sh][0], cs[sh][1], cs[sh][2], cs[sh][3]}, 5.0);
  int a = vf::choose("from", 3), b = vf::choose("to", 3);
  double t0 = 5.0 + a, t1 = 5.0 + b;
  if (a == b) return;
  double m, v; int n;
  FeatureHelper::compute_disparity(db, t0, t1, m, v, n);
  std::vector<double> d;
  for (auto &k : tr) if ((int)k.t.size() > std::max(a, b)) d.push_back(dist(k, a, b));
  judge(d, m, v, n);
  vf::reach("end");
}
static void tracks(bool lower, bool upper) {
  auto db = std::make_shared<FeatureDatabase>();
  static const int cs[4][3] = {{2, 2, 0}, {3, 0, 2}, {2, 1, 3}, {0, 1, 2}};
  int sh = vf::choose("shape", 4);
  auto tr = scene(db, {cs[sh][0], cs[sh][1], cs[sh][2]}, -1);
  double lo = lower ? double(vf::input("newer than", 0, 20)) : double(-1), hi = upper ? double(vf::input("older than", 0, 20)) : double(-1);
  double m, v; int n;
  if (lower || upper) FeatureHelper::compute_disparity(db, m, v, n, hi, lo); else FeatureHelper::compute_disparity(db, m, v, n);
  std::vector<double> d;
  for (auto &k : tr) { // from the first observation newer than the lower bound to the last one after it older than the upper bound
    int a = -1, b = -1;
    for (int i = 0; i < (int)k.t.size(); i++) {
      if (a < 0) { if (!lower || k.t[i] > lo) a = i; }
      else if (!upper || k.t[i] < hi) b = i;
    }
    if (a >= 0 && b >= 0) d.push_back(dist(k, a, b));
  }
  judge(d, m, v, n);
  vf::reach("end");
}
VF_CASE(whole_tracks) { tracks(false, false); }
VF_CASE(older_part) { tracks(false, true); }
VF_CASE(newer_part) { tracks(true, false); }
VF_CASE(between) { tracks(true, true); }
