// Matching estimates to ground truth by time, and the error statistics computed from the matches
// VF-PKG: ov_eval
// VF-SOURCES: ov_eval/src/alignment/AlignUtils.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: matching: up to three estimates and four ground-truth times, every increasing time, offset and tolerance, with and without covariances; statistics: one to four (thorough five) values, every value; recomputation after more values
// VF-OUTSIDE: rounding; times out of order; statistics of one value's deviation (undefined)
#include "vf.h"
#include "alignment/AlignUtils.h"
#include "utils/Statistics.h"
using namespace ov_eval;
typedef std::vector<Eigen::Matrix<double, 7, 1>> Poses;
static std::vector<double> times(const std::string &n, int k) {
  std::vector<double> t;
  for (int i = 0; i < k; i++) { t.push_back(vf::input(n + std::to_string(i), 0, 10)); if (i) vf::assume(vf::le(t[i - 1] + 1e-6, t[i])); }
  return t;
}
static double gap(double a, double b) { double d = a - b; if (d < 0) return 0 - d; return d; }
static Eigen::Matrix3d mat(const std::string &n) { Eigen::MatrixXd m = vf::rnds(n, 9, 1); Eigen::Matrix3d r; for (int i = 0; i < 9; i++) r(i / 3, i % 3) = m(i); return r; }
static void match(int ne, int ng, int cov) {
  auto te = times("e", ne), tg = times("g", ng);
  double off = vf::input("offset", -1, 1), tol = vf::input("tolerance", 0.001, 2);
  Poses pe, pg;
  for (int i = 0; i < ne; i++) pe.push_back(vf::rnds("pe" + std::to_string(i), 7));
  for (int i = 0; i < ng; i++) pg.push_back(vf::rnds("pg" + std::to_string(i), 7));
  std::vector<Eigen::Matrix3d> eo, ep, go, gp;
  if (cov) for (int i = 0; i < ne; i++) { eo.push_back(mat("eo" + std::to_string(i))); ep.push_back(mat("ep" + std::to_string(i))); }
  if (cov == 2) for (int i = 0; i < ng; i++) { go.push_back(mat("go" + std::to_string(i))); gp.push_back(mat("gp" + std::to_string(i))); }
  auto te2 = te, tg2 = tg; auto pe2 = pe, pg2 = pg; auto eo2 = eo, ep2 = ep, go2 = go, gp2 = gp;
  if (cov == 0 && vf::choose("short form", 2)) AlignUtils::perform_association(off, tol, te2, tg2, pe2, pg2);
  else AlignUtils::perform_association(off, tol, te2, tg2, pe2, pg2, eo2, ep2, go2, gp2);
  // the ground-truth pose nearest to each estimate in turn, each used at most once and in order
  std::vector<int> me, mg; int from = 0;
  for (int i = 0; i < ne; i++) {
    int b = -1; double bd = tol;
    for (int j = from; j < ng; j++) { double d = gap(tg[j], te[i] + off); if (b < 0 ? d <= tol : d < bd) { b = j; bd = d; } }
    if (b >= 0) { me.push_back(i); mg.push_back(b); from = b + 1; }
  }
  size_t n = me.size();
  bool sizes = te2.size() == n && tg2.size() == n && pe2.size() == n && pg2.size() == n && eo2.size() == (cov ? n : 0) && ep2.size() == eo2.size() && go2.size() == eo2.size() && gp2.size() == eo2.size();
  vf::check("as many matches as there are nearest pairs within the tolerance, all lists in step", sizes);
  if (!sizes) return;
  for (size_t k = 0; k < n; k++) {
    vf::check_eq("matched ground-truth time", tg2[k], tg[mg[k]]);
    vf::check_eq("both carry the common time", te2[k], tg2[k]);
    vf::check_eq("estimated pose", pe2[k], pe[me[k]]);
    vf::check_eq("ground-truth pose", pg2[k], pg[mg[k]]);
    if (cov) {
      vf::check_eq("orientation covariance", eo2[k], eo[me[k]]); vf::check_eq("position covariance", ep2[k], ep[me[k]]);
      Eigen::Matrix3d z = Eigen::Matrix3d::Zero();
      if (cov == 2) { vf::check_eq("ground-truth orientation covariance", go2[k], go[mg[k]]); vf::check_eq("ground-truth position covariance", gp2[k], gp[mg[k]]); }
      else { vf::check_eq("certain ground truth", go2[k], z); vf::check_eq("certain ground truth", gp2[k], z); }
    }
  }
  vf::reach("end");
}
VF_CASE(matching_few) { match(3, 2, vf::choose("covariances", 3)); }
VF_CASE_THOROUGH(matching_more) { match(3, 4, 0); }
VF_CASE(matching_equal) { match(3, 3, 2); }
static void stats(int n) {
  Statistics s;
  std::vector<double> v;
  int again = vf::choose("computed before with fewer", 2);
  for (int i = 0; i < n; i++) { if (again && i == n - 1) s.calculate(); v.push_back(vf::input("v" + std::to_string(i), -100, 100)); s.values.push_back(v[i]); s.timestamps.push_back(i); }
  s.calculate();
  auto o = v;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (o[j] < o[i]) std::swap(o[i], o[j]);
  double sum = 0, sq = 0; for (auto &x : v) { sum = sum + x; sq = sq + x * x; }
  double m = sum / (double)n;
  vf::check_eq("smallest", s.min, o[0]); vf::check_eq("largest", s.max, o[n - 1]);
  vf::check_eq("median", s.median, n % 2 ? double(o[n / 2]) : double((o[n / 2 - 1] + o[n / 2]) / 2.0));
  vf::check_eq("mean", s.mean, m);
  vf::check("root mean square is not negative", vf::le(0, s.rmse));
  vf::check_eq("root mean square", s.rmse * s.rmse * (double)n, sq);
  if (n > 1) {
    double d = 0; for (auto &x : v) d = d + (x - m) * (x - m);
    vf::check("deviation is not negative", vf::le(0, s.std));
    vf::check_eq("deviation", s.std * s.std * (double)(n - 1), d);
    vf::check_eq("99th percentile of a normal distribution", s.ninetynine, s.mean + 2.326 * s.std);
  }
  for (int i = 0; i < n; i++) vf::check_eq("values stay in their order", s.values[i], v[i]);
  s.clear();
  vf::check("cleared", s.values.empty() && s.timestamps.empty() && s.values_bound.empty());
  vf::reach("end");
}
VF_CASE(statistics_1) { stats(1); }
VF_CASE(statistics_2) { stats(2); }
VF_CASE(statistics_3) { stats(3); }
VF_CASE(statistics_4) { stats(4); }
VF_CASE_THOROUGH(statistics_5) { stats(5); }
