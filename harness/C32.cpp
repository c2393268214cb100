// Files of trajectories and ground truth: what is read is what the format says, and the state found for a time
// VF-PKG: ov_eval
// VF-SOURCES: ov_eval/src/utils/Loader.cpp
// VF-BUDGET: 60 200
// VF-BOUNDS: files of up to four lines with comments, blanks, short lines and every number symbolic; up to four ground-truth states with symbolic times
// VF-OUTSIDE: the conversion of decimal text to a number (the standard library's); files that cannot be opened or hold no data (the program ends)
#include "vf.h"
#include "utils/Loader.h"
#include "utils/dataset_reader.h"
#include <fstream>
#include <unistd.h>
using namespace ov_eval;
struct File {
  std::string path; std::ofstream out;
  File() { char n[] = "/tmp/vf-text-XXXXXX"; int f = mkstemp(n); if (f >= 0) close(f); path = n; out.open(path); }
  ~File() { out.close(); unlink(path.c_str()); }
  void line(const std::vector<double> &v, const std::string &sep, const std::string &end = "") { for (size_t i = 0; i < v.size(); i++) out << (i ? sep : "") << vf::text(v[i]); out << end << "\n"; out.flush(); }
  void raw(const std::string &s) { out << s << "\n"; out.flush(); }
};
static std::vector<double> numbers(const std::string &n, int k) { std::vector<double> r; for (int i = 0; i < k; i++) r.push_back(vf::input(n + std::to_string(i), -500, 500)); return r; }
static Eigen::MatrixXd col(const std::vector<double> &v) { Eigen::MatrixXd m((int)v.size(), 1); for (size_t i = 0; i < v.size(); i++) m((int)i) = v[i]; return m; }
static Eigen::MatrixXd pick(const std::vector<double> &v, std::vector<int> at) { Eigen::MatrixXd m((int)at.size(), 1); for (size_t i = 0; i < at.size(); i++) m((int)i) = v[at[i]]; return m; }
VF_CASE(trajectory) {
  bool cov = vf::choose("covariances", 2); int spaces = vf::choose("blanks", 2); File f; f.raw("# timestamp(s) tx ty tz qx qy qz qw"); std::vector<std::vector<double>> rows;
  for (int i = 0; i < 3; i++) { rows.push_back(numbers("r" + std::to_string(i) + ".", cov ? 20 : 8)); f.line(rows.back(), spaces ? "  " : " ", spaces ? " " : ""); if (i == 0) f.raw("#1 2 3 4 5 6 7 8"); if (i == 1) f.raw("1 2 3 4 5 6 7"); }
  std::vector<double> t; std::vector<Eigen::Matrix<double, 7, 1>> p; std::vector<Eigen::Matrix3d> co, cp; Loader::load_data(f.path, t, p, co, cp);
  vf::check("one pose for each line with all values", t.size() == 3 && p.size() == 3); vf::check("covariances if they are there", co.size() == (cov ? 3u : 0u) && cp.size() == co.size()); if (t.size() != 3 || p.size() != 3) return;
  for (int i = 0; i < 3; i++) {
    Eigen::MatrixXd g(8, 1); g << t[i], p[i]; vf::check_eq("time, position and orientation", g, col(std::vector<double>(rows[i].begin(), rows[i].begin() + 8)));
    if (cov && co.size() == 3) for (int k = 0; k < 2; k++) { Eigen::Matrix3d c = co[i]; if (k) c = cp[i]; int o = 8 + 6 * k; auto &r = rows[i]; Eigen::MatrixXd w(3, 3); w << r[o], r[o + 1], r[o + 2], r[o + 1], r[o + 3], r[o + 4], r[o + 2], r[o + 4], r[o + 5]; vf::check_eq(k ? "covariance of the position" : "covariance of the orientation", Eigen::MatrixXd(c), w); }
  }
  vf::reach("end");
}
VF_CASE(csv) {
  int width = vf::choose("width", 2) ? 17 : 8; File f; f.raw("#timestamp,p,q"); std::vector<std::vector<double>> rows; for (int i = 0; i < 2; i++) { rows.push_back(numbers("r" + std::to_string(i) + ".", width)); f.line(rows.back(), ","); if (!i) f.raw("1,2,3,4"); }
  std::vector<double> t; std::vector<Eigen::Matrix<double, 7, 1>> p; std::vector<Eigen::Matrix3d> co, cp; Loader::load_data_csv(f.path, t, p, co, cp);
  vf::check("one pose for each line", t.size() == 2 && p.size() == 2); if (t.size() != 2 || p.size() != 2) return;
  for (int i = 0; i < 2; i++) { Eigen::MatrixXd g(1, 1); g << t[i] * 1e9; vf::check_eq("time from nanoseconds", g, pick(rows[i], {0})); vf::check_eq("position, then orientation with the scalar last", Eigen::MatrixXd(p[i]), pick(rows[i], {1, 2, 3, 5, 6, 7, 4})); }
  vf::check("no covariances", co.empty() && cp.empty()); vf::reach("end");
}
VF_CASE(values) {
  File f; f.raw("# state"); std::vector<std::vector<double>> rows; for (int i = 0; i < 2; i++) { rows.push_back(numbers("r" + std::to_string(i) + ".", 5)); f.line(rows.back(), i ? "  " : " ", i ? "" : " "); }
  std::vector<Eigen::VectorXd> v; Loader::load_simulation(f.path, v); vf::check("each line", v.size() == 2); if (v.size() != 2) return; for (int i = 0; i < 2; i++) { vf::check("each value", v[i].rows() == 5); if (v[i].rows() == 5) vf::check_eq("in order", Eigen::MatrixXd(v[i]), col(rows[i])); }
  vf::reach("end");
}
VF_CASE(timing) {
  File f; f.raw("# timestamp (sec),tracking,propagation,total"); std::vector<std::vector<double>> rows; for (int i = 0; i < 2; i++) { rows.push_back(numbers("r" + std::to_string(i) + ".", 4)); f.line(rows.back(), ","); }
  std::vector<std::string> names; std::vector<double> t; std::vector<Eigen::VectorXd> v; Loader::load_timing_flamegraph(f.path, names, t, v);
  vf::check("names without the time", names.size() == 3 && names[0] == "tracking" && names[1] == "propagation" && names[2] == "total"); vf::check("each line", t.size() == 2 && v.size() == 2); if (t.size() != 2 || v.size() != 2) return;
  for (int i = 0; i < 2; i++) { vf::check("each value", v[i].rows() == 3); Eigen::MatrixXd g(4, 1); g << t[i], v[i]; vf::check_eq("time and values in order", g, col(rows[i])); }
  File h; h.raw("# timestamp cpu mem threads nodes"); std::vector<std::vector<double>> r2; for (int i = 0; i < 3; i++) { auto r = numbers("p" + std::to_string(i) + ".", 6); if (i == 1) r[3] = 0; else { r[3] = vf::input("threads" + std::to_string(i), 1, 20); r2.push_back(r); } h.line(r, " "); }
  std::vector<double> t2; std::vector<Eigen::Vector3d> sum; std::vector<Eigen::VectorXd> node; Loader::load_timing_percent(h.path, t2, sum, node); vf::check("each line with threads", t2.size() == 2 && sum.size() == 2 && node.size() == 2); if (t2.size() != 2 || sum.size() != 2 || node.size() != 2) return;
  for (int i = 0; i < 2; i++) { vf::check("the rest are nodes", node[i].rows() == 2); Eigen::MatrixXd g(6, 1); g << t2[i], sum[i], node[i]; vf::check_eq("time, sums and nodes in order", g, col(r2[i])); }
  vf::reach("end");
}
VF_CASE(simulated) {
  File f; f.raw("# timestamp(s) tx ty tz qx qy qz qw"); std::vector<std::vector<double>> rows; for (int i = 0; i < 3; i++) { rows.push_back(numbers("r" + std::to_string(i) + ".", i == 1 ? 20 : 8)); f.line(rows.back(), i ? "  " : " "); if (!i) f.raw("1 2 3"); }
  std::vector<Eigen::VectorXd> v; ov_core::DatasetReader::load_simulated_trajectory(f.path, v); vf::check("each complete line", v.size() == 3); if (v.size() != 3) return;
  for (int i = 0; i < 3; i++) { vf::check("time and pose", v[i].rows() == 8); if (v[i].rows() == 8) vf::check_eq("in order", Eigen::MatrixXd(v[i]), col(std::vector<double>(rows[i].begin(), rows[i].begin() + 8))); }
  vf::reach("end");
}
// ground truth: read by file, then asked for a time
VF_CASE(truth) {
  int n = 1 + vf::choose("states", 3); File f; f.raw("#timestamp,p,q,v,bg,ba"); std::vector<std::vector<double>> rows; double at = 0;
  for (int i = 0; i < n; i++) { rows.push_back(numbers("r" + std::to_string(i) + ".", 17)); at += 1e9 * vf::input("gap" + std::to_string(i), 0.02, 0.3); rows[i][0] = at; }
  int first = vf::choose("first", n); for (int i = 0; i < n; i++) f.line(rows[(i + first) % n], ","); // in any order
  typedef Eigen::Matrix<double, 17, 1> State; std::map<double, State> gt; ov_core::DatasetReader::load_gt_file(f.path, gt); vf::check("each line", (int)gt.size() == n); if ((int)gt.size() != n) return;
  double t = vf::input("t", -0.2, 1.2); State s = State::Zero(); bool ok = ov_core::DatasetReader::get_gt_state(t, s, gt);
  double best = 1e9; for (int i = 0; i < n; i++) { double d = t - 1e-9 * rows[i][0]; if (d < 0) d = -d; if (d < best) best = d; }
  if (best < 0.0999) vf::check("found when one is near", ok); if (best > 0.1001) vf::check("not found when none is near", !ok);
  vf::check("the file's states stay", (int)gt.size() == n); if (!ok) return;
  int who = -1; for (int i = 0; i < n; i++) { double d = t - 1e-9 * rows[i][0]; if (d < 0) d = -d; if (who < 0 && vf::is_zero(d - best)) who = i; if (who < 0) { double e = d - best; if (e <= 0) who = i; } }
  vf::check("one is nearest", who >= 0); if (who < 0) return;
  // two may be equally near
  double d = t - s(0); if (d < 0) d = -d; Eigen::MatrixXd g(1, 1), w(1, 1); g << d; w << best; vf::check_near("the nearest one's time", g, w, 1e-6);
  int given = -1; for (int i = 0; i < n; i++) { double e = s(0) - 1e-9 * rows[i][0]; if (e < 0) e = -e; if (e < 1e-6) given = i; } vf::check("the time of a state", given >= 0); if (given < 0) return;
  vf::check_eq("orientation with the scalar last, position, velocity, biases", Eigen::MatrixXd(s.block(1, 0, 16, 1)), pick(rows[given], {5, 6, 7, 4, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 16})); vf::reach("end");
}
VF_CASE(no_truth) { std::map<double, Eigen::Matrix<double, 17, 1>> gt; Eigen::Matrix<double, 17, 1> s; double t = vf::input("t", -5, 5); vf::check("nothing is found in nothing", !ov_core::DatasetReader::get_gt_state(t, s, gt)); vf::reach("end"); }
VF_CASE(length) {
  std::vector<Eigen::Matrix<double, 7, 1>> p; int n = vf::choose("poses", 4); std::vector<double> step; const int tri[3][3] = {{1, 2, 2}, {2, -3, 6}, {-4, 4, 7}}; const int len[3] = {3, 7, 9}; Eigen::Vector3d at = vf::in_vec3("at", true, -50, 50); double total = 0;
  for (int i = 0; i < n; i++) { if (i) { double k = vf::input("k" + std::to_string(i), 0, 5); for (int j = 0; j < 3; j++) at(j) += k * tri[i - 1][j]; total += k * len[i - 1]; } Eigen::Matrix<double, 7, 1> q; q << at, vf::rnds("q" + std::to_string(i), 4, 1, -1, 1); p.push_back(q); }
  Eigen::MatrixXd g(1, 1), w(1, 1); g << Loader::get_total_length(p); w << total; vf::check_near("the sum of the distances between the positions", g, w, 1e-6); vf::reach("end");
}
