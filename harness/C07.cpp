// Removing observations of one feature by time
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/feat/Feature.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: one feature seen by two cameras, up to four observations each in every order of times, up to three listed times (equal to observations or not), every observation value
// VF-OUTSIDE: more observations or listed times
#include "vf.h"
#include "feat/Feature.h"
using namespace ov_core;
struct Obs { double t; Eigen::VectorXf uv, un; };
static void run(int how) {
  Feature f; f.featid = 1;
  int n0 = vf::choose("first camera", vf::thorough() ? 5 : 4), n1 = vf::choose("second camera", 3);
  std::map<int, std::vector<Obs>> m;
  for (int c = 0; c < 2; c++) for (int k = 0; k < (c ? n1 : n0); k++) {
    Obs o; std::string n = std::to_string(c) + std::to_string(k);
    o.t = vf::input("t" + n, 0, 100); o.uv.resize(2); o.un.resize(2);
    for (int i = 0; i < 2; i++) { o.uv(i) = (float)vf::input("uv" + n + std::to_string(i), 0, 1000); o.un(i) = (float)vf::input("un" + n + std::to_string(i), -2, 2); }
    f.timestamps[c].push_back(o.t); f.uvs[c].push_back(o.uv); f.uvs_norm[c].push_back(o.un); m[c].push_back(o);
  }
  std::vector<double> times;
  int nt = how == 2 ? 1 : vf::choose("listed times", vf::thorough() ? 4 : 3);
  for (int i = 0; i < nt; i++) times.push_back(vf::input("listed" + std::to_string(i), 0, 100));
  auto keeps = [&](double t) { if (how == 2) return !bool(t <= times[0]); bool in = false; for (double x : times) in = in || x == t; return how == 0 ? in : !in; };
  if (how == 0) f.clean_old_measurements(times); else if (how == 1) f.clean_invalid_measurements(times); else f.clean_older_measurements(times[0]);
  for (int c = 0; c < 2; c++) {
    std::vector<Obs> want; for (auto &o : m[c]) if (keeps(o.t)) want.push_back(o);
    size_t k = want.size();
    vf::check("the right observations remain", f.timestamps[c].size() == k && f.uvs[c].size() == k && f.uvs_norm[c].size() == k);
    if (f.timestamps[c].size() != k || f.uvs[c].size() != k || f.uvs_norm[c].size() != k) return;
    for (size_t i = 0; i < k; i++) {
      vf::check_eq("times stay in order", f.timestamps[c][i], want[i].t);
      for (int j = 0; j < 2; j++) {
        vf::check_eq("pixels stay with their times", (double)f.uvs[c][i](j), (double)want[i].uv(j));
        vf::check_eq("normalised coordinates stay with their times", (double)f.uvs_norm[c][i](j), (double)want[i].un(j));
      }
    }
  }
  vf::reach("end");
}
VF_CASE(keep_listed) { run(0); }
VF_CASE(drop_listed) { run(1); }
VF_CASE(drop_older) { run(2); }
