// The inertial readings used between two times are the recorded signal over exactly that interval
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/Propagator.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: two to four (thorough: six) readings, every spacing of readings and interval ends from 1e-6 to 10 s, interval ends on or between readings (propagation: also past the last one), every reading value
// VF-OUTSIDE: readings out of time order or closer than 1e-12 s; rounding
#include "prop_common.h"
#include "utils/helper.h"
struct Ev { double t; int kind; }; // 0 reading, 1 start, 2 end, 3 start on a reading, 4 end on a reading
struct Setup { std::vector<ImuData> d; double t0, t1; int i0, i1; bool on0, on1; };
static double gap(int k) { return vf::input("gap" + std::to_string(k), 1e-6, 10); }
// n readings; start on reading i0 (on0) or between i0 and i0+1, end likewise (i1 == n-1 and not on: past the last reading)
static bool setup(Setup &s, int n, bool beyond) {
  s.i0 = vf::choose("start", n - 1); s.on0 = vf::choose("start on a reading", 2);
  s.i1 = s.i0 + vf::choose("end", n - s.i0); s.on1 = vf::choose("end on a reading", 2);
  if (s.i1 == s.i0 && s.on1) return false;
  if (s.i1 == n - 1 && !s.on1 && !beyond) return false;
  double t = vf::input("first", 0, 1000);
  int k = 0;
  for (int i = 0; i < n; i++) {
    ImuData m;
    if (i) t = t + gap(k++);
    m.timestamp = t;
    m.wm = vf::in_vec3("w" + std::to_string(i), true, -10, 10); m.am = vf::in_vec3("a" + std::to_string(i), true, -50, 50);
    s.d.push_back(m);
    if (i == s.i0) { if (!s.on0) t = t + gap(k++); s.t0 = t; }
    if (i == s.i1) { if (!s.on1) t = t + gap(k++); s.t1 = t; }
  }
  return true;
}
// the recorded signal, linear between readings (past the last one: the last segment carried on)
static void at(const Setup &s, int i, bool on, double t, Eigen::Vector3d &w, Eigen::Vector3d &a) {
  if (on) { w = s.d[i].wm; a = s.d[i].am; return; }
  if (i == (int)s.d.size() - 1) i--;
  double l = (t - s.d[i].timestamp) / (s.d[i + 1].timestamp - s.d[i].timestamp);
  w = s.d[i].wm + l * (s.d[i + 1].wm - s.d[i].wm); a = s.d[i].am + l * (s.d[i + 1].am - s.d[i].am);
}
static void same_signal(const Setup &s, const std::vector<ImuData> &r) {
  vf::check("covers the interval", r.size() >= 2);
  if (r.size() < 2) return;
  vf::check_eq("starts at the start", r[0].timestamp, s.t0);
  vf::check_eq("ends at the end", r.back().timestamp, s.t1);
  Eigen::Vector3d w, a;
  at(s, s.i0, s.on0, s.t0, w, a); vf::check_eq("signal at the start", r[0].wm, w); vf::check_eq("signal at the start", r[0].am, a);
  at(s, s.i1, s.on1, s.t1, w, a); vf::check_eq("signal at the end", r.back().wm, w); vf::check_eq("signal at the end", r.back().am, a);
  // the readings strictly inside (past the end the last segment is carried on, so the last reading may be left out)
  int from = s.i0 + 1, to = s.on1 ? s.i1 - 1 : s.i1, n = (int)s.d.size();
  bool past = s.i1 == n - 1 && !s.on1;
  int want = to - from + 1, got = (int)r.size() - 2;
  vf::check("readings inside the interval", got == want || (past && want > 0 && got == want - 1));
  for (int i = 0; i < got && i < want; i++) {
    vf::check_eq("time of a reading inside", r[1 + i].timestamp, s.d[from + i].timestamp);
    vf::check_eq("reading inside", r[1 + i].wm, s.d[from + i].wm); vf::check_eq("reading inside", r[1 + i].am, s.d[from + i].am);
  }
}
static int count() { return 2 + vf::choose("readings", vf::thorough() ? 5 : 3); }
VF_CASE(propagation) {
  Setup s; int n = count();
  bool past_start = false;
  if (!setup(s, n, true)) return;
  (void)past_start;
  same_signal(s, Propagator::select_imu_readings(s.d, s.t0, s.t1, vf::choose("warn", 2)));
  vf::reach("end");
}
VF_CASE(initialisation) {
  Setup s; int n = count();
  if (!setup(s, n, false)) return;
  same_signal(s, ov_init::InitializerHelper::select_imu_readings(s.d, s.t0, s.t1));
  vf::reach("end");
}
VF_CASE(no_data) {
  std::vector<ImuData> d;
  vf::check("nothing from nothing", Propagator::select_imu_readings(d, 1, 2, false).empty() && ov_init::InitializerHelper::select_imu_readings(d, 1, 2).empty());
  int n = 1 + vf::choose("readings", 3);
  double t = vf::input("first", 0, 1000);
  for (int i = 0; i < n; i++) { ImuData m; m.timestamp = t; m.wm = vf::rnds("w", 3); m.am = vf::rnds("a", 3); d.push_back(m); if (i < n - 1) t = t + gap(i); }
  double a = t + gap(10), b = a + gap(11);
  vf::check("nothing when all readings are older", Propagator::select_imu_readings(d, a, b, false).empty() && ov_init::InitializerHelper::select_imu_readings(d, a, b).empty());
  double f = d[0].timestamp - gap(12), e = f - gap(13);
  vf::check("nothing when all readings are newer", Propagator::select_imu_readings(d, e, f, false).empty() && ov_init::InitializerHelper::select_imu_readings(d, e, f).empty());
  vf::reach("end");
}
VF_CASE(buffer) { // readings are kept until they are older than asked, and no longer
  NoiseManager nm;
  Propagator p(nm, 9.81);
  int n = 3;
  std::vector<ImuData> d;
  double t = vf::input("first", 0, 1000), limit = vf::input("limit", -10, 2000);
  for (int i = 0; i < n; i++) { ImuData m; m.timestamp = t; m.wm = vf::rnds("w" + std::to_string(i), 3); m.am = vf::rnds("a" + std::to_string(i), 3); d.push_back(m); t = t + gap(i); }
  bool direct = vf::choose("direct", 2);
  for (int i = 0; i < n; i++) p.feed_imu(d[i], i == n - 1 && !direct ? limit : double(-1));
  if (direct) p.clean_old_imu_measurements(limit);
  double from = direct ? limit : limit - 0.1;
  std::vector<ImuData> want;
  for (auto &m : d) if (from < 0.0 || m.timestamp >= from) want.push_back(m);
  vf::check("number kept", want.size() == p.imu_data.size());
  if (want.size() == p.imu_data.size()) for (size_t i = 0; i < want.size(); i++) { vf::check_eq("kept in order", p.imu_data[i].timestamp, want[i].timestamp); vf::check_eq("kept as they were", p.imu_data[i].wm, want[i].wm); }
  vf::reach("end");
}
