// The simulator: readings of the true motion with the calibration undone, their noise, the order of measurements, the features seen, perturbed guesses
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/sim/Simulator.cpp ov_msckf/src/state/State.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: every value of the trajectory at the reading (attitude: seeded), of the inertial calibration (first-order unknowns over seeded general values), of the noise draws and rates; two cameras, up to three map features at any position, up to eight measurements in a row, up to five steps until the motion starts
// VF-OUTSIDE: the random numbers' distribution and seeds; rounding to single precision; the spline (C09) and lens (C04) themselves
#include "state_common.h"
#include "sim/Simulator.h"
#include "sim/BsplineSE3.h"
#include "core/VioManagerOptions.h"
#include <cstdio>
#include <fstream>
#include <functional>
#include <unistd.h>
typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3;
typedef std::vector<std::pair<size_t, Eigen::VectorXf>> UVs;
extern "C" unsigned int sleep(unsigned int) { return 0; }
static void set_draws(bool symbolic) {
#ifdef VF_SYMBOLIC
  vf::symbolic_draws = symbolic;
#else
  (void)symbolic;
#endif
}
// the trajectory as its contract: attitude, place and their derivatives at a time, from its start to its end
struct Motion { double start = 0, end = 1000; M3 R = M3::Identity(); std::function<V3(double)> p, v, a, w; std::vector<double> asked; };
static Motion motion;
namespace ov_core {
void BsplineSE3::feed_trajectory(std::vector<Eigen::VectorXd>) { timestamp_start = motion.start; dt = 0.1; }
static bool inside(double t) { motion.asked.push_back(t); if (t < motion.start) return false; if (t > motion.end) return false; return true; }
bool BsplineSE3::get_pose(double t, M3 &R, V3 &p) { R.setIdentity(); p.setZero(); if (!inside(t)) return false; R = motion.R; p = motion.p(t); return true; }
bool BsplineSE3::get_velocity(double t, M3 &R, V3 &p, V3 &w, V3 &v) { R.setIdentity(); p.setZero(); if (!inside(t)) return false; R = motion.R; p = motion.p(t); w = motion.w(t); v = motion.v(t); return true; }
bool BsplineSE3::get_acceleration(double t, M3 &R, V3 &p, V3 &w, V3 &v, V3 &al, V3 &a) { R.setIdentity(); p.setZero(); if (!inside(t)) return false; R = motion.R; p = motion.p(t); w = motion.w(t); v = motion.v(t); al.setZero(); a = motion.a(t); return true; }
} // namespace ov_core
static std::string path;
static VioManagerOptions options(int cams, bool fisheye = false, bool kalibr = true) {
  VioManagerOptions p;
  p.state_options.imu_model = kalibr ? StateOptions::ImuModel::KALIBR : StateOptions::ImuModel::RPNG;
  p.state_options.num_cameras = cams;
  for (int i = 0; i < cams; i++) {
    std::shared_ptr<CamBase> c; if (fisheye && i == 0) c = std::make_shared<CamEqui>(640 + 32 * i, 480); else c = std::make_shared<CamRadtan>(640 + 32 * i, 480);
    Eigen::MatrixXd v(8, 1); v << 400 + 16 * i, 384, 320, 240, 0, 0, 0, 0; c->set_value(v);
    p.camera_intrinsics[i] = c;
    Eigen::VectorXd e(7); e << vf::in_quat("ext" + std::to_string(i), false), vf::in_vec3("pext" + std::to_string(i), false); p.camera_extrinsics[i] = e; p.init_options.camera_intrinsics[i] = c; p.init_options.camera_extrinsics[i] = e;
  }
  p.init_options.num_cameras = cams;
  p.vec_dw << 1, 0, 0, 1, 0, 1; p.vec_da << 1, 0, 0, 1, 0, 1; p.vec_tg << 0, 0, 0, 0, 0, 0, 0, 0, 0; p.q_ACCtoIMU << 0, 0, 0, 1; p.q_GYROtoIMU << 0, 0, 0, 1;
  p.num_pts = 0; p.sim_distance_threshold = -1; p.sim_freq_cam = 10; p.sim_freq_imu = 100;
  p.sim_seed_state_init = 3; p.sim_seed_preturb = 4; p.sim_seed_measurements = 5;
  path = "/tmp/vf-c30-" + std::to_string((long)getpid()) + ".txt";
  std::ofstream f(path); f << "# time x y z qx qy qz qw\n0.0 0 0 0 0 0 0 1\n0.1 0 0 0 0 0 0 1\n"; f.close();
  p.sim_traj_path = path;
  motion = Motion(); motion.end = 0.7; // (few synthetic frames while the map is built)
  motion.p = [](double) { return V3(0, 0, 0); }; motion.v = motion.a = motion.w = motion.p;
  return p;
}
static std::shared_ptr<Simulator> make(VioManagerOptions &p) { auto s = std::make_shared<Simulator>(p); std::remove(path.c_str()); motion.end = 1000; motion.asked.clear(); return s; }
static std::vector<double> draws(std::mt19937 g, int n) { std::normal_distribution<double> w(0, 1); std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(w(g)); return r; }
// the same numbers, in whatever order
static void same_numbers(const std::string &n, const std::vector<double> &a, const std::vector<double> &b, vf::Num tol = 1e-6) {
  vf::check(n + ": how many", a.size() == b.size()); if (a.size() != b.size()) return;
  Eigen::MatrixXd x(2, 1), y(2, 1); x.setZero(); y.setZero();
  for (auto &v : a) { x(0) += v; x(1) += v * v; } for (auto &v : b) { y(0) += v; y(1) += v * v; }
  vf::check_near(n, x, y, tol);
}
// a reading is the motion at its time with bias, where the filter's model of the sensor (calibrated reading = D R (raw - bias - Tg a)) is undone
static void reading(bool kalibr, bool calibrated, bool sens) {
  auto p = options(1);
  p.state_options.imu_model = kalibr ? StateOptions::ImuModel::KALIBR : StateOptions::ImuModel::RPNG;
  if (!kalibr) { p.vec_dw << 1, 0, 1, 0, 0, 1; p.vec_da << 1, 0, 1, 0, 0, 1; }
  if (calibrated) {
    for (int i = 0; i < 6; i++) { p.vec_dw(i) += vf::rnd("dw" + std::to_string(i), -0.25, 0.25); p.vec_da(i) += vf::rnd("da" + std::to_string(i), -0.25, 0.25); }
    p.q_ACCtoIMU = vf::in_quat("qa", false); p.q_GYROtoIMU = vf::in_quat("qg", false);
  }
  if (sens) for (int i = 0; i < 9; i++) p.vec_tg(i) = vf::input("tg" + std::to_string(i), -1, 1);
  p.imu_noises.sigma_w = 0; p.imu_noises.sigma_a = 0; p.imu_noises.sigma_wb = 0; p.imu_noises.sigma_ab = 0;
  p.gravity_mag = vf::input("gravity", 9, 10);
  auto s = make(p);
  motion.R = quat_2_Rot(vf::in_quat("q", false));
  V3 a = vf::in_vec3("a", true, -30, 30), w = vf::in_vec3("w", true, -10, 10);
  motion.a = [&](double) { return a; }; motion.w = [&](double) { return w; };
  s->true_bias_gyro = vf::in_vec3("bg", true, -1, 1); s->true_bias_accel = vf::in_vec3("ba", true, -1, 1);
  V3 bg = s->true_bias_gyro, ba = s->true_bias_accel;
  double t = 0; V3 wm, am; wm.setZero(); am.setZero();
  bool ok = s->get_next_imu(t, wm, am);
  vf::check("first reading", ok); vf::check_eq("its time", t, 0.01); if (!ok) return;
  vf::check_eq("state at that time was used", motion.asked.back(), t);
  auto D = [&](const Eigen::Matrix<double, 6, 1> &v) { M3 m; m.setZero(); if (kalibr) { m(0, 0) = v(0); m(1, 0) = v(1); m(2, 0) = v(2); m(1, 1) = v(3); m(2, 1) = v(4); m(2, 2) = v(5); } else { m(0, 0) = v(0); m(0, 1) = v(1); m(1, 1) = v(2); m(0, 2) = v(3); m(1, 2) = v(4); m(2, 2) = v(5); } return m; };
  M3 Tg; for (int j = 0; j < 9; j++) Tg(j % 3, j / 3) = p.vec_tg(j);
  V3 g(0, 0, p.gravity_mag), al = motion.R * (a + g);
  vf::check_eq("accelerometer", V3(quat_2_Rot(p.q_ACCtoIMU) * D(p.vec_da) * (am - ba)), al, 50);
  vf::check_eq("gyroscope", V3(quat_2_Rot(p.q_GYROtoIMU) * D(p.vec_dw) * (wm - bg - Tg * al)), w, 50);
  vf::reach("end");
}
VF_CASE(reading) { bool k = vf::choose("kalibr model", 2); reading(k, false, false); }
VF_CASE(reading_calibrated) { bool k = vf::choose("kalibr model", 2); reading(k, true, false); }
VF_CASE(reading_sensitivity) { reading(false, true, true); }
// density of the noise: white noise by the root of the rate, bias steps by the root of the interval; truth follows the biases that were used
VF_CASE(noise) {
  auto p = options(1);
  bool fast = vf::choose("rate", 2); double f = 100, rt = 0.1; if (fast) { f = 400; rt = 0.05; } // rt: root of the interval
  p.sim_freq_imu = f;
  double sw = vf::input("sigma_w", 0.001, 1), swb = vf::input("sigma_wb", 0.001, 1), sa = vf::input("sigma_a", 0.001, 1), sab = vf::input("sigma_ab", 0.001, 1);
  p.imu_noises.sigma_w = sw; p.imu_noises.sigma_a = sa; p.imu_noises.sigma_wb = swb; p.imu_noises.sigma_ab = sab;
  auto s = make(p);
  V3 g(0, 0, p.gravity_mag);
  V3 bg0(0, 0, 0), ba0(0, 0, 0), start_g = s->true_bias_gyro, start_a = s->true_bias_accel;
  for (int k = 0; k < 3; k++) {
    std::mt19937 gen = s->gen_meas_imu;
    V3 wm, am; double t = 0;
    bool ok = s->get_next_imu(t, wm, am); vf::check("reading", ok); if (!ok) return;
    V3 bg = s->true_bias_gyro, ba = s->true_bias_accel;
    if (k == 0) { vf::check_eq("first reading has the starting bias", bg, start_g); vf::check_eq("first reading has the starting accelerometer bias", ba, start_a); }
    V3 nw = (wm - bg) / (sw / rt), na = (am - g - ba) / (sa / rt), dg = (bg - bg0) / (swb * rt), da = (ba - ba0) / (sab * rt);
    std::vector<double> got;
    for (int i = 0; i < 3; i++) { got.push_back(nw(i)); got.push_back(na(i)); }
    if (k > 0) for (int i = 0; i < 3; i++) { got.push_back(dg(i)); got.push_back(da(i)); }
    same_numbers("noise and bias steps of reading " + std::to_string(k), got, draws(gen, (int)got.size()));
    Eigen::Matrix<double, 17, 1> x; x.setZero();
    bool have = s->get_state(t, x); vf::check("truth at the reading", have);
    Eigen::MatrixXd b(6, 1), want(6, 1); b = x.block(11, 0, 6, 1); want << bg, ba;
    vf::check_eq("truth holds the bias of the reading", b, want);
    if (k > 0) { double h = 0.25; s->get_state(t - h / f, x); b = x.block(11, 0, 6, 1); V3 ig = h * bg0 + (1 - h) * bg, ia = h * ba0 + (1 - h) * ba; want << ig, ia; vf::check_eq("bias between readings", b, want); }
    bg0 = bg; ba0 = ba;
  }
  vf::reach("end");
}
// truth at a time
VF_CASE(truth) {
  auto p = options(1);
  auto s = make(p);
  double t0 = vf::input("t0", 10, 20), t1 = t0 + vf::input("d1", 0.001, 1), t2 = t1 + vf::input("d2", 0.001, 1), t = vf::input("t", 5, 30);
  std::vector<double> ts{t0, t1, t2}; std::vector<V3> g, a;
  for (int i = 0; i < 3; i++) { g.push_back(vf::in_vec3("g" + std::to_string(i), true, -1, 1)); a.push_back(vf::in_vec3("a" + std::to_string(i), true, -1, 1)); }
  s->hist_true_bias_time = ts; s->hist_true_bias_gyro.clear(); s->hist_true_bias_accel.clear(); for (int i = 0; i < 3; i++) { s->hist_true_bias_gyro.push_back(g[i]); s->hist_true_bias_accel.push_back(a[i]); }
  Eigen::Vector4d q = vf::in_quat("q", false); motion.R = quat_2_Rot(q); motion.start = vf::input("start", 5, 30); motion.end = vf::input("end", 5, 30);
  V3 pos = vf::in_vec3("p", true, -10, 10), vel = vf::in_vec3("v", true, -10, 10);
  motion.p = [&](double u) { return V3(pos + u * vel); }; motion.v = [&](double) { return vel; };
  Eigen::Matrix<double, 17, 1> x; for (int i = 0; i < 17; i++) x(i) = 7;
  bool ok = s->get_state(t, x);
  bool want = t > t0 && t <= t2 && t >= motion.start && t <= motion.end;
  vf::check("known exactly where motion and bias are", ok == want);
  if (ok && want) {
    vf::check_eq("time", x(0), t); vf::check_eq("place", V3(x.block(5, 0, 3, 1)), motion.p(t)); vf::check_eq("velocity", V3(x.block(8, 0, 3, 1)), vel);
    Eigen::Vector4d xq = x.block(1, 0, 4, 1); vf::check_eq("attitude", quat_2_Rot(xq), motion.R);
    int i = 0; if (t > t1) i = 1;
    double l = (t - ts[i]) / (ts[i + 1] - ts[i]);
    vf::check_eq("gyroscope bias", V3(x.block(11, 0, 3, 1)), V3((1 - l) * g[i] + l * g[i + 1])); vf::check_eq("accelerometer bias", V3(x.block(14, 0, 3, 1)), V3((1 - l) * a[i] + l * a[i + 1]));
    vf::reach("known");
  }
  if (!ok && !want) { Eigen::Matrix<double, 17, 1> d; d.setZero(); d(4) = 1; vf::check_eq("nothing made up otherwise", x, d); vf::reach("unknown"); }
}
// measurements come in the order of their times, each stream evenly spaced, camera times on the camera's clock
VF_CASE(order) {
  auto p = options(1);
  double fi = vf::input("inertial rate", 50, 500), fc = vf::input("camera rate", 5, 50);
  p.calib_camimu_dt = vf::input("offset", -1, 1);
  p.imu_noises.sigma_w = 0; p.imu_noises.sigma_a = 0; p.imu_noises.sigma_wb = 0; p.imu_noises.sigma_ab = 0;
  auto s = make(p);
  s->params.sim_freq_imu = fi; s->params.sim_freq_cam = fc;
  double last_imu = vf::input("last inertial", 10, 11), last_cam = vf::input("last image", 10, 11);
  vf::assume(vf::lt(last_imu, last_cam + 1.0 / fc)); vf::assume(vf::lt(last_cam, last_imu + 1.0 / fi)); // neither stream is behind
  s->timestamp_last_imu = last_imu; s->timestamp_last_cam = last_cam;
  motion.end = 10 + vf::input("length", 0.5, 50);
  double ti = last_imu, tc = last_cam; int events = 0; std::vector<double> times;
  for (int k = 0; k < (vf::thorough() ? 6 : 4) && s->ok(); k++) {
    double t = 0; V3 wm, am;
    bool due = s->timestamp_last_imu + 1.0 / fi <= motion.end;
    if (s->get_next_imu(t, wm, am)) { ti += 1.0 / fi; vf::check_eq("next reading", t, ti); vf::check("readings inside the trajectory", due); times.push_back(t); events++; vf::check_eq("clock", s->current_timestamp(), t); }
    if (!s->ok()) break;
    std::vector<int> ids; std::vector<UVs> feats;
    if (s->get_next_cam(t, ids, feats)) { tc += 1.0 / fc; vf::check_eq("next image on the camera's clock", t, tc - p.calib_camimu_dt); vf::check("one set for each camera", ids.size() == 1 && feats.size() == 1 && ids[0] == 0); times.push_back(tc); events++; vf::check_eq("clock", s->current_timestamp(), tc); }
    else vf::check("something comes each round", !s->ok() || events > 0);
  }
  for (size_t i = 1; i < times.size(); i++) vf::check("in the order of their times", vf::le(times[i - 1], times[i]));
  if (!s->ok()) { double ni = ti + 1.0 / fi, nc = tc + 1.0 / fc; bool past = ni > motion.end || nc > motion.end; vf::check("ends only when the trajectory does", past); vf::reach("ended"); } else vf::reach("going on");
}
// it starts at the first image time by which the path is longer than the threshold
VF_CASE(start) {
  auto p = options(1);
  motion.start = vf::input("start", 1, 100); motion.end = motion.start + 0.4;
  double scale = vf::input("size", 0.01, 1);
  static const int at[6][3] = {{0, 0, 0}, {3, 4, 0}, {0, 0, 0}, {0, 5, 12}, {2, 4, 14}, {2, 4, 14}};
  motion.p = [&](double t) { int k = (int)((t - motion.start) * 10 + 0.5); if (k > 5) k = 5; return V3(at[k][0] * scale, at[k][1] * scale, at[k][2] * scale); };
  motion.v = motion.a = motion.w = [](double) { return V3(0, 0, 0); };
  static const int length[5] = {0, 5, 10, 23, 26};
  p.sim_distance_threshold = vf::input("threshold", 0, 26); vf::assume(vf::lt(p.sim_distance_threshold, 25.5 * scale));
  auto s = std::make_shared<Simulator>(p); std::remove(path.c_str());
  int want = 0; while (want < 4 && !(length[want] * scale > p.sim_distance_threshold)) want++;
  vf::check_eq("starting time", s->current_timestamp(), motion.start + want * 0.1);
  vf::check_eq("inertial clock", s->timestamp_last_imu, motion.start + want * 0.1); vf::check_eq("camera clock", s->timestamp_last_cam, motion.start + want * 0.1);
  vf::check("running", s->ok());
  Eigen::Matrix<double, 17, 1> x; motion.end = motion.start + 10; motion.p = [](double) { return V3(0, 0, 0); };
  vf::check("truth at the start", s->get_state(s->current_timestamp(), x)); vf::check_eq("no bias yet", V3(x.block(11, 0, 3, 1)), V3(0, 0, 0)); vf::check_eq("truth is of that time", x(0), s->current_timestamp());
  vf::reach("end");
}
// an image holds features of the map that lie in it, at their projection, at most as many as asked for, each with an identity of its own that stays
static void image(int stereo, bool fisheye, bool noisy, bool symbolic, int limit) {
  auto p = options(2, fisheye); p.use_stereo = stereo; p.num_pts = 0; p.sim_max_feature_gen_distance = 15; p.msckf_options.sigma_pix = 0;
  for (int i = 0; i < 2; i++) { p.camera_extrinsics[i].block(4, 0, 3, 1) *= 0.125; if (!symbolic) { Eigen::MatrixXd v = p.camera_intrinsics[i]->get_value(); v(4) = 0.0625; v(5) = -0.03125; v(6) = 0.001; v(7) = -0.002; p.camera_intrinsics[i]->set_value(v); } }
  p.camera_extrinsics[1] = p.camera_extrinsics[0]; p.camera_extrinsics[1](4) += 0.25; // a pair looking the same way
  auto s = make(p);
  s->params.num_pts = limit; double sigma = 0; if (noisy) { sigma = vf::input("sigma", 0.01, 2); s->params.msckf_options.sigma_pix = sigma; }
  motion.R = quat_2_Rot(vf::in_quat("q", false)); V3 place = vf::in_vec3("p", false); motion.p = [&](double) { return place; };
  std::unordered_map<size_t, V3> map; M3 RC = quat_2_Rot(p.camera_extrinsics[0].block(0, 0, 4, 1)); V3 pC = p.camera_extrinsics[0].block(4, 0, 3, 1);
  int n = 3;
  for (int i = 0; i < n; i++) { // positions given in the first camera
    V3 c; if (i == 0 && symbolic) c = V3(vf::input("x", -20, 20), vf::input("y", -20, 20), vf::input("z", -5, 20)); else { double z = 4 + 2 * i; c = V3(vf::rnd("x" + std::to_string(i), -0.5, 0.5) * z, vf::rnd("y" + std::to_string(i), -0.5, 0.5) * z, z); }
    map[i] = motion.R.transpose() * (RC.transpose() * (c - pC)) + place;
  }
  s->featmap = map; s->id_map = n; s->timestamp_last_imu = s->timestamp_last_cam + 0.25;
  std::vector<std::map<size_t, int>> owner(2), first(2);
  std::vector<std::mt19937> gens = s->gen_meas_cams;
  for (int frame = 0; frame < 2; frame++) {
    double t; std::vector<int> ids; std::vector<UVs> feats;
    s->timestamp_last_imu = s->timestamp_last_cam + 0.25;
    bool ok = s->get_next_cam(t, ids, feats); vf::check("image", ok && feats.size() == 2 && ids.size() == 2 && ids[0] == 0 && ids[1] == 1); if (!ok || feats.size() != 2) return;
    for (int c = 0; c < 2; c++) {
      auto cam = p.camera_intrinsics[c]; M3 Rc = quat_2_Rot(p.camera_extrinsics[c].block(0, 0, 4, 1)); V3 pc = p.camera_extrinsics[c].block(4, 0, 3, 1);
      std::map<int, Eigen::Vector2f> visible;
      for (int i = 0; i < n; i++) {
        V3 f = Rc * (motion.R * (map[i] - place)) + pc;
        if (f(2) < 0.1) continue; if (f(2) > 15) continue;
        Eigen::Vector2f nn((float)(f(0) / f(2)), (float)(f(1) / f(2))), uv = cam->distort_f(nn);
        if (uv(0) < 0 || uv(1) < 0 || uv(0) > cam->w() || uv(1) > 480) continue;
        visible[i] = uv;
      }
      int want = std::min((int)visible.size(), limit);
      vf::check("as many as are seen, up to the limit", (int)feats[c].size() == want); if ((int)feats[c].size() != want) return;
      std::set<size_t> seen; std::vector<double> noise;
      for (auto &f : feats[c]) {
        vf::check("each feature once", seen.insert(f.first).second);
        int which = -1; if (stereo) which = (int)f.first; else which = (int)f.first - c * n;
        if (!visible.count(which)) { vf::check("identity belongs to a visible feature", false); return; }
        Eigen::VectorXd got = f.second.template cast<double>(), expect = visible[which].template cast<double>();
        if (!noisy) vf::check_near("at its projection", got, expect, 1e-3); else for (int k = 0; k < 2; k++) noise.push_back((got(k) - expect(k)) / sigma);
      }
      if (noisy) { std::mt19937 g = gens[c]; same_numbers("noise of the image", noise, draws(g, (int)noise.size()), 1e-3); }
      if (want == 3) vf::reach("all seen"); if (want < 3) vf::reach("some not seen");
    }
    if (noisy) break;
  }
}
VF_CASE(image) { int st = vf::choose("stereo", 2); image(st, false, false, true, 3); }
VF_CASE(image_limit) { int l = vf::choose("limit", 3); image(1, false, false, true, l); }
VF_CASE(image_lens) { int st = vf::choose("stereo", 2), fe = vf::choose("fisheye", 2); vf::set_rounded_constants(true); image(st, fe, false, false, 3); }
VF_CASE(image_noise) { int l = 1 + vf::choose("limit", 3); image(1, false, true, false, l); }
// points made for a view are seen in it at a depth in the range, are new, and leave the others alone
VF_CASE(new_points) {
  auto p = options(2); double near = vf::input("near", 1, 5), far = near + vf::input("range", 0.5, 10);
  p.sim_min_feature_gen_distance = near; p.sim_max_feature_gen_distance = far;
  auto s = make(p);
  int cam = vf::choose("camera", 2); M3 R = quat_2_Rot(vf::in_quat("q", false)); V3 place = vf::in_vec3("p", true, -10, 10);
  s->featmap.clear(); s->featmap[0] = V3(1, 2, 3); s->featmap[1] = V3(4, 5, 6); s->id_map = 2;
  s->generate_points(R, place, cam, s->featmap, 2);
  auto map = s->get_map();
  vf::check("as many as asked for", map.size() == 4 && map.count(0) && map.count(1) && s->get_map_vec().size() == 4); if (map.size() != 4) return;
  vf::check_eq("others unchanged", map[0], V3(1, 2, 3)); vf::check_eq("others unchanged", map[1], V3(4, 5, 6));
  M3 Rc = quat_2_Rot(p.camera_extrinsics[cam].block(0, 0, 4, 1)); V3 pc = p.camera_extrinsics[cam].block(4, 0, 3, 1); auto v = p.camera_intrinsics[cam]->get_value();
  std::vector<V3> at;
  for (auto &f : map) {
    if (f.first < 2) continue;
    V3 c = Rc * (R * (f.second - place)) + pc;
    vf::check("depth in the range", vf::land(vf::le(near - 1e-5, c(2)), vf::le(c(2), far + 1e-5)));
    double u = v(0) * c(0) + v(2) * c(2), w = v(1) * c(1) + v(3) * c(2); // pinhole, times depth
    vf::check("inside the image", vf::land(vf::land(vf::le(-1e-3 * c(2), u), vf::le(u, (p.camera_intrinsics[cam]->w() + 1e-3) * c(2))), vf::land(vf::le(-1e-3 * c(2), w), vf::le(w, 480.001 * c(2)))));
    at.push_back(c);
  }
  s->generate_points(R, place, cam, s->featmap, 1); vf::check("later points are new ones", s->featmap.size() == 5);
  vf::reach("end");
}
// guesses handed to the filter: the true values plus noise of the documented size, the truth kept
VF_CASE(perturbed) {
  bool kalibr = vf::choose("kalibr model", 2), imu = vf::choose("inertial calibration", 2), g = vf::choose("gravity sensitivity", 2);
  vf::set_rounded_constants(true); set_draws(false);
  auto p = options(2, true);
  p.state_options.imu_model = kalibr ? StateOptions::ImuModel::KALIBR : StateOptions::ImuModel::RPNG; p.state_options.do_calib_imu_intrinsics = imu; p.state_options.do_calib_imu_g_sensitivity = g;
  p.calib_camimu_dt = vf::input("offset", -1, 1);
  for (int i = 0; i < 2; i++) { Eigen::MatrixXd v = p.camera_intrinsics[i]->get_value(); for (int j = 0; j < 8; j++) v(j) += vf::input("i" + std::to_string(i) + std::to_string(j), -0.1, 0.1); p.camera_intrinsics[i]->set_value(v); for (int j = 4; j < 7; j++) p.camera_extrinsics[i](j) = vf::input("e" + std::to_string(i) + std::to_string(j), -1, 1); }
  for (int j = 0; j < 6; j++) { p.vec_dw(j) += vf::input("dw" + std::to_string(j), -0.1, 0.1); p.vec_da(j) += vf::input("da" + std::to_string(j), -0.1, 0.1); } for (int j = 0; j < 9; j++) p.vec_tg(j) = vf::input("tg" + std::to_string(j), -0.1, 0.1);
  p.q_ACCtoIMU = vf::in_quat("qa", false); p.q_GYROtoIMU = vf::in_quat("qg", false); p.sim_do_perturbation = true;
  VioManagerOptions before = p; std::vector<Eigen::MatrixXd> in0; for (int i = 0; i < 2; i++) in0.push_back(p.camera_intrinsics[i]->get_value());
  auto s = make(p);
  std::vector<double> got;
  auto rotation = [&](const Eigen::Vector4d &q1, const Eigen::Vector4d &q0, double scale) { // R1 = exp(-w) R0 or its inverse: the numbers up to a sign
    M3 E = quat_2_Rot(q1) * quat_2_Rot(q0).transpose();
    vf::check_near("unit quaternion", q1.squaredNorm(), 1.0, 1e-9);
    V3 w(E(2, 1) - E(1, 2), E(0, 2) - E(2, 0), E(1, 0) - E(0, 1)); w = 0.5 * w / scale; for (int k = 0; k < 3; k++) got.push_back(w(k));
  };
  got.push_back((p.calib_camimu_dt - before.calib_camimu_dt) / 0.01);
  for (int i = 0; i < 2; i++) {
    Eigen::MatrixXd v = p.camera_intrinsics[i]->get_value();
    for (int j = 0; j < 8; j++) got.push_back((v(j) - in0[i](j)) / (j < 4 ? 1.0 : 0.005));
    Eigen::Vector4d q1 = p.camera_extrinsics[i].block(0, 0, 4, 1), q0 = before.camera_extrinsics[i].block(0, 0, 4, 1); rotation(q1, q0, 0.001);
    for (int j = 4; j < 7; j++) got.push_back((p.camera_extrinsics[i](j) - before.camera_extrinsics[i](j)) / 0.01);
  }
  if (imu) { for (int j = 0; j < 6; j++) { got.push_back((p.vec_dw(j) - before.vec_dw(j)) / 0.004); got.push_back((p.vec_da(j) - before.vec_da(j)) / 0.004); } if (kalibr) { rotation(p.q_GYROtoIMU, before.q_GYROtoIMU, 0.002); vf::check_eq("reference sensor kept", p.q_ACCtoIMU, before.q_ACCtoIMU); } else { rotation(p.q_ACCtoIMU, before.q_ACCtoIMU, 0.002); vf::check_eq("reference sensor kept", p.q_GYROtoIMU, before.q_GYROtoIMU); } }
  else { vf::check_eq("not calibrated, not perturbed", p.vec_dw, before.vec_dw); vf::check_eq("not calibrated, not perturbed", p.vec_da, before.vec_da); vf::check_eq("not calibrated, not perturbed", p.q_ACCtoIMU, before.q_ACCtoIMU); vf::check_eq("not calibrated, not perturbed", p.q_GYROtoIMU, before.q_GYROtoIMU); }
  if (g) for (int j = 0; j < 9; j++) got.push_back((p.vec_tg(j) - before.vec_tg(j)) / 0.004); else vf::check_eq("not calibrated, not perturbed", p.vec_tg, before.vec_tg);
  std::mt19937 gen(4);
  same_numbers("size of the perturbation", got, draws(gen, (int)got.size()), 1e-2);
  auto q = s->get_true_parameters();
  vf::check_eq("true time offset", q.calib_camimu_dt, before.calib_camimu_dt); vf::check_eq("true scale", q.vec_dw, before.vec_dw); vf::check_eq("true scale", q.vec_da, before.vec_da); vf::check_eq("true sensitivity", q.vec_tg, before.vec_tg);
  vf::check_eq("true frames", q.q_ACCtoIMU, before.q_ACCtoIMU); vf::check_eq("true frames", q.q_GYROtoIMU, before.q_GYROtoIMU);
  for (int i = 0; i < 2; i++) {
    vf::check_eq("true extrinsics", q.camera_extrinsics[i], before.camera_extrinsics[i]); vf::check_eq("true intrinsics", q.camera_intrinsics[i]->get_value(), in0[i]); vf::check("camera objects apart", q.camera_intrinsics[i] != p.camera_intrinsics[i]);
    vf::check("same lens and size", (std::dynamic_pointer_cast<CamEqui>(q.camera_intrinsics[i]) != nullptr) == (i == 0) && q.camera_intrinsics[i]->w() == 640 + 32 * i && q.camera_intrinsics[i]->h() == 480);
  }
  set_draws(true); vf::reach("end");
}
