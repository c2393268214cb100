// Configuration files: every key reaches the setting it names, what is left out keeps its default, calibrations arrive in the filter's conventions
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/core/VioManager.cpp ov_msckf/src/core/VioManagerHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_msckf/src/state/Propagator.cpp ov_msckf/src/update/UpdaterMSCKF.cpp ov_msckf/src/update/UpdaterSLAM.cpp ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/update/UpdaterZeroVelocity.cpp ov_init/src/init/InertialInitializer.cpp ov_core/src/types/Landmark.cpp ov_core/src/feat/Feature.cpp ov_core/src/feat/FeatureDatabase.cpp ov_core/src/feat/FeatureInitializer.cpp ov_core/src/track/TrackBase.cpp ov_core/src/track/TrackSIM.cpp ov_core/src/track/TrackKLT.cpp ov_core/src/track/TrackDescriptor.cpp ov_core/src/track/TrackAruco.cpp
// VF-DEFS: -DENABLE_ARUCO_TAGS=1
// VF-LIFT: opencv_yaml_parse.h
// VF-BUDGET: 60 200
// VF-BOUNDS: files with every key the estimator reads, every real number symbolic; each key left out in turn, each switch on alone, one or two cameras
// VF-OUTSIDE: the YAML grammar beyond maps, lists, words and numbers; masks in other formats than grey maps; overrides by ROS; values the loader refuses by ending the program
#include "vf.h"
#include "state_common.h"
#include "core/VioManagerOptions.h"
#include "core/VioManager.h"
#include "state/Propagator.h"
#include "init/InertialInitializer.h"
#include "dynamic/DynamicInitializer.h"
#include "static/StaticInitializer.h"
#include "update/UpdaterMSCKF.h"
#include "update/UpdaterSLAM.h"
#include "update/UpdaterZeroVelocity.h"
#include "track/TrackKLT.h"
#include "track/TrackDescriptor.h"
#include "track/TrackAruco.h"
#include "feat/FeatureInitializer.h"
#include <fstream>
#include <unistd.h>
// the two ways to start are not run here
namespace ov_init {
bool StaticInitializer::initialize(double &, Eigen::MatrixXd &, std::vector<std::shared_ptr<ov_type::Type>> &, std::shared_ptr<ov_type::IMU>, bool) { return false; }
bool DynamicInitializer::initialize(double &, Eigen::MatrixXd &, std::vector<std::shared_ptr<ov_type::Type>> &, std::shared_ptr<ov_type::IMU> &, std::map<double, std::shared_ptr<ov_type::PoseJPL>> &, std::unordered_map<size_t, std::shared_ptr<ov_type::Landmark>> &) { return false; }
} // namespace ov_init
using namespace ov_msckf;
typedef VioManagerOptions O; typedef std::vector<std::pair<std::string, std::string>> Map;
struct Conf { // the three files
  std::string d; Map main, imu; std::vector<Map> cam;
  Conf() { char n[] = "/tmp/vf-conf-XXXXXX"; d = mkdtemp(n); }
  ~Conf() { for (auto f : {"c.yaml", "i.yaml", "k.yaml", "left.pgm", "right.pgm"}) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
  std::shared_ptr<ov_core::YamlParser> write() {
    { std::ofstream f(d + "/c.yaml"); f << "%YAML:1.0 # kind of file\n\n# a remark\n"; for (auto &x : main) f << x.first << ": " << x.second << " # remark\n"; f << "relative_config_imu: \"i.yaml\" # next\nrelative_config_imucam: \"k.yaml\"\n"; }
    { std::ofstream f(d + "/i.yaml"); f << "%YAML:1.0\n\nimu0:\n"; for (auto &x : imu) f << "  " << x.first << ": " << x.second << "\n"; }
    { std::ofstream f(d + "/k.yaml"); f << "%YAML:1.0\n\n"; for (size_t i = 0; i < cam.size(); i++) { f << "cam" << i << ":\n"; for (auto &x : cam[i]) f << "  " << x.first << ": " << x.second << "\n"; } }
    return std::make_shared<ov_core::YamlParser>(d + "/c.yaml");
  }
};
static Eigen::Vector4d turn(int k) { static const double t[4][3] = {{0.5, 0.25, -0.25}, {-0.25, 0.75, 0.5}, {0.125, -0.5, 0.25}, {0.5, 0.5, -0.75}}; return vf::unit_quat(Eigen::Vector3d(t[k][0], t[k][1], t[k][2])); }
static std::string list(const std::vector<double> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : " ") + vf::text(v[i]); return r + " ]"; }
static std::string rows(const Eigen::MatrixXd &m, bool remark = true) { std::string r = remark ? "# by rows" : ""; for (int i = 0; i < m.rows(); i++) { std::vector<double> v; for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j)); r += "\n    - " + list(v); } return r; }
static Eigen::MatrixXd one(const double &x) { Eigen::MatrixXd m(1, 1); m << x; return m; }
struct Real { const char *key; bool required; int file; double lo, hi; std::function<std::vector<double *>(O &)> at; };
#define AT [](O &o) -> std::vector<double *>
static std::vector<Real> reals() {
  return {
    {"dt_slam_delay", true, 0, 0, 9, AT { return {&o.dt_slam_delay}; }}, {"zupt_max_velocity", true, 0, 0, 9, AT { return {&o.zupt_max_velocity}; }},
    {"zupt_noise_multiplier", true, 0, 0, 9, AT { return {&o.zupt_noise_multiplier}; }}, {"zupt_max_disparity", true, 0, 0, 9, AT { return {&o.zupt_max_disparity}; }},
    {"up_msckf_sigma_px", true, 0, 0.1, 9, AT { return {&o.msckf_options.sigma_pix}; }}, {"up_msckf_chi2_multipler", true, 0, 0.1, 9, AT { return {&o.msckf_options.chi2_multipler}; }},
    {"up_slam_sigma_px", true, 0, 0.1, 9, AT { return {&o.slam_options.sigma_pix, &o.init_options.sigma_pix}; }}, {"up_slam_chi2_multipler", true, 0, 0.1, 9, AT { return {&o.slam_options.chi2_multipler}; }},
    {"up_aruco_sigma_px", true, 0, 0.1, 9, AT { return {&o.aruco_options.sigma_pix}; }}, {"up_aruco_chi2_multipler", true, 0, 0.1, 9, AT { return {&o.aruco_options.chi2_multipler}; }},
    {"zupt_chi2_multipler", true, 0, 0.1, 9, AT { return {&o.zupt_options.chi2_multipler}; }}, {"gravity_mag", true, 0, 9, 10, AT { return {&o.gravity_mag, &o.init_options.gravity_mag}; }},
    {"init_window_time", true, 0, 0.1, 9, AT { return {&o.init_options.init_window_time}; }}, {"init_imu_thresh", true, 0, 0.1, 9, AT { return {&o.init_options.init_imu_thresh}; }},
    {"init_max_disparity", true, 0, 0.1, 9, AT { return {&o.init_options.init_max_disparity}; }}, {"init_dyn_mle_max_time", true, 0, 0.1, 9, AT { return {&o.init_options.init_dyn_mle_max_time}; }},
    {"init_dyn_min_deg", true, 0, 1, 90, AT { return {&o.init_options.init_dyn_min_deg}; }}, {"init_dyn_inflation_ori", true, 0, 1, 90, AT { return {&o.init_options.init_dyn_inflation_orientation}; }},
    {"init_dyn_inflation_vel", true, 0, 1, 90, AT { return {&o.init_options.init_dyn_inflation_velocity}; }}, {"init_dyn_inflation_bg", true, 0, 1, 90, AT { return {&o.init_options.init_dyn_inflation_bias_gyro}; }},
    {"init_dyn_inflation_ba", true, 0, 1, 90, AT { return {&o.init_options.init_dyn_inflation_bias_accel}; }}, {"init_dyn_min_rec_cond", true, 0, 0, 0.5, AT { return {&o.init_options.init_dyn_min_rec_cond}; }},
    {"knn_ratio", true, 0, 0.1, 1, AT { return {&o.knn_ratio}; }}, {"track_frequency", true, 0, 1, 90, AT { return {&o.track_frequency}; }},
    {"fi_init_lamda", false, 0, 0, 1, AT { return {&o.featinit_options.init_lamda}; }}, {"fi_max_lamda", false, 0, 1, 1e6, AT { return {&o.featinit_options.max_lamda}; }},
    {"fi_min_dx", false, 0, 0, 1, AT { return {&o.featinit_options.min_dx}; }}, {"fi_min_dcost", false, 0, 0, 1, AT { return {&o.featinit_options.min_dcost}; }},
    {"fi_lam_mult", false, 0, 1, 90, AT { return {&o.featinit_options.lam_mult}; }}, {"fi_min_dist", false, 0, 0, 1, AT { return {&o.featinit_options.min_dist}; }},
    {"fi_max_dist", false, 0, 1, 90, AT { return {&o.featinit_options.max_dist}; }}, {"fi_max_baseline", false, 0, 1, 90, AT { return {&o.featinit_options.max_baseline}; }},
    {"fi_max_cond_number", false, 0, 1, 1e5, AT { return {&o.featinit_options.max_cond_number}; }},
    {"gyroscope_noise_density", true, 1, 0, 1, AT { return {&o.imu_noises.sigma_w, &o.init_options.sigma_w}; }}, {"gyroscope_random_walk", true, 1, 0, 1, AT { return {&o.imu_noises.sigma_wb, &o.init_options.sigma_wb}; }},
    {"accelerometer_noise_density", true, 1, 0, 1, AT { return {&o.imu_noises.sigma_a, &o.init_options.sigma_a}; }}, {"accelerometer_random_walk", true, 1, 0, 1, AT { return {&o.imu_noises.sigma_ab, &o.init_options.sigma_ab}; }},
    {"timeshift_cam_imu", false, 2, -0.5, 0.5, AT { return {&o.calib_camimu_dt, &o.init_options.calib_camimu_dt}; }},
    {"sim_distance_threshold", true, 0, 0, 9, AT { return {&o.sim_distance_threshold}; }}, {"sim_freq_cam", true, 0, 1, 90, AT { return {&o.sim_freq_cam}; }}, {"sim_freq_imu", true, 0, 1, 900, AT { return {&o.sim_freq_imu}; }},
    {"sim_min_feature_gen_dist", true, 0, 1, 90, AT { return {&o.sim_min_feature_gen_distance}; }}, {"sim_max_feature_gen_dist", true, 0, 1, 90, AT { return {&o.sim_max_feature_gen_distance}; }},
  };
}
struct Whole { const char *key; bool required; int value; std::function<std::vector<int *>(O &)> at; };
#undef AT
#define AT [](O &o) -> std::vector<int *>
static std::vector<Whole> wholes() {
  return {
    {"init_max_features", true, 31, AT { return {&o.init_options.init_max_features}; }}, {"init_dyn_mle_max_iter", true, 32, AT { return {&o.init_options.init_dyn_mle_max_iter}; }},
    {"init_dyn_mle_max_threads", true, 3, AT { return {&o.init_options.init_dyn_mle_max_threads}; }}, {"init_dyn_num_pose", true, 7, AT { return {&o.init_options.init_dyn_num_pose}; }},
    {"max_clones", true, 12, AT { return {&o.state_options.max_clone_size}; }}, {"max_slam", true, 33, AT { return {&o.state_options.max_slam_features}; }},
    {"max_slam_in_update", true, 34, AT { return {&o.state_options.max_slam_in_update}; }}, {"max_msckf_in_update", true, 35, AT { return {&o.state_options.max_msckf_in_update}; }},
    {"num_aruco", true, 36, AT { return {&o.state_options.max_aruco_features}; }}, {"max_cameras", true, 2, AT { return {&o.state_options.num_cameras, &o.init_options.num_cameras}; }},
    {"num_opencv_threads", true, 2, AT { return {&o.num_opencv_threads}; }}, {"num_pts", true, 37, AT { return {&o.num_pts}; }}, {"fast_threshold", true, 38, AT { return {&o.fast_threshold}; }},
    {"grid_x", true, 8, AT { return {&o.grid_x}; }}, {"grid_y", true, 9, AT { return {&o.grid_y}; }}, {"min_px_dist", true, 11, AT { return {&o.min_px_dist}; }},
    {"fi_max_runs", false, 13, AT { return {&o.featinit_options.max_runs}; }}, {"sim_seed_state_init", true, 41, AT { return {&o.sim_seed_state_init}; }},
    {"sim_seed_preturb", true, 42, AT { return {&o.sim_seed_preturb}; }}, {"sim_seed_measurements", true, 43, AT { return {&o.sim_seed_measurements}; }},
  };
}
struct Switch { const char *key; bool required; std::function<std::vector<bool *>(O &)> at; };
#undef AT
#define AT [](O &o) -> std::vector<bool *>
static std::vector<Switch> switches() {
  return {
    {"use_fej", true, AT { return {&o.state_options.do_fej}; }}, {"calib_cam_extrinsics", true, AT { return {&o.state_options.do_calib_camera_pose}; }},
    {"calib_cam_intrinsics", true, AT { return {&o.state_options.do_calib_camera_intrinsics}; }}, {"calib_cam_timeoffset", true, AT { return {&o.state_options.do_calib_camera_timeoffset}; }},
    {"calib_imu_intrinsics", true, AT { return {&o.state_options.do_calib_imu_intrinsics}; }}, {"calib_imu_g_sensitivity", true, AT { return {&o.state_options.do_calib_imu_g_sensitivity}; }},
    {"try_zupt", true, AT { return {&o.try_zupt}; }}, {"zupt_only_at_beginning", true, AT { return {&o.zupt_only_at_beginning}; }}, {"record_timing_information", true, AT { return {&o.record_timing_information}; }},
    {"init_dyn_use", true, AT { return {&o.init_options.init_dyn_use}; }}, {"init_dyn_mle_opt_calib", true, AT { return {&o.init_options.init_dyn_mle_opt_calib}; }},
    {"use_stereo", true, AT { return {&o.use_stereo, &o.init_options.use_stereo}; }}, {"use_klt", true, AT { return {&o.use_klt}; }}, {"use_aruco", true, AT { return {&o.use_aruco}; }},
    {"downsize_aruco", true, AT { return {&o.downsize_aruco}; }}, {"downsample_cameras", true, AT { return {&o.downsample_cameras, &o.init_options.downsample_cameras}; }},
    {"multi_threading_pubs", false, AT { return {&o.use_multi_threading_pubs}; }}, {"multi_threading_subs", false, AT { return {&o.use_multi_threading_subs}; }},
    {"fi_triangulate_1d", false, AT { return {&o.featinit_options.triangulate_1d}; }}, {"fi_refine_features", false, AT { return {&o.featinit_options.refine_features}; }}, {"sim_do_perturbation", true, AT { return {&o.sim_do_perturbation}; }},
  };
}
static Map plain_camera(double extra = 0) { // a camera with nothing special; the numbers are exact in both builds
  Eigen::MatrixXd T = Eigen::MatrixXd::Identity(4, 4); T(0, 3) = extra;
  return {{"T_imu_cam", rows(T)}, {"camera_model", "pinhole"}, {"distortion_coeffs", list({0.25, 0.125, 0.0625, 0.03125})}, {"distortion_model", "radtan"}, {"intrinsics", list({400 + extra, 410, 320, 240}) + " # fu, fv, cu, cv"}, {"resolution", "[640, 480]"}};
}
static Map plain_imu() {
  Eigen::MatrixXd I = Eigen::MatrixXd::Identity(3, 3), Z = Eigen::MatrixXd::Zero(3, 3);
  return {{"model", "\"kalibr\""}, {"Tw", rows(I)}, {"R_IMUtoGYRO", rows(I)}, {"Ta", rows(I)}, {"R_IMUtoACC", rows(I)}, {"Tg", rows(Z)}};
}
struct Full : Conf { std::map<std::string, double> value; };
static void add_reals(Full &c, bool symbolic) { int i = 0; for (auto &r : reals()) { double v = r.lo + (r.hi - r.lo) * double(0.5); if (symbolic) v = vf::input(r.key, r.lo, r.hi); i++; c.value[r.key] = v; (r.file == 0 ? c.main : r.file == 1 ? c.imu : c.cam[0]).push_back({r.key, vf::text(v)}); } }
static void fill(Full &c, bool symbolic, int on = -1, const char *yes = "true", const char *no = "false") {
  c.imu = plain_imu(); c.cam = {plain_camera(), plain_camera(0.5)}; add_reals(c, symbolic);
  for (auto &w : wholes()) c.main.push_back({w.key, std::to_string(w.value)});
  int i = 0; for (auto &s : switches()) c.main.push_back({s.key, i++ == on ? yes : no});
  c.main.push_back({"use_mask", no}); c.main.push_back({"integration", "\"rk4\""}); c.main.push_back({"histogram_method", "\"HISTOGRAM\""});
  for (auto k : {"feat_rep_msckf", "feat_rep_slam", "feat_rep_aruco"}) c.main.push_back({k, "\"GLOBAL_3D\""});
  c.main.push_back({"record_timing_filepath", "\"/tmp/where.txt\""}); c.main.push_back({"sim_traj_path", "\"some/path.txt\""});
  c.main.push_back({"init_dyn_bias_g", list({0.5, 0.25, 0.125})}); c.main.push_back({"init_dyn_bias_a", list({1.5, 1.25, 1.125})});
}
static bool load(O &o, Conf &c) { auto p = c.write(); o.print_and_load(p); o.print_and_load_simulation(p); return p->successful(); }
static void set(Map &m, const std::string &k, const std::string &v) { for (auto &x : m) if (x.first == k) { x.second = v; return; } m.push_back({k, v}); }
static bool drop(Map &m, const std::string &k) { for (size_t i = 0; i < m.size(); i++) if (m[i].first == k) { m.erase(m.begin() + i); return true; } return false; }
// every key, every real number a symbol of its own
VF_CASE(numbers) {
  Full c; fill(c, true); O o; bool ok = load(o, c); vf::check("everything was found", ok);
  for (auto &r : reals()) for (double *x : r.at(o)) vf::check_eq(std::string("the setting is the file's: ") + r.key, one(*x), one(c.value[r.key]));
  for (auto &w : wholes()) for (int *x : w.at(o)) vf::check(std::string("the setting is the file's: ") + w.key, *x == w.value);
  for (auto &s : switches()) for (bool *x : s.at(o)) vf::check(std::string("off as the file says: ") + s.key, !*x);
  vf::check("texts", o.record_timing_filepath == "/tmp/where.txt" && o.sim_traj_path == "some/path.txt");
  for (auto u : {&o.msckf_options, &o.slam_options, &o.aruco_options}) vf::check_eq("the variance is the square of the deviation", one(u->sigma_pix_sq), one(u->sigma_pix * u->sigma_pix));
  Eigen::MatrixXd b(3, 2), w(3, 2); b << o.init_options.init_dyn_bias_g, o.init_options.init_dyn_bias_a; w << 0.5, 1.5, 0.25, 1.25, 0.125, 1.125; vf::check_eq("guesses of the biases", b, w);
  vf::reach("end");
}
// one switch on, in one of the ways to say so
VF_CASE(switches) {
  auto sw = switches(); int on = vf::choose("on", (int)sw.size()), how = on % 6; static const char *yes[] = {"true", "True", "1", "TRUE", "\"true\"", "\"1\""}, *no[] = {"false", "False", "0", "FALSE", "\"false\"", "\"0\""};
  Full c; fill(c, false, on, yes[how], no[(how + on / 6) % 6]); O o; bool ok = load(o, c); vf::check("everything was found", ok);
  for (size_t i = 0; i < sw.size(); i++) for (bool *x : sw[i].at(o)) vf::check(std::string((int)i == on ? "on as the file says: " : "off as the file says: ") + sw[i].key, *x == ((int)i == on));
  vf::reach("end");
}
// one key left out: its default stays, the rest are as configured, and the loss of one that is required is reported
VF_CASE(absent) {
  auto re = reals(); auto wh = wholes(); auto sw = switches(); static const char *words[] = {"integration", "histogram_method", "feat_rep_msckf", "use_mask", "record_timing_filepath", "init_dyn_bias_g"};
  int n = (int)(re.size() + wh.size() + sw.size()), k = vf::choose("absent", n + 6); Full c; fill(c, false); std::string key; bool required = true;
  if (k < (int)re.size()) key = re[k].key, required = re[k].required; else if (k < (int)(re.size() + wh.size())) key = wh[k - re.size()].key, required = wh[k - re.size()].required; else if (k < n) key = sw[k - re.size() - wh.size()].key, required = sw[k - re.size() - wh.size()].required; else key = words[k - n];
  if (key == "max_cameras") c.cam.resize(1);
  bool gone = drop(c.main, key) || drop(c.imu, key) || drop(c.cam[0], key); vf::check("it was there", gone);
  O o, d; bool ok = load(o, c); vf::check(required ? "reported" : "not needed", ok != required);
  for (auto &r : re) { auto a = r.at(o), b = r.at(d); for (size_t i = 0; i < a.size(); i++) if (key == r.key) vf::check_eq("the default stays", one(*a[i]), one(*b[i])); else vf::check_eq("the others are as configured", one(*a[i]), one(c.value[r.key])); }
  for (auto &w : wh) { auto a = w.at(o), b = w.at(d); for (size_t i = 0; i < a.size(); i++) if (key == w.key) vf::check("the default stays", *a[i] == *b[i]); else vf::check("the others are as configured", *a[i] == w.value); }
  for (auto &s : sw) { auto a = s.at(o), b = s.at(d); for (size_t i = 0; i < a.size(); i++) if (key == s.key) vf::check("the default stays", *a[i] == *b[i]); else vf::check("the others are as configured", !*a[i]); }
  vf::check("the default method of integration is as configured", o.state_options.integration_method == StateOptions::RK4); vf::reach("end");
}
VF_CASE(words) {
  Full c; fill(c, false); typedef ov_type::LandmarkRepresentation::Representation R; static const char *rep[] = {"GLOBAL_3D", "GLOBAL_FULL_INVERSE_DEPTH", "ANCHORED_3D", "ANCHORED_FULL_INVERSE_DEPTH", "ANCHORED_MSCKF_INVERSE_DEPTH", "ANCHORED_INVERSE_DEPTH_SINGLE"};
  const R want[] = {R::GLOBAL_3D, R::GLOBAL_FULL_INVERSE_DEPTH, R::ANCHORED_3D, R::ANCHORED_FULL_INVERSE_DEPTH, R::ANCHORED_MSCKF_INVERSE_DEPTH, R::ANCHORED_INVERSE_DEPTH_SINGLE};
  int k = vf::choose("word", 18); const char *integ[] = {"discrete", "rk4", "analytical"}, *hist[] = {"NONE", "HISTOGRAM", "CLAHE"}, *model[] = {"kalibr", "rpng", "calibrated"}; auto q = [](const char *s) { return "\"" + std::string(s) + "\""; };
  set(c.main, "feat_rep_msckf", q(rep[k % 6])); set(c.main, "feat_rep_slam", q(rep[(k + 1) % 6])); set(c.main, "feat_rep_aruco", q(rep[(k + 2) % 6])); set(c.main, "integration", q(integ[k % 3])); set(c.main, "histogram_method", q(hist[(k / 2) % 3])); set(c.imu, "model", q(model[(k / 6) % 3]));
  O o; bool ok = load(o, c); vf::check("everything was found", ok);
  vf::check("the representations", o.state_options.feat_rep_msckf == want[k % 6] && o.state_options.feat_rep_slam == want[(k + 1) % 6] && o.state_options.feat_rep_aruco == want[(k + 2) % 6]);
  vf::check("the integration", o.state_options.integration_method == (k % 3 == 0 ? StateOptions::DISCRETE : k % 3 == 1 ? StateOptions::RK4 : StateOptions::ANALYTICAL));
  vf::check("the histogram method", o.histogram_method == ((k / 2) % 3 == 0 ? ov_core::TrackBase::NONE : (k / 2) % 3 == 1 ? ov_core::TrackBase::HISTOGRAM : ov_core::TrackBase::CLAHE));
  vf::check("the model of the IMU", o.state_options.imu_model == ((k / 6) % 3 == 1 ? StateOptions::RPNG : StateOptions::KALIBR)); vf::reach("end");
}
VF_CASE(cameras) {
  Full c; fill(c, false); int n = 1 + vf::choose("cameras", 2), half = vf::choose("halved", 2), form = vf::choose("form", 2), fish = vf::choose("fisheye", 2); set(c.main, "max_cameras", std::to_string(n)); set(c.main, "downsample_cameras", half ? "true" : "false");
  std::vector<Eigen::Matrix3d> R; std::vector<Eigen::Vector3d> p; std::vector<std::vector<double>> in(2); std::vector<double> dt; const int wh[2][2] = {{753, 481}, {640, 400}};
  (void)0; for (int i = 0; i < 2; i++) {
    std::string s = std::to_string(i); Eigen::Vector4d q = turn(i); R.push_back(ov_core::quat_2_Rot(q)); p.push_back(vf::in_vec3("p" + s, true, -2, 2)); // p: of the IMU in the camera
    for (int j = 0; j < 8; j++) in[i].push_back(vf::input("in" + s + std::to_string(j), j < 4 ? 100 : -1, j < 4 ? 600 : 1)); dt.push_back(vf::input("dt" + s, -0.5, 0.5));
    Eigen::MatrixXd T = Eigen::MatrixXd::Identity(4, 4); if (form == i) { T.block(0, 0, 3, 3) = R[i].transpose(); T.block(0, 3, 3, 1) = -R[i].transpose() * p[i]; } else { T.block(0, 0, 3, 3) = R[i]; T.block(0, 3, 3, 1) = p[i]; }
    c.cam[i] = {{"timeshift_cam_imu", vf::text(dt[i])}, {form == i ? "T_imu_cam" : "T_cam_imu", rows(T)}, {"distortion_coeffs", list({in[i][4], in[i][5], in[i][6], in[i][7]})}, {"distortion_model", (i ^ fish) ? "equidistant" : "radtan"}, {"intrinsics", list({in[i][0], in[i][1], in[i][2], in[i][3]})}, {"resolution", "[" + std::to_string(wh[i][0]) + ", " + std::to_string(wh[i][1]) + "]"}};
  }
  O o; bool ok = load(o, c); vf::check("everything was found", ok);
  vf::check_eq("the offset of the first camera's clock", one(o.calib_camimu_dt), one(dt[0])); vf::check_eq("the start knows the same offset", one(o.init_options.calib_camimu_dt), one(dt[0]));
  for (int w = 0; w < 2; w++) { auto cams = o.camera_intrinsics; auto ext = o.camera_extrinsics; if (w) cams = o.init_options.camera_intrinsics, ext = o.init_options.camera_extrinsics; const std::string who = w ? " (start)" : "";
    vf::check("as many cameras as configured" + who, (int)cams.size() == n && (int)ext.size() == n);
    for (int i = 0; i < n; i++) { if (!cams.count(i) || !ext.count(i)) continue; auto cam = cams.at(i);
      vf::check("the camera's model" + who, (std::dynamic_pointer_cast<ov_core::CamEqui>(cam) != nullptr) == bool(i ^ fish) && (std::dynamic_pointer_cast<ov_core::CamRadtan>(cam) != nullptr) == !(i ^ fish)); vf::check("the image's size" + who, cam->w() == (half ? wh[i][0] / 2 : wh[i][0]) && cam->h() == (half ? wh[i][1] / 2 : wh[i][1]));
      Eigen::MatrixXd v = cam->get_value(), want(8, 1); for (int j = 0; j < 8; j++) { want(j) = in[i][j]; if (half && j < 4) want(j) = in[i][j] * double(0.5); } vf::check_eq("intrinsics and distortion" + who, v, want);
      Eigen::VectorXd e = ext.at(i); vf::check_eq("orientation of the IMU in the camera" + who, Eigen::MatrixXd(ov_core::quat_2_Rot(e.block(0, 0, 4, 1))), Eigen::MatrixXd(R[i])); vf::check_eq("position of the IMU in the camera" + who, Eigen::MatrixXd(e.block(4, 0, 3, 1)), Eigen::MatrixXd(p[i])); } }
  vf::reach("end");
}
VF_CASE(imu) {
  Full c; fill(c, false); int rpng = vf::choose("rpng", 2), k = vf::choose("entry", 6), i = 0, j = 0; set(c.imu, "model", rpng ? "\"rpng\"" : "\"kalibr\"");
  // the k-th of the six entries, column by column of the triangle the model keeps
  const int lower[6][2] = {{0, 0}, {1, 0}, {2, 0}, {1, 1}, {2, 1}, {2, 2}}, upper[6][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}, {2, 2}}; i = rpng ? upper[k][0] : lower[k][0]; j = rpng ? upper[k][1] : lower[k][1];
  double dw = vf::input("dw", 0.02, 0.3), da = vf::input("da", -0.3, -0.02); Eigen::MatrixXd Tw = Eigen::MatrixXd::Identity(3, 3), Ta = Tw, Tg = vf::rnds("g", 3, 3, -1, 1); double one_ = 1; // D = I + d E, T = inverse of D
  if (i == j) { Tw(i, i) = one_ / (one_ + dw); Ta(i, i) = one_ / (one_ + da); } else { Tw(i, j) = -dw; Ta(i, j) = -da; }
  Eigen::MatrixXd g = Tg; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) g(a, b) = vf::input("g" + std::to_string(3 * a + b), -1, 1);
  Eigen::Matrix3d Rw = ov_core::quat_2_Rot(turn(2)), Ra = ov_core::quat_2_Rot(turn(3));
  set(c.imu, "Tw", rows(Tw)); set(c.imu, "Ta", rows(Ta, false)); set(c.imu, "Tg", rows(g)); set(c.imu, "R_IMUtoGYRO", rows(Rw)); set(c.imu, "R_IMUtoACC", rows(Ra));
  O o; bool ok = load(o, c); vf::check("everything was found", ok);
  Eigen::MatrixXd w(6, 2), got(6, 2); for (int a = 0; a < 6; a++) { bool diag = rpng ? upper[a][0] == upper[a][1] : lower[a][0] == lower[a][1]; w(a, 0) = w(a, 1) = diag ? 1 : 0; } w(k, 0) += dw; w(k, 1) += da; got << o.vec_dw, o.vec_da; vf::check_eq("scales and misalignments undo the sensors', column by column", got, w);
  Eigen::MatrixXd tg(9, 1); for (int b = 0; b < 3; b++) for (int a = 0; a < 3; a++) tg(3 * b + a) = g(a, b); vf::check_eq("sensitivity to gravity, column by column", Eigen::MatrixXd(o.vec_tg), tg);
  vf::check_eq("from the gyroscope to the IMU", Eigen::MatrixXd(ov_core::quat_2_Rot(o.q_GYROtoIMU)), Eigen::MatrixXd(Rw.transpose())); vf::check_eq("from the accelerometer to the IMU", Eigen::MatrixXd(ov_core::quat_2_Rot(o.q_ACCtoIMU)), Eigen::MatrixXd(Ra.transpose()));
  vf::reach("end");
}
// each camera's mask is the picture named for it, of the size of the camera's images as they arrive
VF_CASE(masks) {
  Full c; fill(c, false); int n = 1 + vf::choose("cameras", 2), half = vf::choose("halved", 2), swap = vf::choose("names", 2); const char *name[] = {"left.pgm", "right.pgm"}; const int wh[2][2] = {{12, 8}, {6, 10}}; std::vector<uchar> px[2];
  set(c.main, "max_cameras", std::to_string(n)); set(c.main, "downsample_cameras", half ? "true" : "false"); set(c.main, "use_mask", "true");
  for (int i = 0; i < 2; i++) {
    set(c.cam[i], "resolution", "[" + std::to_string(wh[i][0]) + ", " + std::to_string(wh[i][1]) + "]"); c.main.push_back({"mask" + std::to_string(i), "\"" + std::string(name[i ^ swap]) + "\""});
    for (int k = 0; k < wh[i][0] * wh[i][1]; k++) px[i].push_back((k * 7 + i) % 5 < 2 ? 255 : 0);
    std::ofstream f(c.d + "/" + name[i ^ swap]); f << "P5\n" << wh[i][0] << " " << wh[i][1] << "\n255\n"; f.write((const char *)px[i].data(), (long)px[i].size());
  }
  O o; bool ok = load(o, c); vf::check("everything was found", ok); vf::check("masks are used", o.use_mask); vf::check("as many as there are cameras", (int)o.masks.size() == n);
  for (int i = 0; i < n; i++) { vf::check("one for each camera", o.masks.count(i) == 1); if (!o.masks.count(i)) continue; cv::Mat m = o.masks.at(i); bool size = m.cols == wh[i][0] && m.rows == wh[i][1]; vf::check("the size of the camera's images", size); if (!size) continue;
    bool same = true; for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) same = same && m.at<uchar>(y, x) == px[i][(size_t)(y * m.cols + x)]; vf::check("the picture itself", same); }
  vf::reach("end");
}
// what the filter is built from
VF_CASE(built) {
  int klt = vf::choose("klt", 2), aruco = vf::choose("aruco", 2), zupt = vf::choose("zupt", 2), stereo = vf::choose("stereo", 2); O o; o.use_klt = klt; o.use_aruco = aruco; o.try_zupt = zupt; o.use_stereo = stereo; o.downsize_aruco = stereo; o.init_options.init_max_features = 31; o.state_options.num_cameras = 2;
  std::map<std::string, double> v; for (auto &r : reals()) { double x = vf::input(r.key, r.lo, r.hi); v[r.key] = x; for (double *y : r.at(o)) *y = x; } for (auto &w : wholes()) for (int *x : w.at(o)) *x = w.value;
  o.init_options.num_cameras = 2; Eigen::MatrixXd dw = vf::rnds("dw", 6, 1, -1, 1), da = vf::rnds("da", 6, 1, -1, 1), tg = vf::rnds("tg", 9, 1, -1, 1); for (int a = 0; a < 9; a++) { if (a < 6) dw(a) = vf::input("w" + std::to_string(a), -1, 1), da(a) = vf::input("a" + std::to_string(a), -1, 1); tg(a) = vf::input("g" + std::to_string(a), -1, 1); } o.vec_dw = dw; o.vec_da = da; o.vec_tg = tg; o.q_GYROtoIMU = turn(2); o.q_ACCtoIMU = turn(3);
  std::vector<Eigen::MatrixXd> in, ex; for (int i = 0; i < 2; i++) { Eigen::MatrixXd a(8, 1), e(7, 1); for (int j = 0; j < 8; j++) a(j) = vf::input("in" + std::to_string(8 * i + j), 1, 9); Eigen::Vector4d q = turn(i); e << q, vf::in_vec3("p" + std::to_string(i), true, -2, 2); in.push_back(a); ex.push_back(e); o.camera_intrinsics[i] = std::make_shared<ov_core::CamRadtan>(640, 480); o.camera_intrinsics[i]->set_value(a); o.camera_extrinsics[i] = e; } o.init_options.camera_intrinsics = o.camera_intrinsics; o.init_options.camera_extrinsics = o.camera_extrinsics;
  for (auto u : {&o.msckf_options, &o.slam_options, &o.aruco_options}) u->sigma_pix_sq = u->sigma_pix * u->sigma_pix;
  VioManager m(o); auto s = m.get_state(); auto both = [&](const char *n, std::shared_ptr<ov_type::Type> t, const Eigen::MatrixXd &w) { vf::check_eq(n, Eigen::MatrixXd(t->value()), w); vf::check_eq(std::string("first estimate: ") + n, Eigen::MatrixXd(t->fej()), w); };
  both("gyroscope intrinsics", s->_calib_imu_dw, dw); both("accelerometer intrinsics", s->_calib_imu_da, da); both("sensitivity to gravity", s->_calib_imu_tg, tg); both("from the gyroscope", s->_calib_imu_GYROtoIMU, Eigen::MatrixXd(o.q_GYROtoIMU)); both("from the accelerometer", s->_calib_imu_ACCtoIMU, Eigen::MatrixXd(o.q_ACCtoIMU)); both("time offset", s->_calib_dt_CAMtoIMU, one(v["timeshift_cam_imu"]));
  for (int i = 0; i < 2; i++) { both("camera intrinsics", s->_cam_intrinsics.at(i), in[i]); both("camera extrinsics", s->_calib_IMUtoCAM.at(i), ex[i]); vf::check_eq("the camera itself", Eigen::MatrixXd(s->_cam_intrinsics_cameras.at(i)->get_value()), in[i]); }
  auto track = m.trackFEATS; auto T = std::dynamic_pointer_cast<ov_core::TrackKLT>(track); auto D = std::dynamic_pointer_cast<ov_core::TrackDescriptor>(track); vf::check("the configured tracker", (T != nullptr) == (klt == 1) && (D != nullptr) == (klt == 0)); vf::check("features until started: shared by the cameras", track->get_num_features() == 15);
  vf::check("stereo as configured", track->use_stereo == bool(stereo)); vf::check("histogram as configured", track->histogram_method == o.histogram_method); vf::check("identities start above those of the tags", (size_t)track->currid > (size_t)4 * 36);
  if (T) vf::check("settings of the tracker", T->threshold == 38 && T->grid_x == 8 && T->grid_y == 9 && T->min_px_dist == 11);
  if (D) { vf::check("settings of the tracker", D->threshold == 38 && D->grid_x == 8 && D->grid_y == 9 && D->min_px_dist == 11); vf::check_eq("ratio of the matches", one(D->knn_ratio), one(v["knn_ratio"])); }
  auto A = std::dynamic_pointer_cast<ov_core::TrackAruco>(m.trackARUCO); vf::check("tags as configured", (A != nullptr) == (aruco == 1)); if (A) vf::check("settings of the tags", A->max_tag_id == 36 && A->do_downsizing == bool(stereo) && A->use_stereo == bool(stereo));
  auto noises = [&](NoiseManager &n, const std::string &who) { double w = v["gyroscope_noise_density"], wb = v["gyroscope_random_walk"], a = v["accelerometer_noise_density"], ab = v["accelerometer_random_walk"]; Eigen::MatrixXd g(8, 1), x(8, 1); g << n.sigma_w, n.sigma_wb, n.sigma_a, n.sigma_ab, n.sigma_w_2, n.sigma_wb_2, n.sigma_a_2, n.sigma_ab_2; x << w, wb, a, ab, w * w, wb * wb, a * a, ab * ab; vf::check_eq("noises and their squares: " + who, g, x); };
  noises(m.propagator->_noises, "propagation"); Eigen::MatrixXd gr(3, 1); gr << 0, 0, v["gravity_mag"]; vf::check_eq("gravity of the propagation", Eigen::MatrixXd(m.propagator->_gravity), gr);
  auto upd = [&](UpdaterOptions &u, const char *n) { double sg = v[std::string("up_") + n + "_sigma_px"]; Eigen::MatrixXd g(3, 1), x(3, 1); g << u.sigma_pix, u.sigma_pix_sq, u.chi2_multipler; x << sg, sg * sg, v[std::string("up_") + n + "_chi2_multipler"]; vf::check_eq(std::string("settings of the update: ") + n, g, x); };
  upd(m.updaterMSCKF->_options, "msckf"); upd(m.updaterSLAM->_options_slam, "slam"); upd(m.updaterSLAM->_options_aruco, "aruco");
  for (auto f : {m.updaterMSCKF->initializer_feat->config(), m.updaterSLAM->initializer_feat->config()}) { Eigen::MatrixXd g(9, 1), x(9, 1); g << f.init_lamda, f.max_lamda, f.min_dx, f.min_dcost, f.lam_mult, f.min_dist, f.max_dist, f.max_baseline, f.max_cond_number; x << v["fi_init_lamda"], v["fi_max_lamda"], v["fi_min_dx"], v["fi_min_dcost"], v["fi_lam_mult"], v["fi_min_dist"], v["fi_max_dist"], v["fi_max_baseline"], v["fi_max_cond_number"]; vf::check_eq("settings of the triangulation", g, x); vf::check("runs of the triangulation", f.max_runs == 13); }
  vf::check("a test for standing still as configured", (m.updaterZUPT != nullptr) == (zupt == 1));
  if (m.updaterZUPT) { auto &z = *m.updaterZUPT; noises(z._noises, "standing still"); Eigen::MatrixXd g(5, 1), x(5, 1); g << z._options.chi2_multipler, z._zupt_max_velocity, z._zupt_noise_multiplier, z._zupt_max_disparity, z._gravity(2); x << v["zupt_chi2_multipler"], v["zupt_max_velocity"], v["zupt_noise_multiplier"], v["zupt_max_disparity"], v["gravity_mag"]; vf::check_eq("settings of the test for standing still", g, x); vf::check("it sees the tracker's features", z._db == track->get_feature_database() && z._prop == m.propagator); }
  auto &I = m.initializer->params; { Eigen::MatrixXd g(7, 1), x(7, 1); g << I.init_window_time, I.init_imu_thresh, I.init_max_disparity, I.init_dyn_min_deg, I.gravity_mag, I.calib_camimu_dt, I.sigma_w; x << v["init_window_time"], v["init_imu_thresh"], v["init_max_disparity"], v["init_dyn_min_deg"], v["gravity_mag"], v["timeshift_cam_imu"], v["gyroscope_noise_density"]; vf::check_eq("settings of the start", g, x); vf::check("the start sees the tracker's features", m.initializer->_db == track->get_feature_database()); }
  vf::reach("end");
}
