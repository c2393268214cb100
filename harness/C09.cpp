// The simulation spline: cumulative cubic B-spline on SE(3), its derivatives and its domain
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/sim/BsplineSE3.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: four to six control poses with every translation and seeded Pythagorean relative rotations (or none), every time inside the segment; trajectories of up to six poses at uniform and irregular times with every position
// VF-OUTSIDE: rounding; symbolic relative rotations; segment ends closer than 5 percent of the spacing (the segment start itself is covered)
#include "vf.h"
#include "sim/BsplineSE3.h"
using namespace ov_core;
typedef Eigen::Matrix4d M4; typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3;
// a rotation by a Pythagorean angle about a rational axis
static M3 turn(int k) {
  static const double cs[4][2] = {{4. / 5, 3. / 5}, {12. / 13, 5. / 13}, {15. / 17, 8. / 17}, {24. / 25, 7. / 25}};
  static const double ax[4][3] = {{2, 1, 2}, {-2, 2, 1}, {1, -2, 2}, {2, -1, 2}};
  V3 u(ax[k % 4][0] / 3, ax[k % 4][1] / 3, ax[k % 4][2] / 3);
  M3 K = skew_x(u);
  return M3::Identity() + cs[k % 4][1] * K + (1 - cs[k % 4][0]) * K * K;
}
static M4 pose(const M3 &R, const V3 &p) { M4 T = M4::Identity(); T.block(0, 0, 3, 3) = R; T.block(0, 3, 3, 1) = p; return T; }
static std::vector<M4> controls(int n, int rot, bool symbolic) { // rot: how many of the increments turn
  std::vector<M4> r;
  M3 R = turn(3);
  for (int i = 0; i < n; i++) { if (i && rot >> (i - 1) & 1) R = R * turn(i - 1); r.push_back(pose(R, vf::in_vec3("p" + std::to_string(i), symbolic, -50, 50))); }
  return r;
}
static const double t0 = 100, DT = 0.125;
static void give(BsplineSE3 &b, const std::vector<M4> &c) { for (size_t i = 0; i < c.size(); i++) b.control_points.insert({t0 + (int)i * DT, c[i]}); b.dt = DT; b.timestamp_start = t0 + 2 * DT; }
static void same_pose(const std::string &n, const M3 &R, const V3 &p, const M4 &T) { vf::check_eq(n, M3(R.transpose()), M3(T.block(0, 0, 3, 3))); vf::check_eq(n, p, V3(T.block(0, 3, 3, 1)), 50); }
static void run(int rot, bool start, int part) {
  BsplineSE3 b;
  vf::set_half_angles(true); vf::set_angle_terms(1);
  auto c = controls(5, rot, part != 2);
  give(b, c);
  c.erase(c.begin());
  double u = 0;
  if (!start) u = vf::input("u", 0.05, 0.95);
  double t = t0 + 2 * DT + u * DT;
  M3 R, R2, R3; V3 p, p2, p3, w, w2, v, v2, al, a;
  vf::check("inside the trajectory", b.get_pose(t, R, p) && b.get_velocity(t, R2, p2, w, v) && b.get_acceleration(t, R3, p3, w2, v2, al, a));
  if (part == 0) {
    // cumulative basis from the uniform cubic one
    double B1 = (3 * u * u * u - 6 * u * u + 4) / 6, B2 = (-3 * u * u * u + 3 * u * u + 3 * u + 1) / 6, B3 = u * u * u / 6;
    M4 T = c[0];
    double cum[3] = {B1 + B2 + B3, B2 + B3, B3};
    for (int i = 0; i < 3; i++) T = T * exp_se3(cum[i] * log_se3(Inv_se3(c[i]) * c[i + 1]));
    same_pose("pose", R, p, T);
    same_pose("pose from the velocity query", R2, p2, T); same_pose("pose from the acceleration query", R3, p3, T);
    vf::check_eq("velocities from both queries", w, w2); vf::check_eq("velocities from both queries", v, v2);
  } else if (part == 1) {
    auto f = [&](const Eigen::VectorXd &e) { M3 R; V3 p; b.get_pose(t + e(0), R, p); Eigen::VectorXd y(12); y << R.transpose().col(0), R.transpose().col(1), R.transpose().col(2), p; return y; };
    Eigen::VectorXd d = vf::jacobian(f, 1, 0.1);
    M3 X = R.transpose() * skew_x(w);
    vf::check_eq("angular velocity is the rate of orientation", d.head(9), (Eigen::VectorXd(9) << X.col(0), X.col(1), X.col(2)).finished());
    vf::check_eq("velocity is the rate of position", d.tail(3), v, 50);
  } else {
    auto f = [&](const Eigen::VectorXd &e) { M3 R; V3 p, w, v; b.get_velocity(t + e(0), R, p, w, v); Eigen::VectorXd y(6); y << w, v; return y; };
    Eigen::VectorXd d = vf::jacobian(f, 1, 0.1);
    vf::check_eq("angular acceleration is the rate of angular velocity", d.head(3), al, 50);
    vf::check_eq("acceleration is the rate of velocity", d.tail(3), a, 500);
  }
  vf::reach("end");
}
VF_CASE(pose_turning) { run(14, vf::choose("at a control point", 2), 0); }
VF_CASE(pose_straight) { run(2 * vf::choose("which turns", 4), vf::choose("at a control point", 2), 0); }
VF_CASE(rates_turning) { static const int r[4] = {6, 10, 12, 14}; run(r[vf::choose("which turns", vf::thorough() ? 4 : 3)], vf::choose("at a control point", 2), 1); }
VF_CASE(rates_straight) { run(2 * vf::choose("which turns", 4), vf::choose("at a control point", 2), 1); }
VF_CASE(accelerations_turning) { run(vf::thorough() ? 14 : 12, vf::choose("at a control point", 2), 2); }
VF_CASE(accelerations_straight) { run(2 * vf::choose("which turns", vf::thorough() ? 4 : 3), vf::choose("at a control point", 2), 2); }
VF_CASE(steady_motion) { // equal increments are followed exactly
  BsplineSE3 b;
  std::vector<M4> c;
  V3 inc = vf::in_vec3("inc", true, -5, 5);
  M4 T = pose(turn(3), vf::in_vec3("p", true, -50, 50)), S = pose(M3::Identity(), inc);
  for (int i = 0; i < 4; i++) { c.push_back(T); T = T * S; }
  give(b, c);
  double u = vf::input("u", 0.05, 0.95);
  M3 R; V3 p;
  vf::check("inside", b.get_pose(t0 + DT + u * DT, R, p));
  same_pose("pose on the line", R, p, pose(turn(3), V3(c[1].block(0, 3, 3, 1)) + turn(3) * (u * inc)));
  vf::reach("end");
}
VF_CASE(domain) {
  BsplineSE3 b;
  int n = vf::choose("control poses", 6);
  give(b, controls(n, 31, false));
  double t = vf::choose("at a control point", 2) ? t0 + DT * (vf::choose("which", 7) - 1) : double(vf::input("t", 99, 101));
  bool in = n >= 4 && t >= t0 + DT && t < t0 + DT * (n - 2);
  M3 R; V3 p, w, v, al, a;
  vf::check("pose exactly between the second and the last but one control pose", b.get_pose(t, R, p) == in);
  vf::check("velocity likewise", b.get_velocity(t, R, p, w, v) == in);
  vf::check("acceleration likewise", b.get_acceleration(t, R, p, w, v, al, a) == in);
  vf::reach("end");
}
VF_CASE(from_trajectory) { // control poses at uniform times on the given trajectory
  vf::set_half_angles(true);
  static const double times[4][6] = {{10, 10.5, 11, 11.5, 12, 12.5}, {10, 10.25, 11, 11.5, 11.75, 12.5}, {10, 10.75, 11, 11.75, 12, 13}, {10, 10.01, 10.02, 10.03, 10.14, 10.15}};
  int k = vf::choose("times", 4);
  std::vector<Eigen::VectorXd> tr; std::vector<M4> P;
  M3 R = turn(0);
  for (int i = 0; i < 6; i++) {
    if (i == 1 || i == 4) R = turn(i) * R; // turns in some of the pieces
    Eigen::VectorXd x(8); V3 p = vf::in_vec3("p" + std::to_string(i), true, -50, 50);
    x << times[k][i], p, rot_2_quat(R.transpose());
    tr.push_back(x); P.push_back(pose(R, p));
  }
  BsplineSE3 b;
  b.feed_trajectory(tr);
  double dt = (times[k][5] - times[k][0]) / 5;
  if (k == 3) dt = 0.05;
  vf::check_eq("start", b.get_start_time(), times[k][0] + 2 * dt);
  int i = 0;
  for (auto &c : b.control_points) {
    double t = times[k][0] + i * dt;
    vf::check_eq("uniform times", c.first, t);
    int j = 0; while (j < 4 && times[k][j + 1] <= t) j++;
    double l = (t - times[k][j]) / (times[k][j + 1] - times[k][j]);
    M4 T = exp_se3(l * log_se3(P[j + 1] * Inv_se3(P[j]))) * P[j];
    vf::check_eq("on the trajectory", M4(c.second), T, 50);
    i++;
  }
  // up to the last but one of the given times
  int want = 0; while (times[k][0] + want * dt < times[k][4]) want++;
  vf::check("until the end of the trajectory", i == want || i == want + 1);
  vf::reach("end");
}
