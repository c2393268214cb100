// Rotation and pose algebra of ov_core/src/utils/quat_ops.h
// VF-PKG: ov_core
// VF-SOURCES:
// VF-BUDGET: 60 300
// VF-BOUNDS: every unit quaternion with non-negative scalar part; every rotation axis; angles in [0.001, 3.1] for exp/log/Jacobians plus the exact angle pi and the small-angle branches (entries up to 1e-8..1e-5); every translation/twist. Reals stand for doubles.
// VF-OUTSIDE: rounding of doubles; angles in (3.1, pi)
#include "vf.h"
#include "utils/quat_ops.h"
using namespace ov_core;
typedef Eigen::Matrix<double, 6, 1> V6;
static const Eigen::Matrix3d I3 = Eigen::Matrix3d::Identity();
VF_CASE(product_composes) {
  Eigen::Vector4d q = vf::in_quat("q"), p = vf::in_quat("p");
  Eigen::Vector4d r = quat_multiply(q, p);
  vf::check_eq("C(q*p) = C(q) C(p)", quat_2_Rot(r), quat_2_Rot(q) * quat_2_Rot(p));
  vf::check_eq("unit norm", r.dot(r), 1.0);
  vf::check("scalar part non-negative", vf::le(0.0, r(3)));
  vf::reach("end");
}
VF_CASE(product_of_any_scale) {
  // inputs that lost their normalisation: the result is still a unit quaternion of the same direction
  Eigen::Vector4d q = vf::inputs("q", 4, 1, -2, 2), p = vf::inputs("p", 4, 1, -2, 2);
  vf::assume(vf::lt(0.1, q.dot(q))); vf::assume(vf::lt(0.1, p.dot(p)));
  Eigen::Vector4d r = quat_multiply(q, p);
  vf::check_eq("unit norm", r.dot(r), 1.0);
  vf::check("scalar part non-negative", vf::le(0.0, r(3)));
  Eigen::Vector4d n = quatnorm(q);
  vf::check_eq("normalised", n.dot(n), 1.0);
  vf::check("normalised scalar part non-negative", vf::le(0.0, n(3)));
  vf::check_eq("same direction", n * n.transpose() * q.dot(q), q * q.transpose());
  vf::reach("end");
}
VF_CASE(matrix_of_quaternion) {
  Eigen::Vector4d q = vf::in_quat("q");
  Eigen::Matrix3d R = quat_2_Rot(q);
  vf::check_eq("orthogonal", R * R.transpose(), I3);
  vf::check_eq("determinant", R.col(0).cross(R.col(1)), R.col(2));
  // JPL convention, written out
  Eigen::Vector3d v = q.head(3); double w = q(3);
  Eigen::Matrix3d J;
  J << 1 - 2 * (v(1) * v(1) + v(2) * v(2)), 2 * (v(0) * v(1) + v(2) * w), 2 * (v(0) * v(2) - v(1) * w),
       2 * (v(0) * v(1) - v(2) * w), 1 - 2 * (v(0) * v(0) + v(2) * v(2)), 2 * (v(1) * v(2) + v(0) * w),
       2 * (v(0) * v(2) + v(1) * w), 2 * (v(1) * v(2) - v(0) * w), 1 - 2 * (v(0) * v(0) + v(1) * v(1));
  vf::check_eq("JPL rotation matrix", R, J);
  vf::check_eq("conjugate is the transpose", quat_2_Rot(Inv(q)), R.transpose());
  vf::reach("end");
}
VF_CASE(quaternion_of_matrix) {
  Eigen::Vector4d q = vf::in_quat("q");
  Eigen::Matrix3d R = quat_2_Rot(q);
  Eigen::Vector4d p = rot_2_quat(R);
  vf::check_eq("round trip", quat_2_Rot(p), R);
  vf::check_eq("unit norm", p.dot(p), 1.0);
  vf::check("scalar part non-negative", vf::le(0.0, p(3)));
  vf::reach("end");
}
VF_CASE(skew) {
  Eigen::Vector3d a = vf::in_vec3("a", true), b = vf::in_vec3("b", true);
  vf::check_eq("skew is the cross product", skew_x(a) * b, a.cross(b));
  vf::check_eq("vee inverts skew", vee(skew_x(a)), a);
  V6 x; x << a, b;
  Eigen::Matrix4d H = hat_se3(x), E = Eigen::Matrix4d::Zero();
  E.block(0, 0, 3, 3) = skew_x(a); E.block(0, 3, 3, 1) = b;
  vf::check_eq("hat of a twist", H, E);
  Eigen::Matrix4d O = Omega(a), F = Eigen::Matrix4d::Zero();
  F.block(0, 0, 3, 3) = -skew_x(a); F.block(0, 3, 3, 1) = a; F.block(3, 0, 1, 3) = -a.transpose();
  vf::check_eq("Omega", O, F);
  vf::reach("end");
}
// the rotation by angle t about axis a, from the half-angle quaternion
static Eigen::Matrix3d rodrigues(const Eigen::Vector3d &a, double t) {
  Eigen::Vector3d c;
  return cos(t) * I3 + sin(t) * skew_x(a) + (1 - cos(t)) * a * a.transpose();
}
VF_CASE(exp_is_rodrigues) {
  Eigen::Vector3d a = vf::in_unit3("a"); double t = vf::in_angle("t", 0.001, 3.1);
  Eigen::Matrix3d R = exp_so3(t * a);
  vf::check_eq("rotation by |w| about w", R, rodrigues(a, t));
  vf::check_eq("orthogonal", R * R.transpose(), I3);
  vf::check_eq("determinant", R.col(0).cross(R.col(1)), R.col(2));
  vf::reach("end");
}
VF_CASE(exp_any_vector) {
  // no bound on the angle: still a proper rotation that fixes w
  Eigen::Vector3d w = vf::in_vec3("w", true, -20, 20);
  vf::assume(vf::lt(1e-4, w.dot(w)));
  Eigen::Matrix3d R = exp_so3(w);
  vf::check_eq("orthogonal", R * R.transpose(), I3);
  vf::check_eq("fixes its axis", R * w, w);
  vf::reach("end");
}
VF_CASE(exp_small) {
  Eigen::Vector3d w = vf::in_vec3("w", true, -1e-6, 1e-6);
  Eigen::Matrix3d R = exp_so3(w);
  double n = w.norm();
  if (n < 1e-7) { vf::check_near("first order near zero", R, I3 + skew_x(w), 1e-12); vf::reach("small"); }
}
VF_CASE(log_inverts_exp) {
  Eigen::Vector3d a = vf::in_unit3("a"); double t = vf::in_angle("t", 0.001, 3.1);
  vf::check_eq("log of the rotation", log_so3(rodrigues(a, t)), t * a);
  vf::reach("end");
}
VF_CASE(log_at_pi) {
  Eigen::Vector3d a = vf::in_unit3("a");
  Eigen::Matrix3d R = 2 * a * a.transpose() - I3;
  Eigen::Vector3d w = log_so3(R);
  vf::check_eq("angle pi", w.dot(w), M_PI * M_PI);
  vf::check_eq("about the axis", w * w.transpose(), (M_PI * M_PI) * a * a.transpose());
  vf::reach("end");
}
VF_CASE(log_small) {
  // three axes, every angle up to 2e-5
  static const double ax[3][3] = {{2, 1, 2}, {-2, 2, 1}, {1, -2, 2}};
  int k = vf::choose("axis", 3);
  double s = vf::input("s", 0, 1e-5);
  Eigen::Vector4d q;
  for (int i = 0; i < 3; i++) q(i) = ax[k][i] / 3 * s;
  q(3) = sqrt(1 - s * s);
  Eigen::Matrix3d R = quat_2_Rot(q);
  vf::check_near("log near the identity", log_so3(R), -2 * q.head(3), 1e-12);
  vf::reach("end");
}
VF_CASE(so3_jacobians) {
  Eigen::Vector3d a = vf::in_unit3("a"); double t = vf::in_angle("t", 0.001, 3.1);
  Eigen::Vector3d w = t * a;
  Eigen::Matrix3d Jl = Jl_so3(w), Jr = Jr_so3(w), R = exp_so3(w);
  auto col = [&](const Eigen::VectorXd &e) { Eigen::Vector3d d = w + e.head(3); Eigen::Matrix3d M = exp_so3(d); return Eigen::VectorXd(Eigen::Map<Eigen::VectorXd>(M.data(), 9)); };
  Eigen::MatrixXd D = vf::jacobian(col, 3);
  for (int k = 0; k < 3; k++) {
    Eigen::Matrix3d dR; for (int i = 0; i < 9; i++) dR(i % 3, i / 3) = D(i, k);
    vf::check_eq("left Jacobian: d exp(w) = [Jl dw]x exp(w)", dR, skew_x(Jl.col(k)) * R);
    vf::check_eq("right Jacobian: d exp(w) = exp(w) [Jr dw]x", dR, R * skew_x(Jr.col(k)));
  }
  vf::reach("end");
}
VF_CASE(so3_jacobian_small) {
  Eigen::Vector3d w = vf::in_vec3("w", true, -5e-7, 5e-7);
  vf::check_near("Jl near zero", Jl_so3(w), I3, 1e-6);
  vf::check_near("Jr near zero", Jr_so3(w), I3, 1e-6);
  vf::reach("end");
}
VF_CASE(se3_exp_log) {
  Eigen::Vector3d a = vf::in_unit3("a"), u = vf::in_vec3("u", true); double t = vf::in_angle("t", 0.001, 3.1);
  V6 x; x << t * a, u;
  Eigen::Matrix4d T = exp_se3(x);
  vf::check_eq("rotation part", T.block(0, 0, 3, 3), rodrigues(a, t));
  // V u = integral of exp(s w) u ds over [0,1]
  Eigen::Vector3d Vu = sin(t) / t * u + (1 - sin(t) / t) * a * a.dot(u) + ((1 - cos(t)) / t) * a.cross(u);
  vf::check_eq("translation part", T.block(0, 3, 3, 1), Vu);
  Eigen::Matrix<double, 1, 4> last; last << 0, 0, 0, 1;
  vf::check_eq("homogeneous", T.block(3, 0, 1, 4), last);
  Eigen::Matrix4d Ti = Inv_se3(T);
  vf::check_eq("inverse", T * Ti, Eigen::Matrix4d::Identity());
  vf::reach("end");
}
VF_CASE(se3_log_inverts) {
  vf::set_half_angles(true);
  Eigen::Vector3d a = vf::in_unit3("a"), u = vf::in_vec3("u", true); double t = vf::in_angle("t", 0.001, 3.1);
  V6 x; x << t * a, u;
  V6 y = log_se3(exp_se3(x));
  vf::check_eq("log of exp", y, x);
  vf::reach("end");
}
VF_CASE(se3_log_translation) {
  Eigen::Vector3d u = vf::in_vec3("u", true);
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.block(0, 3, 3, 1) = u;
  V6 y = log_se3(T), x; x << 0, 0, 0, u;
  vf::check_eq("pure translation", y, x);
  vf::check_eq("exp of it", exp_se3(x), T);
  vf::reach("end");
}
VF_CASE(se3_exp_small) {
  Eigen::Vector3d w = vf::in_vec3("w", true, -4e-8, 4e-8), u = vf::in_vec3("u", true, -10, 10);
  V6 x; x << w, u;
  Eigen::Matrix4d T = exp_se3(x);
  vf::check_near("rotation near zero", T.block(0, 0, 3, 3), I3 + skew_x(w), 1e-12);
  Eigen::Vector3d Vu = u + 0.5 * w.cross(u);
  vf::check_near("translation near zero", T.block(0, 3, 3, 1), Vu, 1e-12);
  vf::reach("end");
}
VF_CASE(rpy) {
  Eigen::Vector4d q = vf::in_quat("q");
  Eigen::Matrix3d R = quat_2_Rot(q);
  vf::assume(vf::lt(0.01, sqrt(R(0, 0) * R(0, 0) + R(1, 0) * R(1, 0))));
  Eigen::Vector3d e = rot2rpy(R);
  vf::check_eq("Rz(yaw) Ry(pitch) Rx(roll)", rot_z(e(2)) * rot_y(e(1)) * rot_x(e(0)), R);
  vf::reach("end");
}
VF_CASE(elementary) {
  double t = vf::input("t", -10, 10);
  Eigen::Vector3d x(1, 0, 0), y(0, 1, 0), z(0, 0, 1);
  vf::check_eq("rot_x", rot_x(t), rodrigues(x, t));
  vf::check_eq("rot_y", rot_y(t), rodrigues(y, t));
  vf::check_eq("rot_z", rot_z(t), rodrigues(z, t));
  vf::reach("end");
}
