// Included by every harness. Symbolic build: Sym stands for double. Replay build (VF_REAL): plain doubles, the real code.
#ifndef VF_H
#define VF_H
#ifdef VF_REAL
#include "vf_real.h"
#else
#include "vf_prelude.h"
#endif
#include <Eigen/Dense>
namespace vf {
#ifdef VF_REAL
typedef double Scalar_;
#else
typedef Sym Scalar_;
bool is_const(const Sym &x); bool is_zero(const Sym &x);
void declare_angle(const Sym &a); void set_half_angles(bool b); void set_rounded_constants(bool b); void set_limits(long terms, int query_ms, int feas_ms); void set_angle_terms(int n); void set_angle_unit(int n);
#endif
typedef Scalar_ S;
typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> MatX;
typedef Eigen::Matrix<S, Eigen::Dynamic, 1> VecX;
typedef Eigen::Matrix<S, 3, 1> Vec3;
typedef Eigen::Matrix<S, 4, 1> Vec4;
typedef Eigen::Matrix<S, 3, 3> Mat3;
inline void check_eq(const std::string &n, const S &a, const S &b, Num scale = 1.0) { check_eq_v(n, {a}, {b}, scale); }
template <class A, class B, typename std::enable_if<!std::is_convertible<A, S>::value || std::is_base_of<Eigen::EigenBase<A>, A>::value, int>::type = 0>
inline void check_eq(const std::string &n, const Eigen::MatrixBase<A> &a_, const Eigen::MatrixBase<B> &b_, Num scale = 1.0) {
  MatX a = a_, b = b_;
  if (a.rows() != b.rows() || a.cols() != b.cols()) { check(n + " (same shape)", false); return; }
  std::vector<S> x, y;
  for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) { x.push_back(a(i, j)); y.push_back(b(i, j)); }
  check_eq_v(n, x, y, scale);
}
inline void check_near(const std::string &n, const S &a, const S &b, Num tol) { check_near_v(n, {a}, {b}, tol); }
template <class A, class B> inline void check_near(const std::string &n, const Eigen::MatrixBase<A> &a_, const Eigen::MatrixBase<B> &b_, Num tol) {
  MatX a = a_, b = b_;
  if (a.rows() != b.rows() || a.cols() != b.cols()) { check(n + " (same shape)", false); return; }
  std::vector<S> x, y;
  for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) { x.push_back(a(i, j)); y.push_back(b(i, j)); }
  check_near_v(n, x, y, tol);
}
// a fresh vector/matrix of inputs
inline MatX inputs(const std::string &n, int r, int c = 1, Num lo = -1e9, Num hi = 1e9, bool symbolic = true) {
  MatX m(r, c);
  for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = input_or(n + "[" + std::to_string(i) + (c > 1 ? "," + std::to_string(j) : "") + "]", lo, hi, symbolic);
  return m;
}
inline MatX rnds(const std::string &n, int r, int c = 1, Num lo = -1, Num hi = 1) { return inputs(n, r, c, lo, hi, false); }
// rational unit quaternion (JPL order x y z w) from a stereographic parameter: covers every rotation except the one at infinity
inline Vec4 unit_quat(const Vec3 &t) {
  S n = t(0) * t(0) + t(1) * t(1) + t(2) * t(2);
  Vec4 q;
  q << S(2) * t(0) / (S(1) + n), S(2) * t(1) / (S(1) + n), S(2) * t(2) / (S(1) + n), (S(1) - n) / (S(1) + n);
  return q;
}
// a unit quaternion with non-negative scalar part: every rotation when symbolic (w = sqrt(1 - |v|^2)), a seeded rational one otherwise
inline Vec4 in_quat(const std::string &n, bool symbolic = true, Num lo = -1, Num hi = 1) {
  if (!symbolic) {
    Vec3 t;
    for (int i = 0; i < 3; i++) t(i) = rnd(n + ".t" + std::to_string(i), -0.5, 0.5);
    return unit_quat(t);
  }
  Vec4 q;
  for (int i = 0; i < 3; i++) q(i) = input(n + "[" + std::to_string(i) + "]", lo, hi);
  S w2 = S(1) - q(0) * q(0) - q(1) * q(1) - q(2) * q(2);
  assume(le(S(0), w2));
  q(3) = sqrt(w2);
  return q;
}
// a unit 3-vector; sign of the last entry explored as a case
inline Vec3 in_unit3(const std::string &n) {
  Vec3 a;
  a(0) = input(n + "[0]", -1, 1); a(1) = input(n + "[1]", -1, 1);
  S z2 = S(1) - a(0) * a(0) - a(1) * a(1);
  assume(le(S(0), z2));
  a(2) = choose(n + ".sign", 2) ? -sqrt(z2) : sqrt(z2);
  return a;
}
// an angle in [lo, hi] inside (0, pi): known facts about its sine and cosine are given to the solver
S in_angle(const std::string &n, Num lo, Num hi);
inline Vec3 in_vec3(const std::string &n, bool symbolic, Num lo = -1e9, Num hi = 1e9) {
  Vec3 v;
  if (!symbolic && lo <= -1e9) { lo = Num(-2); hi = Num(2); }
  for (int i = 0; i < 3; i++) v(i) = input_or(n + "[" + std::to_string(i) + "]", lo, hi, symbolic);
  return v;
}
// Jacobian of f (a function of an n-vector of perturbations) at zero
#ifndef VF_REAL
template <class F> inline MatX jacobian(const F &f, int n, Num = 1) {
  VecX e(n);
  for (int k = 0; k < n; k++) e(k) = infinitesimal(k);
  VecX v = f(e);
  MatX J(v.rows(), n);
  for (int i = 0; i < v.rows(); i++) for (int k = 0; k < n; k++) J(i, k) = tangent(v(i), k);
  return J;
}
#else
template <class F> inline MatX jacobian(const F &f, int n, double h0 = 1) {
  VecX e = VecX::Zero(n);
  VecX v = f(e);
  MatX J(v.rows(), n);
  for (int k = 0; k < n; k++) {
    double h = 1e-4 * h0;
    auto at = [&](double x) { VecX p = VecX::Zero(n); p(k) = x; return VecX(f(p)); };
    J.col(k) = (8.0 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12.0 * h);
  }
  return J;
}
#endif
inline S in_angle(const std::string &n, Num lo, Num hi) {
  S t = input(n, lo, hi);
  declare_angle(t);
#ifndef VF_REAL
  double clo = std::cos((double)hi) - 1e-12, chi = std::cos((double)lo) + 1e-12, smin = std::min(std::sin((double)lo), std::sin((double)hi)) - 1e-12;
  assume(le(S(clo), cos(t))); assume(le(cos(t), S(chi)));
  if (smin > 0) assume(le(S(smin), sin(t)));
#endif
  return t;
}
} // namespace vf
#endif
