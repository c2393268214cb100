#include "vf_eigen.h"
#include "vf_stubs.h"
#include <iostream>
namespace vf {
Sym det_sub(const MX &A) {
  int n = (int)A.rows();
  if (n == 0) return Sym(1);
  // Laplace expansion with memo over column subsets
  std::vector<std::map<unsigned, Sym>> memo(n + 1);
  std::function<Sym(int, unsigned)> rec = [&](int row, unsigned cols) -> Sym {
    if (row == n) return Sym(1);
    auto it = memo[row].find(cols);
    if (it != memo[row].end()) return it->second;
    Sym r(0); int sg = 1;
    for (int j = 0; j < n; j++) if (cols & (1u << j)) {
      if (!is_zero(A(row, j))) { Sym t = A(row, j) * rec(row + 1, cols & ~(1u << j)); r = sg > 0 ? r + t : r - t; }
      sg = -sg;
    }
    return memo[row][cols] = r;
  };
  return rec(0, (n >= 32) ? ~0u : ((1u << n) - 1));
}
static MX minor_of(const MX &A, int r, int c) {
  int n = (int)A.rows(); MX M(n - 1, n - 1);
  for (int i = 0, a = 0; i < n; i++) { if (i == r) continue; for (int j = 0, b = 0; j < n; j++) { if (j == c) continue; M(a, b++) = A(i, j); } a++; }
  return M;
}
MX exact_solve(const MX &A0, const MX &B0) {
  MX A = A0, B = B0;
  if (A.rows() != A.cols()) { MX At = A.transpose(); B = (At * B0).eval(); A = (At * A0).eval(); }
  int n = (int)A.rows();
  if (n == 0) return MX::Zero(A0.cols(), B.cols());
  bool allc = true;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!is_const(A(i, j))) allc = false;
  if (!allc && n <= 4) {
    Sym d = det_sub(A);
    if (is_zero(d)) { note("singular matrix in a solve"); return MX::Constant(n, B.cols(), mk(ID_NAN)); }
    MX adj(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Sym m = det_sub(minor_of(A, j, i)); adj(i, j) = ((i + j) & 1) ? -m : m; }
    MX X = adj * B;
    for (int i = 0; i < X.rows(); i++) for (int j = 0; j < X.cols(); j++) X(i, j) = X(i, j) / d;
    return X;
  }
  // Gaussian elimination with a structurally non-zero pivot, constants first
  for (int k = 0; k < n; k++) {
    int p = -1;
    for (int i = k; i < n; i++) { if (is_zero(A(i, k))) { A(i, k) = Sym(0); continue; } if (is_const(A(i, k))) { p = i; break; } if (p < 0) p = i; }
    if (p < 0) { note("singular matrix in a solve"); return MX::Constant(n, B.cols(), mk(ID_NAN)); }
    if (p != k) { A.row(p).swap(A.row(k)); B.row(p).swap(B.row(k)); }
    Sym piv = A(k, k);
    for (int i = 0; i < n; i++) {
      if (i == k || is_zero(A(i, k))) continue;
      Sym f = A(i, k) / piv;
      for (int j = k + 1; j < n; j++) if (!is_zero(A(k, j))) A(i, j) = A(i, j) - f * A(k, j);
      for (int j = 0; j < B.cols(); j++) if (!is_zero(B(k, j))) B(i, j) = B(i, j) - f * B(k, j);
      A(i, k) = Sym(0);
    }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < B.cols(); j++) B(i, j) = B(i, j) / A(i, i);
  return B;
}
MX exact_ldl_sqrt(const MX &A) {
  int n = (int)A.rows(); MX L = MX::Zero(n, n);
  for (int j = 0; j < n; j++) {
    Sym s = A(j, j);
    for (int k = 0; k < j; k++) s = s - L(j, k) * L(j, k);
    L(j, j) = vf::sqrt(s);
    for (int i = j + 1; i < n; i++) { Sym t = A(i, j); for (int k = 0; k < j; k++) t = t - L(i, k) * L(j, k); L(i, j) = t / L(j, j); }
  }
  return L;
}
MX house_q(const MX &A) {
  int n = (int)A.rows();
  if (A.cols() != 1) { note("Householder QR of more than one column is not encoded"); throw PathAbort(); }
  Sym tail(0); for (int i = 1; i < n; i++) tail = tail + A(i, 0) * A(i, 0);
  Sym c0 = A(0, 0);
  if (tail == Sym(0)) return MX::Identity(n, n);
  Sym beta = sqrt(c0 * c0 + tail);
  if (c0 >= Sym(0)) beta = -beta;
  MX v(n, 1); v(0, 0) = Sym(1); for (int i = 1; i < n; i++) v(i, 0) = A(i, 0) / (c0 - beta);
  Sym tau = (beta - c0) / beta;
  return MX::Identity(n, n) - tau * v * v.transpose();
}
std::vector<Sym> svd_values(const MX &A0) {
  MX A = A0.rows() < A0.cols() ? MX(A0.transpose()) : A0;
  int n = (int)A.cols(); std::vector<Sym> v;
  bool num = true; Eigen::MatrixXd D(A.rows(), A.cols());
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < n; j++) num = num && numeric_value(A(i, j), D(i, j));
  if (num) { // of numbers: the values up to a relative 1e-12
    Eigen::JacobiSVD<Eigen::MatrixXd> d(D);
    for (int i = 0; i < n; i++) { Sym s = aux("singular_value"); double x = d.singularValues()(i), w = 1e-12 * d.singularValues()(0) + 1e-300; assume(le(Sym(x - w), s)); assume(le(s, Sym(x + w))); assume(le(Sym(0), s)); if (i) assume(le(s, v.back())); v.push_back(s); }
    return v;
  }
  for (int i = 0; i < n; i++) { Sym s = aux("singular_value"); assume(le(Sym(0), s)); if (i) assume(le(s, v.back())); v.push_back(s); }
  // what the values are constrained by: the sum of squares is the squared Frobenius norm, up to three values the other symmetric functions too
  MX M = A.transpose() * A;
  Sym g(0); for (auto &s : v) g = g + s * s;
  assume(eq(M.trace(), g));
  if (n == 2 || n == 3) {
    Sym p(1); for (auto &s : v) p = p * s * s;
    assume(eq(det_sub(M), p));
    if (n == 3) assume(eq(M(0, 0) * M(1, 1) - M(0, 1) * M(1, 0) + M(0, 0) * M(2, 2) - M(0, 2) * M(2, 0) + M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1), v[0] * v[0] * v[1] * v[1] + v[0] * v[0] * v[2] * v[2] + v[1] * v[1] * v[2] * v[2]));
  }
  return v;
}
void svd_contract(const MX &A, MX &U, std::vector<Sym> &S, MX &V) {
  int n = (int)A.rows(), m = (int)A.cols();
  // numbers times one common symbolic factor: the machine's factors of the numbers, up to rounding
  {
    Sym f(0); Eigen::MatrixXd D(n, m); bool num = true; double big = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (num && numeric_value(A(i, j), D(i, j))) big = std::max(big, std::fabs(D(i, j))); else num = false;
    if (num) f = Sym(1);
    else {
      num = true; f = A(0, 0);
      for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (num) { Sym q = A(i, j) / f; double x; if (numeric_value(q, x)) D(i, j) = x; else num = false; }
      if (num && f < Sym(0)) { f = -f; D = -D; }
    }
    if (num) {
      Eigen::JacobiSVD<Eigen::MatrixXd> d(D, Eigen::ComputeFullU | Eigen::ComputeFullV);
      S.clear(); U.resize(n, n); V.resize(m, m);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) U(i, j) = Sym(d.matrixU()(i, j));
      for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) V(i, j) = Sym(d.matrixV()(i, j));
      for (int i = 0; i < std::min(n, m); i++) S.push_back(f * Sym(d.singularValues()(i)));
      return;
    }
  }
  U.resize(n, n); V.resize(m, m); S.clear();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) U(i, j) = aux("svdU");
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) V(i, j) = aux("svdV");
  for (int i = 0; i < std::min(n, m); i++) { S.push_back(aux("singular_value")); assume(le(Sym(0), S.back())); if (i) assume(le(S[i], S[i - 1])); }
  MX SS = MX::Zero(n, m); for (size_t i = 0; i < S.size(); i++) SS(i, i) = S[i];
  MX R = U * SS * V.transpose(), UU = U * U.transpose(), VV = V * V.transpose();
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) assume(eq(R(i, j), A(i, j)));
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) assume(eq(UU(i, j), Sym(i == j ? 1 : 0)));
  for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) assume(eq(VV(i, j), Sym(i == j ? 1 : 0)));
}
} // namespace vf

// contract of OpenCV's undistortion for one point: a normalised point whose distortion is the given pixel
namespace vf {
static std::vector<std::array<Sym, 4>> &known_points() { static std::vector<std::array<Sym, 4>> k; return k; }
void undistort_known(const Sym &u, const Sym &v, const Sym &x, const Sym &y) { known_points().push_back({{u, v, x, y}}); }
void undistort_forget() { known_points().clear(); }
}
namespace cv {
void undistort_contract(bool fisheye, Mat &m, const Matx33d &K, const Vec4d &D) {
  using vf::Sym;
  for (size_t i = 0; i + 1 < m.d->size(); i += 2) {
    Sym u = (*m.d)[i], v = (*m.d)[i + 1];
    bool known = false;
    for (auto &k : vf::known_points()) if (vf::is_zero(k[0] - u) && vf::is_zero(k[1] - v)) { (*m.d)[i] = k[2]; (*m.d)[i + 1] = k[3]; known = true; break; }
    if (known) continue;
    if (!fisheye && vf::is_zero(D(0)) && vf::is_zero(D(1)) && vf::is_zero(D(2)) && vf::is_zero(D(3))) { (*m.d)[i] = (u - K(0, 2)) / K(0, 0); (*m.d)[i + 1] = (v - K(1, 2)) / K(1, 1); continue; }
    Sym x = vf::aux("undistorted_x"), y = vf::aux("undistorted_y"), xd, yd;
    if (!fisheye) {
      Sym r2 = x * x + y * y, g = Sym(1) + D(0) * r2 + D(1) * r2 * r2;
      xd = x * g + Sym(2) * D(2) * x * y + D(3) * (r2 + Sym(2) * x * x);
      yd = y * g + D(2) * (r2 + Sym(2) * y * y) + Sym(2) * D(3) * x * y;
    } else {
      Sym r = vf::sqrt(x * x + y * y), t = vf::atan(r), t2 = t * t;
      Sym td = t * (Sym(1) + D(0) * t2 + D(1) * t2 * t2 + D(2) * t2 * t2 * t2 + D(3) * t2 * t2 * t2 * t2);
      xd = x * td / r; yd = y * td / r;
    }
    vf::assume(vf::eq(K(0, 0) * xd + K(0, 2), u));
    vf::assume(vf::eq(K(1, 1) * yd + K(1, 2), v));
    (*m.d)[i] = x; (*m.d)[i + 1] = y;
  }
}
}
