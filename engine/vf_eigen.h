// Eigen on symbolic scalars. Element-wise algebra is Eigen's own code, executed symbolically. The numerical
// decompositions (LLT, LDLT, QR, LU, SVD, eigen) are replaced by their contract: an exact solve / exact factorisation.
#ifndef VF_EIGEN_H
#define VF_EIGEN_H
#include "vf_sym.h"
#define EIGEN_DONT_VECTORIZE 1
#undef eigen_assert
#define eigen_assert(x) vf::code_assert(static_cast<bool>(x), "Eigen: " #x)
#include <Eigen/Core>
namespace Eigen {
template <> struct NumTraits<vf::Sym> : GenericNumTraits<vf::Sym> {
  typedef vf::Sym Real; typedef vf::Sym NonInteger; typedef vf::Sym Nested; typedef vf::Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static inline Real epsilon() { return std::numeric_limits<vf::Sym>::epsilon(); }
  static inline Real dummy_precision() { return vf::lit("1e-12"); }
  static inline Real highest() { return std::numeric_limits<vf::Sym>::max(); }
  static inline Real lowest() { return std::numeric_limits<vf::Sym>::lowest(); }
  static inline Real infinity() { return std::numeric_limits<vf::Sym>::infinity(); }
  static inline Real quiet_NaN() { return std::numeric_limits<vf::Sym>::quiet_NaN(); }
  static inline int digits10() { return 15; }
};
namespace internal {
template <> struct cast_impl<vf::Sym, vf::Sym> { static inline vf::Sym run(const vf::Sym &x) { return x; } };
}
#define VF_T(name, args) typedef Matrix<vf::Sym, args> name
#define VF_COMMA ,
typedef Matrix<vf::Sym, Dynamic, Dynamic> MatrixXS; typedef Matrix<vf::Sym, 2, 2> Matrix2S; typedef Matrix<vf::Sym, 3, 3> Matrix3S; typedef Matrix<vf::Sym, 4, 4> Matrix4S;
typedef Matrix<vf::Sym, Dynamic, 1> VectorXS; typedef Matrix<vf::Sym, 2, 1> Vector2S; typedef Matrix<vf::Sym, 3, 1> Vector3S; typedef Matrix<vf::Sym, 4, 1> Vector4S;
typedef Matrix<vf::Sym, 1, Dynamic> RowVectorXS; typedef Matrix<vf::Sym, 1, 2> RowVector2S; typedef Matrix<vf::Sym, 1, 3> RowVector3S; typedef Matrix<vf::Sym, 1, 4> RowVector4S;
typedef Matrix<vf::Sym, 2, Dynamic> Matrix2XS; typedef Matrix<vf::Sym, 3, Dynamic> Matrix3XS; typedef Matrix<vf::Sym, 4, Dynamic> Matrix4XS;
typedef Matrix<vf::Sym, Dynamic, 2> MatrixX2S; typedef Matrix<vf::Sym, Dynamic, 3> MatrixX3S; typedef Matrix<vf::Sym, Dynamic, 4> MatrixX4S;
typedef Array<vf::Sym, Dynamic, Dynamic> ArrayXXS; typedef Array<vf::Sym, Dynamic, 1> ArrayXS; typedef Array<vf::Sym, 3, 1> Array3S; typedef Array<vf::Sym, 2, 1> Array2S; typedef Array<vf::Sym, 4, 1> Array4S;
} // namespace Eigen

// Products: in the overlay copy of Eigen (tools/run.py) every dense product is of kind 77, the plain sum over the inner index.
namespace Eigen { namespace internal {
template <typename Lhs, typename Rhs> struct generic_product_impl<Lhs, Rhs, DenseShape, DenseShape, 77> {
  typedef typename Product<Lhs, Rhs>::Scalar Scalar;
  template <int MODE, typename Dst> static void run(Dst &dst, const Lhs &lhs, const Rhs &rhs) {
    evaluator<Lhs> a(lhs); evaluator<Rhs> b(rhs);
    Index n = lhs.rows(), m = rhs.cols(), d = lhs.cols();
    std::vector<Scalar> A, B; A.reserve(n * d); B.reserve(d * m);
    for (Index i = 0; i < n; i++) for (Index k = 0; k < d; k++) A.push_back(a.coeff(i, k));
    for (Index j = 0; j < m; j++) for (Index k = 0; k < d; k++) B.push_back(b.coeff(k, j));
    for (Index j = 0; j < m; j++) for (Index i = 0; i < n; i++) {
      Scalar s(0);
      for (Index k = 0; k < d; k++) s = s + A[i * d + k] * B[j * d + k];
      if (MODE == 0) dst.coeffRef(i, j) = s; else if (MODE == 1) dst.coeffRef(i, j) = dst.coeff(i, j) + s; else dst.coeffRef(i, j) = dst.coeff(i, j) - s;
    }
  }
  template <typename Dst> static void evalTo(Dst &dst, const Lhs &l, const Rhs &r) { run<0>(dst, l, r); }
  template <typename Dst> static void addTo(Dst &dst, const Lhs &l, const Rhs &r) { run<1>(dst, l, r); }
  template <typename Dst> static void subTo(Dst &dst, const Lhs &l, const Rhs &r) { run<2>(dst, l, r); }
  template <typename Dst> static void scaleAndAddTo(Dst &dst, const Lhs &l, const Rhs &r, const Scalar &alpha) {
    Matrix<Scalar, Dynamic, Dynamic> t(l.rows(), r.cols()); run<0>(t, l, r);
    for (Index j = 0; j < t.cols(); j++) for (Index i = 0; i < t.rows(); i++) dst.coeffRef(i, j) = dst.coeff(i, j) + alpha * t(i, j);
  }
};
}} // namespace Eigen::internal

#include <Eigen/Dense>
#include <Eigen/StdVector>

namespace vf {
typedef Eigen::Matrix<Sym, Eigen::Dynamic, Eigen::Dynamic> MX;
bool is_zero(const Sym &x); // identically zero
bool is_const(const Sym &x);
bool numeric_value(const Sym &x, double &v); // no variable in it, or all of them cancel
// determinant by cofactors with memo over column subsets
Sym det_sub(const MX &A);
// x with A x = B, exactly (A assumed invertible): adjugate over determinant for n <= 4, block elimination beyond
MX exact_solve(const MX &A, const MX &B);
MX exact_ldl_sqrt(const MX &A); // lower L with L L^T = A
std::vector<Sym> svd_values(const MX &A);
MX house_q(const MX &A);
void svd_contract(const MX &A, MX &U, std::vector<Sym> &S, MX &V);
} // namespace vf

namespace Eigen {
#define VF_SOLVER_COMMON(CLS)                                                                                                              \
  typedef vf::Sym Scalar; typedef vf::Sym RealScalar; typedef Eigen::Index Index; typedef int StorageIndex;                                \
  vf::MX A_;                                                                                                                               \
  CLS() {}                                                                                                                                 \
  template <typename D> explicit CLS(const EigenBase<D> &m) { compute(m.derived()); }                                                      \
  template <typename D> CLS(const EigenBase<D> &m, unsigned int) { compute(m.derived()); }                                                 \
  explicit CLS(Index r) { (void)r; }                                                                                                       \
  CLS(Index r, Index c) { (void)r; (void)c; }                                                                                              \
  ComputationInfo info() const { return Success; }                                                                                         \
  Index rows() const { return A_.rows(); }                                                                                                 \
  Index cols() const { return A_.cols(); }                                                                                                 \
  template <typename RHS_> Matrix<vf::Sym, Dynamic, RHS_::ColsAtCompileTime> solve(const MatrixBase<RHS_> &b) const { return vf::exact_solve(A_, b); }                               \
  const Matrix<vf::Sym, Dynamic, Dynamic> inverse() const { return vf::exact_solve(A_, vf::MX(vf::MX::Identity(A_.rows(), A_.rows()))); }         \
  template <typename RHS_> bool solveInPlace(const MatrixBase<RHS_> &b) const { const_cast<MatrixBase<RHS_> &>(b) = vf::exact_solve(A_, b); return true; } \
  vf::Sym determinant() const { return vf::det_sub(A_); }                                                                                  \
  bool isInvertible() const { return !(vf::det_sub(A_) == vf::Sym(0)); }                                                                   \
  bool isPositive() const { return true; }                                                                                                 \
  CLS &setThreshold(const vf::Sym &) { return *this; }

#define VF_COMPUTE_FULL(CLS)                                                                                                               \
  template <typename D> CLS &compute(const D &m) { A_ = vf::MX(m); return *this; }
// LLT reads one triangle only
#define VF_COMPUTE_TRI(CLS, UP)                                                                                                            \
  template <typename D> CLS &compute(const D &m0) {                                                                                        \
    vf::MX m(m0); A_.resize(m.rows(), m.cols());                                                                                           \
    for (Index i = 0; i < m.rows(); i++) for (Index j = 0; j < m.cols(); j++) A_(i, j) = ((UP) == Lower) == (i >= j) ? m(i, j) : m(j, i);  \
    for (Index i = 0; i < m.rows(); i++) A_(i, i) = m(i, i);                                                                               \
    return *this;                                                                                                                          \
  }                                                                                                                                        \
  vf::MX matrixL() const { return vf::exact_ldl_sqrt(A_); }                                                                                \
  vf::MX matrixU() const { return vf::MX(vf::exact_ldl_sqrt(A_).transpose()); }                                                            \
  vf::MX reconstructedMatrix() const { return A_; }
#define VF_SPEC(R, C, O, MR, MC)
template <int R, int C, int O, int MR, int MC, int UpLo> class LLT<Matrix<vf::Sym, R, C, O, MR, MC>, UpLo> { public: VF_SOLVER_COMMON(LLT) VF_COMPUTE_TRI(LLT, UpLo) };
template <int R, int C, int O, int MR, int MC, int UpLo> class LDLT<Matrix<vf::Sym, R, C, O, MR, MC>, UpLo> { public: VF_SOLVER_COMMON(LDLT) VF_COMPUTE_TRI(LDLT, UpLo) };
template <int R, int C, int O, int MR, int MC> class PartialPivLU<Matrix<vf::Sym, R, C, O, MR, MC>> { public: VF_SOLVER_COMMON(PartialPivLU) VF_COMPUTE_FULL(PartialPivLU) };
template <int R, int C, int O, int MR, int MC> class FullPivLU<Matrix<vf::Sym, R, C, O, MR, MC>> { public: VF_SOLVER_COMMON(FullPivLU) VF_COMPUTE_FULL(FullPivLU) Index rank() const { return A_.cols(); } };
template <int R, int C, int O, int MR, int MC> class ColPivHouseholderQR<Matrix<vf::Sym, R, C, O, MR, MC>> { public: VF_SOLVER_COMMON(ColPivHouseholderQR) VF_COMPUTE_FULL(ColPivHouseholderQR) Index rank() const { return A_.cols(); } };
template <int R, int C, int O, int MR, int MC> class CompleteOrthogonalDecomposition<Matrix<vf::Sym, R, C, O, MR, MC>> { public: VF_SOLVER_COMMON(CompleteOrthogonalDecomposition) VF_COMPUTE_FULL(CompleteOrthogonalDecomposition) };
template <int R, int C, int O, int MR, int MC> class FullPivHouseholderQR<Matrix<vf::Sym, R, C, O, MR, MC>> { public: VF_SOLVER_COMMON(FullPivHouseholderQR) VF_COMPUTE_FULL(FullPivHouseholderQR) };
// singular values: fresh, non-negative, decreasing; U, V orthogonal with U S V^T = A
template <int R, int C, int O, int MR, int MC, int QR> class JacobiSVD<Matrix<vf::Sym, R, C, O, MR, MC>, QR> {
public:
  VF_SOLVER_COMMON(JacobiSVD)
  VF_COMPUTE_FULL(JacobiSVD)
  Matrix<vf::Sym, Dynamic, 1> singularValues() const {
    std::vector<vf::Sym> v = S_.empty() ? (S_ = vf::svd_values(A_)) : S_; Matrix<vf::Sym, Dynamic, 1> r((Index)v.size());
    for (size_t i = 0; i < v.size(); i++) r((Index)i) = v[i];
    return r;
  }
  vf::MX matrixU() const { need(); return U_; }
  vf::MX matrixV() const { need(); return V_; }
  void need() const { if (U_.rows() == 0) vf::svd_contract(A_, U_, S_, V_); }
  mutable std::vector<vf::Sym> S_; mutable vf::MX U_, V_;
};
// QR of one column: the Householder reflection Eigen builds
template <int R, int C, int O, int MR, int MC> class HouseholderQR<Matrix<vf::Sym, R, C, O, MR, MC>> {
public:
  typedef vf::Sym Scalar; typedef vf::Sym RealScalar;
  vf::MX A_;
  template <typename D> explicit HouseholderQR(const EigenBase<D> &m) { A_ = vf::MX(m.derived()); }
  template <typename D> HouseholderQR &compute(const EigenBase<D> &m) { A_ = vf::MX(m.derived()); return *this; }
  vf::MX householderQ() const { return vf::house_q(A_); }
};
// Givens: c = p/r, s = -q/r with r = sqrt(p^2+q^2) is what Eigen computes in every branch; p = q = 0 gives c = 1, s = 0
template <> inline void JacobiRotation<vf::Sym>::makeGivens(const vf::Sym &p, const vf::Sym &q, vf::Sym *r, internal::false_type) {
  using vf::Sym;
  if (vf::is_zero(q)) {
    if (vf::is_zero(p)) { m_c = Sym(1); m_s = Sym(0); if (r) *r = Sym(0); return; }
    bool neg = p < Sym(0);
    m_c = neg ? Sym(-1) : Sym(1); m_s = Sym(0); if (r) *r = neg ? -p : p;
    return;
  }
  if (vf::is_zero(p)) { bool neg = q < Sym(0); m_c = Sym(0); m_s = neg ? Sym(1) : Sym(-1); if (r) *r = neg ? -q : q; return; }
  Sym R = vf::sqrt(p * p + q * q);
  m_c = p / R; m_s = -q / R; if (r) *r = R;
}
} // namespace Eigen
#endif
