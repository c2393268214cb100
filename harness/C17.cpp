// Delayed initialisation: the new variable and the state end up at the joint least-squares solution, or nothing changes
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: new variables of 1 and 3 dof, up to 5 measurement rows (6 in the thorough tier), state blocks of 1..3 dof in any order (plain state of 6 dof); residual, noise level, one or more Jacobian entries of each kind symbolic; the gate explored on both sides
// VF-OUTSIDE: more rows; rank-deficient feature Jacobians; rounding
#include "state_common.h"
static int at(Vars o) { int s = 0; for (auto &v : o) s += v->size(); return s; }
static Eigen::MatrixXd expand(const Vars &o, const Eigen::MatrixXd &H, int n) {
  Eigen::MatrixXd E = Eigen::MatrixXd::Zero(H.rows(), n); int a = 0;
  for (auto &v : o) { E.block(0, v->id(), H.rows(), v->size()) = H.block(0, a, H.rows(), v->size()); a += v->size(); }
  return E;
}
using h::nice_tall;
static void joint(std::shared_ptr<State> s, std::shared_ptr<Type> f, const Vars &o, const Eigen::MatrixXd &HR, const Eigen::MatrixXd &HL, double s2, const Eigen::VectorXd &r, double mult, bool gate_check = true) {
  int n = s->_Cov.rows(), k = f->size(), m = r.rows();
  Eigen::MatrixXd P = s->_Cov, H = expand(o, HR, n);
  Eigen::VectorXd x0 = h::values(s->_variables), f0 = f->value(), ff0 = f->fej();
  Vars old = s->_variables;
  // distance of the residual part that no choice of the new variable explains
  Eigen::MatrixXd LtL = HL.transpose() * HL;
  Eigen::MatrixXd Pi = Eigen::MatrixXd::Identity(m, m) - HL * LtL.inverse() * HL.transpose();
  Eigen::MatrixXd W = H * P * H.transpose() + s2 * Eigen::MatrixXd::Identity(m, m);
  // r^T W^-1 r minimised over the new variable
  Eigen::MatrixXd Wi = W.inverse();
  Eigen::MatrixXd A = HL.transpose() * Wi * HL;
  Eigen::VectorXd b = HL.transpose() * Wi * r;
  double d2 = r.dot(Wi * r) - b.dot(A.inverse() * b);
  double gate = mult * vf::chi2_quantile(m, 0.95);
  Eigen::MatrixXd hr = HR, hl = HL, R = s2 * Eigen::MatrixXd::Identity(m, m); Eigen::VectorXd res = r;
  bool ok = StateHelper::initialize(s, f, o, hr, hl, R, res, mult);
  if (!ok) {
    if (!gate_check) vf::check("an enormous gate never rejects", false);
    if (m > k) vf::check("rejected only beyond the gate", vf::le(gate, d2)); else vf::check("an exactly determined variable is never rejected", false);
    vf::check_eq("rejection leaves the covariance", s->_Cov, P);
    vf::check_eq("rejection leaves the estimates", h::values(s->_variables), x0);
    vf::check("rejection leaves the layout", s->_variables == old && h::layout_ok(s));
    vf::check_eq("rejection leaves the new variable", f->value(), f0);
    vf::reach("rejected");
    return;
  }
  if (m > k && gate_check) vf::check("accepted only within the gate", vf::le(d2, gate));
  vf::check("new variable at the end", s->_variables.size() == old.size() + 1 && s->_variables.back() == f && f->id() == n && h::layout_ok(s));
  // information matrix of the joint problem
  Eigen::MatrixXd I = Eigen::MatrixXd::Zero(n + k, n + k);
  I.topLeftCorner(n, n) = P.inverse() + H.transpose() * H / s2;
  I.topRightCorner(n, k) = H.transpose() * HL / s2;
  I.bottomLeftCorner(k, n) = HL.transpose() * H / s2;
  I.bottomRightCorner(k, k) = LtL / s2;
  vf::check_eq("covariance is the inverse of the joint information", I * s->_Cov, Eigen::MatrixXd(Eigen::MatrixXd::Identity(n + k, n + k)));
  vf::check_eq("covariance symmetric", s->_Cov, Eigen::MatrixXd(s->_Cov.transpose()));
  Eigen::VectorXd dx(n + k), g(n + k);
  int c = 0;
  for (size_t i = 0; i < old.size(); i++) { int z = old[i]->size(); dx.segment(old[i]->id(), z) = old[i]->value() - x0.segment(c, z); c += 2 * z; }
  dx.tail(k) = f->value() - f0;
  g << H.transpose() * r / s2, HL.transpose() * r / s2;
  vf::check_eq("estimate is the joint least-squares solution", I * dx, g);
  vf::reach("accepted");
}
static std::shared_ptr<State> mk(Vars &v) { auto s = h::plain_state({2, 1, 3}, v); s->_Cov = h::cov("P", 6, false); return s; }
static const int ords[4][4] = {{0, -1}, {2, -1}, {1, 0, -1}, {2, 0, 1, -1}};
static Vars pick(const Vars &v, int k) { Vars o; for (int i = 0; ords[k][i] >= 0; i++) o.push_back(v[ords[k][i]]); return o; }
static std::shared_ptr<Vec> newvar(int k) { auto f = std::make_shared<Vec>(k); f->set_value(vf::rnds("f", k)); f->set_fej(vf::rnds("ff", k)); return f; }
VF_CASE(point_any_residual) {
  Vars v; auto s = mk(v); Vars o = pick(v, vf::choose("order", 4));
  int m = 3 + vf::choose("extra", vf::thorough() ? 4 : 3);
  Eigen::MatrixXd U(3, 3); U << 2, 1, -1, 0, 1.5, 0.5, 0, 0, 3;
  joint(s, newvar(3), o, vf::rnds("H", m, at(o)), nice_tall(m, U), 0.25, vf::inputs("r", m, 1, -10, 10), 1.0);
}
VF_CASE(point_any_state_jacobian) {
  Vars v; auto s = mk(v); Vars o = pick(v, vf::choose("order", 2));
  int m = 3 + vf::choose("extra", vf::thorough() ? 3 : 2);
  Eigen::MatrixXd U(3, 3); U << 2, 1, -1, 0, 1.5, 0.5, 0, 0, 3;
  Eigen::MatrixXd H = vf::rnds("H", m, at(o));
  int k = vf::choose("row", 2); k = k * (m - 1);
  H(k, 0) = vf::input("h", -2, 2);
  joint(s, newvar(3), o, H, nice_tall(m, U), 0.25, vf::rnds("r", m), 1e9, false);
}
VF_CASE(point_any_noise) {
  Vars v; auto s = mk(v); Vars o = pick(v, 1);
  int m = 3 + vf::choose("extra", 3);
  Eigen::MatrixXd U(3, 3); U << 2, 1, -1, 0, 1.5, 0.5, 0, 0, 3;
  double s2 = vf::input("s2", 0.01, 10);
  joint(s, newvar(3), o, vf::rnds("H", m, at(o)), nice_tall(m, U), s2, vf::rnds("r", m, 1, -3, 3), 1e9, false);
}
VF_CASE(depth_any_feature_jacobian) {
  Vars v; auto s = mk(v); Vars o = pick(v, vf::choose("order", 2));
  int m = 1 + vf::choose("extra", 2);
  Eigen::MatrixXd L = vf::inputs("L", m, 1, -5, 5);
  vf::assume(vf::lt(0.01, (L.transpose() * L)(0, 0)));
  joint(s, newvar(1), o, vf::rnds("H", m, at(o)), L, 0.25, vf::rnds("r", m, 1, -3, 3), 1.0);
}
VF_CASE(depth_any_multiplier) {
  Vars v; auto s = mk(v); Vars o = pick(v, 2);
  int m = 3; Eigen::MatrixXd U(1, 1); U << 2;
  joint(s, newvar(1), o, vf::rnds("H", m, at(o)), nice_tall(m, U), 0.25, vf::inputs("r", m, 1, -10, 10), vf::input("mult", 0.1, 10));
}
VF_CASE(invertible_any) {
  Vars v; auto s = mk(v); Vars o = pick(v, vf::choose("order", 4));
  int sy = vf::choose("symbolic", 3);
  Eigen::MatrixXd P = s->_Cov;
  if (sy == 0) P = s->_Cov = h::cov("PS", 6, true);
  Eigen::MatrixXd HR = vf::inputs("H", 2, at(o), -5, 5, sy == 1), L = vf::rnds("L", 2, 2);
  L(0, 0) = L(0, 0) + 3; L(1, 1) = L(1, 1) + 3;
  if (sy == 2) L(0, 1) = vf::input("l", -1, 1);
  vf::assume(vf::lt(0.1, L.determinant()));
  double s2 = vf::input("s2", 0.01, 10);
  Eigen::VectorXd r = vf::inputs("r", 2, 1, -5, 5), x0 = h::values(v);
  auto f = newvar(2); Eigen::VectorXd f0 = f->value();
  StateHelper::initialize_invertible(s, f, o, HR, L, s2 * Eigen::MatrixXd::Identity(2, 2), r);
  Eigen::MatrixXd H = expand(o, HR, 6), Li = L.inverse(), E(8, 8);
  E.topLeftCorner(6, 6) = P;
  E.topRightCorner(6, 2) = -P * H.transpose() * Li.transpose();
  E.bottomLeftCorner(2, 6) = -Li * H * P;
  E.bottomRightCorner(2, 2) = Li * (H * P * H.transpose() + s2 * Eigen::MatrixXd::Identity(2, 2)) * Li.transpose();
  vf::check_eq("joint covariance", s->_Cov, E);
  vf::check_eq("estimate solves its own equation", L * (f->value() - f0), r);
  vf::check_eq("others untouched", h::values(v), x0);
  vf::check("new variable at the end", s->_variables.back() == f && f->id() == 6 && h::layout_ok(s));
  vf::reach("end");
}
