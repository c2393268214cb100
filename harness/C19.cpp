// Left-nullspace projection of the feature Jacobian and measurement compression
// VF-PKG: ov_msckf
// VF-SOURCES: ov_msckf/src/update/UpdaterHelper.cpp ov_msckf/src/state/StateHelper.cpp ov_msckf/src/state/State.cpp ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: projection: 4 to 7 rows (8 thorough), features of 1 and 3 dof, every state Jacobian (2 columns) and residual for seeded feature Jacobians, every 1-dof feature Jacobian of 2 rows (3 thorough); compression: up to 6 rows and 3 columns, every residual for seeded Jacobians and every Jacobian column of 3 rows
// VF-OUTSIDE: rounding; larger systems
#include "vision_common.h"
using h::nice_tall;
static Eigen::MatrixXd complement(const Eigen::MatrixXd &L) {
  Eigen::MatrixXd G = L.transpose() * L;
  return Eigen::MatrixXd::Identity(L.rows(), L.rows()) - L * G.inverse() * L.transpose();
}
static void project(const Eigen::MatrixXd &L, const Eigen::MatrixXd &H, const Eigen::VectorXd &r, bool gram = true) {
  Eigen::MatrixXd Hf = L, Hx = H; Eigen::VectorXd res = r;
  Eigen::MatrixXd Pi = complement(L);
  UpdaterHelper::nullspace_project_inplace(Hf, Hx, res);
  vf::check("as many rows fewer as the feature has degrees of freedom", Hx.rows() == H.rows() - L.cols() && res.rows() == Hx.rows() && Hx.cols() == H.cols());
  if (gram) {
  vf::check_eq("information matrix", Hx.transpose() * Hx, H.transpose() * Pi * H);
  vf::check_eq("information vector", Hx.transpose() * res, H.transpose() * Pi * r);
  vf::check_eq("residual part not explained by the feature", res.transpose() * res, r.transpose() * Pi * r); }
  vf::reach("end");
}
static const Eigen::MatrixXd upper(int k, int variant) {
  Eigen::MatrixXd U(3, 3); U << 2, 1, -1, 0, 1.5, 0.5, 0, 0, 3;
  if (variant == 1) U << -1, 2, 0, 0, -2, 1, 0, 0, -0.5; // negative diagonal
  return U.topLeftCorner(k, k);
}
VF_CASE(projection_any_residual_and_state_jacobian) {
  int m = 4 + vf::choose("rows", vf::thorough() ? 5 : 4), var = vf::choose("variant", 2);
  Eigen::MatrixXd L = nice_tall(m, upper(3, var)), H = vf::inputs("H", m, 2, -5, 5);
  project(L, H, vf::inputs("r", m, 1, -5, 5));
}
VF_CASE(projection_single_depth) {
  int m = 2 + vf::choose("rows", 4);
  Eigen::MatrixXd L = nice_tall(m, upper(1, vf::choose("variant", 2)));
  project(L, vf::inputs("H", m, 2, -5, 5), vf::inputs("r", m, 1, -5, 5));
}
VF_CASE(projection_any_feature_jacobian) {
  int m = vf::thorough() ? 3 : 2;
  Eigen::MatrixXd L = vf::inputs("L", m, 1, -5, 5);
  vf::assume(vf::lt(0.01, (L.transpose() * L)(0, 0)));
  project(L, vf::rnds("H", m, 2), vf::rnds("r", m, 1, -3, 3));
}
VF_CASE(projection_with_zero_blocks) { // a camera that does not constrain one direction
  int m = 6;
  Eigen::MatrixXd L = nice_tall(m, upper(3, 0));
  Eigen::MatrixXd P = Eigen::MatrixXd::Zero(m, 3);
  P.topRows(4) = nice_tall(4, upper(3, 1));
  int k = vf::choose("where", 3);
  if (k == 0) L = P; else if (k == 1) { L = P; L.row(4) = P.row(1); L.row(1) = P.row(4); } else { L = P; L.col(1) = P.col(2); L.col(2) = P.col(1); }
  project(L, vf::inputs("H", m, 1, -5, 5), vf::inputs("r", m, 1, -5, 5));
}
static void compress(const Eigen::MatrixXd &H, const Eigen::VectorXd &r) {
  Eigen::MatrixXd Hx = H; Eigen::VectorXd res = r;
  UpdaterHelper::measurement_compress_inplace(Hx, res);
  vf::check_eq("information matrix", Hx.transpose() * Hx, H.transpose() * H);
  vf::check_eq("information vector", Hx.transpose() * res, H.transpose() * r);
  if (H.rows() <= H.cols()) { vf::check_eq("already short: unchanged", Hx, H); vf::check_eq("already short: residual unchanged", res, r); }
  else vf::check("one row per column", Hx.rows() == H.cols() && Hx.cols() == H.cols() && res.rows() == H.cols());
  vf::reach("end");
}
VF_CASE(compression_any_residual) {
  int m = 3 + vf::choose("rows", 4), c = 1 + vf::choose("columns", 3), var = vf::choose("variant", 2);
  Eigen::MatrixXd H = m > c ? nice_tall(m, upper(c, var)) : upper(c, var);
  compress(H, vf::inputs("r", H.rows(), 1, -5, 5));
}
VF_CASE(compression_any_column) {
  int m = vf::thorough() ? 4 : 3;
  Eigen::MatrixXd H = vf::inputs("H", m, 1, -5, 5);
  vf::assume(vf::lt(0.01, (H.transpose() * H)(0, 0)));
  compress(H, vf::rnds("r", m, 1, -3, 3));
}
VF_CASE(compression_short) {
  int m = 1 + vf::choose("rows", 3);
  compress(vf::inputs("H", m, 3, -5, 5), vf::inputs("r", m, 1, -5, 5));
}
