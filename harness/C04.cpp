// Camera models: projection, its Jacobians, its inverse and the parameters they use
// VF-PKG: ov_core
// VF-SOURCES: ov_core/src/dummy.cpp
// VF-BUDGET: 60 400
// VF-BOUNDS: every intrinsic and distortion parameter and every normalised image point (including the image centre for the fisheye model)
// VF-OUTSIDE: the iterative undistortion inside OpenCV (taken to invert the stated distortion); rounding to single precision
#include "vf.h"
#include "cam/CamRadtan.h"
#include "cam/CamEqui.h"
using namespace ov_core;
typedef Eigen::Matrix<double, 8, 1> V8;
static V8 params(const std::string &n, bool symbolic = true) {
  V8 v;
  static const double lo[8] = {50, 50, 0, 0, -1, -1, -1, -1}, hi[8] = {2000, 2000, 2000, 2000, 1, 1, 1, 1};
  for (int i = 0; i < 8; i++) v(i) = symbolic ? vf::input(n + std::to_string(i), lo[i], hi[i]) : i < 2 ? vf::rnd(n + std::to_string(i), 300, 600) : i < 4 ? vf::rnd(n + std::to_string(i), 200, 400) : vf::rnd(n + std::to_string(i), -0.03, 0.03);
  return v;
}
static std::shared_ptr<CamBase> mk(bool fisheye, const V8 &v) {
  std::shared_ptr<CamBase> c;
  if (fisheye) c = std::make_shared<CamEqui>(640, 480); else c = std::make_shared<CamRadtan>(640, 480);
  c->set_value(v);
  return c;
}
// the two distortion models, written out again (OpenCV's camera calibration and fisheye documentation)
static Eigen::Vector2d model(bool fisheye, const V8 &v, const Eigen::Vector2d &p) {
  double x = p(0), y = p(1), r2 = x * x + y * y, u, w;
  if (fisheye) {
    double r = sqrt(r2), t = atan(r), t2 = t * t, k = t * (1 + t2 * (v(4) + t2 * (v(5) + t2 * (v(6) + t2 * v(7))))) / r;
    u = k * x; w = k * y;
  } else {
    double k = 1 + v(4) * r2 + v(5) * r2 * r2;
    u = x * k + 2 * v(6) * x * y + v(7) * (r2 + 2 * x * x);
    w = y * k + v(6) * (r2 + 2 * y * y) + 2 * v(7) * x * y;
  }
  return Eigen::Vector2d(v(0) * u + v(2), v(1) * w + v(3));
}
static Eigen::Vector2d point(bool away_from_centre) {
  Eigen::Vector2d p(vf::input("x", -2, 2), vf::input("y", -2, 2));
  if (away_from_centre) { if (vf::choose("which axis", 2)) vf::assume(vf::le(1e-3, p(0))); else vf::assume(vf::le(p(1), -1e-3)); }
  return p;
}
static void projection(bool fisheye) {
  V8 v = params("k");
  Eigen::Vector2d p = point(fisheye);
  auto c = mk(fisheye, v);
  Eigen::Vector2d e = model(fisheye, v, p);
  Eigen::Vector2d d = c->distort_d(p);
  Eigen::Vector2d f = c->distort_f(p.cast<float>()).cast<double>();
  cv::Point2f q = c->distort_cv(cv::Point2f((float)p(0), (float)p(1)));
  vf::check_near("projection", d, e, 1e-3);
  vf::check_near("single precision interface agrees", f, e, 1e-3);
  vf::check_near("OpenCV interface agrees", Eigen::Vector2d(q.x, q.y), e, 1e-3);
  vf::reach("end");
}
static void jac(bool fisheye, int mode) {
  V8 v = params("k");
  Eigen::Vector2d p = point(fisheye);
  auto c = mk(fisheye, v);
  Eigen::MatrixXd Hn, Hz;
  c->compute_distort_jacobian(p, Hn, Hz);
  auto f = [&](const Eigen::VectorXd &e) { V8 w = v + e.tail(8); return Eigen::VectorXd(model(fisheye, w, p + e.head(2))); };
  Eigen::MatrixXd D = vf::jacobian(f, 10);
  vf::check_eq("by the image point", Hn, D.leftCols(2));
  vf::check_eq("by the parameters", Hz, D.rightCols(8));
  vf::reach("end");
}
VF_CASE(radtan_projection) { projection(false); }
VF_CASE(radtan_jacobian) { jac(false, 0); }
VF_CASE(fisheye_projection) { projection(true); }
VF_CASE(fisheye_jacobian) { jac(true, 0); }
VF_CASE(centre) {
  bool fisheye = vf::choose("fisheye", 2);
  V8 v = params("k");
  auto c = mk(fisheye, v);
  Eigen::Vector2d p(0, 0);
  vf::check_near("principal point", c->distort_d(p), v.segment(2, 2), 1e-3);
  Eigen::MatrixXd Hn, Hz, E = Eigen::MatrixXd::Zero(2, 2), Z = Eigen::MatrixXd::Zero(2, 8);
  c->compute_distort_jacobian(p, Hn, Hz);
  E(0, 0) = v(0); E(1, 1) = v(1); Z(0, 2) = 1; Z(1, 3) = 1;
  vf::check_eq("by the image point", Hn, E);
  vf::check_eq("by the parameters", Hz, Z);
  vf::reach("end");
}
VF_CASE(inverse) {
  bool fisheye = vf::choose("fisheye", 2);
  V8 v = params("k", false), v0 = params("old", false);
  Eigen::Vector2d u(vf::input("u", 100, 500), vf::input("v", 100, 400));
  auto c = mk(fisheye, v0);
  c->set_value(v); // later parameters replace the earlier ones everywhere
  int which = vf::choose("interface", 3);
  Eigen::Vector2d n;
  if (which == 0) n = c->undistort_d(u);
  else if (which == 1) n = c->undistort_f(u.cast<float>()).cast<double>();
  else { cv::Point2f q = c->undistort_cv(cv::Point2f((float)u(0), (float)u(1))); n << q.x, q.y; }
  vf::check_near("projecting the undistorted point gives the pixel back", model(fisheye, v, n), u, 0.05);
  vf::reach("end");
}
VF_CASE(parameters) {
  bool fisheye = vf::choose("fisheye", 2);
  V8 v = params("k"), v0 = params("old", false);
  auto c = mk(fisheye, v0);
  c->set_value(v);
  vf::check_eq("vector", c->get_value(), v);
  cv::Matx33d K = c->get_K(); cv::Vec4d D = c->get_D();
  Eigen::Matrix3d k, e = Eigen::Matrix3d::Zero();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k(i, j) = K(i, j);
  e(0, 0) = v(0); e(1, 1) = v(1); e(0, 2) = v(2); e(1, 2) = v(3); e(2, 2) = 1;
  vf::check_eq("camera matrix", k, e);
  vf::check_eq("distortion", Eigen::Vector4d(D(0), D(1), D(2), D(3)), v.tail(4));
  vf::check("size", c->w() == 640 && c->h() == 480);
  vf::reach("end");
}
