// Feature representations describe the point they were set from
// VF-PKG: ov_msckf
// VF-SOURCES: ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: every estimate and first estimate with depth 0.1..100 and lateral offset up to 100 (spherical representation: any direction off the vertical axis), every representation
// VF-OUTSIDE: rounding
#include "state_common.h"
#include "vision_common.h"
VF_CASE(round_trip) {
  int k = vf::choose("representation", 6);
  Landmark l(k == 5 ? 1 : 3);
  l._feat_representation = h::reps[k];
  bool first = vf::choose("first estimate first", 2);
  Eigen::Vector3d x(vf::input("x", -100, 100), vf::input("y", -100, 100), vf::input("z", 0.1, 100)), y(vf::input("fx", -100, 100), vf::input("fy", -100, 100), vf::input("fz", 0.1, 100));
  if (k == 1 || k == 3) { vf::assume(vf::lt(0.01, x(0) * x(0) + x(1) * x(1))); vf::assume(vf::lt(0.01, y(0) * y(0) + y(1) * y(1))); }
  if (first) l.set_from_xyz(y, true);
  l.set_from_xyz(x, false);
  if (!first) l.set_from_xyz(y, true);
  vf::check_eq("estimate", l.get_xyz(false), x);
  vf::check_eq("first estimate", l.get_xyz(true), y);
  vf::reach("end");
}
VF_CASE(parameters) { // the error-state parametrisation
  int k = vf::choose("representation", 6);
  Landmark l(k == 5 ? 1 : 3);
  l._feat_representation = h::reps[k];
  Eigen::Vector3d x(vf::input("x", 1, 10), vf::input("y", -10, -1), vf::input("z", 1, 10));
  l.set_from_xyz(x, false); l.set_from_xyz(vf::rnds("f", 3, 1, 1, 2), true);
  Eigen::MatrixXd f = l.fej(), v = l.value();
  Eigen::VectorXd d = vf::rnds("d", l.size(), 1, -0.05, 0.05);
  l.update(d);
  vf::check_eq("an update adds to the parameters", l.value(), v + d);
  vf::check_eq("the first estimate stays", l.fej(), f);
  if (k == 0 || k == 2) vf::check_eq("cartesian", v, x);
  else if (k == 4) vf::check_eq("inverse depth", v, Eigen::Vector3d(x(0) / x(2), x(1) / x(2), 1 / x(2)));
  else if (k == 5) vf::check_eq("single inverse depth", v(0, 0), 1 / x(2));
  else {
    double n = x.norm();
    vf::check_eq("inverse distance", v(2, 0), 1 / n);
    vf::check_eq("azimuth", Eigen::Vector2d(cos(v(0, 0)) * sqrt(x(0) * x(0) + x(1) * x(1)), sin(v(0, 0)) * sqrt(x(0) * x(0) + x(1) * x(1))), x.head(2));
    vf::check_eq("polar angle", cos(v(1, 0)) * n, x(2));
  }
  vf::reach("end");
}
VF_CASE(moved_point) { // the point described after an update
  int k = vf::choose("representation", 6);
  Landmark l(k == 5 ? 1 : 3);
  l._feat_representation = h::reps[k];
  Eigen::Vector3d x; double u = vf::input("u", 1, 10); x << u * 15 / 65, u * 20 / 65, u * 60 / 65;
  l.set_from_xyz(x, false); l.set_from_xyz(x, true);
  Eigen::VectorXd d = vf::rnds("d", l.size(), 1, -0.05, 0.05);
  if (k != 1 && k != 3) { l.update(d); vf::check_eq("point", l.get_xyz(false), h::perturb_point(h::reps[k], x, d)); vf::check_eq("first point stays", l.get_xyz(true), x); }
  vf::check("relative", LandmarkRepresentation::is_relative_representation(h::reps[k]) == (k >= 2));
  vf::check("name round trip", LandmarkRepresentation::from_string(LandmarkRepresentation::as_string(h::reps[k])) == h::reps[k]);
  vf::reach("end");
}
