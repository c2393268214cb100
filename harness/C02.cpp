// State variables: errors are applied on the manifold, first estimates and parts stay consistent, copies are independent
// VF-PKG: ov_msckf
// VF-SOURCES: ov_core/src/types/Landmark.cpp
// VF-BUDGET: 60 300
// VF-BOUNDS: every unit quaternion, every vector value and every error (rotation errors up to 4 rad per axis), all variable types, all position indices
// VF-OUTSIDE: rounding
#include "state_common.h"
#include "utils/quat_ops.h"
// rotation of the normalised quaternion (theta/2, 1), written as the Cayley transform
static Eigen::Matrix3d cayley(const Eigen::Vector3d &th) {
  Eigen::Vector3d t = 0.5 * th; double n = t.dot(t);
  return ((1 - n) * Eigen::Matrix3d::Identity() - 2 * skew_x(t) + 2 * t * t.transpose()) / (1 + n);
}
static std::shared_ptr<Type> mk(int k, const std::string &n, bool symbolic, Eigen::MatrixXd &val, Eigen::MatrixXd &fej) {
  std::shared_ptr<Type> v;
  int extra = 0;
  if (k == 0) v = std::make_shared<JPLQuat>();
  else if (k == 1) { v = std::make_shared<PoseJPL>(); extra = 3; }
  else if (k == 2) { v = std::make_shared<IMU>(); extra = 12; }
  else { int z = k == 3 ? 1 : 6; v = std::make_shared<Vec>(z); val = vf::inputs(n, z, 1, -1e9, 1e9, symbolic); fej = vf::inputs(n + "f", z, 1, -1e9, 1e9, symbolic); v->set_value(val); v->set_fej(fej); return v; }
  val.resize(4 + extra, 1); fej.resize(4 + extra, 1);
  val.block(0, 0, 4, 1) = vf::in_quat(n + ".q", symbolic); fej.block(0, 0, 4, 1) = vf::in_quat(n + ".qf", false);
  if (extra) { val.block(4, 0, extra, 1) = vf::inputs(n, extra, 1, -1e9, 1e9, symbolic); fej.block(4, 0, extra, 1) = vf::inputs(n + "f", extra, 1, -1e9, 1e9, symbolic); }
  v->set_value(val); v->set_fej(fej);
  return v;
}
static void parts(int k, std::shared_ptr<Type> v, const Eigen::MatrixXd &val, const Eigen::MatrixXd &fej) {
  vf::check_eq("value", v->value(), val); vf::check_eq("first estimate", v->fej(), fej);
  if (k > 2) return;
  Eigen::Matrix3d R = quat_2_Rot(val.block(0, 0, 4, 1)), Rf = quat_2_Rot(fej.block(0, 0, 4, 1));
  if (k == 0) { auto q = std::dynamic_pointer_cast<JPLQuat>(v); vf::check_eq("rotation", q->Rot(), R); vf::check_eq("first rotation", q->Rot_fej(), Rf); return; }
  std::shared_ptr<PoseJPL> p;
  if (k == 2) {
    auto m = std::dynamic_pointer_cast<IMU>(v);
    p = m->pose();
    vf::check_eq("velocity", m->vel(), val.block(7, 0, 3, 1)); vf::check_eq("gyro bias", m->bias_g(), val.block(10, 0, 3, 1)); vf::check_eq("accel bias", m->bias_a(), val.block(13, 0, 3, 1));
    vf::check_eq("first velocity", m->vel_fej(), fej.block(7, 0, 3, 1)); vf::check_eq("first gyro bias", m->bias_g_fej(), fej.block(10, 0, 3, 1)); vf::check_eq("first accel bias", m->bias_a_fej(), fej.block(13, 0, 3, 1));
    vf::check_eq("velocity part", m->v()->value(), val.block(7, 0, 3, 1)); vf::check_eq("gyro bias part", m->bg()->value(), val.block(10, 0, 3, 1)); vf::check_eq("accel bias part", m->ba()->value(), val.block(13, 0, 3, 1));
    vf::check_eq("position", m->pos(), val.block(4, 0, 3, 1)); vf::check_eq("first position", m->pos_fej(), fej.block(4, 0, 3, 1));
    vf::check_eq("quaternion", m->quat(), val.block(0, 0, 4, 1)); vf::check_eq("first quaternion", m->quat_fej(), fej.block(0, 0, 4, 1));
    vf::check_eq("rotation", m->Rot(), R); vf::check_eq("first rotation", m->Rot_fej(), Rf);
    vf::check("parts", m->q() == p->q() && m->p() == p->p());
  } else p = std::dynamic_pointer_cast<PoseJPL>(v);
  vf::check_eq("pose value", p->value(), val.block(0, 0, 7, 1)); vf::check_eq("pose first estimate", p->fej(), fej.block(0, 0, 7, 1));
  vf::check_eq("pose rotation", p->Rot(), R); vf::check_eq("pose first rotation", p->Rot_fej(), Rf);
  vf::check_eq("pose position", p->pos(), val.block(4, 0, 3, 1)); vf::check_eq("pose first position", p->pos_fej(), fej.block(4, 0, 3, 1));
  vf::check_eq("pose quaternion", p->quat(), val.block(0, 0, 4, 1)); vf::check_eq("pose first quaternion", p->quat_fej(), fej.block(0, 0, 4, 1));
  vf::check_eq("orientation part", p->q()->Rot(), R); vf::check_eq("position part", p->p()->value(), val.block(4, 0, 3, 1));
}
static const int dof[5] = {3, 6, 15, 1, 6};
VF_CASE(set_and_read) {
  int k = vf::choose("type", 5);
  Eigen::MatrixXd a, f, b, g;
  auto v = mk(k, "x", true, a, f);
  parts(k, v, a, f);
  auto w = mk(k, "y", false, b, g); // overwritten values leave nothing behind
  v->set_value(b); parts(k, v, b, f);
  v->set_fej(g); parts(k, v, b, g);
  vf::check("dimension", v->size() == dof[k]);
  vf::reach("end");
}
static void manifold(bool symbolic_value) {
  int k = vf::choose("type", 5);
  Eigen::MatrixXd a, f;
  auto v = mk(k, "x", symbolic_value, a, f);
  Eigen::VectorXd d = vf::inputs("d", dof[k], 1, -4, 4, k > 2 || !symbolic_value);
  v->update(d);
  Eigen::MatrixXd r = v->value();
  vf::check_eq("first estimate stays", v->fej(), f);
  int e = k > 2 ? 0 : 3, ev = k > 2 ? 0 : 4;
  if (dof[k] > e) vf::check_eq("vector parts add", r.bottomRows(dof[k] - e), a.bottomRows(dof[k] - e) + d.tail(dof[k] - e));
  if (ev) {
    Eigen::Vector4d q = r.block(0, 0, 4, 1);
    Eigen::Vector3d th = d.head(3);
    vf::check_eq("unit quaternion", q.dot(q), 1.0);
    if (!symbolic_value) vf::check("scalar part non-negative", vf::le(0.0, q(3)));
    vf::check_eq("rotation error multiplies on the left", quat_2_Rot(q), cayley(th) * quat_2_Rot(a.block(0, 0, 4, 1)));
    if (!symbolic_value) parts(k, v, r, f);
  }
  vf::reach("end");
}
VF_CASE(update_any_error) { manifold(false); }
VF_CASE(update_any_value) { manifold(true); }
VF_CASE(positions) {
  int k = vf::choose("type", 5), id = vf::choose("id", 3) * 7 - 1; // -1, 6, 13
  Eigen::MatrixXd a, f;
  auto v = mk(k, "x", false, a, f);
  v->set_local_id(4);
  v->set_local_id(id);
  int on = id == -1 ? 0 : 1;
  vf::check("own position", v->id() == id);
  std::vector<std::shared_ptr<Type>> subs; std::vector<int> at;
  if (k == 1) { auto p = std::dynamic_pointer_cast<PoseJPL>(v); subs = {p->q(), p->p()}; at = {0, 3}; }
  if (k == 2) { auto m = std::dynamic_pointer_cast<IMU>(v); subs = {m->pose(), m->q(), m->p(), m->v(), m->bg(), m->ba()}; at = {0, 0, 3, 6, 9, 12}; }
  for (size_t i = 0; i < subs.size(); i++) {
    vf::check("position of part " + std::to_string(i), subs[i]->id() == id + on * at[i]);
    vf::check("recognised as a part", v->check_if_subvariable(subs[i]) == subs[i]);
  }
  Eigen::MatrixXd b, g;
  auto o = mk(k, "y", false, b, g);
  vf::check("another variable is not a part", v->check_if_subvariable(o) == nullptr);
  if (k == 1) vf::check("a part of another is not a part", v->check_if_subvariable(std::dynamic_pointer_cast<PoseJPL>(o)->q()) == nullptr);
  if (k == 2) vf::check("a part of another is not a part", v->check_if_subvariable(std::dynamic_pointer_cast<IMU>(o)->q()) == nullptr && v->check_if_subvariable(std::dynamic_pointer_cast<IMU>(o)->v()) == nullptr);
  vf::reach("end");
}
VF_CASE(copies) {
  int k = vf::choose("type", 5);
  Eigen::MatrixXd a, f;
  auto v = mk(k, "x", true, a, f);
  v->set_local_id(9);
  auto c = v->clone();
  vf::check("another object", c != v);
  vf::check("same dimension", c->size() == v->size());
  parts(k, c, a, f);
  c->update(vf::rnds("d", dof[k]));
  parts(k, v, a, f); // the original does not follow
  auto c2 = v->clone();
  v->update(vf::rnds("e", dof[k]));
  Eigen::MatrixXd g = vf::rnds("g", a.rows()); if (k < 3) g.block(0, 0, 4, 1) = vf::in_quat("g", false);
  v->set_fej(g);
  parts(k, c2, a, f);
  vf::reach("end");
}
