// Replay build: the same harness on plain doubles against the real, unlifted code. Inputs come from a file.
#ifndef VF_REAL_H
#define VF_REAL_H
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/StdVector>
namespace vf {
struct R { std::map<std::string, double> in; std::map<std::string, long> ints; std::map<std::string, double> fails; bool verbose = false; };
R &RR();
struct PathAbort {};
typedef double Num;
struct CodeExit { int code; };
struct Cond { bool v; double m; }; // truth, margin
extern double TOL;
inline Cond cond_const(bool b) { return {b, b ? 1.0 : -1.0}; }
inline Cond tobool(bool b) { return cond_const(b); }
inline double sc(double a, double b) { return 1 + std::max(std::fabs(a), std::fabs(b)); }
inline Cond eq(double a, double b) { double d = std::fabs(a - b) / sc(a, b); bool ok = d <= TOL; if (!(a == a) || !(b == b)) { ok = false; d = 1; } if (a == b) ok = true, d = 0; return {ok, ok ? 1.0 : -d}; }
inline Cond ne(double a, double b) { return {a != b, 1.0}; }
inline Cond lt(double a, double b) { return {a < b + 1e-12 * sc(a, b), a < b ? 1.0 : -std::fabs(a - b)}; }
inline Cond le(double a, double b) { return {a <= b + TOL * sc(a, b), a <= b ? 1.0 : -std::fabs(a - b)}; }
inline Cond land(Cond a, Cond b) { return {a.v && b.v, std::min(a.m, b.m)}; }
inline Cond lor(Cond a, Cond b) { return {a.v || b.v, std::max(a.m, b.m)}; }
inline Cond lnot(Cond a) { return {!a.v, -a.m}; }
inline Cond implies(Cond a, Cond b) { return lor(lnot(a), b); }
inline double input(const std::string &n, double = 0, double = 0) { auto it = RR().in.find(n); return it == RR().in.end() ? 0.0 : it->second; }
inline double input_or(const std::string &n, double, double, bool) { return input(n); }
inline double rnd(const std::string &n, double, double) { return input(n); }
inline int choose(const std::string &n, int) { return (int)RR().ints[n]; }
inline long rnd_int(const std::string &n, long, long) { return RR().ints[n]; }
inline std::string text(double d) { char b[48]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline double aux(const std::string &) { return 0.1; }
inline void assume(Cond c) { if (!c.v) throw PathAbort(); }
inline void assume(bool b) { if (!b) throw PathAbort(); }
inline void fail(const std::string &n, double m) { auto &f = RR().fails[n]; f = std::max(f, m); if (RR().verbose) printf("  FAILED %s (by %g)\n", n.c_str(), m); }
inline void check(const std::string &n, Cond c) { if (!c.v) fail(n, -c.m); else if (RR().verbose) printf("  ok     %s\n", n.c_str()); }
inline void check(const std::string &n, bool b) { check(n, cond_const(b)); }
inline void check_eq_v(const std::string &n, const std::vector<double> &a, const std::vector<double> &b, double scale = 1.0) {
  if (a.size() != b.size()) { fail(n, 1); return; }
  double big = 1, worst = 0; size_t wi = 0;
  for (size_t i = 0; i < a.size(); i++) { if (std::isfinite(a[i])) big = std::max(big, std::fabs(a[i])); if (std::isfinite(b[i])) big = std::max(big, std::fabs(b[i])); }
  for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; double d = std::fabs(a[i] - b[i]) / (scale * big); if (!(d == d)) d = 1; if (d > worst) worst = d, wi = i; }
  if (worst > TOL) { fail(n, worst); if (RR().verbose) printf("         entry %zu: %.12g expected %.12g\n", wi, a[wi], b[wi]); }
  else if (RR().verbose) printf("  ok     %s\n", n.c_str());
}
inline void check_near_v(const std::string &n, const std::vector<double> &a, const std::vector<double> &b, double tol) {
  if (a.size() != b.size()) { fail(n, 1); return; }
  for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= tol * 1.01 + 1e-9)) fail(n, d == d ? d : 1); }
}
double chi2_quantile(double dof, double p);
inline void reach(const std::string &) {}
inline bool decide(Cond c) { return c.v; }
inline bool is_const(double) { return true; }
inline bool is_zero(double x) { return x == 0; }
inline void declare_angle(double) {}
inline void set_half_angles(bool) {}
inline void set_angle_unit(int) {}
inline void set_angle_terms(int) {}
inline void set_rounded_constants(bool) {}
inline void set_limits(long, int, int) {}
inline void note(const std::string &) {}
inline bool thorough() { return false; }
inline long seed() { return 1; }
inline double at_zero(double x) { return x; }
struct DomainChecks { DomainChecks() {} };
struct Register { Register(const char *name, void (*fn)(), int tier = 0); };
} // namespace vf
#define VF_CASE(name) static void vf_case_##name(); static vf::Register vf_reg_##name(#name, vf_case_##name); static void vf_case_##name()
#define VF_CASE_THOROUGH(name) static void vf_case_##name(); static vf::Register vf_reg_##name(#name, vf_case_##name, 1); static void vf_case_##name()
#endif
