// Symbolic scalar used in place of double/float when /repo's sources are executed symbolically.
// A Sym is a handle into a hash-consed expression DAG over exact rationals. Arithmetic builds terms, a comparison
// that is not decided by the path condition forks the execution (the solver says which sides are feasible).
#ifndef VF_SYM_H
#define VF_SYM_H
#include <cstdint>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <iosfwd>
#include <limits>
#include <map>
#include <random>
#include <string>
#include <sstream>
#include <type_traits>
#include <vector>

namespace vf {
enum Rel { LT, LE, EQ, NE };
struct Sym;
int mk_const(double v);
int mk_const_int(long long v);
int mk_lit(const char *s);
int mk_bin(char op, int a, int b);
int mk_un(const char *op, int a);
int mk_un2(const char *op, int a, int b);
bool branch(Rel r, int a, int b);
double to_double(int id);
long long to_int(int id, int mode); // 0 trunc, 1 floor, 2 ceil, 3 round
extern const int ID_UNINIT, ID_ZERO, ID_NAN, ID_PINF, ID_NINF;

struct Sym {
  int id;
  Sym() : id(ID_UNINIT) {}
  struct Raw { int id; };
  Sym(Raw r) : id(r.id) {}
  template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> Sym(T v) : id(mk_const_int((long long)v)) {}
  template <typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0> Sym(T v) : id(mk_const((double)v)) {}
  template <typename T, typename std::enable_if<std::is_enum<T>::value && std::is_convertible<T, int>::value, int>::type = 0> Sym(T v) : id(mk_const_int((long long)v)) {}
  template <typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
  explicit operator T() const { return (T)to_int(id, 0); }
  explicit operator bool() const { return branch(NE, id, ID_ZERO); }
  explicit operator double() const { return to_double(id); }
  explicit operator float() const { return (float)to_double(id); }
  friend Sym operator+(const Sym &a, const Sym &b) { return Sym(Raw{mk_bin('+', a.id, b.id)}); }
  friend Sym operator-(const Sym &a, const Sym &b) { return Sym(Raw{mk_bin('-', a.id, b.id)}); }
  friend Sym operator*(const Sym &a, const Sym &b) { return Sym(Raw{mk_bin('*', a.id, b.id)}); }
  friend Sym operator/(const Sym &a, const Sym &b) { return Sym(Raw{mk_bin('/', a.id, b.id)}); }
  Sym operator-() const { return Sym(Raw{mk_bin('-', ID_ZERO, id)}); }
  Sym operator+() const { return *this; }
  bool operator!() const { return branch(EQ, id, ID_ZERO); }
  Sym &operator+=(const Sym &b) { return *this = *this + b; }
  Sym &operator-=(const Sym &b) { return *this = *this - b; }
  Sym &operator*=(const Sym &b) { return *this = *this * b; }
  Sym &operator/=(const Sym &b) { return *this = *this / b; }
  Sym &operator++() { return *this += Sym(1); }
  Sym &operator--() { return *this -= Sym(1); }
  Sym operator++(int) { Sym t = *this; *this += Sym(1); return t; }
  Sym operator--(int) { Sym t = *this; *this -= Sym(1); return t; }
  friend bool operator<(const Sym &a, const Sym &b) { return branch(LT, a.id, b.id); }
  friend bool operator<=(const Sym &a, const Sym &b) { return branch(LE, a.id, b.id); }
  friend bool operator>(const Sym &a, const Sym &b) { return branch(LT, b.id, a.id); }
  friend bool operator>=(const Sym &a, const Sym &b) { return branch(LE, b.id, a.id); }
  friend bool operator==(const Sym &a, const Sym &b) { return branch(EQ, a.id, b.id); }
  friend bool operator!=(const Sym &a, const Sym &b) { return branch(NE, a.id, b.id); }
};
inline Sym mk(int id) { return Sym(Sym::Raw{id}); }
inline Sym lit(const char *s) { return mk(mk_lit(s)); }

inline Sym sqrt(const Sym &x) { return mk(mk_un("sqrt", x.id)); }
inline Sym sin(const Sym &x) { return mk(mk_un("sin", x.id)); }
inline Sym cos(const Sym &x) { return mk(mk_un("cos", x.id)); }
inline Sym tan(const Sym &x) { return sin(x) / cos(x); }
inline Sym acos(const Sym &x) { return mk(mk_un("acos", x.id)); }
inline Sym asin(const Sym &x) { return mk(mk_un("asin", x.id)); }
inline Sym atan(const Sym &x) { return mk(mk_un("atan", x.id)); }
inline Sym exp(const Sym &x) { return mk(mk_un("exp", x.id)); }
inline Sym log(const Sym &x) { return mk(mk_un("log", x.id)); }
inline Sym atan2(const Sym &y, const Sym &x) { return mk(mk_un2("atan2", y.id, x.id)); }
inline Sym hypot(const Sym &y, const Sym &x) { return sqrt(x * x + y * y); }
inline Sym abs(const Sym &x) { return x < Sym(0) ? -x : x; }
inline Sym fabs(const Sym &x) { return abs(x); }
inline Sym abs2(const Sym &x) { return x * x; }
// a whole number: still a scalar, and convertible to int where the code relies on that
struct Whole : Sym { int v; Whole(long long n) : Sym(n), v((int)n) {} operator int() const { return v; } };
#define VF_WI(op) template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline Whole operator op(const Whole &a, T b) { return Whole((long long)a.v op (long long)b); } \
  template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline Whole operator op(T b, const Whole &a) { return Whole((long long)b op (long long)a.v); } inline Whole operator op(const Whole &a, const Whole &b) { return Whole((long long)a.v op (long long)b.v); }
VF_WI(+) VF_WI(-) VF_WI(*)
#undef VF_WI
template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline Sym operator/(const Whole &a, T b) { return (const Sym &)a / Sym(b); }
template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline Sym operator/(T b, const Whole &a) { return Sym(b) / (const Sym &)a; }
inline Sym operator/(const Whole &a, const Whole &b) { return (const Sym &)a / (const Sym &)b; }
#define VF_WF(op) template <class T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0> inline Sym operator op(const Whole &a, T b) { return (const Sym &)a op Sym(b); } \
  template <class T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0> inline Sym operator op(T b, const Whole &a) { return Sym(b) op (const Sym &)a; }
VF_WF(+) VF_WF(-) VF_WF(*) VF_WF(/)
#undef VF_WF
#define VF_WC(op) template <class T, typename std::enable_if<std::is_arithmetic<T>::value, int>::type = 0> inline bool operator op(const Whole &a, T b) { return a.v op b; } \
  template <class T, typename std::enable_if<std::is_arithmetic<T>::value, int>::type = 0> inline bool operator op(T b, const Whole &a) { return b op a.v; } inline bool operator op(const Whole &a, const Whole &b) { return a.v op b.v; }
VF_WC(<) VF_WC(>) VF_WC(<=) VF_WC(>=) VF_WC(==) VF_WC(!=)
#undef VF_WC
inline Whole floor(const Sym &x) { return Whole(to_int(x.id, 1)); }
inline Whole ceil(const Sym &x) { return Whole(to_int(x.id, 2)); }
inline Whole round(const Sym &x) { return Whole(to_int(x.id, 3)); }
inline Whole trunc(const Sym &x) { return Whole(to_int(x.id, 0)); }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0> inline T &operator/=(T &a, const Sym &b) { return a = (T)(Sym(a) / b); }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0> inline T &operator*=(T &a, const Sym &b) { return a = (T)(Sym(a) * b); }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0> inline T &operator+=(T &a, const Sym &b) { return a = (T)(Sym(a) + b); }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0> inline T &operator-=(T &a, const Sym &b) { return a = (T)(Sym(a) - b); }
inline Sym fmod(const Sym &a, const Sym &b) { return a - b * Sym(to_int((a / b).id, 0)); }
bool isnan_id(int id);
bool isinf_id(int id);
inline bool isnan(const Sym &x) { return isnan_id(x.id); }
inline bool isinf(const Sym &x) { return isinf_id(x.id); }
inline bool isfinite(const Sym &x) { return !isnan_id(x.id) && !isinf_id(x.id); }
inline bool signbit(const Sym &x) { return x < Sym(0); }
inline Sym copysign(const Sym &x, const Sym &y) { return (y < Sym(0)) ? -abs(x) : abs(x); }
Sym pow(const Sym &x, const Sym &y);
inline Sym cbrt(const Sym &x) { return mk(mk_un("cbrt", x.id)); }
inline Sym fmin(const Sym &a, const Sym &b) { return b < a ? b : a; }
inline Sym fmax(const Sym &a, const Sym &b) { return a < b ? b : a; }
inline const Sym &conj(const Sym &x) { return x; }
inline const Sym &real(const Sym &x) { return x; }
inline Sym imag(const Sym &) { return Sym(0); }
std::ostream &operator<<(std::ostream &os, const Sym &s);
std::istream &operator>>(std::istream &is, Sym &s);
std::string to_str(const Sym &s);
} // namespace vf
using vf::Sym;

// the arithmetic functions may be called as std::f, ::f or f
#define VF_FN1(f) using vf::f;
#define VF_FNS VF_FN1(sqrt) VF_FN1(sin) VF_FN1(cos) VF_FN1(tan) VF_FN1(acos) VF_FN1(asin) VF_FN1(atan) VF_FN1(exp) VF_FN1(log) VF_FN1(atan2) VF_FN1(abs) VF_FN1(fabs) VF_FN1(floor) VF_FN1(ceil) VF_FN1(round) VF_FN1(trunc) VF_FN1(fmod) VF_FN1(isnan) VF_FN1(isinf) VF_FN1(isfinite) VF_FN1(pow) VF_FN1(fmin) VF_FN1(fmax) VF_FN1(hypot) VF_FN1(copysign) VF_FN1(signbit) VF_FN1(cbrt)
namespace std {
VF_FNS
inline string to_string(const vf::Sym &s) { return vf::to_str(s); }
template <> class numeric_limits<vf::Sym> {
public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true,
                        has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021, max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
  static vf::Sym min() { return vf::lit("1e-300"); }
  static vf::Sym max() { return vf::lit("1e300"); }
  static vf::Sym lowest() { return vf::lit("-1e300"); }
  static vf::Sym epsilon() { return vf::lit("2.220446049250313e-16"); }
  static vf::Sym infinity() { return vf::mk(vf::ID_PINF); }
  static vf::Sym quiet_NaN() { return vf::mk(vf::ID_NAN); }
  static vf::Sym denorm_min() { return vf::lit("1e-300"); }
};
template <> struct hash<vf::Sym> { size_t operator()(const vf::Sym &) const { return 1; } };
// random draws of the code under test become fresh unconstrained symbols
template <> class normal_distribution<vf::Sym> {
  vf::Sym m, s;
public:
  typedef vf::Sym result_type;
  normal_distribution(vf::Sym m_ = vf::Sym(0), vf::Sym s_ = vf::Sym(1)) : m(m_), s(s_) {}
  template <class G> vf::Sym operator()(G &g);
};
template <> class uniform_real_distribution<vf::Sym> {
  vf::Sym a, b;
public:
  typedef vf::Sym result_type;
  uniform_real_distribution(vf::Sym a_ = vf::Sym(0), vf::Sym b_ = vf::Sym(1)) : a(a_), b(b_) {}
  template <class G> vf::Sym operator()(G &g);
};
} // namespace std
// global namespace versions (math.h style calls)
using vf::fabs;
using vf::sqrt;
using vf::sin;
using vf::cos;
using vf::tan;
using vf::acos;
using vf::asin;
using vf::atan;
using vf::atan2;
using vf::pow;
using vf::exp;
using vf::log;
using vf::floor;
using vf::ceil;
using vf::round;
using vf::fmin;
using vf::fmax;
using vf::isnan;
using vf::isinf;
using vf::isfinite;
using vf::abs;
using vf::fmod;

namespace vf {
// ---------------------------------------------------------------- harness API (shared with the replay build, see vf_real.h)
struct Num { double v; template <typename T, typename std::enable_if<std::is_arithmetic<T>::value, int>::type = 0> Num(T x) : v((double)x) {} Num(const Sym &x) : v(to_double(x.id)) {} operator double() const { return v; } };
struct Cond { int id; };
Cond cond_const(bool b);
inline Cond tobool(bool b) { return cond_const(b); }
Cond c_rel(Rel r, int a, int b);
inline Cond eq(const Sym &a, const Sym &b) { return c_rel(EQ, a.id, b.id); }
inline Cond ne(const Sym &a, const Sym &b) { return c_rel(NE, a.id, b.id); }
inline Cond lt(const Sym &a, const Sym &b) { return c_rel(LT, a.id, b.id); }
inline Cond le(const Sym &a, const Sym &b) { return c_rel(LE, a.id, b.id); }
Cond land(Cond a, Cond b);
std::string text(const Sym &s);  // a decimal number that stands for the value when it is read back
Sym parse(const char *c);
Cond lor(Cond a, Cond b);
Cond lnot(Cond a);
inline Cond implies(Cond a, Cond b) { return lor(lnot(a), b); }

Sym input(const std::string &name, Num lo = -1e9, Num hi = 1e9); // symbolic input with an assumed range (|.|<=1e9 : none)
Sym input_or(const std::string &name, Num lo, Num hi, bool symbolic); // symbolic, or a seeded random rational in [lo,hi]
Sym rnd(const std::string &name, Num lo, Num hi);                 // seeded concrete rational (part of the stated bound)
int choose(const std::string &name, int n);                             // every value 0..n-1 is explored
long rnd_int(const std::string &name, long lo, long hi);
extern bool symbolic_draws; // off: random draws are seeded constants
inline Sym draw(const std::string &name, Num lo, Num hi) { return symbolic_draws ? input(name, lo, hi) : rnd(name, lo, hi); }
Sym aux(const std::string &name);  // a fresh unconstrained value of a contract stub; not replayed
void assume(Cond c);
void check(const std::string &name, Cond c);
inline void assume(bool b) { assume(cond_const(b)); }
inline void check(const std::string &name, bool b) { check(name, cond_const(b)); }
void check_eq_v(const std::string &name, const std::vector<Sym> &a, const std::vector<Sym> &b, Num scale = 1.0);
void check_near_v(const std::string &name, const std::vector<Sym> &a, const std::vector<Sym> &b, Num tol); // |a-b| <= tol, entry by entry
double chi2_quantile(Num dof, Num p);
void reach(const std::string &name); // reachability witness: must be reached on a feasible path
bool decide(Cond c);                 // fork on a condition
Sym infinitesimal(int k);
Sym tangent(const Sym &v, int k);    // d v / d e_k at e = 0
Sym at_zero(const Sym &v);           // v at e = 0
void note(const std::string &s);
void set_thorough_hint(bool);
bool thorough();
long seed();
// division by zero / sqrt of negative become checked obligations while a guard is alive
struct DomainChecks { bool old; DomainChecks(); ~DomainChecks(); };
struct PathAbort {};
struct CodeExit { int code; };
[[noreturn]] void code_exit(int c);
[[noreturn]] inline void code_abort() { code_exit(134); }
void code_assert(bool ok, const char *what);
struct Case { const char *name; void (*fn)(); int tier; };
struct Register { Register(const char *name, void (*fn)(), int tier = 0); };
} // namespace vf
namespace std {
// a draw is a symbol named after the generator's next number: a copy of the generator gives the same draws
template <class G> vf::Sym normal_distribution<vf::Sym>::operator()(G &g) { return m + s * vf::draw("normal" + to_string((unsigned long long)g()), -8, 8); }
template <class G> vf::Sym uniform_real_distribution<vf::Sym>::operator()(G &g) { return a + (b - a) * vf::draw("uniform" + to_string((unsigned long long)g()), 0, 1); }
} // namespace std
#define VF_CASE(name) static void vf_case_##name(); static vf::Register vf_reg_##name(#name, vf_case_##name); static void vf_case_##name()
#define VF_CASE_THOROUGH(name) static void vf_case_##name(); static vf::Register vf_reg_##name(#name, vf_case_##name, 1); static void vf_case_##name()
#define VF_SYMBOLIC 1
#endif
