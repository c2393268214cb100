// Engine: expression DAG, exact normal forms, path exploration by re-execution, SMT back end (z3 over a pipe).
#include "vf_sym.h"
#include <algorithm>
#include <cassert>
#include <cfenv>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <gmpxx.h>
#include <iostream>
#include <memory>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace vf {
const int ID_UNINIT = 0, ID_ZERO = 1, ID_NAN = 2, ID_PINF = 3, ID_NINF = 4;
static const int ID_ONE = 5, ID_MONE = 6;
typedef mpq_class Q;
typedef std::chrono::steady_clock Clock;
static double secs_since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

enum Op : uint8_t { CONST, SPECIAL, VAR, ADD, SUB, MUL, DIV, SQRT, SIN, COS, ACOS, ASIN, ATAN, ATAN2, EXP, LOG, CBRT };
static const char *op_name[] = {"const", "special", "var", "+", "-", "*", "/", "sqrt", "sin", "cos", "acos", "asin", "atan", "atan2", "exp", "log", "cbrt"};
struct Node { Op op; int a, b; };
struct VarInfo { std::string name; double lo, hi; int kind; }; // kind 0 input 1 aux 2 infinitesimal

// ------------------------------------------------------------------------------------------------ polynomials
struct MonoKeyHash { size_t operator()(const std::vector<int> &v) const { size_t h = 1469598103934665603ull; for (int x : v) { h ^= (unsigned)x; h *= 1099511628211ull; } return h; } };
typedef std::vector<int> Mono; // atom, exp, atom, exp, ...
typedef std::vector<std::pair<int, Q>> Poly; // sorted by mono id
struct TooBig {};
enum AtomKind : uint8_t { A_VAR, A_SQRT, A_SIN, A_COS, A_INV, A_FN };
struct Atom { AtomKind kind; int ref; int ref2; Op fn; int partner; bool nonneg; };

struct Engine;
static Engine &E();

struct CondNode { int kind; Rel r; int a, b; }; // kind 0 false 1 true 2 rel 3 and 4 or 5 not

struct Violation { std::string check; std::vector<std::map<std::string, double>> cands; std::map<std::string, long> ints; std::string info; };

struct Engine {
  std::vector<Node> nodes;
  std::vector<Q> consts;
  std::vector<VarInfo> vars;
  std::unordered_map<uint64_t, std::vector<int>> cons;
  std::unordered_map<std::string, int> const_ids, var_ids;
  std::vector<CondNode> conds;
  // normal forms
  std::vector<Mono> monos; std::unordered_map<Mono, int, MonoKeyHash> mono_ids;
  std::vector<Poly> polys; std::unordered_map<size_t, std::vector<int>> poly_ids;
  std::vector<Atom> atoms; std::unordered_map<std::string, int> atom_ids;
  std::unordered_map<int, int> nf_cache;
  std::unordered_map<int, int> inv_cache, clear_cache;
  size_t term_limit = 40000;
  long nf_ops = 0, nf_ops_limit = 0;

  // path state
  struct Dec { int val; int n; uint64_t key; bool forced; };
  std::vector<Dec> trace; // decisions of the current run
  std::vector<int> prefix; std::vector<uint64_t> prefix_keys;
  std::deque<std::pair<std::vector<int>, std::vector<uint64_t>>> work;
  std::vector<int> pc; // path condition (cond ids)
  std::map<int, int> sign; // canonical poly -> mask (1 neg, 2 zero, 4 pos)
  std::map<std::string, long> path_ints;
  std::map<std::string, double> path_rnd;
  int aux_count = 0, uninit_count = 0;
  bool domain_checks = false;
  std::vector<std::pair<int, std::vector<std::pair<int,int>>>> dummy;

  // statistics
  long n_paths = 0, n_aborted = 0, n_decisions = 0, n_forks = 0, n_queries = 0, n_checks = 0, n_trivial = 0, n_raw = 0, n_norm = 0, n_unknown = 0, n_exits = 0, n_assert_fail = 0;
  long n_feas = 0, n_numeric_first = 0;
  double solver_time = 0;
  std::map<std::string, long> check_counts, reach_counts;
  std::map<std::string, int> viol_counts;
  std::vector<Violation> viols;
  std::vector<std::pair<std::map<std::string, long>, std::map<std::string, double>>> wits;
  std::set<std::string> unknown_checks, notes;
  double deadline_s = 1e9; Clock::time_point t0; bool incomplete = false; std::string incomplete_why;
  long vf_seed = 1; bool vf_thorough = false;
  std::string case_name;
  std::mt19937_64 rng;
  int query_ms = 8000, feas_ms = 1500;

  Engine() {
    nodes.push_back({SPECIAL, 0, 0});
    consts.push_back(Q(0));
    nodes.push_back({CONST, 0, 0}); const_ids["0"] = 1;
    nodes.push_back({SPECIAL, 2, 0}); nodes.push_back({SPECIAL, 3, 0}); nodes.push_back({SPECIAL, 4, 0});
    consts.push_back(Q(1)); nodes.push_back({CONST, 1, 0}); const_ids["1"] = 5;
    consts.push_back(Q(-1)); nodes.push_back({CONST, 2, 0}); const_ids["-1"] = 6;
    conds.push_back({0, LT, 0, 0}); conds.push_back({1, LT, 0, 0});
    mono_ids[Mono()] = 0; monos.push_back(Mono());
    intern(Poly()); // poly 0 = 0
    Poly one; one.push_back({0, Q(1)}); intern(one); // poly 1 = 1
    t0 = Clock::now();
  }
  // ---------------------------------------------------------------- nodes
  int mkq(const Q &q) {
    std::string k = q.get_str(62);
    auto it = const_ids.find(k);
    if (it != const_ids.end()) return it->second;
    consts.push_back(q); nodes.push_back({CONST, (int)consts.size() - 1, 0});
    return const_ids[k] = (int)nodes.size() - 1;
  }
  bool isc(int i) const { return nodes[i].op == CONST; }
  bool isspec(int i) const { return nodes[i].op == SPECIAL; }
  const Q &cv(int i) const { return consts[nodes[i].a]; }
  int mkn(Op op, int a, int b) {
    uint64_t h = ((uint64_t)op << 58) ^ ((uint64_t)(unsigned)a * 2654435761u) ^ ((uint64_t)(unsigned)b << 29) ^ ((uint64_t)(unsigned)b * 40503u);
    auto &v = cons[h];
    for (int i : v) if (nodes[i].op == op && nodes[i].a == a && nodes[i].b == b) return i;
    nodes.push_back({op, a, b});
    v.push_back((int)nodes.size() - 1);
    return (int)nodes.size() - 1;
  }
  int mkvar(const std::string &name, double lo, double hi, int kind) {
    auto it = var_ids.find(name);
    if (it != var_ids.end()) return it->second;
    vars.push_back({name, lo, hi, kind});
    nodes.push_back({VAR, (int)vars.size() - 1, 0});
    return var_ids[name] = (int)nodes.size() - 1;
  }
  int spec_bin(char op, int a, int b) {
    if (a == ID_UNINIT || b == ID_UNINIT) return ID_UNINIT;
    if (a == ID_NAN || b == ID_NAN) return ID_NAN;
    bool ia = isspec(a), ib = isspec(b);
    int neg = -1;
    if (op == '+') { if (ia && ib) return a == b ? a : ID_NAN; return ia ? a : b; }
    if (op == '-') { if (ia && ib) return a == b ? ID_NAN : a; return ia ? a : (b == ID_PINF ? ID_NINF : ID_PINF); }
    auto sgn = [&](int x) -> int { if (x == ID_PINF) return 1; if (x == ID_NINF) return -1; if (branch(EQ, x, ID_ZERO)) return 0; return branch(LT, x, ID_ZERO) ? -1 : 1; };
    if (op == '*') { int s = sgn(a) * sgn(b); return s == 0 ? ID_NAN : (s > 0 ? ID_PINF : ID_NINF); }
    if (op == '/') { if (ia && ib) return ID_NAN; if (ib) return ID_ZERO; int s = sgn(a) * (sgn(b) >= 0 ? 1 : -1); return s > 0 ? ID_PINF : ID_NINF; }
    (void)neg;
    return ID_NAN;
  }
  int bin(char op, int a, int b) {
    if (isspec(a) || isspec(b)) return spec_bin(op, a, b);
    bool ca = isc(a), cb = isc(b);
    switch (op) {
    case '+':
      if (ca && cb) return mkq(cv(a) + cv(b));
      if (a == ID_ZERO) return b;
      if (b == ID_ZERO) return a;
      if (nodes[b].op == SUB && nodes[b].b == a) return nodes[b].a; // a + (c - a)
      if (nodes[a].op == SUB && nodes[a].b == b) return nodes[a].a;
      if (a > b) std::swap(a, b);
      return mkn(ADD, a, b);
    case '-':
      if (ca && cb) return mkq(cv(a) - cv(b));
      if (b == ID_ZERO) return a;
      if (a == b) return ID_ZERO;
      if (cb) return bin('+', mkq(-cv(b)), a);
      if (a == ID_ZERO) {
        if (nodes[b].op == SUB) return bin('-', nodes[b].b, nodes[b].a);
        return bin('*', ID_MONE, b);
      }
      return mkn(SUB, a, b);
    case '*':
      if (ca && cb) return mkq(round_consts ? shorten(cv(a) * cv(b)) : Q(cv(a) * cv(b)));
      if (a == ID_ZERO || b == ID_ZERO) return ID_ZERO;
      if (a == ID_ONE) return b;
      if (b == ID_ONE) return a;
      if (a == b && nodes[a].op == SQRT) return nodes[a].a;
      if (cb) std::swap(a, b), std::swap(ca, cb);
      if (ca && nodes[b].op == MUL && isc(nodes[b].a)) return bin('*', mkq(cv(a) * cv(nodes[b].a)), nodes[b].b);
      if (!ca && a > b) std::swap(a, b);
      return mkn(MUL, a, b);
    case '/':
      if (b == ID_ZERO) {
        if (ca) { int s = sgn(cv(a)); return s == 0 ? ID_NAN : s > 0 ? ID_PINF : ID_NINF; }
        if (branch(EQ, a, ID_ZERO)) return ID_NAN;
        return branch(LT, a, ID_ZERO) ? ID_NINF : ID_PINF;
      }
      if (cb) return bin('*', mkq(round_consts ? shorten(Q(1) / cv(b)) : Q(Q(1) / cv(b))), a);
      if (domain_checks) domain_obligation("division by zero", c_rel(NE, b, ID_ZERO));
      if (a == ID_ZERO) return ID_ZERO;
      if (a == b) return ID_ONE;
      return mkn(DIV, a, b);
    }
    abort();
  }
  static bool perfect(const Q &q, Q &r) {
    if (sgn(q) < 0) return false;
    if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
    mpz_class n, d; mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t());
    r = Q(n, d); r.canonicalize(); return true;
  }
  int un(Op op, int a) {
    if (a == ID_UNINIT || a == ID_NAN) return a;
    if (a == ID_PINF && (op == SQRT || op == EXP || op == LOG)) return a;
    if (isspec(a)) return ID_NAN;
    Q r;
    switch (op) {
    case SQRT:
      if (isc(a)) { if (sgn(cv(a)) < 0) return ID_NAN; if (perfect(cv(a), r)) return mkq(r); }
      if (domain_checks && !isc(a)) domain_obligation("sqrt of a negative", c_rel(LE, ID_ZERO, a));
      break;
    case SIN:
      if (a == ID_ZERO) return ID_ZERO;
      if (nodes[a].op == ASIN) return nodes[a].a;
      if (nodes[a].op == ACOS) return un(SQRT, bin('-', ID_ONE, bin('*', nodes[a].a, nodes[a].a)));
      if (nodes[a].op == ATAN2) return bin('/', nodes[a].a, un(SQRT, bin('+', bin('*', nodes[a].a, nodes[a].a), bin('*', nodes[a].b, nodes[a].b))));
      if (nodes[a].op == ATAN) return bin('/', nodes[a].a, un(SQRT, bin('+', bin('*', nodes[a].a, nodes[a].a), ID_ONE)));
      break;
    case COS:
      if (a == ID_ZERO) return ID_ONE;
      if (nodes[a].op == ACOS) return nodes[a].a;
      if (nodes[a].op == ASIN) return un(SQRT, bin('-', ID_ONE, bin('*', nodes[a].a, nodes[a].a)));
      if (nodes[a].op == ATAN2) return bin('/', nodes[a].b, un(SQRT, bin('+', bin('*', nodes[a].a, nodes[a].a), bin('*', nodes[a].b, nodes[a].b))));
      if (nodes[a].op == ATAN) return bin('/', ID_ONE, un(SQRT, bin('+', bin('*', nodes[a].a, nodes[a].a), ID_ONE)));
      break;
    case ACOS: if (a == ID_ONE) return ID_ZERO; break;
    case ASIN: case ATAN: if (a == ID_ZERO) return ID_ZERO; break;
    case EXP: if (a == ID_ZERO) return ID_ONE; break;
    case LOG: if (a == ID_ONE) return ID_ZERO; break;
    default: break;
    }
    if (round_consts && isc(a)) {
      double x = cv(a).get_d(), y = 0;
      switch (op) { case SQRT: y = std::sqrt(x); break; case SIN: y = std::sin(x); break; case COS: y = std::cos(x); break; case ACOS: y = std::acos(x); break; case ASIN: y = std::asin(x); break; case ATAN: y = std::atan(x); break; case EXP: y = std::exp(x); break; case LOG: y = std::log(x); break; default: y = std::cbrt(x); break; }
      if (std::isfinite(y)) return mkq(Q(y));
    }
    return mkn(op, a, 0);
  }
  // functions of constants are rounded as machine arithmetic does, and long rationals shortened to 100 significant binary places
  bool round_consts = false;
  Q shorten(const Q &q) {
    if (mpz_sizeinbase(q.get_den_mpz_t(), 2) < 130) return q;
    long small = (long)mpz_sizeinbase(q.get_den_mpz_t(), 2) - (long)mpz_sizeinbase(q.get_num_mpz_t(), 2), keep = 100 + (small > 0 ? small : 0);
    mpz_class n = q.get_num() << keep, d;
    mpz_fdiv_q(d.get_mpz_t(), n.get_mpz_t(), q.get_den_mpz_t());
    Q r(d, mpz_class(1) << keep); r.canonicalize(); return r;
  }
  // ---------------------------------------------------------------- polynomials
  int mono_id(const Mono &m) {
    auto it = mono_ids.find(m);
    if (it != mono_ids.end()) return it->second;
    monos.push_back(m);
    int id = (int)monos.size() - 1;
    mono_ids[m] = id;
    return id;
  }
  size_t poly_hash(const Poly &p) {
    size_t h = p.size();
    for (auto &t : p) { h = h * 1000003u ^ (size_t)t.first; h = h * 1000003u ^ (size_t)(mpz_get_ui(t.second.get_num_mpz_t()) * 31 + mpz_get_ui(t.second.get_den_mpz_t()) + (sgn(t.second) < 0)); }
    return h;
  }
  int intern(const Poly &p) {
    size_t h = poly_hash(p);
    auto &v = poly_ids[h];
    for (int i : v) if (polys[i] == p) return i;
    polys.push_back(p);
    v.push_back((int)polys.size() - 1);
    return (int)polys.size() - 1;
  }
  typedef std::unordered_map<int, Q> Acc;
  Poly from_acc(Acc &acc) {
    Poly r; r.reserve(acc.size());
    for (auto &t : acc) if (sgn(t.second) != 0) r.push_back({t.first, t.second});
    std::sort(r.begin(), r.end(), [](const std::pair<int, Q> &a, const std::pair<int, Q> &b) { return a.first < b.first; });
    return r;
  }
  Poly add(const Poly &a, const Poly &b, const Q &kb = Q(1)) {
    Poly r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, b[j].second * kb}); j++; }
      else { Q s = a[i].second + b[j].second * kb; if (sgn(s) != 0) r.push_back({a[i].first, s}); i++; j++; }
    }
    return r;
  }
  Poly scale(const Poly &a, const Q &k) { Poly r = a; for (auto &t : r) t.second *= k; return r; }
  void budget(long n) {
    nf_ops += n;
    if (nf_ops_limit && nf_ops > nf_ops_limit) throw TooBig();
  }
  // multiply two monomials without reduction
  void raw_mul(const Mono &x, const Mono &y, Mono &out) {
    out.clear();
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i] < y[j])) { out.push_back(x[i]); out.push_back(x[i + 1]); i += 2; }
      else if (i >= x.size() || y[j] < x[i]) { out.push_back(y[j]); out.push_back(y[j + 1]); j += 2; }
      else { int e = x[i + 1] + y[j + 1]; if (e) { out.push_back(x[i]); out.push_back(e); } i += 2; j += 2; }
    }
  }
  // returns -1 if m is irreducible, else the position of a reducible atom
  int reducible(const Mono &m) {
    for (size_t k = 0; k < m.size(); k += 2) {
      const Atom &A = atoms[m[k]];
      if ((A.kind == A_SQRT || A.kind == A_COS) && m[k + 1] >= 2) return (int)k;
      if (A.kind == A_INV && A.ref2 >= 0) { // inverse of a single atom: cancel
        for (size_t l = 0; l < m.size(); l += 2) if (m[l] == A.ref2) return (int)k;
      }
    }
    return -1;
  }
  void accum(Acc &acc, const Mono &m, const Q &k) {
    int r = reducible(m);
    if (r < 0) {
      int id = mono_id(m);
      auto it = acc.find(id);
      if (it == acc.end()) acc.emplace(id, k); else it->second += k;
      if (acc.size() > term_limit) throw TooBig();
      return;
    }
    budget(1);
    Atom A = atoms[m[r]];
    Mono rest = m;
    if (A.kind == A_INV) {
      size_t l = 0; while (rest[l] != A.ref2) l += 2;
      int e = std::min(rest[l + 1], rest[r + 1]);
      rest[l + 1] -= e; rest[r + 1] -= e;
      Mono c; for (size_t q = 0; q < rest.size(); q += 2) if (rest[q + 1]) { c.push_back(rest[q]); c.push_back(rest[q + 1]); }
      accum(acc, c, k);
      return;
    }
    rest[r + 1] -= 2;
    if (rest[r + 1] == 0) rest.erase(rest.begin() + r, rest.begin() + r + 2);
    if (A.kind == A_COS) { // c^2 = 1 - s^2
      accum(acc, rest, k);
      Mono s2{A.partner, 2}, o; raw_mul(rest, s2, o);
      accum(acc, o, -k);
    } else {
      const Poly rad = polys[A.ref];
      Mono o;
      for (auto &t : rad) { raw_mul(rest, monos[t.first], o); Mono oo = o; accum(acc, oo, k * t.second); }
    }
  }
  Poly mul(const Poly &a, const Poly &b) {
    if (a.empty() || b.empty()) return Poly();
    if (a.size() == 1 && a[0].first == 0) return scale(b, a[0].second);
    if (b.size() == 1 && b[0].first == 0) return scale(a, b[0].second);
    if (a.size() * b.size() > 4000000) throw TooBig();
    budget((long)(a.size() * b.size()));
    Acc acc; Mono o;
    for (auto &x : a) for (auto &y : b) { raw_mul(monos[x.first], monos[y.first], o); Mono oo = o; accum(acc, oo, x.second * y.second); }
    return from_acc(acc);
  }
  Poly powp(const Poly &a, int e) { Poly r{{0, Q(1)}}; for (int i = 0; i < e; i++) r = mul(r, a); return r; }
  Poly atomp(int atom, int e = 1) { Poly r; Acc acc; accum(acc, Mono{atom, e}, Q(1)); return from_acc(acc); }
  int mkatom(AtomKind k, int ref, const std::string &key, Op fn = CONST) {
    auto it = atom_ids.find(key);
    if (it != atom_ids.end()) return it->second;
    atoms.push_back({k, ref, -1, fn, -1, false});
    return atom_ids[key] = (int)atoms.size() - 1;
  }
  int var_atom(int node) {
    int a = mkatom(A_VAR, node, "v" + std::to_string(node));
    const VarInfo &vi = vars[nodes[node].a];
    atoms[a].nonneg = vi.lo >= 0;
    return a;
  }
  static bool has_inv_m(Engine &e, const Mono &m) { for (size_t k = 0; k < m.size(); k += 2) if (e.atoms[m[k]].kind == A_INV) return true; return false; }
  // remove inverse atoms: returns N and the list of (atom, exponent) with P = N * prod inv^e
  int clear(int pid, std::vector<std::pair<int, int>> *outl = nullptr) {
    Poly p = polys[pid];
    std::vector<std::pair<int, int>> l;
    for (int guard = 0; guard < 200; guard++) {
      int best = -1, emax = 0;
      for (auto &t : p) { const Mono &m = monos[t.first]; for (size_t k = 0; k < m.size(); k += 2) if (atoms[m[k]].kind == A_INV) { if (m[k] > best) { best = m[k]; emax = m[k + 1]; } else if (m[k] == best) emax = std::max(emax, m[k + 1]); } }
      if (best < 0) break;
      l.push_back({best, emax});
      Poly d = polys[atoms[best].ref];
      std::vector<Poly> parts(emax + 1);
      std::vector<Acc> accs(emax + 1);
      for (auto &t : p) {
        Mono m = monos[t.first]; int e = 0;
        for (size_t k = 0; k < m.size(); k += 2) if (m[k] == best) { e = m[k + 1]; m.erase(m.begin() + k, m.begin() + k + 2); break; }
        accum(accs[emax - e], m, t.second);
      }
      // Horner in d: sum parts[i] * d^i
      Poly r;
      for (int i = emax; i >= 0; i--) { r = mul(r, d); r = add(r, from_acc(accs[i])); }
      p = r;
    }
    if (outl) *outl = l;
    return intern(p);
  }
  Poly inv_atom_single(int atom) {
    const Atom A = atoms[atom];
    if (A.kind == A_INV) return polys[A.ref];
    if (A.kind == A_SQRT) return mul(atomp(atom), inv(polys[A.ref]));
    Poly pa = atomp(atom);
    int pid = intern(pa);
    int i = mkatom(A_INV, pid, "i" + std::to_string(pid));
    atoms[i].ref2 = atom;
    return atomp(i);
  }
  Poly inv(const Poly &p0) {
    if (p0.empty()) throw TooBig(); // division by something identically zero
    int key = intern(p0);
    auto itc = inv_cache.find(key);
    if (itc != inv_cache.end()) return polys[itc->second];
    std::vector<std::pair<int, int>> l;
    Poly p = polys[clear(key, &l)];
    if (p.empty()) throw TooBig();
    Poly res{{0, Q(1)}};
    for (auto &q : l) res = mul(res, powp(polys[atoms[q.first].ref], q.second));
    // monomial content
    Mono content = monos[p[0].first];
    for (auto &t : p) {
      Mono m = monos[t.first], c;
      for (size_t k = 0; k < content.size(); k += 2) for (size_t q = 0; q < m.size(); q += 2) if (m[q] == content[k]) { c.push_back(content[k]); c.push_back(std::min(content[k + 1], m[q + 1])); }
      content = c;
    }
    if (!content.empty()) {
      Poly np;
      Acc acc;
      for (auto &t : p) { Mono m = monos[t.first], o; for (size_t k = 0; k < m.size(); k += 2) { int e = m[k + 1]; for (size_t q = 0; q < content.size(); q += 2) if (content[q] == m[k]) e -= content[q + 1]; if (e) { o.push_back(m[k]); o.push_back(e); } } accum(acc, o, t.second); }
      p = from_acc(acc);
      for (size_t q = 0; q < content.size(); q += 2) res = mul(res, powp(inv_atom_single(content[q]), content[q + 1]));
    }
    Q lc = p[0].second;
    res = scale(res, Q(1) / lc);
    if (!(p.size() == 1 && p[0].first == 0)) {
      p = scale(p, Q(1) / lc);
      if (p.size() == 1) { const Mono &m = monos[p[0].first]; for (size_t q = 0; q < m.size(); q += 2) res = mul(res, powp(inv_atom_single(m[q]), m[q + 1])); }
      else {
        int pid = intern(p);
        int i = mkatom(A_INV, pid, "i" + std::to_string(pid));
        res = mul(res, atomp(i));
      }
    }
    inv_cache[key] = intern(res);
    return res;
  }
  // a quotient that is identically one, once its inverses are cleared
  bool is_one(const Poly &p) {
    bool hi = false;
    for (auto &t : p) if (has_inv_m(*this, monos[t.first])) { hi = true; break; }
    if (!hi || p.size() > 2000) return false;
    int d = intern(add(p, Poly{{0, Q(-1)}}));
    return try_clear(d, 200000) == 0;
  }
  // exact polynomial square root, when one exists and its sign follows from the bounds of its variables
  std::unordered_map<int, int> square_roots;
  bool square_root(const Poly &p, Poly &root) {
    if (p.size() < 3 || p.size() > 60) return false;
    for (auto &t : p) { const Mono &m = monos[t.first]; for (size_t k = 0; k < m.size(); k += 2) if (atoms[m[k]].kind == A_INV || atoms[m[k]].kind == A_SQRT) return false; }
    auto before = [&](const Mono &a, const Mono &b) { // lexicographic, greater first
      size_t i = 0, j = 0;
      while (i < a.size() && j < b.size()) { if (a[i] != b[j]) return a[i] < b[j]; if (a[i + 1] != b[j + 1]) return a[i + 1] > b[j + 1]; i += 2; j += 2; }
      return i < a.size() && j >= b.size();
    };
    auto lead = [&](const Poly &x) { size_t b = 0; for (size_t i = 1; i < x.size(); i++) if (before(monos[x[i].first], monos[x[b].first])) b = i; return b; };
    size_t l = lead(p);
    Mono lm = monos[p[l].first], rm; Q lc = p[l].second, rc;
    if (sgn(lc) < 0 || !perfect(lc, rc)) return false;
    for (size_t k = 0; k < lm.size(); k += 2) { if (lm[k + 1] % 2) return false; rm.push_back(lm[k]); rm.push_back(lm[k + 1] / 2); }
    Acc a0; accum(a0, rm, rc); root = from_acc(a0);
    Poly rem = add(p, mul(root, root), Q(-1));
    for (int it = 0; it < 12 && !rem.empty(); it++) {
      size_t x = lead(rem);
      Mono m = monos[rem[x].first], q;
      size_t used = 0;
      for (size_t k = 0; k < m.size(); k += 2) { int e = m[k + 1]; for (size_t j = 0; j < rm.size(); j += 2) if (rm[j] == m[k]) { e -= rm[j + 1]; used++; } if (e < 0) return false; if (e) { q.push_back(m[k]); q.push_back(e); } }
      if (used * 2 != rm.size()) return false;
      Acc a1; accum(a1, q, rem[x].second / (2 * rc));
      root = add(root, from_acc(a1));
      rem = add(p, mul(root, root), Q(-1));
      if (rem.size() > 120) return false;
    }
    if (!rem.empty()) return false;
    std::vector<std::string> outer; outer.swap(nonzero);
    std::set<int> used; std::string rs = poly_smt(intern(root), used), defs = atom_defs(used);
    outer.swap(nonzero);
    if (run_smt(defs + "(assert (< " + rs + " 0.0))\n", 300, {}) == UNSAT) return true;
    if (run_smt(defs + "(assert (> " + rs + " 0.0))\n", 300, {}) == UNSAT) { root = scale(root, Q(-1)); return true; }
    return false;
  }
  Poly sqrtp(const Poly &p0) {
    if (p0.empty()) return p0;
    if (is_one(p0)) return Poly{{0, Q(1)}};
    Poly p = p0, outer{{0, Q(1)}};
    // positive monomial content with even exponents of atoms known to be non-negative
    Mono content = monos[p[0].first];
    for (auto &t : p) { Mono m = monos[t.first], c; for (size_t k = 0; k < content.size(); k += 2) for (size_t q = 0; q < m.size(); q += 2) if (m[q] == content[k]) { c.push_back(content[k]); c.push_back(std::min(content[k + 1], m[q + 1])); } content = c; }
    Mono take;
    for (size_t k = 0; k < content.size(); k += 2) { const Atom &A = atoms[content[k]]; bool nn = A.nonneg || A.kind == A_SQRT || (A.kind == A_INV && A.ref2 >= 0 && atoms[A.ref2].nonneg); int e = content[k + 1] / 2; if (nn && e > 0) { take.push_back(content[k]); take.push_back(e); } }
    if (!take.empty()) {
      Acc acc;
      for (auto &t : p) { Mono m = monos[t.first], o; for (size_t k = 0; k < m.size(); k += 2) { int e = m[k + 1]; for (size_t q = 0; q < take.size(); q += 2) if (take[q] == m[k]) e -= 2 * take[q + 1]; if (e) { o.push_back(m[k]); o.push_back(e); } } accum(acc, o, t.second); }
      p = from_acc(acc);
      Acc a2; accum(a2, take, Q(1)); outer = from_acc(a2);
    }
    // numeric content: make the leading coefficient square free-ish (divide by it when it is a perfect square)
    Q lc = p[0].second, r;
    if (sgn(lc) < 0) lc = -lc;
    if (perfect(lc, r)) { p = scale(p, Q(1) / lc); outer = scale(outer, r); }
    else {
      // pull out the squares of small primes, so that radicands that differ by a rational square meet
      mpz_class num = lc.get_num(), den = lc.get_den(); Q out(1);
      static const int primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47};
      for (int q : primes) {
        int e = 0;
        while (mpz_divisible_ui_p(num.get_mpz_t(), q)) { mpz_divexact_ui(num.get_mpz_t(), num.get_mpz_t(), q); e++; }
        while (mpz_divisible_ui_p(den.get_mpz_t(), q)) { mpz_divexact_ui(den.get_mpz_t(), den.get_mpz_t(), q); e--; }
        int h = e >= 0 ? e / 2 : -((1 - e) / 2); // e - 2h is 0 or 1
        for (; h > 0; h--) out *= q;
        for (; h < 0; h++) out /= q;
      }
      if (out != 1 && !(p.size() == 1 && p[0].first == 0)) { p = scale(p, Q(1) / (out * out)); outer = scale(outer, out); }
    }
    if (p.size() == 1 && p[0].first == 0) { if (perfect(p[0].second, r)) return scale(outer, r); }
    if (p.size() == 2) { // 1 - sin^2 with a cosine known to be non-negative
      int s = -1; bool one = false;
      for (auto &t : p) { const Mono &m = monos[t.first]; if (m.empty() && t.second == 1) one = true; if (m.size() == 2 && m[1] == 2 && t.second == -1 && atoms[m[0]].kind == A_SIN) s = m[0]; }
      if (one && s >= 0 && atoms[atoms[s].partner].nonneg) return mul(outer, atomp(atoms[s].partner));
    }
    int pid = intern(p);
    auto known = square_roots.find(pid);
    if (known != square_roots.end()) return mul(outer, polys[known->second]);
    Poly root;
    if (!atom_ids.count("q" + std::to_string(pid)) && square_root(p, root)) { square_roots[pid] = intern(root); return mul(outer, root); }
    int a = mkatom(A_SQRT, pid, "q" + std::to_string(pid));
    atoms[a].nonneg = true;
    return mul(outer, atomp(a));
  }
  void sc_atom(const Poly &base, int &s, int &c) {
    int pid = intern(base);
    s = mkatom(A_SIN, pid, "s" + std::to_string(pid));
    c = mkatom(A_COS, pid, "c" + std::to_string(pid));
    atoms[s].partner = c; atoms[c].partner = s;
  }
  // sin and cos of acos of a rational number, and of its half
  bool known_angle(int mono, const Q &unit, Poly &s, Poly &c) {
    const Mono m = monos[mono];
    if (m.size() != 2 || m[1] != 1 || atoms[m[0]].kind != A_FN || atoms[m[0]].fn != ACOS || (unit != 1 && unit != Q(1, 2))) return false;
    const Poly &p = polys[atoms[m[0]].ref];
    if (p.size() != 1 || p[0].first != 0 || abs(p[0].second) >= 1) return false;
    Q co = p[0].second, si;
    if (!perfect(1 - co * co, si)) return false;
    if (unit == 1) { s = Poly{{0, si}}; c = Poly{{0, co}}; }
    else { s = sqrtp(Poly{{0, (1 - co) / 2}}); c = scale(s, si / (1 - co)); }
    return true;
  }
  // sin and cos of a normal form, by angle addition over its terms
  std::pair<Poly, Poly> sincos(const Poly &arg) {
    Poly S, C{{0, Q(1)}};
    if ((int)arg.size() > angle_terms) { int s, c; bool neg = sgn(arg[0].second) < 0; sc_atom(neg ? scale(arg, Q(-1)) : arg, s, c); Poly ps = atomp(s); return {neg ? scale(ps, Q(-1)) : ps, atomp(c)}; }
    for (auto &t : arg) {
      Q k = t.second; bool neg = sgn(k) < 0; if (neg) k = -k;
      long n = 1; Q unit = k;
      if (k.get_num() <= 8 && k.get_den() <= 1000) { n = k.get_num().get_si(); unit = Q(1) / Q(k.get_den()); }
      if (angle_unit && Q(k * angle_unit).get_den() == 1 && Q(k * angle_unit) <= 3 * angle_unit) { n = Q(k * angle_unit).get_num().get_si(); unit = Q(1, angle_unit); }
      else
      // half angles: everything in units of 1/2 when the denominator divides 2
      if (half_angles && k.get_den() == 1 && n <= 4) { n *= 2; unit = Q(1, 2); }
      Poly s1, c1, sn, cn{{0, Q(1)}};
      if (!known_angle(t.first, unit, s1, c1)) { Poly base{{t.first, unit}}; int s, c; sc_atom(base, s, c); s1 = atomp(s); c1 = atomp(c); }
      for (long i = 0; i < n; i++) { Poly a = add(mul(sn, c1), mul(cn, s1)), b = add(mul(cn, c1), mul(sn, s1), Q(-1)); sn = a; cn = b; }
      if (neg) sn = scale(sn, Q(-1));
      Poly a = add(mul(S, cn), mul(C, sn)), b = add(mul(C, cn), mul(S, sn), Q(-1));
      S = a; C = b;
    }
    return {S, C};
  }
  bool half_angles = false;
  int angle_unit = 0; // all multiples of an angle in units of its angle_unit-th part
  int angle_terms = 4; // sums of more angles are one angle
  int nf(int n) {
    auto it = nf_cache.find(n);
    if (it != nf_cache.end()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      if (nf_cache.count(x)) { st.pop_back(); continue; }
      const Node nd = nodes[x];
      auto need = [&](int y) { if (!nf_cache.count(y)) { st.push_back(y); return true; } return false; };
      bool wait = false;
      if (nd.op >= ADD && nd.op <= DIV) { wait |= need(nd.a); wait |= need(nd.b); }
      else if (nd.op == ATAN2) { wait |= need(nd.a); wait |= need(nd.b); }
      else if (nd.op >= SQRT) wait |= need(nd.a);
      if (wait) continue;
      st.pop_back();
      Poly r;
      switch (nd.op) {
      case CONST: if (sgn(consts[nd.a]) != 0) r.push_back({0, consts[nd.a]}); break;
      case SPECIAL: throw TooBig();
      case VAR: r = atomp(var_atom(x)); break;
      case ADD: r = add(polys[nf_cache[nd.a]], polys[nf_cache[nd.b]]); budget((long)r.size()); break;
      case SUB: r = add(polys[nf_cache[nd.a]], polys[nf_cache[nd.b]], Q(-1)); budget((long)r.size()); break;
      case MUL: { Poly a = polys[nf_cache[nd.a]], b = polys[nf_cache[nd.b]]; r = mul(a, b); break; }
      case DIV: { Poly a = polys[nf_cache[nd.a]], b = polys[nf_cache[nd.b]]; r = mul(a, inv(b)); break; }
      case SQRT: { Poly a = polys[nf_cache[nd.a]]; r = sqrtp(a); break; }
      case SIN: { Poly a = polys[nf_cache[nd.a]]; r = sincos(a).first; break; }
      case COS: { Poly a = polys[nf_cache[nd.a]]; r = sincos(a).second; break; }
      case ACOS: { // acos(cos(A)) = A for A declared in [0, pi]
        int pa = nf_cache[nd.a];
        const Poly &p = polys[pa];
        bool done = false;
        if (p.size() == 1 && p[0].second == 1) { const Mono &m = monos[p[0].first]; if (m.size() == 2 && m[1] == 1 && atoms[m[0]].kind == A_COS && angle_ok.count(atoms[m[0]].ref)) { r = polys[atoms[m[0]].ref]; done = true; } }
        if (!done && half_angles && p.size() == 2) { // 1 - 2 sin^2(A/2)
          for (auto &t : p) { const Mono &m = monos[t.first]; if (m.size() == 2 && m[1] == 2 && atoms[m[0]].kind == A_SIN && t.second == -2) { Poly full = scale(polys[atoms[m[0]].ref], Q(2)); if (angle_ok.count(intern(full))) { r = full; done = true; } } }
        }
        if (!done) { int a = mkatom(A_FN, pa, "f" + std::to_string(nd.op) + "_" + std::to_string(pa), nd.op); atoms[a].nonneg = true; r = atomp(a); }
        break; }
      case ATAN2: { int pa = nf_cache[nd.a], pb = nf_cache[nd.b]; int a = mkatom(A_FN, pa, "g" + std::to_string(pa) + "_" + std::to_string(pb), nd.op); atoms[a].ref2 = pb; r = atomp(a); break; }
      default: { int pa = nf_cache[nd.a]; int a = mkatom(A_FN, pa, "f" + std::to_string(nd.op) + "_" + std::to_string(pa), nd.op); r = atomp(a); break; }
      }
      if (r.size() > term_limit) throw TooBig();
      nf_cache[x] = intern(r);
    }
    return nf_cache[n];
  }
  std::set<int> angle_ok;
  // nf with a work budget; -1 if too big
  int try_nf(int n, long ops) {
    long save_l = nf_ops_limit, save_o = nf_ops;
    nf_ops = 0; nf_ops_limit = ops;
    int r = -1;
    try { r = nf(n); } catch (TooBig &) { r = -1; }
    nf_ops_limit = save_l; nf_ops = save_o;
    return r;
  }
  int try_clear(int p, long ops) {
    auto it = clear_cache.find(p);
    if (it != clear_cache.end()) return it->second;
    long save_l = nf_ops_limit, save_o = nf_ops;
    nf_ops = 0; nf_ops_limit = ops;
    int r = -1;
    try { r = clear(p); } catch (TooBig &) { r = -1; }
    nf_ops_limit = save_l; nf_ops = save_o;
    if (r >= 0) clear_cache[p] = r;
    return r;
  }
  // ---------------------------------------------------------------- numeric evaluation
  std::vector<double> ev; std::vector<int> ev_stamp; int stamp = 0;
  std::unordered_map<int, double> env;
  void new_env() { stamp++; env.clear(); }
  double evaln(int n) {
    if ((int)ev.size() < (int)nodes.size()) { ev.resize(nodes.size() * 2 + 100); ev_stamp.resize(nodes.size() * 2 + 100, 0); }
    std::vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      if (ev_stamp[x] == stamp) { st.pop_back(); continue; }
      const Node &nd = nodes[x];
      auto need = [&](int y) { if (ev_stamp[y] != stamp) { st.push_back(y); return true; } return false; };
      bool wait = false;
      if ((nd.op >= ADD && nd.op <= DIV) || nd.op == ATAN2) { wait |= need(nd.a); wait |= need(nd.b); }
      else if (nd.op >= SQRT) wait |= need(nd.a);
      if (wait) continue;
      st.pop_back();
      double v = 0, a = nd.op >= ADD ? ev[nd.a] : 0, b = (nd.op >= ADD && nd.op <= DIV) || nd.op == ATAN2 ? ev[nd.b] : 0;
      switch (nd.op) {
      case CONST: v = consts[nd.a].get_d(); break;
      case SPECIAL: v = x == ID_PINF ? INFINITY : x == ID_NINF ? -INFINITY : NAN; break;
      case VAR: { auto it = env.find(x); v = it == env.end() ? (vars[nd.a].kind == 2 ? 0.0 : 0.0) : it->second; break; }
      case ADD: v = a + b; break; case SUB: v = a - b; break; case MUL: v = a * b; break; case DIV: v = a / b; break;
      case SQRT: v = std::sqrt(a); break; case SIN: v = std::sin(a); break; case COS: v = std::cos(a); break;
      case ACOS: v = std::acos(a); break; case ASIN: v = std::asin(a); break; case ATAN: v = std::atan(a); break;
      case ATAN2: v = std::atan2(a, b); break; case EXP: v = std::exp(a); break; case LOG: v = std::log(a); break; case CBRT: v = std::cbrt(a); break;
      }
      ev[x] = v; ev_stamp[x] = stamp;
    }
    return ev[n];
  }
  // truth with margin: >0 true by that margin, <0 false by that margin
  double cond_margin(int c) {
    const CondNode cn = conds[c];
    switch (cn.kind) {
    case 0: return -1; case 1: return 1;
    case 2: {
      double a = evaln(cn.a), b = evaln(cn.b);
      if (std::isnan(a) || std::isnan(b)) return cn.r == NE ? 1 : -1;
      double sc = 1 + std::max(std::fabs(a), std::fabs(b));
      double d = (b - a) / sc;
      if (std::isinf(a) || std::isinf(b)) d = (a < b) ? 1 : (a > b ? -1 : 0);
      if (cn.r == LT || cn.r == LE) { if (d == 0) return cn.r == LE ? 1e-300 : -1e-300; return d; }
      if (cn.r == EQ) return d == 0 ? 1e-300 : (std::fabs(d) < 1e-9 ? 1e-300 : -std::fabs(d));
      return d == 0 ? -1e-300 : std::fabs(d);
    }
    case 3: return std::min(cond_margin(cn.a), cond_margin(cn.b));
    case 4: return std::max(cond_margin(cn.a), cond_margin(cn.b));
    case 5: return -cond_margin(cn.a);
    }
    return 0;
  }
  // ---------------------------------------------------------------- conditions
  int mkcond(int kind, Rel r, int a, int b) { conds.push_back({kind, r, a, b}); return (int)conds.size() - 1; }
  static Cond c_of(int id) { Cond c; c.id = id; return c; }
  // decide a relation from the normal form and the path's sign facts: 1 true, 0 false, -1 open; poly receives canonical diff
  int quick(Rel r, int a, int b, int &cp, bool &flip) {
    cp = -1; flip = false;
    if (a == b && !isspec(a)) return (r == LE || r == EQ) ? 1 : 0;
    if (isc(a) && isc(b)) { int c = cmp(cv(a), cv(b)); return r == LT ? c < 0 : r == LE ? c <= 0 : r == EQ ? c == 0 : c != 0; }
    if (a == ID_NAN || b == ID_NAN) return r == NE;
    if (isspec(a) || isspec(b)) {
      auto v = [&](int x) { return x == ID_PINF ? 1 : x == ID_NINF ? -1 : 0; };
      int c = v(a) - v(b);
      return r == LT ? c < 0 : r == LE ? c <= 0 : r == EQ ? c == 0 : c != 0;
    }
    int d = bin('-', a, b);
    int p = try_nf(d, 300000);
    if (p < 0) return -1;
    if (polys[p].empty()) return (r == LE || r == EQ) ? 1 : 0;
    if (polys[p].size() == 1 && polys[p][0].first == 0) { int c = sgn(polys[p][0].second); return r == LT ? c < 0 : r == LE ? c <= 0 : r == EQ ? 0 : 1; }
    if (nodes_have_inv(p)) { int q = try_clear(p, 300000); if (q == 0) return (r == LE || r == EQ) ? 1 : 0; }
    // canonical: divide by |leading coeff|, sign of leading coefficient positive
    Q lc = polys[p][0].second;
    flip = sgn(lc) < 0;
    Poly c = scale(polys[p], Q(1) / lc);
    cp = intern(c);
    auto it = sign.find(cp);
    if (it != sign.end()) {
      int m = it->second;
      if (flip) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
      int t = r == LT ? 1 : r == LE ? 3 : r == EQ ? 2 : 5; // values of (a-b) that make it true
      if ((m & ~t) == 0) return 1;
      if ((m & t) == 0) return 0;
    }
    return -1;
  }
  bool nodes_have_inv(int p) { for (auto &t : polys[p]) if (has_inv_m(*this, monos[t.first])) return true; return false; }
  void learn(Rel r, int cp, bool flip, bool val) {
    if (cp < 0) return;
    int t = r == LT ? 1 : r == LE ? 3 : r == EQ ? 2 : 5;
    if (!val) t = 7 & ~t;
    if (flip) t = (t & 2) | ((t & 1) << 2) | ((t & 4) >> 2);
    auto it = sign.find(cp);
    if (it == sign.end()) sign[cp] = t; else it->second &= t;
  }
  // ---------------------------------------------------------------- SMT
  FILE *zin = nullptr; int zout = -1; pid_t zpid = -1; std::string zbuf;
  std::string z3path() {
    for (const char *p : {"/usr/local/bin/z3-new", "/usr/bin/z3-new", "/opt/veriftools/bin/z3-new"}) if (access(p, X_OK) == 0) return p;
    return "z3-new";
  }
  void zstart() {
    int i[2], o[2];
    if (pipe(i) || pipe(o)) abort();
    zpid = fork();
    if (zpid == 0) {
      dup2(i[0], 0); dup2(o[1], 1); close(i[0]); close(i[1]); close(o[0]); close(o[1]);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
      std::string z = z3path();
      execlp(z.c_str(), z.c_str(), "-in", "-smt2", "memory_max_size=3000", (char *)nullptr);
      execlp("z3", "z3", "-in", "-smt2", (char *)nullptr);
      _exit(127);
    }
    close(i[0]); close(o[1]);
    fcntl(i[1], F_SETFD, FD_CLOEXEC); fcntl(o[0], F_SETFD, FD_CLOEXEC);
    zin = fdopen(i[1], "w"); zout = o[0]; zbuf.clear();
  }
  void zkill() { if (zpid > 0) { kill(zpid, SIGKILL); waitpid(zpid, nullptr, 0); fclose(zin); close(zout); zpid = -1; } }
  bool zline(std::string &l, double timeout) {
    Clock::time_point s = Clock::now();
    for (;;) {
      size_t k = zbuf.find('\n');
      if (k != std::string::npos) { l = zbuf.substr(0, k); zbuf.erase(0, k + 1); return true; }
      double left = timeout - secs_since(s);
      if (left <= 0) return false;
      struct pollfd pf{zout, POLLIN, 0};
      int r = poll(&pf, 1, (int)(left * 1000) + 1);
      if (r <= 0) return false;
      char b[65536]; ssize_t n = read(zout, b, sizeof b);
      if (n <= 0) return false;
      zbuf.append(b, n);
    }
  }
  static std::string qs(const Q &q) {
    auto z = [](const mpz_class &v) { return v.get_str() + ".0"; };
    mpz_class n = q.get_num(), d = q.get_den();
    bool neg = n < 0; if (neg) n = -n;
    std::string s = d == 1 ? z(n) : "(/ " + z(n) + " " + z(d) + ")";
    return neg ? "(- " + s + ")" : s;
  }
  std::string an(int atom) { return "a" + std::to_string(atom); }
  std::string poly_smt(int pid, std::set<int> &used) {
    const Poly &p = polys[pid];
    if (p.empty()) return "0.0";
    std::string s; if (p.size() > 1) s = "(+";
    for (auto &t : p) {
      const Mono &m = monos[t.first];
      std::string ms; int cnt = 0;
      if (t.second != 1 || m.empty()) { ms += " " + qs(t.second); cnt++; }
      for (size_t k = 0; k < m.size(); k += 2) { used.insert(m[k]); for (int e = 0; e < m[k + 1]; e++) { ms += " " + an(m[k]); cnt++; } }
      if (cnt > 1) ms = " (*" + ms + ")";
      if (p.size() == 1) s = ms.substr(1); else s += ms;
    }
    if (p.size() > 1) s += ")";
    return s;
  }
  // polynomial form of a relation; returns "" if it cannot be encoded
  // for an inequality in at most two variables: multiplied by the squares of its denominators, which are not zero
  std::vector<std::string> nonzero; std::unordered_map<int, std::pair<int, std::vector<int>>> sign_cache;
  int clear_sign(int p, std::set<int> &used) {
    bool hi = false;
    for (auto &t : polys[p]) if (has_inv_m(*this, monos[t.first])) { hi = true; break; }
    if (!hi || polys[p].size() > 400) return p;
    auto it = sign_cache.find(p);
    if (it == sign_cache.end()) {
      int r = -1; std::vector<int> ds;
      long save_l = nf_ops_limit, save_o = nf_ops;
      nf_ops = 0; nf_ops_limit = 300000;
      try {
        std::vector<std::pair<int, int>> l;
        r = clear(p, &l);
        Poly q = polys[r];
        for (auto &x : l) { ds.push_back(atoms[x.first].ref); if (x.second & 1) q = mul(q, polys[atoms[x.first].ref]); }
        std::set<int> vs;
        auto look = [&](const Poly &y) { for (auto &t : y) { const Mono &m = monos[t.first]; for (size_t k = 0; k < m.size(); k += 2) { vs.insert(m[k]); if (atoms[m[k]].kind != A_VAR) r = -1; } } };
        look(q); for (int d : ds) look(polys[d]);
        if (vs.size() > 2 || q.size() > 200) r = -1;
        if (r >= 0) r = intern(q);
      } catch (TooBig &) { r = -1; }
      nf_ops_limit = save_l; nf_ops = save_o;
      it = sign_cache.emplace(p, std::make_pair(r, ds)).first;
    }
    if (it->second.first < 0) return p;
    for (int d : it->second.second) nonzero.push_back("(assert (not (= " + poly_smt(d, used) + " 0.0)))\n");
    return it->second.first;
  }
  std::string rel_smt(Rel r, int a, int b, std::set<int> &used) {
    int cp; bool fl;
    if (isspec(a) || isspec(b)) { int q = quick(r, a, b, cp, fl); return q == 1 ? "true" : "false"; }
    int p = try_nf(bin('-', a, b), 3000000);
    if (p < 0) return "";
    if (r == EQ || r == NE) { int q = try_clear(p, 3000000); if (q < 0) return ""; p = q; }
    else p = clear_sign(p, used);
    std::string s = poly_smt(p, used);
    switch (r) { case LT: return "(< " + s + " 0.0)"; case LE: return "(<= " + s + " 0.0)"; case EQ: return "(= " + s + " 0.0)"; default: return "(not (= " + s + " 0.0))"; }
  }
  std::string cond_smt(int c, std::set<int> &used, bool &ok) {
    const CondNode cn = conds[c];
    switch (cn.kind) {
    case 0: return "false"; case 1: return "true";
    case 2: { std::string s = rel_smt(cn.r, cn.a, cn.b, used); if (s.empty()) { ok = false; return "true"; } return s; }
    case 3: return "(and " + cond_smt(cn.a, used, ok) + " " + cond_smt(cn.b, used, ok) + ")";
    case 4: return "(or " + cond_smt(cn.a, used, ok) + " " + cond_smt(cn.b, used, ok) + ")";
    default: return "(not " + cond_smt(cn.a, used, ok) + ")";
    }
  }
  std::string atom_defs(std::set<int> used) {
    std::string decl, cons;
    std::vector<int> st(used.begin(), used.end());
    std::set<int> done;
    while (!st.empty()) {
      int a = st.back(); st.pop_back();
      if (!done.insert(a).second) continue;
      decl += "(declare-const " + an(a) + " Real)\n";
      std::set<int> u;
      const Atom A = atoms[a];
      switch (A.kind) {
      case A_VAR: { const VarInfo &v = vars[nodes[A.ref].a]; if (v.lo > -1e9) cons += "(assert (>= " + an(a) + " " + qs(Q(v.lo)) + "))\n"; if (v.hi < 1e9) cons += "(assert (<= " + an(a) + " " + qs(Q(v.hi)) + "))\n"; break; }
      case A_SQRT: cons += "(assert (>= " + an(a) + " 0.0))\n(assert (= (* " + an(a) + " " + an(a) + ") " + poly_smt(A.ref, u) + "))\n"; break;
      case A_SIN: case A_COS: {
        u.insert(A.partner);
        if (A.kind == A_SIN || !done.count(A.partner)) cons += "(assert (= (+ (* " + an(a) + " " + an(a) + ") (* " + an(A.partner) + " " + an(A.partner) + ")) 1.0))\n";
        const Poly &p = polys[A.ref];
        if (p.size() == 1 && p[0].first == 0) { double v = A.kind == A_SIN ? std::sin(p[0].second.get_d()) : std::cos(p[0].second.get_d()); cons += "(assert (and (<= " + qs(Q(v - 1e-12)) + " " + an(a) + ") (<= " + an(a) + " " + qs(Q(v + 1e-12)) + ")))\n"; }
        break; }
      case A_INV: cons += "(assert (= (* " + an(a) + " " + poly_smt(A.ref, u) + ") 1.0))\n"; break;
      case A_FN:
        { const Poly &p = polys[A.ref]; // of a number: its value
          if (p.size() == 1 && p[0].first == 0 && A.fn != ATAN2) { double x = p[0].second.get_d(), v = A.fn == ACOS ? std::acos(x) : A.fn == ASIN ? std::asin(x) : A.fn == ATAN ? std::atan(x) : A.fn == EXP ? std::exp(x) : A.fn == LOG ? std::log(x) : A.fn == CBRT ? std::cbrt(x) : NAN, w = 1e-12 * std::max(1.0, std::fabs(v));
            if (std::isfinite(v)) cons += "(assert (and (<= " + qs(Q(v - w)) + " " + an(a) + ") (<= " + an(a) + " " + qs(Q(v + w)) + ")))\n"; } }
        if (A.fn == ACOS) cons += "(assert (and (<= 0.0 " + an(a) + ") (<= " + an(a) + " 3.14159265358979324)))\n";
        if (A.fn == ATAN2) cons += "(assert (and (<= (- 3.14159265358979324) " + an(a) + ") (<= " + an(a) + " 3.14159265358979324)))\n";
        if (A.fn == ASIN || A.fn == ATAN) cons += "(assert (and (<= (- 1.57079632679489662) " + an(a) + ") (<= " + an(a) + " 1.57079632679489662)))\n";
        if (A.fn == EXP) cons += "(assert (> " + an(a) + " 0.0))\n";
        break;
      }
      if (A.nonneg && (A.kind == A_SIN || A.kind == A_COS)) cons += "(assert (>= " + an(a) + " 0.0))\n";
      for (int x : u) st.push_back(x);
    }
    last_atoms = done;
    for (auto &x : nonzero) cons += x;
    nonzero.clear();
    return decl + cons;
  }
  std::set<int> last_atoms;
  enum Res { SAT, UNSAT, UNKNOWN };
  std::map<std::string, double> last_model;
  Res run_smt(const std::string &body, int ms, const std::vector<std::pair<std::string, std::string>> &getv) {
    n_queries++;
    Clock::time_point s = Clock::now();
    if (zpid < 0) zstart();
    std::string full = "(reset)\n(set-option :timeout " + std::to_string(ms) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n" + body + "(check-sat)\n";
    if (getenv("VF_DUMP")) { FILE *f = fopen((std::string(getenv("VF_DUMP")) + "/q" + std::to_string(n_queries) + ".smt2").c_str(), "w"); if (f) { fputs(full.c_str(), f); fclose(f); } }
    signal(SIGPIPE, SIG_IGN);
    fputs(full.c_str(), zin); fflush(zin);
    std::string l; Res r = UNKNOWN;
    for (;;) {
      if (!zline(l, ms / 1000.0 + 1.5)) { zkill(); solver_time += secs_since(s); return UNKNOWN; }
      if (l.find("(error") != std::string::npos) { fprintf(stderr, "z3: %s\n", l.c_str()); zkill(); solver_time += secs_since(s); return UNKNOWN; }
      if (l == "sat") { r = SAT; break; }
      if (l == "unsat") { r = UNSAT; break; }
      if (l == "unknown" || l == "timeout") { r = UNKNOWN; break; }
    }
    if (r == SAT && !getv.empty()) {
      last_model.clear();
      for (auto &g : getv) {
        fprintf(zin, "(get-value (%s))\n", g.second.c_str()); fflush(zin);
        std::string v;
        if (!zline(v, 5)) { zkill(); break; }
        int depth = 0; for (char c : v) depth += (c == '(') - (c == ')');
        while (depth > 0) { if (!zline(l, 5)) break; for (char c : l) depth += (c == '(') - (c == ')'); v += " " + l; }
        double d; if (parse_val(v, d)) last_model[g.first] = d;
      }
    }
    solver_time += secs_since(s);
    return r;
  }
  static bool parse_val(const std::string &s, double &out) {
    // ((name VALUE))
    size_t k = s.find(' '); if (k == std::string::npos) return false;
    std::vector<std::string> tok; std::string cur;
    for (size_t i = k; i < s.size(); i++) { char c = s[i]; if (c == '(' || c == ')' || isspace((unsigned char)c)) { if (!cur.empty()) tok.push_back(cur), cur.clear(); if (c == '(') tok.push_back("("); if (c == ')') tok.push_back(")"); } else cur += c; }
    size_t p = 0;
    std::function<bool(double &)> ex = [&](double &v) -> bool {
      if (p >= tok.size()) return false;
      if (tok[p] == "(") {
        p++; std::string op = tok[p++]; double a = 0, b = 0;
        if (op == "root-obj") return false;
        if (!ex(a)) return false;
        if (op == "-") { if (tok[p] != ")") { if (!ex(b)) return false; v = a - b; } else v = -a; }
        else if (op == "/") { if (!ex(b)) return false; v = a / b; }
        else return false;
        p++; return true;
      }
      std::string t = tok[p++]; if (!t.empty() && t.back() == '?') t.pop_back();
      char *e; v = strtod(t.c_str(), &e); return *e == 0;
    };
    return ex(out);
  }
  std::string pc_smt(std::set<int> &used) {
    std::string s;
    for (int c : pc) { bool ok = true; std::set<int> u; std::string t = cond_smt(c, u, ok); if (!ok) continue; /* an unencodable path constraint is dropped: weaker assumption, sound */ used.insert(u.begin(), u.end()); s += "(assert " + t + ")\n"; }
    return s;
  }
  Res solve(const std::vector<int> &extra, int ms, bool model) {
    std::set<int> used; std::string s = pc_smt(used);
    bool ok = true;
    for (int c : extra) s += "(assert " + cond_smt(c, used, ok) + ")\n";
    if (!ok) return UNKNOWN;
    std::string d = atom_defs(used);
    std::vector<std::pair<std::string, std::string>> gv;
    if (model) for (int a : last_atoms) if (atoms[a].kind == A_VAR) gv.push_back({vars[nodes[atoms[a].ref].a].name, an(a)});
    return run_smt(d + s, ms, gv);
  }
  // raw encoding: the DAG itself, no normal form
  bool raw_node(int n, std::string &defs, std::set<int> &seen, int &budget_) {
    if (seen.count(n)) return true;
    std::vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      if (seen.count(x)) { st.pop_back(); continue; }
      const Node nd = nodes[x];
      if (nd.op == SPECIAL) return false;
      auto need = [&](int y) { if (!seen.count(y)) { st.push_back(y); return true; } return false; };
      bool wait = false;
      if ((nd.op >= ADD && nd.op <= DIV) || nd.op == ATAN2) { wait |= need(nd.a); wait |= need(nd.b); }
      else if (nd.op >= SQRT) wait |= need(nd.a);
      if (wait) continue;
      st.pop_back(); seen.insert(x);
      if (--budget_ < 0) return false;
      std::string N = "n" + std::to_string(x), A = "n" + std::to_string(nd.a), B = "n" + std::to_string(nd.b);
      switch (nd.op) {
      case CONST: defs += "(define-fun " + N + " () Real " + qs(consts[nd.a]) + ")\n"; break;
      case VAR: { const VarInfo &v = vars[nd.a]; defs += "(declare-const " + N + " Real)\n"; if (v.lo > -1e9) defs += "(assert (>= " + N + " " + qs(Q(v.lo)) + "))\n"; if (v.hi < 1e9) defs += "(assert (<= " + N + " " + qs(Q(v.hi)) + "))\n"; break; }
      case ADD: case SUB: case MUL: defs += "(define-fun " + N + " () Real (" + op_name[nd.op] + " " + A + " " + B + "))\n"; break;
      case DIV: defs += "(declare-const " + N + " Real)\n(assert (= (* " + N + " " + B + ") " + A + "))\n(assert (not (= " + B + " 0.0)))\n"; break;
      case SQRT: defs += "(declare-const " + N + " Real)\n(assert (= (* " + N + " " + N + ") " + A + "))\n(assert (>= " + N + " 0.0))\n"; break;
      case SIN: case COS: {
        std::string S = "sn" + std::to_string(nd.a), C = "cs" + std::to_string(nd.a);
        if (seen.insert(-nd.a - 1).second) defs += "(declare-const " + S + " Real)\n(declare-const " + C + " Real)\n(assert (= (+ (* " + S + " " + S + ") (* " + C + " " + C + ")) 1.0))\n";
        defs += "(define-fun " + N + " () Real " + (nd.op == SIN ? S : C) + ")\n"; break; }
      default: defs += "(declare-const " + N + " Real)\n";
      }
    }
    return true;
  }
  bool raw_cond(int c, std::string &defs, std::set<int> &seen, int &b, std::string &out) {
    const CondNode cn = conds[c];
    if (cn.kind == 0 || cn.kind == 1) { out = cn.kind ? "true" : "false"; return true; }
    if (cn.kind == 2) {
      if (isspec(cn.a) || isspec(cn.b)) return false;
      if (!raw_node(cn.a, defs, seen, b) || !raw_node(cn.b, defs, seen, b)) return false;
      std::string A = "n" + std::to_string(cn.a), B = "n" + std::to_string(cn.b);
      out = cn.r == LT ? "(< " + A + " " + B + ")" : cn.r == LE ? "(<= " + A + " " + B + ")" : cn.r == EQ ? "(= " + A + " " + B + ")" : "(not (= " + A + " " + B + "))";
      return true;
    }
    std::string x, y;
    if (!raw_cond(cn.a, defs, seen, b, x)) return false;
    if (cn.kind == 5) { out = "(not " + x + ")"; return true; }
    if (!raw_cond(cn.b, defs, seen, b, y)) return false;
    out = std::string(cn.kind == 3 ? "(and " : "(or ") + x + " " + y + ")";
    return true;
  }
  Res solve_raw(const std::vector<int> &extra, int ms) {
    std::string defs, asserts, o; std::set<int> seen; int b = 400;
    for (int c : pc) { if (!raw_cond(c, defs, seen, b, o)) return UNKNOWN; asserts += "(assert " + o + ")\n"; }
    for (int c : extra) { if (!raw_cond(c, defs, seen, b, o)) return UNKNOWN; asserts += "(assert " + o + ")\n"; }
    return run_smt(defs + asserts, ms, {});
  }
  // both sides of these equalities became one term during execution; a path whose assertions are all of this kind is still put to the solver, as one query
  std::set<int> closed;
  void ask_closed(long before) {
    if (closed.empty() || n_raw + n_norm != before) return;
    std::string defs, asserts, o; std::set<int> seen; int b = 4000;
    for (int c : pc) { if (!raw_cond(c, defs, seen, b, o)) return; asserts += "(assert " + o + ")\n"; }
    std::string any;
    for (int n : closed) { if (!raw_node(n, defs, seen, b)) return; std::string N = "n" + std::to_string(n); any += " (distinct " + N + " " + N + ")"; }
    if (run_smt(defs + asserts + "(assert (or false" + any + "))\n", 2000, {}) != UNSAT) { n_unknown++; unknown_checks.insert("equal terms"); }
  }
  // ---------------------------------------------------------------- decisions
  uint64_t h64(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }
  int fresh_uninit() { return mkvar("uninit#" + std::to_string(uninit_count++), -1e9, 1e9, 1); }
  void check_deadline() { if (secs_since(t0) > deadline_s) { incomplete = true; incomplete_why = "time budget"; throw PathAbort(); } }
  int replay_or(uint64_t key) { // value from the prefix, or -1
    size_t k = trace.size();
    if (k < prefix.size()) {
      if (prefix_keys[k] == key) return prefix[k];
      notes.insert("re-execution diverged (nondeterministic container order); continued by solving");
      prefix.resize(k); prefix_keys.resize(k);
    }
    return -1;
  }
  void push_alt(int val) {
    std::vector<int> p; std::vector<uint64_t> k;
    for (size_t i = 0; i + 1 < trace.size(); i++) { p.push_back(trace[i].val); k.push_back(trace[i].key); }
    p.push_back(val); k.push_back(trace.back().key);
    work.push_back({p, k});
  }
  bool decide_cond(int c, int cp, bool flip, Rel r, bool have_rel) {
    check_deadline();
    int nc = lnot(c_of(c)).id;
    uint64_t key = have_rel && cp >= 0 ? h64(cp, r * 2 + flip) : 77;
    if (conds[c].kind == 2) key = h64(h64(conds[c].a, conds[c].b), conds[c].r);
    int v = replay_or(key);
    n_decisions++;
    if (v < 0) {
      // a side with a concrete witness needs no solver call to be explored; pruning a side always is the solver's decision
      bool wt = false, wf = false;
      witness_sides(c, wt, wf);
      n_feas++;
      Res rt = wt ? SAT : solve({c}, feas_ms, false);
      if (rt == UNSAT) { v = 0; trace.push_back({0, 2, key, true}); }
      else {
        n_feas++;
        Res rf = wf ? SAT : solve({nc}, feas_ms, false);
        v = 1;
        if (rf == UNSAT) trace.push_back({1, 2, key, true});
        else { trace.push_back({1, 2, key, false}); n_forks++; push_alt(0); }
      }
    } else trace.push_back({v, 2, key, false});
    pc.push_back(v ? c : nc);
    if (have_rel) learn(r, cp, flip, v);
    return v;
  }
  bool do_branch(Rel r, int a, int b) {
    if (a == ID_UNINIT) a = fresh_uninit();
    if (b == ID_UNINIT) b = fresh_uninit();
    if (has_inf) { a = at0(a); b = at0(b); }
    int cp; bool flip;
    int q = quick(r, a, b, cp, flip);
    if (q >= 0) return q;
    int c = c_rel(r, a, b).id;
    return decide_cond(c, cp, flip, r, true);
  }
  // ---------------------------------------------------------------- infinitesimals
  bool has_inf = false;
  std::unordered_map<int, int> at0_cache;
  int at0(int n) {
    std::vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      if (at0_cache.count(x)) { st.pop_back(); continue; }
      const Node nd = nodes[x];
      auto need = [&](int y) { if (!at0_cache.count(y)) { st.push_back(y); return true; } return false; };
      bool wait = false;
      if ((nd.op >= ADD && nd.op <= DIV) || nd.op == ATAN2) { wait |= need(nd.a); wait |= need(nd.b); }
      else if (nd.op >= SQRT) wait |= need(nd.a);
      if (wait) continue;
      st.pop_back();
      int r = x;
      if (nd.op == VAR && vars[nd.a].kind == 2) r = ID_ZERO;
      else if (nd.op >= ADD && nd.op <= DIV) { int A = at0_cache[nd.a], B = at0_cache[nd.b]; if (A != nd.a || B != nd.b) r = bin(op_name[nd.op][0], A, B); }
      else if (nd.op == ATAN2) { int A = at0_cache[nd.a], B = at0_cache[nd.b]; if (A != nd.a || B != nd.b) r = mkn(ATAN2, A, B); }
      else if (nd.op >= SQRT) { int A = at0_cache[nd.a]; if (A != nd.a) r = un(nd.op, A); }
      at0_cache[x] = r;
    }
    return at0_cache[n];
  }
  std::map<int, std::unordered_map<int, int>> tan_cache;
  int tangent_of(int n, int k) {
    auto &T = tan_cache[k];
    int var = mkvar("eps#" + std::to_string(k), -1e9, 1e9, 2);
    std::vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      if (T.count(x)) { st.pop_back(); continue; }
      const Node nd = nodes[x];
      if (nd.op == CONST || nd.op == VAR) { T[x] = x == var ? ID_ONE : ID_ZERO; st.pop_back(); continue; }
      if (nd.op == SPECIAL) { T[x] = x == ID_UNINIT ? ID_UNINIT : ID_NAN; st.pop_back(); continue; }
      auto need = [&](int y) { if (!T.count(y)) { st.push_back(y); return true; } return false; };
      bool wait = need(nd.a);
      if (nd.op <= DIV || nd.op == ATAN2) wait |= need(nd.b);
      if (wait) continue;
      st.pop_back();
      int da = T[nd.a], a = at0(nd.a), r = ID_ZERO;
      int db = 0, b = 0;
      if (nd.op <= DIV || nd.op == ATAN2) { db = T[nd.b]; b = at0(nd.b); if (da == ID_ZERO && db == ID_ZERO) { T[x] = ID_ZERO; continue; } }
      else if (da == ID_ZERO) { T[x] = ID_ZERO; continue; }
      switch (nd.op) {
      case ADD: r = bin('+', da, db); break;
      case SUB: r = bin('-', da, db); break;
      case MUL: r = bin('+', bin('*', da, b), bin('*', a, db)); break;
      case DIV: r = bin('/', bin('-', da, bin('*', bin('/', a, b), db)), b); break;
      case SQRT: r = bin('/', da, bin('*', mkq(Q(2)), un(SQRT, a))); break;
      case SIN: r = bin('*', un(COS, a), da); break;
      case COS: r = bin('-', ID_ZERO, bin('*', un(SIN, a), da)); break;
      case ACOS: r = bin('-', ID_ZERO, bin('/', da, un(SQRT, bin('-', ID_ONE, bin('*', a, a))))); break;
      case ASIN: r = bin('/', da, un(SQRT, bin('-', ID_ONE, bin('*', a, a)))); break;
      case ATAN: r = bin('/', da, bin('+', ID_ONE, bin('*', a, a))); break;
      case ATAN2: r = bin('/', bin('-', bin('*', b, da), bin('*', a, db)), bin('+', bin('*', a, a), bin('*', b, b))); break;
      case EXP: r = bin('*', un(EXP, a), da); break;
      case LOG: r = bin('/', da, a); break;
      case CBRT: r = bin('/', da, bin('*', mkq(Q(3)), bin('*', un(CBRT, a), un(CBRT, a)))); break;
      default: abort();
      }
      T[x] = r;
    }
    return T[n];
  }
  // ---------------------------------------------------------------- checks
  void path_inputs(std::map<std::string, double> &m) { for (auto &p : path_rnd) m[p.first] = p.second; }
  void set_env(const std::map<std::string, double> &m) {
    new_env();
    for (auto &p : m) { auto it = var_ids.find(p.first); if (it != var_ids.end()) env[it->second] = p.second; }
  }
  std::set<int> vars_of(const std::vector<int> &cs) {
    std::set<int> vs; std::unordered_set<int> seen; std::vector<int> st; std::vector<int> cst(cs);
    while (!cst.empty()) { int c = cst.back(); cst.pop_back(); const CondNode &cn = conds[c]; if (cn.kind == 2) { st.push_back(cn.a); st.push_back(cn.b); } else if (cn.kind >= 3) { cst.push_back(cn.a); if (cn.kind != 5) cst.push_back(cn.b); } }
    while (!st.empty()) { int x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; const Node &nd = nodes[x]; if (nd.op == VAR) vs.insert(x); else if (nd.op >= ADD) { st.push_back(nd.a); if (nd.op <= DIV || nd.op == ATAN2) st.push_back(nd.b); } }
    return vs;
  }
  // concrete inputs satisfying the path condition and (numerically) falsifying c; base: a model to perturb, may be null
  bool search_numeric(int c, const std::map<std::string, double> *base, std::map<std::string, double> &best, int tries, double need) {
    std::vector<int> cs = pc; cs.push_back(c);
    std::set<int> vs = vars_of(cs);
    std::mt19937_64 g(vf_seed * 7919 + c);
    std::uniform_real_distribution<double> U(-1, 1);
    double bm = -need; bool found = false;
    double pcmin = 0;
    (void)pcmin;
    for (int t = 0; t < tries; t++) {
      new_env();
      std::map<std::string, double> m;
      double amp = base ? std::pow(10.0, -(t % 5)) : 1;
      for (int v : vs) {
        const VarInfo &vi = vars[nodes[v].a];
        if (vi.kind == 2) continue;
        double x;
        bool bl = vi.lo > -1e9, bh = vi.hi < 1e9;
        if (base && t % 2 == 0 && base->count(vi.name)) x = base->at(vi.name) + (t == 0 ? 0 : amp * U(g));
        else if (bl && bh) x = vi.lo + (vi.hi - vi.lo) * 0.5 * (1 + U(g));
        else x = U(g) * (t % 3 == 0 ? 3 : 1);
        if (bl && x < vi.lo) x = vi.lo;
        if (bh && x > vi.hi) x = vi.hi;
        if (!bl && !bh && std::fabs(x) > 1e8) x = U(g);
        m[vi.name] = x; env[v] = x;
      }
      bool ok = true;
      for (int p : pc) if (!(cond_margin(p) > 0)) { ok = false; break; }
      if (!ok) continue;
      double mg = cond_margin(c);
      if (mg < bm) { bm = mg; best = m; found = true; if (mg < -0.05) break; }
    }
    return found;
  }
  std::vector<std::map<int, double>> pool; // concrete points, kept over the whole case
  void witness_sides(int c, bool &wt, bool &wf) {
    std::vector<int> cs = pc; cs.push_back(c);
    std::set<int> vs = vars_of(cs);
    if (pool.size() < 48) {
      std::mt19937_64 g(vf_seed * 31337 + pool.size());
      std::uniform_real_distribution<double> U(-1, 1);
      while (pool.size() < 48) pool.push_back({});
    }
    for (size_t t = 0; t < pool.size() && !(wt && wf); t++) {
      auto &P = pool[t];
      new_env();
      for (int v : vs) {
        const VarInfo &vi = vars[nodes[v].a];
        if (vi.kind == 2) continue;
        auto it = P.find(v);
        if (it == P.end()) {
          std::mt19937_64 g(vf_seed * 7907 + t * 104729 + v);
          double u = std::uniform_real_distribution<double>(-1, 1)(g), x;
          bool bl = vi.lo > -1e9, bh = vi.hi < 1e9;
          if (bl && bh) x = vi.lo + (vi.hi - vi.lo) * 0.5 * (1 + u * (t % 2 ? 1 : 0.5)); else x = u * (t % 3 == 0 ? 3 : 1);
          if (bl && x < vi.lo) x = vi.lo;
          if (bh && x > vi.hi) x = vi.hi;
          it = P.emplace(v, x).first;
        }
        env[v] = it->second;
      }
      double mg = cond_margin(c);
      if (std::fabs(mg) < 1e-7 || (mg > 0 ? wt : wf)) continue;
      bool ok = true;
      for (int p : pc) if (!(cond_margin(p) > 1e-7)) { ok = false; break; }
      if (ok) (mg > 0 ? wt : wf) = true;
    }
  }
  void record(const std::string &name, int c, const std::map<std::string, double> *model, const std::string &info) {
    int &n = viol_counts[name];
    n++;
    if (n > 4) return;
    Violation v; v.check = name; v.ints = path_ints; v.info = info;
    std::map<std::string, double> m, rb;
    std::map<std::string, double> base; if (model) base = *model;
    for (int t = 0; t < 2; t++) {
      if (t == 0 && !model) continue;
      if (t == 0) m = *model; else { if (!search_numeric(c, model ? &base : nullptr, rb, 400, 1e-7)) continue; m = rb; }
      // inputs not mentioned by the query
      for (auto &vi : vars) if (vi.kind == 0 && !m.count(vi.name)) { double x = 0.3; if (vi.lo > -1e9 && vi.hi < 1e9) x = 0.5 * (vi.lo + vi.hi); m[vi.name] = x; }
      path_inputs(m);
      if (t == 1) v.cands.insert(v.cands.begin(), m); else v.cands.push_back(m);
    }
    viols.push_back(v);
  }
  std::map<std::string, int> raw_luck;
  void do_check(const std::string &name, int c) {
    n_checks++; check_counts[name]++;
    check_deadline();
    const CondNode cn = conds[c];
    if (cn.kind == 1) { n_trivial++; return; }
    int nc = lnot(c_of(c)).id;
    if (viol_counts.count(name) && viol_counts[name] > 6) return;
    // a cheap concrete look first: it only orders the work, the verdict is the solver's
    std::map<std::string, double> probe;
    bool suspicious = cn.kind != 0 && search_numeric(c, nullptr, probe, 12, 1e-6);
    Res r = UNKNOWN;
    if (suspicious) {
      n_numeric_first++;
      // ask the solver with the inputs pinned to the suspicious values
      std::vector<int> ex{nc};
      for (auto &p : probe) { auto it = var_ids.find(p.first); if (it != var_ids.end()) ex.push_back(c_rel(EQ, it->second, mkq(Q(p.second))).id); }
      r = solve(ex, query_ms, true);
      if (r == SAT) { n_raw += 0; record(name, c, &probe, "solver: sat at pinned inputs"); return; }
      r = solve({nc}, query_ms, true);
      if (r == SAT) { auto m = last_model; record(name, c, &m, "solver: sat"); return; }
      if (r == UNSAT) { n_norm++; return; }
      record(name, c, &probe, "solver: unknown; concrete inputs falsify the assertion");
      n_unknown++; unknown_checks.insert(name);
      return;
    }
    // the plain encoding first, unless it did not pay for this assertion before; then after normalisation
    int &rw = raw_luck[name];
    r = solve_raw({nc}, rw < -1 ? 60 : rw < 0 ? 200 : 700);
    if (r == UNSAT) { rw = 1; n_raw++; return; }
    rw--;
    r = solve({nc}, query_ms, true);
    if (r == UNSAT) { n_norm++; return; }
    if (r == SAT) { auto m = last_model; record(name, c, &m, "solver: sat"); return; }
    n_unknown++; unknown_checks.insert(name);
    std::map<std::string, double> b;
    if (search_numeric(c, nullptr, b, 3000, 1e-7)) record(name, c, &b, "solver: unknown; concrete inputs falsify the assertion");
  }
  void domain_obligation(const char *what, Cond c) {
    if (conds[c.id].kind == 1) return;
    bool s = domain_checks; domain_checks = false;
    do_check(std::string("defined: no ") + what, c.id);
    domain_checks = s;
    pc.push_back(c.id);
  }
  // ---------------------------------------------------------------- running
  void reset_path() {
    closed.clear(); trace.clear(); pc.clear(); sign.clear(); path_ints.clear(); path_rnd.clear(); aux_count = 0; uninit_count = 0; has_inf = false; domain_checks = false; round_consts = false; half_angles = false; angle_terms = 4; angle_unit = 0;
    rng.seed(vf_seed * 1000003 + std::hash<std::string>()(case_name));
  }
};
static Engine &E() { static Engine *e = new Engine(); return *e; }

// -------------------------------------------------------------------------------------------------- API
int mk_const_int(long long v) { if (v == 0) return ID_ZERO; if (v == 1) return ID_ONE; return E().mkq(Q((long)v)); }
int mk_const(double v) { if (std::isnan(v)) return ID_NAN; if (std::isinf(v)) return v > 0 ? ID_PINF : ID_NINF; Q q(v); return E().mkq(q); }
static Q parse_dec(const char *s) {
  std::string d; long ex = 0; bool dot = false, neg = false; const char *p = s;
  if (*p == '-') { neg = true; p++; }
  for (; *p; p++) {
    if (*p == '.') dot = true;
    else if (*p == 'e' || *p == 'E') { ex += atol(p + 1); break; }
    else if (isdigit((unsigned char)*p)) { d += *p; if (dot) ex--; }
    else if (*p == '\'') continue;
    else break;
  }
  if (d.empty()) d = "0";
  mpz_class n(d, 10), t; mpz_ui_pow_ui(t.get_mpz_t(), 10, (unsigned long)std::labs(ex));
  Q q = ex >= 0 ? Q(n * t) : Q(n, t);
  q.canonicalize();
  return neg ? Q(-q) : q;
}
int mk_lit(const char *s) { return E().mkq(parse_dec(s)); }
int mk_bin(char op, int a, int b) { return E().bin(op, a, b); }
int mk_un(const char *op, int a) {
  static const std::map<std::string, Op> t{{"sqrt", SQRT}, {"sin", SIN}, {"cos", COS}, {"acos", ACOS}, {"asin", ASIN}, {"atan", ATAN}, {"exp", EXP}, {"log", LOG}, {"cbrt", CBRT}};
  return E().un(t.at(op), a);
}
int mk_un2(const char *, int a, int b) {
  Engine &e = E();
  if (e.isspec(a) || e.isspec(b)) return a == ID_UNINIT || b == ID_UNINIT ? ID_UNINIT : ID_NAN;
  if (a == ID_ZERO && e.isc(b) && sgn(e.cv(b)) >= 0) return ID_ZERO;
  if (e.round_consts && e.isc(a) && e.isc(b)) return e.mkq(Q(std::atan2(e.cv(a).get_d(), e.cv(b).get_d())));
  return e.mkn(ATAN2, a, b);
}
bool branch(Rel r, int a, int b) { return E().do_branch(r, a, b); }
double to_double(int id) {
  Engine &e = E();
  if (e.isc(id)) return e.cv(id).get_d();
  if (id == ID_NAN) return NAN; if (id == ID_PINF) return INFINITY; if (id == ID_NINF) return -INFINITY;
  e.notes.insert("a symbolic value was converted to a machine double; the path was cut");
  e.incomplete = true; e.incomplete_why = "symbolic value needed concretely";
  throw PathAbort();
}
long long to_int(int id, int mode) {
  Engine &e = E();
  if (id == ID_UNINIT) id = e.fresh_uninit();
  if (e.has_inf) id = e.at0(id);
  if (!e.isc(id)) { int p = e.try_nf(id, 100000); if (p >= 0) { if (e.polys[p].empty()) id = ID_ZERO; else if (e.polys[p].size() == 1 && e.polys[p][0].first == 0) id = e.mkq(e.polys[p][0].second); } }
  if (e.isc(id)) {
    Q q = e.cv(id);
    mpz_class r;
    if (mode == 3) { q = q + (sgn(q) >= 0 ? Q(1, 2) : Q(-1, 2)); mode = 0; }
    if (mode == 0) mpz_tdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    else if (mode == 1) mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    else mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    return r.get_si();
  }
  if (e.isspec(id)) { e.notes.insert("NaN/inf converted to an integer"); return 0; }
  // enumerate feasible values
  Sym x = mk(id);
  std::set<long long> tried;
  for (int k = 0; k < 40; k++) {
    std::map<std::string, double> none;
    Engine::Res r = e.solve({}, e.feas_ms, true);
    if (r == Engine::UNSAT) throw PathAbort(); // no input takes this path
    long long v = 0;
    if (r == Engine::SAT) { e.set_env(e.last_model); double d = e.evaln(id); v = (long long)(mode == 0 ? std::trunc(d) : mode == 1 ? std::floor(d) : mode == 2 ? std::ceil(d) : std::round(d)); }
    // the model's value is rounded: beside a whole number the conversion may be the neighbour's
    for (long long d = 1; tried.count(v) && d < 40; d++) { if (!tried.count(v + d)) v += d; else if (!tried.count(v - d)) v -= d; }
    tried.insert(v);
    Cond lo, hi;
    if (mode == 1) { lo = le(Sym(v), x); hi = lt(x, Sym(v + 1)); }
    else if (mode == 2) { lo = lt(Sym(v - 1), x); hi = le(x, Sym(v)); }
    else if (mode == 3) { lo = le(Sym(2 * v - 1) / Sym(2), x); hi = lt(x, Sym(2 * v + 1) / Sym(2)); }
    else { lo = v > 0 ? le(Sym(v), x) : lt(Sym(v - 1), x); hi = v < 0 ? le(x, Sym(v)) : lt(x, Sym(v + 1)); }
    if (decide(land(lo, hi))) return v;
  }
  e.incomplete = true; e.incomplete_why = "integer conversion with too many values";
  throw PathAbort();
}
bool isnan_id(int id) { return id == ID_NAN; }
bool isinf_id(int id) { return id == ID_PINF || id == ID_NINF; }
Sym pow(const Sym &x, const Sym &y) {
  Engine &e = E();
  if (e.isc(y.id)) {
    Q q = e.cv(y.id);
    if (q.get_den() == 1 && abs(q.get_num()) <= 64) {
      long n = q.get_num().get_si(); Sym r(1);
      for (long i = 0; i < std::labs(n); i++) r = r * x;
      return n < 0 ? Sym(1) / r : r;
    }
    if (q == Q(1, 2)) return sqrt(x);
    if (q == Q(1, 3)) return cbrt(x);
    if (e.isc(x.id)) return Sym(std::pow(e.cv(x.id).get_d(), q.get_d()));
  }
  return exp(y * log(x));
}
std::string to_str(const Sym &s) { Engine &e = E(); if (e.isc(s.id)) { std::ostringstream o; o << e.cv(s.id).get_d(); return o.str(); } return "sym" + std::to_string(s.id); }
std::ostream &operator<<(std::ostream &os, const Sym &s) { Engine &e = E(); if (e.isc(s.id)) return os << e.cv(s.id).get_d(); return os << "sym" << s.id; }
std::istream &operator>>(std::istream &is, Sym &s) { double d; if (is >> d) s = Sym(d); return is; }

Cond cond_const(bool b) { Cond c; c.id = b ? 1 : 0; return c; }
Cond c_rel(Rel r, int a, int b) {
  Engine &e = E();
  if (a == ID_UNINIT) a = e.fresh_uninit();
  if (b == ID_UNINIT) b = e.fresh_uninit();
  int cp; bool fl;
  if ((e.isc(a) && e.isc(b)) || e.isspec(a) || e.isspec(b) || a == b) { int q = e.quick(r, a, b, cp, fl); if (q >= 0) return cond_const(q); }
  Cond c; c.id = e.mkcond(2, r, a, b); return c;
}
Cond land(Cond a, Cond b) { if (a.id == 0 || b.id == 0) return cond_const(false); if (a.id == 1) return b; if (b.id == 1) return a; Cond c; c.id = E().mkcond(3, LT, a.id, b.id); return c; }
Cond lor(Cond a, Cond b) { if (a.id == 1 || b.id == 1) return cond_const(true); if (a.id == 0) return b; if (b.id == 0) return a; Cond c; c.id = E().mkcond(4, LT, a.id, b.id); return c; }
Cond lnot(Cond a) {
  Engine &e = E();
  if (a.id < 2) return cond_const(a.id == 0);
  CondNode cn = e.conds[a.id];
  if (cn.kind == 5) { Cond c; c.id = cn.a; return c; }
  if (cn.kind == 2) {
    Cond c;
    switch (cn.r) { case LT: c.id = e.mkcond(2, LE, cn.b, cn.a); break; case LE: c.id = e.mkcond(2, LT, cn.b, cn.a); break; case EQ: c.id = e.mkcond(2, NE, cn.a, cn.b); break; default: c.id = e.mkcond(2, EQ, cn.a, cn.b); }
    return c;
  }
  Cond c; c.id = e.mkcond(5, LT, a.id, 0); return c;
}
bool symbolic_draws = true;
Sym input(const std::string &name, Num lo, Num hi) { return mk(E().mkvar(name, lo, hi, 0)); }
Sym rnd(const std::string &name, Num lo, Num hi) {
  Engine &e = E();
  auto it = e.path_rnd.find(name);
  long k;
  if (it != e.path_rnd.end()) return Sym(it->second);
  std::mt19937_64 g(e.vf_seed * 2654435761u + std::hash<std::string>()(e.case_name + "/" + name));
  k = (long)(g() % 65);
  // dyadic: exact both as a rational and as a double
  double v = lo + (hi - lo) * 0.0; double step = std::ldexp(1.0, (int)std::floor(std::log2((hi - lo) / 64)));
  v = std::round(lo / step) * step + step * k; if (v > hi) v = std::floor(hi / step) * step;
  e.path_rnd[name] = v;
  return Sym(v);
}
long rnd_int(const std::string &name, long lo, long hi) {
  Engine &e = E();
  std::mt19937_64 g(e.vf_seed * 2654435761u + std::hash<std::string>()(e.case_name + "/" + name));
  long v = lo + (long)(g() % (unsigned long)(hi - lo + 1));
  e.path_ints[name] = v;
  return v;
}
Sym input_or(const std::string &name, Num lo, Num hi, bool symbolic) { return symbolic ? input(name, lo, hi) : rnd(name, lo, hi); }
int choose(const std::string &name, int n) {
  Engine &e = E();
  e.check_deadline();
  uint64_t key = e.h64(std::hash<std::string>()(name), n);
  int v = e.replay_or(key);
  e.n_decisions++;
  if (v < 0) {
    v = 0;
    e.trace.push_back({0, n, key, false});
    for (int i = n - 1; i >= 1; i--) { e.push_alt(i); e.n_forks++; }
  } else e.trace.push_back({v, n, key, false});
  e.path_ints[name] = v;
  return v;
}
Sym aux(const std::string &name) { Engine &e = E(); return mk(e.mkvar(name + "#" + std::to_string(e.aux_count++), -1e9, 1e9, 1)); }
void assume(Cond c) {
  Engine &e = E();
  if (c.id == 1) return;
  if (c.id == 0) throw PathAbort();
  CondNode cn = e.conds[c.id];
  if (cn.kind == 3) { assume(Engine::c_of(cn.a)); assume(Engine::c_of(cn.b)); return; }
  if (cn.kind == 2) {
    int cp; bool fl; int q = e.quick(cn.r, cn.a, cn.b, cp, fl);
    if (q == 1) return;
    if (q == 0) throw PathAbort();
    e.learn(cn.r, cp, fl, true);
  }
  e.pc.push_back(c.id);
}
void check(const std::string &name, Cond c) { E().do_check(name, c.id); }
static std::map<long long, int> texts;
std::string text(const Sym &s) { long long k = 7000001 + (long long)texts.size(); texts[k] = s.id; return std::to_string(k) + ".25"; }
Sym parse(const char *c) {
  double d = atof(c); double k = std::floor(d);
  if (d - k == 0.25) { auto it = texts.find((long long)k); if (it != texts.end()) return mk(it->second); }
  return Sym(d);
}
void check_eq_v(const std::string &name, const std::vector<Sym> &a, const std::vector<Sym> &b, Num) {
  Engine &e = E();
  if (a.size() != b.size()) { check(name + " (size)", false); return; }
  Cond all = cond_const(true);
  // equalities that hold term by term after hash-consing are closed there; the rest goes to the solver as one query
  for (size_t i = 0; i < a.size(); i++) all = land(all, eq(a[i], b[i]));
  if (e.conds[all.id].kind == 1) for (auto &x : a) if (!e.isc(x.id) && !e.isspec(x.id)) e.closed.insert(x.id);
  e.do_check(name, all.id);
}
void reach(const std::string &name) {
  Engine &e = E();
  if (e.reach_counts[name] >= 3) return;
  // the path up to here must be satisfiable: the twin assertion 'false' has to be refuted
  std::map<std::string, double> m; bool have = false;
  Engine::Res r = Engine::UNKNOWN;
  if (e.search_numeric(0, nullptr, m, 300, 0)) have = true, r = Engine::SAT; // a concrete input that satisfies the whole path condition
  if (!have) { r = e.solve({}, e.query_ms, true); if (r == Engine::SAT) m = e.last_model; }
  if (r != Engine::SAT) return;
  e.reach_counts[name]++;
  if (e.aux_count || e.wits.size() > 40) return;
  for (auto &vi : e.vars) if (vi.kind == 0 && !m.count(vi.name)) { double x = 0.3; if (vi.lo > -1e9 && vi.hi < 1e9) x = 0.5 * (vi.lo + vi.hi); m[vi.name] = x; }
  e.path_inputs(m);
  e.wits.push_back({e.path_ints, m});
}
bool decide(Cond c) {
  Engine &e = E();
  if (c.id < 2) return c.id;
  CondNode cn = e.conds[c.id];
  if (cn.kind == 2) return e.do_branch(cn.r, cn.a, cn.b);
  return e.decide_cond(c.id, -1, false, LT, false);
}
Sym infinitesimal(int k) { Engine &e = E(); e.has_inf = true; return mk(e.mkvar("eps#" + std::to_string(k), -1e9, 1e9, 2)); }
Sym tangent(const Sym &v, int k) { if (v.id == ID_UNINIT) return v; return mk(E().tangent_of(v.id, k)); }
Sym at_zero(const Sym &v) { return mk(E().at0(v.id)); }
void note(const std::string &s) { E().notes.insert(s); }
bool thorough() { return E().vf_thorough; }
long seed() { return E().vf_seed; }
void check_near_v(const std::string &name, const std::vector<Sym> &a, const std::vector<Sym> &b, Num tol) {
  Engine &e = E();
  if (a.size() != b.size()) { check(name + " (size)", false); return; }
  Cond all = cond_const(true);
  Sym t = Sym((double)tol);
  for (size_t i = 0; i < a.size(); i++) { Sym d = a[i] - b[i]; all = land(all, land(le(-t, d), le(d, t))); }
  e.do_check(name, all.id);
}
bool is_const(const Sym &x) { return E().isc(x.id); }
bool numeric_value(const Sym &x, double &v) {
  Engine &e = E();
  if (e.isspec(x.id)) return false;
  std::vector<int> st{x.id}; std::set<int> seen; bool var = false;
  while (!st.empty() && !var) {
    int y = st.back(); st.pop_back();
    if (!seen.insert(y).second) continue;
    const Node &n = e.nodes[y];
    if (n.op == VAR || n.op == SPECIAL) var = true;
    if (n.op >= ADD) st.push_back(n.a);
    if ((n.op >= ADD && n.op <= DIV) || n.op == ATAN2) st.push_back(n.b);
  }
  if (var) { int p = e.try_nf(x.id, 100000); if (p < 0) return false; if (e.polys[p].empty()) { v = 0; return true; } if (e.polys[p].size() != 1 || e.polys[p][0].first != 0) return false; v = e.polys[p][0].second.get_d(); return true; }
  e.new_env();
  v = e.evaln(x.id);
  return std::isfinite(v);
}
bool is_zero(const Sym &x) {
  Engine &e = E();
  if (x.id == ID_ZERO) return true;
  if (e.isc(x.id) || e.isspec(x.id)) return false;
  // cheap numeric refutation first, then the normal form
  e.new_env(); for (size_t i = 0; i < e.vars.size(); i++) { auto it = e.var_ids.find(e.vars[i].name); e.env[it->second] = 0.37 + 0.61803398875 * std::fmod(i * 0.7548776662, 1.0); }
  double v = e.evaln(x.id);
  if (std::isfinite(v) && std::fabs(v) > 1e-9) return false;
  int p = e.try_nf(x.id, 300000);
  if (p < 0) return false;
  if (e.polys[p].empty()) return true;
  return e.nodes_have_inv(p) && e.try_clear(p, 300000) == 0;
}
// regularised lower incomplete gamma and the chi-squared quantile (contract of boost::math::quantile, to double accuracy)
static double gamma_p(double a, double x) {
  if (x <= 0) return 0;
  if (x < a + 1) { double s = 1 / a, t = s; for (int n = 1; n < 5000; n++) { t *= x / (a + n); s += t; if (t < s * 1e-17) break; } return s * std::exp(-x + a * std::log(x) - std::lgamma(a)); }
  double b = x + 1 - a, c = 1 / 1e-300, d = 1 / b, h = d;
  for (int i = 1; i < 5000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del; if (std::fabs(del - 1) < 1e-16) break; }
  return 1 - std::exp(-x + a * std::log(x) - std::lgamma(a)) * h;
}
double chi2_quantile(Num k_, Num p_) {
  double k = k_, p = p_;
  static std::map<std::pair<double, double>, double> memo;
  auto it = memo.find({k, p});
  if (it != memo.end()) return it->second;
  double lo = 0, hi = k + 20 * std::sqrt(2 * k) + 50;
  for (int i = 0; i < 200; i++) { double m = 0.5 * (lo + hi); if (m == lo || m == hi) break; if (gamma_p(k / 2, m / 2) < p) lo = m; else hi = m; }
  return memo[{k, p}] = 0.5 * (lo + hi);
}
void declare_angle(const Sym &a) { Engine &e = E(); int p = e.try_nf(a.id, 100000); if (p < 0) return;
  e.angle_ok.insert(p);
  int s, c;
  if (e.half_angles) { e.sc_atom(e.scale(e.polys[p], Q(1, 2)), s, c); e.atoms[s].nonneg = e.atoms[c].nonneg = true; }
  else { e.sc_atom(e.polys[p], s, c); e.atoms[s].nonneg = true; }
}
void set_rounded_constants(bool b) { E().round_consts = b; }
void set_half_angles(bool b) { E().half_angles = b; }
void set_angle_unit(int n) { E().angle_unit = n; }
void set_angle_terms(int n) { E().angle_terms = n; }
void set_limits(long terms, int query_ms, int feas_ms) { Engine &e = E(); e.term_limit = terms; e.query_ms = query_ms; e.feas_ms = feas_ms; }
DomainChecks::DomainChecks() { old = E().domain_checks; E().domain_checks = true; }
DomainChecks::~DomainChecks() { E().domain_checks = old; }
void code_exit(int c) { E().n_exits++; throw CodeExit{c}; }
void code_assert(bool ok, const char *what) {
  if (ok) return;
  Engine &e = E();
  e.n_assert_fail++;
  e.do_check(std::string("assertion in the code: ") + what, 0);
  throw CodeExit{134};
}
static std::vector<Case> &cases() { static std::vector<Case> c; return c; }
Register::Register(const char *name, void (*fn)(), int tier) { cases().push_back({name, fn, tier}); }

static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }

static Clock::time_point path_t0;
// one path took most of the budget: propose its inputs as ones the code does not terminate on
static void maybe_endless() {
  Engine &e = E();
  if (secs_since(path_t0) < 0.4 * e.deadline_s) return;
  e.deadline_s = 1e9;
  try { e.do_check("the code terminates", 0); } catch (...) {}
}
static void explore(const Case &c) {
  Engine &e = E();
  e.case_name = c.name;
  e.t0 = Clock::now();
  e.work.push_back({{}, {}});
  long maxp = 200000;
  while (!e.work.empty()) {
    if (secs_since(e.t0) > e.deadline_s) { e.incomplete = true; e.incomplete_why = "time budget"; break; }
    auto w = e.work.back(); e.work.pop_back();
    e.prefix = w.first; e.prefix_keys = w.second;
    e.reset_path();
    path_t0 = Clock::now();
    long before = e.n_raw + e.n_norm;
    try {
      c.fn();
      e.n_paths++;
      e.ask_closed(before);
    } catch (PathAbort &) { e.n_aborted++; if (e.incomplete && e.incomplete_why == "time budget") { maybe_endless(); break; } }
    catch (CodeExit &x) {
      e.n_paths++;
      // the code terminated the process on a feasible path that the harness did not expect
      if (x.code != 134) { try { e.do_check("the code does not terminate the process (exit)", 0); } catch (...) {} }
    } catch (std::exception &x) {
      e.n_paths++;
      try { e.do_check(std::string("no exception escapes: ") + x.what(), 0); } catch (...) {}
    }
    if (--maxp <= 0) { e.incomplete = true; e.incomplete_why = "path budget"; break; }
  }
}
} // namespace vf

static std::set<uintptr_t> &cov() { static std::set<uintptr_t> *s = new std::set<uintptr_t>; return *s; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) { for (uint32_t *p = start; p < stop; p++) *p = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard) { if (!*guard) return; *guard = 0; cov().insert((uintptr_t)__builtin_return_address(0)); }
namespace vf {
static void print_result() {
  Engine &e = E();
  e.zkill();
  printf("VFRESULT {\"case\":%s,\"paths\":%ld,\"aborted\":%ld,\"decisions\":%ld,\"forks\":%ld,\"queries\":%ld,\"feasibility\":%ld,\"checks\":%ld,\"trivial\":%ld,\"raw_unsat\":%ld,\"norm_unsat\":%ld,\"unknown\":%ld,\"exits\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"nodes\":%zu,\"incomplete\":%s,",
         js(e.case_name).c_str(), e.n_paths, e.n_aborted, e.n_decisions, e.n_forks, e.n_queries, e.n_feas, e.n_checks, e.n_trivial, e.n_raw, e.n_norm, e.n_unknown, e.n_exits, e.solver_time, secs_since(e.t0), e.nodes.size(), e.incomplete ? js(e.incomplete_why).c_str() : "null");
  printf("\"check_counts\":{"); bool f = true; for (auto &x : e.check_counts) { printf("%s%s:%ld", f ? "" : ",", js(x.first).c_str(), x.second); f = false; }
  printf("},\"reach\":{"); f = true; for (auto &x : e.reach_counts) { printf("%s%s:%ld", f ? "" : ",", js(x.first).c_str(), x.second); f = false; }
  printf("},\"unknown_checks\":["); f = true; for (auto &x : e.unknown_checks) { printf("%s%s", f ? "" : ",", js(x).c_str()); f = false; }
  printf("],\"notes\":["); f = true; for (auto &x : e.notes) { printf("%s%s", f ? "" : ",", js(x).c_str()); f = false; }
  printf("],\"viol_counts\":{"); f = true; for (auto &x : e.viol_counts) { printf("%s%s:%d", f ? "" : ",", js(x.first).c_str(), x.second); f = false; }
  printf("},\"funcs\":["); f = true; for (uintptr_t x : cov()) { printf("%s%llu", f ? "" : ",", (unsigned long long)x); f = false; }
  printf("],\"witnesses\":["); f = true;
  for (auto &w : e.wits) {
    printf("%s{\"ints\":{", f ? "" : ","); f = false; bool g = true;
    for (auto &x : w.first) { printf("%s%s:%ld", g ? "" : ",", js(x.first).c_str(), x.second); g = false; }
    printf("},\"vals\":{"); g = true;
    for (auto &x : w.second) { printf("%s%s:%.17g", g ? "" : ",", js(x.first).c_str(), std::isfinite(x.second) ? x.second : 0.0); g = false; }
    printf("}}");
  }
  printf("],\"violations\":["); f = true;
  for (auto &v : e.viols) {
    printf("%s{\"check\":%s,\"info\":%s,\"ints\":{", f ? "" : ",", js(v.check).c_str(), js(v.info).c_str()); f = false;
    bool g = true; for (auto &x : v.ints) { printf("%s%s:%ld", g ? "" : ",", js(x.first).c_str(), x.second); g = false; }
    printf("},\"cands\":["); g = true;
    for (auto &m : v.cands) { printf("%s{", g ? "" : ","); g = false; bool h = true; for (auto &x : m) { printf("%s%s:%.17g", h ? "" : ",", js(x.first).c_str(), std::isfinite(x.second) ? x.second : 0.0); h = false; } printf("}"); }
    printf("]}");
  }
  printf("]}\n");
  fflush(stdout);
}
// the code crashed on a feasible path: report it with inputs that drive execution there
static void on_alarm(int) {
  signal(SIGALRM, SIG_DFL); alarm(30);
  Engine &e = E();
  e.zkill();
  e.incomplete = true; e.incomplete_why = "time budget";
  maybe_endless();
  print_result();
  _exit(0);
}
static void on_crash(int sg) {
  signal(SIGALRM, SIG_DFL); alarm(30);
  Engine &e = E();
  try { e.do_check(std::string("the code does not crash (signal ") + std::to_string(sg) + ")", 0); } catch (...) {}
  e.incomplete = true; e.incomplete_why = "crash";
  print_result();
  _exit(0);
}
} // namespace vf

int main(int argc, char **argv) {
  using namespace vf;
  std::string cs; Engine &e = E();
  bool list = false; bool th = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--case") cs = argv[++i];
    else if (a == "--seed") e.vf_seed = atol(argv[++i]);
    else if (a == "--thorough") th = true;
    else if (a == "--budget") e.deadline_s = atof(argv[++i]);
  }
  e.vf_thorough = th;
  if (list) { for (auto &c : cases()) if (th || c.tier == 0) printf("%s\n", c.name); return 0; }
  const Case *c = nullptr; for (auto &x : cases()) if (cs == x.name) c = &x;
  if (!c) { fprintf(stderr, "no case %s\n", cs.c_str()); return 3; }
  stack_t ss; ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_RESETHAND | SA_NODEFER;
  for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(sg, &sa, nullptr);
  sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr); alarm((unsigned)(e.deadline_s * 1.15 + 8));
  explore(*c);
  signal(SIGALRM, SIG_IGN);
  print_result();
  return 0;
}
