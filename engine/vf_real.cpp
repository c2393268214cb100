#include "vf_real.h"
#include <csignal>
#include <boost/math/distributions/chi_squared.hpp>
namespace vf {
R &RR() { static R r; return r; }
double TOL = 1e-6;
double chi2_quantile(double k, double p) { return boost::math::quantile(boost::math::chi_squared(k), p); }
static std::vector<std::pair<std::string, void (*)()>> &cs() { static std::vector<std::pair<std::string, void (*)()>> c; return c; }
Register::Register(const char *n, void (*fn)(), int) { cs().push_back({n, fn}); }
}
static void crash(int s) { printf("REPLAY FAIL crash: signal %d\n", s); fflush(stdout); _exit(1); }
// usage: replay CASE INPUTFILE   (lines: d name value / i name value)
int main(int argc, char **argv) {
  using namespace vf;
  if (argc < 3) return 3;
  signal(SIGSEGV, crash); signal(SIGABRT, crash); signal(SIGFPE, crash);
  RR().verbose = argc > 3;
  std::ifstream f(argv[2]); std::string l;
  while (std::getline(f, l)) { std::istringstream s(l); char k; std::string n; s >> k; std::getline(s >> std::ws, n, '\t'); if (k == 'd') { double v; s >> v; RR().in[n] = v; } else if (k == 'i') { long v; s >> v; RR().ints[n] = v; } }
  for (auto &c : cs()) if (c.first == argv[1]) {
    std::set_terminate([] { printf("REPLAY FAIL terminate\n"); fflush(stdout); _exit(1); });
    // a std::exit from the code under test is reported too
    static bool done = false;
    atexit([] { if (!done) { printf("REPLAY FAIL the code terminated the process\n"); fflush(stdout); _exit(1); } });
    try { c.second(); } catch (PathAbort &) { done = true; printf("REPLAY ASSUME\n"); return 2; }
    catch (std::exception &e) { done = true; printf("REPLAY FAIL exception: %s\n", e.what()); return 1; }
    done = true;
    for (auto &x : RR().fails) printf("REPLAY FAIL %s\t%g\n", x.first.c_str(), x.second);
    return RR().fails.empty() ? 0 : 1;
  }
  printf("REPLAY NOCASE\n");
  return 3;
}
