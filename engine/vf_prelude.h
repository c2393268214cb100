// Every system header the lifted sources use, seen before lifting-specific names exist; stubs for OpenCV/Boost/Ceres.
#ifndef VF_PRELUDE_H
#define VF_PRELUDE_H
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "vf_sym.h"
#include "vf_eigen.h"
#include "vf_stubs.h"




namespace std { struct vf_thread { template <class F> explicit vf_thread(F f) { f(); } vf_thread() {} void join() {} void detach() {} bool joinable() const { return false; } }; }
namespace std { inline vf::Sym vf_atof(const char *c) { return vf::parse(c); } inline vf::Sym vf_stod(const std::string &c, size_t * = nullptr) { return vf::parse(c.c_str()); } inline vf::Sym vf_strtod(const char *c, char **) { return vf::parse(c); } }
using std::vf_atof; using std::vf_stod; using std::vf_strtod;
#define atof vf_atof
#define stod vf_stod
#define strtod vf_strtod
#define VF_ASSERT(...) vf::code_assert(static_cast<bool>(__VA_ARGS__), #__VA_ARGS__)

#endif
