// Contract stubs for the libraries behind the code: OpenCV containers and undistortion, boost chi-squared and clock, Ceres interfaces.
#ifndef VF_STUBS_H
#define VF_STUBS_H
#include "vf_sym.h"
#include "vf_eigen.h"
#include <cstdio>
#include <map>
#include <functional>
#include <memory>
#include <vector>
#include <string>
typedef unsigned char uchar;
#define CV_8UC1 0
#define CV_8U 0
#define CV_8UC3 16
#define CV_32F 5
#define CV_64F 6
#define CV_32FC2 13
#define CV_VERSION_MAJOR 4
#define CV_BGR2GRAY 6
namespace cv {
template <class T> struct Point_ {
  T x, y;
  Point_() : x(0), y(0) {}
  template <class A, class B> Point_(const A &x_, const B &y_) : x((T)x_), y((T)y_) {}
  template <class U> Point_(const Point_<U> &o) : x((T)o.x), y((T)o.y) {}
  Point_ operator+(const Point_ &o) const { return Point_(x + o.x, y + o.y); }
  Point_ operator-(const Point_ &o) const { return Point_(x - o.x, y - o.y); }
  template <class U> Point_ operator*(const U &k) const { return Point_(x * k, y * k); }
  bool operator==(const Point_ &o) const { return x == o.x && y == o.y; }
};
typedef Point_<int> Point; typedef Point_<int> Point2i; typedef Point_<vf::Sym> Point2f; typedef Point_<vf::Sym> Point2d;
template <class T> inline vf::Sym norm(const Point_<T> &p) { return vf::sqrt(vf::Sym(p.x) * p.x + vf::Sym(p.y) * p.y); }
template <class T> struct Size_ { T width, height; Size_() : width(0), height(0) {} template <class A, class B> Size_(const A &w, const B &h) : width((T)w), height((T)h) {} };
typedef Size_<int> Size; typedef Size_<vf::Sym> Size2f;
template <class T> struct Rect_ { T x, y, width, height; Rect_() {} Rect_(T a, T b, T c, T d) : x(a), y(b), width(c), height(d) {} };
typedef Rect_<int> Rect;
struct Scalar { vf::Sym v[4]; Scalar() {} template <class A> Scalar(const A &a) { v[0] = vf::Sym(a); } template <class A, class B, class C> Scalar(const A &a, const B &b, const C &c) { v[0] = vf::Sym(a); v[1] = vf::Sym(b); v[2] = vf::Sym(c); } };
template <class T, int N> struct Vec { T val[N]; Vec() { for (int i = 0; i < N; i++) val[i] = T(0); } T &operator()(int i) { return val[i]; } const T &operator()(int i) const { return val[i]; } T &operator[](int i) { return val[i]; } const T &operator[](int i) const { return val[i]; } };
typedef Vec<vf::Sym, 4> Vec4d; typedef Vec<vf::Sym, 2> Vec2d; typedef Vec<vf::Sym, 2> Vec2f; typedef Vec<vf::Sym, 3> Vec3d; typedef Vec<vf::Sym, 4> Vec4f;
template <class T, int R, int C> struct Matx { T val[R * C]; Matx() { for (int i = 0; i < R * C; i++) val[i] = T(0); } T &operator()(int i, int j) { return val[i * C + j]; } const T &operator()(int i, int j) const { return val[i * C + j]; } };
typedef Matx<vf::Sym, 3, 3> Matx33d; typedef Matx<vf::Sym, 3, 3> Matx33f;
// a matrix of symbolic scalars with shared storage like cv::Mat; images are empty shells
struct MatExpr;
struct Mat {
  int rows = 0, cols = 0; int type_ = 0; int ch = 1;
  std::shared_ptr<std::vector<vf::Sym>> d; // scalars
  std::shared_ptr<std::vector<uchar>> b;   // grey images and masks
  int ox = 0, oy = 0;                      // where a region lies in its image
  Mat() {}
  Mat(int r, int c, int t) : rows(r), cols(c), type_(t) { if (t == CV_8UC1) b = std::make_shared<std::vector<uchar>>((size_t)(r > 0 && c > 0 ? r * c : 0)); else d = std::make_shared<std::vector<vf::Sym>>(r * c < 4096 ? r * c : 0); }
  Mat(int r, int c, int t, const Scalar &v) : Mat(r, c, t) { if (b) fill((int)vf::to_double(v.v[0].id)); }
  Mat(Size s, int t) : Mat(s.height, s.width, t) {}
  static Mat zeros(Size s, int t) { return Mat(s.height, s.width, t).fill(0); }
  static Mat zeros(int r, int c, int t) { return Mat(r, c, t).fill(0); }
  static Mat ones(int r, int c, int t) { return Mat(r, c, t).fill(1); }
  Mat fill(int v) { if (b) for (auto &x : *b) x = (uchar)v; else for (auto &x : *d) x = vf::Sym(v); return *this; }
  int at_(int i, int j) const { vf::code_assert(i >= 0 && j >= 0 && i < rows && j < cols, "inside the image"); return (i + oy) * (ox || oy ? stride : cols) + j + ox; }
  uchar &ref(uchar *, int i) const { return b->at(i); }
  template <class T> T &ref(T *, int i) const { return (T &)d->at(i); }
  template <class T> T &at(int i, int j) { return ref((T *)nullptr, at_(i, j)); }
  template <class T> const T &at(int i, int j) const { return ref((T *)nullptr, at_(i, j)); }
  template <class T> T &at(int i) { return ref((T *)nullptr, i); }
  template <class T> T &at(const Point_<int> &p) { return at<T>(p.y, p.x); }
  template <class T> const T &at(const Point_<int> &p) const { return at<T>(p.y, p.x); }
  int stride = 0;
  Mat reshape(int c, int = 0) const { Mat m = *this; m.ch = c; return m; }
  Mat clone() const { Mat m = *this; if (d) m.d = std::make_shared<std::vector<vf::Sym>>(*d); if (b) m.b = std::make_shared<std::vector<uchar>>(*b); return m; }
  bool empty() const { return rows == 0 || cols == 0; }
  int type() const { return type_; }
  Size size() const { return Size(cols, rows); }
  Mat operator()(const Rect &r) const { Mat m; m.rows = r.height; m.cols = r.width; m.type_ = type_; m.b = b; m.ox = ox + r.x; m.oy = oy + r.y; m.stride = stride ? stride : cols; return m; }
  void copyTo(Mat m) const { (void)m; }
  template <class... A> void setTo(A &&...) {}
  void release() { *this = Mat(); }
  Mat row(int i) const { vf::code_assert(i >= 0 && i < rows, "a row of the matrix"); Mat m(1, cols, type_); for (int j = 0; j < cols; j++) { if (m.b) m.b->at(j) = b->at(at_(i, j)); else m.d->at(j) = d->at(at_(i, j)); } return m; }
  void push_back(const Mat &o) { if (empty()) { *this = o.clone(); return; } vf::code_assert(o.cols == cols && o.type_ == type_ && !stride && !o.stride, "rows of one shape"); Mat m = clone(); if (b) m.b->insert(m.b->end(), o.b->begin(), o.b->end()); else m.d->insert(m.d->end(), o.d->begin(), o.d->end()); m.rows += o.rows; *this = m; }
};
struct KeyPoint { Point2f pt; vf::Sym size = vf::Sym(0), angle = vf::Sym(-1), response = vf::Sym(0); int octave = 0, class_id = -1; };
template <class T> using Ptr = std::shared_ptr<T>;
struct ORB { static Ptr<ORB> create() { return std::make_shared<ORB>(); } void compute(const Mat &image, std::vector<KeyPoint> &k, Mat &d); };
struct DMatch { int queryIdx = -1, trainIdx = -1; vf::Sym distance; DMatch() {} DMatch(int q, int t, const vf::Sym &d) : queryIdx(q), trainIdx(t), distance(d) {} };
struct DescriptorMatcher { template <class A> static Ptr<DescriptorMatcher> create(A &&) { return std::make_shared<DescriptorMatcher>(); } void knnMatch(const Mat &a, const Mat &b, std::vector<std::vector<DMatch>> &m, int k) const; };
struct Range { int start, end; Range(int a, int b) : start(a), end(b) {} };
struct ParallelLoopBody { virtual ~ParallelLoopBody() {} virtual void operator()(const Range &) const = 0; };
inline void parallel_for_(const Range &r, const ParallelLoopBody &b) { b(r); }
enum { FILLED = -1, LINE_AA = 16, FONT_HERSHEY_SIMPLEX = 0, FONT_HERSHEY_COMPLEX_SMALL = 5, COLOR_GRAY2RGB = 8, COLOR_BGR2GRAY = 6, IMREAD_GRAYSCALE = 0 };
template <class... A> inline void circle(A &&...) {}
template <class... A> inline void line(A &&...) {}
inline void rectangle(Mat &m, Point a, Point b, Scalar v, int thick = 1) { // filled rectangles only
  if (thick >= 0 || !m.b) return;
  for (int y = std::max(0, std::min(a.y, b.y)); y <= std::min(m.rows - 1, std::max(a.y, b.y)); y++) for (int x = std::max(0, std::min(a.x, b.x)); x <= std::min(m.cols - 1, std::max(a.x, b.x)); x++) m.at<uchar>(y, x) = (uchar)vf::to_double(v.v[0].id);
}
template <class... A> inline void rectangle(A &&...) {}
enum { INTER_NEAREST = 0, INTER_LINEAR = 1, OPTFLOW_USE_INITIAL_FLOW = 4, FM_RANSAC = 8, RANSAC = 8 };
struct TermCriteria { enum { COUNT = 1, EPS = 2 }; template <class... A> TermCriteria(A &&...) {} };
// nearest neighbour of an 8 bit image
template <class A, class B> inline void resize(const Mat &in, Mat &out, Size s, const A &, const B &, int = 1) {
  Mat r(s.height, s.width, CV_8UC1);
  for (int y = 0; y < r.rows; y++) for (int x = 0; x < r.cols; x++) r.at<uchar>(y, x) = in.at<uchar>(std::min(in.rows - 1, y * in.rows / r.rows), std::min(in.cols - 1, x * in.cols / r.cols));
  out = r;
}
inline void equalizeHist(const Mat &in, Mat &out) { out = in; }
struct CLAHE { void apply(const Mat &in, Mat &out) { out = in; } };
template <class A> inline std::shared_ptr<CLAHE> createCLAHE(const A &, Size) { return std::make_shared<CLAHE>(); }
inline int buildOpticalFlowPyramid(const Mat &in, std::vector<Mat> &out, Size, int) { out.assign(1, in); return 0; }
// what is found in images is up to the harness (hooks unset: nothing is found)
struct Hooks {
  std::function<void(Rect, std::vector<KeyPoint> &)> fast;
  std::function<void(std::vector<Point2f> &)> refine;
  std::function<void(const std::vector<Point2f> &, std::vector<Point2f> &, std::vector<uchar> &)> flow;
  std::function<void(const std::vector<Point2f> &, const std::vector<Point2f> &, double, std::vector<uchar> &)> inliers;
  // images are told apart by their first pixel, what a descriptor describes by its first byte
  std::function<void(int, Rect, std::vector<KeyPoint> &)> fast_in;
  std::function<uchar(int, const KeyPoint &)> describe;
  std::function<vf::Sym(uchar, uchar)> distance;
  std::function<void(int, Size, std::vector<int> &, std::vector<std::vector<Point2f>> &, std::vector<std::vector<Point2f>> &)> tags;
};
inline Hooks &hooks() { static Hooks h; return h; }
inline int vf_image(const Mat &m) { return m.b && !m.b->empty() ? m.b->at(0) : 0; }
inline void FAST(const Mat &m, std::vector<KeyPoint> &k, int, bool = true) { k.clear(); if (hooks().fast) hooks().fast(Rect(m.ox, m.oy, m.cols, m.rows), k); if (hooks().fast_in) hooks().fast_in(vf_image(m), Rect(m.ox, m.oy, m.cols, m.rows), k); }
inline void ORB::compute(const Mat &image, std::vector<KeyPoint> &k, Mat &d) { d = Mat((int)k.size(), 32, CV_8UC1); for (size_t i = 0; i < k.size(); i++) d.at<uchar>((int)i, 0) = hooks().describe ? hooks().describe(vf_image(image), k[i]) : 0; }
inline void DescriptorMatcher::knnMatch(const Mat &a, const Mat &b, std::vector<std::vector<DMatch>> &m, int k) const {
  m.assign(a.rows, {});
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < b.rows; j++) {
    vf::Sym d = hooks().distance ? hooks().distance(a.at<uchar>(i, 0), b.at<uchar>(j, 0)) : vf::Sym(0); auto at = m[i].end();
    while (at != m[i].begin() && d < (at - 1)->distance) --at;
    m[i].insert(at, DMatch(i, j, d)); if ((int)m[i].size() > k) m[i].pop_back();
  }
}
namespace aruco {
struct Dictionary {}; struct DetectorParameters { static Ptr<DetectorParameters> create() { return std::make_shared<DetectorParameters>(); } };
enum { DICT_6X6_1000 = 11 };
inline Ptr<Dictionary> getPredefinedDictionary(int) { return std::make_shared<Dictionary>(); }
inline void detectMarkers(const Mat &m, const Ptr<Dictionary> &, std::vector<std::vector<Point2f>> &corners, std::vector<int> &ids, const Ptr<DetectorParameters> &, std::vector<std::vector<Point2f>> &rejects) { ids.clear(); corners.clear(); rejects.clear(); if (hooks().tags) hooks().tags(vf_image(m), m.size(), ids, corners, rejects); }
template <class... A> inline void drawDetectedMarkers(A &&...) {}
} // namespace aruco
template <class... A> inline void cornerSubPix(const Mat &, std::vector<Point2f> &p, A &&...) { if (hooks().refine) hooks().refine(p); }
template <class... A> inline void calcOpticalFlowPyrLK(const std::vector<Mat> &, const std::vector<Mat> &, const std::vector<Point2f> &p, std::vector<Point2f> &q, std::vector<uchar> &ok, std::vector<vf::Sym> &err, A &&...) {
  ok.assign(p.size(), 0); err.assign(p.size(), vf::Sym(0)); q.resize(p.size()); if (hooks().flow) hooks().flow(p, q, ok);
}
template <class A, class B> inline Mat findFundamentalMat(const std::vector<Point2f> &p, const std::vector<Point2f> &q, int, const A &thr, const B &, std::vector<uchar> &in) { in.assign(p.size(), 0); if (hooks().inliers) hooks().inliers(p, q, vf::to_double(vf::Sym(thr).id), in); return Mat(); }
inline Mat noArray() { return Mat(); }
template <class... A> inline void putText(A &&...) {}
template <class... A> inline void addWeighted(A &&...) {}
template <class... A> inline void pyrDown(const Mat &a, Mat &b, A &&...) { Mat r(a.rows / 2, a.cols / 2, CV_8UC1); if (a.b) for (int y = 0; y < r.rows; y++) for (int x = 0; x < r.cols; x++) r.at<uchar>(y, x) = a.at<uchar>(2 * y, 2 * x); b = r; }
inline void cvtColor(const Mat &a, Mat &b, int) { b = a; }
// binary grey maps only
inline Mat imread(const std::string &path, int = 1) {
  FILE *f = fopen(path.c_str(), "rb"); int w = 0, h = 0, top = 0; Mat m; if (!f) return m;
  if (fscanf(f, "P5 %d %d %d", &w, &h, &top) == 3 && top == 255 && w > 0 && h > 0 && fgetc(f) != EOF) { m = Mat(h, w, CV_8UC1); if (fread(m.b->data(), 1, m.b->size(), f) != m.b->size()) m = Mat(); }
  fclose(f); return m;
}
inline void setNumThreads(int) {}
inline void setRNGSeed(int) {}
// contract of OpenCV's undistortion: the returned normalised point is one whose distortion by (K, D) is the input
void undistort_contract(bool fisheye, Mat &out, const Matx33d &K, const Vec4d &D);
inline void undistortPoints(const Mat &in, Mat &out, const Matx33d &K, const Vec4d &D) { Mat r = in.clone(); undistort_contract(false, r, K, D); out = r; }
namespace fisheye { inline void undistortPoints(const Mat &in, Mat &out, const Matx33d &K, const Vec4d &D) { Mat r = in.clone(); undistort_contract(true, r, K, D); out = r; } }
// the part of OpenCV's YAML that configuration files use: maps, lists, words and numbers (a number may stand for a symbol)
class FileNode {
public:
  struct Data { int kind = 0; /* 0 none, 1 int, 2 real, 3 text, 4 list, 5 map */ std::string name, text; std::vector<std::shared_ptr<Data>> items; };
  std::shared_ptr<Data> d;
  FileNode() : d(std::make_shared<Data>()) {}
  FileNode(std::shared_ptr<Data> x) : d(x) {}
  struct iterator { const Data *d; size_t i; FileNode operator*() const { return FileNode(d->items.at(i)); } iterator &operator++() { ++i; return *this; } bool operator!=(const iterator &o) const { return i != o.i; } bool operator==(const iterator &o) const { return i == o.i; } };
  iterator begin() const { return {d.get(), 0}; }
  iterator end() const { return {d.get(), d->items.size()}; }
  std::string name() const { return d->name; }
  FileNode operator[](const std::string &n) const { for (auto &x : d->items) if (x->name == n) return FileNode(x); return FileNode(); }
  FileNode operator[](const char *n) const { return (*this)[std::string(n)]; }
  FileNode operator[](int i) const { return i >= 0 && i < (int)d->items.size() ? FileNode(d->items[i]) : FileNode(); }
  size_t size() const { return d->kind == 0 ? 0 : d->kind < 4 ? 1 : d->items.size(); }
  bool empty() const { return d->kind == 0; }
  bool isNone() const { return d->kind == 0; }
  bool isInt() const { return d->kind == 1; }
  bool isReal() const { return d->kind == 2; }
  bool isString() const { return d->kind == 3; }
  bool isSeq() const { return d->kind == 4; }
  bool isMap() const { return d->kind == 5; }
  operator int() const { return d->kind == 0 ? 0 : d->kind == 1 ? atoi(d->text.c_str()) : d->kind == 2 ? (int)vf::to_int(vf::parse(d->text.c_str()).id, 3) : 0x7fffffff; }
  operator vf::Sym() const { return d->kind == 0 ? vf::Sym(0) : d->kind <= 2 ? vf::parse(d->text.c_str()) : vf::Sym(1.7976931348623157e308); }
  operator std::string() const { return d->kind == 3 ? d->text : std::string(); }
};
inline void operator>>(const FileNode &n, int &v) { v = n; }
inline void operator>>(const FileNode &n, vf::Sym &v) { v = (vf::Sym)n; }
inline void operator>>(const FileNode &n, bool &v) { v = (int)n != 0; }
inline void operator>>(const FileNode &n, std::string &v) { v = (std::string)n; }
template <class T> void operator>>(const FileNode &n, std::vector<T> &v) { v.clear(); if (n.d->kind && n.d->kind < 4) { T t; n >> t; v.push_back(t); return; } for (const auto &x : n) { T t; x >> t; v.push_back(t); } }
class FileStorage {
  struct Line { int indent; std::string s; };
  std::vector<Line> lines; FileNode top; bool open = false;
  static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
  static std::shared_ptr<FileNode::Data> value(const std::string &t) {
    auto d = std::make_shared<FileNode::Data>(); std::string s = trim(t);
    if (s.empty() || s[0] == '#') return d;
    if (s[0] == '[') { d->kind = 4; size_t e = s.find(']'); std::string in = s.substr(1, e == std::string::npos ? e : e - 1), w; std::stringstream ss(in); while (std::getline(ss, w, ',')) d->items.push_back(value(w)); return d; }
    if (s[0] == '"' || s[0] == '\'') { d->kind = 3; d->text = s.substr(1, s.find(s[0], 1) - 1); return d; }
    if (isdigit(s[0]) || ((s[0] == '-' || s[0] == '+' || s[0] == '.') && s.size() > 1 && (isdigit(s[1]) || s[1] == '.'))) { char *e; double x = (strtod)(s.c_str(), &e); (void)x; d->text = s.substr(0, e - s.c_str()); d->kind = d->text.find_first_of(".eE") == std::string::npos ? 1 : 2; return d; }
    d->kind = 3; d->text = s; return d; // a plain word runs to the end of its line, remarks included
  }
  std::shared_ptr<FileNode::Data> block(size_t &i, int indent) {
    auto d = std::make_shared<FileNode::Data>();
    while (i < lines.size() && lines[i].indent == indent) {
      std::string s = lines[i].s;
      if (s[0] == '-' && s.size() > 1 && s[1] == ' ') { d->kind = 4; d->items.push_back(value(s.substr(1))); i++; continue; }
      d->kind = 5; size_t c = s.find(':'); std::string key = trim(s.substr(0, c)); auto v = value(s.substr(c + 1)); i++;
      if (v->kind == 0 && i < lines.size() && lines[i].indent > indent) v = block(i, lines[i].indent);
      v->name = key; d->items.push_back(v);
    }
    return d;
  }
public:
  enum Mode { READ = 0, WRITE = 1 };
  FileStorage() {}
  FileStorage(const std::string &path, int) {
    std::ifstream f(path); if (!f.is_open()) return; open = true; std::string s; bool first = true;
    while (std::getline(f, s)) { if (first) { first = false; continue; } std::string t = trim(s); if (t.empty() || t[0] == '#' || t == "---") continue; lines.push_back({(int)s.find_first_not_of(" "), t}); }
    size_t i = 0; if (!lines.empty()) top = FileNode(block(i, lines[0].indent)); if (i < lines.size()) throw std::runtime_error("yaml");
  }
  bool isOpened() const { return open; }
  FileNode root() const { return top; }
  FileNode operator[](const std::string &n) const { return top[n]; }
  void release() { open = false; }
};
} // namespace cv

namespace boost { namespace math {
struct chi_squared { double dof; explicit chi_squared(const vf::Sym &d) : dof(vf::to_double(d.id)) {} };
inline vf::Sym quantile(const chi_squared &c, const vf::Sym &p) { return vf::Sym(vf::chi2_quantile(c.dof, vf::to_double(p.id))); }
} // namespace math
namespace posix_time {
struct time_duration { long us; long total_microseconds() const { return us; } long total_milliseconds() const { return us / 1000; } };
struct ptime { long us = 0; time_duration operator-(const ptime &o) const { return {us - o.us}; } };
struct microsec_clock { static ptime local_time() { return ptime(); } static ptime universal_time() { return ptime(); } };
}} // namespace boost::posix_time

#define CERES_VERSION_MAJOR 2
#define CERES_VERSION_MINOR 2
namespace ceres {
struct CostFunction {
  virtual ~CostFunction() {}
  virtual bool Evaluate(vf::Sym const *const *parameters, vf::Sym *residuals, vf::Sym **jacobians) const = 0;
  int num_residuals() const { return nr; }
  const std::vector<int> &parameter_block_sizes() const { return sizes; }
protected:
  std::vector<int> *mutable_parameter_block_sizes() { return &sizes; }
  void set_num_residuals(int n) { nr = n; }
  std::vector<int> sizes; int nr = 0;
};
struct LocalParameterization {
  virtual ~LocalParameterization() {}
  virtual bool Plus(const vf::Sym *x, const vf::Sym *delta, vf::Sym *x_plus_delta) const = 0;
  virtual bool ComputeJacobian(const vf::Sym *x, vf::Sym *jacobian) const = 0;
  virtual int GlobalSize() const = 0;
  virtual int LocalSize() const = 0;
};
struct Manifold {
  virtual ~Manifold() {}
  virtual int AmbientSize() const = 0;
  virtual int TangentSize() const = 0;
  virtual bool Plus(const vf::Sym *x, const vf::Sym *delta, vf::Sym *x_plus_delta) const = 0;
  virtual bool PlusJacobian(const vf::Sym *x, vf::Sym *jacobian) const = 0;
  virtual bool Minus(const vf::Sym *y, const vf::Sym *x, vf::Sym *y_minus_x) const = 0;
  virtual bool MinusJacobian(const vf::Sym *x, vf::Sym *jacobian) const = 0;
};
} // namespace ceres
#endif
