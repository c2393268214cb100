// image tracking with OpenCV's image functions replaced by what the harness says they find
#ifndef TRACKER_COMMON_H
#define TRACKER_COMMON_H
#include "vf.h"
#include "cam/CamEqui.h"
#include "cam/CamRadtan.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "utils/sensor_data.h"
#include <atomic>
#include <functional>
#include <map>
#include <set>
#ifndef VF_SYMBOLIC
#include <opencv2/opencv.hpp>
#include <opencv2/aruco.hpp>
namespace cv { // these stand before OpenCV's own
struct Hooks {
  std::function<void(Rect, std::vector<KeyPoint> &)> fast;
  std::function<void(std::vector<Point2f> &)> refine;
  std::function<void(const std::vector<Point2f> &, std::vector<Point2f> &, std::vector<uchar> &)> flow;
  std::function<void(const std::vector<Point2f> &, const std::vector<Point2f> &, double, std::vector<uchar> &)> inliers;
  std::function<void(int, Rect, std::vector<KeyPoint> &)> fast_in;
  std::function<uchar(int, const KeyPoint &)> describe;
  std::function<double(uchar, uchar)> distance;
  std::function<void(int, Size, std::vector<int> &, std::vector<std::vector<Point2f>> &, std::vector<std::vector<Point2f>> &)> tags;
};
inline Hooks &hooks() { static Hooks h; return h; }
static std::vector<Point2f> vf_points(InputArray a) { Mat m = a.getMat(); std::vector<Point2f> r; int n = m.checkVector(2, CV_32F); for (int i = 0; i < n; i++) r.push_back(m.at<Point2f>(i)); return r; }
static void vf_bytes(OutputArray o, const std::vector<uchar> &v) { o.create((int)v.size(), 1, CV_8U, -1, true); Mat m = o.getMat(); for (size_t i = 0; i < v.size(); i++) m.at<uchar>((int)i) = v[i]; }
void FAST(InputArray image, std::vector<KeyPoint> &k, int, bool) { Mat m = image.getMat(); Size whole; Point at; m.locateROI(whole, at); k.clear(); Rect r(at.x, at.y, m.cols, m.rows); if (hooks().fast) hooks().fast(r, k); if (hooks().fast_in) hooks().fast_in(m.datastart[0], r, k); }
void cornerSubPix(InputArray, InputOutputArray corners, Size, Size, TermCriteria) { auto p = vf_points(corners); if (hooks().refine) hooks().refine(p); Mat m = corners.getMat(); for (size_t i = 0; i < p.size(); i++) m.at<Point2f>((int)i) = p[i]; }
int buildOpticalFlowPyramid(InputArray img, OutputArrayOfArrays pyramid, Size, int, bool, int, int, bool) { pyramid.create(1, 1, 0, -1, true); pyramid.getMatRef(0) = img.getMat(); return 0; }
void calcOpticalFlowPyrLK(InputArray, InputArray, InputArray a, InputOutputArray b, OutputArray status, OutputArray, Size, int, TermCriteria, int, double) {
  auto p = vf_points(a), q = vf_points(b); std::vector<uchar> ok(p.size(), 0); q.resize(p.size()); if (hooks().flow) hooks().flow(p, q, ok);
  Mat m = b.getMat(); for (size_t i = 0; i < q.size(); i++) m.at<Point2f>((int)i) = q[i];
  vf_bytes(status, ok);
}
Mat findFundamentalMat(InputArray a, InputArray b, int, double thr, double, OutputArray mask) { auto p = vf_points(a), q = vf_points(b); std::vector<uchar> in(p.size(), 0); if (hooks().inliers) hooks().inliers(p, q, thr, in); vf_bytes(mask, in); return Mat(); }
void Feature2D::compute(InputArray image, std::vector<KeyPoint> &k, OutputArray out) { Mat m = image.getMat(); Mat d = Mat::zeros((int)k.size(), 32, CV_8UC1); for (size_t i = 0; i < k.size(); i++) d.at<uchar>((int)i, 0) = hooks().describe ? hooks().describe(m.datastart[0], k[i]) : 0; d.copyTo(out); }
void DescriptorMatcher::knnMatch(InputArray qa, InputArray qb, std::vector<std::vector<DMatch>> &m, int k, InputArray, bool) const {
  Mat a = qa.getMat(), b = qb.getMat(); m.assign(a.rows, {});
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < b.rows; j++) {
    float d = hooks().distance ? (float)hooks().distance(a.at<uchar>(i, 0), b.at<uchar>(j, 0)) : 0; auto at = m[i].end();
    while (at != m[i].begin() && d < (at - 1)->distance) --at;
    m[i].insert(at, DMatch(i, j, d)); if ((int)m[i].size() > k) m[i].pop_back();
  }
}
namespace aruco {
static void vf_corners(OutputArrayOfArrays o, const std::vector<std::vector<Point2f>> &v) { o.create((int)v.size(), 1, CV_32FC2); for (size_t i = 0; i < v.size(); i++) { o.create((int)v[i].size(), 1, CV_32FC2, (int)i, true); Mat m = o.getMat((int)i); for (size_t j = 0; j < v[i].size(); j++) m.at<Point2f>((int)j) = v[i][j]; } }
void detectMarkers(InputArray image, const Ptr<Dictionary> &, OutputArrayOfArrays corners, OutputArray ids, const Ptr<DetectorParameters> &, OutputArrayOfArrays rejects) {
  Mat m = image.getMat(); std::vector<int> i; std::vector<std::vector<Point2f>> c, r; if (hooks().tags) hooks().tags(m.datastart[0], m.size(), i, c, r);
  vf_corners(corners, c); vf_corners(rejects, r); Mat(i).copyTo(ids);
}
} // namespace aruco
} // namespace cv
#endif
using namespace ov_core;
namespace h {
// the same number, decided without a case distinction
inline bool same(const double &a, const double &b) {
#ifdef VF_SYMBOLIC
  return vf::is_zero(a - b);
#else
  return std::abs(a - b) < 1e-3;
#endif
}
inline cv::Mat grey(int w, int h) { return cv::Mat::zeros(cv::Size(w, h), CV_8UC1); }
inline void paint(cv::Mat &m, int x0, int y0, int x1, int y1, int v) { for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) m.at<uint8_t>(y, x) = (uint8_t)v; }
// where a point of the last image is in the next one, and whether it was followed and agreed with the motion
struct Flow { double x0, y0, x1, y1; bool ok, inlier; };
struct World {
  std::vector<Flow> flows; bool unknown_stays = true; std::vector<std::shared_ptr<CamBase>> cams;
  std::atomic<int> strange{0}, not_normalised{0};
  int find(const double &x, const double &y) { for (size_t i = 0; i < flows.size(); i++) if (same(flows[i].x0, x) && same(flows[i].y0, y)) return (int)i; return -1; }
  void install() {
    cv::hooks().flow = [this](const std::vector<cv::Point2f> &p, std::vector<cv::Point2f> &q, std::vector<uchar> &ok) {
      for (size_t i = 0; i < p.size(); i++) {
        int k = find(p[i].x, p[i].y);
        if (k < 0) { if (!unknown_stays) strange++; q[i] = p[i]; ok[i] = 1; continue; }
        q[i].x = flows[k].x1; q[i].y = flows[k].y1; ok[i] = flows[k].ok ? 1 : 0;
      }
    };
    cv::hooks().inliers = [this](const std::vector<cv::Point2f> &p, const std::vector<cv::Point2f> &q, double, std::vector<uchar> &in) {
      for (size_t i = 0; i < p.size(); i++) {
        int k = -1;
        for (size_t f = 0; f < flows.size() && k < 0; f++) for (auto &c : cams) { auto v = c->get_value(); if (same(p[i].x * v(0) + v(2), flows[f].x0) && same(p[i].y * v(1) + v(3), flows[f].y0) && same(q[i].x * v(0) + v(2), flows[f].x1) && same(q[i].y * v(1) + v(3), flows[f].y1)) { k = (int)f; break; } }
        if (k < 0) { if (!unknown_stays) not_normalised++; in[i] = 1; continue; }
        in[i] = flows[k].inlier ? 1 : 0;
      }
    };
  }
  ~World() { cv::hooks() = cv::Hooks(); }
};
inline std::shared_ptr<CamBase> pinhole(int w, int h, int k) {
  auto c = std::make_shared<CamRadtan>(w, h); Eigen::MatrixXd v(8, 1); v << 50 + 10 * k, 40, 30, 24, 0, 0, 0, 0; c->set_value(v); return c;
}
inline cv::KeyPoint key(const double &x, const double &y, int response = 1) { cv::KeyPoint k; k.pt.x = x; k.pt.y = y; k.response = response; return k; }
} // namespace h
#endif
