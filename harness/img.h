// Rendering and image helpers for the detector and finder cases. Nothing here calls the code under test.
#pragma once
#include "gen.h"
#include <cstring>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>

namespace vh
{
inline uint64_t hashImg(const cv::Mat& m, uint64_t h = 7)
{
  for (int y = 0; y < m.rows; ++y) h = hashBytes(m.ptr(y), static_cast<std::size_t>(m.cols) * m.elemSize(), h);
  return h;
}
inline bool sameImg(const cv::Mat& a, const cv::Mat& b)
{
  if (a.size() != b.size() || a.type() != b.type()) return false;
  for (int y = 0; y < a.rows; ++y)
    if (std::memcmp(a.ptr(y), b.ptr(y), static_cast<std::size_t>(a.cols) * a.elemSize())) return false;
  return true;
}
inline cv::Mat toBgr(const cv::Mat& gray)
{
  cv::Mat out(gray.size(), CV_8UC3);
  for (int y = 0; y < gray.rows; ++y)
    for (int x = 0; x < gray.cols; ++x)
    {
      uchar v = gray.at<uchar>(y, x);
      out.at<cv::Vec3b>(y, x) = cv::Vec3b(v, v, v);
    }
  return out;
}
// Blends `level` into the image wherever inside(x, y) holds, with ss x ss samples per pixel (pixel centres at integer coordinates)
template <typename F>
void paint(cv::Mat& img, double x0, double y0, double x1, double y1, double level, int ss, F inside)
{
  for (int y = std::max(0, int(std::floor(y0)) - 1); y <= std::min(img.rows - 1, int(std::ceil(y1)) + 1); ++y)
    for (int x = std::max(0, int(std::floor(x0)) - 1); x <= std::min(img.cols - 1, int(std::ceil(x1)) + 1); ++x)
    {
      int n = 0;
      for (int i = 0; i < ss; ++i)
        for (int j = 0; j < ss; ++j)
          if (inside(x + (j + 0.5) / ss - 0.5, y + (i + 0.5) / ss - 0.5)) ++n;
      const double f = double(n) / (ss * ss);
      uchar& v = img.at<uchar>(y, x);
      v = static_cast<uchar>(std::lround(v + f * (level - v)));
    }
}
inline void paintEllipse(cv::Mat& img, double cx, double cy, double a, double b, double ang, double level, int ss)
{
  const double R = std::max(a, b), c = std::cos(ang), s = std::sin(ang);
  paint(img, cx - R, cy - R, cx + R, cy + R, level, ss, [=](double x, double y) {
    const double u = ((x - cx) * c + (y - cy) * s) / a, v = (-(x - cx) * s + (y - cy) * c) / b;
    return u * u + v * v <= 1;
  });
}
inline cv::Mat noiseImage(Rng& r, int w, int h, int type = CV_8UC1)
{
  cv::Mat m(h, w, type);
  const int kind = r.range(0, 4);
  const int n = static_cast<int>(m.elemSize());
  const int lo = r.range(0, 200), hi = r.range(lo, 255), block = r.range(1, 9);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
      for (int k = 0; k < n; ++k)
      {
        uchar v = 0;
        switch (kind)
        {
          case 0: v = uchar(lo); break;
          case 1: v = uchar(r.range(0, 255)); break;
          case 2: v = r.chance(0.5) ? 255 : 0; break;
          case 3: v = uchar((x / block + y / block) % 2 ? hi : lo); break;
          default: v = uchar((x * 255) / std::max(1, w)); break;
        }
        m.ptr(y)[x * n + k] = v;
      }
  return m;
}
}  // namespace vh
