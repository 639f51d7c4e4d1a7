// C20: the circle grid finder assigns every dot to its true target position
#include "img.h"
#include <dlfcn.h>
#include <opencv2/calib3d.hpp>
#include <rct_image_tools/modified_circle_grid_finder.h>
using namespace vh;
using namespace rct_image_tools;

// ---- monitor on the grid search of OpenCV: watches what the finder was given, and can report the same grid in another order ----
namespace
{
enum class Order { asFound, shuffled, transposed };
Order g_order = Order::asFound;
int g_sym = 0;          // bit 0: columns reversed, bit 1: rows reversed
int g_calls = 0, g_found = 0;
bool g_lastFlipped = false;
using FindGrid = bool (*)(cv::InputArray, cv::Size, cv::OutputArray, int, const cv::Ptr<cv::FeatureDetector>&);
}  // namespace
namespace cv
{
bool findCirclesGrid(InputArray image, Size size, OutputArray centers, int flags, const Ptr<FeatureDetector>& detector)
{
  static FindGrid real = reinterpret_cast<FindGrid>(dlsym(RTLD_NEXT, "_ZN2cv15findCirclesGridERKNS_11_InputArrayENS_5Size_IiEERKNS_12_OutputArrayEiRKNS_3PtrINS_9Feature2DEEE"));
  if (!real) { std::fprintf(stderr, "no findCirclesGrid\n"); std::abort(); }
  ++g_calls;
  if (g_order == Order::transposed && g_calls == 1)
  {
    std::vector<Point2d> none;
    Mat(none).copyTo(centers);
    return false;
  }
  const Size ask = g_order == Order::transposed ? Size(size.height, size.width) : size;
  std::vector<Point2f> f;
  const bool ok = real(image, ask, f, flags, detector);
  std::vector<Point2d> out(f.begin(), f.end());
  if (ok && g_order != Order::asFound)
  {
    for (int i = 0; i < size.height; ++i)
      for (int j = 0; j < size.width; ++j)
      {
        int r = g_sym & 2 ? size.height - 1 - i : i, c = g_sym & 1 ? size.width - 1 - j : j;
        out[std::size_t(i * size.width + j)] = g_order == Order::transposed ? f[std::size_t(c * ask.width + r)] : f[std::size_t(r * ask.width + c)];
      }
  }
  g_found += ok;
  g_lastFlipped = g_calls == 2;
  Mat(out).copyTo(centers);
  return ok;
}
}  // namespace cv

struct Board
{
  int rows, cols;
  double dot, big;   // radii, in units of the spacing
  bool spots;
  std::vector<V2> at;   // row by row from the top, large dot at the lower left
  std::vector<bool> shown;
};
static Board makeBoard(Rng& r)
{
  Board b;
  b.rows = r.range(3, 9);
  b.cols = r.chance(0.35) ? b.rows : r.range(3, 9);
  b.dot = r.chance(0.5) ? 0.2 : r.uni(0.16, 0.24);
  b.big = b.dot * (r.chance(0.6) ? 2 : r.uni(1.6, 2.05));
  b.spots = r.chance(0.2);
  for (int i = 0; i < b.rows; ++i)
    for (int j = 0; j < b.cols; ++j) b.at.push_back(V2(j, b.rows - 1 - i));
  b.shown.assign(b.at.size(), true);
  return b;
}
static double radius(const Board& b, std::size_t k) { return int(k) == (b.rows - 1) * b.cols ? b.big : b.dot; }

// A view of the board through a pinhole camera, in units of the spacing
struct View
{
  Eigen::Matrix3d H, Hi;
  double tilt = 0, roll = 0, px = 0;   // px: pixels per spacing at the board's middle
  int w = 0, h = 0;
  V2 to(const V2& p) const
  {
    V3 q = H * V3(p.x(), p.y(), 1);
    return q.head<2>() / q.z();
  }
  // centre of the image of a circle
  V2 centre(const V2& p, double R) const
  {
    Eigen::Matrix3d C;
    C << 1, 0, -p.x(), 0, 1, -p.y(), -p.x(), -p.y(), p.squaredNorm() - R * R;
    Eigen::Matrix3d D = Hi.transpose() * C * Hi;
    return -D.topLeftCorner<2, 2>().inverse() * D.topRightCorner<2, 1>();
  }
  // pixel extent of a circle's image: smallest and largest distance of its outline from its centre
  void extent(const V2& p, double R, double& lo, double& hi) const
  {
    V2 c = centre(p, R);
    lo = 1e9, hi = 0;
    for (int k = 0; k < 48; ++k)
    {
      double a = k * M_PI / 24, d = (to(p + R * V2(std::cos(a), std::sin(a))) - c).norm();
      lo = std::min(lo, d);
      hi = std::max(hi, d);
    }
  }
};
static View makeView(Rng& r, const Board& b, double tiltMax, double pxLo, double pxHi)
{
  View v;
  v.tilt = r.uni(0, tiltMax);
  v.roll = r.uni(-M_PI, M_PI);
  if (r.chance(0.25)) v.roll = M_PI / 2 * r.range(-2, 2) + r.uni(-0.02, 0.02);
  const double az = r.uni(-M_PI, M_PI);
  v.px = r.uni(pxLo, pxHi);
  const double f = r.uni(500, 1200), dist = f / v.px;
  Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * v.tilt) * rot(V3(0, 0, v.roll)) * rot(V3(M_PI, 0, 0));
  V3 mid((b.cols - 1) / 2.0, (b.rows - 1) / 2.0, 0);
  V3 t = V3(0, 0, dist) - R * mid;
  Eigen::Matrix3d P;
  P << R.col(0), R.col(1), t;
  Eigen::Matrix3d K;
  K << f, 0, 0, 0, f * r.uni(0.97, 1.03), 0, 0, 0, 1;
  v.H = K * P;
  v.Hi = v.H.inverse();
  // the image is as large as the board with a margin
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (std::size_t k = 0; k < b.at.size(); ++k)
    for (int a = 0; a < 16; ++a)
    {
      V2 p = v.to(b.at[k] + radius(b, k) * V2(std::cos(a * M_PI / 8), std::sin(a * M_PI / 8)));
      x0 = std::min(x0, p.x()), x1 = std::max(x1, p.x()), y0 = std::min(y0, p.y()), y1 = std::max(y1, p.y());
    }
  const double m0 = r.uni(12, 50), m1 = r.uni(12, 50);
  v.w = int(x1 - x0 + m0 + r.uni(12, 60));
  v.h = int(y1 - y0 + m1 + r.uni(12, 60));
  Eigen::Matrix3d S = Eigen::Matrix3d::Identity();
  S(0, 2) = m0 - x0;
  S(1, 2) = m1 - y0;
  v.H = S * v.H;
  v.Hi = v.H.inverse();
  return v;
}
static void paintDot(cv::Mat& img, const View& v, const V2& p, double R, double level, int ss)
{
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (int a = 0; a < 32; ++a)
  {
    V2 q = v.to(p + R * V2(std::cos(a * M_PI / 16), std::sin(a * M_PI / 16)));
    x0 = std::min(x0, q.x()), x1 = std::max(x1, q.x()), y0 = std::min(y0, q.y()), y1 = std::max(y1, q.y());
  }
  const Eigen::Matrix3d& I = v.Hi;
  paint(img, x0, y0, x1, y1, level, ss, [=](double x, double y) {
    V3 q = I * V3(x, y, 1);
    return (q.head<2>() / q.z() - p).squaredNorm() <= R * R;
  });
}
struct Shot
{
  cv::Mat img;
  int bg, fg;
};
static Shot render(Rng& r, const Board& b, const View& v, bool darkDots)
{
  Shot s;
  s.bg = darkDots ? r.range(200, 255) : r.range(0, 55);
  s.fg = darkDots ? r.range(0, 60) : r.range(190, 255);
  s.img = cv::Mat(v.h, v.w, CV_8UC1, cv::Scalar(s.bg));
  const int ss = r.chance(0.2) ? 2 : 5;
  for (std::size_t k = 0; k < b.at.size(); ++k)
    if (b.shown[k])
    {
      paintDot(s.img, v, b.at[k], radius(b, k), s.fg, ss);
      if (b.spots) paintDot(s.img, v, b.at[k], 0.06 * b.dot, s.bg, ss);
    }
  return s;
}
static CircleDetectorParams params(bool darkDots)
{
  CircleDetectorParams p;
  p.circleColor = darkDots ? 0 : 255;
  return p;
}
static std::string show(const Board& b, const View& v)
{
  return cat(b.rows, "x", b.cols, " dots ", b.dot, "/", b.big, b.spots ? " with spots" : "", ", tilt ", v.tilt * 180 / M_PI, " deg, roll ", v.roll * 180 / M_PI, " deg, ", v.px,
             " px/spacing in ", v.w, "x", v.h);
}
static void start(Order o, int sym = 0)
{
  g_order = o;
  g_sym = sym;
  g_calls = g_found = 0;
}

// 1: found and right, 0: refused; -1: wrong
static int judge(Case& c, const ModifiedCircleGridTargetFinder& finder, const cv::Mat& img, const Board& b, const View& v, const std::string& d)
{
  TargetFeatures f;
  const cv::Mat before = img.clone();
  try { f = finder.findTargetFeatures(img); }
  catch (const std::exception& e)
  {
    c.count("views refused");
    c.check(sameImg(before, img), "input-modified", d);
    return 0;
  }
  c.check(sameImg(before, img), "input-modified", d);
  c.count("views found");
  if (!c.check(f.size() == b.at.size(), "feature-count", cat(d, ": ", f.size(), " features"))) return -1;
  bool ok = true;
  for (std::size_t k = 0; k < b.at.size() && ok; ++k)
  {
    auto it = f.find(unsigned(k));
    ok = c.check(it != f.end() && it->second.size() == 1, "feature-keys", cat(d, ": dot ", k));
    if (!ok) break;
    V2 want = v.centre(b.at[k], radius(b, k));
    const double e = (it->second[0] - want).norm();
    if (e > 2)
    {
      ok = c.check(false, "wrong-assignment", cat(d, ": dot ", k, " reported at ", it->second[0].transpose(), " is at ", want.transpose()));
      break;
    }
    ok = c.near(e, 0, 0.5, "dot-position", cat(d, ": dot ", k, " reported at ", it->second[0].transpose(), " is at ", want.transpose()));
    c.count("dots compared with the truth");
  }
  return ok ? 1 : -1;
}

static bool easy(const Board& b, const View& v)
{
  if (v.tilt > 0.45 || b.spots) return false;
  for (std::size_t k = 0; k < b.at.size(); ++k)
  {
    double lo, hi;
    v.extent(b.at[k], radius(b, k), lo, hi);
    if (lo < 4.5 || hi > 36) return false;   // within the detector's default areas
  }
  return true;
}

static void views(Case& c)
{
  Rng& r = c.rng;
  Board b = makeBoard(r);
  const bool frontal = r.chance(0.6);
  View v = makeView(r, b, frontal ? 0.4 : 1.0, frontal ? 26 : 14, 60);
  const bool dark = r.chance(0.7);
  Shot s = render(r, b, v, dark);
  cv::Mat img = r.chance(0.3) ? toBgr(s.img) : s.img;
  ModifiedCircleGridTarget t(unsigned(b.rows), unsigned(b.cols), r.uni(0.01, 0.1));
  ModifiedCircleGridTargetFinder finder(t, params(dark));
  const std::string d = show(b, v);
  c.nontrivial(hashImg(s.img));
  c.sample(d);
  start(Order::asFound);
  int out = judge(c, finder, img, b, v, d);
  if (easy(b, v))
  {
    c.count("easy views");
    c.check(out != 0, "easy-view-refused", d);
  }
  if (out == 1)
  {
    c.count(cat("roll quadrant ", int(std::floor((v.roll + M_PI) / (M_PI / 2) + 1e-9)) % 4));
    c.count(b.rows == b.cols ? "square boards found" : "oblong boards found");
    if (g_lastFlipped) c.count("found with rows and columns exchanged");
    if (r.chance(0.15))
    {
      TargetFeatures f = finder.findTargetFeatures(img), g = finder.findTargetFeatures(img);
      c.check(f == g, "repeat-differs", d);
      const cv::Mat before = img.clone();
      cv::Mat drawn = finder.drawTargetFeatures(img, f);
      c.check(sameImg(before, img), "input-modified", cat(d, ": drawing"));
      c.check(drawn.size() == img.size() && !drawn.empty(), "drawing", d);
      // the pairs a calibration would use
      auto corr = t.createCorrespondences(f);
      bool ok = corr.size() == b.at.size();
      for (auto& q : corr)
      {
        V2 p = q.in_target.head<2>() / t.spacing;
        const int j = int(std::lround(p.x())), i = b.rows - 1 - int(std::lround(p.y()));
        ok = ok && i >= 0 && i < b.rows && j >= 0 && j < b.cols && (q.in_image - v.centre(p, radius(b, std::size_t(i * b.cols + j)))).norm() < 1.5 && std::abs(q.in_target.z()) < 1e-12;
      }
      c.check(ok, "pairs", d);
      c.count("drawn and paired");
    }
  }
}

// The search reports the same grid in another order
static void orders(Case& c)
{
  Rng& r = c.rng;
  Board b = makeBoard(r);
  b.spots = false;
  View v = makeView(r, b, 0.35, 28, 50);
  Shot s = render(r, b, v, true);
  ModifiedCircleGridTarget t(unsigned(b.rows), unsigned(b.cols), 0.02);
  ModifiedCircleGridTargetFinder finder(t);
  const int sym = r.range(0, 3);
  const Order o = r.chance(0.5) ? Order::shuffled : Order::transposed;
  const std::string d = cat(show(b, v), o == Order::transposed ? ", transposed" : "", ", symmetry ", sym);
  c.nontrivial(hashImg(s.img));
  start(o, sym);
  int out = judge(c, finder, s.img, b, v, d);
  start(Order::asFound);
  if (out == 1) c.count(cat(o == Order::transposed ? "order transposed " : "order ", sym));
  if (easy(b, v)) c.check(out != 0, "easy-order-refused", d);
}

// Views that do not show the whole board
static void damaged(Case& c)
{
  Rng& r = c.rng;
  Board b = makeBoard(r);
  b.spots = false;
  View v = makeView(r, b, 0.5, 24, 50);
  const int kind = r.range(0, 5);
  std::string what;
  int lost = 0;
  Board shownBoard = b;
  if (kind == 0 || kind == 1)
  {
    // hidden dots
    for (int i = r.range(1, kind == 0 ? 1 : 4); i > 0; --i) shownBoard.shown[std::size_t(r.range(0, int(b.at.size()) - 1))] = false;
    what = "hidden dots";
    lost = 1;
  }
  Shot s = render(r, shownBoard, v, true);
  int rows = b.rows, cols = b.cols;
  if (kind == 1)
  {
    // as many stray dots as there are dots missing, away from every place on the board
    for (std::size_t k = 0; k < b.at.size(); ++k)
      if (!shownBoard.shown[k])
        for (int tries = 0; tries < 50; ++tries)
        {
          V2 p(r.uni(-0.9, b.cols - 0.1), r.uni(-0.9, b.rows - 0.1));
          double near = 9;
          for (auto& q : b.at) near = std::min(near, (p - q).norm());
          V2 at = v.to(p);
          if (near < b.dot * 2 + 0.2 || at.x() < 8 || at.y() < 8 || at.x() > v.w - 9 || at.y() > v.h - 9) continue;
          paintDot(s.img, v, p, b.dot, s.fg, 4);
          break;
        }
    what = "stray dots instead of hidden ones";
  }
  if (kind == 2)
  {
    // cut off: one border passes through or before a row of dots
    const int side = r.range(0, 3);
    double lo = 1e9;
    for (auto& p : b.at)
    {
      V2 q = v.to(p);
      lo = std::min(lo, side == 0 ? q.x() : side == 1 ? v.w - 1 - q.x() : side == 2 ? q.y() : v.h - 1 - q.y());
    }
    const int cut = int(lo) + r.range(1, 20);
    if (side == 0 || side == 2) return;   // keeps the coordinates: cut right or below only
    s.img = s.img(cv::Rect(0, 0, side == 1 ? v.w - cut : v.w, side == 3 ? v.h - cut : v.h)).clone();
    what = "cut off";
    lost = 1;
  }
  if (kind == 3)
  {
    // a grid of another size
    rows = r.range(2, 10);
    cols = r.range(2, 10);
    if (r.chance(0.5)) rows = b.cols, cols = b.rows;
    // (a finder for fewer dots may find its grid among the dots)
    while ((rows == b.rows && cols == b.cols) || rows * cols < b.rows * b.cols) ++(r.chance(0.5) ? rows : cols);
    what = cat("finder for ", rows, "x", cols);
    lost = 1;
  }
  if (kind == 4)
  {
    // clutter besides the complete board: lines, squares, dots of another colour
    for (int i = r.range(1, 12); i > 0; --i)
    {
      cv::Point p(r.range(0, v.w), r.range(0, v.h));
      double near = 1e9;
      for (std::size_t k = 0; k < b.at.size(); ++k) near = std::min(near, (v.to(b.at[k]) - V2(p.x, p.y)).norm() - radius(b, k) * v.px * 1.3);
      if (near < 6) continue;
      // too small, too thin or too large to pass for a dot
      if (r.chance(0.4)) cv::circle(s.img, p, 1, cv::Scalar(r.range(0, 255)), -1);
      else if (r.chance(0.5)) cv::line(s.img, p, p + cv::Point(r.range(-4, 4), r.range(-4, 4)), cv::Scalar(r.range(0, 255)), 1);
      else
      {
        const double k = r.uni(-0.1, 0.1);
        for (int y = 0; y < v.h; ++y)
          for (int x = 0; x < v.w; ++x) s.img.at<uchar>(y, x) = cv::saturate_cast<uchar>(s.img.at<uchar>(y, x) + k * (x - v.w / 2));
      }
    }
    what = "clutter";
  }
  if (kind == 5)
  {
    // no grid at all
    s.img = noiseImage(r, r.range(20, 300), r.range(20, 300), r.chance(0.5) ? CV_8UC1 : CV_8UC3);
    what = "no grid";
    lost = 1;
  }
  ModifiedCircleGridTarget t{ unsigned(rows), unsigned(cols), 0.025 };
  ModifiedCircleGridTargetFinder finder(t);
  const std::string d = cat(show(b, v), ", ", what);
  c.nontrivial(hashImg(s.img));
  start(Order::asFound);
  if (lost)
  {
    bool threw = false;
    std::size_t n = 0;
    const cv::Mat before = s.img.clone();
    try { n = finder.findTargetFeatures(s.img).size(); }
    catch (const std::exception&) { threw = true; }
    c.check(sameImg(before, s.img), "input-modified", d);
    c.check(threw, "incomplete-view-accepted", cat(d, ": ", n, " features"));
    c.count(cat("refused: ", what.substr(0, 8)));
  }
  else
  {
    judge(c, finder, s.img, b, v, d);
    c.count(cat("judged: ", what.substr(0, 8)));
  }
}

static void sizes(Case& c)
{
  Rng& r = c.rng;
  const int rows = r.range(0, 4), cols = rows < 2 ? r.range(0, 5) : r.range(0, 1);
  const std::string d = cat(rows, "x", cols);
  Board b;
  b.rows = std::max(1, rows);
  b.cols = std::max(1, cols);
  b.dot = 0.2;
  b.big = 0.4;
  b.spots = false;
  for (int i = 0; i < b.rows; ++i)
    for (int j = 0; j < b.cols; ++j) b.at.push_back(V2(j, b.rows - 1 - i));
  b.shown.assign(b.at.size(), true);
  View v = makeView(r, b, 0.2, 26, 40);
  Shot s = render(r, b, v, true);
  c.nontrivial(hashImg(s.img));
  // lines of dots and targets without any: refused or right
  try
  {
    ModifiedCircleGridTargetFinder f(ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), 0.025));
    if (rows && cols)
    {
      start(Order::asFound);
      judge(c, f, s.img, b, v, d);
    }
    else
    {
      f.findTargetFeatures(s.img);
      c.check(false, "empty-target-accepted", d);
    }
  }
  catch (const std::exception&)
  {
  }
  c.count("lines and empty targets");
}

VH_CASE(C20)
{
  switch (c.index % 10)
  {
    case 0: case 1: case 2: case 3: case 4: views(c); break;
    case 5: case 6: orders(c); break;
    case 7: case 8: damaged(c); break;
    default: sizes(c); break;
  }
}
