// C19: circle detection finds the circles that satisfy its filters, precisely
#include "img.h"
#include <rct_image_tools/circle_detector.h>
using namespace vh;
using namespace rct_image_tools;

// A closed boundary between an inside and an outside of different gray levels
struct Edge
{
  double x, y, a, b;
  int in, out, centre;   // levels
  double convexity = 1;  // of the ideal shape
  bool round = true;     // an ellipse
  double gap = 1e9;      // to a concentric boundary
  std::string what;
};
struct Scene
{
  cv::Mat img;
  std::vector<Edge> edges;
  int bg = 255;
  std::string text;
};

static Scene makeScene(Rng& r)
{
  Scene s;
  const int w = r.range(160, 420), h = r.range(140, 360);
  const bool darkOnLight = r.chance(0.6);
  s.bg = darkOnLight ? r.range(150, 255) : r.range(0, 90);
  s.img = cv::Mat(h, w, CV_8UC1, cv::Scalar(s.bg));
  const int ss = r.chance(0.25) ? 1 : 8;
  const int n = r.range(0, 12);
  std::vector<V3> placed;
  std::ostringstream o;
  o << w << "x" << h << " background " << s.bg << " samples " << ss << ":";
  for (int i = 0; i < n * 6 && static_cast<int>(placed.size()) < n; ++i)
  {
    const double R = r.chance(0.7) ? r.uni(5, 16) : r.uni(5, 38);
    if (2 * R + 14 > std::min(w, h)) continue;
    double x = r.uni(R + 6, w - 7 - R), y = r.uni(R + 6, h - 7 - R);
    if (r.chance(0.2)) { x = std::floor(x); y = std::floor(y); }
    bool clear = true;
    for (auto& p : placed) clear = clear && std::hypot(p.x() - x, p.y() - y) > p.z() + R + 7;
    if (!clear) continue;
    placed.push_back(V3(x, y, R));
    int level = darkOnLight ? r.range(0, 200) : r.range(60, 255);
    if (r.chance(0.15)) level = r.range(0, 255);
    if (level == s.bg) level = s.bg > 128 ? s.bg - 100 : s.bg + 100;
    Edge e;
    e.x = x; e.y = y; e.in = e.centre = level; e.out = s.bg;
    const double kind = r.u01();
    if (kind < 0.55)
    {
      e.a = e.b = R;
      e.what = "disc";
      paintEllipse(s.img, x, y, R, R, 0, level, ss);
      s.edges.push_back(e);
    }
    else if (kind < 0.75)
    {
      e.a = R;
      e.b = std::max(4.5, R * r.uni(0.3, 1));
      e.what = "ellipse";
      paintEllipse(s.img, x, y, e.a, e.b, r.uni(0, M_PI), level, ss);
      s.edges.push_back(e);
    }
    else if (kind < 0.88 && R > 14)
    {
      // ring: two concentric boundaries around a centre of the background's level
      Edge f = e;
      e.a = e.b = R;
      e.centre = s.bg;
      e.what = "ring outside";
      f.a = f.b = r.uni(5, R - 8);
      e.gap = f.gap = R - f.a;
      f.in = f.centre = s.bg;
      f.out = level;
      f.what = "ring inside";
      paintEllipse(s.img, x, y, R, R, 0, level, ss);
      paintEllipse(s.img, x, y, f.a, f.a, 0, s.bg, ss);
      s.edges.push_back(e);
      s.edges.push_back(f);
    }
    else if (R > 9)
    {
      // a disc that lacks a sector
      const double half = r.uni(0.35, 1.2), dir = r.uni(-M_PI, M_PI);
      e.a = e.b = R;
      e.round = false;
      e.what = "disc without a sector";
      // the hull keeps the triangle between the centre and the two tips
      const double area = M_PI - half, hull = half < M_PI / 2 ? M_PI - half + std::sin(half) * std::cos(half) : M_PI - half;
      e.convexity = area / hull;
      paint(s.img, x - R, y - R, x + R, y + R, level, ss, [=](double px, double py) {
        if (std::hypot(px - x, py - y) > R) return false;
        double d = std::remainder(std::atan2(py - y, px - x) - dir, 2 * M_PI);
        return std::abs(d) > half;
      });
      s.edges.push_back(e);
    }
    else
    {
      e.a = e.b = R;
      e.what = "disc";
      paintEllipse(s.img, x, y, R, R, 0, level, ss);
      s.edges.push_back(e);
    }
    auto& l = s.edges.back();
    o << " " << l.what << " " << l.in << " at " << l.x << "," << l.y << " radii " << l.a << "," << l.b;
  }
  s.text = o.str();
  return s;
}

static CircleDetectorParams makeParams(Rng& r)
{
  CircleDetectorParams p;
  if (r.chance(0.6))
  {
    p.minThreshold = r.range(0, 140);
    p.maxThreshold = r.range(int(p.minThreshold), 255);
    if (r.chance(0.1)) std::swap(p.minThreshold, p.maxThreshold);
    p.nThresholds = r.range(1, 20);
    p.minRepeatability = r.range(0, int(std::min<std::size_t>(p.nThresholds, 6)));
  }
  if (r.chance(0.4))
  {
    p.circleInclusionRadius = r.uni(2, 8);
    p.maxRadiusDiff = r.uni(2.5, 8);
  }
  p.filterByColor = r.chance(0.7);
  p.circleColor = r.chance(0.5) ? 0 : 255;
  p.filterByArea = r.chance(0.7);
  if (r.chance(0.6))
  {
    p.minArea = r.uni(10, 500);
    p.maxArea = p.minArea + r.uni(50, 3000);
  }
  p.filterByCircularity = r.chance(0.3);
  p.minCircularity = r.uni(0.3, 0.85);
  if (r.chance(0.2)) p.maxCircularity = r.uni(0.5, 1.5);
  p.filterByInertia = r.chance(0.3);
  p.minInertiaRatio = r.uni(0.05, 0.85);
  if (r.chance(0.2)) p.maxInertiaRatio = r.uni(0.3, 1.5);
  p.filterByConvexity = r.chance(0.6);
  if (r.chance(0.5)) p.minConvexity = r.uni(0.6, 0.95);
  if (r.chance(0.1)) p.maxConvexity = r.uni(0.7, 1.5);
  return p;
}
static std::string show(const CircleDetectorParams& p)
{
  std::ostringstream o;
  o << "thresholds " << p.minThreshold << ".." << p.maxThreshold << " x" << p.nThresholds << " repeat " << p.minRepeatability << " inclusion " << p.circleInclusionRadius << "/"
    << p.maxRadiusDiff;
  if (p.filterByColor) o << " color " << int(p.circleColor);
  if (p.filterByArea) o << " area " << p.minArea << ".." << p.maxArea;
  if (p.filterByCircularity) o << " circularity " << p.minCircularity << ".." << p.maxCircularity;
  if (p.filterByInertia) o << " inertia " << p.minInertiaRatio << ".." << p.maxInertiaRatio;
  if (p.filterByConvexity) o << " convexity " << p.minConvexity << ".." << p.maxConvexity;
  return o.str();
}

// A value known only to lie in [lo, hi] against a range filter: 1 passes, -1 fails, 0 too close to tell
static int inRange(double lo, double hi, double min, double max)
{
  if (lo >= min && hi < max) return 1;
  if (hi < min || lo >= max) return -1;
  return 0;
}
static int both(int a, int b) { return a < 0 || b < 0 ? -1 : (a == 0 || b == 0 ? 0 : 1); }

static int expectation(const Edge& e, const CircleDetectorParams& p)
{
  // in how many of the binary images is this boundary there (with the right colour in its middle)?
  std::size_t least = 0, most = 0;
  for (std::size_t i = 0; i < p.nThresholds; ++i)
  {
    const double f = p.nThresholds < 2 ? 0.5 : double(i) / (p.nThresholds - 1);
    const double t = double(p.minThreshold) + f * (double(p.maxThreshold) - double(p.minThreshold));
    int yes = 0;
    for (double d : { -1e-3, 1e-3 })
    {
      const double T = std::floor(t + d);
      const bool there = (e.in <= T) != (e.out <= T) && (!p.filterByColor || (e.centre > T ? 255 : 0) == p.circleColor);
      yes += there;
    }
    least += yes == 2;
    most += yes > 0;
  }
  const std::size_t need = std::max<std::size_t>(1, p.minRepeatability);
  int ok = least >= need ? 1 : (most < need ? -1 : 0);
  // contours run through the bright pixels beside the boundary
  const bool dark = e.in < e.out;
  const double lo = dark ? -0.6 : -1.6, hi = dark ? 1.6 : 0.6;
  const double a0 = e.a + lo, a1 = e.a + hi, b0 = e.b + lo, b1 = e.b + hi;
  if (e.gap < p.maxRadiusDiff + 3.5) return ok < 0 ? -1 : 0;   // taken as one with its neighbour
  if (!e.round)
  {
    // only one thing is certain of it
    if (p.filterByConvexity && e.convexity + 0.08 < p.minConvexity && e.convexity < 1) return -1;
    return ok < 0 && !p.filterByColor ? -1 : 0;
  }
  if (p.filterByArea) ok = both(ok, inRange(M_PI * a0 * b0, M_PI * a1 * b1, p.minArea, p.maxArea));
  if (p.filterByCircularity)
  {
    auto circ = [](double a, double b) {
      const double h = (a - b) * (a - b) / ((a + b) * (a + b));
      const double per = M_PI * (a + b) * (1 + 3 * h / (10 + std::sqrt(4 - 3 * h)));
      return 4 * M_PI * M_PI * a * b / (per * per);
    };
    ok = both(ok, inRange(0.74 * std::min(circ(a1, b0), circ(a0, b0)), 1.02 * std::max(circ(a1, b1), circ(a0, b1)), p.minCircularity, p.maxCircularity));
  }
  if (p.filterByInertia)
  {
    const double q0 = std::min(a1, b0) / std::max(a1, b0), q1 = std::min(1.0, b1 / a0);
    ok = both(ok, inRange(0.9 * std::min(q0 * q0, 0.95), std::min(1.0, 1.1 * q1 * q1) + 1e-9, p.minInertiaRatio, p.maxInertiaRatio));
  }
  if (p.filterByConvexity) ok = both(ok, inRange(std::min(a0, b0) < 8 ? 0.85 : 0.953, 1.0 + 1e-9, p.minConvexity, p.maxConvexity));
  return ok;
}

static void scenes(Case& c)
{
  Rng& r = c.rng;
  Scene s = makeScene(r);
  CircleDetectorParams p = makeParams(r);
  const std::string d = cat(s.text, "; ", show(p));
  c.nontrivial(hashImg(s.img));
  c.sample(d);
  auto det = CircleDetector::create(p);
  const cv::Mat before = s.img.clone();
  std::vector<cv::KeyPoint> k(3);   // what was in the vector before must be gone
  det->detect(s.img, k);
  c.check(sameImg(before, s.img), "input-modified", d);
  c.count("scenes");
  std::vector<int> used(k.size(), 0);
  for (auto& q : k)
    c.check(std::isfinite(q.pt.x) && std::isfinite(q.pt.y) && std::isfinite(q.size) && q.size > 0, "not-finite", d);
  for (auto& e : s.edges)
  {
    const int want = expectation(e, p);
    if (want == 0) c.count("boundaries too close to a limit");
    // keypoints of this boundary
    int n = 0;
    for (std::size_t i = 0; i < k.size(); ++i)
    {
      const double dd = std::hypot(k[i].pt.x - e.x, k[i].pt.y - e.y), ds = std::abs(k[i].size / 2 - (e.a + e.b) / 2);
      if (dd > (e.round ? 2.0 : e.a + 2) || (e.round && ds > 3)) continue;
      used[i]++;
      ++n;
      if (!e.round || want != 1 || n > 1) continue;
      c.near(dd, 0, 0.35, "centre", cat(d, ": ", e.what, " at ", e.x, ",", e.y, " found at ", k[i].pt.x, ",", k[i].pt.y));
      const double bias = k[i].size - (e.a + e.b);
      c.near(e.in < e.out ? bias - 1 : bias + 1, 0, 1.7, "diameter", cat(d, ": ", e.what, " at ", e.x, ",", e.y, " of ", e.a + e.b, " measured ", k[i].size));
    }
    if (want == 1)
    {
      c.check(n == 1, n ? "reported-twice" : "circle-missed", cat(d, ": ", e.what, " at ", e.x, ",", e.y, " reported ", n, " times"));
      c.count(cat("found ", e.what));
    }
    if (want == -1)
    {
      // the other boundary of a ring may lie within the tolerance: judge only what nothing else explains
      bool alone = true;
      for (auto& f : s.edges)
        if (&f != &e && std::hypot(f.x - e.x, f.y - e.y) < 3 && std::abs(f.a - e.a) < 10) alone = false;
      if (alone) c.check(n == 0, "filtered-circle-reported", cat(d, ": ", e.what, " at ", e.x, ",", e.y));
      if (alone) c.count(cat("left out ", e.what));
    }
  }
  for (std::size_t i = 0; i < k.size(); ++i)
  {
    if (used[i]) continue;
    // without a limit on the area the frame of a bright image is a contour, too
    if (!p.filterByArea || p.maxArea > 0.5 * s.img.rows * s.img.cols)
      if (k[i].size > 0.7 * std::min(s.img.rows, s.img.cols)) { c.count("image frames reported"); continue; }
    bool merged = false;
    for (auto& e : s.edges) merged = merged || (e.gap < p.maxRadiusDiff + 3.5 && std::hypot(k[i].pt.x - e.x, k[i].pt.y - e.y) < 2);
    if (merged) { c.count("rings taken as one"); continue; }
    c.check(false, "reported-nothing", cat(d, ": keypoint ", k[i].pt.x, ",", k[i].pt.y, " size ", k[i].size));
  }
  // Colour or gray makes no difference
  if (r.chance(0.5))
  {
    cv::Mat bgr = toBgr(s.img);
    std::vector<cv::KeyPoint> q;
    CircleDetector(p).detect(bgr, q);
    bool same = q.size() == k.size();
    for (std::size_t i = 0; same && i < k.size(); ++i) same = q[i].pt == k[i].pt && q[i].size == k[i].size;
    c.check(same, "color-differs", d);
    c.count("colour images");
    const cv::Mat bb = bgr.clone();
    cv::Mat drawn = det->drawDetectedCircles(bgr);
    c.check(sameImg(bgr, bb), "input-modified", cat(d, ": drawing"));
    c.check(drawn.size() == bgr.size(), "drawn-size", d);
  }
  // Moving the scene by whole pixels moves the answer
  if (r.chance(0.5))
  {
    const int dx = r.range(0, 40), dy = r.range(0, 40);
    cv::Mat big(s.img.rows + dy + r.range(0, 9), s.img.cols + dx + r.range(0, 9), CV_8UC1, cv::Scalar(s.bg));
    s.img.copyTo(big(cv::Rect(dx, dy, s.img.cols, s.img.rows)));
    if (p.filterByArea && p.maxArea < 0.5 * s.img.rows * s.img.cols)
    {
      std::vector<cv::KeyPoint> q;
      det->detect(big, q);
      bool same = q.size() == k.size();
      for (auto& a : k)
      {
        int n = 0;
        for (auto& b : q) n += std::hypot(a.pt.x + dx - b.pt.x, a.pt.y + dy - b.pt.y) < 0.02 && std::abs(a.size - b.size) < 0.02;
        same = same && n == 1;
      }
      c.check(same, "moved-scene", cat(d, ": moved by ", dx, ",", dy, ": ", k.size(), " keypoints, then ", q.size()));
      c.count("scenes moved");
    }
  }
  // Everything brighter by the same amount
  if (r.chance(0.4))
  {
    double lo, hi;
    cv::minMaxLoc(s.img, &lo, &hi);
    int off = r.range(-40, 40);
    off = std::max(off, int(-lo));
    off = std::min(off, int(255 - hi));
    CircleDetectorParams p2 = p;
    p2.minThreshold += off;
    p2.maxThreshold += off;
    if (off && std::min(p2.minThreshold, p2.maxThreshold) >= 0 && std::max(p2.minThreshold, p2.maxThreshold) <= 254 && std::max(p.minThreshold, p.maxThreshold) <= 254)
    {
      cv::Mat m = s.img.clone();
      for (int y = 0; y < m.rows; ++y)
        for (int x = 0; x < m.cols; ++x) m.at<uchar>(y, x) = uchar(m.at<uchar>(y, x) + off);
      // thresholds that are whole numbers up to rounding may fall on either side
      bool clear = true;
      for (std::size_t i = 0; i < p.nThresholds; ++i)
      {
        const double t = double(p.minThreshold) + (p.nThresholds < 2 ? 0.5 : double(i) / (p.nThresholds - 1)) * (double(p.maxThreshold) - double(p.minThreshold));
        const double f = t - std::floor(t);
        if (f != 0 && (f < 1e-6 || f > 1 - 1e-6)) clear = false;
      }
      std::vector<cv::KeyPoint> q;
      CircleDetector(p2).detect(m, q);
      if (clear)
      {
        bool same = q.size() == k.size();
        for (std::size_t i = 0; same && i < k.size(); ++i) same = std::abs(q[i].pt.x - k[i].pt.x) < 1e-3 && std::abs(q[i].pt.y - k[i].pt.y) < 1e-3 && std::abs(q[i].size - k[i].size) < 1e-3;
        c.check(same, "brighter-scene", cat(d, ": brighter by ", off));
        c.count("scenes brightened");
      }
    }
  }
}

// Any picture at all: answers are finite and the picture is left alone
static void anything(Case& c)
{
  Rng& r = c.rng;
  const int w = r.chance(0.2) ? r.range(1, 6) : r.range(1, 120), h = r.chance(0.2) ? r.range(1, 6) : r.range(1, 120);
  cv::Mat img = noiseImage(r, w, h, r.chance(0.7) ? CV_8UC1 : CV_8UC3);
  if (r.chance(0.5))
  {
    // soft blobs of random size make contours of all kinds
    const int n = r.range(1, 12);
    for (int i = 0; i < n; ++i)
      cv::ellipse(img, cv::Point(r.range(-5, w + 5), r.range(-5, h + 5)), cv::Size(r.range(1, 12), r.range(1, 12)), r.range(0, 180), 0, r.range(30, 360),
                  cv::Scalar::all(r.range(0, 255)), r.chance(0.5) ? -1 : r.range(1, 3));
  }
  CircleDetectorParams p = makeParams(r);
  if (r.chance(0.5)) p.filterByArea = p.filterByConvexity = p.filterByCircularity = p.filterByInertia = false;
  if (r.chance(0.5)) p.maxAverageEllipseError = r.logu(1e-4, 10);
  if (r.chance(0.5)) p.minRepeatability = r.range(0, 1);
  p.minRepeatability = std::min(p.minRepeatability, p.nThresholds);
  const std::string d = cat(w, "x", h, " noise, ", show(p));
  c.nontrivial(hashImg(img));
  const cv::Mat before = img.clone();
  std::vector<cv::KeyPoint> k;
  CircleDetector det(p);
  det.detect(img, k);
  c.check(sameImg(before, img), "input-modified", d);
  for (auto& q : k)
  {
    c.check(std::isfinite(q.pt.x) && std::isfinite(q.pt.y) && std::isfinite(q.size) && q.size > 0, "not-finite", cat(d, ": ", q.pt.x, ",", q.pt.y, " ", q.size));
    c.count("keypoints in noise");
  }
  std::vector<cv::KeyPoint> k2;
  if (img.channels() == 3)
  {
    cv::Mat g;
    cv::cvtColor(img, g, cv::COLOR_BGR2GRAY);
    det.detect(g, k2);
  }
  else
    det.detect(img, k2);
  bool same = k.size() == k2.size();
  for (std::size_t i = 0; same && i < k.size(); ++i) same = k[i].pt == k2[i].pt && k[i].size == k2[i].size;
  c.check(same, "repeat-differs", d);
  cv::Mat drawn = det.drawDetectedCircles(img);
  c.check(sameImg(before, img), "input-modified", cat(d, ": drawing"));
  c.count("noise images");
  // more repetitions than thresholds
  CircleDetectorParams q = p;
  q.minRepeatability = q.nThresholds + static_cast<std::size_t>(r.range(1, 5));
  bool threw = false;
  try { CircleDetector(q).detect(img, k); }
  catch (const std::exception&) { threw = true; }
  c.check(threw, "repeatability-accepted", cat(q.minRepeatability, " of ", q.nThresholds));
  c.count("repeatabilities refused");
}

VH_CASE(C19)
{
  if (c.index % 3 == 2) anything(c);
  else scenes(c);
}
