// C21: marker-based finders never attribute a feature to the wrong target point
#include "img.h"
#include <set>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/calib3d.hpp>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
using namespace vh;
using namespace rct_image_tools;

// The printed board, in meters: x to the right, y down from the upper left corner
struct Print
{
  bool charuco = false;
  int rows = 0, cols = 0, dict = 0, n = 0;   // n: markers
  bool renumbered = false;                   // markers other than 0, 1, 2...
  float a = 0, b = 0;                        // marker and gap, or square and marker
  cv::Ptr<cv::aruco::Dictionary> d;
  std::vector<cv::Mat> bits;                 // by id, with border, drawn when needed
  struct Marker { int id; V2 at; double size; };
  std::vector<Marker> markers;               // on the board
  std::vector<Marker> strays;
  double w() const { return charuco ? cols * double(a) : cols * double(a) + (cols - 1) * double(b); }
  double h() const { return charuco ? rows * double(a) : rows * double(a) + (rows - 1) * double(b); }
  double side() const { return charuco ? b : a; }
  cv::Mat marker(int id)
  {
    if (bits.size() <= std::size_t(id)) bits.resize(std::size_t(id) + 1);
    if (bits[std::size_t(id)].empty()) cv::aruco::drawMarker(d, id, d->markerSize + 2, bits[std::size_t(id)], 1);
    return bits[std::size_t(id)];
  }
};
static const int dicts[] = { cv::aruco::DICT_4X4_50, cv::aruco::DICT_4X4_100, cv::aruco::DICT_4X4_250, cv::aruco::DICT_4X4_1000, cv::aruco::DICT_5X5_50, cv::aruco::DICT_5X5_100,
                             cv::aruco::DICT_5X5_250, cv::aruco::DICT_5X5_1000, cv::aruco::DICT_6X6_50, cv::aruco::DICT_6X6_100, cv::aruco::DICT_6X6_250, cv::aruco::DICT_6X6_1000,
                             cv::aruco::DICT_7X7_50, cv::aruco::DICT_7X7_100, cv::aruco::DICT_7X7_250, cv::aruco::DICT_7X7_1000, cv::aruco::DICT_ARUCO_ORIGINAL };
static Print makePrint(Rng& r, bool charuco)
{
  Print p;
  p.charuco = charuco;
  p.dict = dicts[r.range(0, 16)];
  p.d = cv::aruco::getPredefinedDictionary(p.dict);
  p.rows = r.range(charuco ? 2 : 1, 6);
  p.cols = r.chance(0.25) ? std::max(p.rows, charuco ? 2 : 1) : r.range(charuco ? 2 : 1, 6);
  p.a = float(r.uni(0.01, 0.2));
  p.b = charuco ? float(p.a * r.uni(0.55, 0.8)) : float(p.a * r.uni(0.2, 0.6));
  if (charuco)
  {
    const double m = (double(p.a) - double(p.b)) / 2;
    for (int i = 0; i < p.rows; ++i)
      for (int j = 0; j < p.cols; ++j)
        if ((i + j) % 2) p.markers.push_back({ p.n++, V2(j * double(p.a) + m, i * double(p.a) + m), p.b });
  }
  else
    for (int i = 0; i < p.rows; ++i)
      for (int j = 0; j < p.cols; ++j) p.markers.push_back({ p.n++, V2(j * (double(p.a) + double(p.b)), i * (double(p.a) + double(p.b))), p.a });
  // a board may carry any markers of its dictionary
  if (r.chance(0.3))
  {
    std::vector<int> ids(std::size_t(p.d->bytesList.rows));
    for (std::size_t i = 0; i < ids.size(); ++i) ids[i] = int(i);
    p.renumbered = true;
    if (r.chance(0.5))
    {
      const int first = r.range(0, p.d->bytesList.rows - p.n);
      for (std::size_t i = 0; i < p.markers.size(); ++i) p.markers[i].id = first + int(i);
    }
    else
    {
      const int among = r.chance(0.5) ? p.n : p.d->bytesList.rows;
      for (std::size_t i = 0; i < p.markers.size(); ++i)
      {
        std::swap(ids[i], ids[std::size_t(r.range(int(i), among - 1))]);
        p.markers[i].id = ids[i];
      }
    }
  }
  return p;
}
static std::unique_ptr<TargetFinder> makeFinder(const Print& b)
{
  std::unique_ptr<TargetFinder> f;
  std::vector<int> ids;
  for (auto& m : b.markers) ids.push_back(m.id);
  if (b.charuco)
  {
    if (!b.renumbered) { f.reset(new CharucoGridBoardTargetFinder(CharucoGridTarget(b.rows, b.cols, b.a, b.b, b.dict))); return f; }
    auto board = cv::aruco::CharucoBoard::create(b.cols, b.rows, b.a, b.b, b.d);
    board->ids = ids;
    f.reset(new CharucoGridBoardTargetFinder(CharucoGridTarget(board)));
  }
  else
  {
    if (!b.renumbered) { f.reset(new ArucoGridBoardTargetFinder(ArucoGridTarget(b.rows, b.cols, b.a, b.b, b.dict))); return f; }
    auto board = cv::aruco::GridBoard::create(b.cols, b.rows, b.a, b.b, b.d);
    board->ids = ids;
    f.reset(new ArucoGridBoardTargetFinder(ArucoGridTarget(board)));
  }
  return f;
}
// features: id, index, place
struct Place
{
  unsigned id;
  std::size_t k;
  V2 at;
  std::size_t marker = 0;
};
static std::vector<Place> places(const Print& p)
{
  std::vector<Place> v;
  if (p.charuco)
  {
    unsigned id = 0;
    for (int i = 1; i < p.rows; ++i)
      for (int j = 1; j < p.cols; ++j) v.push_back({ id++, 0, V2(j * double(p.a), i * double(p.a)), 0 });
  }
  else
    for (std::size_t i = 0; i < p.markers.size(); ++i)
    {
      auto& m = p.markers[i];
      v.push_back({ unsigned(m.id), 0, m.at, i });
      v.push_back({ unsigned(m.id), 1, m.at + V2(m.size, 0), i });
      v.push_back({ unsigned(m.id), 2, m.at + V2(m.size, m.size), i });
      v.push_back({ unsigned(m.id), 3, m.at + V2(0, m.size), i });
    }
  return v;
}

struct View
{
  Eigen::Matrix3d H, Hi;
  double tilt = 0, roll = 0, px = 0;   // px: of a marker's side
  int w = 0, h = 0;
  V2 to(const V2& p) const
  {
    V3 q = H * V3(p.x(), p.y(), 1);
    return q.head<2>() / q.z();
  }
};
static View makeView(Rng& r, const Print& b, double tiltMax, double modLo, double modHi, double around)
{
  View v;
  v.tilt = r.uni(0, tiltMax);
  v.roll = r.uni(-M_PI, M_PI);
  if (r.chance(0.2)) v.roll = M_PI / 2 * r.range(-2, 2) + r.uni(-0.02, 0.02);
  const double az = r.uni(-M_PI, M_PI), mod = r.uni(modLo, modHi);
  v.px = mod * (b.d->markerSize + 2);
  const double scale = std::min(v.px / b.side(), 620 / std::max(b.w(), b.h()));
  v.px = scale * b.side();
  const double f = r.uni(600, 1400), dist = f / scale;
  Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * v.tilt) * rot(V3(0, 0, v.roll));
  V3 t = V3(0, 0, dist) - R * V3(b.w() / 2, b.h() / 2, 0);
  Eigen::Matrix3d P;
  P << R.col(0), R.col(1), t;
  v.H = Eigen::Vector3d(f, f, 1).asDiagonal() * P;
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  const double m = around;
  for (double x : { -m, b.w() + m })
    for (double y : { -m, b.h() + m })
    {
      V2 p = v.to(V2(x, y));
      x0 = std::min(x0, p.x()), x1 = std::max(x1, p.x()), y0 = std::min(y0, p.y()), y1 = std::max(y1, p.y());
    }
  const double k = 14;
  v.w = int(x1 - x0 + 2 * k + r.uni(0, 40));
  v.h = int(y1 - y0 + 2 * k + r.uni(0, 40));
  Eigen::Matrix3d S = Eigen::Matrix3d::Identity();
  S(0, 2) = k - x0;
  S(1, 2) = k - y0;
  v.H = S * v.H;
  v.Hi = v.H.inverse();
  return v;
}
static cv::Mat render(Rng& r, Print& b, const View& v, int black, int white)
{
  std::vector<Print::Marker> all = b.markers;
  all.insert(all.end(), b.strays.begin(), b.strays.end());
  for (auto& m : all) b.marker(m.id);
  const int cells = b.d->markerSize + 2, ss = r.chance(0.3) ? 2 : 3;
  cv::Mat img(v.h, v.w, CV_8UC1, cv::Scalar(white));
  if (b.charuco)
    for (int i = 0; i < b.rows; ++i)
      for (int j = 0; j < b.cols; ++j)
        if ((i + j) % 2 == 0)
        {
          const double x0 = j * double(b.a), y0 = i * double(b.a);
          double u0 = 1e9, u1 = -1e9, w0 = 1e9, w1 = -1e9;
          for (double x : { x0, x0 + b.a })
            for (double y : { y0, y0 + b.a })
            {
              V2 q = v.to(V2(x, y));
              u0 = std::min(u0, q.x()), u1 = std::max(u1, q.x()), w0 = std::min(w0, q.y()), w1 = std::max(w1, q.y());
            }
          paint(img, u0, w0, u1, w1, black, ss, [&](double x, double y) {
            V3 q = v.Hi * V3(x, y, 1);
            const double a = q.x() / q.z() - x0, c = q.y() / q.z() - y0;
            return a >= 0 && c >= 0 && a < b.a && c < b.a;
          });
        }
  for (auto& m : all)
  {
    const cv::Mat bits = b.marker(m.id);
    double u0 = 1e9, u1 = -1e9, w0 = 1e9, w1 = -1e9;
    for (double x : { 0.0, m.size })
      for (double y : { 0.0, m.size })
      {
        V2 q = v.to(m.at + V2(x, y));
        u0 = std::min(u0, q.x()), u1 = std::max(u1, q.x()), w0 = std::min(w0, q.y()), w1 = std::max(w1, q.y());
      }
    paint(img, u0, w0, u1, w1, black, ss, [&](double x, double y) {
      V3 q = v.Hi * V3(x, y, 1);
      const int j = int(std::floor((q.x() / q.z() - m.at.x()) / m.size * cells)), i = int(std::floor((q.y() / q.z() - m.at.y()) / m.size * cells));
      return i >= 0 && j >= 0 && i < cells && j < cells && bits.at<uchar>(i, j) == 0;
    });
  }
  return img;
}
static std::string show(const Print& b, const View& v)
{
  return cat(b.charuco ? "ChArUco " : "ArUco ", b.rows, "x", b.cols, " of ", b.a, "/", b.b, " dictionary ", b.dict, ", ", b.strays.size(), b.renumbered ? " strays, renumbered, tilt " : " strays, tilt ", v.tilt * 180 / M_PI, " deg, roll ",
             v.roll * 180 / M_PI, " deg, markers of ", v.px, " px in ", v.w, "x", v.h);
}

static void board(Case& c, bool charuco)
{
  Rng& r = c.rng;
  Print b = makePrint(r, charuco);
  const bool withStrays = r.chance(0.35);
  const double L = b.side();
  if (withStrays)
  {
    // around the board, in its plane
    const int room = std::min(b.d->bytesList.rows - b.n, 30);
    for (int i = r.range(1, 4), tries = 0; i > 0 && tries < 60 && room > 0; ++tries)
    {
      const double s = L * r.uni(0.7, 1.1);
      V2 at(r.uni(-2.2 * L, b.w() + 2.2 * L - s), r.uni(-2.2 * L, b.h() + 2.2 * L - s));
      auto apart = [&](const V2& p, double w, double h) {
        return at.x() + s + 0.4 * L < p.x() || p.x() + w + 0.4 * L < at.x() || at.y() + s + 0.4 * L < p.y() || p.y() + h + 0.4 * L < at.y();
      };
      bool ok = apart(V2(0, 0), b.w(), b.h());
      for (auto& m : b.strays) ok = ok && apart(m.at, m.size, m.size);
      const int id = b.renumbered ? r.range(0, b.d->bytesList.rows - 1) : r.chance(0.3) ? b.d->bytesList.rows - 1 - r.range(0, room - 1) : b.n + r.range(0, room - 1);
      for (auto& m : b.markers) ok = ok && m.id != id;
      for (auto& m : b.strays) ok = ok && m.id != id;
      if (!ok) continue;
      b.strays.push_back({ id, at, s });
      --i;
    }
  }
  View v = makeView(r, b, r.chance(0.6) ? 0.5 : 1.05, r.chance(0.7) ? 4 : 2.5, 9, withStrays ? 2.4 * L : 0.5 * L);
  const int black = r.range(0, 80), white = r.range(170, 255);
  cv::Mat img = render(r, b, v, black, white);
  // hidden parts
  cv::Mat hidden(img.size(), CV_8UC1, cv::Scalar(0));
  const int occl = r.chance(0.55) ? r.range(1, 4) : 0;
  for (int i = 0; i < occl; ++i)
  {
    const int level = r.chance(0.5) ? r.range(0, 255) : (r.chance(0.5) ? white : black);
    cv::Point q(r.range(0, v.w), r.range(0, v.h));
    if (r.chance(0.6)) {
      V2 p = v.to(V2(r.uni(0, b.w()), r.uni(0, b.h())));
      q = cv::Point(int(p.x()), int(p.y()));
    }
    const cv::Size sz(int(v.px * r.uni(0.1, 1.3)) + 1, int(v.px * r.uni(0.1, 1.3)) + 1);
    const int ang = r.range(0, 180), kind = r.range(0, 2);
    const cv::Point q2(r.range(0, v.w), q.y + sz.height * 3);
    for (cv::Mat* m : { &img, &hidden })
    {
      const cv::Scalar col = m == &img ? cv::Scalar(level) : cv::Scalar(255);
      if (kind == 0) cv::rectangle(*m, cv::Rect(q, sz), col, -1);
      else if (kind == 1) cv::ellipse(*m, q, sz, ang, 0, 360, col, -1);
      else cv::line(*m, q, q2, col, 3 + sz.width / 8);
    }
  }
  const bool anyHidden = cv::countNonZero(hidden) > 0;
  if (r.chance(0.3))
  {
    const int amp = r.range(1, 6);
    for (int y = 0; y < img.rows; ++y)
      for (int x = 0; x < img.cols; ++x) img.at<uchar>(y, x) = cv::saturate_cast<uchar>(img.at<uchar>(y, x) + r.range(-amp, amp));
  }
  cv::Mat shot = r.chance(0.4) ? toBgr(img) : img;
  const std::string d = cat(show(b, v), ", ", occl, " hidden parts");
  c.nontrivial(hashImg(img));
  c.sample(d);
  cv::Mat nearHidden;
  cv::dilate(hidden, nearHidden, cv::getStructuringElement(cv::MORPH_RECT, cv::Size(25, 25)));
  // markers in plain view
  std::vector<int> plain(b.markers.size(), 1);
  for (std::size_t i = 0; i < b.markers.size() && anyHidden; ++i)
  {
    auto& m = b.markers[i];
    std::vector<cv::Point> quad;
    for (V2 o : { V2(0, 0), V2(1, 0), V2(1, 1), V2(0, 1) })
    {
      V2 p = v.to(m.at + o * m.size);
      quad.push_back(cv::Point(int(p.x()), int(p.y())));
    }
    cv::Mat own(img.size(), CV_8UC1, cv::Scalar(0));
    cv::fillConvexPoly(own, quad, cv::Scalar(255));
    own &= nearHidden;
    plain[i] = cv::countNonZero(own) == 0;
  }
  TargetFeatures f;
  const cv::Mat before = shot.clone();
  // what the marker detector underneath sees in this picture: a marker misread there is not the finders' doing
  std::set<int> seen;
  {
    std::vector<int> ids;
    std::vector<std::vector<cv::Point2f>> cs;
    cv::aruco::detectMarkers(shot, b.d, cs, ids);
    for (std::size_t i = 0; i < ids.size(); ++i)
    {
      bool real = false;
      for (auto* list : { &b.markers, &b.strays })
        for (auto& m : *list)
        {
          V2 p = v.to(m.at + V2(m.size, m.size) / 2), q = v.to(m.at);
          cv::Point2f mid = (cs[i][0] + cs[i][1] + cs[i][2] + cs[i][3]) * 0.25f;
          real = real || (m.id == ids[i] && (V2(mid.x, mid.y) - p).norm() < 0.25 * v.px && (V2(cs[i][0].x, cs[i][0].y) - q).norm() < 0.5 * (p - q).norm() + 3);
        }
      if (!real || seen.count(ids[i]))
      {
        c.count("views with a misread marker");
        return;
      }
      seen.insert(ids[i]);
    }
  }
  std::unique_ptr<TargetFinder> finder = makeFinder(b);
  if (b.renumbered) c.count("views of boards with other markers");
  bool threw = false;
  try { f = finder->findTargetFeatures(shot); }
  catch (const std::exception& e) { threw = true; }
  c.check(sameImg(before, shot), "input-modified", d);
  c.count(charuco ? "ChArUco views" : "ArUco views");
  if (anyHidden) c.count("views with hidden parts");
  if (!b.strays.empty()) c.count("views with stray markers");
  // every reported feature is the one it claims to be
  auto all = places(b);
  std::size_t known = 0;
  std::map<unsigned, std::size_t> per;
  for (auto& p : all) per[p.id]++;
  for (auto& kv : f)
  {
    c.check(per.count(kv.first) > 0, "unknown-feature", cat(d, ": id ", kv.first));
    if (per.count(kv.first)) c.check(kv.second.size() == per[kv.first], "points-per-feature", cat(d, ": id ", kv.first, " has ", kv.second.size()));
  }
  const bool easy = v.tilt < 0.5 && v.px / (b.d->markerSize + 2) > 4 && std::max(v.w, v.h) < 33 * v.px && v.px > 26 && (white - black) > 90;
  // shortest marker side in this view
  for (auto& p : all)
  {
    const V2 want = v.to(p.at);
    const double unit = charuco ? double(b.a) : double(b.a);
    const double px = std::max((v.to(p.at + V2(unit, 0)) - want).norm(), (v.to(p.at + V2(0, unit)) - want).norm());
    bool inView = true;   // everything it is measured from is in plain view
    int adjacent = 0;
    if (anyHidden)
    {
      if (charuco)
      {
        for (std::size_t i = 0; i < b.markers.size(); ++i)
          if ((b.markers[i].at + V2(L, L) / 2 - p.at).norm() < 0.8 * b.a)
          {
            adjacent++;
            inView = inView && plain[i];
          }
        const int x = int(std::lround(want.x())), y = int(std::lround(want.y()));
        if (x >= 0 && y >= 0 && x < v.w && y < v.h && nearHidden.at<uchar>(y, x)) inView = false;
      }
      else
        inView = plain[p.marker];
    }
    auto it = f.find(p.id);
    if (it == f.end())
    {
      if (charuco && b.n < 2) continue;
      bool sees = true;   // the detector underneath does see what this feature is made of
      if (charuco)
      {
        for (std::size_t i = 0; i < b.markers.size(); ++i)
          if ((b.markers[i].at + V2(L, L) / 2 - p.at).norm() < 0.8 * b.a && !seen.count(b.markers[i].id)) sees = false;
      }
      else
        sees = seen.count(int(p.id));
      if (!sees)
      {
        c.count("features whose marker was not seen");
        continue;
      }
      if (easy && !anyHidden) c.check(false, threw ? "easy-view-refused" : "feature-missing", cat(d, ": id ", p.id));
      else if (easy && inView) c.check(false, "plain-feature-missing", cat(d, ": id ", p.id));
      continue;
    }
    if (p.k >= it->second.size()) continue;
    const V2 got = it->second[p.k];
    const double e = (got - want).norm();
    const std::string dd = cat(d, ": id ", p.id, " point ", p.k, " reported at ", got.transpose(), " is at ", want.transpose());
    if (!c.check(got.allFinite() && e < std::max(4.0, (inView ? 0.2 : 0.45) * px), "wrong-attribution", dd)) continue;
    ++known;
    c.count("features compared with the truth");
    if (inView) {
      if (v.tilt < 0.7) c.near(e, 0, charuco ? 1.8 : 2.6, charuco ? "corner-position" : "marker-corner-position", dd);
      c.count("features in plain view");
    }
  }
  if (easy && !anyHidden) c.count(seen.size() >= b.markers.size() ? "easy complete views" : "easy views with unseen markers");
  // pairs a calibration would use
  if (!f.empty())
  {
    Correspondence2D3D::Set s;
    try { s = finder->target().createCorrespondences(f); }
    catch (const std::exception& e) { c.check(false, "pairs-refused", cat(d, ": ", e.what())); }
    std::size_t n = 0;
    for (auto& kv : f) n += kv.second.size();
    c.check(s.size() == n, "pair-count", d);
    for (auto& q : s)
    {
      const V2 want = v.to(q.in_target.head<2>());
      const double px = std::max((v.to(q.in_target.head<2>() + V2(b.a, 0)) - want).norm(), (v.to(q.in_target.head<2>() + V2(0, b.a)) - want).norm());
      c.check((q.in_image - want).norm() < std::max(4.0, 0.45 * px) && std::abs(q.in_target.z()) < 1e-9, "wrong-pair", cat(d, ": ", q.in_target.transpose(), " paired with ", q.in_image.transpose()));
      c.count("pairs compared");
    }
    cv::Mat drawn = finder->drawTargetFeatures(shot, f);
    c.check(sameImg(before, shot), "drawing-modified-input", d);
    c.check(drawn.size() == shot.size() && drawn.type() == shot.type() && !sameImg(drawn, shot), "drawing", d);
    c.count("drawings");
    // the identity is part of the drawing (in colour: on a grey picture OpenCV writes white on white)
    cv::Mat paper = shot;
    if (paper.channels() == 1) cv::cvtColor(shot, paper, cv::COLOR_GRAY2BGR);
    for (auto& kv : f)
    {
      V2 at = V2::Zero();   // the middle of the marker, where the identity is written
      for (const auto& q : kv.second) at += q / double(kv.second.size());
      if (at.x() < 40 || at.y() < 40 || at.x() > shot.cols - 90 || at.y() > shot.rows - 40) continue;
      TargetFeatures one, other;
      one[kv.first] = kv.second;
      other[kv.first + 11] = kv.second;
      const cv::Mat a = finder->drawTargetFeatures(paper, one), a2 = finder->drawTargetFeatures(paper, one), b2 = finder->drawTargetFeatures(paper, other);
      c.check(sameImg(a, a2), "drawing-differs", d);
      c.check(!sameImg(a, b2), "drawing-without-identity", cat(d, ": features ", kv.first, " and ", kv.first + 11, " look alike"));
      c.count("identities drawn");
      break;
    }
    if (r.chance(0.2))
    {
      TargetFeatures g = finder->findTargetFeatures(shot);
      c.check(g == f, "repeat-differs", d);
    }
  }
}

static void anything(Case& c)
{
  Rng& r = c.rng;
  Print b = makePrint(r, r.chance(0.5));
  cv::Mat img = noiseImage(r, r.range(1, 200), r.range(1, 200), r.chance(0.6) ? CV_8UC1 : CV_8UC3);
  const std::string d = cat(b.charuco ? "ChArUco" : "ArUco", " in noise ", img.cols, "x", img.rows);
  c.nontrivial(hashImg(img));
  std::unique_ptr<TargetFinder> finder = makeFinder(b);
  TargetFeatures f;
  const cv::Mat before = img.clone();
  try { f = finder->findTargetFeatures(img); }
  catch (const std::exception&) {}
  c.check(sameImg(before, img), "input-modified", d);
  // Noise can happen to spell a marker of a small dictionary: only then OpenCV sees it as well
  std::set<int> spelt;
  {
    std::vector<std::vector<cv::Point2f>> at;
    std::vector<int> ids;
    cv::aruco::detectMarkers(img, cv::aruco::getPredefinedDictionary(b.dict), at, ids);
    spelt.insert(ids.begin(), ids.end());
    c.count(spelt.empty() ? "noise without a marker" : "noise that spells a marker");
  }
  c.check(f.empty() || !spelt.empty(), "features-in-noise", d);
  try
  {
    cv::Mat drawn = finder->drawTargetFeatures(img, f);
  }
  catch (const std::exception&) {}
  c.check(sameImg(before, img), "drawing-modified-input", d);
  c.count("noise images");
}

VH_CASE(C21)
{
  if (c.index % 10 == 9) anything(c);
  else board(c, c.index % 2);
}
