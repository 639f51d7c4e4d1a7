// C22: targets pair detected features with their true 3D board positions
#include "img.h"
#include <numeric>
#include <opencv2/aruco/charuco.hpp>
#include <rct_image_tools/aruco_grid_target.h>
#include <rct_image_tools/charuco_grid_target.h>
#include <rct_image_tools/modified_circle_grid_target.h>
using namespace vh;
using namespace rct_image_tools;

struct Spec
{
  int kind = 0, rows = 0, cols = 0, dict = 0;   // 0 circle grid, 1 ArUco, 2 ChArUco
  double a = 0, b = 0;
  std::vector<int> ids;                        // of an ArUco or ChArUco board with other markers than 0, 1, 2...
  std::map<unsigned, std::vector<V3>> at;      // where every feature is on the board
};
static Spec makeSpec(Rng& r)
{
  Spec s;
  s.kind = r.range(0, 2);
  const int lo = s.kind == 2 ? 2 : 1, hi = r.chance(0.1) ? 24 : 8;
  s.rows = r.range(lo, hi);
  s.cols = r.chance(0.25) ? s.rows : r.range(lo, hi);
  s.dict = r.range(0, 16);
  s.a = r.chance(0.2) ? r.range(1, 20) * 0.01 : r.logu(1e-3, 2);
  s.b = s.kind == 1 ? s.a * r.uni(0.01, 2) : s.a * r.uni(0.3, 0.95);
  const double A = s.kind ? double(float(s.a)) : s.a, B = double(float(s.b));
  unsigned id = 0;
  const int many = cv::aruco::getPredefinedDictionary(s.dict)->bytesList.rows, need = s.kind == 1 ? s.rows * s.cols : s.rows * s.cols / 2;
  if (s.kind > 0 && need <= many && r.chance(0.4))
  {
    std::vector<int> all(static_cast<std::size_t>(many));
    std::iota(all.begin(), all.end(), 0);
    const int first = r.range(0, std::min(many - need, 12));
    const bool mixed = r.chance(0.5);
    for (int i = 0; i < need; ++i)
    {
      if (mixed) std::swap(all[std::size_t(i)], all[std::size_t(r.range(i, many - 1))]);
      s.ids.push_back(mixed ? all[std::size_t(i)] : first + i);
    }
  }
  switch (s.kind)
  {
    case 0:   // rows from the top, x along the columns, y along the rows upwards from the large dot at the lower left
      for (int i = 0; i < s.rows; ++i)
        for (int j = 0; j < s.cols; ++j) s.at[id++] = { V3(j * A, (s.rows - 1 - i) * A, 0) };
      break;
    case 1:   // markers row by row from the upper left corner of the board, y down, corners clockwise
      for (int i = 0; i < s.rows; ++i)
        for (int j = 0; j < s.cols; ++j)
        {
          const double x = j * (A + B), y = i * (A + B);
          s.at[s.ids.empty() ? id : unsigned(s.ids[id])] = { V3(x, y, 0), V3(x + A, y, 0), V3(x + A, y + A, 0), V3(x, y + A, 0) };
          ++id;
        }
      break;
    default:  // inner corners of the squares, row by row from the upper left, y down
      for (int i = 1; i < s.rows; ++i)
        for (int j = 1; j < s.cols; ++j) s.at[id++] = { V3(j * A, i * A, 0) };
      break;
  }
  return s;
}
static std::unique_ptr<rct_image_tools::Target> build(const Spec& s)
{
  if (s.kind == 0) return std::unique_ptr<rct_image_tools::Target>(new ModifiedCircleGridTarget(unsigned(s.rows), unsigned(s.cols), s.a));
  if (!s.ids.empty())
  {
    auto dict = cv::aruco::getPredefinedDictionary(s.dict);
    if (s.kind == 1)
    {
      auto b = cv::aruco::GridBoard::create(s.cols, s.rows, float(s.a), float(s.b), dict, s.ids.front());
      b->ids = s.ids;
      return std::unique_ptr<rct_image_tools::Target>(new ArucoGridTarget(b));
    }
    auto b = cv::aruco::CharucoBoard::create(s.cols, s.rows, float(s.a), float(s.b), dict);
    b->ids = s.ids;
    return std::unique_ptr<rct_image_tools::Target>(new CharucoGridTarget(b));
  }
  if (s.kind == 1) return std::unique_ptr<rct_image_tools::Target>(new ArucoGridTarget(s.rows, s.cols, float(s.a), float(s.b), s.dict));
  return std::unique_ptr<rct_image_tools::Target>(new CharucoGridTarget(s.rows, s.cols, float(s.a), float(s.b), s.dict));
}
static std::string show(const Spec& s)
{
  return cat(s.kind == 0 ? "circles " : s.kind == 1 ? "ArUco " : "ChArUco ", s.rows, "x", s.cols, " of ", s.a, "/", s.b, " dictionary ", s.dict, s.ids.empty() ? "" : cat(" markers from ", s.ids.front()));
}

// the print of the board, as OpenCV draws it, has every feature where the target says it is
static void printed(Case& c, const Spec& s, const rct_image_tools::Target& t, const std::string& d)
{
  const double W = s.kind == 1 ? s.cols * s.a + (s.cols - 1) * s.b : s.cols * s.a, H = s.kind == 1 ? s.rows * s.a + (s.rows - 1) * s.b : s.rows * s.a;
  if (W > 6.5 * H || H > 6.5 * W || std::max(s.rows, s.cols) > 6) return;
  const double side = s.kind == 1 ? s.a : s.b;
  double k = 72 / side;
  if (std::max(W, H) * k > 1100) k = 1100 / std::max(W, H);
  if (side * k < 60 || (s.kind == 1 && (s.b * k < 16)) || (s.kind == 2 && s.b > 0.8 * s.a)) return;
  const int w = int(std::lround(W * k)), h = int(std::lround(H * k)), m = 40;
  cv::Mat img;
  if (s.kind == 1) static_cast<const ArucoGridTarget&>(t).board->draw(cv::Size(w, h), img, 0, 1);
  else static_cast<const CharucoGridTarget&>(t).board->draw(cv::Size(w, h), img, 0, 1);
  cv::Mat page;
  cv::copyMakeBorder(img, page, m, m, m, m, cv::BORDER_CONSTANT, cv::Scalar(255));
  std::vector<int> ids;
  std::vector<std::vector<cv::Point2f>> cs;
  auto dict = cv::aruco::getPredefinedDictionary(s.dict);
  cv::aruco::detectMarkers(page, dict, cs, ids);
  TargetFeatures f;
  if (s.kind == 1)
  {
    for (std::size_t i = 0; i < ids.size(); ++i)
      for (auto& p : cs[i]) f[unsigned(ids[i])].push_back(V2(p.x, p.y));
  }
  else if (!ids.empty())
  {
    std::vector<cv::Point2f> cc;
    std::vector<int> ci;
    auto board = cv::aruco::CharucoBoard::create(s.cols, s.rows, float(s.a), float(s.b), dict);
    if (!s.ids.empty()) board->ids = s.ids;
    cv::aruco::interpolateCornersCharuco(cs, ids, page, board, cc, ci);
    for (std::size_t i = 0; i < ci.size(); ++i) f[unsigned(ci[i])].push_back(V2(cc[i].x, cc[i].y));
  }
  for (auto& q : t.createCorrespondences(f))
  {
    const V2 want(m - 0.5 + q.in_target.x() * k, m - 0.5 + q.in_target.y() * k);
    c.check((want - q.in_image).norm() < 4, "print", cat(d, ": ", q.in_target.transpose(), " printed at ", q.in_image.transpose(), ", expected at ", want.transpose()));
    c.count("features of prints");
  }
}

VH_CASE(C22)
{
  Rng& r = c.rng;
  Spec s = makeSpec(r);
  const std::string d = show(s);
  std::unique_ptr<rct_image_tools::Target> t = build(s);
  c.sample(d);
  uint64_t hash = hashDouble(s.a, hashDouble(s.b, uint64_t(s.kind) * 1000003 + uint64_t(s.rows) * 1009 + uint64_t(s.cols)));
  const double size = std::max(s.rows, s.cols) * (s.a + (s.kind == 1 ? s.b : 0)), tol = s.kind == 0 ? 1e-12 * size : 4e-7 * size;
  // the table of positions
  if (s.kind == 0)
  {
    auto pts = static_cast<ModifiedCircleGridTarget&>(*t).createPoints();
    c.check(pts.size() == s.at.size(), "table-size", d);
    for (std::size_t i = 0; i < pts.size() && i < s.at.size(); ++i) c.near((pts[i] - s.at[unsigned(i)][0]).norm(), 0, tol, "position", cat(d, ": point ", i, " at ", pts[i].transpose()));
  }
  else if (s.kind == 1)
  {
    auto& pts = static_cast<ArucoGridTarget&>(*t).points;
    c.check(pts.size() == s.at.size(), "table-size", d);
    for (auto& kv : pts)
    {
      auto it = s.at.find(unsigned(kv.first));
      if (!c.check(it != s.at.end() && kv.second.size() == 4, "identity", cat(d, ": id ", kv.first))) continue;
      for (std::size_t k = 0; k < 4; ++k) c.near((kv.second[k] - it->second[k]).norm(), 0, tol, "position", cat(d, ": id ", kv.first, " corner ", k, " at ", kv.second[k].transpose()));
    }
  }
  else
  {
    auto& pts = static_cast<CharucoGridTarget&>(*t).points;
    c.check(pts.size() == s.at.size(), "table-size", d);
    for (auto& kv : pts)
    {
      auto it = s.at.find(kv.first);
      if (!c.check(it != s.at.end(), "identity", cat(d, ": id ", kv.first))) continue;
      c.near((kv.second - it->second[0]).norm(), 0, tol, "position", cat(d, ": id ", kv.first, " at ", kv.second.transpose()));
    }
  }
  c.count(cat("targets ", s.kind));
  if (!s.ids.empty()) c.count("boards with other markers");
  if (s.rows != s.cols) c.count("oblong targets");

  // pairs
  TargetFeatures f;
  auto anyPoints = [&](std::size_t n) {
    VectorEigenVector<2> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(V2(r.uni(-10, 2000), r.uni(-10, 2000)));
    return v;
  };
  const double share = r.chance(0.3) ? 1.0 : r.u01();
  for (auto& kv : s.at)
    if (s.kind == 0 || r.chance(share)) f[kv.first] = anyPoints(kv.second.size());
  for (auto& kv : f) hash = hashDouble(kv.second[0].x(), hash);
  c.nontrivial(hash);
  const TargetFeatures before = f;
  auto judge = [&](const Correspondence2D3D::Set& got, const TargetFeatures& from, const std::string& how) {
    // every pair is a given observation of a feature with that feature's position, each once
    std::size_t n = 0;
    for (auto& kv : from) n += s.at.count(kv.first) ? s.at[kv.first].size() : 0;
    bool ok = c.check(got.size() == n, "pair-count", cat(d, how, ": ", got.size(), " pairs of ", n));
    std::multimap<std::pair<double, double>, V3> want;
    for (auto& kv : from)
      if (s.at.count(kv.first))
        for (std::size_t k = 0; k < s.at[kv.first].size() && k < kv.second.size(); ++k) want.emplace(std::make_pair(kv.second[k].x(), kv.second[k].y()), s.at[kv.first][k]);
    for (auto& q : got)
    {
      auto it = want.find({ q.in_image.x(), q.in_image.y() });
      if (!c.check(it != want.end(), "foreign-pair", cat(d, how, ": ", q.in_image.transpose()))) { ok = false; continue; }
      c.check((q.in_target - it->second).norm() <= tol, "wrong-position", cat(d, how, ": ", q.in_image.transpose(), " paired with ", q.in_target.transpose(), ", is ", it->second.transpose()));
      want.erase(it);
      c.count("pairs compared");
    }
    return ok;
  };
  Correspondence2D3D::Set pairs;
  try
  {
    pairs = t->createCorrespondences(f);
    judge(pairs, f, "");
  }
  catch (const std::exception& e)
  {
    c.check(false, "pairs-refused", cat(d, ": ", e.what()));
  }
  c.check(before == f, "input-modified", d);
  if (f.size() < s.at.size()) c.count("partial feature sets");

  // identities that are not on the target, incomplete features
  TargetFeatures g = f;
  const int how = r.range(0, 3);
  std::string what;
  switch (how)
  {
    case 0:
      g[s.at.rbegin()->first + 1 + unsigned(r.chance(0.7) ? r.range(0, 20) : r.range(0, 2000000000))] = anyPoints(s.kind == 1 ? 4 : 1);
      what = "unknown identity added";
      break;
    case 1:
      if (g.empty()) break;
      {
        auto it = std::next(g.begin(), r.range(0, int(g.size()) - 1));
        auto v = it->second;
        g.erase(it);
        g[s.at.rbegin()->first + 1 + unsigned(r.range(0, 50))] = v;
        what = "identity replaced";
      }
      break;
    case 2:
      if (g.empty()) break;
      std::next(g.begin(), r.range(0, int(g.size()) - 1))->second.clear();
      what = "feature without a point";
      break;
    default:
      if (g.empty() || s.kind != 1) break;
      std::next(g.begin(), r.range(0, int(g.size()) - 1))->second.push_back(V2(1, 2));
      what = "marker with five corners";
      break;
  }
  if (!what.empty())
  {
    try
    {
      auto got = t->createCorrespondences(g);
      // accepted: nothing but true pairs of what is on the target
      for (auto& q : got)
      {
        bool real = false;
        for (auto& kv : g)
          if (s.at.count(kv.first))
            for (std::size_t k = 0; k < kv.second.size() && k < s.at[kv.first].size(); ++k) real = real || (kv.second[k] == q.in_image && (s.at[kv.first][k] - q.in_target).norm() <= tol);
        c.check(real, "invented-pair", cat(d, ", ", what, ": ", q.in_image.transpose(), " with ", q.in_target.transpose()));
      }
      if (s.kind == 0) c.check(false, "incomplete-circles-accepted", cat(d, ", ", what));
      c.count("odd features left out");
    }
    catch (const std::exception&)
    {
      c.count("odd features refused");
    }
  }
  if (s.kind == 0 && s.at.size() > 1)
  {
    // a circle grid is only paired as a whole
    TargetFeatures h = f;
    h.erase(std::next(h.begin(), r.range(0, int(h.size()) - 1)));
    try
    {
      auto got = t->createCorrespondences(h);
      judge(got, h, " without one circle");
    }
    catch (const std::exception&)
    {
      c.count("odd features refused");
    }
  }
  if (s.kind > 0 && r.chance(0.15)) printed(c, s, *t, d);
}
