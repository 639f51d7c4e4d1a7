// C15: homography validation is exact on planar data and exposes bad features
#include "gen.h"
#include <algorithm>
#include <memory>
#include <rct_optimizations/validation/homography_validation.h>
using namespace vh;
using namespace rct_optimizations;

struct Chosen : CorrespondenceSampler
{
  std::vector<std::size_t> idx;
  std::vector<std::size_t> getSampleCorrespondenceIndices() const override { return idx; }
};

template <typename F>
static bool refuses(F f)
{
  try { f(); }
  catch (const std::exception&) { return true; }
  return false;
}

// the library fits a homography normalised to H33 = 1; is that well posed for these samples?
static double conditioning(const Correspondence2D3D::Set& s, const std::vector<std::size_t>& idx)
{
  Eigen::MatrixXd A(2 * idx.size(), 8);
  for (std::size_t i = 0; i < idx.size(); ++i)
  {
    const auto& c = s[idx[i]];
    const double x = c.in_target.x(), y = c.in_target.y(), u = c.in_image.x(), v = c.in_image.y();
    A.row(2 * i) << x, y, 1, 0, 0, 0, -u * x, -u * y;
    A.row(2 * i + 1) << 0, 0, 0, x, y, 1, -v * x, -v * y;
  }
  for (int j = 0; j < 8; ++j) { double n = A.col(j).norm(); if (n > 0) A.col(j) /= n; }
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(A);
  return svd.singularValues()(7) / svd.singularValues()(0);
}

static void errors(Case& c, bool three)
{
  Rng& r = c.rng;
  const int stride = r.chance(0.6) ? 1 : r.range(2, 4);
  int rows, cols;
  do { rows = r.range(2, 9); cols = r.range(2, 9); } while (rows * cols < 8);
  Target t = gridTarget(r, rows, cols, r.uni(0.01, 0.3), r.chance(0.5));
  const double sp = t.size / std::max(1, std::max(rows, cols) - 1);
  if (stride > 1)
  {
    // several points per grid element, e.g. the corners of a marker
    std::vector<V3> p;
    const double a = 0.6 * sp;
    for (auto& q : t.pts)
      for (int k = 0; k < stride; ++k) p.push_back(q + V3(k == 1 || k == 2 ? a : 0, k >= 2 ? -a : 0, 0));
    t.pts = p;
  }
  Iso v = viewPose(r, t, 1.2, 5, 0, 1.25);
  if (r.chance(0.25)) v = mk(v.linear() * rot(V3(M_PI, 0, 0)), v.translation());   // seen from the other side
  if (!allInFront(v, t, 0.05 * t.size)) return c.count("views not usable");
  if (r.chance(three ? 0.3 : 0.0)) v = mk(rot(V3(0, M_PI, 0)) * v.linear(), rot(V3(0, M_PI, 0)) * v.translation());   // sensor looking along -z
  CameraIntrinsics k = randIntr(r);
  Correspondence3D3D::Set s3 = observe3(v, t);
  if (three && r.chance(0.5))   // 3D target heights do not take part
    for (auto& q : s3) q.in_target.z() = r.uni(-1, 1);
  Correspondence2D3D::Set s2;
  for (auto& q : s3)
    s2.push_back(Correspondence2D3D(three ? V2(q.in_image.x() / q.in_image.z(), q.in_image.y() / q.in_image.z()) : project(k, q.in_image), q.in_target));
  const std::size_t n = s2.size();
  std::vector<std::size_t> idx;
  std::unique_ptr<CorrespondenceSampler> sampler;
  const int kind = r.range(0, 2);
  if (kind == 0)
  {
    sampler.reset(new GridCorrespondenceSampler(std::size_t(rows), std::size_t(cols), std::size_t(stride)));
    idx = sampler->getSampleCorrespondenceIndices();
  }
  else if (kind == 1)
  {
    sampler.reset(new RandomCorrespondenceSampler(n, std::size_t(r.range(4, int(n) / 2)), unsigned(r.next())));
    idx = sampler->getSampleCorrespondenceIndices();
  }
  else
  {
    Chosen* ch = new Chosen;
    sampler.reset(ch);
    std::vector<std::size_t> all(n);
    for (std::size_t i = 0; i < n; ++i) all[i] = i;
    r.shuffle(all);
    all.resize(std::size_t(r.range(4, int(n) / 2)));
    ch->idx = idx = all;
  }
  for (auto i : idx)
    if (!c.check(i < n, "sample-index", cat("index ", i, " of ", n))) return;
  const double cond = conditioning(s2, idx);
  std::string d = cat(three ? "3D " : "2D ", rows, "x", cols, " grid, ", stride, " per element, ", idx.size(), " samples from sampler ", kind, ", view ", show(v), " conditioning ", cond);
  c.sample(d);
  if (cond < 1e-7) return c.count("degenerate samples left out");
  c.nontrivial(hashIso(v, n));
  auto run = [&]() { return three ? calculateHomographyError(s3, *sampler) : calculateHomographyError(s2, *sampler); };
  // image scale of the errors: pixels, or meters for 3D features
  double scale = 0;
  for (std::size_t i = 0; i < n; ++i) scale = std::max(scale, three ? s3[i].in_image.norm() : s2[i].in_image.norm() + 100);
  const double tol = scale * (1e-10 + 1e-14 / cond) * 10;
  Eigen::VectorXd e = run();
  if (!c.check(e.size() == Eigen::Index(n), "error-count", cat(d, ": ", e.size(), " errors for ", n))) return;
  for (Eigen::Index i = 0; i < e.size(); ++i)
  {
    c.check(e[i] >= 0, "negative-error", cat(d, ": error ", e[i], " of feature ", i));
    c.near(e[i], 0, tol, "exact-error", cat(d, ": error of feature ", i));
  }
  c.count(three ? "exact 3D sets" : "exact 2D sets");
  c.count("errors of exact features compared", double(n));
  // move some of the features that are not sampled
  std::vector<std::size_t> rest;
  for (std::size_t i = 0; i < n; ++i)
    if (std::find(idx.begin(), idx.end(), i) == idx.end()) rest.push_back(i);
  r.shuffle(rest);
  const std::size_t m = r.chance(0.7) ? 1 : std::min<std::size_t>(rest.size(), std::size_t(r.range(1, 4)));
  std::vector<double> want(n, 0.0);
  for (std::size_t j = 0; j < std::min(m, rest.size()); ++j)
  {
    const std::size_t i = rest[j];
    if (three)
    {
      V3 o = box(r, 1) * r.logu(1e-4, 0.5) * s3[i].in_image.norm();
      const bool lateral = r.chance(0.7);
      if (lateral) o.z() = 0;
      V3 was = s3[i].in_image, now = was + o;
      if (std::abs(now.z()) < 0.1 * std::abs(was.z())) continue;
      s3[i].in_image = now;
      want[i] = lateral ? o.norm() : std::abs(now.z()) * (now / now.z() - was / was.z()).norm();
    }
    else
    {
      V2 o = V2(r.uni(-1, 1), r.uni(-1, 1)) * r.logu(0.01, 300);
      s2[i].in_image += o;
      want[i] = o.norm();
    }
  }
  e = run();
  if (!c.check(e.size() == Eigen::Index(n), "error-count", d)) return;
  for (std::size_t i = 0; i < n; ++i)
    c.near(e[Eigen::Index(i)], want[i], tol + 1e-9 * want[i], want[i] > 0 ? "moved-error" : "unmoved-error", cat(d, ": error of feature ", i, " after moving ", m, " features"));
  c.count("features moved", double(m));
}

static void gridSampler(Case& c)
{
  Rng& r = c.rng;
  const std::size_t rows = std::size_t(r.chance(0.5) ? r.range(0, 5) : r.range(2, 60)), cols = std::size_t(r.chance(0.5) ? r.range(0, 5) : r.range(2, 60)),
                    stride = std::size_t(r.range(1, 9));
  std::string d = cat("grid sampler of ", rows, " rows, ", cols, " columns, stride ", stride);
  c.nontrivial(rows * 10000 + cols * 10 + stride);
  std::vector<std::size_t> got;
  bool refused = refuses([&] { GridCorrespondenceSampler s(rows, cols, stride); got = s.getSampleCorrespondenceIndices(); });
  const bool can = rows >= 2 && cols >= 2 && rows * cols >= 8;
  if (!c.check(refused != can, can ? "grid-refused" : "grid-accepted", d)) return;
  c.count(can ? "grid samples" : "degenerate grids refused");
  if (!can) return;
  // the element in grid row i and column j starts at (i * cols + j) * stride
  std::vector<std::size_t> want;
  for (std::size_t i = 0; i < rows; ++i)
    for (std::size_t j = 0; j < cols; ++j)
      if ((i == 0 || i + 1 == rows) && (j == 0 || j + 1 == cols)) want.push_back((i * cols + j) * stride);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  std::string s;
  for (auto g : got) s += cat(" ", g);
  c.check(got == want, "grid-corners", cat(d, " chose", s));
}

static void randomSampler(Case& c)
{
  Rng& r = c.rng;
  const std::size_t n = std::size_t(r.chance(0.3) ? r.range(0, 8) : r.range(4, 200)), m = std::size_t(r.chance(0.2) ? r.range(0, 3) : r.range(4, std::max(4, int(n) + 2)));
  const unsigned seed = r.chance(0.3) ? unsigned(r.range(0, 3)) : unsigned(r.next());
  std::string d = cat("random sampler of ", m, " among ", n, ", seed ", seed);
  c.nontrivial(n * 1000 + m + uint64_t(seed) * 1000000);
  std::vector<std::size_t> got, again, other;
  bool refused = refuses([&] {
    RandomCorrespondenceSampler s(n, m, seed);
    got = s.getSampleCorrespondenceIndices();
    again = s.getSampleCorrespondenceIndices();
    other = RandomCorrespondenceSampler(n, m, seed).getSampleCorrespondenceIndices();
  });
  const bool can = m >= 4 && m <= n;
  if (!c.check(refused != can, can ? "random-refused" : "random-accepted", d)) return;
  c.count(can ? "random samples" : "random samplers refused");
  if (!can) return;
  c.check(got == again, "random-repeat", cat(d, ": two calls differ"));
  c.check(got == other, "random-seed", cat(d, ": two samplers of one seed differ"));
  c.check(got.size() == m, "random-count", cat(d, ": ", got.size(), " samples"));
  std::set<std::size_t> u(got.begin(), got.end());
  c.check(u.size() == got.size(), "random-distinct", cat(d, ": only ", u.size(), " distinct"));
  c.check(u.empty() || *u.rbegin() < n, "random-range", d);
  if (r.chance(0.05) && n >= 8)
  {
    // every index has the same chance
    const int seeds = 400;
    std::vector<int> h(n, 0);
    std::set<std::vector<std::size_t>> sets;
    for (int i = 0; i < seeds; ++i)
    {
      auto g = RandomCorrespondenceSampler(n, m, seed + unsigned(i)).getSampleCorrespondenceIndices();
      for (auto q : g)
        if (q < n) ++h[q];
      sets.insert(g);
    }
    const double p = double(m) / double(n), sd = std::sqrt(seeds * p * (1 - p)) + 1;
    for (std::size_t i = 0; i < n; ++i) c.near(h[i], seeds * p, 7 * sd, "random-uniform", cat(d, ": index ", i, " in ", seeds, " draws"));
    c.check(sets.size() > seeds / 2, "random-same", cat(d, ": only ", sets.size(), " different draws from ", seeds, " seeds"));
    c.count("uniformity tests");
  }
}

static void tooFew(Case& c)
{
  Rng& r = c.rng;
  Target t = gridTarget(r, 4, 5, 0.1, true);
  Iso v = viewPose(r, t, 2, 4, 0.2, 0.6);
  auto s2 = observe(randIntr(r), v, t);
  auto s3 = observe3(v, t);
  const std::size_t m = std::size_t(r.range(4, 10));
  const std::size_t n = std::size_t(r.range(0, int(2 * m) - 1));
  s2.resize(std::min(n, s2.size()));
  s3.resize(std::min(n, s3.size()));
  std::string d = cat(s2.size(), " correspondences for ", m, " samples");
  c.nontrivial(n * 100 + m + 7777777);
  c.count("too few correspondences");
  Chosen ch;
  for (std::size_t i = 0; i < m; ++i) ch.idx.push_back(i);
  c.check(refuses([&] { calculateHomographyError(s2, ch); }), "too-few-accepted", cat(d, " (2D)"));
  c.check(refuses([&] { calculateHomographyError(s3, ch); }), "too-few-accepted", cat(d, " (3D)"));
  // a sampler made for a larger set
  auto full = observe(randIntr(r), v, t);
  Chosen out;
  out.idx = { 0, 4, 15, full.size() + std::size_t(r.range(0, 3)) };
  c.check(refuses([&] { calculateHomographyError(full, out); }), "out-of-range-accepted", d);
}

VH_CASE(C15)
{
  switch (c.rng.range(0, 9))
  {
    case 0: case 1: case 2: errors(c, false); break;
    case 3: case 4: case 5: errors(c, true); break;
    case 6: gridSampler(c); break;
    case 7: case 8: randomSampler(c); break;
    default: tooFew(c);
  }
}
