// C16: noise statistics equal the mean and spread of the per-image solutions
#include "opt.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/noise_qualification.h>
using namespace vh;
using namespace rct_optimizations;
using Eigen::Quaterniond;

static double qangle(const Quaterniond& a, const Quaterniond& b) { return rotDist(a.toRotationMatrix(), b.toRotationMatrix()); }

static Eigen::Vector4d extreme(const std::vector<Quaterniond>& q, double& gap, double& best)
{
  Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
  for (auto& a : q)
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) M(i, j) += a.coeffs()[i] * a.coeffs()[j];
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(M);
  best = es.eigenvalues()(3);
  gap = (es.eigenvalues()(3) - es.eigenvalues()(2)) / double(q.size());
  return es.eigenvectors().col(3);
}

static void checkMean(Case& c, const std::vector<Quaterniond>& q, const Quaterniond& m, const std::string& d)
{
  double gap, best;
  Eigen::Vector4d e = extreme(q, gap, best);
  if (!c.check(m.coeffs().allFinite(), "mean-finite", d)) return;
  c.near(m.norm(), 1, 1e-9, "mean-norm", d);
  double got = 0;
  for (auto& a : q) got += std::pow(a.coeffs().dot(m.coeffs()), 2);
  c.near(got, best, 1e-9 * double(q.size()), "mean-alignment", cat(d, ": summed squared alignment"));
  if (gap > 1e-3) c.near(qangle(m, Quaterniond(e)), 0, 1e-9 / gap + 1e-7, "mean-rotation", cat(d, ": angle to the best rotation"));
}

static double spread(const std::vector<Quaterniond>& q, const Quaterniond& m)
{
  double v = 0;
  for (auto& a : q) v += std::pow(qangle(a, m), 2);
  return q.size() < 2 ? 0 : std::sqrt(v / double(q.size() - 1));
}

static std::vector<Quaterniond> cluster(Rng& r, int n, double w)
{
  Quaterniond m(randRot(r));
  if (r.chance(0.15)) m = Quaterniond::Identity();
  if (r.chance(0.15)) m = Quaterniond(rot(unit(r) * M_PI));   // half turn: the sign of w is noise
  std::vector<Quaterniond> o;
  for (int i = 0; i < n; ++i)
  {
    Quaterniond q(m.toRotationMatrix() * rot(rotvec(r, w)));
    if (r.chance(0.5)) q.coeffs() *= -1;
    o.push_back(q.normalized());
  }
  return o;
}

static void quaternions(Case& c)
{
  Rng& r = c.rng;
  const int n = r.chance(0.1) ? 1 : r.range(2, 40);
  const double w = r.chance(0.2) ? r.uni(1, 3.1) : r.logu(1e-6, 1);
  auto q = cluster(r, n, w);
  std::string d = cat(n, " quaternions within ", w, " rad");
  c.sample(d);
  c.nontrivial(hashDouble(q[0].x(), hashDouble(q[0].w(), uint64_t(n))));
  const auto copy = q;
  QuaternionStats s = computeQuaternionStats(q);
  Quaterniond m = computeQuaternionMean(q);
  checkMean(c, q, s.mean, d);
  checkMean(c, q, m, d);
  c.near(qangle(m, s.mean), 0, 1e-12, "mean-same", cat(d, ": the two means"));
  const double want = spread(q, s.mean);
  c.near(s.stdev, want, 1e-7 + 1e-9 * want, "stdev", d);
  c.count("quaternion sets");
  double gap, best;
  extreme(q, gap, best);
  if (gap > 1e-3)
  {
    auto p = q;
    r.shuffle(p);
    int neg = 0;
    for (auto& a : p)
      if (r.chance(0.5)) { a.coeffs() *= -1; ++neg; }
    QuaternionStats t = computeQuaternionStats(p);
    c.near(qangle(t.mean, s.mean), 0, 1e-9 / gap + 1e-7, "mean-order-sign", cat(d, ": after reordering and negating ", neg));
    c.near(t.stdev, s.stdev, 1e-7 + 1e-9 * want + 1e-9 / gap, "stdev-order-sign", cat(d, ": after reordering and negating ", neg));
    c.count("reordered and negated sets");
  }
  // identical inputs, with signs
  std::vector<Quaterniond> same;
  for (int i = 0; i < n; ++i)
  {
    same.push_back(q[0]);
    if (r.chance(0.5)) same.back().coeffs() *= -1;
  }
  QuaternionStats t = computeQuaternionStats(same);
  c.near(t.stdev, 0, 1e-7, "identical-spread", cat(n, " identical quaternions"));
  c.near(qangle(t.mean, q[0]), 0, 1e-7, "identical-mean", cat(n, " identical quaternions"));
  c.count("identical sets");
}

template <typename P>
static void noise(Case& c, const char* what, const Target& t, const std::function<P(Iso)>& image)
{
  Rng& r = c.rng;
  const int n = r.chance(0.08) ? 1 : r.range(2, 9);
  Iso v = viewPose(r, t, 2, 4, 0.2, 0.7);
  std::vector<P> in;
  int wild = 0;
  const bool identical = r.chance(0.1);
  for (int i = 0; i < n; ++i)
  {
    if (identical && i > 0) { in.push_back(in[0]); continue; }
    P p = image(v);
    const double k = r.u01();
    if (k < 0.12 && n > 1)
    {
      // an image that may not converge
      p.camera_to_target_guess = randPose(r, r.logu(1, 1e4) * t.size);
      ++wild;
    }
    else
      p.camera_to_target_guess = perturb(v, r, 0.2, 0.1 * t.size);
    in.push_back(p);
  }
  // the same images one at a time
  std::vector<V3> tr;
  std::vector<Quaterniond> q;
  bool thrown = false;
  int unconverged = 0;
  for (auto& p : in)
  {
    try
    {
      PnPResult s = optimize(p);
      if (s.converged)
      {
        tr.push_back(s.camera_to_target.translation());
        q.push_back(Quaterniond(s.camera_to_target.linear()));
      }
      else
        ++unconverged;
    }
    catch (const std::exception&)
    {
      thrown = true;
    }
  }
  std::string d = cat(what, ", ", n, " images, ", unconverged, " not converged, ", wild, " wild guesses");
  if (thrown) return c.count("image sets with an unsolvable image");
  if (tr.empty()) return c.count("image sets without a solution");
  c.sample(d);
  c.nontrivial(hashDouble(tr[0].x(), hashIso(v, uint64_t(n))));
  PnPNoiseStat s;
  if constexpr (std::is_same<P, PnPProblem>::value) s = qualifyNoise2D(in);
  else s = qualifyNoise3D(in);
  V3 mean = V3::Zero(), var = V3::Zero();
  for (auto& x : tr) mean += x / double(tr.size());
  for (auto& x : tr) var += (x - mean).cwiseAbs2() / double(tr.size());
  double scale = 0;
  for (auto& x : tr) scale = std::max(scale, x.norm());
  for (int a = 0; a < 3; ++a)
  {
    c.near(s.p_stat.mean[a], mean[a], 1e-9 * scale, "position-mean", cat(d, " axis ", a));
    c.near(s.p_stat.stdev[a], std::sqrt(var[a]), 1e-6 * std::sqrt(var[a]) + 1e-7 * scale, "position-stdev", cat(d, " axis ", a));
  }
  checkMean(c, q, s.q_stat.mean, d);
  const double want = spread(q, s.q_stat.mean);
  c.near(s.q_stat.stdev, want, 1e-7 + 1e-9 * want, "orientation-stdev", d);
  c.count(std::string(what) + " sets qualified");
  c.count("images left out for not converging", unconverged);
  if (identical) c.count("identical image sets");
}

VH_CASE(C16)
{
  Rng& r = c.rng;
  const int k = r.range(0, 9);
  if (k < 4) return quaternions(c);
  const double px = r.logu(1e-3, 3), m = r.logu(1e-6, 3e-3);
  CameraIntrinsics K = randIntr(r);
  Target g = randTarget(r, 8);
  if (k < 7)
    noise<PnPProblem>(c, "2D", g, [&](Iso v) {
      PnPProblem p;
      p.intr = K;
      for (auto& x : g.pts) p.correspondences.push_back(Correspondence2D3D(project(K, v * x) + V2(r.gauss(), r.gauss()) * px, x));
      return p;
    });
  else
    noise<PnPProblem3D>(c, "3D", g, [&](Iso v) {
      PnPProblem3D p;
      for (auto& x : g.pts) p.correspondences.push_back(Correspondence3D3D(v * x + V3(r.gauss(), r.gauss(), r.gauss()) * m, x));
      return p;
    });
}
