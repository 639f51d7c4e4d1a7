// C17: intrinsic validation reports the disagreement between the two half targets
#include "opt.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
using namespace vh;
using namespace rct_optimizations;

struct Halves
{
  bool threw = false, converged = true;
  double cost = 0;
  Iso a, b;
};
static Halves halves(const Correspondence2D3D::Set& s, const CameraIntrinsics& k, const Iso& guess)
{
  Halves h;
  for (int i = 0; i < 2; ++i)
  {
    PnPProblem p;
    p.intr = k;
    p.camera_to_target_guess = guess;
    for (std::size_t j = i ? s.size() / 2 : 0; j < (i ? s.size() : s.size() / 2); ++j) p.correspondences.push_back(s[j]);
    try
    {
      PnPResult r = optimize(p);
      h.converged = h.converged && r.converged;
      h.cost = std::max(h.cost, r.final_cost_per_obs);
      (i ? h.b : h.a) = r.camera_to_target;
    }
    catch (const std::exception&)
    {
      h.threw = true;
    }
  }
  return h;
}

struct Setup
{
  Target t;
  CameraIntrinsics k;
};
static Setup make(Rng& r)
{
  Setup s;
  s.t = gridTarget(r, r.range(4, 7), r.range(4, 7), r.uni(0.02, 0.2), r.chance(0.5));
  if (r.chance(0.2)) s.t.pts.push_back(s.t.pts[0] + V3(0.3, 0.4, 0) * s.t.size);   // odd number of features
  s.k = randIntr(r);
  return s;
}
static Correspondence2D3D::Set see(Rng& r, const Setup& s, const Iso& v, double noise, bool wrongK)
{
  CameraIntrinsics k = s.k;
  if (wrongK)
  {
    k.fx() *= 1.03;
    k.cy() += 9;
  }
  auto o = observe(k, v, s.t);
  for (auto& q : o) q.in_image += V2(r.gauss(), r.gauss()) * noise;
  return o;
}

static void compareDiff(Case& c, const VirtualCorrespondenceResult& g, const Halves& h, double size, double tol, const std::string& d)
{
  Iso want = mk(h.a.linear().transpose() * h.b.linear(), h.a.linear().transpose() * (h.b.translation() - h.a.translation()));
  poseNear(c, g.t1_to_t2, want, tol, tol * size, "difference", d);
  c.near(g.positional_error, want.translation().norm(), tol * size, "positional-error", d);
  c.near(g.angular_error, rotDist(h.a, h.b), tol, "angular-error", d);
  c.near(g.positional_error, g.t1_to_t2.translation().norm(), 1e-9 * size, "positional-error-own", d);
  c.near(g.angular_error, rotDist(g.t1_to_t2, Iso::Identity()), 1e-7, "angular-error-own", d);
}

static void diff(Case& c)
{
  Rng& r = c.rng;
  Setup s = make(r);
  Iso v = viewPose(r, s.t, 1.6, 4, 0.2, 0.8);
  if (!allInFront(v, s.t, 0.3 * s.t.size)) return c.count("views not usable");
  const bool exact = r.chance(0.35);
  auto o = see(r, s, v, exact ? 0 : r.logu(0.01, 2), !exact && r.chance(0.5));
  if (r.chance(0.5)) r.shuffle(o);   // halves of any shape
  Iso guess = perturb(v, r, 0.15, 0.08 * v.translation().norm());
  Halves h = halves(o, s.k, guess);
  std::string d = cat(o.size(), exact ? " exact" : " noisy", " features from ", show(v));
  c.sample(d);
  c.nontrivial(hashIso(v, o.size()));
  double threshold = 1.0;
  bool mustThrow = h.threw || !h.converged;
  const bool near = !mustThrow && h.cost > 1e-9 && r.chance(0.5);
  if (near) threshold = h.cost * (r.chance(0.5) ? r.uni(0.3, 0.98) : r.uni(1.02, 3));
  mustThrow = mustThrow || h.cost > threshold;
  bool threw = false;
  VirtualCorrespondenceResult g;
  try
  {
    if (near || r.chance(0.5)) g = measureVirtualTargetDiff(o, s.k, guess, threshold);
    else g = measureVirtualTargetDiff(o, s.k, guess);
  }
  catch (const std::exception&) { threw = true; }
  c.check(threw == mustThrow, mustThrow ? "bad-fit-accepted" : "good-fit-refused", cat(d, ": cost ", h.cost, " threshold ", threshold, " converged ", h.converged));
  if (threw) return c.count(h.threw || !h.converged ? "halves without a solution refused" : "halves above the threshold refused");
  if (mustThrow) return;
  compareDiff(c, g, h, s.t.size, 1e-6, d);
  if (exact)
  {
    // far smaller than any intrinsic error would cause, whatever local accuracy the solver stops at
    c.near(g.positional_error, 0, 2e-3 * s.t.size, "exact-positional", d);
    c.near(g.angular_error, 0, 2e-3, "exact-angular", d);
    c.count("exact views");
  }
  else
    c.count("noisy views");
}

static void oneBadHalf(Case& c)
{
  // one half fits, the other does not
  Rng& r = c.rng;
  Setup s = make(r);
  Iso v = viewPose(r, s.t, 1.6, 4, 0.2, 0.8);
  if (!allInFront(v, s.t, 0.3 * s.t.size)) return c.count("views not usable");
  auto o = observe(s.k, v, s.t);
  const int bad = r.range(0, 1);
  for (std::size_t i = 0; i < o.size(); ++i)
    if ((i >= o.size() / 2) == (bad == 1)) o[i].in_image += V2(r.gauss(), r.gauss()) * r.uni(8, 60);
  Iso guess = perturb(v, r, 0.1, 0.05 * v.translation().norm());
  Halves h = halves(o, s.k, guess);
  std::string d = cat("half ", bad, " disturbed, cost ", h.cost);
  c.nontrivial(hashIso(v, 5));
  if (!h.threw && h.cost < 1.1) return c.count("views not usable");
  bool threw = false;
  try { measureVirtualTargetDiff(o, s.k, guess); }
  catch (const std::exception&) { threw = true; }
  c.check(threw, "bad-half-accepted", d);
  c.count(bad ? "bad second halves refused" : "bad first halves refused");
}

static void accuracy(Case& c)
{
  Rng& r = c.rng;
  Setup s = make(r);
  const Iso camMount = randPose(r, 0.4), tgtMount = randPose(r, 0.4), base = r.chance(0.3) ? Iso::Identity() : randPose(r, 2);
  const bool exact = r.chance(0.3);
  const double noise = exact ? 0 : r.logu(0.02, 0.6);
  const bool wrongK = !exact && r.chance(0.3);
  Observation2D3D::Set obs;
  const int n = r.chance(0.1) ? r.range(10, 16) : r.range(1, 7);
  for (int i = 0; i < n; ++i)
  {
    Iso v = viewPose(r, s.t, 1.6, 4, 0.2, 0.8);
    if (!allInFront(v, s.t, 0.3 * s.t.size)) { --i; continue; }
    Observation2D3D o;
    o.correspondence_set = see(r, s, v, noise, wrongK);
    // camera base to camera mount is the inverse of what makes the view true: base * wrist * tgtMount = camBase * camMount * v
    o.to_target_mount = randPose(r, 2);
    o.to_camera_mount = base * o.to_target_mount * tgtMount * v.inverse() * camMount.inverse();
    obs.push_back(o);
  }
  // guesses are not exact
  const Iso camUse = perturb(camMount, r, 0.04, 0.02 * s.t.size), tgtUse = perturb(tgtMount, r, 0.04, 0.02 * s.t.size);
  std::string d = cat(n, exact ? " exact" : " noisy", " observations of ", s.t.pts.size(), " features");
  c.sample(d);
  c.nontrivial(hashIso(obs[0].to_camera_mount, uint64_t(n)));
  double threshold = pick(r, { 1.0, 0.5, 100.0 });
  std::vector<double> p, a;
  bool mustThrow = false, close = false;
  double cost = 0;
  for (auto& o : obs)
  {
    Iso guess = (o.to_camera_mount * camUse).inverse() * (base * o.to_target_mount * tgtUse);
    Halves h = halves(o.correspondence_set, s.k, guess);
    mustThrow = mustThrow || h.threw || !h.converged || h.cost > threshold;
    close = close || std::abs(h.cost - threshold) < 1e-3 * threshold;
    cost = std::max(cost, h.cost);
    p.push_back((h.a.inverse() * h.b).translation().norm());
    a.push_back(rotDist(h.a, h.b));
  }
  if (close) return c.count("costs too close to the threshold");
  if (r.chance(0.15) && n > 1)
  {
    auto odd = obs;
    auto& q = odd[std::size_t(r.range(0, n - 1))].correspondence_set;
    if (r.chance(0.5)) q.pop_back();
    else q.push_back(q[0]);
    bool threw = false;
    try { measureIntrinsicCalibrationAccuracy(odd, s.k, camUse, tgtUse, base, 1e9); }
    catch (const std::exception&) { threw = true; }
    c.check(threw, "sizes-accepted", d);
    c.count("observations of different sizes refused");
  }
  bool threw = false;
  IntrinsicCalibrationAccuracyResult g;
  try { g = measureIntrinsicCalibrationAccuracy(obs, s.k, camUse, tgtUse, base, threshold); }
  catch (const std::exception&) { threw = true; }
  c.check(threw == mustThrow, mustThrow ? "accuracy-bad-fit-accepted" : "accuracy-refused", cat(d, ": worst cost ", cost, " threshold ", threshold));
  if (threw) return c.count("accuracy of bad fits refused");
  if (mustThrow) return;
  auto ms = [](const std::vector<double>& x) {
    double m = 0, v = 0;
    for (double q : x) m += q / double(x.size());
    for (double q : x) v += (q - m) * (q - m) / double(x.size());
    return std::make_pair(m, std::sqrt(v));
  };
  auto P = ms(p), A = ms(a);
  c.near(g.pos_error.first, P.first, 1e-6 * s.t.size, "accuracy-position-mean", d);
  c.near(g.pos_error.second, P.second, 1e-6 * s.t.size, "accuracy-position-stdev", d);
  c.near(g.ang_error.first, A.first, 1e-6, "accuracy-angle-mean", d);
  c.near(g.ang_error.second, A.second, 1e-6, "accuracy-angle-stdev", d);
  c.count(exact ? "accuracies of exact data" : "accuracies of noisy data");
  if (exact)
  {
    c.near(g.pos_error.first, 0, 2e-3 * s.t.size, "accuracy-exact", d);
    c.near(g.ang_error.first, 0, 2e-3, "accuracy-exact", d);
  }
}

VH_CASE(C17)
{
  const int k = c.rng.range(0, 9);
  if (k < 4) diff(c);
  else if (k < 5) oneBadHalf(c);
  else accuracy(c);
}
