// C26: degenerate input never corrupts memory or ends the process.
// The sanitizers, hardened containers and live assertions watch; this file feeds and adds: only standard exceptions,
// no memory lost, nothing claimed about nothing, converged answers have finite costs.
#include "handeye.h"
#include "img.h"
#include "kin.h"
#include "multicam.h"
#include "opt.h"
#include <limits>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/circle_detector.h>
#include <rct_image_tools/image_utils.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/covariance_analysis.h>
#include <rct_optimizations/eigen_conversions.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/maximum_likelihood.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/projection.h>
#include <csetjmp>
#include <dlfcn.h>
using namespace vh;
using namespace rct_optimizations;
using namespace rct_image_tools;

// The installed Ceres was built with assertions and with Eigen 3.4.0, whose SVD indexes its list of singular values at -1
// for some finite matrices that span more than sixteen decades (repaired in later Eigen). That is not this repository's
// doing: exactly that assertion, raised from within Ceres, ends the call without a verdict. Every other one ends the run.
static std::jmp_buf svd_gave_up;
static bool in_call = false;
extern "C" [[noreturn]] void vh_assert_fail(const char* what, const char* file, unsigned line, const char* function) asm("__assert_fail");
extern "C" [[noreturn]] void vh_assert_fail(const char* what, const char* file, unsigned line, const char* function)
{
  Dl_info from;
  if (in_call && std::strstr(file, "/DenseCoeffsBase.h") && std::strstr(function, "Eigen::Ref<Eigen::Array<long int, 1, -1> >") &&
      dladdr(__builtin_return_address(0), &from) && from.dli_fname && std::strstr(from.dli_fname, "libceres"))
    std::longjmp(svd_gave_up, 1);
  std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, function, what);
  std::abort();
}

// ---- what may come out
struct Verdict
{
  bool claims = false;      // converged
  double cost = 0;          // final cost reported
};
// Runs one call repeatedly. `data`: residuals the call has to fit (0: nothing to fit), -1: not a solver
static void drive(Case& c, const std::string& what, const std::string& how, long data, const std::function<Verdict()>& call, bool mem)
{
  const std::string d = cat(what, " with ", how);
  bool returned = false;
  // A call that loses memory does so every time it is made; a cache stops growing
  std::size_t before = allocatedBytes();
  int grown = 0, i = 0;
  double last = 0;
  for (; i < (mem ? 14 : 1) && !(i > 2 && grown == 0); ++i)
  {
    Verdict v;
    in_call = true;
    if (setjmp(svd_gave_up))
    {
      in_call = false;
      c.count("not judged: Eigen's SVD inside Ceres gave up");
      return;
    }
    try
    {
      v = call();
      returned = true;
    }
    catch (const std::exception&)
    {
      returned = false;
    }
    catch (...)
    {
      c.check(false, "foreign exception: " + what, cat(d, ": threw something that is not derived from std::exception"));
      return;
    }
    if (i == 0 && returned && data >= 0)
    {
      if (data == 0) c.check(!(v.claims && std::isfinite(v.cost)), "claims a fit of nothing: " + what, cat(d, ": converged with cost ", v.cost, " although there is nothing to fit"));
      else c.check(!v.claims || std::isfinite(v.cost), "converged without a cost: " + what, cat(d, ": claims convergence with cost ", v.cost));
    }
    const std::size_t after = allocatedBytes();
    grown = after > before ? grown + 1 : 0;
    last = double(after) - double(before);
    before = after;
  }
  c.count(what + (returned ? ": returned" : ": refused"));
  c.count("calls", i);
  if (mem && before)
  {
    c.check(grown < 11, "memory lost: " + what, cat(d, ": every call keeps ", last, " bytes more"));
    c.count("memory balances");
  }
}
template <typename R>
static Verdict verdict(const R& r) { return {r.converged, r.final_cost_per_obs}; }
template <typename P>
static std::function<Verdict()> solve(const P& p)
{
  return [&p] { return verdict(optimize(p)); };
}

// ---- what may go in
static const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
static double odd(Rng& r)
{
  return pick(r, {0.0, -0.0, 1.0, -1.0, NaN, Inf, -Inf, 1e300, -1e300, 1e-300, 5e-324, 1e17, -1e9, 2147483648.0, 1e5, r.uni(-1, 1), r.uni(-1000, 1000)});
}
static Iso oddPose(Rng& r, const Iso& p)
{
  Iso o = p;
  switch (r.range(0, 9))
  {
    case 0: return Iso::Identity();
    case 1: o.matrix().setZero(); return o;
    case 2: o.matrix().setConstant(NaN); return o;
    case 3: o.linear() = rot(unit(r) * M_PI); return o;
    case 4: o.linear() *= odd(r); return o;
    case 5: o.translation()[r.range(0, 2)] = odd(r); return o;
    case 6: o.linear()(r.range(0, 2), r.range(0, 2)) = odd(r); return o;
    case 7: o.translation() = -o.translation(); return o;
    case 8: o.linear().col(r.range(0, 2)) *= -1; return o;
    default: o.translation() *= pick(r, {0, 1e-9, 1e6, 1e150, 1e300}); return o;
  }
}
static CameraIntrinsics oddIntr(Rng& r, CameraIntrinsics k)
{
  if (r.chance(0.3)) { k.values = {{0, 0, 0, 0}}; return k; }
  k.values[std::size_t(r.range(0, 3))] = odd(r);
  return k;
}
// One thing wrong with a set of correspondences
template <typename S>
static std::string spoilSet(Rng& r, S& s)
{
  const auto any = [&] { return std::size_t(r.range(0, int(s.size()) - 1)); };
  if (s.empty()) return "empty set";
  switch (r.range(0, 12))
  {
    case 0: s.clear(); return "empty set";
    case 1: s.resize(std::size_t(r.range(1, 4))); return cat(s.size(), " correspondences");
    case 2: { const auto k = s[any()]; for (auto& x : s) x = k; return "one correspondence repeated"; }
    case 3: { const auto a = s[any()].in_target; for (auto& x : s) x.in_target = a; return "one target point"; }
    case 4: { const auto a = s[any()].in_image; for (auto& x : s) x.in_image = a; return "one image point"; }
    case 5: { const V3 u = unit(r); for (auto& x : s) x.in_target = u * u.dot(x.in_target); return "collinear target points"; }
    case 6: { for (auto& x : s) x.in_target.setZero(); return "zero target points"; }
    case 7: { for (auto& x : s) x.in_image.setZero(); return "zero image points"; }
    case 8: { auto& x = s[any()]; const double v = odd(r); x.in_image[r.range(0, int(x.in_image.size()) - 1)] = v; return cat("an image coordinate of ", v); }
    case 9: { auto& x = s[any()]; const double v = odd(r); x.in_target[r.range(0, 2)] = v; return cat("a target coordinate of ", v); }
    case 10: { const double f = odd(r); for (auto& x : s) x.in_target *= f; return cat("target points scaled by ", f); }
    case 11: { const double f = odd(r); for (auto& x : s) x.in_image *= f; return cat("image points scaled by ", f); }
    default: { for (auto& x : s) x.in_image = -x.in_image; return "mirrored image points"; }
  }
}
template <typename V>
static std::string spoilCount(Rng& r, V& v)
{
  switch (r.range(0, 3))
  {
    case 0: v.clear(); return "cleared";
    case 1: if (!v.empty()) v.pop_back(); return "one short";
    case 2: if (!v.empty()) { typename V::value_type x = v[0]; v.push_back(x); } return "one extra";
    default: if (!v.empty()) v.resize(1); return "only one";
  }
}
template <typename S>
static long dims(const S& s)
{
  long n = 0;
  for (auto& x : s) n += long(x.in_image.size());
  return n;
}

// ---- solvers
static std::string pnp(Case& c, Rng& r, bool mem)
{
  vh::Target t = randTarget(r, 8);
  const CameraIntrinsics k = randIntr(r);
  const Iso v = viewPose(r, t, 2, 3, 0.2, 0.7);
  PnPProblem p;
  PnPProblem3D q;
  p.intr = k;
  p.correspondences = observe(k, v, t);
  q.correspondences = observe3(v, t);
  p.camera_to_target_guess = q.camera_to_target_guess = perturb(v, r, 0.1, 0.1);
  std::string how;
  switch (r.range(0, 4))
  {
    case 0: p.camera_to_target_guess = q.camera_to_target_guess = oddPose(r, v); how = "an odd guess"; break;
    case 1: p.intr = oddIntr(r, k); how = "odd intrinsics"; break;
    case 2:
    {
      // features behind, on, or hardly in front of the camera
      const double z = pick(r, {0, -1, 1e-12, -1e-12});
      p.camera_to_target_guess.linear().setIdentity();
      p.camera_to_target_guess.translation() = V3(0, 0, z);
      q.camera_to_target_guess = p.camera_to_target_guess;
      how = cat("a guess at depth ", z);
      break;
    }
    default: how = spoilSet(r, p.correspondences) + " / " + spoilSet(r, q.correspondences);
  }
  if (r.chance(0.3)) how += " and " + spoilSet(r, p.correspondences) + " / " + spoilSet(r, q.correspondences);
  drive(c, "pnp 2D", how, dims(p.correspondences), solve(p), mem);
  drive(c, "pnp 3D", how, dims(q.correspondences), solve(q), mem);
  drive(c, "virtual target difference", how, -1, [&] { auto s = measureVirtualTargetDiff(p.correspondences, p.intr, p.camera_to_target_guess, odd(r)); return Verdict{false, s.angular_error}; }, mem);
  drive(c, "reprojection", how, -1, [&] {
    std::vector<V3> pts;
    for (auto& x : p.correspondences) pts.push_back(x.in_target);
    auto uv = getReprojections(p.camera_to_target_guess, p.intr, pts);
    cv::Mat img(30, 40, CV_8UC3, cv::Scalar(0));
    drawReprojections(uv, 3, cv::Scalar(0, 0, 255), img);
    return Verdict();
  }, mem);
  return how;
}
static std::string multiPnp(Case& c, Rng& r, bool mem)
{
  Rig g;
  makeRig(r, g, r.range(1, 3), 1, 1);
  MultiCameraPnPProblem p;
  p.intr = g.k;
  p.base_to_camera = g.cam;
  for (std::size_t i = 0; i < g.cam.size(); ++i) p.image_observations.push_back(shot(g, i, 0));
  p.base_to_target_guess = perturb(g.tgt[0], r, 0.05, 0.05);
  std::string how;
  const std::size_t i = std::size_t(r.range(0, int(g.cam.size()) - 1));
  switch (r.range(0, 7))
  {
    case 0: p.base_to_target_guess = oddPose(r, g.tgt[0]); how = "an odd guess"; break;
    case 1: p.intr[i] = oddIntr(r, g.k[i]); how = "odd intrinsics"; break;
    case 2: p.base_to_camera[i] = oddPose(r, g.cam[i]); how = "an odd camera pose"; break;
    case 3: how = "intrinsics " + spoilCount(r, p.intr); break;
    case 4: how = "camera poses " + spoilCount(r, p.base_to_camera); break;
    case 5: how = "observations " + spoilCount(r, p.image_observations); break;
    case 6: for (auto& s : p.image_observations) s.clear(); how = "no correspondences"; break;
    default: how = spoilSet(r, p.image_observations[i]);
  }
  if (r.chance(0.2) && !p.image_observations.empty()) how += " and " + spoilSet(r, p.image_observations[0]);
  long n = 0;
  for (auto& s : p.image_observations) n += dims(s);
  if (p.base_to_camera.empty()) n = 0;
  drive(c, "multi-camera pnp", how, n, solve(p), mem);
  return how;
}
static std::string handEye(Case& c, Rng& r, bool mem)
{
  HandEye h;
  for (int i = 0; i < 20 && !makeHandEye(r, h, r.range(0, 2), r.range(1, 6), 1); ++i) {}
  ExtrinsicHandEyeProblem2D3D p;
  ExtrinsicHandEyeProblem3D3D q;
  fillHandEye(h, p);
  fillHandEye(h, q);
  p.camera_mount_to_camera_guess = q.camera_mount_to_camera_guess = perturb(h.X, r, 0.05, 0.03);
  p.target_mount_to_target_guess = q.target_mount_to_target_guess = perturb(h.Y, r, 0.05, 0.03);
  std::string how;
  const std::size_t i = p.observations.empty() ? 0 : std::size_t(r.range(0, int(p.observations.size()) - 1));
  if (p.observations.empty()) return "";
  switch (r.range(0, 9))
  {
    case 0: p.camera_mount_to_camera_guess = q.camera_mount_to_camera_guess = oddPose(r, h.X); how = "an odd camera guess"; break;
    case 1: p.target_mount_to_target_guess = q.target_mount_to_target_guess = oddPose(r, h.Y); how = "an odd target guess"; break;
    case 2: p.intr = oddIntr(r, h.k); how = "odd intrinsics"; break;
    case 3: p.observations[i].to_camera_mount = q.observations[i].to_camera_mount = oddPose(r, h.cmount[i]); how = "an odd camera mount pose"; break;
    case 4: p.observations[i].to_target_mount = q.observations[i].to_target_mount = oddPose(r, h.tmount[i]); how = "an odd target mount pose"; break;
    case 5: how = "observations " + spoilCount(r, p.observations); spoilCount(r, q.observations); break;
    case 6:
      for (auto& o : p.observations) o.to_camera_mount = p.observations[0].to_camera_mount, o.to_target_mount = p.observations[0].to_target_mount;
      for (auto& o : q.observations) o.to_camera_mount = q.observations[0].to_camera_mount, o.to_target_mount = q.observations[0].to_target_mount;
      how = "no motion";
      break;
    case 7:
      for (auto& o : p.observations) o.correspondence_set.clear();
      for (auto& o : q.observations) o.correspondence_set.clear();
      how = "no correspondences";
      break;
    default: how = spoilSet(r, p.observations[i].correspondence_set) + " / " + spoilSet(r, q.observations[i].correspondence_set);
  }
  long n = 0, m = 0;
  for (auto& o : p.observations) n += dims(o.correspondence_set);
  for (auto& o : q.observations) m += dims(o.correspondence_set);
  drive(c, "hand-eye 2D", how, n, solve(p), mem);
  drive(c, "hand-eye 3D", how, m, solve(q), mem);
  const double thr = odd(r);
  drive(c, "intrinsic accuracy", how, -1, [&] { auto s = measureIntrinsicCalibrationAccuracy(p.observations, p.intr, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess, oddPose(r, Iso::Identity()), thr); return Verdict{false, s.pos_error.first}; }, mem);
  drive(c, "3D projection error", how, -1, [&] { auto e = compute3DProjectionError(p.observations, p.intr, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess); return Verdict{false, double(e.size())}; }, mem);
  return how;
}
static std::string rigs(Case& c, Rng& r, bool mem)
{
  Rig g;
  makeRig(r, g, r.range(1, 3), r.range(1, 4), 1);
  const Iso W = randPose(r, 0.4);
  std::vector<std::vector<Correspondence2D3D::Set>> obs(g.cam.size());
  for (std::size_t k = 0; k < g.cam.size(); ++k)
    for (std::size_t i = 0; i < g.tgt.size(); ++i) obs[k].push_back(shot(g, k, i));
  std::vector<Iso> wrist;
  for (auto& q : g.tgt) wrist.push_back(q * W.inverse());
  ExtrinsicMultiStaticCameraMovingTargetProblem a;
  ExtrinsicMultiStaticCameraOnlyProblem b;
  ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem d;
  a.intr = b.intr = d.intr = g.k;
  a.wrist_poses.assign(g.cam.size(), wrist);
  d.wrist_poses = wrist;
  a.image_observations = b.image_observations = d.image_observations = obs;
  a.base_to_camera_guess = b.base_to_camera_guess = d.base_to_camera_guess = g.cam;
  a.wrist_to_target_guess = d.wrist_to_target_guess = perturb(W, r, 0.03, 0.02);
  b.base_to_target_guess = g.tgt;
  b.fix_first_camera = r.chance(0.5);
  std::string how;
  const std::size_t k = std::size_t(r.range(0, int(g.cam.size()) - 1)), i = std::size_t(r.range(0, int(g.tgt.size()) - 1));
  const auto same = [&](auto f) { f(a); const uint64_t keep = r.s[0]; (void)keep; f(b); f(d); };
  switch (r.range(0, 11))
  {
    case 0: { const Iso o = oddPose(r, W); a.wrist_to_target_guess = d.wrist_to_target_guess = o; b.base_to_target_guess[i] = o; how = "an odd target guess"; break; }
    case 1: { const auto o = oddIntr(r, g.k[k]); same([&](auto& x) { x.intr[k] = o; }); how = "odd intrinsics"; break; }
    case 2: { const Iso o = oddPose(r, g.cam[k]); same([&](auto& x) { x.base_to_camera_guess[k] = o; }); how = "an odd camera guess"; break; }
    case 3: { const Iso o = oddPose(r, wrist[i]); a.wrist_poses[k][i] = o; d.wrist_poses[i] = o; how = "an odd wrist pose"; break; }
    case 4: same([&](auto& x) { how = "intrinsics " + spoilCount(r, x.intr); }); break;
    case 5: same([&](auto& x) { how = "camera guesses " + spoilCount(r, x.base_to_camera_guess); }); break;
    case 6: same([&](auto& x) { how = "cameras' observations " + spoilCount(r, x.image_observations); }); break;
    case 7: same([&](auto& x) { how = "one camera's observations " + spoilCount(r, x.image_observations[k]); }); break;
    case 8: how = "wrist poses " + spoilCount(r, a.wrist_poses) + spoilCount(r, d.wrist_poses) + spoilCount(r, b.base_to_target_guess); break;
    case 9: how = "one camera's wrist poses " + spoilCount(r, a.wrist_poses[k]); b.labels_image_observations = {"a", "b"}; a.labels_image_observations = d.labels_image_observations = {"x"}; break;
    case 10: same([&](auto& x) { for (auto& y : x.image_observations) for (auto& z : y) z.clear(); }); how = "no correspondences"; break;
    default: same([&](auto& x) { how = spoilSet(r, x.image_observations[k][i]); });
  }
  // (a rig without cameras has no observations)
  const auto count = [](const auto& x, bool none) { long n = 0; if (none || x.base_to_camera_guess.empty()) return n; for (auto& y : x.image_observations) for (auto& z : y) n += dims(z); return n; };
  drive(c, "static cameras, moving target", how, count(a, a.wrist_poses.empty()), solve(a), mem);
  drive(c, "static cameras only", how, count(b, b.base_to_target_guess.empty()), solve(b), mem);
  drive(c, "static cameras, single correction", how, count(d, d.wrist_poses.empty()), solve(d), mem);
  return how;
}
static std::string intrinsic(Case& c, Rng& r, bool mem)
{
  CameraIntrinsics k;
  k.fx() = r.uni(450, 900); k.fy() = k.fx(); k.cx() = 320; k.cy() = 240;
  vh::Target t = gridTarget(r, r.range(2, 5), r.range(2, 5), 0.04, false);
  IntrinsicEstimationProblem p;
  p.use_extrinsic_guesses = r.chance(0.3);
  const int n = r.range(1, 5);
  for (int i = 0; i < n; ++i)
  {
    const double az = 2 * M_PI * (i + r.u01()) / n;
    Eigen::Matrix3d Rm = rot(V3(std::cos(az), std::sin(az), 0) * 0.4) * rot(V3(M_PI, 0, 0));
    Iso v = mk(Rm, V3(0, 0, 1.6 * t.size) - Rm * centroid(t.pts));
    p.image_observations.push_back(noisy(r, observe(k, v, t), 0.1));
    if (p.use_extrinsic_guesses) p.extrinsic_guesses.push_back(v);
  }
  p.intrinsics_guess = k;
  std::string how;
  const std::size_t i = std::size_t(r.range(0, n - 1));
  switch (r.range(0, 5))
  {
    case 0: p.intrinsics_guess = oddIntr(r, k); how = "odd intrinsics"; break;
    case 1: how = "images " + spoilCount(r, p.image_observations); break;
    case 2: if (p.use_extrinsic_guesses) { how = "guesses " + spoilCount(r, p.extrinsic_guesses); break; } else { p.use_extrinsic_guesses = true; how = "missing guesses"; break; }
    case 3: for (auto& s : p.image_observations) s.clear(); how = "no correspondences"; break;
    default: how = spoilSet(r, p.image_observations[i]);
  }
  long m = 0;
  for (auto& s : p.image_observations) m += dims(s);
  drive(c, "intrinsic calibration", how, m, solve(p), mem);
  return how;
}
static std::string circleFit(Case& c, Rng& r, bool mem)
{
  CircleFitProblem p;
  const int n = r.range(0, 8);
  for (int i = 0; i < n; ++i) p.observations.push_back(V2(r.uni(-1, 1), r.uni(-1, 1)));
  p.x_center_initial = 0; p.y_center_initial = 0; p.radius_initial = 1;
  std::string how = cat(n, " points");
  switch (r.range(0, 4))
  {
    case 0: p.radius_initial = odd(r); how += cat(", initial radius ", p.radius_initial); break;
    case 1: p.x_center_initial = odd(r); how += cat(", initial center ", p.x_center_initial); break;
    case 2: for (auto& o : p.observations) o = V2(o.x(), 2 * o.x()); how += " on a line"; break;
    case 3: for (auto& o : p.observations) o = V2(1, 1); how += " at one place"; break;
    default: if (n) { const double v = odd(r); p.observations[0][r.range(0, 1)] = v; how += cat(", a coordinate of ", v); }
  }
  drive(c, "circle fit", how, n, solve(p), mem);
  return how;
}
static std::vector<int> oddMask(Rng& r, int size)
{
  std::vector<int> m;
  const int n = r.range(0, size + 2);
  const bool wild = r.chance(0.3);
  for (int i = 0; i < n; ++i) m.push_back(wild ? int(pick(r, {-1, 0, 3, double(size), 1e6, -2147483648.0, 2147483647.0})) : r.range(0, std::max(0, size - 1)));
  return m;
}
static std::string kinematic(Case& c, Rng& r, bool mem)
{
  Kin s;
  const int nc = r.range(0, 2), nt = r.range(0, 2);
  for (int tries = 0; tries < 20; ++tries)
  {
    s = Kin();
    s.t = gridTarget(r, 2, 3, r.uni(0.05, 0.15), false);
    s.k = randIntr(r);
    s.cc = randChain(r, nc);
    s.tc = randChain(r, nt);
    s.cb = s.tb = Iso::Identity();
    s.oc = Eigen::MatrixXd::Zero(nc, 4);
    s.ot = Eigen::MatrixXd::Zero(nt, 4);
    s.X = randPose(r, 0.2);
    s.Y = randPose(r, 0.2);
    if (makeKin(r, s, r.range(1, 4))) break;
  }
  KinematicCalibrationProblem2D3D p(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  KinematicCalibrationProblemPose6D q(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  p.intr = s.k;
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    KinObservation2D3D o;
    o.camera_chain_joints = s.qc[i];
    o.target_chain_joints = s.qt[i];
    o.correspondence_set = observe(s.k, s.view[i], s.t);
    p.observations.push_back(o);
    KinematicMeasurement m;
    m.camera_chain_joints = s.qc[i];
    m.target_chain_joints = s.qt[i];
    m.camera_to_target = r.chance(0.5) ? s.view[i] : perturb(s.view[i], r, 1e-3, 1e-3);
    q.observations.push_back(m);
  }
  p.camera_mount_to_camera_guess = q.camera_mount_to_camera_guess = s.X;
  p.target_mount_to_target_guess = q.target_mount_to_target_guess = s.Y;
  p.camera_base_to_target_base_guess = q.camera_base_to_target_base_guess = s.B;
  std::string how;
  const std::size_t i = s.view.empty() ? 0 : std::size_t(r.range(0, int(s.view.size()) - 1));
  const auto joints = [&](Eigen::VectorXd& v) {
    switch (r.range(0, 3))
    {
      case 0: v = Eigen::VectorXd::Zero(v.size() + r.range(1, 3)); return std::string("more joint values than joints");
      case 1: v = Eigen::VectorXd::Zero(std::max<Eigen::Index>(0, v.size() - 1)); return std::string("fewer joint values than joints");
      case 2: v.resize(0); return std::string("no joint values");
      default: if (v.size()) v[0] = odd(r); return std::string("an odd joint value");
    }
  };
  switch (r.range(0, 9))
  {
    case 0: p.observations.clear(); q.observations.clear(); how = "no observations"; break;
    case 1: for (auto& o : p.observations) o.correspondence_set.clear(); q.observations.clear(); how = "no correspondences"; break;
    case 2: if (!s.view.empty()) how = joints(p.observations[i].camera_chain_joints) + " / " + joints(q.observations[i].camera_chain_joints); break;
    case 3: if (!s.view.empty()) how = joints(p.observations[i].target_chain_joints) + " / " + joints(q.observations[i].target_chain_joints); break;
    case 4: { const Iso o = oddPose(r, s.X); (r.chance(0.5) ? p.camera_mount_to_camera_guess : p.camera_base_to_target_base_guess) = o; (r.chance(0.5) ? q.target_mount_to_target_guess : q.camera_base_to_target_base_guess) = o; how = "an odd guess"; break; }
    case 5: p.camera_chain_offset_stdev = q.target_chain_offset_stdev = odd(r); how = cat("a standard deviation of ", p.camera_chain_offset_stdev); break;
    case 6: if (!s.view.empty()) { q.observations[i].camera_to_target = oddPose(r, s.view[i]); how = "odd pose / " + spoilSet(r, p.observations[i].correspondence_set); } break;
    case 7: p.intr = oddIntr(r, s.k); how = "odd intrinsics"; break;
    case 8: how = "equal labels"; p.label_camera_mount_to_camera = p.label_target_mount_to_target = ""; break;
    default: how = "masks";
  }
  for (int b = 0; b < 8; ++b)
  {
    const int size = b == 0 ? 4 * std::max(1, nc) : b == 1 ? 4 * std::max(1, nt) : 3;
    if (how == "masks" ? r.chance(0.5) : r.chance(0.1)) { p.mask[std::size_t(b)] = oddMask(r, size); q.mask[std::size_t(b)] = oddMask(r, size); }
    if (how == "masks" && r.chance(0.1)) for (int k = 0; k < size; ++k) p.mask[std::size_t(b)].push_back(k);
  }
  long n = 0;
  for (auto& o : p.observations) n += dims(o.correspondence_set);
  drive(c, "kinematic 2D", how, n, solve(p), mem);
  ceres::Solver::Options opt;
  opt.num_threads = r.range(1, 4);
  const double w = r.chance(0.7) ? 100 : odd(r);
  drive(c, "kinematic 6D", how, long(q.observations.size()), [&] { return verdict(optimize(q, w, opt)); }, mem);
  return how;
}
static std::string chains(Case& c, Rng& r, bool mem)
{
  const int n = r.range(0, 4);
  const Chain ch = randChain(r, n);
  std::vector<DHTransform> ts;
  for (int i = 0; i < n; ++i)
  {
    ts.emplace_back(Eigen::Vector4d(ch[i].d, ch[i].theta, ch[i].r, ch[i].alpha), ch[i].linear ? DHJointType::LINEAR : DHJointType::REVOLUTE, r.chance(0.1) ? std::string() : cat("j", i), 1 + i);
    if (r.chance(0.2)) ts.back().params[r.range(0, 3)] = odd(r);
    if (r.chance(0.3)) { ts.back().min = odd(r); ts.back().max = odd(r); }
  }
  const DHChain d(ts, r.chance(0.3) ? oddPose(r, randPose(r, 1)) : randPose(r, 1));
  const int m = r.range(0, n + 2);
  Eigen::VectorXd q = Eigen::VectorXd::Zero(m);
  for (int i = 0; i < m; ++i) q[i] = r.chance(0.2) ? odd(r) : r.uni(-3, 3);
  const int rows = r.range(0, n + 2);
  const Eigen::MatrixX4d off = Eigen::MatrixX4d::Constant(rows, 4, r.chance(0.2) ? odd(r) : 0.01);
  const std::string how = cat(n, " joints, ", m, " values, ", rows, " rows of offsets");
  drive(c, "forward kinematics", how, -1, [&] { d.getFK<double>(q); return Verdict(); }, mem);
  drive(c, "forward kinematics with offsets", how, -1, [&] { const Eigen::Matrix<double, Eigen::Dynamic, 4> o = off; d.getFK<double>(q, o); return Verdict(); }, mem);
  drive(c, "chain with offsets", how, -1, [&] { const DHChain e(d, off); e.getDHTable(); return Verdict(); }, mem);
  const int at = int(pick(r, {-1, 0, double(n), double(n) - 1, 2147483647.0, -2147483648.0}));
  const double v = odd(r);
  drive(c, "relative transform", cat(how, ", joint ", at, " at ", v), -1, [&] { d.getRelativeTransform(at, v); return Verdict(); }, mem);
  drive(c, "random joint pose", how, -1, [&] { d.createUniformlyRandomPose(); return Verdict(); }, mem);
  drive(c, "chain tables", how, -1, [&] { d.getDHTable(); d.getJointTypes(); d.getParamLabels(); d.getBaseOffset(); return Verdict(); }, mem);
  const Eigen::Array<bool, Eigen::Dynamic, 4> mk2 = Eigen::Array<bool, Eigen::Dynamic, 4>::Constant(rows, 4, r.chance(0.5));
  drive(c, "DH mask", how, -1, [&] { createDHMask(mk2); return Verdict(); }, mem);
  return how;
}
// ---- covariance helpers
struct Lin
{
  double a, b, y;
  template <typename T>
  bool operator()(const T* p, const T* q, T* res) const
  {
    res[0] = T(a) * p[0] + T(b) * p[1] + q[0] - T(y);
    return true;
  }
};
static std::string covariance(Case& c, Rng& r, bool mem)
{
  double p[2] = {0, 0}, q[1] = {0}, other[2] = {0, 0};
  const int n = r.range(0, 5);
  std::vector<Lin> data;
  for (int i = 0; i < n; ++i) data.push_back({r.chance(0.1) ? odd(r) : r.gauss(), r.chance(0.1) ? odd(r) : r.gauss(), r.chance(0.1) ? odd(r) : r.gauss()});
  const int fixed = r.range(0, 5);
  std::vector<const double*> blocks;
  const int nb = r.range(0, 3);
  for (int i = 0; i < nb; ++i) blocks.push_back(r.chance(0.1) ? other : r.chance(0.1) ? nullptr : r.chance(0.5) ? p : q);
  std::map<const double*, std::vector<std::string>> names;
  if (r.chance(0.8)) names[p] = std::vector<std::string>(std::size_t(r.chance(0.8) ? 2 : r.range(0, 3)), "p");
  if (r.chance(0.7)) names[q] = std::vector<std::string>(std::size_t(r.chance(0.8) ? 1 : r.range(0, 3)), "q");
  if (r.chance(0.1)) names[other] = {"o"};
  std::map<const double*, std::vector<int>> masks;
  if (r.chance(0.5)) masks[p] = oddMask(r, 2);
  if (r.chance(0.3)) masks[q] = oddMask(r, 1);
  if (r.chance(0.1)) masks[other] = oddMask(r, 2);
  const int which = r.range(0, 3);
  const bool sparse = r.chance(0.2);
  const int rank = r.range(-1, 2);
  const std::string how = cat(n, " residuals, ", nb, " blocks, form ", which);
  drive(c, "covariance", how, -1, [&] {
    ceres::Problem problem;
    for (auto& l : data) problem.AddResidualBlock(new ceres::AutoDiffCostFunction<Lin, 1, 2, 1>(new Lin(l)), nullptr, p, q);
    if (n && fixed == 0) problem.SetParameterBlockConstant(p);
    if (n && fixed == 1) { problem.SetParameterBlockConstant(p); problem.SetParameterBlockConstant(q); }
    ceres::Covariance::Options o = DefaultCovarianceOptions();
    o.null_space_rank = rank;
    if (sparse) { o.algorithm_type = ceres::SPARSE_QR; o.null_space_rank = 0; }
    CovarianceResult res;
    switch (which)
    {
      case 0: res = computeCovariance(problem, masks, o); break;
      case 1: res = computeCovariance(problem, blocks, masks, o); break;
      case 2: res = computeCovariance(problem, names, masks, o); break;
      default: res = computeCovariance(problem, blocks, names, masks, o);
    }
    res.toString();
    res.getCorrelationCoeffOutsideThreshold(0.5);
    return Verdict();
  }, mem);
  const Eigen::MatrixXd m = Eigen::MatrixXd::Constant(r.range(0, 4), r.range(0, 4), odd(r));
  const std::vector<std::string> labels(std::size_t(r.range(0, 4)), "x");
  const std::string h2 = cat(m.rows(), " by ", m.cols(), " matrix, ", labels.size(), " labels");
  drive(c, "covariance of a matrix", h2, -1, [&] {
    CovarianceResult res = computeCovarianceResults(m, labels);
    res.toString();
    res.printCorrelationCoeffAboveThreshold(0.1);
    return Verdict();
  }, mem);
  drive(c, "correlations of a matrix", h2, -1, [&] { computeCorrelationsFromCovariance(m); return Verdict(); }, mem);
  const Eigen::ArrayXXd mean = Eigen::ArrayXXd::Zero(r.range(0, 3), r.range(0, 3)), sd = Eigen::ArrayXXd::Constant(r.range(0, 3), r.range(0, 3), odd(r));
  drive(c, "maximum likelihood", cat(mean.rows(), "x", mean.cols(), " / ", sd.rows(), "x", sd.cols()), -1, [&] {
    MaximumLikelihood ml(mean, sd);
    std::vector<double> x(std::size_t(mean.size()) + 1, 0.5), y(std::size_t(mean.size()) + 1);
    const double* px = x.data();
    ml(&px, y.data());
    return Verdict();
  }, mem);
  return how;
}
// ---- validation
static std::string validation(Case& c, Rng& r, bool mem)
{
  const int rows = r.range(0, 5), cols = r.range(0, 5);
  vh::Target t = gridTarget(r, std::max(1, rows), std::max(1, cols), 0.1, false);
  const CameraIntrinsics k = randIntr(r);
  t.size = 0.5;
  const Iso v = viewPose(r, t, 2, 3, 0.2, 0.7);
  Correspondence2D3D::Set s = observe(k, v, t);
  Correspondence3D3D::Set s3 = observe3(v, t);
  std::string how = "untouched";
  if (r.chance(0.8)) how = spoilSet(r, s) + " / " + spoilSet(r, s3);
  const std::size_t gr = std::size_t(rows), gc = std::size_t(cols), st = std::size_t(r.range(0, 3));
  const std::size_t nc = r.chance(0.7) ? s.size() : std::size_t(r.range(0, 40)), ns = std::size_t(r.range(0, 8));
  const std::string h2 = cat(how, ", grid ", gr, "x", gc, " stride ", st, ", random ", ns, " of ", nc);
  drive(c, "homography, grid samples", h2, -1, [&] { const GridCorrespondenceSampler g(gr, gc, st); auto e = calculateHomographyError(s, g); return Verdict{false, double(e.size())}; }, mem);
  drive(c, "homography 3D, grid samples", h2, -1, [&] { const GridCorrespondenceSampler g(gr, gc, st); auto e = calculateHomographyError(s3, g); return Verdict{false, double(e.size())}; }, mem);
  drive(c, "homography, random samples", h2, -1, [&] { const RandomCorrespondenceSampler g(nc, ns, 7); auto e = calculateHomographyError(s, g); return Verdict{false, double(e.size())}; }, mem);
  drive(c, "samplers", h2, -1, [&] { GridCorrespondenceSampler(gr, gc, st).getSampleCorrespondenceIndices(); RandomCorrespondenceSampler(nc, ns, 3).getSampleCorrespondenceIndices(); return Verdict(); }, mem);
  struct Any : CorrespondenceSampler
  {
    std::vector<std::size_t> i;
    std::vector<std::size_t> getSampleCorrespondenceIndices() const override { return i; }
  } any;
  const int na = r.range(0, 6);
  for (int i = 0; i < na; ++i) any.i.push_back(r.chance(0.1) ? std::size_t(-1) : r.chance(0.1) ? s.size() : std::size_t(r.range(0, std::max(0, int(s.size()) - 1))));
  drive(c, "homography, any sampler", cat(how, ", ", na, " samples"), -1, [&] { auto e = calculateHomographyError(s, any); auto f = calculateHomographyError(s3, any); return Verdict{false, double(e.size() + f.size())}; }, mem);

  std::vector<Eigen::Quaterniond> qs;
  const int nq = r.range(0, 5);
  for (int i = 0; i < nq; ++i)
  {
    Eigen::Quaterniond q(randRot(r));
    if (r.chance(0.3)) q.coeffs()[r.range(0, 3)] = odd(r);
    if (r.chance(0.1)) q.coeffs().setZero();
    if (r.chance(0.3) && i) q = qs[0];
    qs.push_back(q);
  }
  drive(c, "quaternion statistics", cat(nq, " quaternions"), -1, [&] { auto a = computeQuaternionStats(qs); return Verdict{false, a.stdev}; }, mem);
  drive(c, "quaternion mean", cat(nq, " quaternions"), -1, [&] { auto a = computeQuaternionMean(qs); return Verdict{false, a.w()}; }, mem);
  std::vector<PnPProblem> set;
  std::vector<PnPProblem3D> set3;
  const int np = r.range(0, 3);
  for (int i = 0; i < np; ++i)
  {
    PnPProblem a;
    PnPProblem3D b;
    a.intr = r.chance(0.2) ? oddIntr(r, k) : k;
    a.correspondences = s;
    b.correspondences = s3;
    a.camera_to_target_guess = b.camera_to_target_guess = r.chance(0.3) ? oddPose(r, v) : v;
    set.push_back(a);
    set3.push_back(b);
  }
  drive(c, "noise 2D", cat(how, ", ", np, " images"), -1, [&] { auto a = qualifyNoise2D(set); return Verdict{false, a.q_stat.stdev}; }, mem);
  drive(c, "noise 3D", cat(how, ", ", np, " images"), -1, [&] { auto a = qualifyNoise3D(set3); return Verdict{false, a.q_stat.stdev}; }, mem);
  const V3 a1(odd(r), odd(r), odd(r)), a2(odd(r), 0, odd(r)), a3 = r.chance(0.5) ? V3(odd(r), odd(r), odd(r)) : V3(0, 0, 0), a4(odd(r), odd(r), 1);
  const double eps = r.chance(0.5) ? 1e-6 : odd(r);
  drive(c, "line and plane", "odd vectors", -1, [&] { computeLinePlaneIntersection(a1, a2, a3, a4, eps); return Verdict(); }, mem);
  Eigen::MatrixX2d src = Eigen::MatrixX2d::Constant(r.range(0, 3), 2, odd(r));
  const Iso plane = oddPose(r, v);
  Eigen::Matrix3d K = Eigen::Matrix3d::Identity() * odd(r);
  if (r.chance(0.3)) K(r.range(0, 2), r.range(0, 2)) = odd(r);
  drive(c, "projection to the plane", "odd camera", -1, [&] { project3D(src, plane, K); return Verdict(); }, mem);
  Observation2D3D o;
  o.correspondence_set = s;
  o.to_camera_mount = r.chance(0.3) ? oddPose(r, v) : Iso::Identity();
  const CameraIntrinsics ko = r.chance(0.3) ? oddIntr(r, k) : k;
  drive(c, "3D projection error of one", how, -1, [&] { compute3DProjectionError(o, ko, Iso::Identity(), v); return Verdict(); }, mem);
  drive(c, "pose conversions", "odd poses", -1, [&] { poseCalToEigen(poseEigenToCal(plane)); return Verdict(); }, mem);
  return h2;
}
// ---- images
static cv::Mat picture(Rng& r, std::string& how, int* brows = nullptr, int* bcols = nullptr)
{
  const int odds[] = {CV_8UC4, CV_16UC1, CV_32FC1, CV_64FC1, CV_16UC3, CV_8SC1, CV_32FC3, CV_8UC2};
  const int type = r.chance(0.75) ? (r.chance(0.5) ? CV_8UC1 : CV_8UC3) : odds[r.range(0, 7)];
  int w = int(pick(r, {0, 1, 2, 3, 5, 8, 17, 40, 64, 120})), h = int(pick(r, {0, 1, 2, 3, 5, 8, 17, 40, 64, 120}));
  if (r.chance(0.1)) { w = 1; h = 200; }
  if (r.chance(0.05)) return how = "an empty image", cv::Mat();
  cv::Mat m;
  const int base = r.range(0, 6);
  if (base >= 4)
  {
    // a board, or most of one
    cv::Mat g;
    const int rows = r.range(2, 4), cols = r.range(2, 4);
    if (brows) { *brows = rows; *bcols = cols; }
    w = r.range(90, 200); h = r.range(90, 200);
    if (base == 4) cv::aruco::GridBoard::create(cols, rows, 0.05f, 0.01f, cv::aruco::getPredefinedDictionary(cv::aruco::DICT_4X4_50))->draw(cv::Size(w, h), g, 8);
    else if (base == 5) cv::aruco::CharucoBoard::create(cols + 1, rows + 1, 0.06f, 0.045f, cv::aruco::getPredefinedDictionary(cv::aruco::DICT_4X4_50))->draw(cv::Size(w, h), g, 8);
    else
    {
      g = cv::Mat(h, w, CV_8UC1, cv::Scalar(255));
      const double step = std::min(w / (cols + 1.0), h / (rows + 1.0));
      for (int i = 0; i < rows; ++i)
        for (int j = 0; j < cols; ++j) paintEllipse(g, (j + 1) * step, (i + 1) * step, step * (i == rows - 1 && j == 0 ? 0.36 : 0.25), step * (i == rows - 1 && j == 0 ? 0.36 : 0.25), 0, 20, 2);
    }
    const int blobs = r.range(0, 3);
    for (int i = 0; i < blobs; ++i) cv::rectangle(g, cv::Rect(r.range(0, w - 2), r.range(0, h - 2), r.range(1, 30), r.range(1, 30)), cv::Scalar(r.range(0, 255)), -1);
    if (r.chance(0.3)) g = g(cv::Rect(r.range(0, w / 4), r.range(0, h / 4), r.range(w / 3, w / 2), r.range(h / 3, h / 2)));
    if (r.chance(0.3)) cv::resize(g, g, cv::Size(), r.uni(0.2, 1.5), r.uni(0.2, 1.5));
    g.convertTo(m, CV_MAT_DEPTH(type));
    if (CV_MAT_CN(type) > 1) { std::vector<cv::Mat> ch(std::size_t(CV_MAT_CN(type)), m); cv::merge(ch, m); }
    how = base == 4 ? "markers in a" : base == 5 ? "a ChArUco board in a" : "a circle grid in a";
  }
  else if (base == 0)
  {
    m = cv::Mat(h, w, type, cv::Scalar::all(r.range(0, 255)));
    how = "a blank";
  }
  else if (base == 1)
  {
    // discs, some cut by the border, some overlapping
    cv::Mat g(std::max(1, h), std::max(1, w), CV_8UC1, cv::Scalar(r.range(180, 255)));
    const int n = r.range(1, 8);
    for (int i = 0; i < n; ++i)
    {
      const double R = r.logu(0.5, 30);
      paintEllipse(g, r.uni(-5, w + 5), r.uni(-5, h + 5), R, R * r.uni(0.3, 1), r.uni(0, 3), r.range(0, 120), 2);
    }
    g.convertTo(m, CV_MAT_DEPTH(type));
    if (CV_MAT_CN(type) > 1) { std::vector<cv::Mat> ch(std::size_t(CV_MAT_CN(type)), m); cv::merge(ch, m); }
    how = "discs in a";
  }
  else
  {
    cv::Mat g = noiseImage(r, w, h, CV_MAKETYPE(CV_8U, CV_MAT_CN(type)));
    g.convertTo(m, CV_MAT_DEPTH(type));
    how = "noise in a";
  }
  if (CV_MAT_DEPTH(type) >= CV_32F && !m.empty() && r.chance(0.3)) { m.setTo(cv::Scalar::all(r.chance(0.5) ? NaN : Inf)); how = "not finite in a"; }
  how += cat(" ", m.cols, "x", m.rows, " image of type ", cv::typeToString(m.type()));
  return m;
}
static TargetFeatures oddFeatures(Rng& r, const TargetFeatures& some)
{
  TargetFeatures f = some;
  // (sometimes complete, so that only the coordinates are odd)
  const bool complete = r.chance(0.5);
  const int n = r.range(0, 9), each = r.chance(0.5) ? 1 : 4;
  for (int i = 0; i < n; ++i)
  {
    VectorEigenVector<2> v;
    const int k = complete ? each : r.chance(0.5) ? 1 : r.range(0, 5);
    for (int j = 0; j < k; ++j) v.push_back(V2(r.chance(0.2) ? odd(r) : r.uni(-20, 100), r.chance(0.2) ? odd(r) : r.uni(-20, 100)));
    const unsigned id = complete ? unsigned(i) : r.chance(0.1) ? 4294967295u : r.chance(0.1) ? 2147483648u : unsigned(r.range(0, 12));
    f[id] = v;
  }
  return f;
}
static std::string images(Case& c, Rng& r, bool mem)
{
  std::string how;
  int brows = 0, bcols = 0;
  cv::Mat m = picture(r, how, &brows, &bcols);
  // (mostly finders for what is in the picture)
  const bool own = brows && r.chance(0.7);
  const cv::Mat original = m.clone();
  CircleDetectorParams P;
  if (r.chance(0.5))
  {
    P.minThreshold = float(r.uni(-10, 260)); P.maxThreshold = float(r.uni(-10, 260)); P.nThresholds = std::size_t(r.range(0, 12));
    P.minRepeatability = std::size_t(r.range(0, 5)); P.circleInclusionRadius = float(r.uni(-1, 20)); P.maxRadiusDiff = float(r.uni(-1, 20));
    P.maxAverageEllipseError = float(r.uni(0, 1)); P.filterByColor = r.chance(0.5); P.circleColor = uchar(r.range(0, 255));
    P.filterByArea = r.chance(0.5); P.minArea = float(r.uni(0, 50)); P.filterByCircularity = r.chance(0.5); P.filterByInertia = r.chance(0.5); P.filterByConvexity = r.chance(0.5);
    how += " with odd parameters";
    if (r.chance(0.2)) { (r.chance(0.5) ? P.minThreshold : P.maxThreshold) = float(odd(r)); how += cat(" (thresholds ", P.minThreshold, " to ", P.maxThreshold, ")"); }
    if (r.chance(0.2)) { P.minArea = P.maxRadiusDiff = P.circleInclusionRadius = float(NaN); how += " (not finite)"; }
  }
  drive(c, "circle detector", how, -1, [&] { CircleDetector d(P); std::vector<cv::KeyPoint> k; d.detect(m, k); return Verdict{false, double(k.size())}; }, mem);
  drive(c, "circle drawing", how, -1, [&] { CircleDetector d(P); d.drawDetectedCircles(m); return Verdict(); }, mem);
  std::string how2;
  const cv::Mat mask = r.chance(0.5) ? cv::Mat() : picture(r, how2);
  drive(c, "circle detector with a mask", how + ", mask: " + how2, -1, [&] { CircleDetector d(P); std::vector<cv::KeyPoint> k; d.detect(m, k, mask); return Verdict(); }, mem);
  const int rows = own ? brows : r.chance(0.1) ? 0 : r.range(1, 4), cols = own ? bcols : r.range(0, 4);
  const std::string hg = cat(how, ", ", rows, "x", cols, " circles");
  const double sp = r.chance(0.8) ? 0.05 : odd(r);
  const auto drawn = oddFeatures(r, TargetFeatures());
  drive(c, "circle grid finder", hg, -1, [&] {
    const ModifiedCircleGridTargetFinder f(ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), sp), P);
    const auto k = f.findTargetFeatures(m);
    f.target().createCorrespondences(k);
    return Verdict();
  }, mem);
  drive(c, "circle grid drawing", hg, -1, [&] {
    const ModifiedCircleGridTargetFinder f(ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), sp), P);
    f.drawTargetFeatures(m, drawn);
    return Verdict();
  }, mem);
  drive(c, "circle grid correspondences", hg, -1, [&] { ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), sp).createCorrespondences(drawn); return Verdict(); }, mem);
  const int ar = own ? brows : r.chance(0.2) ? r.range(-1, 4) : r.range(1, 4), ac = own ? bcols : r.chance(0.2) ? r.range(-1, 4) : r.range(1, 4), dict = r.chance(0.9) ? cv::aruco::DICT_4X4_50 : r.range(-3, 40);
  const float md = r.chance(0.8) ? 0.05f : float(odd(r)), gap = r.chance(0.8) ? 0.01f : float(odd(r));
  const std::string ha = cat(how, ", ", ar, "x", ac, " markers of ", md, " with ", gap, ", dictionary ", dict);
  drive(c, "ArUco finder", ha, -1, [&] { const ArucoGridBoardTargetFinder f(ArucoGridTarget(ar, ac, md, gap, dict)); f.target().createCorrespondences(f.findTargetFeatures(m)); return Verdict(); }, mem);
  drive(c, "ArUco drawing", ha, -1, [&] { const ArucoGridBoardTargetFinder f(ArucoGridTarget(ar, ac, md, gap, dict)); f.drawTargetFeatures(m, drawn); return Verdict(); }, mem);
  drive(c, "ArUco correspondences", ha, -1, [&] { ArucoGridTarget(ar, ac, md, gap, dict).createCorrespondences(drawn); return Verdict(); }, mem);
  drive(c, "ChArUco finder", ha, -1, [&] { const CharucoGridBoardTargetFinder f(CharucoGridTarget(ar + 1, ac + 1, md + gap, md, dict)); f.target().createCorrespondences(f.findTargetFeatures(m)); return Verdict(); }, mem);
  drive(c, "ChArUco drawing", ha, -1, [&] { const CharucoGridBoardTargetFinder f(CharucoGridTarget(ar + 1, ac + 1, md + gap, md, dict)); f.drawTargetFeatures(m, drawn); return Verdict(); }, mem);
  drive(c, "ChArUco correspondences", ha, -1, [&] { CharucoGridTarget(ar + 1, ac + 1, md + gap, md, dict).createCorrespondences(drawn); return Verdict(); }, mem);
  if (!m.empty() && CV_MAT_DEPTH(m.type()) < CV_32F) c.check(sameImg(m, original), "caller's image changed", how);
  // a part of a larger image is treated like a copy of it: nothing outside it is read
  if (m.type() == CV_8UC1 || m.type() == CV_8UC3)
  {
    if (m.cols > 8 && m.rows > 8)
    {
      const cv::Rect box(r.range(0, 3), r.range(0, 3), m.cols - r.range(3, 6), m.rows - r.range(3, 6));
      const cv::Mat roi = m(box), copy = roi.clone();
      const auto det = [&](const cv::Mat& x) {
        std::vector<double> o;
        try
        {
          CircleDetector d(P);
          std::vector<cv::KeyPoint> k;
          d.detect(x, k);
          for (auto& y : k) { o.push_back(y.pt.x); o.push_back(y.pt.y); o.push_back(y.size); }
        }
        catch (const std::exception&) { o = {-1}; }
        return o;
      };
      const auto x = det(roi), y = det(copy);
      c.check(x.size() == y.size() && (x.empty() || !std::memcmp(x.data(), y.data(), x.size() * sizeof(double))), "part of a larger image differs from its copy", how);
      c.count("image parts compared");
    }
  }
  return how;
}

VH_CASE(C26)
{
  Rng& r = c.rng;
  cv::setNumThreads(1);
  const bool mem = c.index % 3 == 0;
  static const std::vector<std::pair<const char*, std::string (*)(Case&, Rng&, bool)>> fam = {
    {"pnp", pnp}, {"images", images}, {"hand-eye", handEye}, {"validation", validation}, {"rigs", rigs}, {"images", images}, {"kinematic", kinematic},
    {"chains", chains}, {"intrinsic", intrinsic}, {"covariance", covariance}, {"circle fit", circleFit}, {"multi-camera pnp", multiPnp}, {"kinematic", kinematic}};
  const auto& f = fam[std::size_t(r.range(0, int(fam.size()) - 1))];
  c.count(std::string("family: ") + f.first);
  const std::string how = f.second(c, r, mem);
  c.nontrivial(hashBytes(how.data(), how.size(), hashBytes(f.first, std::strlen(f.first)) ^ c.index));
  c.sample(std::string(f.first) + ": " + how);
}
