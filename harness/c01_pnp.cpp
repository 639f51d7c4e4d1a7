// C01: target pose estimation recovers the true pose from exact data
#include "gen.h"
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/pnp.h>
using namespace vh;
using namespace rct_optimizations;

static const double RTOL = 2e-6, TTOL = 2e-6;  // radians, fraction of the distance

VH_CASE(C01)
{
  Rng& r = c.rng;
  const int kind = static_cast<int>(c.index % 5);
  Target t = randTarget(r, 8);
  if (r.chance(0.15))
  {  // few, well spread points
    Target s;
    s.size = t.size;
    double a = t.size / 2;
    s.pts = { V3(-a, -a, 0), V3(a, -a * r.uni(0.8, 1), 0), V3(a, a, 0), V3(-a * r.uni(0.8, 1), a, 0) };
    if (r.chance(0.5)) s.pts.push_back(V3(0.2 * a, 0.1 * a, 0));
    t = s;
    c.count("views of four or five points");
  }
  CameraIntrinsics k = randIntr(r);
  // true camera-to-target pose: tilt away from frontal so that planar views are unambiguous
  Iso truth = viewPose(r, t, 1.6, 4.0, 0.35, 0.9);
  const bool noRotGuess = r.chance(0.25);
  if (noRotGuess)
  {  // truth within reach of a guess without any rotation
    truth.linear() = rot(rotvec(r, 0.12));
    if (t.planar) truth.linear() = rot(V3(std::cos(r.uni(-3, 3)), std::sin(r.uni(-3, 3)), 0).normalized() * r.uni(0.05, 0.15));
    V3 ce = centroid(t.pts);
    truth.translation() = V3(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), 1) * t.size * r.uni(1.6, 2.4) - truth.linear() * ce;
    c.count("guesses without rotation");
  }
  const double dist = (truth * centroid(t.pts)).norm();
  if (!allInFront(truth, t, 0.2 * dist)) { c.count("skipped: target would reach the camera"); return; }
  Iso guess = noRotGuess ? mk(Eigen::Matrix3d::Identity(), truth.translation() + unit(r) * r.uni(0, 0.03 * dist))
                         : perturb(truth, r, 0.3, 0.12 * dist);
  if (r.chance(0.1)) { guess = truth; c.count("guess equal to the truth"); }
  c.nontrivial(hashIso(truth, hashIso(guess, t.pts.size() * 7 + kind)));

  auto verify = [&](const char* what, bool conv, double cost, const Iso& got, double scale, const Iso& want, double d, bool px) {
    c.count(cat(what, " solved"));
    c.check(conv, cat(what, "-not-converged"), cat("exact data, guess near the truth; truth ", show(truth), " guess ", show(guess)));
    c.check(cost >= 0 && cost < (px ? 1e-5 : 1e-8 * scale * scale), cat(what, "-cost"), cat("final cost ", cost, " on exact data"));
    poseNear(c, got, want, RTOL, TTOL * d, cat(what, "-pose"), cat("guess ", show(guess)));
  };
  c.sample(cat("kind ", kind, ", ", t.pts.size(), t.planar ? " coplanar" : " spatial", " points, truth ", show(truth), " guess ", show(guess)));

  if (kind == 0 || kind == 1)
  {
    PnPProblem p;
    p.intr = k;
    p.correspondences = observe(k, truth, t);
    p.camera_to_target_guess = guess;
    auto res = optimize(p);
    verify("pnp2d", res.converged, res.final_cost_per_obs, res.camera_to_target, 1, truth, dist, true);
    // the multi-camera form with one camera at the base origin
    MultiCameraPnPProblem m;
    m.intr = { k };
    m.base_to_camera = { Iso::Identity() };
    m.image_observations = { p.correspondences };
    m.base_to_target_guess = guess;
    auto mr = optimize(m);
    poseNear(c, mr.base_to_target, res.camera_to_target, RTOL, TTOL * dist, "single-vs-multi", "one camera at the base origin");
    c.check(mr.converged == res.converged, "single-vs-multi", "different convergence");
    c.near(mr.initial_cost_per_obs, res.initial_cost_per_obs, 1e-6 * (1 + std::abs(res.initial_cost_per_obs)), "single-vs-multi", "initial cost");
    c.count("single and multi-camera answers compared");
  }
  else if (kind == 2)
  {
    // a 3D sensor: any pose at all, including behind the origin
    if (r.chance(0.5) && !noRotGuess)
    {
      truth = randPose(r, 2);
      guess = perturb(truth, r, 0.3, 0.3);
      if (r.chance(0.1)) { truth.linear() = rot(unit(r) * M_PI); guess.linear() = truth.linear() * rot(rotvec(r, 0.2)); }
    }
    PnPProblem3D p;
    p.correspondences = observe3(truth, t);
    p.camera_to_target_guess = guess;
    auto res = optimize(p);
    verify("pnp3d", res.converged, res.final_cost_per_obs, res.camera_to_target, t.size, truth, std::max(dist, truth.translation().norm()), false);
  }
  else
  {
    // several cameras around the target, everything expressed in a common base frame
    const int n = r.range(1, 4);
    Iso base_to_target = kind == 3 ? randPose(r, 2) : mk(rot(rotvec(r, 0.1)), box(r, 1));
    Iso bguess = perturb(base_to_target, r, 0.3, 0.12 * t.size * 1.6);
    if (kind == 4) { bguess.linear().setIdentity(); c.count("multi-camera guesses without rotation"); }
    MultiCameraPnPProblem m;
    double far = 0;
    for (int i = 0; i < n; ++i)
    {
      Iso v = viewPose(r, t, 1.6, 3.0, 0.35, 0.8);
      if (!allInFront(v, t, 0.2 * t.size)) { c.count("skipped: target would reach the camera"); return; }
      CameraIntrinsics ki = randIntr(r);
      Target part = t;
      if (n > 1 && r.chance(0.3))
      {  // each camera may see a different part of the target
        r.shuffle(part.pts);
        part.pts.resize(std::max<std::size_t>(4, part.pts.size() / 2));
        if (i == 0) part = t;
      }
      m.intr.push_back(ki);
      m.base_to_camera.push_back(base_to_target * v.inverse());
      m.image_observations.push_back(observe(ki, v, part));
      far = std::max(far, m.base_to_camera.back().translation().norm());
    }
    if (r.chance(0.3))
    {  // cameras that do not see the target, anywhere among those that do
      for (int i = r.range(1, 2); i > 0; --i)
      {
        const int at = r.range(0, int(m.intr.size()));
        m.intr.insert(m.intr.begin() + at, randIntr(r));
        m.base_to_camera.insert(m.base_to_camera.begin() + at, randPose(r, 2));
        m.image_observations.insert(m.image_observations.begin() + at, Correspondence2D3D::Set());
      }
      c.count("multi-camera problems with blind cameras");
    }
    m.base_to_target_guess = bguess;
    guess = bguess;
    truth = base_to_target;
    auto res = optimize(m);
    verify("multi", res.converged, res.final_cost_per_obs, res.base_to_target, 1, base_to_target, std::max(far, 1.0), true);
    c.count("cameras in multi-camera problems", n);
  }
}
