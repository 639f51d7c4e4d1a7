// C03: multi-camera extrinsic calibration recovers the camera and target poses
#include "multicam.h"
using namespace vh;
using namespace rct_optimizations;
static const double RTOL = 5e-6, TTOL = 5e-6;

static void movingTarget(Case& c)
{
  Rng& r = c.rng;
  Rig g;
  const int nc = r.chance(0.04) ? r.range(9, 12) : r.range(1, 4), nt = r.chance(0.04) ? r.range(10, 13) : r.range(5, 9);
  if (nc > 8 || nt > 9) c.count("many cameras or poses");
  const double base = r.logu(0.3, 3);
  makeRig(r, g, nc, nt, base);
  Iso W = randPose(r, 0.4);  // wrist to target
  ExtrinsicMultiStaticCameraMovingTargetProblem p;
  p.intr = g.k;
  auto vis = seen(r, g.cam.size(), g.tgt.size(), 0.25);
  for (std::size_t k = 0; k < g.cam.size(); ++k)
  {
    p.wrist_poses.emplace_back();
    p.image_observations.emplace_back();
    std::size_t n = 0;
    for (std::size_t i = 0; i < g.tgt.size(); ++i)
    {
      if (!vis[k][i] && n + (g.tgt.size() - i) > 4)
      {
        if (r.chance(0.5)) continue;  // cameras have lists of different length
        p.wrist_poses.back().push_back(g.tgt[i] * W.inverse());
        p.image_observations.back().emplace_back();  // nothing seen in this image
        c.count("images without features");
        continue;
      }
      auto s = shot(g, k, i);
      if (r.chance(0.15)) dropSome(r, s);
      p.wrist_poses.back().push_back(g.tgt[i] * W.inverse());
      p.image_observations.back().push_back(s);
      ++n;
    }
    p.base_to_camera_guess.push_back(perturb(g.cam[k], r, 0.07, 0.04 * g.dist));
  }
  p.wrist_to_target_guess = perturb(W, r, 0.07, 0.04 * g.dist);
  c.nontrivial(hashIso(W, hashIso(g.cam[0], 1)));
  c.sample(cat("moving target, ", nc, " cameras, ", nt, " wrist poses, wrist to target ", show(W), " guess ", show(p.wrist_to_target_guess)));
  auto res = optimize(p);
  c.count("moving-target problems solved");
  std::string d = cat(nc, " cameras, ", nt, " wrist poses");
  c.check(res.converged, "moving-not-converged", d);
  c.check(res.final_cost_per_obs >= 0 && res.final_cost_per_obs < 1e-6, "moving-cost", cat(d, " final cost ", res.final_cost_per_obs));
  poseNear(c, res.wrist_to_target, W, RTOL, TTOL * g.span, "moving-wrist", d);
  if (c.check(res.base_to_camera.size() == g.cam.size(), "moving-count", d))
    for (std::size_t k = 0; k < g.cam.size(); ++k) poseNear(c, res.base_to_camera[k], g.cam[k], RTOL, TTOL * g.span, "moving-camera", cat(d, ", camera ", k));
}

static void freeTargets(Case& c, bool fix)
{
  Rng& r = c.rng;
  Rig g;
  const int nc = r.chance(0.04) ? r.range(9, 12) : r.range(2, 4), nt = r.chance(0.04) ? r.range(10, 13) : r.range(2, 6);
  if (nc > 8 || nt > 9) c.count("many cameras or poses");
  const double base = r.logu(0.3, 3);
  makeRig(r, g, nc, nt, base);
  ExtrinsicMultiStaticCameraOnlyProblem p;
  p.fix_first_camera = fix;
  p.intr = g.k;
  auto vis = seen(r, g.cam.size(), g.tgt.size(), 0.25);
  for (std::size_t k = 0; k < g.cam.size(); ++k)
  {
    p.image_observations.emplace_back();
    for (std::size_t i = 0; i < g.tgt.size(); ++i)
    {
      if (!vis[k][i]) { p.image_observations.back().emplace_back(); c.count("images without features"); continue; }
      auto s = shot(g, k, i);
      if (r.chance(0.15)) dropSome(r, s);
      p.image_observations.back().push_back(s);
    }
    p.base_to_camera_guess.push_back(k == 0 && fix ? g.cam[0] : perturb(g.cam[k], r, 0.07, 0.04 * g.dist));
  }
  for (auto& t : g.tgt) p.base_to_target_guess.push_back(perturb(t, r, 0.07, 0.04 * g.dist));
  c.nontrivial(hashIso(g.cam[0], hashIso(g.tgt[0], 2 + fix)));
  c.sample(cat("free targets, first camera ", fix ? "fixed" : "free", ", ", nc, " cameras, ", nt, " targets, camera 1 ", show(g.cam[1]), " guess ", show(p.base_to_camera_guess[1])));
  auto res = optimize(p);
  std::string d = cat(nc, " cameras, ", nt, " targets");
  const std::string key = fix ? "fixed-first" : "free-first";
  c.count(key + " problems solved");
  c.check(res.converged, key + "-not-converged", d);
  c.check(res.final_cost_per_obs >= 0 && res.final_cost_per_obs < 1e-6, key + "-cost", cat(d, " final cost ", res.final_cost_per_obs));
  if (!c.check(res.base_to_camera.size() == g.cam.size() && res.base_to_target.size() == g.tgt.size(), key + "-count", d)) return;
  // with the first camera fixed everything is determined; otherwise only up to one rigid motion of the whole scene
  Iso G = fix ? Iso::Identity() : g.cam[0] * res.base_to_camera[0].inverse();
  if (fix) poseNear(c, res.base_to_camera[0], p.base_to_camera_guess[0], 1e-9, 1e-9 * g.span, "fixed-first-moved", d);
  for (std::size_t k = 0; k < g.cam.size(); ++k) poseNear(c, G * res.base_to_camera[k], g.cam[k], RTOL, TTOL * g.span, key + "-camera", cat(d, ", camera ", k));
  for (std::size_t i = 0; i < g.tgt.size(); ++i) poseNear(c, G * res.base_to_target[i], g.tgt[i], RTOL, TTOL * g.span, key + "-target", cat(d, ", target ", i));
  if (!fix)  // the free scene stays near its guess: nothing in the data asks it to move far
    c.check(rotDist(res.base_to_camera[0], p.base_to_camera_guess[0]) < 1.0, "free-first-drift", cat(d, " camera 0 ", show(res.base_to_camera[0])));
}

static void wristOnly(Case& c)
{
  Rng& r = c.rng;
  Rig g;
  const int nc = r.chance(0.04) ? r.range(9, 12) : r.range(1, 4), nt = r.chance(0.04) ? r.range(10, 13) : r.range(5, 9);
  if (nc > 8 || nt > 9) c.count("many cameras or poses");
  const double base = r.logu(0.3, 3);
  makeRig(r, g, nc, nt, base);
  Iso W = randPose(r, 0.4);
  // one rigid error common to all cameras, small about the region of the targets
  Iso pivot = Iso(Eigen::Translation3d((g.tgt[0] * centroid(g.t.pts))));
  Iso E = pivot * mk(rot(rotvec(r, 0.08)), unit(r) * r.uni(0, 0.05) * g.dist) * pivot.inverse();
  const bool noisy = r.chance(0.3);  // relative poses must survive any data
  ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
  p.intr = g.k;
  for (auto& t : g.tgt) p.wrist_poses.push_back(t * W.inverse());
  auto vis = seen(r, g.cam.size(), g.tgt.size(), 0.25);
  for (std::size_t k = 0; k < g.cam.size(); ++k)
  {
    p.image_observations.emplace_back();
    for (std::size_t i = 0; i < g.tgt.size(); ++i)
    {
      if (!vis[k][i]) { p.image_observations.back().emplace_back(); continue; }
      auto s = shot(g, k, i);
      if (noisy) for (auto& q : s) q.in_image += V2(r.gauss(), r.gauss()) * 2;
      p.image_observations.back().push_back(s);
    }
    p.base_to_camera_guess.push_back(E * g.cam[k]);
  }
  p.wrist_to_target_guess = perturb(W, r, 0.07, 0.04 * g.dist);
  c.nontrivial(hashIso(W, hashIso(E, 4 + noisy)));
  c.sample(cat("single correction, ", nc, " cameras, ", nt, " wrist poses, common error ", show(E)));
  auto res = optimize(p);
  std::string d = cat(nc, " cameras, ", nt, " wrist poses", noisy ? ", noisy" : "", ", common error ", show(E));
  c.count(noisy ? "single-correction problems solved on noisy data" : "single-correction problems solved");
  if (!c.check(res.base_to_camera.size() == g.cam.size(), "wrist-only-count", d)) return;
  for (std::size_t k = 1; k < g.cam.size(); ++k)
    poseNear(c, res.base_to_camera[0].inverse() * res.base_to_camera[k], p.base_to_camera_guess[0].inverse() * p.base_to_camera_guess[k], 1e-8,
             1e-8 * g.span, "wrist-only-relative", cat(d, ", camera ", k));
  if (noisy) return;
  c.check(res.converged, "wrist-only-not-converged", d);
  c.check(res.final_cost_per_obs >= 0 && res.final_cost_per_obs < 1e-6, "wrist-only-cost", cat(d, " final cost ", res.final_cost_per_obs));
  poseNear(c, res.wrist_to_target, W, RTOL, TTOL * g.span, "wrist-only-wrist", d);
  for (std::size_t k = 0; k < g.cam.size(); ++k) poseNear(c, res.base_to_camera[k], g.cam[k], RTOL, TTOL * g.span, "wrist-only-camera", cat(d, ", camera ", k));
}

VH_CASE(C03)
{
  switch (c.index % 4)
  {
    case 0: movingTarget(c); break;
    case 1: freeTargets(c, true); break;
    case 2: freeTargets(c, false); break;
    default: wristOnly(c); break;
  }
}
