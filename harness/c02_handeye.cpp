// C02: hand-eye calibration recovers both mount transforms; 2D problems with features behind the camera are refused
#include "handeye.h"
using namespace vh;
using namespace rct_optimizations;
static const double RTOL = 2e-6, TTOL = 2e-6;

// Some observations see a part of the target only, in another order
template <typename P>
static void hide(Case& c, P& p)
{
  for (std::size_t i = 0; i < p.observations.size(); ++i)
  {
    auto& s = p.observations[i].correspondence_set;
    const std::size_t all = s.size();
    if (c.rng.chance(0.1)) dropSome(c.rng, s);
    else if (i > 4 && c.rng.chance(0.03)) s.resize(1);
    if (s.size() < all) c.count("observations of a part of the target");
  }
}
VH_CASE(C02)
{
  Rng& r = c.rng;
  const int mode = static_cast<int>(c.index % 3);
  const bool three = (c.index / 3) % 3 == 2;
  const bool refuse = (c.index / 9) % 3 == 2 && !three;
  HandEye h;
  const double base = r.logu(0.3, 3.0);
  const int n = r.range(6, 12);
  const bool turns = r.chance(0.3);
  while (!makeHandEye(r, h, mode, n, base, turns)) {}
  if (turns) c.count("problems with observations from one place");
  // the mount transforms may be trivial too
  const double span = base + h.dist + 1;
  const double gr = r.uni(0.02, 0.12), gt = r.uni(0.005, 0.04) * h.t.size * 1.8;
  Iso gX = perturb(h.X, r, gr, gt), gY = perturb(h.Y, r, gr, gt);
  if (r.chance(0.1)) { gX = h.X; gY = h.Y; }
  c.nontrivial(hashIso(h.X, hashIso(h.Y, hashIso(gX, mode))));
  const char* names[] = { "camera moves", "target moves", "both move" };
  c.sample(cat(names[mode], three ? ", 3D sensor, " : ", 2D camera, ", n, " observations of ", h.t.pts.size(), " features, X ", show(h.X), " guess ", show(gX)));
  auto verify = [&](const char* what, const ExtrinsicHandEyeResult& res, bool px) {
    c.count(cat(what, " solved, ", names[mode]));
    std::string d = cat(names[mode], ", ", n, " observations, guess X ", show(gX), " Y ", show(gY));
    c.check(res.converged, cat(what, "-not-converged"), d);
    c.check(res.final_cost_per_obs >= 0 && res.final_cost_per_obs < (px ? 1e-6 : 1e-10 * span * span), cat(what, "-cost"), cat("final cost ", res.final_cost_per_obs));
    poseNear(c, res.camera_mount_to_camera, h.X, RTOL, TTOL * span, cat(what, "-camera"), d);
    poseNear(c, res.target_mount_to_target, h.Y, RTOL, TTOL * span, cat(what, "-target"), d);
  };
  if (three)
  {
    ExtrinsicHandEyeProblem3D3D p;
    fillHandEye(h, p);
    hide(c, p);
    p.camera_mount_to_camera_guess = gX;
    p.target_mount_to_target_guess = gY;
    verify("handeye3d", optimize(p), false);
    return;
  }
  ExtrinsicHandEyeProblem2D3D p;
  fillHandEye(h, p);
  if (!refuse) hide(c, p);
  p.camera_mount_to_camera_guess = gX;
  p.target_mount_to_target_guess = gY;
  if (!refuse)
  {
    if (r.chance(0.1) && p.observations.size() > 1)
    {  // an image without features carries no information but is legal
      Observation2D3D e;
      e.to_camera_mount = randPose(r, 1);
      p.observations.insert(p.observations.begin() + r.range(0, int(p.observations.size())), e);
      c.count("problems with an empty observation");
    }
    if (minDepth(p) < 0.05 * h.t.size) { c.count("skipped: guess too close"); return; }
    verify("handeye2d", optimize(p), true);
    return;
  }
  // refusal: move a guess until some feature is behind the camera
  const int how = r.range(0, 3);
  p.camera_mount_to_camera_guess = h.X;
  p.target_mount_to_target_guess = h.Y;
  if (how == 0)
    p.camera_mount_to_camera_guess = h.X * mk(rot(V3(M_PI, 0, 0)), V3::Zero());
  else if (how == 1)
  {  // only one feature of one observation behind, by a small amount
    auto& o = p.observations[static_cast<std::size_t>(r.range(0, int(p.observations.size()) - 1))];
    auto& k = o.correspondence_set[static_cast<std::size_t>(r.range(0, int(o.correspondence_set.size()) - 1))];
    V3 in_cam((V3(r.uni(-1, 1), r.uni(-1, 1), -r.logu(1e-6, 1)) * h.t.size));
    k.in_target = ((o.to_camera_mount * h.X).inverse() * o.to_target_mount * h.Y).inverse() * in_cam;
    c.count("problems with exactly one feature behind the camera");
  }
  else
  {  // slide the camera forward until the nearest feature passes the image plane
    double step = minDepth(p) * 1.0;
    p.camera_mount_to_camera_guess = h.X * Iso(Eigen::Translation3d(0, 0, step + r.logu(1e-6, 0.5) * h.t.size));
    if (how == 3) { p.camera_mount_to_camera_guess = h.X; p.target_mount_to_target_guess = perturb(h.Y, r, 3.1, 2 * h.dist); }
  }
  const double md = minDepth(p);
  if (std::abs(md) < 1e-9) return;
  bool threw = false;
  std::string what;
  ExtrinsicHandEyeResult res;
  const std::size_t before = allocatedBytes();
  try { res = optimize(p); }
  catch (const std::exception& e) { threw = true; what = e.what(); }
  (void)before;
  if (md < 0)
  {
    c.count("guesses with features behind the camera");
    c.check(threw, "behind-camera-accepted", cat("smallest depth ", md, ", mode ", mode, " how ", how));
  }
}
