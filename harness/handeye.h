// Hand-eye problem generator shared by several properties
#pragma once
#include "gen.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
namespace vh
{
struct HandEye
{
  Target t;
  CameraIntrinsics k;
  Iso X, Y;  // camera mount to camera, target mount to target
  std::vector<Iso> view, cmount, tmount;
  double dist = 0;
};
// mode 0: camera moves, 1: target moves, 2: both
// turns: some observations after the first four only turn (or only move, or repeat) the mounts of the one before
inline bool makeHandEye(Rng& r, HandEye& h, int mode, int n, double base, bool turns = false)
{
  h.t = randTarget(r, 8);
  h.k = randIntr(r);
  h.X = randPose(r, 0.3);
  h.Y = randPose(r, mode == 0 ? base : 0.5);
  if (mode == 1) h.X = randPose(r, base);
  h.view.clear(); h.cmount.clear(); h.tmount.clear();
  Iso fixedC = r.chance(0.5) ? Iso::Identity() : randPose(r, base), fixedT = r.chance(0.5) ? Iso::Identity() : randPose(r, base);
  for (int i = 0; i < n; ++i)
  {
    Iso v = viewPose(r, h.t, 1.8, 3.0, 0.3, 0.8);
    if (!allInFront(v, h.t, 0.3 * h.t.size)) return false;
    h.dist = std::max(h.dist, v.translation().norm());
    Iso C, T;
    if (mode == 0) { T = fixedT; C = T * h.Y * v.inverse() * h.X.inverse(); }
    else if (mode == 1) { C = fixedC; T = C * h.X * v * h.Y.inverse(); }
    else { C = randPose(r, base); T = C * h.X * v * h.Y.inverse(); }
    if (turns && i > 3 && r.chance(0.6))
    {
      C = h.cmount.back(), T = h.tmount.back();
      const int what = r.range(0, 4);
      const Iso turn = mk(rot(V3(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-0.6, 0.6))), V3::Zero());
      Iso& moved = mode == 0 ? C : mode == 1 ? T : r.chance(0.5) ? C : T;
      if (what < 3) moved = Iso(Eigen::Translation3d(moved.translation())) * turn * mk(moved.linear(), V3::Zero());
      else if (what == 3) moved = Iso(Eigen::Translation3d(V3(r.uni(-0.2, 0.2), r.uni(-0.2, 0.2), r.uni(-0.2, 0.2)) * h.t.size)) * moved;
      v = (C * h.X).inverse() * T * h.Y;
      if (!allInFront(v, h.t, 0.3 * h.t.size)) return false;
      h.dist = std::max(h.dist, v.translation().norm());
    }
    h.view.push_back(v); h.cmount.push_back(C); h.tmount.push_back(T);
  }
  return true;
}
template <typename Problem>
void fillHandEye(const HandEye& h, Problem& p);
template <>
inline void fillHandEye(const HandEye& h, rct_optimizations::ExtrinsicHandEyeProblem2D3D& p)
{
  p.intr = h.k;
  p.observations.clear();
  for (std::size_t i = 0; i < h.view.size(); ++i)
  {
    rct_optimizations::Observation2D3D o;
    o.to_camera_mount = h.cmount[i];
    o.to_target_mount = h.tmount[i];
    o.correspondence_set = observe(h.k, h.view[i], h.t);
    p.observations.push_back(o);
  }
}
template <>
inline void fillHandEye(const HandEye& h, rct_optimizations::ExtrinsicHandEyeProblem3D3D& p)
{
  p.observations.clear();
  for (std::size_t i = 0; i < h.view.size(); ++i)
  {
    rct_optimizations::Observation3D3D o;
    o.to_camera_mount = h.cmount[i];
    o.to_target_mount = h.tmount[i];
    o.correspondence_set = observe3(h.view[i], h.t);
    p.observations.push_back(o);
  }
}
// Smallest depth of any feature with the given guesses
template <typename Problem>
double minDepth(const Problem& p)
{
  double m = 1e300;
  for (auto& o : p.observations)
    for (auto& k : o.correspondence_set)
      m = std::min(m, ((o.to_camera_mount * p.camera_mount_to_camera_guess).inverse() * (o.to_target_mount * p.target_mount_to_target_guess * k.in_target)).z());
  return m;
}
}  // namespace vh
