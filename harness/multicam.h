// Scene of several static cameras around a region, and targets in it
#pragma once
#include "gen.h"
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
namespace vh
{
struct Rig
{
  Target t;
  std::vector<CameraIntrinsics> k;
  std::vector<Iso> cam, tgt;  // base to camera, base to target
  double dist = 0, span = 0;
};
inline void makeRig(Rng& r, Rig& g, int ncam, int ntgt, double base)
{
  for (;;)
  {
    g = Rig();
    g.t = randTarget(r, 8);
    const V3 ce = centroid(g.t.pts);
    Iso region = randPose(r, base);
    const double s = g.t.size;
    bool ok = true;
    for (int i = 0; i < ntgt; ++i)
    {
      Eigen::Matrix3d R = rot(V3(std::cos(r.uni(-3, 3)), std::sin(r.uni(-3, 3)), 0).normalized() * r.uni(0.1, 0.5)) * rot(V3(0, 0, r.uni(-M_PI, M_PI)));
      g.tgt.push_back(region * mk(R, box(r, 0.25 * s) - R * ce));
    }
    for (int i = 0; i < ncam; ++i)
    {
      // camera at distance d along a direction in a cone about +z, looking at the region
      V3 dir = rot(V3(std::cos(r.uni(-3, 3)), std::sin(r.uni(-3, 3)), 0).normalized() * r.uni(0.2, 0.65)) * V3(0, 0, 1);
      double d = s * r.uni(2.0, 3.2);
      V3 zc = -dir, xc = zc.cross(unit(r)).normalized();
      Eigen::Matrix3d R;
      R << xc, zc.cross(xc), zc;
      g.cam.push_back(region * mk(R, dir * d) * mk(rot(rotvec(r, 0.05)), V3::Zero()));
      g.k.push_back(randIntr(r));
      g.dist = std::max(g.dist, d);
    }
    for (auto& cmr : g.cam)
      for (auto& tg : g.tgt)
        if (!allInFront(cmr.inverse() * tg, g.t, 0.4 * s)) ok = false;
    g.span = base + g.dist + 1;
    if (ok) return;
  }
}
inline Correspondence2D3D::Set shot(const Rig& g, std::size_t c, std::size_t i) { return observe(g.k[c], g.cam[c].inverse() * g.tgt[i], g.t); }
// Which pairs (camera, target) are seen: the first camera sees everything it must so that the graph is connected
inline std::vector<std::vector<bool>> seen(Rng& r, std::size_t nc, std::size_t nt, double p)
{
  std::vector<std::vector<bool>> v(nc, std::vector<bool>(nt, true));
  for (std::size_t c = 1; c < nc; ++c)
    for (std::size_t i = 1; i < nt; ++i) v[c][i] = !r.chance(p);
  return v;
}
}  // namespace vh
