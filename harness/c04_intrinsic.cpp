// C04: intrinsic calibration recovers focal length, center and distortion
#include "gen.h"
#include <limits>
#include <rct_optimizations/experimental/camera_intrinsic.h>
using namespace vh;
using namespace rct_optimizations;

VH_CASE(C04)
{
  Rng& r = c.rng;
  CameraIntrinsics k;
  k.fx() = r.uni(450, 900);
  k.fy() = k.fx() * r.uni(0.9, 1.1);
  k.cx() = r.uni(300, 360);
  k.cy() = r.uni(220, 260);
  std::array<double, 5> D = { { r.uni(-0.2, 0.15), r.uni(-0.1, 0.1), r.uni(-0.004, 0.004), r.uni(-0.004, 0.004), r.uni(-0.05, 0.05) } };
  if (r.chance(0.15)) { D = { { 0, 0, 0, 0, 0 } }; c.count("cameras without distortion"); }
  Target t = gridTarget(r, r.range(6, 9), r.range(6, 9), r.uni(0.03, 0.05), r.chance(0.5));
  const int n = r.range(9, 15);
  IntrinsicEstimationProblem p;
  p.use_extrinsic_guesses = false;
  std::vector<Iso> poses;
  double maxr = 0;
  for (int i = 0; i < n; ++i)
  {
    const double az = 2 * M_PI * (i + r.u01()) / n;
    Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * r.uni(0.2, 0.55)) * rot(V3(0, 0, r.uni(-0.3, 0.3))) * rot(V3(M_PI, 0, 0));
    double d = t.size * r.uni(1.3, 2.0);
    Iso v = mk(R, V3(r.uni(-0.2, 0.2) * d, r.uni(-0.2, 0.2) * d, d) - R * centroid(t.pts));
    Correspondence2D3D::Set s;
    for (auto& q : t.pts)
    {
      V3 pc = v * q;
      maxr = std::max(maxr, std::hypot(pc.x() / pc.z(), pc.y() / pc.z()));
      s.push_back(Correspondence2D3D(distort(k, D, pc), q));
    }
    if (r.chance(0.15)) { r.shuffle(s); s.resize(s.size() * std::size_t(r.range(70, 100)) / 100); c.count("images of a part of the target"); }
    poses.push_back(v);
    p.image_observations.push_back(s);
  }
  p.intrinsics_guess = k;
  p.intrinsics_guess.fx() *= r.uni(0.95, 1.05);
  p.intrinsics_guess.fy() *= r.uni(0.95, 1.05);
  p.intrinsics_guess.cx() += r.uni(-12, 12);
  p.intrinsics_guess.cy() += r.uni(-12, 12);
  int bad = 0;
  std::set<std::size_t> badIdx;
  if (r.chance(0.4))
  {
    bad = r.range(1, 3);
    const Correspondence2D3D::Set good = p.image_observations[0];
    for (int b = 0; b < bad; ++b)
    {
      Correspondence2D3D::Set s;
      const int how = r.range(0, 3);
      if (how == 1)
        s.assign(1, good[0]);
      else if (how == 2)
        s.assign(good.begin(), good.begin() + 2);
      else if (how == 3)
      {
        s = good;
        s[static_cast<std::size_t>(r.range(0, int(s.size()) - 1))].in_image.x() = std::numeric_limits<double>::quiet_NaN();
      }
      p.image_observations.insert(p.image_observations.begin() + r.range(0, int(p.image_observations.size())), s);
      c.count(how == 0 ? "empty images" : how == 3 ? "images with a non-finite feature" : "images with too few features");
    }
  }
  c.nontrivial(hashDouble(k.fx(), hashDouble(D[0], hashDouble(D[2], static_cast<uint64_t>(n * 8 + bad)))));
  c.sample(cat("fx ", k.fx(), " fy ", k.fy(), " cx ", k.cx(), " cy ", k.cy(), " D ", D[0], " ", D[1], " ", D[2], " ", D[3], " ", D[4], ", ", n, " images of ",
               t.rows, "x", t.cols, ", ", bad, " unusable, largest normalised radius ", maxr));
  auto res = optimize(p);
  c.count("calibrations");
  std::string d = cat(n, " images, ", bad, " unusable, max radius ", maxr, ", D ", D[0], " ", D[1], " ", D[2], " ", D[3], " ", D[4]);
  c.check(res.converged, "not-converged", d);
  c.check(res.final_cost_per_obs >= 0 && res.final_cost_per_obs < 1e-6, "cost", cat(d, ": final cost ", res.final_cost_per_obs));
  const double tol = 1e-3;  // pixels
  c.near(res.intrinsics.fx(), k.fx(), tol, "fx", d);
  c.near(res.intrinsics.fy(), k.fy(), tol, "fy", d);
  c.near(res.intrinsics.cx(), k.cx(), tol, "cx", d);
  c.near(res.intrinsics.cy(), k.cy(), tol, "cy", d);
  // a coefficient matters by its effect at the edge of the field of view
  const double r2 = maxr * maxr;
  const double eff[5] = { r2, r2 * r2, r2, r2, r2 * r2 * r2 };
  static const char* names[5] = { "k1", "k2", "p1", "p2", "k3" };
  for (int i = 0; i < 5; ++i) c.near(res.distortions[static_cast<std::size_t>(i)], D[static_cast<std::size_t>(i)], 2e-6 / eff[i], names[i], d);
}
