// C18: 3D projection error is the distance on the target plane
#include "gen.h"
#include <rct_optimizations/validation/projection.h>
using namespace vh;
using namespace rct_optimizations;

static void intersection(Case& c)
{
  Rng& r = c.rng;
  const double S = r.logu(1e-3, 1e3);
  V3 n = unit(r), l = unit(r), pp = box(r, S), lp = box(r, S);
  if (r.chance(0.2)) n = V3::Unit(r.range(0, 2)) * r.sign();
  if (r.chance(0.2)) l = V3::Unit(r.range(0, 2)) * r.sign();
  if (r.chance(0.1)) pp = V3::Zero();
  if (r.chance(0.1)) lp = V3::Zero();
  if (r.chance(0.1)) lp = pp + n.unitOrthogonal() * r.uni(0, S);   // already on the plane
  double eps = 1e-6;
  const bool own = r.chance(0.3);
  if (own) eps = r.logu(1e-9, 0.2);
  const bool steep = r.chance(0.3);
  if (steep)
  {
    // close to parallel, on either side of the limit
    V3 t = n.unitOrthogonal();
    const double s = r.sign() * eps * (r.chance(0.5) ? r.uni(0, 0.9) : r.uni(1.1, 30));
    l = (t * std::sqrt(std::max(0.0, 1 - s * s)) + n * s).normalized();
  }
  const double dp = n.dot(l);
  if (std::abs(std::abs(dp) - eps) < 0.02 * eps) return c.count("too close to the limit");
  std::string d = cat("normal ", n.transpose(), " point ", pp.transpose(), " line ", l.transpose(), " point ", lp.transpose(), " dot ", dp, " epsilon ", eps);
  c.nontrivial(hashDouble(lp.x(), hashDouble(dp, 1)));
  V3 x;
  bool threw = false;
  try { x = own ? computeLinePlaneIntersection(n, pp, l, lp, eps) : computeLinePlaneIntersection(n, pp, l, lp); }
  catch (const std::exception&) { threw = true; }
  const bool parallel = std::abs(dp) < eps;
  c.check(threw == parallel, parallel ? "parallel-accepted" : "intersection-refused", d);
  if (threw || parallel) return c.count("parallel lines refused");
  const double len = (x - lp).norm() + S;
  c.near((x - pp).dot(n), 0, 1e-12 * len, "on-plane", cat(d, ": distance from the plane"));
  c.near((x - lp).cross(l).norm(), 0, 1e-12 * len, "on-line", cat(d, ": distance from the line"));
  c.count(dp > 0 ? "intersections, normal along the line" : "intersections, normal against the line");
  if ((x - lp).dot(l) < 0) c.count("intersections behind the line's point");
}

// the point (x, y, 0) of the target plane that is seen in pixel u: a 2x2 linear system, no rays involved
static V3 onPlane(const Eigen::Matrix3d& K, const Iso& v, const V2& u)
{
  Eigen::Matrix3d H;
  H.col(0) = K * v.linear().col(0);
  H.col(1) = K * v.linear().col(1);
  H.col(2) = K * v.translation();
  Eigen::Matrix2d A;
  V2 b;
  for (int i = 0; i < 2; ++i)
  {
    A.row(i) = H.row(i).head<2>() - u[i] * H.row(2).head<2>();
    b[i] = u[i] * H(2, 2) - H(i, 2);
  }
  V2 x = A.fullPivLu().solve(b);
  return V3(x.x(), x.y(), 0);
}

static void project(Case& c)
{
  Rng& r = c.rng;
  Target t = gridTarget(r, r.range(1, 5), r.range(2, 6), r.uni(0.01, 0.3), r.chance(0.5));
  Iso v = viewPose(r, t, 1.2, 6, 0, 1.3);
  if (r.chance(0.4)) v.linear() = v.linear() * rot(V3(M_PI, 0, 0));   // seen from behind the plane
  for (auto& p : t.pts)
    if ((v * p).z() < 0.1 * t.size) return c.count("views not usable");
  if (std::abs(v.linear().col(2).dot(v.translation().normalized())) < 0.05) return c.count("views not usable");
  CameraIntrinsics k = randIntr(r);
  Eigen::Matrix3d K;
  K << k.fx(), r.chance(0.3) ? r.uni(-20, 20) : 0, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
  Eigen::MatrixX2d px(Eigen::Index(t.pts.size()), 2);
  for (std::size_t i = 0; i < t.pts.size(); ++i)
  {
    V3 h = K * (v * t.pts[i]);
    px.row(Eigen::Index(i)) = (h / h.z()).head<2>().transpose();
  }
  std::string d = cat(t.pts.size(), " pixels, plane ", show(v));
  c.sample(d);
  c.nontrivial(hashIso(v, 3));
  Eigen::MatrixX3d g = project3D(px, v, K);
  if (!c.check(g.rows() == px.rows(), "project-count", d)) return;
  for (std::size_t i = 0; i < t.pts.size(); ++i)
    c.near((g.row(Eigen::Index(i)).transpose() - t.pts[i]).norm(), 0, 1e-8 * (t.size + v.translation().norm()), "project-point", cat(d, ": point ", i));
  c.count("points projected onto the plane", double(t.pts.size()));
}

static void error(Case& c)
{
  Rng& r = c.rng;
  Target t = gridTarget(r, r.range(2, 5), r.range(2, 6), r.uni(0.01, 0.3), r.chance(0.5));
  CameraIntrinsics k = randIntr(r);
  Eigen::Matrix3d K;
  K << k.fx(), 0, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
  const Iso cam = randPose(r, 0.5), tgt = randPose(r, 0.5);
  const int n = r.chance(0.1) ? r.range(10, 16) : r.range(0, 5);
  Observation2D3D::Set obs;
  std::vector<double> want;
  double worst = 0;
  for (int i = 0; i < n; ++i)
  {
    Iso v = viewPose(r, t, 1.2, 6, 0, 1.1);
    if (r.chance(0.3)) v.linear() = v.linear() * rot(V3(M_PI, 0, 0));
    if (!allInFront(v, t, 0.1 * t.size)) { --i; continue; }
    Observation2D3D o;
    o.to_camera_mount = randPose(r, 2);
    // camera to target: inv(camera_mount_to_camera) inv(to_camera_mount) to_target_mount target_mount_to_target
    o.to_target_mount = o.to_camera_mount * cam * v * tgt.inverse();
    o.correspondence_set = observe(k, v, t);
    if (r.chance(0.3)) o.correspondence_set.resize(std::size_t(r.range(0, int(t.pts.size()))));
    r.shuffle(o.correspondence_set);
    const double px = r.chance(0.3) ? 0 : r.logu(1e-3, 20), h = r.chance(0.2) ? 0.1 * t.size : 0;
    for (auto& q : o.correspondence_set)
    {
      q.in_image += V2(r.gauss(), r.gauss()) * px;
      q.in_target.z() += r.uni(-h, h);   // a target that is not quite flat
      V3 w = onPlane(K, v, q.in_image);
      want.push_back((q.in_target - w).norm());
      worst = std::max(worst, (v * w).norm());
    }
    obs.push_back(o);
    // single observations
    Eigen::ArrayXd e = compute3DProjectionError(o, k, cam, tgt);
    if (!c.check(e.size() == Eigen::Index(o.correspondence_set.size()), "error-count", cat("observation ", i))) return;
    for (Eigen::Index j = 0; j < e.size(); ++j)
      c.near(e[j], want[want.size() - o.correspondence_set.size() + std::size_t(j)], 1e-8 * (worst + 10), "error", cat("observation ", i, " feature ", j, " from ", show(v), " with noise ", px));
    c.count("single observations");
  }
  std::string d = cat(n, " observations, ", want.size(), " features");
  c.sample(d);
  if (n) c.nontrivial(hashIso(obs[0].to_target_mount, want.size()));
  Eigen::ArrayXd e = compute3DProjectionError(obs, k, cam, tgt);
  if (!c.check(std::size_t(e.size()) == want.size(), "errors-count", cat(d, ": ", e.size(), " errors"))) return;
  for (std::size_t j = 0; j < want.size(); ++j) c.near(e[Eigen::Index(j)], want[j], 1e-8 * (worst + 10), "errors", cat(d, ": error ", j));
  c.count("errors compared", double(want.size()));
  c.count("observation sets");
}

VH_CASE(C18)
{
  const int k = c.rng.range(0, 9);
  if (k < 4) intersection(c);
  else if (k < 6) project(c);
  else error(c);
}
