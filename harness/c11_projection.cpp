// C11: projection and pose primitives agree with the pinhole model and each other
#include "opt.h"
#include <map>
#include <algorithm>
#include <ceres/jet.h>
#include <rct_image_tools/image_utils.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/eigen_conversions.h>
#include <rct_optimizations/local_parameterization.h>
using namespace vh;
using namespace rct_optimizations;

// every way the library has of projecting a point given in the camera frame
static std::vector<V2> ways(const CameraIntrinsics& k, const V3& p)
{
  std::vector<V2> o;
  double a[2];
  projectPoint(k, p.data(), a);
  o.push_back(V2(a[0], a[1]));
  o.push_back(projectPoint<double>(k, p));
  auto re = rct_image_tools::getReprojections(Iso::Identity(), k, { p });
  o.push_back(re.size() == 1 ? V2(re[0].x, re[0].y) : V2(NAN, NAN));
  return o;
}
static const char* wayName[] = { "array form", "Eigen form", "reprojection" };

static void projection(Case& c)
{
  Rng& r = c.rng;
  CameraIntrinsics k = randIntr(r);
  if (r.chance(0.2)) { k.cx() = r.uni(-2000, 2000); k.cy() = r.uni(-2000, 2000); }
  V3 p;
  p.z() = r.chance(0.3) ? r.logu(1e-8, 1e-2) : r.logu(1e-2, 50);
  if (r.chance(0.4)) p.z() = -p.z();
  const double s = r.chance(0.3) ? 1.0 : std::abs(p.z());
  p.x() = r.chance(0.05) ? 0 : r.uni(-1, 1) * s;
  p.y() = r.chance(0.05) ? 0 : r.uni(-1, 1) * s;
  std::string d = cat("point ", p.transpose(), " with ", k.fx(), " ", k.fy(), " ", k.cx(), " ", k.cy());
  c.sample(d);
  c.nontrivial(hashDouble(p.x(), hashDouble(p.z(), 1)));
  c.count(p.z() < 0 ? "points behind the camera" : "points in front of the camera");
  V2 want = project(k, p);
  auto w = ways(k, p);
  for (std::size_t i = 0; i < w.size(); ++i)
    for (int a = 0; a < 2; ++a) c.near(w[i][a], want[a], 1e-9 * (1 + std::abs(want[a]) + std::abs(want[a] - k.values[std::size_t(2 + a)])), cat("project-", i), cat(d, ", ", wayName[i]));
  using J = ceres::Jet<double, 3>;
  J pj[3] = { J(p.x(), 0), J(p.y(), 1), J(p.z(), 2) }, o[2];
  projectPoint(k, pj, o);
  Eigen::Matrix<J, 3, 1> pe(pj[0], pj[1], pj[2]);
  Eigen::Matrix<J, 2, 1> oe = projectPoint<J>(k, pe);
  const double D[2][3] = { { k.fx() / p.z(), 0, -k.fx() * p.x() / p.z() / p.z() }, { 0, k.fy() / p.z(), -k.fy() * p.y() / p.z() / p.z() } };
  for (int a = 0; a < 2; ++a)
  {
    for (auto* q : { &o[a], &oe[a] })
    {
      c.near(q->a, want[a], 1e-9 * (1 + std::abs(want[a]) + std::abs(want[a] - k.values[std::size_t(2 + a)])), "project-jet", d);
      for (int i = 0; i < 3; ++i) c.near(q->v[i], D[a][i], 1e-9 * (std::abs(D[a][i]) + std::abs(D[a][a])), "project-derivative", cat(d, " d", a, "/d", i));
    }
  }
  c.count("projections compared", 5);
  if (r.chance(0.1))
  {
    // in the camera's own plane there is no image, but a number all the same
    for (const V2& q : ways(k, V3(p.x(), p.y(), 0))) c.check(q.allFinite(), "camera-plane", d);
    J z[3] = { J(p.x(), 0), J(p.y(), 1), J(0.0, 2) }, u[2];
    projectPoint(k, z, u);
    c.check(std::isfinite(u[0].a) && std::isfinite(u[1].a) && u[0].v.allFinite() && u[1].v.allFinite(), "camera-plane", d + " (derivatives)");
    c.count("points in the camera plane");
  }
}

static void reproject(Case& c)
{
  Rng& r = c.rng;
  CameraIntrinsics k = randIntr(r);
  Target t = randTarget(r, 8);
  Iso v = viewPose(r, t, 1.5, 4, 0, 1.2);
  if (r.chance(0.3)) v = randPose(r, 2);
  r.shuffle(t.pts);
  t.pts.resize(std::size_t(r.range(0, int(t.pts.size()))));
  if (t.pts.size() > 2 && r.chance(0.3)) t.pts.push_back(t.pts[0]);
  auto re = rct_image_tools::getReprojections(v, k, t.pts);
  std::string d = cat(t.pts.size(), " points seen from ", show(v));
  c.nontrivial(hashIso(v, 2));
  if (!c.check(re.size() == t.pts.size(), "reprojection-count", d)) return;
  for (std::size_t i = 0; i < re.size(); ++i)
  {
    V3 p = v * t.pts[i];
    if (std::abs(p.z()) < 1e-6) continue;
    V2 w = project(k, p);
    const double tol = 1e-9 * (1 + w.norm()) * (1 + p.norm() / std::abs(p.z()));
    c.near(re[i].x, w.x(), tol, "reprojection", cat(d, " point ", i));
    c.near(re[i].y, w.y(), tol, "reprojection", cat(d, " point ", i));
  }
  c.count("reprojections compared", double(re.size()));
  // drawing draws circles of the given size there, and nothing elsewhere
  cv::Mat img(200, 240, CV_8UC3, cv::Scalar(0, 0, 0));
  std::vector<cv::Point2d> at;
  for (int i = 0, n = r.range(0, 4); i < n; ++i) at.push_back(cv::Point2d(r.range(-30, 270), r.range(-30, 230)));
  const int size = r.range(2, 9);
  rct_image_tools::drawReprojections(at, size, cv::Scalar(10, 20, 30), img);
  bool ok = true;
  for (int y = 0; y < img.rows; ++y)
    for (int x = 0; x < img.cols; ++x)
    {
      cv::Vec3b b = img.at<cv::Vec3b>(y, x);
      bool mayRing = false, onAxis = false;
      for (auto& p : at)
      {
        const double q = std::hypot(x - p.x, y - p.y);
        mayRing = mayRing || std::abs(q - size) < 1.6;
        onAxis = onAxis || (y == p.y && std::abs(x - p.x) == size);
      }
      const bool drawn = b != cv::Vec3b(0, 0, 0);
      if (drawn && (b != cv::Vec3b(10, 20, 30) || !mayRing)) ok = false;
      if (!drawn && onAxis) ok = false;
    }
  c.check(ok, "draw-reprojections", cat(at.size(), " circles of size ", size));
}

static void poses(Case& c)
{
  Rng& r = c.rng;
  // every size of rotation, and half turns about special axes
  double ang = r.uni(0, M_PI);
  switch (r.range(0, 5))
  {
    case 0: ang = r.logu(1e-12, 1e-2); break;
    case 1: ang = M_PI - r.logu(1e-12, 1e-2); break;
    case 2: ang = M_PI; break;
    case 3: ang = r.chance(0.5) ? 0 : M_PI / 2; break;
    default: break;
  }
  V3 ax = unit(r);
  if (r.chance(0.3)) { ax = V3::Zero(); ax[r.range(0, 2)] = r.sign(); }
  else if (r.chance(0.2)) { ax[r.range(0, 2)] = 0; ax.normalize(); }
  Iso p = mk(rot(ax * ang), box(r, r.logu(1e-3, 1e3)));
  if (ang == M_PI)
  {  // exactly a half turn: 2 a a' - I
    p.linear() = 2 * ax * ax.transpose() - Eigen::Matrix3d::Identity();
  }
  std::string d = cat("rotation by ", ang, " about ", ax.transpose(), " at ", p.translation().transpose());
  c.sample(d);
  c.nontrivial(hashIso(p, 3));
  Pose6d q = poseEigenToCal(p);
  c.check(q.x() == p.translation().x() && q.y() == p.translation().y() && q.z() == p.translation().z(), "translation", d);
  c.check(q.values[3] == q.x() && q.values[4] == q.y() && q.values[5] == q.z() && q.values[0] == q.rx() && q.values[1] == q.ry() && q.values[2] == q.rz(), "pose6d-order", d);
  Iso b = poseCalToEigen(q);
  c.near((b.linear() - p.linear()).norm(), 0, 3e-8, "round-trip", cat(d, ": back ", show(b)));
  c.check(b.translation() == p.translation(), "round-trip-translation", d);
  c.near((rot(V3(q.rx(), q.ry(), q.rz())) - p.linear()).norm(), 0, 3e-8, "rotation-vector", d);
  c.near((b.linear() * b.linear().transpose() - Eigen::Matrix3d::Identity()).norm(), 0, 1e-12, "not-rigid", d);
  // any vector is a rotation, also beyond half a turn
  Pose6d g;
  V3 gv = unit(r) * (r.chance(0.3) ? r.logu(1e-12, 1e-5) : r.uni(0, 9));
  V3 gt = box(r, 3);
  g.rx() = gv.x(); g.ry() = gv.y(); g.rz() = gv.z(); g.x() = gt.x(); g.y() = gt.y(); g.z() = gt.z();
  Iso ge = poseCalToEigen(g);
  c.near((ge.linear() - rot(gv)).norm(), 0, 1e-12, "to-eigen", cat("rotation vector ", gv.transpose()));
  c.check(ge.translation() == gt, "to-eigen", "translation");
  c.count("conversions", 3);
  // a point by either form
  for (int i = 0; i < 3; ++i)
  {
    V3 x = box(r, r.logu(1e-2, 10));
    double o[3], aa[3] = { g.rx(), g.ry(), g.rz() }, tx[3] = { g.x(), g.y(), g.z() };
    V3 want = rot(gv) * x + gt;
    poseTransformPoint(g, x.data(), o);
    c.near((V3(o[0], o[1], o[2]) - want).norm(), 0, 1e-12 * (1 + want.norm() + x.norm()), "pose-transform-point", d);
    transformPoint(aa, tx, x.data(), o);
    c.near((V3(o[0], o[1], o[2]) - want).norm(), 0, 1e-12 * (1 + want.norm() + x.norm()), "transform-point", d);
    Pose6d pq = poseEigenToCal(p);
    poseTransformPoint(pq, x.data(), o);
    c.near((V3(o[0], o[1], o[2]) - p * x).norm(), 0, 3e-8 * (1 + x.norm()) + 1e-14 * p.translation().norm(), "pose-transform-point", d);
    using J = ceres::Jet<double, 9>;
    J ja[3], jt[3], jx[3], jo[3];
    for (int a = 0; a < 3; ++a) { ja[a] = J(aa[a], a); jt[a] = J(tx[a], 3 + a); jx[a] = J(x[a], 6 + a); }
    transformPoint(ja, jt, jx, jo);
    Res f = [&](const Eigen::VectorXd& u) { return Eigen::VectorXd(rot(gv + u.head<3>()) * (x + u.tail<3>()) + gt + u.segment<3>(3)); };
    Eigen::MatrixXd D = numJac(f, Eigen::VectorXd::Zero(9), 1e-4);
    double w = 0;
    for (int a = 0; a < 3; ++a)
      for (int k = 0; k < 9; ++k) w = std::max(w, std::abs(jo[a].v[k] - D(a, k)));
    c.near(w, 0, 1e-7 * (1 + x.norm()), "transform-derivative", cat("rotation vector ", gv.transpose(), " point ", x.transpose()));
    c.count("points transformed", 4);
  }
  {  // quaternion step: turned by twice the step, still a unit quaternion, smooth at zero
    Eigen::Quaterniond x(Eigen::Quaterniond(randRot(r)));
    V3 s = r.chance(0.2) ? V3(0, 0, 0) : V3(unit(r) * r.logu(1e-9, 3));
    Eigen::Quaterniond o;
    EigenQuaternionPlus plus;
    plus(x.coeffs().data(), s.data(), o.coeffs().data());
    c.near(o.norm(), 1, 1e-12, "quaternion-step", cat("step ", s.transpose()));
    c.near((o.toRotationMatrix() - rot(2 * s) * x.toRotationMatrix()).norm(), 0, 1e-11, "quaternion-step", cat("step ", s.transpose()));
    using J = ceres::Jet<double, 3>;
    J xj[4], sj[3], oj[4];
    for (int i = 0; i < 4; ++i) xj[i] = J(x.coeffs()[i]);
    for (int i = 0; i < 3; ++i) sj[i] = J(s[i], i);
    plus(xj, sj, oj);
    Res f = [&](const Eigen::VectorXd& u) {
      V3 v = s + u;
      const double n = v.norm(), k = n > 1e-9 ? std::sin(n) / n : 1;
      Eigen::Quaterniond q(std::cos(n), k * v.x(), k * v.y(), k * v.z());
      return Eigen::VectorXd((q * x).coeffs());
    };
    Eigen::MatrixXd D = numJac(f, Eigen::VectorXd::Zero(3), 1e-3);
    double w = 0;
    for (int a = 0; a < 4; ++a)
      for (int k = 0; k < 3; ++k) w = std::max(w, std::abs(oj[a].v[k] - D(a, k)));
    c.near(w, 0, 1e-7, "quaternion-step-derivative", cat("step ", s.transpose()));
  }
}

VH_CASE(C11)
{
  switch (c.index % 4)
  {
    case 0: case 1: return projection(c);
    case 2: return reproject(c);
    default: return poses(c);
  }
}
