// Generators and reference formulas shared by the cases. Nothing here calls the code under test.
#pragma once
#include "core.h"
#include <cstring>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <functional>
#include <rct_optimizations/types.h>

namespace vh
{
using Iso = Eigen::Isometry3d;
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;
using rct_optimizations::CameraIntrinsics;
using rct_optimizations::Correspondence2D3D;
using rct_optimizations::Correspondence3D3D;

inline V3 unit(Rng& r)
{
  for (;;)
  {
    V3 v(r.gauss(), r.gauss(), r.gauss());
    if (v.norm() > 1e-3) return v.normalized();
  }
}
// Rodrigues, written out so that it is independent of Eigen's AngleAxis and of Ceres
inline Eigen::Matrix3d rot(const V3& aa)
{
  const double t = aa.norm();
  Eigen::Matrix3d K;
  K << 0, -aa.z(), aa.y(), aa.z(), 0, -aa.x(), -aa.y(), aa.x(), 0;
  if (t < 1e-8) return Eigen::Matrix3d::Identity() + K + 0.5 * K * K;
  return Eigen::Matrix3d::Identity() + std::sin(t) / t * K + (1 - std::cos(t)) / (t * t) * K * K;
}
inline Iso mk(const Eigen::Matrix3d& R, const V3& t)
{
  Iso p = Iso::Identity();
  p.linear() = R;
  p.translation() = t;
  return p;
}
inline V3 rotvec(Rng& r, double maxAngle) { return unit(r) * r.uni(0, maxAngle); }
inline Eigen::Matrix3d randRot(Rng& r)
{
  Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
  q.normalize();
  return q.toRotationMatrix();
}
inline V3 box(Rng& r, double s) { return V3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
inline Iso randPose(Rng& r, double s) { return mk(randRot(r), box(r, s)); }
inline Iso perturb(const Iso& p, Rng& r, double ang, double tr)
{
  Iso o = p;
  o.linear() = p.linear() * rot(rotvec(r, ang));
  o.translation() += unit(r) * r.uni(0, tr);
  return o;
}
// Angle of the rotation between two poses: robust near zero and near pi
inline double rotDist(const Eigen::Matrix3d& A, const Eigen::Matrix3d& B)
{
  Eigen::Matrix3d D = A.transpose() * B;
  V3 v(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
  return std::atan2(v.norm() / 2, (D.trace() - 1) / 2);
}
inline double rotDist(const Iso& a, const Iso& b) { return rotDist(a.linear(), b.linear()); }
inline double trDist(const Iso& a, const Iso& b) { return (a.translation() - b.translation()).norm(); }
inline bool isRigid(const Iso& a, double tol = 1e-6)
{
  return a.matrix().allFinite() && (a.linear() * a.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < tol &&
         a.linear().determinant() > 0 && a.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1);
}
inline std::string show(const Iso& p)
{
  std::ostringstream o;
  Eigen::AngleAxisd aa(p.linear());
  o << "[t=(" << p.translation().transpose() << ") rotvec=(" << (aa.axis() * aa.angle()).transpose() << ")]";
  return o.str();
}
inline uint64_t hashIso(const Iso& p, uint64_t h) { return hashBytes(p.matrix().data(), 16 * sizeof(double), h); }
inline bool bitEqual(const Iso& a, const Iso& b) { return std::memcmp(a.matrix().data(), b.matrix().data(), 16 * 8) == 0; }

inline CameraIntrinsics randIntr(Rng& r)
{
  CameraIntrinsics k;
  k.fx() = r.uni(400, 1200);
  k.fy() = k.fx() * r.uni(0.85, 1.18);
  k.cx() = r.uni(300, 640);
  k.cy() = r.uni(200, 500);
  return k;
}
inline V2 project(const CameraIntrinsics& k, const V3& p)
{
  return V2(k.values[0] * p.x() / p.z() + k.values[2], k.values[1] * p.y() / p.z() + k.values[3]);
}
// Plumb-bob model, k1 k2 p1 p2 k3 as OpenCV and ROS document it
inline V2 distort(const CameraIntrinsics& k, const std::array<double, 5>& D, const V3& p)
{
  const double x = p.x() / p.z(), y = p.y() / p.z(), r2 = x * x + y * y;
  const double rad = 1 + D[0] * r2 + D[1] * r2 * r2 + D[4] * r2 * r2 * r2;
  return V2(k.fx() * (x * rad + 2 * D[2] * x * y + D[3] * (r2 + 2 * x * x)) + k.cx(), k.fy() * (y * rad + D[2] * (r2 + 2 * y * y) + 2 * D[3] * x * y) + k.cy());
}
inline double pick(Rng& r, const std::vector<double>& v) { return v[static_cast<std::size_t>(r.range(0, int(v.size()) - 1))]; }

// A planar grid or a 3D cloud of target points, about `size` across
struct Target
{
  std::vector<V3> pts;
  bool planar = true;
  int rows = 0, cols = 0;
  double size = 0;
};
inline Target gridTarget(Rng& r, int rows, int cols, double spacing, bool corner)
{
  Target t;
  t.rows = rows;
  t.cols = cols;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      t.pts.push_back(V3(j * spacing - (corner ? 0 : 0.5 * (cols - 1) * spacing),
                         (rows - 1 - i) * spacing - (corner ? 0 : 0.5 * (rows - 1) * spacing), 0));
  t.size = spacing * std::max(rows - 1, cols - 1);
  (void)r;
  return t;
}
inline V3 centroid(const std::vector<V3>& p)
{
  V3 c = V3::Zero();
  for (auto& q : p) c += q;
  return c / static_cast<double>(p.size());
}
inline Target randTarget(Rng& r, int minPts)
{
  if (r.chance(0.6))
  {
    int rows = r.range(3, 6), cols = r.range(3, 6);
    Target t = gridTarget(r, rows, cols, r.uni(0.02, 0.2), r.chance(0.5));
    return t;
  }
  Target t;
  t.planar = false;
  t.size = r.uni(0.1, 0.8);
  int n = r.range(std::max(minPts, 8), 24);
  // corners of a box, then anything inside it
  for (int i = 0; i < n; ++i)
  {
    V3 p = i < 8 ? V3(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i & 4 ? 1 : -1) * r.uni(0.8, 1.0) : box(r, 1);
    t.pts.push_back(p * (t.size / 2));
  }
  return t;
}
// Pose of the target in a camera that sees it: at `dist` along the axis, tilted by `tilt`, any roll
inline Iso viewPose(Rng& r, const Target& t, double distFactorLo, double distFactorHi, double tiltLo, double tiltHi)
{
  const double d = t.size * r.uni(distFactorLo, distFactorHi);
  const double az = r.uni(-M_PI, M_PI);
  // target z axis toward the camera (so the camera looks at the face), tilted about an axis in the image plane
  Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * r.uni(tiltLo, tiltHi)) * rot(V3(0, 0, r.uni(-M_PI, M_PI))) *
                      rot(V3(M_PI, 0, 0));
  V3 c = centroid(t.pts);
  V3 at(r.uni(-0.15, 0.15) * d, r.uni(-0.15, 0.15) * d, d);
  return mk(R, at - R * c);
}
inline Correspondence2D3D::Set observe(const CameraIntrinsics& k, const Iso& cam_to_target, const Target& t)
{
  Correspondence2D3D::Set s;
  for (auto& p : t.pts) s.push_back(Correspondence2D3D(project(k, cam_to_target * p), p));
  return s;
}
inline Correspondence3D3D::Set observe3(const Iso& cam_to_target, const Target& t)
{
  Correspondence3D3D::Set s;
  for (auto& p : t.pts) s.push_back(Correspondence3D3D(cam_to_target * p, p));
  return s;
}
inline bool allInFront(const Iso& cam_to_target, const Target& t, double zmin)
{
  for (auto& p : t.pts)
    if ((cam_to_target * p).z() < zmin) return false;
  return true;
}

// Pose error check: fails with `key`, records the largest error seen relative to the tolerance
inline bool poseNear(Case& c, const Iso& got, const Iso& want, double rtol, double ttol, const std::string& key, const std::string& d)
{
  bool ok = c.check(isRigid(got), key, cat(d, ": not a finite rigid pose ", show(got)));
  if (!ok) return false;
  ok = c.near(rotDist(got, want), 0, rtol, key, cat(d, ": rotation error [rad]; got ", show(got), " want ", show(want)));
  ok = c.near(trDist(got, want), 0, ttol, key, cat(d, ": translation error; got ", show(got), " want ", show(want))) && ok;
  return ok;
}

// Numeric Jacobian by central differences
inline Eigen::MatrixXd numJac(const std::function<Eigen::VectorXd(const Eigen::VectorXd&)>& f, const Eigen::VectorXd& x, double h0 = 1e-6)
{
  Eigen::VectorXd f0 = f(x);
  Eigen::MatrixXd J(f0.size(), x.size());
  for (Eigen::Index i = 0; i < x.size(); ++i)
  {
    const double h = h0 * std::max(1.0, std::abs(x[i]));
    // fourth-order stencil
    Eigen::VectorXd a = x, b = x, c = x, d = x;
    a[i] += h; b[i] -= h; c[i] += 2 * h; d[i] -= 2 * h;
    J.col(i) = (8 * (f(a) - f(b)) - (f(c) - f(d))) / (12 * h);
  }
  return J;
}
// Six-vector (rotation vector, translation) of a pose and back
inline Eigen::Matrix<double, 6, 1> toVec(const Iso& p)
{
  Eigen::AngleAxisd aa(p.linear());
  Eigen::Matrix<double, 6, 1> v;
  v << aa.axis() * aa.angle(), p.translation();
  return v;
}
inline Iso fromVec(const Eigen::Matrix<double, 6, 1>& v) { return mk(rot(v.head<3>()), v.tail<3>()); }
// Pose moved by a small local twist
inline Iso boxplus(const Iso& p, const Eigen::Matrix<double, 6, 1>& v)
{
  return mk(p.linear() * rot(v.head<3>()), p.translation() + v.tail<3>());
}
// Only a part of the features is seen, in any order
template <typename S>
inline void dropSome(Rng& r, S& s)
{
  r.shuffle(s);
  s.resize(std::min(s.size(), std::max<std::size_t>(6, s.size() * 2 / 3)));
}
}  // namespace vh
