// Shared by the demonstrations: synthetic cameras, targets and poses.
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <random>
#include <vector>
#include <rct_optimizations/types.h>
using namespace rct_optimizations;
inline CameraIntrinsics cam(double f = 550, double cx = 320, double cy = 240, double fy = 0)
{
  CameraIntrinsics i;
  i.fx() = f; i.fy() = fy > 0 ? fy : f; i.cx() = cx; i.cy() = cy;
  return i;
}
inline Eigen::Isometry3d P(double x, double y, double z, double rx = 0, double ry = 0, double rz = 0)
{
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
  p.translation() << x, y, z;
  p.linear() = (Eigen::AngleAxisd(rz, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(ry, Eigen::Vector3d::UnitY()) *
                Eigen::AngleAxisd(rx, Eigen::Vector3d::UnitX())).toRotationMatrix();
  return p;
}
inline std::vector<Eigen::Vector3d> grid(int rows = 5, int cols = 7, double s = 0.03)
{
  std::vector<Eigen::Vector3d> g;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) g.emplace_back(j * s, i * s, 0.0);
  return g;
}
inline Eigen::Vector2d pix(const CameraIntrinsics& k, const Eigen::Vector3d& p)
{
  return { k.fx() * p.x() / p.z() + k.cx(), k.fy() * p.y() / p.z() + k.cy() };
}
inline Correspondence2D3D::Set see(const CameraIntrinsics& k, const Eigen::Isometry3d& camera_to_target,
                                   const std::vector<Eigen::Vector3d>& pts)
{
  Correspondence2D3D::Set s;
  for (const auto& p : pts) s.emplace_back(pix(k, camera_to_target * p), p);
  return s;
}
inline Correspondence3D3D::Set see3(const Eigen::Isometry3d& camera_to_target, const std::vector<Eigen::Vector3d>& pts)
{
  Correspondence3D3D::Set s;
  for (const auto& p : pts) s.emplace_back(Eigen::Vector3d(camera_to_target * p), p);
  return s;
}
inline double dist(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b)
{
  return (a.matrix() - b.matrix()).norm();
}
inline int bad(const char* what, double v = 0)
{
  std::printf("BROKEN: %s %g\n", what, v);
  return 1;
}
