// Random values of every type that can be saved as YAML, and their comparison
#pragma once
#include "kin.h"
#include <rct_optimizations/serialization/problems.h>
namespace vh
{
using namespace rct_optimizations;
inline double num(Rng& r)
{
  switch (r.range(0, 7))
  {
    case 0: return 0;
    case 1: return double(r.range(-5, 5));
    case 2: return r.uni(-1, 1) * r.logu(1e-12, 1e-3);
    case 3: return r.uni(-1, 1) * r.logu(1, 1e9);
    case 4: return r.sign() * M_PI / r.range(1, 4);
    default: return r.uni(-1, 1);
  }
}
inline Iso anyPose(Rng& r)
{
  Iso p = randPose(r, r.logu(1e-3, 100));
  switch (r.range(0, 5))
  {
    case 0: p.linear() = Eigen::Matrix3d::Identity(); break;
    case 1:  // half turns and axis-aligned rotations
    {
      Eigen::Vector3d a = Eigen::Vector3d::Zero();
      a[r.range(0, 2)] = 1;
      p.linear() = rot(a * (M_PI / 2 * r.range(-2, 2)));
      break;
    }
    case 2: p.linear() = rot(V3(0, 0, r.uni(-M_PI, M_PI))) * rot(V3(0, r.sign() * (M_PI / 2 - (r.chance(0.5) ? 0 : r.logu(1e-9, 1e-2))), 0)) * rot(V3(r.uni(-M_PI, M_PI), 0, 0)); break;
    case 3: p.linear() = rot(unit(r) * (M_PI - r.logu(1e-9, 1e-2))); break;
    default: break;
  }
  return p;
}
template <Eigen::Index N>
typename Correspondence<N, 3>::Set anySet(Rng& r, int lo = 0)
{
  typename Correspondence<N, 3>::Set s;
  for (int i = 0, n = r.chance(0.05) ? r.range(10, 120) : r.range(lo, 6); i < n; ++i)
  {
    Correspondence<N, 3> k;
    for (int a = 0; a < N; ++a) k.in_image[a] = num(r);
    for (int a = 0; a < 3; ++a) k.in_target[a] = num(r);
    s.push_back(k);
  }
  return s;
}
template <Eigen::Index N>
Observation<N, 3> anyObs(Rng& r, int lo = 0)
{
  Observation<N, 3> o(anyPose(r), anyPose(r));
  o.correspondence_set = anySet<N>(r, lo);
  return o;
}
inline CameraIntrinsics anyIntr(Rng& r)
{
  CameraIntrinsics k;
  for (auto& v : k.values) v = num(r) + r.uni(0, 1000);
  return k;
}
template <typename P, Eigen::Index N>
P anyProblem(Rng& r, int lo = 0)
{
  P p;
  p.camera_mount_to_camera_guess = anyPose(r);
  p.target_mount_to_target_guess = anyPose(r);
  for (int i = 0, n = r.chance(0.05) ? r.range(10, 13) : r.range(lo, 4); i < n; ++i) p.observations.push_back(anyObs<N>(r, lo));
  return p;
}
inline ExtrinsicHandEyeResult anyResult(Rng& r)
{
  ExtrinsicHandEyeResult s;
  s.converged = r.chance(0.5);
  s.initial_cost_per_obs = std::abs(num(r));
  s.final_cost_per_obs = std::abs(num(r));
  s.camera_mount_to_camera = anyPose(r);
  s.target_mount_to_target = anyPose(r);
  return s;
}
// Largest difference, relative to the size of the data
inline double diff(double a, double b) { return a == b ? 0 : std::abs(a - b) / std::max(std::abs(b), 1e-30); }
inline double diff(const CameraIntrinsics& a, const CameraIntrinsics& b)
{
  double w = 0;
  for (std::size_t i = 0; i < 4; ++i) w = std::max(w, diff(a.values[i], b.values[i]));
  return w;
}
template <int N>
double diff(const Eigen::Matrix<double, N, 1>& a, const Eigen::Matrix<double, N, 1>& b)
{
  double w = 0;
  for (int i = 0; i < N; ++i) w = std::max(w, diff(a[i], b[i]));
  return w;
}
inline double diff(const Iso& a, const Iso& b)
{
  const double w = std::max((a.linear() - b.linear()).norm(), diff<3>(V3(a.translation()), V3(b.translation())));
  return a.matrix().row(3) == b.matrix().row(3) ? w : 1e9;
}
template <Eigen::Index N>
double diff(const Correspondence<N, 3>& a, const Correspondence<N, 3>& b)
{
  return std::max(diff<int(N)>(a.in_image, b.in_image), diff<3>(a.in_target, b.in_target));
}
template <Eigen::Index N>
double diff(const Observation<N, 3>& a, const Observation<N, 3>& b)
{
  double w = std::max(diff(a.to_camera_mount, b.to_camera_mount), diff(a.to_target_mount, b.to_target_mount));
  if (a.correspondence_set.size() != b.correspondence_set.size()) return 1e9;
  for (std::size_t i = 0; i < a.correspondence_set.size(); ++i) w = std::max(w, diff<N>(a.correspondence_set[i], b.correspondence_set[i]));
  return w;
}
template <typename T>
double diff(const std::vector<T>& a, const std::vector<T>& b)
{
  if (a.size() != b.size()) return 1e9;
  double w = 0;
  for (std::size_t i = 0; i < a.size(); ++i) w = std::max(w, diff(a[i], b[i]));
  return w;
}
template <typename P>
double diffProblem(const P& a, const P& b)
{
  double w = std::max(diff(a.camera_mount_to_camera_guess, b.camera_mount_to_camera_guess), diff(a.target_mount_to_target_guess, b.target_mount_to_target_guess));
  if (a.observations.size() != b.observations.size()) return 1e9;
  for (std::size_t i = 0; i < a.observations.size(); ++i) w = std::max(w, diff(a.observations[i], b.observations[i]));
  return w;
}
inline double diff(const ExtrinsicHandEyeProblem2D3D& a, const ExtrinsicHandEyeProblem2D3D& b) { return std::max(diffProblem(a, b), diff(a.intr, b.intr)); }
inline double diff(const ExtrinsicHandEyeProblem3D3D& a, const ExtrinsicHandEyeProblem3D3D& b) { return diffProblem(a, b); }
inline double diff(const ExtrinsicHandEyeResult& a, const ExtrinsicHandEyeResult& b)
{
  double w = a.converged == b.converged ? 0 : 1e9;
  w = std::max({ w, diff(a.initial_cost_per_obs, b.initial_cost_per_obs), diff(a.final_cost_per_obs, b.final_cost_per_obs) });
  return std::max({ w, diff(a.camera_mount_to_camera, b.camera_mount_to_camera), diff(a.target_mount_to_target, b.target_mount_to_target) });
}
// A kinematic chain as documented, written without the library
struct ChainText
{
  Chain k;
  Iso base;
  std::vector<std::string> name;
  YAML::Node node;
};
inline YAML::Node poseNode(const Iso& p)
{
  Eigen::Quaterniond q(p.linear());
  YAML::Node n;
  n["x"] = p.translation().x(); n["y"] = p.translation().y(); n["z"] = p.translation().z();
  n["qw"] = q.w(); n["qx"] = q.x(); n["qy"] = q.y(); n["qz"] = q.z();
  return n;
}
inline ChainText anyChain(Rng& r, int lo = 0)
{
  ChainText t;
  t.k = randChain(r, r.range(lo, 7), 0.35);
  t.base = anyPose(r);
  t.node["base_transform"] = poseNode(t.base);
  t.node["dh_transforms"] = YAML::Node(YAML::NodeType::Sequence);
  for (auto& j : t.k)
  {
    YAML::Node n;
    t.name.push_back(pick(r, { 0, 1 }) ? cat("joint_", r.range(0, 999)) : cat("a", r.range(0, 9), " b"));
    n["joint_name"] = t.name.back();
    n["type"] = j.linear ? 0 : 1;
    n["alpha"] = j.alpha; n["d"] = j.d; n["r"] = j.r; n["theta"] = j.theta;
    t.node["dh_transforms"].push_back(n);
  }
  return t;
}
}  // namespace vh
