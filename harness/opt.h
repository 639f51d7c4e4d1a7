// Is an answer a local optimum of its own cost? Judged with residuals written here, never with the solver's.
#pragma once
#include "gen.h"
namespace vh
{
using Res = std::function<Eigen::VectorXd(const Eigen::VectorXd&)>;  // residuals at the answer moved by a small step
inline double halfSq(const Eigen::VectorXd& r) { return 0.5 * r.squaredNorm(); }
// Largest fraction of the cost that a damped Gauss-Newton step or a random small step takes away
inline double improvement(const Res& f, Eigen::Index n, Rng& r, const Eigen::VectorXd& scale)
{
  const Eigen::VectorXd z = Eigen::VectorXd::Zero(n);
  const double c0 = halfSq(f(z));
  if (n == 0 || !(c0 > 0)) return 0;
  Res g = [&](const Eigen::VectorXd& u) { return f(Eigen::VectorXd(u.cwiseProduct(scale))); };
  Eigen::MatrixXd J = numJac(g, z, 1e-5);
  Eigen::VectorXd gr = J.transpose() * g(z);
  Eigen::MatrixXd H = J.transpose() * J;
  double best = 0;
  for (double mu : { 1e-10, 1e-6, 1e-3 })
  {
    Eigen::MatrixXd A = H;
    A.diagonal() += mu * H.diagonal();
    A.diagonal().array() += 1e-14 * H.diagonal().maxCoeff();
    Eigen::VectorXd s = -A.ldlt().solve(gr);
    if (!s.allFinite()) continue;
    for (double t : { 1.0, 0.3, 0.05 }) best = std::max(best, 1 - halfSq(g(t * s)) / c0);
  }
  for (int i = 0; i < 12; ++i)
  {
    Eigen::VectorXd s(n);
    for (Eigen::Index k = 0; k < n; ++k) s[k] = r.gauss();
    s *= r.logu(1e-6, 1e-2) / s.norm();
    best = std::max(best, 1 - halfSq(g(s)) / c0);
  }
  return best;
}
inline Iso moved(const Iso& p, const Eigen::VectorXd& d, Eigen::Index at) { return boxplus(p, d.segment<6>(at)); }
inline Correspondence2D3D::Set noisy(Rng& r, Correspondence2D3D::Set s, double sigma)
{
  for (auto& k : s) k.in_image += sigma * V2(r.gauss(), r.gauss());
  return s;
}
inline Correspondence3D3D::Set noisy(Rng& r, Correspondence3D3D::Set s, double sigma)
{
  for (auto& k : s) k.in_image += sigma * V3(r.gauss(), r.gauss(), r.gauss());
  return s;
}
// Collects residuals
struct Acc
{
  std::vector<double> v;
  void add(const V2& a) { v.push_back(a.x()); v.push_back(a.y()); }
  void add(const V3& a) { v.push_back(a.x()); v.push_back(a.y()); v.push_back(a.z()); }
  void add(const CameraIntrinsics& k, const Iso& cam_to_target, const Correspondence2D3D::Set& s)
  {
    for (auto& c : s) add(V2(project(k, cam_to_target * c.in_target) - c.in_image));
  }
  void add(const Iso& cam_to_target, const Correspondence3D3D::Set& s)
  {
    for (auto& c : s) add(V3(cam_to_target * c.in_target - c.in_image));
  }
  Eigen::VectorXd get() const { return Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size())); }
};
}  // namespace vh
