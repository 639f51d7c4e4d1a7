// Kinematic setups: two DH chains with a camera and a target, with reference forward kinematics of their own
#pragma once
#include "gen.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
namespace vh
{
using rct_optimizations::DHChain;
using rct_optimizations::DHJointType;
using rct_optimizations::DHTransform;
struct Joint
{
  double d, theta, r, alpha;
  bool linear;
};
using Chain = std::vector<Joint>;
inline Iso dh(double d, double theta, double r, double alpha)
{
  // classical convention, multiplied out
  Iso p = Iso::Identity();
  const double ct = std::cos(theta), st = std::sin(theta), ca = std::cos(alpha), sa = std::sin(alpha);
  p.matrix() << ct, -st * ca, st * sa, r * ct, st, ct * ca, -ct * sa, r * st, 0, sa, ca, d, 0, 0, 0, 1;
  return p;
}
inline Iso fk(const Chain& c, const Iso& base, const Eigen::VectorXd& q, const Eigen::MatrixXd& off)
{
  Iso p = base;
  for (Eigen::Index i = 0; i < q.size(); ++i)
  {
    const Joint& j = c[static_cast<std::size_t>(i)];
    p = p * dh(j.d + off(i, 0) + (j.linear ? q[i] : 0), j.theta + off(i, 1) + (j.linear ? 0 : q[i]), j.r + off(i, 2), j.alpha + off(i, 3));
  }
  return p;
}
inline Chain randChain(Rng& r, int n, double pLinear = 0.25)
{
  Chain c;
  for (int i = 0; i < n; ++i)
  {
    Joint j;
    j.d = r.chance(0.2) ? 0 : r.uni(-0.3, 0.3);
    j.theta = r.chance(0.2) ? 0 : r.uni(-M_PI, M_PI);
    j.r = r.chance(0.2) ? 0 : r.uni(-0.3, 0.3);
    j.alpha = pick(r, { 0, M_PI / 2, -M_PI / 2, r.uni(-M_PI, M_PI) });
    j.linear = r.chance(pLinear);
    c.push_back(j);
  }
  return c;
}
inline DHChain build(const Chain& c, const Iso& base, const std::string& name)
{
  std::vector<DHTransform> t;
  for (std::size_t i = 0; i < c.size(); ++i)
    t.emplace_back(Eigen::Vector4d(c[i].d, c[i].theta, c[i].r, c[i].alpha), c[i].linear ? DHJointType::LINEAR : DHJointType::REVOLUTE,
                   name + std::to_string(i), 1 + i);
  return DHChain(t, base);
}
struct Kin
{
  Target t;
  CameraIntrinsics k;
  Chain cc, tc;
  Iso cb, tb;          // base offsets of the chains
  Iso X, Y, B;         // truth
  Eigen::MatrixXd oc, ot;
  std::vector<Eigen::VectorXd> qc, qt;
  std::vector<Iso> view;
};
inline Iso kinView(const Kin& s, const Iso& X, const Iso& Y, const Iso& B, const Eigen::MatrixXd& oc, const Eigen::MatrixXd& ot, std::size_t i)
{
  return (fk(s.cc, s.cb, s.qc[i], oc) * X).inverse() * B * fk(s.tc, s.tb, s.qt[i], ot) * Y;
}
// X, Y, oc, ot must be set; chooses B and the joint poses
inline bool makeKin(Rng& r, Kin& s, int n)
{
  const int nc = int(s.cc.size()), nt = int(s.tc.size());
  Eigen::VectorXd q1(nc), q2(nt);
  for (int i = 0; i < nc; ++i) q1[i] = s.cc[i].linear ? r.uni(-0.2, 0.2) : r.uni(-2, 2);
  for (int i = 0; i < nt; ++i) q2[i] = s.tc[i].linear ? r.uni(-0.2, 0.2) : r.uni(-2, 2);
  Iso v = viewPose(r, s.t, 2.0, 3.0, 0.2, 0.6);
  s.B = fk(s.cc, s.cb, q1, s.oc) * s.X * v * (fk(s.tc, s.tb, q2, s.ot) * s.Y).inverse();
  s.qc.clear(); s.qt.clear(); s.view.clear();
  for (int tries = 0; tries < 60 * n && int(s.view.size()) < n; ++tries)
  {
    Eigen::VectorXd a = q1, b = q2;
    for (int i = 0; i < nc; ++i) a[i] += s.cc[i].linear ? r.uni(-0.2, 0.2) : r.uni(-0.5, 0.5);
    for (int i = 0; i < nt; ++i) b[i] += s.tc[i].linear ? r.uni(-0.2, 0.2) : r.uni(-0.5, 0.5);
    s.qc.push_back(a);
    s.qt.push_back(b);
    Iso w = kinView(s, s.X, s.Y, s.B, s.oc, s.ot, s.qc.size() - 1);
    bool ok = w.translation().norm() < 6 * s.t.size;
    for (auto& p : s.t.pts)
    {
      V3 x = w * p;
      if (x.z() < 0.7 * s.t.size || std::abs(x.x()) > 1.5 * x.z() || std::abs(x.y()) > 1.5 * x.z()) ok = false;
    }
    if (ok) s.view.push_back(w);
    else { s.qc.pop_back(); s.qt.pop_back(); }
  }
  return int(s.view.size()) == n;
}
}  // namespace vh
