// C12: equality and validation of problem data compare all of it
#include "opt.h"
#include <ceres/jet.h>
#include <rct_image_tools/aruco_grid_target.h>
#include <rct_image_tools/charuco_grid_target.h>
#include <rct_image_tools/modified_circle_grid_target.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/maximum_likelihood.h>
using namespace vh;
using namespace rct_optimizations;

using Change = std::pair<std::string, std::function<void()>>;
// one number noticeably off: relative to its own size and never below a ten-thousandth
static double off(Rng& r, double v, double scale) { return v + r.sign() * r.logu(1e-4, 1) * std::max(scale, std::abs(v)); }
static Iso movedPose(Rng& r, const Iso& p)
{
  Iso o = p;
  if (r.chance(0.5)) o.linear() = p.linear() * rot(unit(r) * r.logu(1e-4, 3));
  else o.translation()[r.range(0, 2)] += r.sign() * r.logu(1e-4, 1) * std::max(1.0, p.translation().norm());
  return o;
}
template <Eigen::Index N>
static Correspondence<N, 3> corr(Rng& r)
{
  Correspondence<N, 3> k;
  const double s = r.logu(0.1, 1000);
  for (int i = 0; i < N; ++i) k.in_image[i] = r.chance(0.1) ? 0 : r.uni(-s, s);
  for (int i = 0; i < 3; ++i) k.in_target[i] = r.chance(0.2) ? 0 : r.uni(-1, 1);
  return k;
}
template <typename S>
static void changeSet(Rng& r, S& s)
{
  const int how = s.empty() ? 0 : r.range(0, 4);
  if (how == 0) { s.push_back(typename S::value_type()); return; }
  auto& k = s[std::size_t(r.range(0, int(s.size()) - 1))];
  if (how == 1) { s.erase(s.begin() + r.range(0, int(s.size()) - 1)); return; }
  if (how == 2) { const int a = r.range(0, int(k.in_image.size()) - 1); k.in_image[a] = off(r, k.in_image[a], k.in_image.norm() + 1e-3); return; }
  if (how == 3) { const int a = r.range(0, 2); k.in_target[a] = off(r, k.in_target[a], k.in_target.norm() + 1e-3); return; }
  // swapping two features, when they differ
  auto& l = s[std::size_t(r.range(0, int(s.size()) - 1))];
  if (&l != &k && (k.in_image - l.in_image).norm() > 1e-3 * (k.in_image.norm() + l.in_image.norm())) { auto x = k; k = l; l = x; return; }
  k.in_target[2] = off(r, k.in_target[2], k.in_target.norm() + 1e-3);
}
template <typename T>
static void unequal(Case& c, const T& a, const T& b, const std::string& what)
{
  c.check(!(a == b), "changed-still-equal", what);
  c.check(!(b == a), "changed-still-equal", what + " (other way round)");
  c.count("changes told apart");
}
template <typename T>
static void equal(Case& c, const T& a, const T& b, const std::string& what)
{
  c.check(a == b && b == a, "copy-not-equal", what);
  c.count("copies compared");
}
static Eigen::VectorXd joints(Rng& r)
{
  Eigen::VectorXd q(r.range(0, 7));
  for (Eigen::Index i = 0; i < q.size(); ++i) q[i] = r.chance(0.2) ? 0 : r.uni(-3, 3);
  return q;
}
static void changeJoints(Rng& r, Eigen::VectorXd& q)
{
  if (q.size() == 0 || r.chance(0.3))
  {  // more or fewer joints
    const Eigen::Index n = q.size(), m = n == 0 || r.chance(0.5) ? n + r.range(1, 3) : r.range(0, int(n) - 1);
    Eigen::VectorXd o = Eigen::VectorXd::Zero(m);
    o.head(std::min(n, m)) = q.head(std::min(n, m));
    q = o;
    return;
  }
  const Eigen::Index i = r.range(0, int(q.size()) - 1);
  q[i] = off(r, q[i], q.norm() + 1e-3);
}
template <Eigen::Index N>
static void observations(Case& c)
{
  Rng& r = c.rng;
  typename Correspondence<N, 3>::Set s;
  for (int i = 0, n = r.range(0, 12); i < n; ++i) s.push_back(corr<N>(r));
  for (auto& k : s)
  {
    auto a = k;
    equal(c, a, k, "correspondence");
    typename Correspondence<N, 3>::Set one = { k };
    do { one = { k }; changeSet(r, one); } while (one.size() != 1);
    unequal(c, one[0], k, cat("correspondence ", k.in_image.transpose(), " / ", k.in_target.transpose(), " and ", one[0].in_image.transpose(), " / ", one[0].in_target.transpose()));
  }
  Observation<N, 3> o(randPose(r, 2), randPose(r, 2));
  o.correspondence_set = s;
  auto o2 = o;
  equal(c, o, o2, "observation");
  o2.to_camera_mount = movedPose(r, o.to_camera_mount);
  unequal(c, o, o2, "observation: camera mount");
  o2 = o;
  o2.to_target_mount = movedPose(r, o.to_target_mount);
  unequal(c, o, o2, "observation: target mount");
  o2 = o;
  changeSet(r, o2.correspondence_set);
  unequal(c, o, o2, "observation: features");
  if ((o.to_camera_mount.matrix() - o.to_target_mount.matrix()).norm() > 1e-2)
  {
    o2 = o;
    std::swap(o2.to_camera_mount, o2.to_target_mount);
    unequal(c, o, o2, "observation: mounts exchanged");
  }

  KinematicObservation<N, 3> k;
  k.correspondence_set = s;
  k.camera_chain_joints = joints(r);
  k.target_chain_joints = joints(r);
  auto k2 = k;
  equal(c, k, k2, "kinematic observation");
  changeJoints(r, k2.camera_chain_joints);
  unequal(c, k, k2, cat("kinematic observation: camera joints ", k.camera_chain_joints.transpose(), " and ", k2.camera_chain_joints.transpose()));
  k2 = k;
  changeJoints(r, k2.target_chain_joints);
  unequal(c, k, k2, cat("kinematic observation: target joints ", k.target_chain_joints.transpose(), " and ", k2.target_chain_joints.transpose()));
  k2 = k;
  changeSet(r, k2.correspondence_set);
  unequal(c, k, k2, "kinematic observation: features");
  c.nontrivial(hashIso(o.to_camera_mount, s.size()));

  KinematicMeasurement m;
  m.camera_to_target = randPose(r, 2);
  m.camera_chain_joints = joints(r);
  m.target_chain_joints = joints(r);
  auto m2 = m;
  equal(c, m, m2, "kinematic measurement");
  m2.camera_to_target = movedPose(r, m.camera_to_target);
  unequal(c, m, m2, "kinematic measurement: pose");
  m2 = m;
  changeJoints(r, m2.camera_chain_joints);
  unequal(c, m, m2, "kinematic measurement: camera joints");
  m2 = m;
  changeJoints(r, m2.target_chain_joints);
  unequal(c, m, m2, "kinematic measurement: target joints");
}
template <typename P, Eigen::Index N>
static void problem(Case& c, const std::function<void(P&)>& intr)
{
  Rng& r = c.rng;
  P p;
  p.camera_mount_to_camera_guess = randPose(r, 1);
  p.target_mount_to_target_guess = randPose(r, 1);
  for (int i = 0, n = r.range(0, 5); i < n; ++i)
  {
    Observation<N, 3> o(randPose(r, 2), randPose(r, 2));
    for (int j = 0, m = r.range(0, 8); j < m; ++j) o.correspondence_set.push_back(corr<N>(r));
    p.observations.push_back(o);
  }
  if (intr) intr(p);
  c.nontrivial(hashIso(p.camera_mount_to_camera_guess, 12));
  P q = p;
  equal(c, p, q, "hand-eye problem");
  q.camera_mount_to_camera_guess = movedPose(r, p.camera_mount_to_camera_guess);
  unequal(c, p, q, "hand-eye problem: camera guess");
  q = p;
  q.target_mount_to_target_guess = movedPose(r, p.target_mount_to_target_guess);
  unequal(c, p, q, "hand-eye problem: target guess");
  q = p;
  if (q.observations.empty() || r.chance(0.2)) q.observations.emplace_back();
  else if (r.chance(0.2)) q.observations.pop_back();
  else
  {
    auto& o = q.observations[std::size_t(r.range(0, int(q.observations.size()) - 1))];
    switch (r.range(0, 2))
    {
      case 0: o.to_camera_mount = movedPose(r, o.to_camera_mount); break;
      case 1: o.to_target_mount = movedPose(r, o.to_target_mount); break;
      default: changeSet(r, o.correspondence_set);
    }
  }
  unequal(c, p, q, "hand-eye problem: observations");
  if (intr)
  {
    q = p;
    intr(q);
    unequal(c, p, q, "hand-eye problem: intrinsics");
  }
}
static void targets(Case& c)
{
  using namespace rct_image_tools;
  Rng& r = c.rng;
  const int rows = r.range(2, 8), cols = r.range(2, 8), dict = r.range(0, 12);
  const float dim = float(r.uni(0.01, 0.2)), gap = float(r.uni(0.005, 0.1));
  auto dimOff = [&](float v) { return float(v * (r.chance(0.5) ? 1 + r.logu(1e-3, 1) : 1 - r.logu(1e-3, 0.4))); };
  auto cntOff = [&](int v) { return v == 2 || r.chance(0.5) ? v + r.range(1, 2) : v - 1; };
  // dictionaries must have enough markers
  auto other = [&](int d) { int o; do o = r.range(0, 12); while (o % 4 < 1 || o == d || (o / 4 == d / 4)); return o; };
  const int d1 = dict % 4 == 0 ? dict + 1 <= 12 ? (dict == 12 ? 11 : dict + 1) : 1 : dict;
  std::string d = cat(rows, "x", cols, " dim ", dim, " gap ", gap, " dictionary ", d1);
  c.sample(d);
  c.nontrivial(hashDouble(dim, rows * 10 + cols));
  {
    ModifiedCircleGridTarget a{ unsigned(rows), unsigned(cols), dim };
    equal(c, a, ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), dim), "circle grid " + d);
    unequal(c, a, ModifiedCircleGridTarget(unsigned(cntOff(rows)), unsigned(cols), dim), "circle grid rows " + d);
    unequal(c, a, ModifiedCircleGridTarget(unsigned(rows), unsigned(cntOff(cols)), dim), "circle grid columns " + d);
    unequal(c, a, ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), dimOff(dim)), "circle grid spacing " + d);
    if (rows != cols) unequal(c, a, ModifiedCircleGridTarget(unsigned(cols), unsigned(rows), dim), "circle grid transposed " + d);
  }
  {
    ArucoGridTarget a(rows, cols, dim, gap, d1), b(rows, cols, dim, gap, d1), cp = a;
    equal(c, a, b, "aruco " + d);
    equal(c, a, cp, "aruco " + d);
    unequal(c, a, ArucoGridTarget(cntOff(rows), cols, dim, gap, d1), "aruco rows " + d);
    unequal(c, a, ArucoGridTarget(rows, cntOff(cols), dim, gap, d1), "aruco columns " + d);
    unequal(c, a, ArucoGridTarget(rows, cols, dimOff(dim), gap, d1), "aruco marker size " + d);
    unequal(c, a, ArucoGridTarget(rows, cols, dim, dimOff(gap), d1), "aruco gap " + d);
    if (rows != cols) unequal(c, a, ArucoGridTarget(cols, rows, dim, gap, d1), "aruco transposed " + d);
    const int o = other(d1);
    unequal(c, a, ArucoGridTarget(rows, cols, dim, gap, o), cat("aruco dictionary ", o, " and ", d));
    ArucoGridTarget e = a;
    auto it = e.points.begin();
    std::advance(it, r.range(0, int(e.points.size()) - 1));
    it->second[std::size_t(r.range(0, 3))][r.range(0, 2)] += r.sign() * r.logu(1e-3, 1);
    unequal(c, a, e, "aruco corner " + d);
  }
  {
    const float sq = dim, mk = dim * float(r.uni(0.4, 0.7));
    CharucoGridTarget a(rows, cols, sq, mk, d1), b(rows, cols, sq, mk, d1), cp = a;
    equal(c, a, b, "charuco " + d);
    equal(c, a, cp, "charuco " + d);
    unequal(c, a, CharucoGridTarget(cntOff(rows), cols, sq, mk, d1), "charuco rows " + d);
    unequal(c, a, CharucoGridTarget(rows, cntOff(cols), sq, mk, d1), "charuco columns " + d);
    unequal(c, a, CharucoGridTarget(rows, cols, sq * float(1 + r.logu(1e-3, 1)), mk, d1), "charuco square size " + d);
    unequal(c, a, CharucoGridTarget(rows, cols, sq, mk * float(1 + r.logu(1e-2, 0.3)), d1), "charuco marker size " + d);
    if (rows != cols) unequal(c, a, CharucoGridTarget(cols, rows, sq, mk, d1), "charuco transposed " + d);
    const int o = other(d1);
    unequal(c, a, CharucoGridTarget(rows, cols, sq, mk, o), cat("charuco dictionary ", o, " and ", d));
  }
}
static void likelihood(Case& c)
{
  Rng& r = c.rng;
  const int n = r.range(1, 6), m = r.range(1, 6);
  Eigen::ArrayXXd mean(n, m), sd(n, m), x(n, m);
  for (int i = 0; i < n * m; ++i) { mean(i) = r.uni(-5, 5); sd(i) = r.logu(1e-5, 10); x(i) = r.uni(-5, 5); }
  std::string d = cat(n, "x", m);
  c.nontrivial(hashDouble(mean(0), n * 10 + m));
  MaximumLikelihood ml(mean, sd);
  Eigen::ArrayXXd res = Eigen::ArrayXXd::Constant(n, m, NAN);
  const double* par[1] = { x.data() };
  c.check(ml(par, res.data()), "likelihood", d);
  for (int i = 0; i < n * m; ++i) c.near(res(i), (x(i) - mean(i)) / sd(i), 1e-12 * (std::abs(x(i)) + std::abs(mean(i))) / sd(i), "likelihood", cat(d, " entry ", i));
  using J = ceres::Jet<double, 36>;
  std::vector<J> xj(std::size_t(n * m)), rj(std::size_t(n * m));
  for (int i = 0; i < n * m; ++i) xj[std::size_t(i)] = J(x(i), i);
  const J* pj[1] = { xj.data() };
  ml(pj, rj.data());
  for (int i = 0; i < n * m; ++i)
    for (int k = 0; k < n * m; ++k) c.near(rj[std::size_t(i)].v[k] * sd(i), i == k ? 1 : 0, 1e-12, "likelihood-derivative", d);
  c.count("likelihood entries", n * m);
  // tables of different shape
  int n2 = r.range(0, 7), m2 = r.range(0, 7);
  switch (r.range(0, 3))
  {
    case 0: n2 = m; m2 = n; break;           // transposed
    case 1: n2 = n * m; m2 = 1; break;       // as many entries in one column
    default: break;
  }
  const bool fits = n2 == n && m2 == m;
  bool threw = false;
  try { MaximumLikelihood q(mean, Eigen::ArrayXXd::Ones(n2, m2)); }
  catch (const std::exception&) { threw = true; }
  c.check(threw == !fits, "likelihood-shape", cat("mean ", d, ", deviation ", n2, "x", m2, threw ? " refused" : " accepted"));
  if (!fits) c.count("table shapes refused");
}

VH_CASE(C12)
{
  Rng& r = c.rng;
  switch (c.index % 8)
  {
    case 0: case 1: return observations<2>(c);
    case 2: return observations<3>(c);
    case 3: return problem<ExtrinsicHandEyeProblem2D3D, 2>(c, [&](ExtrinsicHandEyeProblem2D3D& p) {
      if (p.intr.fx() == 0) { p.intr = randIntr(r); return; }
      auto& v = p.intr.values[std::size_t(r.range(0, 3))];
      v = off(r, v, 1);
    });
    case 4: return problem<ExtrinsicHandEyeProblem3D3D, 3>(c, nullptr);
    case 5: return targets(c);
    default: return likelihood(c);
  }
}
