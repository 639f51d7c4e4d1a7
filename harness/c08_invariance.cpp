// C08: solver answers do not depend on order, frame choice or earlier calls
#include "handeye.h"
#include "kin.h"
#include "multicam.h"
#include "opt.h"
#include <algorithm>
#include <memory>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
using namespace vh;
using namespace rct_optimizations;

struct Ans
{
  bool threw = false, conv = false;
  double c0 = 0, c1 = 0;
  std::vector<Iso> poses;
  std::vector<double> vals;   // compared with `vtol`
  std::vector<double> vtol;
  std::vector<std::pair<std::string, double>> sd;
  bool relative = false;      // only the poses relative to the first one mean anything
};
using Map = std::function<void(Ans&)>;
using Bytes = std::vector<double>;

static void put(Bytes& b, const Iso& p) { b.insert(b.end(), p.matrix().data(), p.matrix().data() + 16); }
static void put(Bytes& b, const CameraIntrinsics& k) { b.insert(b.end(), k.values.begin(), k.values.end()); }
template <typename D>
static void put(Bytes& b, const Eigen::MatrixBase<D>& v)
{
  b.push_back(double(v.size()));
  for (Eigen::Index i = 0; i < v.rows(); ++i)
    for (Eigen::Index j = 0; j < v.cols(); ++j) b.push_back(v(i, j));
}
static void put(Bytes& b, double v) { b.push_back(v); }
template <Eigen::Index N>
static void put(Bytes& b, const Correspondence<N, 3>& k) { put(b, k.in_image); put(b, k.in_target); }
template <Eigen::Index N>
static void put(Bytes& b, const Observation<N, 3>& o);
static void put(Bytes& b, const KinObservation2D3D& o);
static void put(Bytes& b, const KinematicMeasurement& o);
static void put(Bytes& b, const std::vector<int>& v)
{
  b.push_back(double(v.size()));
  for (int i : v) b.push_back(i);
}
template <typename T, typename A>
static void put(Bytes& b, const std::vector<T, A>& v)
{
  b.push_back(double(v.size()));
  for (auto& x : v) put(b, x);
}
template <Eigen::Index N>
static void put(Bytes& b, const Observation<N, 3>& o) { put(b, o.to_camera_mount); put(b, o.to_target_mount); put(b, o.correspondence_set); }
static void put(Bytes& b, const KinObservation2D3D& o) { put(b, o.camera_chain_joints); put(b, o.target_chain_joints); put(b, o.correspondence_set); }
static void put(Bytes& b, const KinematicMeasurement& o) { put(b, o.camera_to_target); put(b, o.camera_chain_joints); put(b, o.target_chain_joints); }

static void cov(Ans& a, const CovarianceResult& r)
{
  for (auto& s : r.standard_deviations) a.sd.push_back({ s.names.first, s.value });
}
template <typename R>
static void common(Ans& a, const R& r)
{
  a.conv = r.converged;
  a.c0 = r.initial_cost_per_obs;
  a.c1 = r.final_cost_per_obs;
  cov(a, r.covariance);
}
template <typename T>
static std::vector<std::size_t> shuffle(Rng& r, std::vector<T>& v, const std::vector<std::size_t>* perm = nullptr)
{
  std::vector<std::size_t> p;
  if (perm) p = *perm;
  else
  {
    for (std::size_t i = 0; i < v.size(); ++i) p.push_back(i);
    r.shuffle(p);
  }
  std::vector<T> o;
  for (auto i : p) o.push_back(v[i]);
  v = o;
  return p;
}
template <typename S>
static void inFrame(S& s, const Iso& F)
{
  for (auto& k : s) k.in_target = F.inverse() * k.in_target;
}

// ---- one target
static Ans run(const PnPProblem& p) { Ans a; auto r = optimize(p); common(a, r); a.poses = { r.camera_to_target }; return a; }
static Ans run(const PnPProblem3D& p) { Ans a; auto r = optimize(p); common(a, r); a.poses = { r.camera_to_target }; return a; }
static void snap(const PnPProblem& p, Bytes& b) { put(b, p.intr); put(b, p.correspondences); put(b, p.camera_to_target_guess); }
static void snap(const PnPProblem3D& p, Bytes& b) { put(b, p.correspondences); put(b, p.camera_to_target_guess); }
template <typename P>
static Map reorderPnp(Rng& r, P& p) { r.shuffle(p.correspondences); return [](Ans&) {}; }
static Map reorder(Rng& r, PnPProblem& p) { return reorderPnp(r, p); }
static Map reorder(Rng& r, PnPProblem3D& p) { return reorderPnp(r, p); }
template <typename P>
static Map retargetPnp(P& p, const Iso& F)
{
  inFrame(p.correspondences, F);
  p.camera_to_target_guess = p.camera_to_target_guess * F;
  return [F](Ans& a) { a.poses[0] = a.poses[0] * F; };
}
static Map retarget(PnPProblem& p, const Iso& F) { return retargetPnp(p, F); }
static Map retarget(PnPProblem3D& p, const Iso& F) { return retargetPnp(p, F); }
static Map rebase(PnPProblem&, const Iso&) { return nullptr; }
static Map rebase(PnPProblem3D& p, const Iso& G)
{
  // the sensor frame of 3D data is a free choice as well
  for (auto& k : p.correspondences) k.in_image = G * k.in_image;
  p.camera_to_target_guess = G * p.camera_to_target_guess;
  return [G](Ans& a) { a.poses[0] = G * a.poses[0]; };
}

// ---- several cameras, one target
static Ans run(const MultiCameraPnPProblem& p)
{
  Ans a;
  auto r = optimize(p);
  a.conv = r.converged; a.c0 = r.initial_cost_per_obs; a.c1 = r.final_cost_per_obs;
  a.poses = { r.base_to_target };
  return a;
}
static void snap(const MultiCameraPnPProblem& p, Bytes& b) { put(b, p.intr); put(b, p.base_to_camera); put(b, p.image_observations); put(b, p.base_to_target_guess); }
static Map reorder(Rng& r, MultiCameraPnPProblem& p)
{
  auto perm = shuffle(r, p.intr);
  shuffle(r, p.base_to_camera, &perm);
  shuffle(r, p.image_observations, &perm);
  for (auto& s : p.image_observations) r.shuffle(s);
  return [](Ans&) {};
}
static Map rebase(MultiCameraPnPProblem& p, const Iso& G)
{
  for (auto& q : p.base_to_camera) q = G * q;
  p.base_to_target_guess = G * p.base_to_target_guess;
  return [G](Ans& a) { a.poses[0] = G * a.poses[0]; };
}
static Map retarget(MultiCameraPnPProblem& p, const Iso& F)
{
  for (auto& s : p.image_observations) inFrame(s, F);
  p.base_to_target_guess = p.base_to_target_guess * F;
  return [F](Ans& a) { a.poses[0] = a.poses[0] * F; };
}

// ---- hand-eye
template <typename P>
static Ans runHe(const P& p) { Ans a; auto r = optimize(p); common(a, r); a.poses = { r.camera_mount_to_camera, r.target_mount_to_target }; return a; }
static Ans run(const ExtrinsicHandEyeProblem2D3D& p) { return runHe(p); }
static Ans run(const ExtrinsicHandEyeProblem3D3D& p) { return runHe(p); }
static void snap(const ExtrinsicHandEyeProblem2D3D& p, Bytes& b) { put(b, p.intr); put(b, p.observations); put(b, p.camera_mount_to_camera_guess); put(b, p.target_mount_to_target_guess); }
static void snap(const ExtrinsicHandEyeProblem3D3D& p, Bytes& b) { put(b, p.observations); put(b, p.camera_mount_to_camera_guess); put(b, p.target_mount_to_target_guess); }
template <typename P>
static Map reorderHe(Rng& r, P& p)
{
  r.shuffle(p.observations);
  for (auto& o : p.observations) r.shuffle(o.correspondence_set);
  return [](Ans&) {};
}
template <typename P>
static Map rebaseHe(P& p, const Iso& G)
{
  for (auto& o : p.observations) { o.to_camera_mount = G * o.to_camera_mount; o.to_target_mount = G * o.to_target_mount; }
  return [](Ans&) {};
}
template <typename P>
static Map retargetHe(P& p, const Iso& F)
{
  for (auto& o : p.observations) inFrame(o.correspondence_set, F);
  p.target_mount_to_target_guess = p.target_mount_to_target_guess * F;
  return [F](Ans& a) { a.poses[1] = a.poses[1] * F; };
}
static Map reorder(Rng& r, ExtrinsicHandEyeProblem2D3D& p) { return reorderHe(r, p); }
static Map reorder(Rng& r, ExtrinsicHandEyeProblem3D3D& p) { return reorderHe(r, p); }
static Map rebase(ExtrinsicHandEyeProblem2D3D& p, const Iso& G) { return rebaseHe(p, G); }
static Map rebase(ExtrinsicHandEyeProblem3D3D& p, const Iso& G) { return rebaseHe(p, G); }
static Map retarget(ExtrinsicHandEyeProblem2D3D& p, const Iso& F) { return retargetHe(p, F); }
static Map retarget(ExtrinsicHandEyeProblem3D3D& p, const Iso& F) { return retargetHe(p, F); }

// ---- static cameras
using Moving = ExtrinsicMultiStaticCameraMovingTargetProblem;
using Only = ExtrinsicMultiStaticCameraOnlyProblem;
using Wrist = ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem;
static Ans run(const Moving& p) { Ans a; auto r = optimize(p); common(a, r); a.poses = { r.wrist_to_target }; a.poses.insert(a.poses.end(), r.base_to_camera.begin(), r.base_to_camera.end()); return a; }
static Ans run(const Only& p)
{
  Ans a;
  auto r = optimize(p);
  common(a, r);
  a.poses = r.base_to_camera;
  a.poses.insert(a.poses.end(), r.base_to_target.begin(), r.base_to_target.end());
  a.relative = !p.fix_first_camera;
  if (a.relative) a.sd.clear();
  return a;
}
static Ans run(const Wrist& p) { Ans a; auto r = optimize(p); common(a, r); a.poses = { r.wrist_to_target }; a.poses.insert(a.poses.end(), r.base_to_camera.begin(), r.base_to_camera.end()); return a; }
static void snap(const Moving& p, Bytes& b) { put(b, p.intr); put(b, p.wrist_poses); put(b, p.image_observations); put(b, p.wrist_to_target_guess); put(b, p.base_to_camera_guess); }
static void snap(const Only& p, Bytes& b) { put(b, p.fix_first_camera); put(b, p.intr); put(b, p.base_to_target_guess); put(b, p.image_observations); put(b, p.base_to_camera_guess); }
static void snap(const Wrist& p, Bytes& b) { put(b, p.intr); put(b, p.wrist_poses); put(b, p.image_observations); put(b, p.wrist_to_target_guess); put(b, p.base_to_camera_guess); }
// cameras stay where they are: names of covariances count them
static Map permuted(std::size_t at, std::vector<std::size_t> perm)
{
  return [=](Ans& a) {
    auto o = a.poses;
    for (std::size_t i = 0; i < perm.size(); ++i) o[at + i] = a.poses[at + perm[i]];
    a.poses = o;
    a.sd.clear();   // named by number
  };
}
static Map reorder(Rng& r, Moving& p)
{
  auto perm = shuffle(r, p.intr);
  shuffle(r, p.wrist_poses, &perm);
  shuffle(r, p.image_observations, &perm);
  shuffle(r, p.base_to_camera_guess, &perm);
  for (std::size_t k = 0; k < p.intr.size(); ++k)
  {
    auto q = shuffle(r, p.wrist_poses[k]);
    shuffle(r, p.image_observations[k], &q);
    for (auto& s : p.image_observations[k]) r.shuffle(s);
  }
  return permuted(1, perm);
}
static Map reorder(Rng& r, Wrist& p)
{
  auto perm = shuffle(r, p.intr);
  shuffle(r, p.image_observations, &perm);
  shuffle(r, p.base_to_camera_guess, &perm);
  auto q = shuffle(r, p.wrist_poses);
  for (auto& o : p.image_observations)
  {
    shuffle(r, o, &q);
    for (auto& s : o) r.shuffle(s);
  }
  return permuted(1, perm);
}
static Map reorder(Rng& r, Only& p)
{
  std::vector<std::size_t> perm;
  for (std::size_t i = 0; i < p.intr.size(); ++i) perm.push_back(i);
  r.shuffle(perm);
  if (p.fix_first_camera) std::swap(perm[0], *std::find(perm.begin(), perm.end(), 0u));
  shuffle(r, p.intr, &perm);
  shuffle(r, p.image_observations, &perm);
  shuffle(r, p.base_to_camera_guess, &perm);
  auto q = shuffle(r, p.base_to_target_guess);
  for (auto& o : p.image_observations)
  {
    shuffle(r, o, &q);
    for (auto& s : o) r.shuffle(s);
  }
  Map a = permuted(0, perm), b = permuted(perm.size(), q);
  return [=](Ans& x) { a(x); b(x); };
}
static Map rebase(Moving& p, const Iso& G)
{
  for (auto& w : p.wrist_poses) for (auto& q : w) q = G * q;
  for (auto& q : p.base_to_camera_guess) q = G * q;
  return [G](Ans& a) { for (std::size_t i = 1; i < a.poses.size(); ++i) a.poses[i] = G * a.poses[i]; };
}
static Map rebase(Wrist& p, const Iso& G)
{
  for (auto& q : p.wrist_poses) q = G * q;
  for (auto& q : p.base_to_camera_guess) q = G * q;
  return [G](Ans& a) { for (std::size_t i = 1; i < a.poses.size(); ++i) a.poses[i] = G * a.poses[i]; };
}
static Map rebase(Only& p, const Iso& G)
{
  for (auto& q : p.base_to_target_guess) q = G * q;
  for (auto& q : p.base_to_camera_guess) q = G * q;
  return [G](Ans& a) { for (auto& q : a.poses) q = G * q; };
}
template <typename P>
static Map retargetW(P& p, const Iso& F)
{
  for (auto& o : p.image_observations) for (auto& s : o) inFrame(s, F);
  p.wrist_to_target_guess = p.wrist_to_target_guess * F;
  return [F](Ans& a) { a.poses[0] = a.poses[0] * F; };
}
static Map retarget(Moving& p, const Iso& F) { return retargetW(p, F); }
static Map retarget(Wrist& p, const Iso& F) { return retargetW(p, F); }
static Map retarget(Only& p, const Iso& F)
{
  for (auto& o : p.image_observations) for (auto& s : o) inFrame(s, F);
  for (auto& q : p.base_to_target_guess) q = q * F;
  const std::size_t n = p.intr.size();
  return [F, n](Ans& a) { for (std::size_t i = n; i < a.poses.size(); ++i) a.poses[i] = a.poses[i] * F; };
}

// ---- kinematic
template <typename R>
static Ans kinAns(const R& r)
{
  Ans a;
  common(a, r);
  a.sd.clear();   // directions close to the rank limit drop out of the covariance or not by rounding
  a.poses = { r.camera_mount_to_camera, r.target_mount_to_target, r.camera_base_to_target_base };
  for (auto* m : { &r.camera_chain_dh_offsets, &r.target_chain_dh_offsets })
    for (Eigen::Index i = 0; i < m->size(); ++i) { a.vals.push_back(m->data()[i]); a.vtol.push_back(1); }
  return a;
}
using Kin2 = KinematicCalibrationProblem2D3D;
static Ans run(const Kin2& p) { return kinAns(optimize(p)); }
static void snapChain(const DHChain& ch, Bytes& b)
{
  b.push_back(double(ch.dof()));
  put(b, ch.getDHTable());
  put(b, ch.getBaseOffset());
}
template <typename P>
static void snapKin(const P& p, Bytes& b)
{
  put(b, p.observations); put(b, p.camera_mount_to_camera_guess); put(b, p.target_mount_to_target_guess); put(b, p.camera_base_to_target_base_guess);
  for (auto& m : p.mask) put(b, m);
  put(b, p.camera_chain_offset_stdev); put(b, p.target_chain_offset_stdev);
  snapChain(p.camera_chain, b);
  snapChain(p.target_chain, b);
}
static void snap(const Kin2& p, Bytes& b) { put(b, p.intr); snapKin(p, b); }
static Map reorder(Rng& r, Kin2& p)
{
  r.shuffle(p.observations);
  for (auto& o : p.observations) r.shuffle(o.correspondence_set);
  for (auto& m : p.mask) r.shuffle(m);
  return [](Ans&) {};
}
static Map rebase(Kin2&, const Iso&) { return nullptr; }
static Map retarget(Kin2& p, const Iso& F)
{
  if (!p.mask[4].empty() || !p.mask[5].empty()) return nullptr;
  for (auto& o : p.observations) inFrame(o.correspondence_set, F);
  p.target_mount_to_target_guess = p.target_mount_to_target_guess * F;
  // joint offsets and mounts trade against each other along shallow valleys: only the costs are settled
  return [](Ans& a) { a.poses.clear(); a.vals.clear(); a.vtol.clear(); };
}

// ---- intrinsics
using Intr = IntrinsicEstimationProblem;
static Ans run(const Intr& p)
{
  Ans a;
  auto r = optimize(p);
  common(a, r);
  for (double v : r.intrinsics.values) { a.vals.push_back(v); a.vtol.push_back(500); }
  for (double v : r.distortions) { a.vals.push_back(v); a.vtol.push_back(1); }
  return a;
}
static void snap(const Intr& p, Bytes& b) { put(b, p.image_observations); put(b, p.intrinsics_guess); put(b, p.use_extrinsic_guesses); if (p.use_extrinsic_guesses) put(b, p.extrinsic_guesses); }
static Map reorder(Rng& r, Intr& p)
{
  auto q = shuffle(r, p.image_observations);
  if (p.use_extrinsic_guesses) shuffle(r, p.extrinsic_guesses, &q);
  for (auto& s : p.image_observations) r.shuffle(s);
  return [](Ans& a) { a.sd.clear(); };
}
static Map rebase(Intr&, const Iso&) { return nullptr; }
static Map retarget(Intr& p, const Iso& F)
{
  // poses start from a fixed guess in front of the camera, so that only a turn of the target in its own plane keeps it a good one
  for (auto& s : p.image_observations) inFrame(s, F);
  return [](Ans& a) { a.sd.clear(); };
}

// ---- circle
static Ans run(const CircleFitProblem& p)
{
  Ans a;
  auto r = optimize(p);
  common(a, r);
  a.vals = { r.x_center, r.y_center, r.radius };
  a.vtol = { std::abs(r.radius), std::abs(r.radius), std::abs(r.radius) };
  return a;
}
static void snap(const CircleFitProblem& p, Bytes& b) { put(b, p.observations); b.insert(b.end(), { p.x_center_initial, p.y_center_initial, p.radius_initial }); }
static Map reorder(Rng& r, CircleFitProblem& p) { r.shuffle(p.observations); return [](Ans&) {}; }
static Map rebase(CircleFitProblem& p, const Iso& G)
{
  // a plane rigid motion
  const double t = std::atan2(G.linear()(1, 0), G.linear()(0, 0));
  Eigen::Matrix2d R;
  R << std::cos(t), -std::sin(t), std::sin(t), std::cos(t);
  V2 d = G.translation().head<2>();
  for (auto& o : p.observations) o = R * o + d;
  V2 c0 = R * V2(p.x_center_initial, p.y_center_initial) + d;
  p.x_center_initial = c0.x();
  p.y_center_initial = c0.y();
  return [R, d](Ans& a) { V2 q = R * V2(a.vals[0], a.vals[1]) + d; a.vals[0] = q.x(); a.vals[1] = q.y(); a.sd.clear(); };
}
static Map retarget(CircleFitProblem&, const Iso&) { return nullptr; }

// ---- the checks
template <typename P>
static Ans solve(const P& p)
{
  try { return run(p); }
  catch (const std::exception&) { Ans a; a.threw = true; return a; }
}
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static std::string differs(const Ans& a, const Ans& b, bool bits, double tol, double len)
{
  if (a.threw != b.threw) return "one was refused";
  if (a.threw) return "";
  const bool costOnly = b.poses.empty() && b.vals.empty();
  if (costOnly && !a.conv) return "";   // out of iterations in a shallow valley
  if (a.conv != b.conv) return cat("convergence ", a.conv, " and ", b.conv);
  if (!costOnly && (a.poses.size() != b.poses.size() || a.vals.size() != b.vals.size())) return "sizes";
  auto num = [&](double x, double y, double t) { return bits ? same(x, y) : std::abs(x - y) <= t || (std::isnan(x) && std::isnan(y)); };
  if (!num(a.c0, b.c0, 1e-6 * std::abs(b.c0) + 1e-12)) return cat("initial cost ", a.c0, " and ", b.c0);
  if (!num(a.c1, b.c1, (1e-4 + tol) * std::abs(b.c1) + 1e-12 + 1e-9 * std::abs(b.c0))) return cat("final cost ", a.c1, " and ", b.c1);
  if (costOnly) return "";
  const Iso A = a.relative ? a.poses[0].inverse() : Iso::Identity(), B = b.relative ? b.poses[0].inverse() : Iso::Identity();
  for (std::size_t i = 0; i < a.poses.size(); ++i)
  {
    if (bits ? !bitEqual(a.poses[i], b.poses[i]) : !(rotDist(A * a.poses[i], B * b.poses[i]) <= tol && trDist(A * a.poses[i], B * b.poses[i]) <= tol * len))
      return cat("pose ", i, ": ", show(a.poses[i]), " and ", show(b.poses[i]), " (", rotDist(A * a.poses[i], B * b.poses[i]), " rad, ", trDist(A * a.poses[i], B * b.poses[i]), ")");
  }
  for (std::size_t i = 0; i < a.vals.size(); ++i)
    if (!num(a.vals[i], b.vals[i], tol * a.vtol[i])) return cat("value ", i, ": ", a.vals[i], " and ", b.vals[i]);
  if (!a.sd.empty() && !b.sd.empty())
  {
    if (a.sd.size() != b.sd.size()) return "number of standard deviations";
    for (std::size_t i = 0; i < a.sd.size(); ++i)
      if (a.sd[i].first != b.sd[i].first || !num(a.sd[i].second, b.sd[i].second, 2e-3 * std::abs(b.sd[i].second) + 1e-12)) return cat("standard deviation of ", a.sd[i].first, ": ", a.sd[i].second, " and ", b.sd[i].second);
  }
  return "";
}
static double gap(const Ans& a, const Ans& b, double len)
{
  double m = 0;
  if (a.threw || b.threw || a.poses.size() != b.poses.size() || a.vals.size() != b.vals.size()) return 0;
  const Iso A = a.relative ? a.poses[0].inverse() : Iso::Identity(), B = b.relative ? b.poses[0].inverse() : Iso::Identity();
  for (std::size_t i = 0; i < a.poses.size(); ++i) m = std::max({ m, rotDist(A * a.poses[i], B * b.poses[i]), trDist(A * a.poses[i], B * b.poses[i]) / len });
  for (std::size_t i = 0; i < a.vals.size(); ++i) m = std::max(m, std::abs(a.vals[i] - b.vals[i]) / a.vtol[i]);
  return m;
}

static void disturbance(Case& c)
{
  // something else in between: other solvers, also with input they refuse
  Rng& r = c.rng;
  const int n = r.range(1, 3);
  for (int i = 0; i < n; ++i)
  {
    Target t = randTarget(r, 8);
    CameraIntrinsics k = randIntr(r);
    Iso v = viewPose(r, t, 2, 3, 0.3, 0.7);
    try
    {
      switch (r.range(0, 4))
      {
        case 0: { PnPProblem p; p.intr = k; p.correspondences = observe(k, v, t); p.camera_to_target_guess = v; optimize(p); break; }
        case 1: { PnPProblem p; p.intr = k; p.camera_to_target_guess = v; optimize(p); break; }
        case 2: { PnPProblem3D p; p.correspondences = observe3(v, t); p.correspondences[0].in_image.x() += 0.1; p.camera_to_target_guess = perturb(v, r, 0.2, 0.1); optimize(p); break; }
        case 3: { CircleFitProblem p; for (int q = 0; q < 9; ++q) p.observations.push_back(V2(std::cos(q), std::sin(q) + 0.01 * q)); p.x_center_initial = p.y_center_initial = 0.1; p.radius_initial = 0.8; optimize(p); break; }
        default:
        {
          ExtrinsicHandEyeProblem2D3D p;
          p.intr = k;
          Observation2D3D o;
          o.to_camera_mount = o.to_target_mount = Iso::Identity();
          o.correspondence_set = observe(k, v, t);
          p.observations = { o };
          p.camera_mount_to_camera_guess = Iso::Identity();
          p.target_mount_to_target_guess = mk(rot(V3(0, M_PI, 0)), V3(0, 0, -3));
          optimize(p);
        }
      }
    }
    catch (const std::exception&) { c.count("other calls that were refused"); }
  }
  c.count("other calls in between", n);
}

// len: size of the target, reach: how far the frames are moved; exactRepeat: bit for bit
template <typename P>
static void judge(Case& c, const std::string& what, const P& p, double len, bool exactRepeat, bool planarFrame = false)
{
  Rng& r = c.rng;
  Bytes before, after;
  snap(p, before);
  const Ans a = solve(p);
  snap(p, after);
  auto untouched = [&](const char* when) {
    c.check(before.size() == after.size() && std::memcmp(before.data(), after.data(), before.size() * sizeof(double)) == 0, cat(what, "-input-changed"), when);
  };
  untouched("by solving");
  if (a.threw) return c.count(what + " refused");
  c.count(what + " solved");
  c.sample(what);
  std::string d = cat(what, ", cost ", a.c0, " to ", a.c1);
  // again, after other calls and from another place in memory
  {
    const Ans b = solve(p);
    std::string e = differs(b, a, exactRepeat, 1e-7, len);
    c.check(e.empty(), what + "-repeat", cat(d, ": solved again: ", e));
    disturbance(c);
    std::vector<std::unique_ptr<std::vector<char>>> junk;
    for (int i = r.range(0, 20); i > 0; --i) junk.emplace_back(new std::vector<char>(std::size_t(r.range(1, 4000))));
    std::unique_ptr<P> q(new P(p));
    const Ans e2 = solve(*q);
    e = differs(e2, a, exactRepeat, 1e-7, len);
    c.check(e.empty(), what + "-after-others", cat(d, ": solved again after other calls: ", e));
    after.clear();
    snap(p, after);
    untouched("by solving again");
    c.count("repeated answers compared", 2);
  }
  if (!a.conv) return c.count(what + " not converged");
  // an answer this far off has no well-defined neighbourhood: exact answers are needed below
  {
    P q(p);
    Map m = reorder(r, q);
    Ans b = solve(q), want = a;
    m(want);
    c.maxstat(what + ": largest change by reordering", gap(b, want, len));
    std::string e = differs(b, want, false, 2e-6, len);
    c.check(e.empty(), what + "-reordered", cat(d, ": reordered: ", e));
    c.count("reordered answers compared");
  }
  {
    P q(p);
    Iso G = randPose(r, 10 * len);
    Map m = rebase(q, G);
    if (m)
    {
      Ans b = solve(q), want = a;
      m(want);
      want.sd.clear();
      c.maxstat(what + ": largest change by the base frame", gap(b, want, len));
      std::string e = differs(b, want, false, 5e-4, len);
      c.check(e.empty(), what + "-rebased", cat(d, ": base frame moved by ", show(G), ": ", e));
      c.count("rebased answers compared");
    }
  }
  {
    P q(p);
    Iso F = randPose(r, 2 * len);
    if (planarFrame) F = mk(rot(V3(0, 0, r.uni(-0.5, 0.5))), V3(r.uni(-0.2, 0.2), r.uni(-0.2, 0.2), 0) * len);
    Map m = retarget(q, F);
    if (m)
    {
      Ans b = solve(q), want = a;
      m(want);
      want.sd.clear();
      c.maxstat(what + ": largest change by the target frame", gap(b, want, len));
      std::string e = differs(b, want, false, 5e-4, len);
      c.check(e.empty(), what + "-retargeted", cat(d, ": target frame moved by ", show(F), ": ", e));
      c.count("retargeted answers compared");
    }
  }
}

static void pnp(Case& c, int kind)
{
  Rng& r = c.rng;
  Target t = randTarget(r, 8);
  CameraIntrinsics k = randIntr(r);
  Iso truth = viewPose(r, t, 1.8, 3.5, 0.3, 0.8);
  if (!allInFront(truth, t, 0.2 * t.size)) return;
  const double dist = truth.translation().norm(), px = r.chance(0.3) ? 0 : r.logu(0.01, 0.6);
  Iso guess = perturb(truth, r, 0.15, 0.06 * dist);
  c.nontrivial(hashIso(truth, uint64_t(kind)));
  if (kind == 0)
  {
    PnPProblem p;
    p.intr = k;
    p.correspondences = noisy(r, observe(k, truth, t), px);
    p.camera_to_target_guess = guess;
    judge(c, "pnp2d", p, t.size, true);
  }
  else if (kind == 1)
  {
    PnPProblem3D p;
    p.correspondences = noisy(r, observe3(truth, t), t.size * px * 0.01);
    p.camera_to_target_guess = guess;
    judge(c, "pnp3d", p, t.size, true);
  }
  else
  {
    const int n = r.range(1, 4);
    Iso bt = randPose(r, 2);
    MultiCameraPnPProblem p;
    for (int i = 0; i < n; ++i)
    {
      Iso v = viewPose(r, t, 1.8, 3.0, 0.3, 0.8);
      CameraIntrinsics ki = randIntr(r);
      p.intr.push_back(ki);
      p.base_to_camera.push_back(bt * v.inverse());
      p.image_observations.push_back(noisy(r, observe(ki, v, t), px));
      if (r.chance(0.3)) dropSome(r, p.image_observations.back());
    }
    p.base_to_target_guess = perturb(bt, r, 0.15, 0.06 * dist);
    judge(c, "multi-pnp", p, t.size, true);
  }
}
template <typename P>
static void handeye(Case& c, const char* what, bool pix)
{
  Rng& r = c.rng;
  HandEye h;
  if (!makeHandEye(r, h, r.range(0, 2), r.range(7, 10), r.logu(0.3, 2))) return;
  P p;
  fillHandEye(h, p);
  const double px = r.chance(0.3) ? 0 : r.logu(0.01, 0.5);
  for (auto& o : p.observations)
  {
    o.correspondence_set = noisy(r, o.correspondence_set, pix ? px : px * 0.01 * h.t.size);
    if (r.chance(0.15)) dropSome(r, o.correspondence_set);
  }
  p.camera_mount_to_camera_guess = perturb(h.X, r, 0.06, 0.04 * h.t.size);
  p.target_mount_to_target_guess = perturb(h.Y, r, 0.06, 0.04 * h.t.size);
  if (minDepth(p) < 0.3 * h.t.size) return;
  c.nontrivial(hashIso(h.X, 11));
  judge(c, what, p, h.t.size, true);
}
static void cams(Case& c, int kind)
{
  Rng& r = c.rng;
  Rig g;
  const int nc = r.range(1 + (kind > 0), 4), nt = r.range(4, 6);
  makeRig(r, g, nc, nt, r.logu(0.3, 2));
  const double px = r.chance(0.3) ? 0 : r.logu(0.01, 0.5);
  c.nontrivial(hashIso(g.cam[0], uint64_t(kind + 20)));
  Iso W = randPose(r, 0.4);
  std::vector<std::vector<Correspondence2D3D::Set>> obs(g.cam.size());
  for (std::size_t k = 0; k < g.cam.size(); ++k)
    for (std::size_t i = 0; i < g.tgt.size(); ++i)
    {
      obs[k].push_back(noisy(r, shot(g, k, i), px));
      if (r.chance(0.15)) dropSome(r, obs[k].back());
    }
  std::vector<Iso> cg, wrist, tg;
  for (auto& q : g.cam) cg.push_back(perturb(q, r, 0.04, 0.02 * g.dist));
  for (auto& q : g.tgt) wrist.push_back(q * W.inverse());
  for (auto& q : g.tgt) tg.push_back(perturb(q, r, 0.04, 0.02 * g.dist));
  Iso Wg = perturb(W, r, 0.04, 0.02 * g.dist);
  if (kind == 0)
  {
    Moving p;
    p.intr = g.k;
    p.wrist_poses.assign(g.cam.size(), wrist);
    p.image_observations = obs;
    p.base_to_camera_guess = cg;
    p.wrist_to_target_guess = Wg;
    judge(c, "moving-target", p, g.dist, true);
  }
  else if (kind == 1 || kind == 2)
  {
    Only p;
    p.fix_first_camera = kind == 1;
    p.intr = g.k;
    p.image_observations = obs;
    p.base_to_camera_guess = cg;
    p.base_to_target_guess = tg;
    judge(c, kind == 1 ? "free-target-fixed-first" : "free-target", p, g.dist, true);
  }
  else
  {
    Wrist p;
    p.intr = g.k;
    p.wrist_poses = wrist;
    p.image_observations = obs;
    Iso off = perturb(Iso::Identity(), r, 0.02, 0.02 * g.dist);
    for (auto& q : g.cam) p.base_to_camera_guess.push_back(off * q);
    p.wrist_to_target_guess = Wg;
    judge(c, "single-correction", p, g.dist, true);
  }
}
static void kinematic(Case& c)
{
  Rng& r = c.rng;
  Kin s;
  s.t = gridTarget(r, 3, 3, r.uni(0.05, 0.15), false);
  s.k = randIntr(r);
  s.cc = randChain(r, r.range(0, 2));
  s.tc = randChain(r, r.range(0, 2));
  s.cb = s.tb = Iso::Identity();
  const int nc = int(s.cc.size()), nt = int(s.tc.size());
  s.oc = Eigen::MatrixXd::Zero(nc, 4);
  s.ot = Eigen::MatrixXd::Zero(nt, 4);
  for (int i = 0; i < nc * 4; ++i) s.oc.data()[i] = r.uni(-3e-3, 3e-3);
  for (int i = 0; i < nt * 4; ++i) s.ot.data()[i] = r.uni(-3e-3, 3e-3);
  s.X = randPose(r, 0.2);
  s.Y = randPose(r, 0.2);
  if (!makeKin(r, s, r.range(6, 9))) return;
  Kin2 p(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  p.intr = s.k;
  const double px = r.logu(0.05, 0.5);
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    KinObservation2D3D o;
    o.camera_chain_joints = s.qc[i];
    o.target_chain_joints = s.qt[i];
    o.correspondence_set = noisy(r, observe(s.k, s.view[i], s.t), px);
    p.observations.push_back(o);
  }
  p.camera_chain_offset_stdev = r.logu(1e-3, 1e-2);
  p.target_chain_offset_stdev = r.logu(1e-3, 1e-2);
  // the target mount is free, the camera mount and base are held unless there are joints to tell them apart
  bool fr[5] = { nc > 0 && r.chance(0.6), nt > 0 && r.chance(0.6), false, true, r.chance(0.3) && nt > 1 };
  std::vector<int> a3{ 0, 1, 2 };
  for (int b = 0; b < 2; ++b)
    if (!fr[b])
      for (int i = 0; i < (b ? nt : nc) * 4; ++i) p.mask[b].push_back(i);
  for (int b = 2; b < 5; ++b)
    if (!fr[b]) p.mask[2 * b - 2] = p.mask[2 * b - 1] = a3;
  p.camera_mount_to_camera_guess = s.X;
  p.target_mount_to_target_guess = perturb(s.Y, r, 0.02, 0.02 * s.t.size);
  p.camera_base_to_target_base_guess = fr[4] ? perturb(s.B, r, 0.01, 0.01 * s.t.size) : s.B;
  c.nontrivial(hashIso(s.B, 33));
  // evaluated by several threads whose partial sums are added in any order: the same only up to rounding
  judge(c, "kinematic", p, s.t.size, false);
}
static void intrinsic(Case& c)
{
  Rng& r = c.rng;
  CameraIntrinsics k;
  k.fx() = r.uni(450, 900); k.fy() = k.fx() * r.uni(0.9, 1.1); k.cx() = r.uni(300, 360); k.cy() = r.uni(220, 260);
  std::array<double, 5> D = { { r.uni(-0.2, 0.15), r.uni(-0.1, 0.1), r.uni(-0.004, 0.004), r.uni(-0.004, 0.004), r.uni(-0.05, 0.05) } };
  Target t = gridTarget(r, 6, 7, r.uni(0.03, 0.05), false);
  const int n = r.range(8, 10);
  const double px = r.chance(0.3) ? 0 : r.logu(0.01, 0.2);
  Intr p;
  p.use_extrinsic_guesses = r.chance(0.6);
  for (int i = 0; i < n; ++i)
  {
    const double az = 2 * M_PI * (i + r.u01()) / n;
    Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * r.uni(0.25, 0.55)) * rot(V3(0, 0, r.uni(-0.3, 0.3))) * rot(V3(M_PI, 0, 0));
    double d = t.size * r.uni(1.3, 1.8);
    Iso v = mk(R, V3(r.uni(-0.2, 0.2) * d, r.uni(-0.2, 0.2) * d, d) - R * centroid(t.pts));
    Correspondence2D3D::Set s;
    for (auto& q : t.pts) s.push_back(Correspondence2D3D(distort(k, D, v * q), q));
    p.image_observations.push_back(noisy(r, s, px));
    if (p.use_extrinsic_guesses) p.extrinsic_guesses.push_back(perturb(v, r, 0.05, 0.03 * d));
  }
  p.intrinsics_guess = k;
  p.intrinsics_guess.fx() *= r.uni(0.97, 1.03);
  p.intrinsics_guess.fy() *= r.uni(0.97, 1.03);
  p.intrinsics_guess.cx() += r.uni(-8, 8);
  p.intrinsics_guess.cy() += r.uni(-8, 8);
  c.nontrivial(hashDouble(k.fx(), uint64_t(n)));
  judge(c, "intrinsic", p, t.size, true, true);
}
static void circle(Case& c)
{
  Rng& r = c.rng;
  CircleFitProblem p;
  const double R = r.logu(0.5, 50);
  V2 ctr(r.uni(-2, 2) * R, r.uni(-2, 2) * R);
  const int n = r.range(6, 30);
  for (int i = 0; i < n; ++i)
  {
    const double t = 2 * M_PI * (i + r.u01()) / n, q = R * (1 + r.gauss() * 0.005);
    p.observations.push_back(ctr + q * V2(std::cos(t), std::sin(t)));
  }
  p.x_center_initial = ctr.x() + R * r.uni(-0.2, 0.2);
  p.y_center_initial = ctr.y() + R * r.uni(-0.2, 0.2);
  p.radius_initial = R * r.uni(0.8, 1.2);
  c.nontrivial(hashDouble(R, uint64_t(n)));
  judge(c, "circle", p, R, true);
}

VH_CASE(C08)
{
  switch (c.index % 16)
  {
    case 0: case 1: return pnp(c, 0);
    case 2: return pnp(c, 1);
    case 3: case 4: return pnp(c, 2);
    case 5: case 6: return handeye<ExtrinsicHandEyeProblem2D3D>(c, "handeye2d", true);
    case 7: return handeye<ExtrinsicHandEyeProblem3D3D>(c, "handeye3d", false);
    case 8: case 9: return cams(c, 0);
    case 10: return cams(c, 1);
    case 11: return cams(c, 2);
    case 12: return cams(c, 3);
    case 13: return kinematic(c);
    case 14: return intrinsic(c);
    case 15: return circle(c);
  }
}
