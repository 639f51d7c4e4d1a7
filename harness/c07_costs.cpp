// C07: reported costs are truthful and the answer is a local optimum
#include "handeye.h"
#include "kin.h"
#include "multicam.h"
#include "opt.h"
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/pnp.h>
using namespace vh;
using namespace rct_optimizations;
using Vec = Eigen::VectorXd;

static const double NOTICEABLE = 2e-3;

// costs against residuals computed here: at the guess, at the answer, and around the answer
static void judge(Case& c, const std::string& what, const std::string& d, bool converged, double c0, double c1, const Vec& atGuess, const Res& f,
                  Eigen::Index n, const Vec& scale)
{
  Vec z = Vec::Zero(n);
  const Vec r1 = f(z);
  const double m = double(r1.size());
  const double w0 = halfSq(atGuess) / m, w1 = halfSq(r1) / m;
  c.count(cat(what, " solved"));
  c.near(c0, w0, 1e-6 * w0 + 1e-16, cat(what, "-initial-cost"), d);
  c.near(c1, w1, 1e-5 * w1 + 1e-14, cat(what, "-final-cost"), d);
  c.check(c1 <= c0 * (1 + 1e-9) + 1e-18, cat(what, "-cost-rose"), cat(d, ": from ", c0, " to ", c1));
  if (!converged) { c.count(cat(what, " not converged")); return; }
  const double g = improvement(f, n, c.rng, scale);
  c.near(g, 0, NOTICEABLE, cat(what, "-not-a-minimum"), cat(d, ": fraction of the cost a small step removes"));
  c.count("answers probed for a better neighbour");
}
static Vec scl(Eigen::Index n, double len)
{
  Vec s = Vec::Ones(n);
  for (Eigen::Index i = 0; i < n; ++i)
    if (i % 6 >= 3) s[i] = len;
  return s;
}

static void pnp(Case& c, int kind)
{
  Rng& r = c.rng;
  Target t = randTarget(r, 8);
  CameraIntrinsics k = randIntr(r);
  Iso truth = viewPose(r, t, 1.8, 3.5, 0.3, 0.8);
  if (!allInFront(truth, t, 0.2 * t.size)) return;
  const double dist = truth.translation().norm();
  Iso guess = perturb(truth, r, 0.2, 0.08 * dist);
  const double px = r.logu(0.05, 1.5);
  c.nontrivial(hashIso(truth, uint64_t(kind)));
  std::string d = cat(t.pts.size(), " points, noise ", px, " px, truth ", show(truth), " guess ", show(guess));
  if (r.chance(0.1)) { guess.linear() = truth.linear() = rot(V3(std::cos(r.uni(-3, 3)), std::sin(r.uni(-3, 3)), 0).normalized() * 0.1); guess.linear().setIdentity(); truth.translation() = V3(0, 0, 2.2 * t.size) - truth.linear() * centroid(t.pts); guess.translation() = truth.translation(); }
  if (kind == 0)
  {
    PnPProblem p;
    p.intr = k;
    p.correspondences = noisy(r, observe(k, truth, t), px);
    if (r.chance(0.2)) p.correspondences.push_back(p.correspondences[0]);  // a feature given twice counts twice
    p.camera_to_target_guess = guess;
    auto s = optimize(p);
    auto at = [&](const Iso& v) { Acc a; a.add(k, v, p.correspondences); return a.get(); };
    judge(c, "pnp2d", d, s.converged, s.initial_cost_per_obs, s.final_cost_per_obs, at(guess), [&](const Vec& x) { return at(moved(s.camera_to_target, x, 0)); }, 6, scl(6, dist));
  }
  else if (kind == 1)
  {
    PnPProblem3D p;
    p.correspondences = noisy(r, observe3(truth, t), t.size * r.logu(1e-4, 0.02));
    p.camera_to_target_guess = guess;
    auto s = optimize(p);
    auto at = [&](const Iso& v) { Acc a; a.add(v, p.correspondences); return a.get(); };
    judge(c, "pnp3d", d, s.converged, s.initial_cost_per_obs, s.final_cost_per_obs, at(guess), [&](const Vec& x) { return at(moved(s.camera_to_target, x, 0)); }, 6, scl(6, t.size));
  }
  else
  {
    const int n = r.range(1, 4);
    Iso bt = randPose(r, 2), bg = perturb(bt, r, 0.2, 0.08 * dist);
    MultiCameraPnPProblem p;
    for (int i = 0; i < n; ++i)
    {
      Iso v = viewPose(r, t, 1.8, 3.0, 0.3, 0.8);
      CameraIntrinsics ki = randIntr(r);
      auto s = noisy(r, observe(ki, v, t), px);
      if (r.chance(0.3)) dropSome(r, s);
      if (i && r.chance(0.1)) s.clear();
      p.intr.push_back(ki);
      p.base_to_camera.push_back(bt * v.inverse());
      p.image_observations.push_back(s);
    }
    p.base_to_target_guess = bg;
    auto s = optimize(p);
    auto at = [&](const Iso& v) {
      Acc a;
      for (std::size_t i = 0; i < p.intr.size(); ++i) a.add(p.intr[i], p.base_to_camera[i].inverse() * v, p.image_observations[i]);
      return a.get();
    };
    judge(c, "multi-pnp", d, s.converged, s.initial_cost_per_obs, s.final_cost_per_obs, at(bg), [&](const Vec& x) { return at(moved(s.base_to_target, x, 0)); }, 6, scl(6, dist));
  }
}

template <typename Problem>
static Vec heRes(const Problem& p, const Iso& X, const Iso& Y, const CameraIntrinsics* k);
template <>
Vec heRes(const ExtrinsicHandEyeProblem2D3D& p, const Iso& X, const Iso& Y, const CameraIntrinsics*)
{
  Acc a;
  for (auto& o : p.observations) a.add(p.intr, (o.to_camera_mount * X).inverse() * o.to_target_mount * Y, o.correspondence_set);
  return a.get();
}
template <>
Vec heRes(const ExtrinsicHandEyeProblem3D3D& p, const Iso& X, const Iso& Y, const CameraIntrinsics*)
{
  Acc a;
  for (auto& o : p.observations) a.add((o.to_camera_mount * X).inverse() * o.to_target_mount * Y, o.correspondence_set);
  return a.get();
}
template <typename Problem>
static void handeye(Case& c, const char* what, bool pix)
{
  Rng& r = c.rng;
  HandEye h;
  const int mode = r.range(0, 2);
  if (!makeHandEye(r, h, mode, r.range(6, 10), r.logu(0.3, 2))) return;
  Problem p;
  fillHandEye(h, p);
  const double px = r.logu(0.05, 1.5), len = h.t.size * r.logu(1e-4, 0.02);
  for (auto& o : p.observations)
  {
    o.correspondence_set = noisy(r, o.correspondence_set, pix ? px : len);
    if (r.chance(0.15)) o.correspondence_set.resize(4);
  }
  p.camera_mount_to_camera_guess = perturb(h.X, r, 0.08, 0.05 * h.t.size);
  p.target_mount_to_target_guess = perturb(h.Y, r, 0.08, 0.05 * h.t.size);
  if (minDepth(p) < 0.3 * h.t.size) return;
  c.nontrivial(hashIso(h.X, 11));
  auto s = optimize(p);
  judge(c, what, cat("mode ", mode, ", ", h.view.size(), " views, noise ", pix ? px : len), s.converged, s.initial_cost_per_obs, s.final_cost_per_obs,
        heRes(p, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess, &h.k),
        [&](const Vec& x) { return heRes(p, moved(s.camera_mount_to_camera, x, 0), moved(s.target_mount_to_target, x, 6), &h.k); }, 12, scl(12, h.t.size));
}

static void cams(Case& c, int kind)
{
  Rng& r = c.rng;
  Rig g;
  const int nc = r.chance(0.04) ? r.range(9, 11) : r.range(1 + (kind > 0), 4), nt = r.chance(0.04) ? r.range(10, 12) : r.range(4, 6);
  makeRig(r, g, nc, nt, r.logu(0.3, 2));
  const double px = r.logu(0.05, 1.5);
  c.nontrivial(hashIso(g.cam[0], uint64_t(kind + 20)));
  Iso W = randPose(r, 0.4);
  std::vector<std::vector<Correspondence2D3D::Set>> obs(g.cam.size());
  for (std::size_t k = 0; k < g.cam.size(); ++k)
    for (std::size_t i = 0; i < g.tgt.size(); ++i)
    {
      obs[k].push_back(noisy(r, shot(g, k, i), px));
      if (r.chance(0.15)) dropSome(r, obs[k].back());
    }
  std::string d = cat(nc, " cameras, ", nt, " targets, noise ", px, " px");
  const double L = g.t.size;
  std::vector<Iso> cg, wrist;
  for (auto& q : g.cam) cg.push_back(perturb(q, r, 0.05, 0.03 * g.dist));
  for (auto& q : g.tgt) wrist.push_back(q * W.inverse());
  Iso Wg = perturb(W, r, 0.05, 0.03 * g.dist);
  const Eigen::Index nC = Eigen::Index(g.cam.size()), nT = Eigen::Index(g.tgt.size());
  if (kind == 0)
  {
    ExtrinsicMultiStaticCameraMovingTargetProblem p;
    p.intr = g.k;
    p.wrist_poses.assign(g.cam.size(), wrist);
    p.image_observations = obs;
    // cameras may have seen different wrist poses
    for (std::size_t k = 1; k < g.cam.size(); ++k)
      if (r.chance(0.5)) { p.wrist_poses[k].erase(p.wrist_poses[k].begin()); p.image_observations[k].erase(p.image_observations[k].begin()); }
    p.base_to_camera_guess = cg;
    p.wrist_to_target_guess = Wg;
    auto s = optimize(p);
    auto at = [&](const std::vector<Iso>& C, const Iso& w) {
      Acc a;
      for (std::size_t k = 0; k < C.size(); ++k)
        for (std::size_t i = 0; i < p.wrist_poses[k].size(); ++i) a.add(p.intr[k], C[k].inverse() * p.wrist_poses[k][i] * w, p.image_observations[k][i]);
      return a.get();
    };
    judge(c, "moving-target", d, s.converged, s.initial_cost_per_obs, s.final_cost_per_obs, at(cg, Wg), [&](const Vec& x) {
      auto C = s.base_to_camera;
      for (Eigen::Index k = 0; k < nC; ++k) C[k] = moved(C[k], x, 6 * k);
      return at(C, moved(s.wrist_to_target, x, 6 * nC)); }, 6 * (nC + 1), scl(6 * (nC + 1), L));
  }
  else if (kind == 1 || kind == 2)
  {
    ExtrinsicMultiStaticCameraOnlyProblem p;
    p.fix_first_camera = kind == 1;
    p.intr = g.k;
    p.image_observations = obs;
    p.base_to_camera_guess = cg;
    if (kind == 1) p.base_to_camera_guess[0] = cg[0] = g.cam[0];
    std::vector<Iso> tg;
    for (auto& q : g.tgt) tg.push_back(perturb(q, r, 0.05, 0.03 * g.dist));
    p.base_to_target_guess = tg;
    auto s = optimize(p);
    auto at = [&](const std::vector<Iso>& C, const std::vector<Iso>& T) {
      Acc a;
      for (std::size_t k = 0; k < C.size(); ++k)
        for (std::size_t i = 0; i < T.size(); ++i) a.add(p.intr[k], C[k].inverse() * T[i], p.image_observations[k][i]);
      return a.get();
    };
    const Eigen::Index fc = kind == 1 ? 1 : 0;
    judge(c, kind == 1 ? "free-target-fixed-first" : "free-target", d, s.converged, s.initial_cost_per_obs, s.final_cost_per_obs, at(cg, tg), [&](const Vec& x) {
      auto C = s.base_to_camera;
      auto T = s.base_to_target;
      for (Eigen::Index k = fc; k < nC; ++k) C[k] = moved(C[k], x, 6 * (k - fc));
      for (Eigen::Index i = 0; i < nT; ++i) T[i] = moved(T[i], x, 6 * (nC - fc + i));
      return at(C, T); }, 6 * (nC - fc + nT), scl(6 * (nC - fc + nT), L));
  }
  else
  {
    ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
    p.intr = g.k;
    p.wrist_poses = wrist;
    p.image_observations = obs;
    Iso off = perturb(Iso::Identity(), r, 0.03, 0.02 * g.dist);
    for (auto& q : g.cam) p.base_to_camera_guess.push_back(off * q);
    // keep the correction small where the cameras are
    cg = p.base_to_camera_guess;
    p.wrist_to_target_guess = Wg;
    auto s = optimize(p);
    auto at = [&](const std::vector<Iso>& C, const Iso& w) {
      Acc a;
      for (std::size_t k = 0; k < C.size(); ++k)
        for (std::size_t i = 0; i < wrist.size(); ++i) a.add(p.intr[k], C[k].inverse() * wrist[i] * w, p.image_observations[k][i]);
      return a.get();
    };
    // one common correction, taken about the first camera
    judge(c, "single-correction", d, s.converged, s.initial_cost_per_obs, s.final_cost_per_obs, at(cg, Wg), [&](const Vec& x) {
      Iso about = s.base_to_camera[0], m = moved(about, x, 0) * about.inverse();
      auto C = s.base_to_camera;
      for (auto& q : C) q = m * q;
      return at(C, moved(s.wrist_to_target, x, 6)); }, 12, scl(12, L));
  }
}

static void kin(Case& c)
{
  Rng& r = c.rng;
  Kin s;
  s.t = gridTarget(r, 3, 3, r.uni(0.05, 0.15), false);
  s.k = randIntr(r);
  s.cc = randChain(r, r.range(0, 2));
  s.tc = randChain(r, r.range(0, 2));
  s.cb = s.tb = Iso::Identity();
  const int nc = int(s.cc.size()), nt = int(s.tc.size());
  s.oc = Eigen::MatrixXd::Zero(nc, 4);
  s.ot = Eigen::MatrixXd::Zero(nt, 4);
  for (int i = 0; i < nc * 4; ++i) s.oc.data()[i] = r.uni(-3e-3, 3e-3);
  for (int i = 0; i < nt * 4; ++i) s.ot.data()[i] = r.uni(-3e-3, 3e-3);
  s.X = randPose(r, 0.2);
  s.Y = randPose(r, 0.2);
  if (!makeKin(r, s, r.range(6, 9))) return;
  KinematicCalibrationProblem2D3D p(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  p.intr = s.k;
  const double px = r.logu(0.05, 1.0);
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    KinObservation2D3D o;
    o.camera_chain_joints = s.qc[i];
    o.target_chain_joints = s.qt[i];
    o.correspondence_set = noisy(r, observe(s.k, s.view[i], s.t), px);
    if (r.chance(0.15)) dropSome(r, o.correspondence_set);
    p.observations.push_back(o);
  }
  p.camera_chain_offset_stdev = r.logu(1e-3, 1e-1);
  p.target_chain_offset_stdev = r.logu(1e-3, 1e-1);
  // free blocks
  bool fr[5] = { nc > 0 && r.chance(0.7), nt > 0 && r.chance(0.7), nc > 0 && r.chance(0.7), nt > 0 && r.chance(0.7), true };
  std::vector<int> a3{ 0, 1, 2 };
  for (int b = 0; b < 2; ++b)
    if (!fr[b])
      for (int i = 0; i < (b ? nt : nc) * 4; ++i) p.mask[b].push_back(i);
  for (int b = 2; b < 5; ++b)
    if (!fr[b]) p.mask[2 * b - 2] = p.mask[2 * b - 1] = a3;
  Iso g[3] = { fr[2] ? perturb(s.X, r, 0.02, 0.02 * s.t.size) : s.X, fr[3] ? perturb(s.Y, r, 0.02, 0.02 * s.t.size) : s.Y, perturb(s.B, r, 0.02, 0.02 * s.t.size) };
  p.camera_mount_to_camera_guess = g[0];
  p.target_mount_to_target_guess = g[1];
  p.camera_base_to_target_base_guess = g[2];
  auto at = [&](const Iso& X, const Iso& Y, const Iso& B, const Eigen::MatrixXd& oc, const Eigen::MatrixXd& ot) {
    Acc a;
    for (std::size_t i = 0; i < s.view.size(); ++i) a.add(s.k, kinView(s, X, Y, B, oc, ot, i), p.observations[i].correspondence_set);
    if (fr[0])
      for (int i = 0; i < nc * 4; ++i) a.v.push_back(oc.data()[i] / p.camera_chain_offset_stdev);
    if (fr[1])
      for (int i = 0; i < nt * 4; ++i) a.v.push_back(ot.data()[i] / p.target_chain_offset_stdev);
    return a.get();
  };
  Eigen::MatrixXd zc = Eigen::MatrixXd::Zero(nc, 4), zt = Eigen::MatrixXd::Zero(nt, 4);
  for (std::size_t i = 0; i < s.view.size(); ++i)
    if (!allInFront(kinView(s, g[0], g[1], g[2], zc, zt, i), s.t, 0.4 * s.t.size)) return;
  c.nontrivial(hashIso(s.B, 33));
  auto res = optimize(p);
  Eigen::Index n = 0, at0[5];
  for (int b = 0; b < 5; ++b)
  {
    at0[b] = n;
    if (fr[b]) n += b == 0 ? nc * 4 : b == 1 ? nt * 4 : 6;
  }
  Vec sc = Vec::Ones(n);
  for (int b = 2; b < 5; ++b)
    if (fr[b]) sc.segment<3>(at0[b] + 3).setConstant(s.t.size);
  for (int b = 0; b < 2; ++b)
    if (fr[b]) sc.segment(at0[b], (b ? nt : nc) * 4).setConstant(0.1);
  judge(c, "kinematic", cat(nc, "+", nt, " joints, ", n, " free, noise ", px), res.converged, res.initial_cost_per_obs, res.final_cost_per_obs, at(g[0], g[1], g[2], zc, zt),
        [&](const Vec& x) {
          Eigen::MatrixXd oc = res.camera_chain_dh_offsets, ot = res.target_chain_dh_offsets;
          if (fr[0]) for (int i = 0; i < nc * 4; ++i) oc.data()[i] += x[at0[0] + i];
          if (fr[1]) for (int i = 0; i < nt * 4; ++i) ot.data()[i] += x[at0[1] + i];
          return at(fr[2] ? moved(res.camera_mount_to_camera, x, at0[2]) : res.camera_mount_to_camera,
                    fr[3] ? moved(res.target_mount_to_target, x, at0[3]) : res.target_mount_to_target,
                    moved(res.camera_base_to_target_base, x, at0[4]), oc, ot); }, n, sc);
}

static void intrinsic(Case& c)
{
  Rng& r = c.rng;
  CameraIntrinsics k;
  k.fx() = r.uni(450, 900); k.fy() = k.fx() * r.uni(0.9, 1.1); k.cx() = r.uni(300, 360); k.cy() = r.uni(220, 260);
  std::array<double, 5> D = { { r.uni(-0.2, 0.15), r.uni(-0.1, 0.1), r.uni(-0.004, 0.004), r.uni(-0.004, 0.004), r.uni(-0.05, 0.05) } };
  Target t = gridTarget(r, 6, 7, r.uni(0.03, 0.05), false);
  const int n = r.range(7, 9);
  const double px = r.logu(0.02, 0.5);
  IntrinsicEstimationProblem p;
  p.use_extrinsic_guesses = false;
  std::vector<Iso> poses;
  for (int i = 0; i < n; ++i)
  {
    const double az = 2 * M_PI * (i + r.u01()) / n;
    Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * r.uni(0.25, 0.55)) * rot(V3(0, 0, r.uni(-0.3, 0.3))) * rot(V3(M_PI, 0, 0));
    double d = t.size * r.uni(1.3, 1.8);
    Iso v = mk(R, V3(r.uni(-0.2, 0.2) * d, r.uni(-0.2, 0.2) * d, d) - R * centroid(t.pts));
    Correspondence2D3D::Set s;
    for (auto& q : t.pts) s.push_back(Correspondence2D3D(distort(k, D, v * q), q));
    poses.push_back(v);
    p.image_observations.push_back(noisy(r, s, px));
    if (r.chance(0.15)) dropSome(r, p.image_observations.back());
  }
  p.intrinsics_guess = k;
  p.intrinsics_guess.fx() *= r.uni(0.97, 1.03);
  p.intrinsics_guess.fy() *= r.uni(0.97, 1.03);
  p.intrinsics_guess.cx() += r.uni(-8, 8);
  p.intrinsics_guess.cy() += r.uni(-8, 8);
  c.nontrivial(hashDouble(k.fx(), uint64_t(n)));
  auto s = optimize(p);
  c.count("intrinsic solved");
  std::string d = cat(n, " images, noise ", px, " px");
  c.check(s.final_cost_per_obs <= s.initial_cost_per_obs * (1 + 1e-9), "intrinsic-cost-rose", d);
  auto res1 = [&](const Iso& v, const Correspondence2D3D::Set& o, const CameraIntrinsics& kk, const std::array<double, 5>& dd) {
    Acc a;
    for (auto& q : o) a.add(V2(distort(kk, dd, v * q.in_target) - q.in_image));
    return a.get();
  };
  auto descend = [&](const Res& f, Eigen::Index m, const std::function<void(const Vec&)>& apply) {
    for (int it = 0; it < 8; ++it)
    {
      Vec z = Vec::Zero(m), rr = f(z);
      Eigen::MatrixXd J = numJac(f, z, 1e-6);
      Vec st = -(J.transpose() * J).ldlt().solve(J.transpose() * rr);
      if (!st.allFinite() || halfSq(f(st)) >= halfSq(rr)) return;
      apply(st);
    }
  };
  // initial cost: guessed intrinsics, no distortion, each pose the best for them
  std::array<double, 5> none = { { 0, 0, 0, 0, 0 } };
  double s0 = 0, s1 = 0, m = 0;
  for (int i = 0; i < n; ++i)
  {
    Iso v = poses[i];
    auto& o = p.image_observations[i];
    descend([&](const Vec& x) { return res1(moved(v, x, 0), o, p.intrinsics_guess, none); }, 6, [&](const Vec& x) { v = moved(v, x, 0); });
    s0 += halfSq(res1(v, o, p.intrinsics_guess, none));
    v = poses[i];
    descend([&](const Vec& x) { return res1(moved(v, x, 0), o, s.intrinsics, s.distortions); }, 6, [&](const Vec& x) { v = moved(v, x, 0); });
    poses[i] = v;
    s1 += halfSq(res1(v, o, s.intrinsics, s.distortions));
    m += 2.0 * o.size();
  }
  c.near(s.initial_cost_per_obs, s0 / m, 0.01 * s0 / m, "intrinsic-initial-cost", d);
  if (!s.converged) { c.count("intrinsic not converged"); return; }
  c.near(s.final_cost_per_obs, s1 / m, 2e-3 * s1 / m, "intrinsic-final-cost", d);
  Vec sc = scl(9 + 6 * n, t.size);
  for (int i = 0; i < n; ++i) { sc.segment<3>(9 + 6 * i).setOnes(); sc.segment<3>(9 + 6 * i + 3).setConstant(t.size); }
  sc.head<4>().setConstant(500);
  sc.segment<5>(4).setOnes();
  const double g = improvement([&](const Vec& x) {
      CameraIntrinsics kk = s.intrinsics;
      auto dd = s.distortions;
      for (int i = 0; i < 4; ++i) kk.values[i] += x[i];
      for (int i = 0; i < 5; ++i) dd[i] += x[4 + i];
      std::vector<double> all;
      for (int i = 0; i < n; ++i) { Vec v = res1(moved(poses[i], x, 9 + 6 * i), p.image_observations[i], kk, dd); all.insert(all.end(), v.data(), v.data() + v.size()); }
      return Vec(Eigen::Map<Vec>(all.data(), Eigen::Index(all.size()))); }, 9 + 6 * n, r, sc);
  c.near(g, 0, NOTICEABLE, "intrinsic-not-a-minimum", d);
  c.count("answers probed for a better neighbour");
}

VH_CASE(C07)
{
  switch (c.index % 16)
  {
    case 0: case 1: case 2: return pnp(c, 0);
    case 3: case 4: return pnp(c, 1);
    case 5: case 6: return pnp(c, 2);
    case 7: case 8: return handeye<ExtrinsicHandEyeProblem2D3D>(c, "handeye2d", true);
    case 9: return handeye<ExtrinsicHandEyeProblem3D3D>(c, "handeye3d", false);
    case 10: return cams(c, 0);
    case 11: return cams(c, 1);
    case 12: return cams(c, 2);
    case 13: return cams(c, 3);
    case 14: return kin(c);
    case 15: return intrinsic(c);
  }
}
