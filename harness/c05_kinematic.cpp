// C05: kinematic calibration identifies the unmasked parameters and keeps masked ones
#include "kin.h"
using namespace vh;
using namespace rct_optimizations;

static Iso fromRv(const V3& rv, const V3& t) { return mk(rot(rv), t); }
static V3 rv(const Iso& p)
{
  Eigen::AngleAxisd aa(p.linear());
  return aa.axis() * aa.angle();
}
static std::vector<int> all(int n)
{
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(i);
  return v;
}
static bool has(const std::vector<int>& m, int i) { return std::find(m.begin(), m.end(), i) != m.end(); }

// masks name parameters column-major
static void masks(Case& c)
{
  Rng& r = c.rng;
  const int rows = r.range(0, 8);
  Eigen::Array<bool, Eigen::Dynamic, 4> m(rows, 4);
  std::set<int> want;
  for (int j = 0; j < 4; ++j)
    for (int i = 0; i < rows; ++i)
    {
      m(i, j) = r.chance(0.4);
      if (m(i, j)) want.insert(j * rows + i);
    }
  auto got = createDHMask(m);
  c.check(std::set<int>(got.begin(), got.end()) == want && got.size() == want.size(), "mask-order", cat(rows, " joints: wrong mask indices"));
  c.count("DH masks created");
}

template <typename Problem>
static KinematicCalibrationResult solve(const Problem& p);
template <>
KinematicCalibrationResult solve(const KinematicCalibrationProblem2D3D& p) { return optimize(p); }
template <>
KinematicCalibrationResult solve(const KinematicCalibrationProblemPose6D& p)
{
  ceres::Solver::Options o;
  o.max_num_iterations = 200;
  o.use_nonmonotonic_steps = true;  // the single rotation residual is a norm: plain steps stall
  o.function_tolerance = 1e-12;
  o.parameter_tolerance = 1e-12;
  o.num_threads = 1; o.minimizer_progress_to_stdout = getenv("VH_STDOUT");
  return optimize(p, 1.0, o);
}
static void fill(Rng& r, const Kin& s, KinematicCalibrationProblem2D3D& p)
{
  p.intr = s.k;
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    KinObservation2D3D o;
    o.camera_chain_joints = s.qc[i];
    o.target_chain_joints = s.qt[i];
    o.correspondence_set = observe(s.k, s.view[i], s.t);
    if (r.chance(0.15)) dropSome(r, o.correspondence_set);
    p.observations.push_back(o);
  }
}
static void fill(Rng&, const Kin& s, KinematicCalibrationProblemPose6D& p)
{
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    KinematicMeasurement o;
    o.camera_chain_joints = s.qc[i];
    o.target_chain_joints = s.qt[i];
    o.camera_to_target = s.view[i];
    p.observations.push_back(o);
  }
}

// Returns 1 when the answer converged and reproduces the observations, 0 when it did not converge, -1 without an answer
template <typename Problem>
static int run(Case& c, const char* what, bool pix)
{
  Rng& r = c.rng;
  Kin s;
  const bool dhFree = r.chance(0.5);
  s.t = randTarget(r, 8);
  if (s.t.pts.size() > 9)
  {  // enough points, all over the target
    r.shuffle(s.t.pts);
    s.t.pts.resize(9);
  }
  s.k = randIntr(r);
  s.cc = randChain(r, r.range(0, 3));
  s.tc = randChain(r, r.range(0, 3));
  s.cb = r.chance(0.5) ? Iso::Identity() : randPose(r, 1);
  s.tb = r.chance(0.5) ? Iso::Identity() : randPose(r, 1);
  const int nc = int(s.cc.size()), nt = int(s.tc.size());

  // which parameters are free
  std::array<std::vector<int>, 8> mask;
  auto part = [&](int n, double p) {
    std::vector<int> m;
    for (int i = 0; i < n; ++i)
      if (r.chance(p)) m.push_back(i);
    if (r.chance(0.2) && !m.empty()) m.push_back(m.front());  // a repeated index
    r.shuffle(m);
    return m;
  };
  mask[0] = dhFree ? part(nc * 4, 0.6) : all(nc * 4);
  mask[1] = dhFree ? part(nt * 4, 0.6) : all(nt * 4);
  // redundant transforms stay fixed: without camera joints mount and base coincide, likewise for the target
  int keep = r.range(0, 2);
  bool fixed[3] = { false, false, false };
  if (nc == 0) fixed[r.chance(0.5) ? 0 : 2] = true;
  if (nt == 0) fixed[fixed[2] || r.chance(0.5) ? 1 : 2] = true;
  if (nc == 0 && nt == 0)
    for (int i = 0; i < 3; ++i) fixed[i] = i != keep;
  if (r.chance(0.3)) fixed[r.range(0, 2)] = true;
  if (nc == 1) fixed[r.chance(0.5) ? 0 : 2] = true;
  if (nt == 1) fixed[r.chance(0.5) ? 1 : 2] = true;
  for (int b = 0; b < 3; ++b)
    for (int h = 0; h < 2; ++h) mask[2 + 2 * b + h] = fixed[b] ? all(3) : part(3, r.chance(0.5) ? 0 : 0.4);
  if (r.chance(0.03))
  {  // nothing free at all
    mask[0] = all(nc * 4); mask[1] = all(nt * 4);
    for (int b = 2; b < 8; ++b) mask[b] = all(3);
  }
  std::size_t nfree = 0;
  for (int b = 0; b < 8; ++b)
  {
    std::set<int> u(mask[b].begin(), mask[b].end());
    nfree += std::size_t(b == 0 ? nc * 4 : b == 1 ? nt * 4 : 3) - u.size();
  }

  if (nfree > 20) { c.count("skipped: too many free parameters"); return -1; }

  // truth
  s.oc = Eigen::MatrixXd::Zero(nc, 4);
  s.ot = Eigen::MatrixXd::Zero(nt, 4);
  for (int i = 0; i < nc * 4; ++i)
    if (!has(mask[0], i)) s.oc.data()[i] = r.uni(-0.01, 0.01);
  for (int i = 0; i < nt * 4; ++i)
    if (!has(mask[1], i)) s.ot.data()[i] = r.uni(-0.01, 0.01);
  const bool plainGuess = r.chance(0.25);  // guesses without rotation
  auto rvec = [&] { return plainGuess ? V3(V3::Zero()) : V3(unit(r) * r.uni(0, 2.6)); };
  V3 gr[3] = { rvec(), rvec(), rvec() }, gt[3];
  V3 tr[3], tt[3];
  for (int b = 0; b < 2; ++b) gt[b] = plainGuess && r.chance(0.5) ? V3(V3::Zero()) : box(r, 0.2);
  auto move = [&](int b) {
    tr[b] = gr[b];
    tt[b] = gt[b];
    for (int i = 0; i < 3; ++i)
    {
      if (!has(mask[2 + 2 * b], i)) tt[b][i] += r.uni(-0.03, 0.03) * s.t.size;
      if (!has(mask[3 + 2 * b], i)) tr[b][i] += r.uni(-0.03, 0.03);
    }
  };
  move(0);
  move(1);
  s.X = fromRv(tr[0], tt[0]);
  s.Y = fromRv(tr[1], tt[1]);
  if (!makeKin(r, s, r.range(10, 14))) { c.count("skipped: not enough views"); return -1; }
  // the base transform follows from the views; its guess differs in the free components only
  tr[2] = rv(s.B);
  tt[2] = s.B.translation();
  if (tr[2].norm() > 3.0) { c.count("skipped: base rotation near half a turn"); return -1; }
  gr[2] = tr[2];
  gt[2] = tt[2];
  for (int i = 0; i < 3; ++i)
  {
    if (!has(mask[6], i)) gt[2][i] += r.uni(-0.03, 0.03) * s.t.size;
    if (!has(mask[7], i)) gr[2][i] += r.uni(-0.03, 0.03);
  }
  Problem p(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  fill(r, s, p);
  p.camera_mount_to_camera_guess = fromRv(gr[0], gt[0]);
  p.target_mount_to_target_guess = fromRv(gr[1], gt[1]);
  p.camera_base_to_target_base_guess = fromRv(gr[2], gt[2]);
  p.mask = mask;
  p.camera_chain_offset_stdev = p.target_chain_offset_stdev = 1e6;
  // stay in front with the guesses
  Eigen::MatrixXd zc = Eigen::MatrixXd::Zero(nc, 4), zt = Eigen::MatrixXd::Zero(nt, 4);
  for (std::size_t i = 0; i < s.view.size(); ++i)
    if (!allInFront(kinView(s, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess, p.camera_base_to_target_base_guess, zc, zt, i), s.t, 0.4 * s.t.size))
    {
      c.count("skipped: guess reaches the camera");
      return -1;
    }
  std::string d = cat(what, ", ", nc, "+", nt, " joints, ", nfree, " free parameters", dhFree ? ", DH free" : "", plainGuess ? ", plain guess" : "");
  c.sample(d);

  if (r.chance(0.15))
  {  // a mask index outside its block
    int b = r.range(0, 7);
    int size = b == 0 ? nc * 4 : b == 1 ? nt * 4 : 3;
    if (size == 0) return -1;
    int bad = r.chance(0.5) ? size + (r.chance(0.5) ? 0 : r.range(0, 20)) : -r.range(1, 5);
    p.mask[b].push_back(bad);
    bool thrown = false;
    try { solve(p); }
    catch (const std::exception&) { thrown = true; }
    c.check(thrown, "mask-outside", cat(d, ": index ", bad, " of block ", b, " (size ", size, ") accepted"));
    c.count("mask indices outside the block");
    return -1;
  }
  KinematicCalibrationResult res;
  try { res = solve(p); }
  catch (const std::exception& e)
  {
    c.check(false, cat(what, "-refused"), cat(d, ": ", e.what()));
    return -1;
  }
  c.count(cat(what, " solved"));
  if (dhFree) c.count("solved with free DH parameters");
  if (plainGuess) c.count("solved from guesses without rotation");
  if (nc == 0 || nt == 0) c.count("chains without joints");
  if (nfree == 0) c.count("everything masked");
  c.nontrivial(hashIso(s.B, hashIso(s.X, nfree)));
  // shapes and masked parameters
  if (!c.check(res.camera_chain_dh_offsets.rows() == nc && res.target_chain_dh_offsets.rows() == nt, "offset-shape", d)) return -1;
  for (int i = 0; i < nc * 4; ++i)
    if (has(mask[0], i)) { c.check(res.camera_chain_dh_offsets.data()[i] == 0.0, "masked-changed", cat(d, ": camera offset ", i, " is ", res.camera_chain_dh_offsets.data()[i])); c.count("masked parameters"); }
  for (int i = 0; i < nt * 4; ++i)
    if (has(mask[1], i)) { c.check(res.target_chain_dh_offsets.data()[i] == 0.0, "masked-changed", cat(d, ": target offset ", i, " is ", res.target_chain_dh_offsets.data()[i])); c.count("masked parameters"); }
  const Iso got[3] = { res.camera_mount_to_camera, res.target_mount_to_target, res.camera_base_to_target_base };
  for (int b = 0; b < 3; ++b)
  {
    if (!c.check(isRigid(got[b]), "not-rigid", cat(d, ": block ", b, " ", show(got[b])))) return -1;
    V3 R = rv(got[b]);
    for (int i = 0; i < 3; ++i)
    {
      if (has(mask[2 + 2 * b], i)) { c.check(got[b].translation()[i] == gt[b][i], "masked-changed", cat(d, ": position ", i, " of block ", b, " moved by ", got[b].translation()[i] - gt[b][i])); c.count("masked parameters"); }
      if (has(mask[3 + 2 * b], i)) { c.near(R[i], gr[b][i], 1e-9, "masked-changed", cat(d, ": rotation ", i, " of block ", b)); c.count("masked parameters"); }
    }
  }
  c.check(res.final_cost_per_obs <= res.initial_cost_per_obs * (1 + 1e-9) + 1e-20, cat(what, "-cost-rose"), cat(d, ": final cost ", res.final_cost_per_obs, " initial ", res.initial_cost_per_obs));
  // Pose measurements: the one rotation residual per pose is a norm, with which the solver may run out of iterations;
  // what it calls converged (with tight tolerances) must reproduce the measurements
  if (!pix && !res.converged) { c.count("pose6d ran out of iterations"); return 0; }
  c.check(res.converged || res.final_cost_per_obs < 1e-9, cat(what, "-not-converged"), cat(d, ": final cost ", res.final_cost_per_obs, " initial ", res.initial_cost_per_obs));
  // the answer reproduces every observation
  double ep = 0, er = 0;
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    Iso v = kinView(s, got[0], got[1], got[2], res.camera_chain_dh_offsets, res.target_chain_dh_offsets, i);
    if (pix)
      for (auto& q : s.t.pts) ep = std::max(ep, (project(s.k, v * q) - project(s.k, s.view[i] * q)).norm());
    else
    {
      ep = std::max(ep, trDist(v, s.view[i]));
      er = std::max(er, rotDist(v, s.view[i]));
    }
  }
  if (pix)
    c.near(ep, 0, 2e-3, cat(what, "-reproduction"), cat(d, ": largest reprojection error [px], cost ", res.final_cost_per_obs));
  else
  {
    c.near(ep, 0, 1e-5, cat(what, "-reproduction"), cat(d, ": largest position error"));
    c.near(er, 0, 1e-5, cat(what, "-reproduction"), cat(d, ": largest rotation error"));
  }
  c.count("observations compared with the answer", double(s.view.size()));
  return 1;
}

VH_CASE(C05)
{
  const int k = int(c.index % 8);
  if (k == 0) masks(c);
  else if (k < 5) run<KinematicCalibrationProblem2D3D>(c, "2d3d", true);
  else if (c.index % 40 != 7) run<KinematicCalibrationProblemPose6D>(c, "pose6d", false);
  else
  {  // most of them do converge
    int ok = 0, n = 0;
    const int f0 = c.fails;
    for (int i = 0; i < 40 && n < 8; ++i)
    {
      int a = run<KinematicCalibrationProblemPose6D>(c, "pose6d", false);
      n += a >= 0;
      ok += a == 1;
    }
    c.check(c.fails > f0 || n < 8 || ok >= 1, "pose6d-never-converges", cat(ok, " of ", n, " exact pose problems converged"));
    c.maxstat("converged of 8 pose problems, fewest (negated)", -ok);
    c.count("batches of pose problems");
  }
}
