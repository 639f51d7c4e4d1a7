// C09: covariance values are right and labelled with the right parameters
#include "handeye.h"
#include "kin.h"
#include "multicam.h"
#include "opt.h"
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/covariance_analysis.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/pnp.h>
using namespace vh;
using namespace rct_optimizations;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;

// Structure of a result: every parameter once, every pair once, lists and matrices telling the same story
static bool structure(Case& c, const std::string& what, const std::string& d, const CovarianceResult& q, const std::set<std::string>& want,
                      std::map<std::string, Eigen::Index>& at)
{
  at.clear();
  for (std::size_t i = 0; i < q.standard_deviations.size(); ++i)
  {
    auto& p = q.standard_deviations[i];
    if (!c.check(at.emplace(p.names.first, Eigen::Index(i)).second, what + "-parameter-twice", cat(d, ": ", p.names.first))) return false;
    if (!c.check(want.count(p.names.first) && p.names.second.empty(), what + "-unexpected-parameter", cat(d, ": ", p.names.first, " / ", p.names.second))) return false;
  }
  const Eigen::Index n = Eigen::Index(want.size());
  if (!c.check(at.size() == want.size(), what + "-parameter-missing", cat(d, ": ", at.size(), " of ", want.size(), " parameters listed"))) return false;
  const std::size_t pairs = want.size() * (want.size() - (want.size() ? 1 : 0)) / 2;
  if (!c.check(q.covariance_matrix.rows() == n && q.covariance_matrix.cols() == n && q.correlation_matrix.rows() == n && q.correlation_matrix.cols() == n,
               what + "-matrix-size", cat(d, ": ", q.covariance_matrix.rows(), "x", q.covariance_matrix.cols(), " for ", n, " parameters")))
    return false;
  if (!c.check(q.covariances.size() == pairs && q.correlation_coeffs.size() == pairs, what + "-pair-count", cat(d, ": ", q.covariances.size(), ", ", q.correlation_coeffs.size(), " for ", pairs)))
    return false;
  for (int l = 0; l < 2; ++l)
  {
    std::set<std::pair<std::string, std::string>> seen;
    for (auto& p : l ? q.correlation_coeffs : q.covariances)
    {
      auto k = std::minmax(p.names.first, p.names.second);
      if (!c.check(at.count(k.first) && at.count(k.second) && k.first != k.second && seen.insert(k).second, what + "-pair-twice", cat(d, ": ", k.first, " ", k.second))) return false;
      const Eigen::Index i = at[p.names.first], j = at[p.names.second];
      const double m = l ? q.correlation_matrix(i, j) : q.covariance_matrix(i, j);
      if (!c.check(p.value == m || (p.value != p.value && m != m), what + "-list-against-matrix", cat(d, ": ", k.first, " ", k.second, ": ", p.value, " listed, ", m, " in the matrix"))) return false;
    }
  }
  double worstSd = 0, worstCorr = 0, worstSym = 0;
  for (Eigen::Index i = 0; i < n; ++i)
  {
    const double vi = q.covariance_matrix(i, i), si = std::sqrt(std::abs(vi));
    const double rep = q.standard_deviations[std::size_t(i)].value;
    worstSd = std::max(worstSd, std::abs(rep - si) / std::max(si, 1e-300));
    if (vi == 0) worstSd = std::max(worstSd, std::abs(rep) > 0 ? 1.0 : 0.0);
    c.check(rep == q.correlation_matrix(i, i), what + "-list-against-matrix", cat(d, ": standard deviation ", i));
    for (Eigen::Index j = 0; j < i; ++j)
    {
      const double sj = std::sqrt(std::abs(q.covariance_matrix(j, j)));
      if (si > 1e-15 && sj > 1e-15)
      {
        worstCorr = std::max(worstCorr, std::abs(q.correlation_matrix(i, j) - q.covariance_matrix(i, j) / (si * sj)));
        worstCorr = std::max(worstCorr, std::abs(q.correlation_matrix(i, j)) - 1);
        worstSym = std::max(worstSym, std::abs(q.covariance_matrix(i, j) - q.covariance_matrix(j, i)) / (si * sj));
        worstSym = std::max(worstSym, std::abs(q.correlation_matrix(i, j) - q.correlation_matrix(j, i)));
      }
    }
  }
  bool ok = c.near(worstSd, 0, 1e-9, what + "-standard-deviation", cat(d, ": against the diagonal of the covariance"));
  ok = c.near(worstCorr, 0, 1e-7, what + "-correlation", cat(d, ": against the covariance, or beyond 1")) && ok;
  ok = c.near(worstSym, 0, 1e-7, what + "-asymmetric", d) && ok;
  return ok;
}
static Mat sigma(const Mat& J)
{
  Vec s = J.colwise().norm();
  Mat A = J * s.cwiseInverse().asDiagonal();
  Eigen::HouseholderQR<Mat> qr(A);
  Mat R = qr.matrixQR().topRows(J.cols()).triangularView<Eigen::Upper>();
  Mat Ri = R.triangularView<Eigen::Upper>().solve(Mat::Identity(J.cols(), J.cols()));
  return s.cwiseInverse().asDiagonal() * (Ri * Ri.transpose()) * s.cwiseInverse().asDiagonal();
}
struct Named
{
  std::vector<std::string> name;
  Vec x;
  std::vector<Eigen::Index> rots;  // where rotation vectors start; either of the two vectors of a rotation may be meant
  void pose(const std::string& n, const Iso& p)
  {
    for (auto s : { "_rx", "_ry", "_rz", "_x", "_y", "_z" }) name.push_back(n + s);
    rots.push_back(x.size());
    Vec y(x.size() + 6);
    y << x, toVec(p);
    x = y;
  }
  void num(const std::string& n, double v)
  {
    name.push_back(n);
    Vec y(x.size() + 1);
    y << x, v;
    x = y;
  }
};
static Iso poseAt(const Vec& x, Eigen::Index i) { return fromVec(x.segment<6>(i)); }

static void values(Case& c, const std::string& what, const std::string& d, const CovarianceResult& q, const Named& nm, const std::set<Eigen::Index>& masked, const Res& f)
{
  std::set<std::string> want;
  std::vector<Eigen::Index> fr;
  for (Eigen::Index i = 0; i < nm.x.size(); ++i)
    if (!masked.count(i)) { want.insert(nm.name[std::size_t(i)]); fr.push_back(i); }
  std::map<std::string, Eigen::Index> at;
  if (!structure(c, what, d, q, want, at) || fr.empty()) return;
  auto jac = [&](const Vec& x0) {
    Mat J = numJac(f, x0, 1e-5), F(J.rows(), Eigen::Index(fr.size()));
    for (std::size_t i = 0; i < fr.size(); ++i) F.col(Eigen::Index(i)) = J.col(fr[i]);
    return F;
  };
  Vec alt = nm.x;
  for (auto g : nm.rots)
  {
    const double a = alt.segment<3>(g).norm();
    if (a > 1.8) alt.segment<3>(g) *= (a - 2 * M_PI) / a;
  }
  Mat J = jac(nm.x), S = sigma(J), J1 = J, S1 = S;
  const Mat J0 = J;
  if (alt != nm.x) { J1 = jac(alt); S1 = sigma(J1); }
  Vec sv = (J * J.colwise().norm().cwiseInverse().asDiagonal()).jacobiSvd().singularValues();
  if (!(sv[sv.size() - 1] > 1e-4 * sv[0]) || S.diagonal().minCoeff() <= 0) { c.count("skipped: badly conditioned"); return; }
  Vec raw = J.jacobiSvd().singularValues();
  if (!(raw[raw.size() - 1] > 1e-6 * raw[0])) { c.count("skipped: badly conditioned"); return; }
  std::vector<Eigen::Index> pos;
  for (auto i : fr) pos.push_back(at[nm.name[std::size_t(i)]]);
  for (auto g : nm.rots)
  {
    double m0 = 0, m1 = 0;
    for (std::size_t k = 0; k < fr.size(); ++k)
      for (std::size_t j = 0; j < fr.size(); ++j)
      {
        bool other = false;
        for (auto h : nm.rots) other = other || (h != g && fr[j] >= h && fr[j] < h + 3);
        if (other || fr[k] < g || fr[k] >= g + 3) continue;
        const Eigen::Index x = Eigen::Index(k), y = Eigen::Index(j);
        const double got = q.covariance_matrix(pos[k], pos[j]);
        m0 += std::abs(got - S(x, y)) / std::sqrt(S(x, x) * S(y, y));
        m1 += std::abs(got - S1(x, y)) / std::sqrt(S1(x, x) * S1(y, y));
      }
    if (m1 < m0)
      for (std::size_t k = 0; k < fr.size(); ++k)
        if (fr[k] >= g && fr[k] < g + 3) J.col(Eigen::Index(k)) = J1.col(Eigen::Index(k));
  }
  S = sigma(J);
  auto mismatch = [&](const Mat& A) {
    double w = 0;
    for (std::size_t a = 0; a < fr.size(); ++a)
      for (std::size_t b = 0; b <= a; ++b)
      {
        const Eigen::Index i = Eigen::Index(a), j = Eigen::Index(b);
        w = std::max(w, std::abs(q.covariance_matrix(pos[a], pos[b]) - A(i, j)) / std::sqrt(A(i, i) * A(j, j)));
      }
    return w;
  };
  double now = mismatch(S);
  for (int round = 0; round < 2 && now > 1e-4; ++round)
    for (auto g : nm.rots)
    {  // the other vector of this rotation, if that agrees better
      Mat K = J;
      for (std::size_t k = 0; k < fr.size(); ++k)
        if (fr[k] >= g && fr[k] < g + 3) K.col(Eigen::Index(k)) = J.col(Eigen::Index(k)) == J0.col(Eigen::Index(k)) ? Vec(J1.col(Eigen::Index(k))) : Vec(J0.col(Eigen::Index(k)));
      Mat A = sigma(K);
      const double m = mismatch(A);
      if (m < now) { now = m; J = K; S = A; }
    }
  double worst = 0;
  std::string which;
  for (std::size_t a = 0; a < fr.size(); ++a)
    for (std::size_t b = 0; b <= a; ++b)
    {
      const Eigen::Index i = Eigen::Index(a), j = Eigen::Index(b);
      const double e = std::abs(q.covariance_matrix(pos[a], pos[b]) - S(i, j)) / std::sqrt(S(i, i) * S(j, j));
      if (!(e <= worst)) { worst = e; which = cat(nm.name[std::size_t(fr[a])], " ", nm.name[std::size_t(fr[b])], ": ", q.covariance_matrix(pos[a], pos[b]), " reported, ", S(i, j), " expected"); }
    }
  c.near(worst, 0, 2e-3, what + "-covariance", cat(d, ": relative to the standard deviations; ", which));
  c.count("covariances compared with the information matrix");
  c.count(cat(what, " covariances"));
}

static void threshold(Case& c, const CovarianceResult& q, const std::string& d)
{
  const double t = c.rng.chance(0.3) || q.correlation_coeffs.empty() ? c.rng.u01() : std::abs(q.correlation_coeffs[std::size_t(c.rng.range(0, int(q.correlation_coeffs.size()) - 1))].value);
  auto got = q.getCorrelationCoeffOutsideThreshold(t);
  std::multiset<std::pair<std::string, double>> a, b;
  for (auto& p : got) a.emplace(p.names.first + "|" + p.names.second, p.value);
  for (auto& p : q.correlation_coeffs)
    if (std::abs(p.value) > t) b.emplace(p.names.first + "|" + p.names.second, p.value);
  c.check(a == b, "threshold-pairs", cat(d, ": ", a.size(), " pairs above ", t, ", ", b.size(), " expected"));
  for (std::size_t i = 1; i < got.size(); ++i) c.check(std::abs(got[i - 1].value) >= std::abs(got[i].value), "threshold-order", cat(d, ": not descending at ", i));
  const std::string s = q.printCorrelationCoeffAboveThreshold(t), all = q.toString();
  for (auto& p : got) c.check(s.find(p.toString()) != std::string::npos, "threshold-text", d);
  for (auto& p : q.standard_deviations) c.check(all.find(p.toString()) != std::string::npos, "result-text", d);
  c.count("threshold queries");
}

static void pnp(Case& c, bool pix)
{
  Rng& r = c.rng;
  Target t = randTarget(r, 8);
  CameraIntrinsics k = randIntr(r);
  Iso truth = viewPose(r, t, 1.8, 3.5, 0.2, 0.8);
  if (r.chance(0.5)) { truth = mk(rot(rotvec(r, 0.7)), V3::Zero()); truth.translation() = V3(0, 0, 2.5 * t.size) - truth.linear() * centroid(t.pts); }
  if (!pix && r.chance(0.5)) truth = randPose(r, 2);
  if (pix && !allInFront(truth, t, 0.2 * t.size)) return;
  Iso guess = perturb(truth, r, 0.15, 0.05 * truth.translation().norm());
  const std::string lab = r.chance(0.5) ? "camera_to_target" : "somewhere";
  Named nm;
  std::string d = cat(t.pts.size(), " points, truth ", show(truth));
  c.nontrivial(hashIso(truth, pix));
  if (pix)
  {
    PnPProblem p;
    p.intr = k;
    p.correspondences = noisy(r, observe(k, truth, t), r.logu(0.01, 1));
    p.camera_to_target_guess = guess;
    p.label_camera_to_target_guess = lab;
    auto s = optimize(p);
    nm.pose(lab, s.camera_to_target);
    values(c, "pnp2d", d, s.covariance, nm, {}, [&](const Vec& x) { Acc a; a.add(k, poseAt(x, 0), p.correspondences); return a.get(); });
    threshold(c, s.covariance, d);
  }
  else
  {
    PnPProblem3D p;
    p.correspondences = noisy(r, observe3(truth, t), t.size * r.logu(1e-5, 0.01));
    p.camera_to_target_guess = guess;
    p.label_camera_to_target_guess = lab;
    auto s = optimize(p);
    nm.pose(lab, s.camera_to_target);
    values(c, "pnp3d", d, s.covariance, nm, {}, [&](const Vec& x) { Acc a; a.add(poseAt(x, 0), p.correspondences); return a.get(); });
    threshold(c, s.covariance, d);
  }
}
template <typename P>
static Vec heRes(const P& p, const Iso& X, const Iso& Y);
template <>
Vec heRes(const ExtrinsicHandEyeProblem2D3D& p, const Iso& X, const Iso& Y)
{
  Acc a;
  for (auto& o : p.observations) a.add(p.intr, (o.to_camera_mount * X).inverse() * o.to_target_mount * Y, o.correspondence_set);
  return a.get();
}
template <>
Vec heRes(const ExtrinsicHandEyeProblem3D3D& p, const Iso& X, const Iso& Y)
{
  Acc a;
  for (auto& o : p.observations) a.add((o.to_camera_mount * X).inverse() * o.to_target_mount * Y, o.correspondence_set);
  return a.get();
}
template <typename P>
static void handeye(Case& c, const char* what, bool pix)
{
  Rng& r = c.rng;
  HandEye h;
  const int mode = r.range(0, 2);
  if (!makeHandEye(r, h, mode, r.range(6, 9), r.logu(0.3, 2))) return;
  P p;
  fillHandEye(h, p);
  const double px = r.logu(0.02, 1), len = h.t.size * r.logu(1e-5, 0.01);
  for (auto& o : p.observations) o.correspondence_set = noisy(r, o.correspondence_set, pix ? px : len);
  for (auto& o : p.observations)
    if (r.chance(0.1)) dropSome(r, o.correspondence_set);
  p.camera_mount_to_camera_guess = perturb(h.X, r, 0.06, 0.04 * h.t.size);
  p.target_mount_to_target_guess = perturb(h.Y, r, 0.06, 0.04 * h.t.size);
  if (minDepth(p) < 0.3 * h.t.size) return;
  if (r.chance(0.4)) { p.label_camera_mount_to_camera = "hand"; p.label_target_mount_to_target = "eye"; }
  c.nontrivial(hashIso(h.X, 5));
  auto s = optimize(p);
  Named nm;
  nm.pose(p.label_camera_mount_to_camera, s.camera_mount_to_camera);
  nm.pose(p.label_target_mount_to_target, s.target_mount_to_target);
  std::string d = cat("mode ", mode, ", ", h.view.size(), " views");
  values(c, what, d, s.covariance, nm, {}, [&](const Vec& x) { return heRes(p, poseAt(x, 0), poseAt(x, 6)); });
  threshold(c, s.covariance, d);
}
static void moving(Case& c)
{
  Rng& r = c.rng;
  Rig g;
  const int nc = r.chance(0.16) ? r.range(9, 12) : r.range(1, 4), nt = r.chance(0.08) ? r.range(10, 12) : r.range(4, 6);
  if (nc > 8 || nt > 9) c.count("many cameras or poses");
  makeRig(r, g, nc, nt, r.logu(0.3, 1.5));
  const double px = r.logu(0.02, 1);
  Iso W = randPose(r, 0.4);
  ExtrinsicMultiStaticCameraMovingTargetProblem p;
  p.intr = g.k;
  std::vector<Iso> wrist;
  for (auto& q : g.tgt) wrist.push_back(q * W.inverse());
  p.wrist_poses.assign(g.cam.size(), wrist);
  p.image_observations.resize(g.cam.size());
  for (std::size_t k = 0; k < g.cam.size(); ++k)
  {
    for (std::size_t i = 0; i < g.tgt.size(); ++i) p.image_observations[k].push_back(noisy(r, shot(g, k, i), px));
    for (auto& s : p.image_observations[k])
      if (r.chance(0.1)) dropSome(r, s);
    p.base_to_camera_guess.push_back(perturb(g.cam[k], r, 0.04, 0.02 * g.dist));
  }
  p.wrist_to_target_guess = perturb(W, r, 0.04, 0.02 * g.dist);
  if (r.chance(0.4)) { p.label_base_to_camera = "cam"; p.label_wrist_to_target = "tgt"; }
  c.nontrivial(hashIso(W, 6));
  auto s = optimize(p);
  Named nm;
  for (std::size_t k = 0; k < g.cam.size(); ++k) nm.pose(p.label_base_to_camera + std::to_string(k), s.base_to_camera[k]);
  nm.pose(p.label_wrist_to_target, s.wrist_to_target);
  std::string d = cat(nc, " cameras, ", nt, " targets");
  values(c, "moving-target", d, s.covariance, nm, {}, [&](const Vec& x) {
    Acc a;
    for (std::size_t k = 0; k < g.cam.size(); ++k)
      for (std::size_t i = 0; i < g.tgt.size(); ++i) a.add(p.intr[k], poseAt(x, Eigen::Index(6 * k)).inverse() * wrist[i] * poseAt(x, Eigen::Index(6 * g.cam.size())), p.image_observations[k][i]);
    return a.get(); });
  threshold(c, s.covariance, d);
}
static void circle(Case& c)
{
  Rng& r = c.rng;
  CircleFitProblem p;
  const double R = r.logu(0.05, 200), cx = r.uni(-2, 2) * R, cy = r.uni(-2, 2) * R;
  const int n = r.range(4, 30);
  const double arc = r.uni(2.5, 2 * M_PI), noise = r.logu(1e-5, 0.02);
  for (int i = 0; i < n; ++i)
  {
    const double a = arc * (i + 0.5 * r.u01()) / n, q = R * (1 + noise * r.gauss());
    p.observations.push_back(V2(cx + q * std::cos(a), cy + q * std::sin(a)));
  }
  p.x_center_initial = cx + 0.2 * R * r.uni(-1, 1);
  p.y_center_initial = cy + 0.2 * R * r.uni(-1, 1);
  p.radius_initial = R * r.uni(0.8, 1.25);
  c.nontrivial(hashDouble(R, 8));
  auto s = optimize(p);
  Named nm;
  nm.num("x", s.x_center);
  nm.num("y", s.y_center);
  nm.num("r", s.radius);
  std::string d = cat(n, " points, radius ", R);
  values(c, "circle", d, s.covariance, nm, {}, [&](const Vec& x) {
    Vec v(n);
    for (int i = 0; i < n; ++i) v[i] = x[2] * x[2] - (p.observations[std::size_t(i)] - x.head<2>()).squaredNorm();
    return v; });
  threshold(c, s.covariance, d);
}
static void intrinsic(Case& c)
{
  Rng& r = c.rng;
  CameraIntrinsics k;
  k.fx() = r.uni(450, 900); k.fy() = k.fx() * r.uni(0.9, 1.1); k.cx() = r.uni(300, 360); k.cy() = r.uni(220, 260);
  std::array<double, 5> D = { { r.uni(-0.2, 0.15), r.uni(-0.1, 0.1), r.uni(-0.004, 0.004), r.uni(-0.004, 0.004), r.uni(-0.05, 0.05) } };
  Target t = gridTarget(r, 5, 6, r.uni(0.03, 0.05), false);
  const int n = r.chance(0.15) ? r.range(10, 12) : r.range(5, 7), skip = r.chance(0.4) ? r.range(0, n) : -1;
  IntrinsicEstimationProblem p;
  p.use_extrinsic_guesses = false;
  std::vector<Iso> poses;
  std::vector<std::size_t> img;
  for (int i = 0; i < n; ++i)
  {
    const double az = 2 * M_PI * (i + r.u01()) / n;
    Eigen::Matrix3d R = rot(V3(std::cos(az), std::sin(az), 0) * r.uni(0.3, 0.6)) * rot(V3(0, 0, r.uni(-0.3, 0.3))) * rot(V3(M_PI, 0, 0));
    double d = t.size * r.uni(1.2, 1.6);
    Iso v = mk(R, V3(r.uni(-0.2, 0.2) * d, r.uni(-0.2, 0.2) * d, d) - R * centroid(t.pts));
    Correspondence2D3D::Set s;
    for (auto& q : t.pts) s.push_back(Correspondence2D3D(distort(k, D, v * q), q));
    if (i == skip) p.image_observations.push_back({});
    poses.push_back(v);
    img.push_back(p.image_observations.size());
    p.image_observations.push_back(noisy(r, s, r.logu(0.02, 0.3)));
  }
  p.intrinsics_guess = k;
  if (r.chance(0.4)) p.label_extr = "view";
  c.nontrivial(hashDouble(k.fx(), 9));
  IntrinsicEstimationResult s;
  try { s = optimize(p); }
  catch (const CovarianceException&)
  {  // few images may leave the distortion barely determined
    c.count("skipped: badly conditioned");
    return;
  }
  Named nm;
  const char* nin[9] = { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" };
  for (int i = 0; i < 4; ++i) nm.num(nin[i], s.intrinsics.values[std::size_t(i)]);
  for (int i = 0; i < 5; ++i) nm.num(nin[4 + i], s.distortions[std::size_t(i)]);
  auto res1 = [&](const Iso& v, const Correspondence2D3D::Set& o, const CameraIntrinsics& kk, const std::array<double, 5>& dd) {
    Acc a;
    for (auto& q : o) a.add(V2(distort(kk, dd, v * q.in_target) - q.in_image));
    return a.get();
  };
  for (int i = 0; i < n; ++i)
  {  // the answered poses are not handed out: they are the best ones for the answered intrinsics
    auto& o = p.image_observations[img[std::size_t(i)]];
    for (int it = 0; it < 12; ++it)
    {
      Res f = [&](const Vec& x) { return res1(moved(poses[std::size_t(i)], x, 0), o, s.intrinsics, s.distortions); };
      Mat J = numJac(f, Vec::Zero(6), 1e-6);
      Vec st = -(J.transpose() * J).ldlt().solve(J.transpose() * f(Vec::Zero(6)));
      poses[std::size_t(i)] = moved(poses[std::size_t(i)], st, 0);
    }
    nm.pose(cat(p.label_extr, img[std::size_t(i)]), poses[std::size_t(i)]);
  }
  std::string d = cat(n, " images", skip >= 0 ? " and an empty one" : "");
  if (!s.converged) { c.count("intrinsic not converged"); return; }
  double sum = 0, num = 0;
  for (int i = 0; i < n; ++i)
  {
    Vec v = res1(poses[std::size_t(i)], p.image_observations[img[std::size_t(i)]], s.intrinsics, s.distortions);
    sum += v.squaredNorm() / 2;
    num += double(v.size());
  }
  if (!(std::abs(sum / num - s.final_cost_per_obs) < 1e-3 * s.final_cost_per_obs)) { c.count("skipped: poses of a lesser local minimum"); return; }
  values(c, "intrinsic", d, s.covariance, nm, {}, [&](const Vec& x) {
    CameraIntrinsics kk;
    std::array<double, 5> dd;
    for (int i = 0; i < 4; ++i) kk.values[std::size_t(i)] = x[i];
    for (int i = 0; i < 5; ++i) dd[std::size_t(i)] = x[4 + i];
    std::vector<double> all;
    for (int i = 0; i < n; ++i)
    {
      Vec v = res1(poseAt(x, 9 + 6 * i), p.image_observations[img[std::size_t(i)]], kk, dd);
      all.insert(all.end(), v.data(), v.data() + v.size());
    }
    return Vec(Eigen::Map<Vec>(all.data(), Eigen::Index(all.size()))); });
}
template <typename P>
static void kin(Case& c, bool pix)
{
  Rng& r = c.rng;
  Kin s;
  s.t = gridTarget(r, 3, 3, r.uni(0.05, 0.15), false);
  s.k = randIntr(r);
  s.cc = randChain(r, r.range(0, 2));
  s.tc = randChain(r, r.range(0, 2));
  s.cb = r.chance(0.5) ? Iso::Identity() : randPose(r, 1);
  s.tb = Iso::Identity();
  const int nc = int(s.cc.size()), nt = int(s.tc.size());
  s.oc = Mat::Zero(nc, 4);
  s.ot = Mat::Zero(nt, 4);
  for (int i = 0; i < nc * 4; ++i) s.oc.data()[i] = r.uni(-3e-3, 3e-3);
  for (int i = 0; i < nt * 4; ++i) s.ot.data()[i] = r.uni(-3e-3, 3e-3);
  s.X = randPose(r, 0.2);
  s.Y = randPose(r, 0.2);
  if (!makeKin(r, s, r.range(6, 9))) return;
  P p(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  p.camera_chain_offset_stdev = r.logu(1e-3, 1e-1);
  p.target_chain_offset_stdev = r.logu(1e-3, 1e-1);
  auto part = [&](int n) {
    std::vector<int> m;
    const double pr = r.chance(0.3) ? 1.0 : r.chance(0.4) ? 0.0 : 0.5;
    for (int i = 0; i < n; ++i)
      if (r.chance(pr)) m.push_back(i);
    if (!m.empty() && r.chance(0.3)) m.push_back(m[0]);
    r.shuffle(m);
    return m;
  };
  p.mask[0] = part(nc * 4);
  p.mask[1] = part(nt * 4);
  std::vector<int> a3{ 0, 1, 2 };
  // mount and base coincide on a chain without joints, and nearly so with one
  p.mask[2] = nc > 1 ? part(3) : a3;
  p.mask[3] = nc > 1 ? part(3) : a3;
  p.mask[4] = nt > 1 ? part(3) : a3;
  p.mask[5] = nt > 1 ? part(3) : a3;
  p.mask[6] = part(3);
  p.mask[7] = part(3);
  p.camera_mount_to_camera_guess = s.X;
  p.target_mount_to_target_guess = s.Y;
  p.camera_base_to_target_base_guess = s.B;
  if (r.chance(0.4)) { p.label_camera_mount_to_camera = "a"; p.label_target_mount_to_target = "b"; p.label_camera_base_to_target = "cc"; }
  const double w = pix ? 1 : r.logu(0.3, 100);
  std::vector<Correspondence2D3D::Set> obs;
  std::vector<Iso> meas;
  KinematicCalibrationResult q;
  auto full = [](const std::vector<int>& m, int n) { return int(std::set<int>(m.begin(), m.end()).size()) == n; };
  const bool useC = nc && !full(p.mask[0], nc * 4), useT = nt && !full(p.mask[1], nt * 4);
  c.nontrivial(hashIso(s.B, 10));
  if constexpr (std::is_same<P, KinematicCalibrationProblem2D3D>::value)
  {
    const double px = r.logu(0.02, 0.5);
    p.intr = s.k;
    for (std::size_t i = 0; i < s.view.size(); ++i)
    {
      KinObservation2D3D o;
      o.camera_chain_joints = s.qc[i];
      o.target_chain_joints = s.qt[i];
      o.correspondence_set = noisy(r, observe(s.k, s.view[i], s.t), px);
      if (r.chance(0.1)) dropSome(r, o.correspondence_set);
      obs.push_back(o.correspondence_set);
      p.observations.push_back(o);
    }
    q = optimize(p);
  }
  else
  {
    const double e = r.logu(1e-3, 2e-2);
    for (std::size_t i = 0; i < s.view.size(); ++i)
    {
      KinematicMeasurement o;
      o.camera_chain_joints = s.qc[i];
      o.target_chain_joints = s.qt[i];
      o.camera_to_target = mk(s.view[i].linear() * rot(unit(r) * e * r.uni(0.5, 1.5)), s.view[i].translation() + e * V3(r.gauss(), r.gauss(), r.gauss()));
      meas.push_back(o.camera_to_target);
      p.observations.push_back(o);
    }
    ceres::Solver::Options so;
    so.max_num_iterations = r.range(3, 30);
    q = optimize(p, w, so);
  }
  Named nm;
  std::set<Eigen::Index> masked;
  const char* ax[4] = { "_d", "_theta", "_r", "_alpha" };
  for (int b = 0; b < 2; ++b)
    for (int k = 0; k < (b ? nt : nc) * 4; ++k)
    {
      const int n = b ? nt : nc;
      if (std::count(p.mask[b].begin(), p.mask[b].end(), k)) masked.insert(nm.x.size());
      nm.num(cat(b ? "t" : "c", k % n, ax[k / n]), (b ? q.target_chain_dh_offsets : q.camera_chain_dh_offsets).data()[k]);
    }
  const Eigen::Index at = nm.x.size();
  const Iso T[3] = { q.camera_mount_to_camera, q.target_mount_to_target, q.camera_base_to_target_base };
  const std::string L[3] = { p.label_camera_mount_to_camera, p.label_target_mount_to_target, p.label_camera_base_to_target };
  for (int b = 0; b < 3; ++b)
  {
    const Eigen::Index o = nm.x.size();
    nm.pose(L[b], T[b]);
    for (int i = 0; i < 3; ++i)
    {
      if (std::count(p.mask[3 + 2 * b].begin(), p.mask[3 + 2 * b].end(), i)) masked.insert(o + i);
      if (std::count(p.mask[2 + 2 * b].begin(), p.mask[2 + 2 * b].end(), i)) masked.insert(o + 3 + i);
    }
  }
  // chains without joints are represented by placeholders of no variance
  CovarianceResult cov = q.covariance;
  std::set<std::string> holders;
  for (auto& sd : cov.standard_deviations)
    if (sd.names.first.find("placeholder") != std::string::npos)
    {
      holders.insert(sd.names.first);
      c.check(sd.value == 0, "kinematic-placeholder", cat(sd.names.first, " has a standard deviation of ", sd.value));
      c.count("placeholders of chains without joints");
    }
  if (!holders.empty())
  {
    std::vector<Eigen::Index> keep;
    std::vector<NamedParam> sd, cv, cr;
    for (std::size_t i = 0; i < cov.standard_deviations.size(); ++i)
      if (!holders.count(cov.standard_deviations[i].names.first)) { keep.push_back(Eigen::Index(i)); sd.push_back(cov.standard_deviations[i]); }
    for (auto& x : cov.covariances) if (!holders.count(x.names.first) && !holders.count(x.names.second)) cv.push_back(x);
    for (auto& x : cov.correlation_coeffs) if (!holders.count(x.names.first) && !holders.count(x.names.second)) cr.push_back(x);
    Mat a(keep.size(), keep.size()), b(keep.size(), keep.size());
    for (std::size_t i = 0; i < keep.size(); ++i)
      for (std::size_t j = 0; j < keep.size(); ++j) { a(i, j) = cov.covariance_matrix(keep[i], keep[j]); b(i, j) = cov.correlation_matrix(keep[i], keep[j]); }
    cov.covariance_matrix = a; cov.correlation_matrix = b;
    cov.standard_deviations = sd; cov.covariances = cv; cov.correlation_coeffs = cr;
  }
  std::string d = cat(pix ? "pixels, " : "poses, ", nc, "+", nt, " joints, ", masked.size(), " masked of ", nm.x.size());
  values(c, pix ? "kinematic" : "kinematic-pose", d, cov, nm, masked, [&](const Vec& x) {
    Mat oc = Eigen::Map<const Mat>(x.data(), nc, 4), ot = Eigen::Map<const Mat>(x.data() + nc * 4, nt, 4);
    Acc a;
    for (std::size_t i = 0; i < s.view.size(); ++i)
    {
      Iso v = kinView(s, poseAt(x, at), poseAt(x, at + 6), poseAt(x, at + 12), oc, ot, i);
      if (pix) a.add(s.k, v, obs[i]);
      else
      {
        a.add(V3((meas[i] * v.inverse()).translation()));
        a.v.push_back(w * rotDist(meas[i], v));
      }
    }
    if (useC) for (int i = 0; i < nc * 4; ++i) a.v.push_back(oc.data()[i] / p.camera_chain_offset_stdev);
    if (useT) for (int i = 0; i < nt * 4; ++i) a.v.push_back(ot.data()[i] / p.target_chain_offset_stdev);
    return a.get(); });
  threshold(c, q.covariance, d);
}

// the general interface on a linear problem whose information matrix is known
struct Lin : ceres::CostFunction
{
  Mat A;  // columns of all blocks side by side
  Lin(const Mat& a, const std::vector<int>& sizes) : A(a)
  {
    set_num_residuals(int(a.rows()));
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* x, double* r, double** J) const override
  {
    Vec v = Vec::Zero(A.rows());
    Eigen::Index o = 0;
    for (std::size_t b = 0; b < parameter_block_sizes().size(); ++b)
    {
      const int n = parameter_block_sizes()[b];
      v += A.middleCols(o, n) * Eigen::Map<const Vec>(x[b], n);
      if (J && J[b]) Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(J[b], A.rows(), n) = A.middleCols(o, n);
      o += n;
    }
    Eigen::Map<Vec>(r, A.rows()) = v;
    return true;
  }
};
template <typename F>
static void refused(Case& c, const std::string& key, const std::string& d, F f)
{
  bool thrown = false;
  try { f(); }
  catch (const std::exception&) { thrown = true; }
  c.check(thrown, key, d);
  c.count("wrong requests refused");
}
static void general(Case& c)
{
  Rng& r = c.rng;
  const int nb = r.range(1, 4);
  std::vector<int> size;
  int n = 0;
  for (int b = 0; b < nb; ++b) { size.push_back(r.range(1, 5)); n += size.back(); }
  Mat A(n + r.range(2, 10), n);
  for (Eigen::Index i = 0; i < A.size(); ++i) A.data()[i] = r.gauss();
  for (int j = 0; j < n; ++j) A.col(j) *= r.logu(0.1, 10);
  // the blocks live in one buffer, in shuffled places
  std::vector<double> buf(std::size_t(n) + 20, 0.5);
  std::vector<int> order;
  for (int b = 0; b < nb; ++b) order.push_back(b);
  r.shuffle(order);
  std::vector<double*> blk(static_cast<std::size_t>(nb));
  int o = 0;
  for (int b : order) { blk[std::size_t(b)] = buf.data() + o; o += size[std::size_t(b)] + 1; }
  ceres::Problem prob;
  prob.AddResidualBlock(new Lin(A, size), nullptr, blk);
  Mat full = sigma(A);
  std::vector<int> start{ 0 };
  for (int s : size) start.push_back(start.back() + s);
  std::map<const double*, std::vector<std::string>> names;
  std::map<const double*, std::vector<int>> masks;
  std::vector<const double*> sel;
  std::vector<int> selb;
  for (int b = 0; b < nb; ++b)
    if (r.chance(0.75) || (b == nb - 1 && sel.empty())) { sel.push_back(blk[std::size_t(b)]); selb.push_back(b); }
  for (std::size_t i = sel.size(); i > 1; --i)
  {
    std::size_t j = std::size_t(r.range(0, int(i) - 1));
    std::swap(sel[i - 1], sel[j]); std::swap(selb[i - 1], selb[j]);
  }
  std::map<std::string, int> col;  // expected: label -> column of A
  const int form = r.range(0, 3);  // which overload
  std::vector<int> used = selb;
  if (form < 2) { used.clear(); for (int b = 0; b < nb; ++b) used.push_back(b); }
  for (std::size_t i = 0; i < used.size(); ++i)
  {
    const int b = used[i];
    std::vector<std::string> l;
    std::vector<int> m;
    for (int k = 0; k < size[std::size_t(b)]; ++k)
    {
      const std::string nm = form == 0 || form == 2 ? cat("block", i, "_element", k) : cat("p", b, "_", k);
      l.push_back(nm);
      if (r.chance(0.25)) m.push_back(k);
      else col[nm] = start[std::size_t(b)] + k;
    }
    names[blk[std::size_t(b)]] = l;
    if (!m.empty() || r.chance(0.3)) masks[blk[std::size_t(b)]] = m;
  }
  if (form == 0)
  {  // generic names follow the order the problem holds its blocks in
    std::vector<double*> pb;
    prob.GetParameterBlocks(&pb);
    col.clear();
    for (std::size_t i = 0; i < pb.size(); ++i)
    {
      const int b = int(std::find(blk.begin(), blk.end(), pb[i]) - blk.begin());
      auto it = masks.find(pb[i]);
      for (int k = 0; k < size[std::size_t(b)]; ++k)
        if (it == masks.end() || !std::count(it->second.begin(), it->second.end(), k)) col[cat("block", i, "_element", k)] = start[std::size_t(b)] + k;
    }
  }
  if (r.chance(0.25)) for (auto& m : masks) if (!m.second.empty()) m.second.push_back(m.second[0]);
  std::string d = cat(nb, " blocks, ", n, " parameters, form ", form, ", ", col.size(), " reported");
  c.nontrivial(hashDouble(A(0, 0), 11));
  CovarianceResult q;
  if (form == 0) q = computeCovariance(prob, masks);
  if (form == 1) q = computeCovariance(prob, names, masks);
  if (form == 2) q = computeCovariance(prob, sel, masks);
  if (form == 3) q = computeCovariance(prob, sel, names, masks);
  std::set<std::string> want;
  for (auto& k : col) want.insert(k.first);
  std::map<std::string, Eigen::Index> at;
  if (structure(c, "general", d, q, want, at))
  {
    double worst = 0;
    for (auto& a : col)
      for (auto& b : col)
        worst = std::max(worst, std::abs(q.covariance_matrix(at[a.first], at[b.first]) - full(a.second, b.second)) / std::sqrt(full(a.second, a.second) * full(b.second, b.second)));
    c.near(worst, 0, 1e-6, "general-covariance", d);
    c.count("covariances compared with the information matrix");
  }
  threshold(c, q, d);
  // requests that do not fit the problem
  auto bad = names;
  const double* first = bad.begin()->first;
  switch (r.range(0, 4))
  {
    case 0: bad[first].push_back("extra"); refused(c, "label-count-accepted", d + ": a label too many", [&] { computeCovariance(prob, sel, bad, masks); }); break;
    case 1: bad[first].pop_back(); refused(c, "label-count-accepted", d + ": a label too few", [&] { form < 2 ? computeCovariance(prob, bad, masks) : computeCovariance(prob, sel, bad, masks); }); break;
    case 2: bad.erase(first); refused(c, "label-count-accepted", d + ": a block without labels", [&] { form < 2 ? computeCovariance(prob, bad, masks) : computeCovariance(prob, sel, bad, masks); }); break;
    case 3: { double other[3] = { 0, 0, 0 }; bad[other] = { "o" }; auto s2 = sel; s2.push_back(other); refused(c, "foreign-block-accepted", d, [&] { form < 2 ? computeCovariance(prob, s2, masks) : computeCovariance(prob, s2, bad, masks); }); break; }
    default: { double other = 0; bad[&other] = { "o" }; refused(c, "label-count-accepted", d + ": labels of a block not asked for", [&] { form < 2 ? computeCovariance(prob, bad, masks) : computeCovariance(prob, sel, bad, masks); }); break; }
  }
}
static void matrices(Case& c)
{
  Rng& r = c.rng;
  const int n = r.range(0, 9);
  Mat B(n, n + 2);
  for (Eigen::Index i = 0; i < B.size(); ++i) B.data()[i] = r.gauss();
  const bool wide = r.chance(0.4);
  for (int i = 0; i < n; ++i) B.row(i) *= wide ? r.logu(1e-11, 1e6) : r.logu(1e-4, 1e3);
  if (wide) c.count("matrices of very different deviations");
  std::set<int> zero;
  if (r.chance(0.5))
    for (int i = 0; i < n; ++i)
      if (r.chance(0.3)) { B.row(i).setZero(); zero.insert(i); }
  Mat S = B * B.transpose();
  std::vector<std::string> l;
  std::set<std::string> want;
  for (int i = 0; i < n; ++i) { l.push_back(cat("n", i)); want.insert(l.back()); }
  c.nontrivial(hashDouble(n ? S(0, 0) : 0, 12 + uint64_t(n)));
  auto q = computeCovarianceResults(S, l);
  std::string d = cat(n, " parameters, ", zero.size(), " without variance");
  std::map<std::string, Eigen::Index> at;
  c.check(q.covariance_matrix == S, "matrix-kept", d);
  if (structure(c, "matrix", d, q, want, at))
    for (int i = 0; i < n; ++i)
    {
      c.check(at[cat("n", i)] == i, "matrix-order", d);
      for (int j = 0; j < n; ++j)
        if (i != j && (zero.count(i) || zero.count(j))) c.check(q.correlation_matrix(i, j) == 0, "matrix-zero-variance", cat(d, ": correlation ", q.correlation_matrix(i, j)));
    }
  threshold(c, q, d);
  Mat R = computeCorrelationsFromCovariance(S);
  c.check(R == q.correlation_matrix, "matrix-correlations", d);
  if (n)
  {
    refused(c, "non-square-accepted", d, [&] { computeCorrelationsFromCovariance(Mat(S.topRows(n - 1))); });
    auto few = l;
    if (r.chance(0.5)) few.pop_back(); else few.push_back("one more");
    refused(c, "label-count-accepted", cat(d, ": ", few.size(), " labels"), [&] { computeCovarianceResults(S, few); });
  }
}

VH_CASE(C09)
{
  switch (c.index % 13)
  {
    case 0: return pnp(c, true);
    case 1: return pnp(c, false);
    case 2: return handeye<ExtrinsicHandEyeProblem2D3D>(c, "handeye2d", true);
    case 3: return handeye<ExtrinsicHandEyeProblem3D3D>(c, "handeye3d", false);
    case 4: return moving(c);
    case 5: return circle(c);
    case 6: return intrinsic(c);
    case 7: case 8: return kin<KinematicCalibrationProblem2D3D>(c, true);
    case 9: return kin<KinematicCalibrationProblemPose6D>(c, false);
    case 10: case 11: return general(c);
    case 12: return matrices(c);
  }
}
