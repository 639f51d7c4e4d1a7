// C25: independent calibrations and detections may run concurrently
#include "handeye.h"
#include "img.h"
#include "kin.h"
#include "multicam.h"
#include "opt.h"
#include <atomic>
#include <fstream>
#include <opencv2/imgcodecs.hpp>
#include <pluginlib/class_list_macros.h>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/image_utils.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/serialization/eigen.h>
#include <rct_optimizations/serialization/problems.h>
#include <rct_optimizations/serialization/types.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/projection.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace vh;
using namespace rct_optimizations;
using namespace rct_image_tools;

#ifdef VH_FLAVOUR_tsan
// Names the case in ThreadSanitizer's log
static std::atomic<unsigned long> g_case{0};
extern "C" void __tsan_on_report(void*)
{
  char b[40];
  const int n = std::snprintf(b, sizeof b, "VHCASE %lu\n", g_case.load());
  if (::write(2, b, std::size_t(n)) < 0) {}
}
#endif

// What a call gave, as numbers
using Out = std::vector<double>;
static void put(Out& b, double v) { b.push_back(v); }
static void put(Out& b, const Iso& p) { b.insert(b.end(), p.matrix().data(), p.matrix().data() + 16); }
template <typename D>
static void put(Out& b, const Eigen::DenseBase<D>& v)
{
  b.push_back(double(v.size()));
  for (Eigen::Index i = 0; i < v.rows(); ++i)
    for (Eigen::Index j = 0; j < v.cols(); ++j) b.push_back(v(i, j));
}
static void put(Out& b, const CameraIntrinsics& k) { b.insert(b.end(), k.values.begin(), k.values.end()); }
static void put(Out& b, const std::string& s)
{
  b.push_back(double(s.size()));
  for (char ch : s) b.push_back(double(static_cast<unsigned char>(ch)));
}
static void put(Out& b, const CovarianceResult& r) { put(b, r.covariance_matrix); put(b, r.correlation_matrix); put(b, r.toString()); }
static void put(Out& b, const Correspondence2D3D& k) { put(b, k.in_image); put(b, k.in_target); }
template <typename T, typename A>
static void put(Out& b, const std::vector<T, A>& v)
{
  b.push_back(double(v.size()));
  for (const auto& x : v) put(b, x);
}
static void put(Out& b, const cv::Mat& m)
{
  put(b, double(m.rows));
  put(b, double(m.cols));
  put(b, double(hashImg(m) >> 12));
}
static void put(Out& b, const TargetFeatures& f)
{
  put(b, double(f.size()));
  for (const auto& k : f) { put(b, double(k.first)); put(b, k.second); }
}

static std::vector<std::string> g_dirs;
struct Op
{
  std::string name;
  std::function<Out()> run;
  double tol = 0;   // 0: bit for bit
};
static Out guarded(const Op& o)
{
  try { return o.run(); }
  catch (const std::exception& e)
  {
    Out b = {-12345};
    put(b, std::string(typeid(e).name()));
    return b;
  }
}
static bool agree(const Out& a, const Out& b, double tol)
{
  if (a.size() != b.size()) return false;
  if (tol == 0) return a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(b[i]))) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
template <typename R>
static Out solved(const R& r, const std::vector<Iso>& poses)
{
  Out b;
  put(b, double(r.converged)); put(b, r.initial_cost_per_obs); put(b, r.final_cost_per_obs);
  for (const auto& p : poses) put(b, p);
  put(b, r.covariance);
  return b;
}
static std::vector<Iso> cat2(Iso a, const std::vector<Iso>& v)
{
  std::vector<Iso> o = {a};
  o.insert(o.end(), v.begin(), v.end());
  return o;
}

// Every factory makes one call on constant data of its own making; the data is shared by the threads
static void pnpOps(Rng& r, std::vector<Op>& ops)
{
  vh::Target t = randTarget(r, 8);
  CameraIntrinsics k = randIntr(r);
  Iso v = viewPose(r, t, 2, 3.2, 0.3, 0.7);
  auto p = std::make_shared<PnPProblem>();
  p->intr = k;
  p->correspondences = noisy(r, observe(k, v, t), 0.2);
  p->camera_to_target_guess = perturb(v, r, 0.1, 0.1 * t.size);
  ops.push_back({"pnp 2D", [p] { auto s = optimize(*p); return solved(s, {s.camera_to_target}); }});
  auto q = std::make_shared<PnPProblem3D>();
  q->correspondences = noisy(r, observe3(v, t), 0.01 * t.size);
  q->camera_to_target_guess = perturb(v, r, 0.1, 0.1 * t.size);
  ops.push_back({"pnp 3D", [q] { auto s = optimize(*q); return solved(s, {s.camera_to_target}); }});
  auto m = std::make_shared<MultiCameraPnPProblem>();
  for (int i = 0; i < 2; ++i)
  {
    m->intr.push_back(k);
    m->base_to_camera.push_back(i ? v : v * randPose(r, 0) * v.inverse() * v);
    m->image_observations.push_back(p->correspondences);
  }
  m->base_to_camera[1] = m->base_to_camera[0];
  m->base_to_target_guess = m->base_to_camera[0] * p->camera_to_target_guess;
  ops.push_back({"multi-camera pnp", [m] {
    auto s = optimize(*m);
    Out b;
    put(b, double(s.converged)); put(b, s.initial_cost_per_obs); put(b, s.final_cost_per_obs); put(b, s.base_to_target);
    return b;
  }});
  ops.push_back({"reprojection", [p] {
    std::vector<V3> pts;
    for (auto& c : p->correspondences) pts.push_back(c.in_target);
    Out b;
    for (auto& uv : getReprojections(p->camera_to_target_guess, p->intr, pts)) { put(b, uv.x); put(b, uv.y); }
    cv::Mat img(40, 40, CV_8UC3, cv::Scalar(0));
    drawReprojections({{3, 4}, {20, 20}}, 2, cv::Scalar(1, 2, 3), img);
    put(b, img);
    return b;
  }});
}
static void handEyeOps(Rng& r, std::vector<Op>& ops)
{
  HandEye h;
  for (int i = 0; i < 20 && !makeHandEye(r, h, r.range(0, 1), 7, 1); ++i) {}
  auto p = std::make_shared<ExtrinsicHandEyeProblem2D3D>();
  auto q = std::make_shared<ExtrinsicHandEyeProblem3D3D>();
  fillHandEye(h, *p);
  fillHandEye(h, *q);
  for (auto& o : p->observations) o.correspondence_set = noisy(r, o.correspondence_set, 0.2);
  p->camera_mount_to_camera_guess = q->camera_mount_to_camera_guess = perturb(h.X, r, 0.05, 0.03);
  p->target_mount_to_target_guess = q->target_mount_to_target_guess = perturb(h.Y, r, 0.05, 0.03);
  ops.push_back({"hand-eye 2D", [p] { auto s = optimize(*p); return solved(s, {s.camera_mount_to_camera, s.target_mount_to_target}); }});
  ops.push_back({"hand-eye 3D", [q] { auto s = optimize(*q); return solved(s, {s.camera_mount_to_camera, s.target_mount_to_target}); }});
  ops.push_back({"projection error", [p] {
    Out b;
    put(b, compute3DProjectionError(p->observations, p->intr, p->camera_mount_to_camera_guess, p->target_mount_to_target_guess));
    put(b, compute3DProjectionError(p->observations[0], p->intr, p->camera_mount_to_camera_guess, p->target_mount_to_target_guess));
    return b;
  }});
  ops.push_back({"intrinsic accuracy", [p] {
    Out b;
    auto s = measureIntrinsicCalibrationAccuracy(p->observations, p->intr, p->camera_mount_to_camera_guess, p->target_mount_to_target_guess, Iso::Identity(), 1e9);
    put(b, s.pos_error.first); put(b, s.pos_error.second); put(b, s.ang_error.first); put(b, s.ang_error.second);
    return b;
  }});
  ops.push_back({"virtual target difference", [p, h] {
    Out b;
    auto s = measureVirtualTargetDiff(p->observations[0].correspondence_set, p->intr, h.view[0], 1e9);
    put(b, s.t1_to_t2); put(b, s.positional_error); put(b, s.angular_error);
    return b;
  }});
  ops.push_back({"problem to YAML and back", [p] {
    const std::string text = YAML::Dump(YAML::Node(*p));
    const auto back = YAML::Load(text).as<ExtrinsicHandEyeProblem2D3D>();
    Out b;
    put(b, text); put(b, double(back == *p)); put(b, back.camera_mount_to_camera_guess); put(b, double(back.observations.size()));
    return b;
  }});
}
static void cameraOps(Rng& r, std::vector<Op>& ops)
{
  Rig g;
  makeRig(r, g, 2, 4, 1);
  Iso W = randPose(r, 0.4);
  std::vector<std::vector<Correspondence2D3D::Set>> obs(g.cam.size());
  for (std::size_t k = 0; k < g.cam.size(); ++k)
    for (std::size_t i = 0; i < g.tgt.size(); ++i) obs[k].push_back(noisy(r, shot(g, k, i), 0.2));
  std::vector<Iso> cg, wrist, tg;
  for (auto& q : g.cam) cg.push_back(perturb(q, r, 0.03, 0.02 * g.dist));
  for (auto& q : g.tgt) wrist.push_back(q * W.inverse());
  for (auto& q : g.tgt) tg.push_back(perturb(q, r, 0.03, 0.02 * g.dist));
  const Iso Wg = perturb(W, r, 0.03, 0.02 * g.dist);
  auto a = std::make_shared<ExtrinsicMultiStaticCameraMovingTargetProblem>();
  a->intr = g.k; a->wrist_poses.assign(g.cam.size(), wrist); a->image_observations = obs; a->base_to_camera_guess = cg; a->wrist_to_target_guess = Wg;
  ops.push_back({"static cameras, moving target", [a] { auto s = optimize(*a); return solved(s, cat2(s.wrist_to_target, s.base_to_camera)); }});
  auto b = std::make_shared<ExtrinsicMultiStaticCameraOnlyProblem>();
  b->fix_first_camera = r.chance(0.5); b->intr = g.k; b->image_observations = obs; b->base_to_camera_guess = cg; b->base_to_target_guess = tg;
  ops.push_back({"static cameras only", [b] { auto s = optimize(*b); return solved(s, cat2(s.base_to_target[0], s.base_to_camera)); }});
  auto d = std::make_shared<ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem>();
  d->intr = g.k; d->wrist_poses = wrist; d->image_observations = obs; d->base_to_camera_guess = g.cam; d->wrist_to_target_guess = Wg;
  ops.push_back({"static cameras, single correction", [d] { auto s = optimize(*d); return solved(s, cat2(s.wrist_to_target, s.base_to_camera)); }});
}
static void kinematicOps(Rng& r, std::vector<Op>& ops)
{
  Kin s;
  do
  {
    s = Kin();
    s.t = gridTarget(r, 3, 3, r.uni(0.05, 0.15), false);
    s.k = randIntr(r);
    s.cc = randChain(r, 1);
    s.tc = randChain(r, 2);
    s.cb = s.tb = Iso::Identity();
    s.oc = Eigen::MatrixXd::Zero(1, 4);
    s.ot = Eigen::MatrixXd::Zero(2, 4);
    for (int i = 0; i < 8; ++i) s.ot.data()[i] = r.uni(-3e-3, 3e-3);
    s.X = randPose(r, 0.2);
    s.Y = randPose(r, 0.2);
  } while (!makeKin(r, s, 6));
  auto p = std::make_shared<KinematicCalibrationProblem2D3D>(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  auto q = std::make_shared<KinematicCalibrationProblemPose6D>(build(s.cc, s.cb, "c"), build(s.tc, s.tb, "t"));
  p->intr = s.k;
  for (std::size_t i = 0; i < s.view.size(); ++i)
  {
    KinObservation2D3D o;
    o.camera_chain_joints = s.qc[i];
    o.target_chain_joints = s.qt[i];
    o.correspondence_set = noisy(r, observe(s.k, s.view[i], s.t), 0.2);
    p->observations.push_back(o);
    KinematicMeasurement m;
    m.camera_chain_joints = s.qc[i];
    m.target_chain_joints = s.qt[i];
    m.camera_to_target = perturb(s.view[i], r, 1e-3, 1e-3);
    q->observations.push_back(m);
  }
  const auto rest = [&](auto& x) {
    x.camera_chain_offset_stdev = x.target_chain_offset_stdev = 1e-3;
    x.mask[0] = {0, 1, 2, 3};
    for (int b : {2, 3, 6, 7}) x.mask[std::size_t(b)] = {0, 1, 2};
    x.camera_mount_to_camera_guess = s.X;
    x.target_mount_to_target_guess = perturb(s.Y, r, 0.02, 0.02 * s.t.size);
    x.camera_base_to_target_base_guess = s.B;
  };
  rest(*p);
  rest(*q);
  const auto out = [](const auto& s2) {
    Out b;
    put(b, double(s2.converged));
    put(b, s2.camera_mount_to_camera); put(b, s2.target_mount_to_target); put(b, s2.camera_base_to_target_base);
    put(b, s2.target_chain_dh_offsets); put(b, s2.camera_chain_dh_offsets);
    put(b, double(s2.covariance.standard_deviations.size()));
    return b;
  };
  // (solved by several threads already, whose partial sums are added in any order)
  ops.push_back({"kinematic 2D", [p, out] { return out(optimize(*p)); }, 1e-5});
  ops.push_back({"kinematic 6D", [q, out] { return out(optimize(*q)); }, 1e-5});
  auto ch = std::make_shared<DHChain>(build(s.tc, randPose(r, 1), "t"));
  auto qt = std::make_shared<std::vector<Eigen::VectorXd>>(s.qt);
  const Eigen::MatrixX4d off = s.ot;
  ops.push_back({"forward kinematics", [ch, qt, off] {
    Out b;
    for (const auto& x : *qt)
    {
      put(b, ch->getFK<double>(x));
      put(b, ch->getFK<double>(x, off));
      put(b, ch->getRelativeTransform(1, x[1]));
    }
    put(b, ch->getDHTable());
    const DHChain moved(*ch, off);
    put(b, moved.getFK<double>((*qt)[0]));
    put(b, double(ch->getJointTypes().size() + ch->dof()));
    for (const auto& l : ch->getParamLabels()) for (const auto& n : l) put(b, n);
    return b;
  }});
  ops.push_back({"random joint poses", [ch] {
    Out b;
    bool ok = true;
    for (int i = 0; i < 50; ++i)
    {
      const Eigen::VectorXd x = ch->createUniformlyRandomPose();
      ok = ok && x.size() == 2 && x.allFinite() && x.cwiseAbs().maxCoeff() <= M_PI;
    }
    put(b, double(ok));
    return b;
  }});
}
static void smallOps(Rng& r, std::vector<Op>& ops)
{
  auto p = std::make_shared<CircleFitProblem>();
  const double R = r.logu(0.5, 50);
  for (int i = 0; i < 15; ++i)
  {
    const double t = 2 * M_PI * (i + r.u01()) / 15;
    p->observations.push_back(V2(R * std::cos(t), R * std::sin(t)) * (1 + 0.01 * r.gauss()));
  }
  p->x_center_initial = 0.1 * R; p->y_center_initial = -0.1 * R; p->radius_initial = 0.8 * R;
  ops.push_back({"circle fit", [p] {
    auto s = optimize(*p);
    Out b;
    put(b, double(s.converged)); put(b, s.x_center); put(b, s.y_center); put(b, s.radius); put(b, s.final_cost_per_obs); put(b, s.covariance);
    return b;
  }});
  vh::Target t = gridTarget(r, 5, 6, 0.1, false);
  CameraIntrinsics k = randIntr(r);
  Iso v = viewPose(r, t, 2, 3, 0.3, 0.7);
  auto s = std::make_shared<Correspondence2D3D::Set>(noisy(r, observe(k, v, t), 0.5));
  const unsigned seed = unsigned(r.next());
  ops.push_back({"homography", [s, seed] {
    Out b;
    const RandomCorrespondenceSampler rs(s->size(), 12, seed);
    put(b, calculateHomographyError(*s, rs));
    const GridCorrespondenceSampler gs(5, 6);
    put(b, calculateHomographyError(*s, gs));
    for (auto i : rs.getSampleCorrespondenceIndices()) put(b, double(i));
    return b;
  }});
  auto set = std::make_shared<std::vector<PnPProblem>>();
  auto set3 = std::make_shared<std::vector<PnPProblem3D>>();
  for (int i = 0; i < 4; ++i)
  {
    PnPProblem a;
    a.intr = k;
    a.correspondences = noisy(r, observe(k, v, t), 0.5);
    a.camera_to_target_guess = v;
    set->push_back(a);
    PnPProblem3D d;
    d.correspondences = noisy(r, observe3(v, t), 0.01);
    d.camera_to_target_guess = v;
    set3->push_back(d);
  }
  ops.push_back({"noise statistics", [set, set3] {
    Out b;
    for (const auto& n : {qualifyNoise2D(*set), qualifyNoise3D(*set3)})
    {
      put(b, n.p_stat.mean); put(b, n.p_stat.stdev); put(b, n.q_stat.mean.coeffs()); put(b, n.q_stat.stdev);
    }
    return b;
  }});
}
static void intrinsicOps(Rng& r, std::vector<Op>& ops)
{
  CameraIntrinsics k;
  k.fx() = r.uni(450, 900); k.fy() = k.fx(); k.cx() = 320; k.cy() = 240;
  std::array<double, 5> D = {{-0.1, 0.05, 0.001, -0.001, 0.01}};
  vh::Target t = gridTarget(r, 5, 6, 0.04, false);
  auto p = std::make_shared<IntrinsicEstimationProblem>();
  p->use_extrinsic_guesses = false;
  for (int i = 0; i < 6; ++i)
  {
    const double az = 2 * M_PI * (i + r.u01()) / 6;
    Eigen::Matrix3d Rm = rot(V3(std::cos(az), std::sin(az), 0) * 0.4) * rot(V3(M_PI, 0, 0));
    Iso v = mk(Rm, V3(0, 0, 1.6 * t.size) - Rm * centroid(t.pts));
    Correspondence2D3D::Set s;
    for (auto& q : t.pts) s.push_back(Correspondence2D3D(distort(k, D, v * q), q));
    p->image_observations.push_back(noisy(r, s, 0.1));
  }
  p->intrinsics_guess = k;
  p->intrinsics_guess.fx() *= 1.02;
  ops.push_back({"intrinsic calibration", [p] {
    auto s = optimize(*p);
    Out b;
    put(b, double(s.converged)); put(b, s.intrinsics); for (double x : s.distortions) put(b, x); put(b, s.final_cost_per_obs); put(b, s.covariance);
    return b;
  }});
}
static cv::Mat dots(Rng& r, int rows, int cols)
{
  const double step = r.uni(28, 40), rad = step * r.uni(0.22, 0.28);
  cv::Mat m(int(step * (rows + 1)), int(step * (cols + 1)), CV_8UC1, cv::Scalar(r.range(200, 255)));
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
    {
      const double k = i == rows - 1 && j == 0 ? 1.5 : 1;
      paintEllipse(m, (j + 1) * step, (i + 1) * step, rad * k, rad * k, 0, 30, 4);
    }
  return toBgr(m);
}
template <typename F>
static Out find(const F& f, const cv::Mat& img, bool drawing)
{
  Out b;
  const TargetFeatures ft = f.findTargetFeatures(img);
  put(b, ft);
  put(b, f.target().createCorrespondences(ft));
  const cv::Mat d = f.drawTargetFeatures(img, ft);
  if (drawing) put(b, d);   // (keypoints are drawn in colours of OpenCV's own random generator)
  return b;
}
static void imageOps(Rng& r, std::vector<Op>& ops)
{
  const int rows = r.range(3, 5), cols = r.range(3, 5);
  auto cg = std::make_shared<const ModifiedCircleGridTargetFinder>(ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), 0.05));
  auto img = std::make_shared<const cv::Mat>(dots(r, rows, cols));
  ops.push_back({"circle grid finder", [cg, img] { return find(*cg, *img, false); }});
  ops.push_back({"circle detector", [img] {
    CircleDetectorParams pr;
    Out b;
    std::vector<cv::KeyPoint> k;
    CircleDetector::create(pr)->detect(*img, k);
    for (auto& q : k) { put(b, q.pt.x); put(b, q.pt.y); put(b, q.size); }
    return b;
  }});
  const int d1 = r.range(0, 16);
  auto chT = std::make_shared<const CharucoGridTarget>(r.range(3, 5), r.range(3, 5), 0.04f, 0.03f, d1);
  auto ch = std::make_shared<const CharucoGridBoardTargetFinder>(*chT);
  cv::Mat print;
  chT->board->draw(cv::Size(300, 300), print, 15);
  auto chImg = std::make_shared<const cv::Mat>(toBgr(print));
  ops.push_back({"ChArUco finder", [ch, chImg] { return find(*ch, *chImg, true); }});
  auto arT = std::make_shared<const ArucoGridTarget>(r.range(2, 3), r.range(2, 3), 0.04f, 0.01f, r.range(0, 16));
  auto ar = std::make_shared<const ArucoGridBoardTargetFinder>(*arT);
  cv::Mat print2;
  arT->board->draw(cv::Size(300, 300), print2, 20);
  auto arImg = std::make_shared<const cv::Mat>(toBgr(print2));
  ops.push_back({"ArUco finder", [ar, arImg] { return find(*ar, *arImg, true); }});
  ops.push_back({"targets", [rows, cols, d1] {
    Out b;
    put(b, ModifiedCircleGridTarget(unsigned(rows), unsigned(cols), 0.02).createPoints());
    const CharucoGridTarget c(4, 3, 0.05f, 0.02f, d1);
    for (auto& k : c.points) put(b, k.second);
    const ArucoGridTarget a(3, 2, 0.05f, 0.02f, d1);
    for (auto& k : a.points) put(b, k.second);
    put(b, double(a == ArucoGridTarget(3, 2, 0.05f, 0.02f, d1)) + double(c == CharucoGridTarget(4, 3, 0.05f, 0.02f, d1)));
    return b;
  }});
  // data sets, parameter files and plugins
  static int n = 0;
  const std::string dir = cat(scratch(), "/t", n++);
  g_dirs.push_back(dir);
  rct_ros_tools::ExtrinsicDataSet ds;
  for (int i = 0; i < 2; ++i) { ds.images.push_back(*img); ds.tool_poses.push_back(randPose(r, 1)); }
  mkdir(dir.c_str(), 0755);
  rct_ros_tools::saveToDirectory(dir, ds);
  ops.push_back({"data set", [dir] {
    Out b;
    auto d = rct_ros_tools::parseFromFile(dir + "/data.yaml");
    put(b, double(bool(d)));
    if (d)
      for (std::size_t i = 0; i < d->images.size(); ++i) { put(b, d->images[i]); put(b, d->tool_poses[i]); }
    return b;
  }});
  const Iso pose = randPose(r, 1);
  { std::ofstream o(dir + "/pose.yaml"); o << YAML::Dump(YAML::Node(pose)); }
  ops.push_back({"pose file", [dir] { Out b; put(b, rct_ros_tools::loadPose(dir + "/pose.yaml")); return b; }});
  ops.push_back({"plugin", [rows, cols, img] {
    auto p = pluginlib_stub::create<rct_ros_tools::TargetFinderPlugin>("rct_ros_tools::ModifiedCircleGridTargetFinderPlugin");
    p->init(YAML::Load(cat("{rows: ", rows, ", cols: ", cols, ", spacing: 0.05}")));
    return find(*p, *img, false);
  }});
}
static void removeTree(const std::string& d)
{
  if (d.compare(0, scratch().size(), scratch()) != 0 || d.size() <= scratch().size() + 2) return;
  const std::string cmd = "rm -rf '" + d + "'";
  if (std::system(cmd.c_str())) {}
}

VH_CASE(C25)
{
  Rng& r = c.rng;
#ifdef VH_FLAVOUR_tsan
  g_case = c.index;
  cv::setNumThreads(0);   // OpenCV's own thread pool is not instrumented
#endif
  std::vector<Op> ops;
  const int family = int(c.index % 8);
  switch (family)
  {
    case 0: pnpOps(r, ops); break;
    case 1: handEyeOps(r, ops); break;
    case 2: cameraOps(r, ops); break;
    case 3: kinematicOps(r, ops); break;
    case 4: smallOps(r, ops); intrinsicOps(r, ops); break;
    case 5: imageOps(r, ops); break;
    default:
    {
      // some of everything
      std::vector<Op> all;
      pnpOps(r, all); handEyeOps(r, all); cameraOps(r, all); kinematicOps(r, all); smallOps(r, all); intrinsicOps(r, all); imageOps(r, all);
      for (int i = 0; i < 6; ++i) { ops.push_back(all[std::size_t(r.range(0, int(all.size()) - 1))]); }
    }
  }
  // the schedule: who does what in which order, with what pauses
  const int nt = r.range(2, 5);
  struct Step { std::size_t op; int pause; };
  std::vector<std::vector<Step>> plan(static_cast<std::size_t>(nt));
  const bool together = r.chance(0.5);   // all do the same at the same time
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < ops.size(); ++i) order.push_back(i);
  r.shuffle(order);
  uint64_t h = uint64_t(family);
  for (auto& p : plan)
  {
    if (!together) r.shuffle(order);
    for (std::size_t i : order)
    {
      p.push_back({i, r.range(0, 3) ? 0 : r.range(1, 300)});
      h = hashBytes(&p.back().op, sizeof(std::size_t), h);
    }
  }
  std::vector<std::vector<Out>> got(static_cast<std::size_t>(nt));
  std::vector<std::thread> th;
  std::atomic<int> waiting{0};
  std::atomic<long> clock{0};
  std::vector<std::vector<long>> when(static_cast<std::size_t>(nt));
  for (int i = 0; i < nt; ++i)
    th.emplace_back([&, i] {
      auto& mine = got[std::size_t(i)];
      auto& w = when[std::size_t(i)];
      ++waiting;
      while (waiting < nt) {}
      for (const Step& s : plan[std::size_t(i)])
      {
        if (s.pause) usleep(useconds_t(s.pause));
        w.push_back(clock.fetch_add(1, std::memory_order_relaxed));
        mine.push_back(guarded(ops[s.op]));
        w.push_back(clock.fetch_add(1, std::memory_order_relaxed));
      }
    });
  for (auto& t : th) t.join();
  // how the calls actually overlapped
  long pairs = 0;
  for (int i = 0; i < nt; ++i)
    for (int j = i + 1; j < nt; ++j)
      for (std::size_t a = 0; a + 1 < when[std::size_t(i)].size(); a += 2)
        for (std::size_t b = 0; b + 1 < when[std::size_t(j)].size(); b += 2)
          if (when[std::size_t(i)][a] < when[std::size_t(j)][b + 1] && when[std::size_t(j)][b] < when[std::size_t(i)][a + 1]) ++pairs;
  c.count("pairs of calls that overlapped", double(pairs));
  for (auto& w : when)
    for (long x : w) h = hashBytes(&x, sizeof x, h);
  c.nontrivial(h);   // one interleaving of calls
  // each alone
  for (std::size_t o = 0; o < ops.size(); ++o)
  {
    const Out alone = guarded(ops[o]);
    if (!alone.empty() && alone[0] == -12345) c.count("refused: " + ops[o].name);
    c.count("alone: " + ops[o].name);
    for (int i = 0; i < nt; ++i)
      for (std::size_t s = 0; s < plan[std::size_t(i)].size(); ++s)
        if (plan[std::size_t(i)][s].op == o)
        {
          c.check(agree(got[std::size_t(i)][s], alone, ops[o].tol), "other result: " + ops[o].name, cat(ops[o].name, " gave another result in thread ", i, " of ", nt, " than alone"));
          c.count("concurrent results compared");
        }
  }
  c.sample(cat(nt, " threads, ", ops.size(), " kinds of calls each, ", pairs, " overlapping pairs"));
  for (auto& d : g_dirs) removeTree(d);
  g_dirs.clear();
}
