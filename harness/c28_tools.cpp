// C28: the stand-alone calibration tools report the calibration of the data they were pointed at
#include "img.h"
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/calib3d.hpp>
#include <opencv2/imgcodecs.hpp>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/projection.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
using namespace rct_image_tools;
using namespace rct_optimizations;
extern char** environ;

// ---- running a tool
struct Shown
{
  std::string window;
  cv::Mat img;
};
struct Run
{
  int rc = -1;         // exit status, or 1000 + signal, or 2000: did not end
  std::string out, err;
  std::vector<Shown> shown;
};
static std::string slurp(const std::string& p)
{
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
struct Params
{
  std::vector<std::array<std::string, 3>> v;
  void d(const std::string& k, double x) { v.push_back({ k, "d", cat(x) }); }
  void i(const std::string& k, int x) { v.push_back({ k, "i", cat(x) }); }
  void b(const std::string& k, bool x) { v.push_back({ k, "b", x ? "1" : "0" }); }
  void s(const std::string& k, const std::string& x) { v.push_back({ k, "s", x }); }
  void pose(const std::string& k, const Iso& p)
  {
    Eigen::Quaterniond q(p.linear());
    d(k + "/x", p.translation().x()); d(k + "/y", p.translation().y()); d(k + "/z", p.translation().z());
    d(k + "/qx", q.x()); d(k + "/qy", q.y()); d(k + "/qz", q.z()); d(k + "/qw", q.w());
  }
  void intr(const std::string& k, const CameraIntrinsics& c)
  {
    d(k + "/fx", c.values[0]); d(k + "/fy", c.values[1]); d(k + "/cx", c.values[2]); d(k + "/cy", c.values[3]);
  }
  // everything of that name (and below it) goes
  void drop(const std::string& k)
  {
    v.erase(std::remove_if(v.begin(), v.end(), [&](const std::array<std::string, 3>& a) { return a[0] == k || a[0].compare(0, k.size() + 1, k + "/") == 0; }), v.end());
  }
  void set(const std::string& k, const std::string& value)
  {
    for (auto& a : v)
      if (a[0] == k) a[2] = value;
  }
};
static std::string g_dir;   // of this case
static Run run(const std::string& tool, const Params& p)
{
  const std::string pf = g_dir + "/params", sf = g_dir + "/shown", of = g_dir + "/out", ef = g_dir + "/err";
  {
    std::ofstream f(pf);
    for (auto& a : p.v) f << a[0] << ' ' << a[1] << ' ' << a[2] << '\n';
  }
  ::unlink(sf.c_str());
  std::vector<std::string> ev = { "VH_PARAMS=" + pf, "VH_SHOWN=" + sf };
  for (char** e = environ; *e; ++e) ev.push_back(*e);
  std::vector<char*> envp;
  for (auto& e : ev) envp.push_back(&e[0]);
  envp.push_back(nullptr);
  std::string exe = std::string(VH_TOOLS) + "/tool_" + tool;
  char* argv[] = { &exe[0], nullptr };
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  pid_t pid = 0;
  const int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, argv, envp.data());
  posix_spawn_file_actions_destroy(&fa);
  if (rc) { std::fprintf(stderr, "cannot start %s: %s\n", exe.c_str(), std::strerror(rc)); std::abort(); }
  Run r;
  int st = 0;
  bool done = false;
  for (int k = 0; k < 60000 && !done; ++k)
  {
    if (waitpid(pid, &st, WNOHANG) == pid) done = true;
    else ::usleep(3000);
  }
  if (!done)
  {
    ::kill(pid, SIGKILL);
    waitpid(pid, &st, 0);
    r.rc = 2000;
  }
  else r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.out = slurp(of);
  r.err = slurp(ef);
  if (std::FILE* f = std::fopen(sf.c_str(), "rb"))
  {
    int32_t h[4];
    while (std::fread(h, sizeof h, 1, f) == 1)
    {
      Shown s;
      s.window.resize(std::size_t(h[0]));
      if (std::fread(&s.window[0], 1, s.window.size(), f) != s.window.size()) break;
      s.img.create(h[1], h[2], h[3]);
      if (std::fread(s.img.data, s.img.elemSize(), s.img.total(), f) != s.img.total()) break;
      r.shown.push_back(s);
    }
    std::fclose(f);
    ::unlink(sf.c_str());
  }
  return r;
}
static std::string tail(const std::string& s, std::size_t n = 700) { return s.size() > n ? "..." + s.substr(s.size() - n) : s; }
// A sanitizer's report begins with a line that says so
static std::string report(const std::string& err)
{
  std::size_t k = err.find("ERROR: AddressSanitizer");
  if (k == std::string::npos) k = err.find("runtime error:");
  if (k == std::string::npos) k = err.find("Assertion");
  return k == std::string::npos ? tail(err) : err.substr(k > 120 ? k - 120 : 0, 900);
}

// ---- what the tools print
static std::vector<double> numbersAfter(const std::string& text, const std::string& title, std::size_t n, std::size_t* at = nullptr)
{
  std::vector<double> v;
  std::size_t k = text.find(title, at ? *at : 0);
  if (k == std::string::npos) return v;
  k += title.size();
  const char* p = text.c_str() + k;
  while (v.size() < n && *p)
  {
    const bool starts = std::strchr("+-0123456789.", *p) || !std::strncmp(p, "nan", 3) || !std::strncmp(p, "inf", 3);
    if (!starts) { ++p; continue; }
    char* e = nullptr;
    const double d = std::strtod(p, &e);
    if (e == p) { ++p; continue; }
    v.push_back(d);
    p = e;
  }
  if (at) *at = std::size_t(p - text.c_str());
  return v;
}
static void sameNumbers(Case& c, const std::vector<double>& got, const std::vector<double>& want, double rel, double abs, const std::string& key, const std::string& d)
{
  if (!c.check(got.size() == want.size(), key, cat(d, ": ", got.size(), " numbers of ", want.size()))) return;
  for (std::size_t i = 0; i < got.size(); ++i)
  {
    const bool ok = std::abs(got[i] - want[i]) <= rel * std::abs(want[i]) + abs || (std::isnan(got[i]) && std::isnan(want[i]));
    if (!c.check(ok, key, cat(d, ": number ", i, " is ", got[i], ", not ", want[i]))) return;
  }
}
static std::vector<double> flat(const Iso& p)
{
  std::vector<double> v;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) v.push_back(p.matrix()(i, j));
  return v;
}
// The 4x4 matrix printed under the title that begins a line, from *at on
static bool samePose(Case& c, const std::string& text, const std::string& title, const Iso& want, const std::string& key, const std::string& d, std::size_t* at = nullptr, Iso* got = nullptr)
{
  std::vector<double> v = numbersAfter(text, "\n" + title + ":\n", 16, at);
  const int before = c.fails;
  sameNumbers(c, v, flat(want), 1e-4, 1e-5, key, cat(d, ": ", title));
  if (got && v.size() == 16)
    for (int i = 0; i < 16; ++i) (*got).matrix()(i / 4, i % 4) = v[std::size_t(i)];
  return c.fails == before;
}
static void sameCosts(Case& c, const std::string& text, bool converged, double a, double b, const std::string& key, const std::string& d, std::size_t* at = nullptr)
{
  std::vector<double> v = numbersAfter(text, "Did converge?:", 1, at), w = numbersAfter(text, "Initial cost?:", 1, at), x = numbersAfter(text, "Final cost?:", 1, at);
  v.insert(v.end(), w.begin(), w.end());
  v.insert(v.end(), x.begin(), x.end());
  sameNumbers(c, v, { double(converged), std::sqrt(a), std::sqrt(b) }, 1e-3, 1e-7, key, d + ": convergence and costs");
}

// ---- scenes
struct Scene
{
  bool charuco = false;
  int rows = 0, cols = 0;
  double s = 0, dot = 0, big = 0;       // circles: spacing, radii; ChArUco: square, marker
  int dict = 0;
  std::unique_ptr<TargetFinder> finder;
  vh::Target t;                         // points, for view poses
  cv::Mat board;                        // ChArUco: the print
  CameraIntrinsics k;
  double side() const { return s * std::max(rows, cols); }
};
static Scene makeScene(Rng& r, bool charuco)
{
  Scene S;
  S.charuco = charuco;
  S.k.fx() = r.uni(520, 800);
  S.k.fy() = S.k.fx() * r.uni(0.96, 1.04);
  S.k.cx() = r.uni(300, 340);
  S.k.cy() = r.uni(225, 255);
  if (charuco)
  {
    S.rows = r.range(5, 7), S.cols = r.range(5, 7);
    S.s = float(r.uni(0.02, 0.1));
    S.dot = float(S.s * 0.75);
    S.dict = cv::aruco::DICT_5X5_250;
    CharucoGridTarget t(S.rows, S.cols, float(S.s), float(S.dot), S.dict);
    S.finder.reset(new CharucoGridBoardTargetFinder(t));
    cv::Mat g;
    t.board->draw(cv::Size(S.cols * 60, S.rows * 60), g, 0, 1);
    S.board = g;
    for (int i = 0; i <= S.rows; ++i)
      for (int j = 0; j <= S.cols; ++j) S.t.pts.push_back(V3(j * S.s, i * S.s, 0));
    S.t.size = S.side();
  }
  else
  {
    S.rows = r.range(4, 6), S.cols = r.range(4, 7);
    S.s = r.uni(0.02, 0.1);
    S.dot = 0.2, S.big = 0.4;
    S.finder.reset(new ModifiedCircleGridTargetFinder(ModifiedCircleGridTarget(unsigned(S.rows), unsigned(S.cols), S.s)));
    S.t = gridTarget(r, S.rows, S.cols, S.s, true);
  }
  return S;
}
static void finderParams(const Scene& S, Params& p)
{
  const std::string k = "target_finder/";
  p.i(k + "rows", S.rows);
  p.i(k + "cols", S.cols);
  if (S.charuco)
  {
    p.s(k + "type", "rct_ros_tools::CharucoGridTargetFinderPlugin");
    p.d(k + "chessboard_dim", S.s);
    p.d(k + "aruco_marker_dim", S.dot);
    p.i(k + "dictionary", S.dict);
  }
  else
  {
    p.s(k + "type", "rct_ros_tools::ModifiedCircleGridTargetFinderPlugin");
    p.d(k + "spacing", S.s);
  }
}
// A pose in which the camera sees the target
static Iso look(Rng& r, const Scene& S)
{
  // (dots 34 to 50 pixels apart, the ChArUco board filling much of the picture; tilts the finders are made for)
  const double n = std::max(S.rows, S.cols) - 1, lo = S.charuco ? 1.2 : S.k.fx() / (50 * n), hi = S.charuco ? 1.8 : S.k.fx() / (34 * n);
  Iso p = viewPose(r, S.t, lo, hi, 0.08, S.charuco ? 0.7 : 0.45);
  if (S.charuco)
  {
    // printed side: x right, y down, z away from the camera
    V3 m = centroid(S.t.pts);
    const V3 at = p * m;
    p.linear() = p.linear() * rot(V3(M_PI, 0, 0));
    p.translation() = at - p.linear() * m;
  }
  return p;
}
enum class Kind { plain, blank, hidden, warped };
static cv::Mat shoot(Rng& r, const Scene& S, const CameraIntrinsics& k, const Iso& pose, Kind kind, int tag)
{
  const int bg = 235;
  cv::Mat img(480, 640, CV_8UC1, cv::Scalar(bg));
  if (kind != Kind::blank)
  {
    Eigen::Matrix3d K, P;
    K << k.fx(), 0, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
    P << pose.linear().col(0), pose.linear().col(1), pose.translation();
    const Eigen::Matrix3d H = K * P, I = H.inverse();
    if (S.charuco)
    {
      Eigen::Matrix3d M;   // pixel of the print to meters
      M << S.s / 60, 0, 0.5 * S.s / 60, 0, S.s / 60, 0.5 * S.s / 60, 0, 0, 1;
      const Eigen::Matrix3d G = H * M;
      cv::Mat g(3, 3, CV_64F), w;
      for (int i = 0; i < 9; ++i) g.at<double>(i / 3, i % 3) = G(i / 3, i % 3);
      cv::Mat src = S.board;
      if (kind == Kind::hidden)
      {
        src = src.clone();
        src(cv::Rect(0, 0, src.cols, src.rows / 2)).setTo(255);   // half of it covered
      }
      cv::warpPerspective(src, img, g, img.size(), cv::INTER_LINEAR, cv::BORDER_CONSTANT, cv::Scalar(255));
    }
    else
    {
      const int skip = kind == Kind::hidden ? r.range(0, S.rows * S.cols - 1) : -1;
      for (int i = 0; i < S.rows; ++i)
        for (int j = 0; j < S.cols; ++j)
        {
          if (i * S.cols + j == skip) continue;
          const V2 p(j * S.s, (S.rows - 1 - i) * S.s);
          const double R = S.s * (i == S.rows - 1 && j == 0 ? S.big : S.dot);
          double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
          for (int a = 0; a < 24; ++a)
          {
            V3 q = H * V3(p.x() + R * std::cos(a * M_PI / 12), p.y() + R * std::sin(a * M_PI / 12), 1);
            const double x = q.x() / q.z(), y = q.y() / q.z();
            x0 = std::min(x0, x), x1 = std::max(x1, x), y0 = std::min(y0, y), y1 = std::max(y1, y);
          }
          if (x1 < -5 || y1 < -5 || x0 > 645 || y0 > 485) continue;
          paint(img, x0 - 1, y0 - 1, x1 + 1, y1 + 1, 20, 4, [=](double x, double y) {
            V3 q = I * V3(x, y, 1);
            return (q.head<2>() / q.z() - p).squaredNorm() <= R * R;
          });
        }
    }
    if (kind == Kind::warped)
    {
      // seen through a bent mirror: no plane looks like that
      cv::Mat mx(img.size(), CV_32F), my(img.size(), CV_32F), out;
      const double a = r.uni(5, 7), ph = r.uni(0, 6.28), len = r.uni(230, 320);
      for (int y = 0; y < img.rows; ++y)
        for (int x = 0; x < img.cols; ++x)
        {
          mx.at<float>(y, x) = float(x + a * std::sin(2 * M_PI * y / len + ph));
          my.at<float>(y, x) = float(y + a * std::sin(2 * M_PI * x / len + 2 * ph));
        }
      cv::remap(img, out, mx, my, cv::INTER_LINEAR, cv::BORDER_REPLICATE);
      img = out;
    }
  }
  // a number in the corner by which the picture is known, too faint for any finder
  for (int b = 0; b < 12; ++b) img.at<uchar>(0, b) = uchar((tag >> b) & 1 ? 251 : 255);
  return toBgr(img);
}
static int tagOf(const cv::Mat& m)
{
  if (m.type() != CV_8UC3 || m.cols < 12) return -1;
  int t = 0;
  for (int b = 0; b < 12; ++b)
  {
    const cv::Vec3b v = m.at<cv::Vec3b>(0, b);
    if (v[0] != v[1] || v[1] != v[2] || (v[0] != 255 && v[0] != 251)) return -1;
    if (v[0] == 251) t |= 1 << b;
  }
  return t;
}
// Pure colour close to where the truth puts the target's points?
static double painted(const cv::Mat& m, const CameraIntrinsics& k, const Iso& cam_to_target, const Correspondence2D3D::Set& set, const cv::Vec3b& col)
{
  int hit = 0, n = 0;
  for (auto& q : set)
  {
    const V2 p = project(k, cam_to_target * q.in_target);
    if (p.x() < 8 || p.y() < 8 || p.x() > m.cols - 9 || p.y() > m.rows - 9) continue;
    ++n;
    bool ok = false;
    for (int y = int(p.y()) - 5; y <= int(p.y()) + 6 && !ok; ++y)
      for (int x = int(p.x()) - 5; x <= int(p.x()) + 6 && !ok; ++x) ok = m.at<cv::Vec3b>(y, x) == col;
    hit += ok;
  }
  return n ? double(hit) / n : 1;
}
static void writePose(const std::string& path, const Iso& p)
{
  Eigen::Quaterniond q(p.linear());
  std::ofstream f(path);
  f.precision(17);
  f << "x: " << p.translation().x() << "\ny: " << p.translation().y() << "\nz: " << p.translation().z() << "\nqx: " << q.x() << "\nqy: " << q.y() << "\nqz: " << q.z() << "\nqw: " << q.w() << "\n";
}
struct Set
{
  std::vector<cv::Mat> images;
  std::vector<Iso> poses;   // of the tool
};
static std::string writeSet(const Set& s, const std::string& name)
{
  const std::string dir = g_dir + "/" + name;
  ::mkdir(dir.c_str(), 0755);
  std::ofstream f(dir + "/cal_data.yaml");
  for (std::size_t i = 0; i < s.images.size(); ++i)
  {
    cv::imwrite(cat(dir, "/img", i, ".png"), s.images[i]);
    writePose(cat(dir, "/pose", i, ".yaml"), s.poses[i]);
    f << "- image: img" << i << ".png\n  pose: pose" << i << ".yaml\n";
  }
  if (s.images.empty()) f << "[]\n";
  return dir + "/cal_data.yaml";
}
// What the finder sees in a picture; empty: nothing
static Correspondence2D3D::Set see(const Scene& S, const cv::Mat& img)
{
  try
  {
    TargetFeatures f = S.finder->findTargetFeatures(img);
    if (f.empty()) return {};
    return S.finder->target().createCorrespondences(f);
  }
  catch (const std::exception&) { return {}; }
}
// Mean homography error over some samplings; infinite when there is none
static std::pair<double, double> bend(const Correspondence2D3D::Set& s)
{
  double lo = 1e300, hi = 0;
  for (unsigned seed = 1; seed <= 4; ++seed)
  {
    double e = 1e300;
    try { e = calculateHomographyError(s, RandomCorrespondenceSampler(s.size(), s.size() / 3, seed)).mean(); }
    catch (const std::exception&) {}
    lo = std::min(lo, e), hi = std::max(hi, e);
  }
  return { lo, hi };
}
// The tool ended well, or the run says nothing about the rest
static bool well(Case& c, const std::string& tool, const Run& r, const std::string& d)
{
  c.count("tool runs");
  if (r.rc == 0) return true;
  const bool crash = r.rc == 77 || r.rc == 66 || r.rc >= 1000;
  c.fail(crash ? "crash-" + tool : "failed-" + tool, cat(d, ": exit status ", r.rc, ": ", report(r.err)));
  return false;
}
static void refused(Case& c, const std::string& tool, const Run& r, const std::string& d)
{
  c.count("tool runs");
  c.count("refusals");
  const bool crash = r.rc == 77 || r.rc == 66 || r.rc >= 1000;
  if (!c.check(!crash, "crash-" + tool, cat(d, ": exit status ", r.rc, ": ", report(r.err)))) return;
  c.check(r.rc != 0, "not-refused-" + tool, cat(d, ": exit status 0; printed ", tail(r.out, 300)));
  c.check(r.err.find("[error]") != std::string::npos, "silent-" + tool, cat(d, ": no error message; ", tail(r.err)));
}
static Kind anyKind(Rng& r, bool warps)
{
  if (r.chance(0.7)) return Kind::plain;
  const int k = r.range(0, warps ? 2 : 1);
  return k == 0 ? Kind::blank : k == 1 ? Kind::hidden : Kind::warped;
}
// mostly: perhaps spoil what the tool was pointed at; true when done
static bool spoil(Case& c, const std::string& tool, const std::vector<std::string>& required, const std::vector<std::string>& paths, Params p)
{
  Rng& r = c.rng;
  if (!r.chance(0.25)) return false;
  std::string what;
  const int kind = r.range(0, 9);
  if (kind < 4 || paths.empty())
  {
    const std::string k = required[std::size_t(r.range(0, int(required.size()) - 1))];
    p.drop(k);
    what = "without parameter " + k;
  }
  else if (kind < 6)
  {
    const std::string k = paths[std::size_t(r.range(0, int(paths.size()) - 1))];
    p.set(k, g_dir + "/nowhere/cal_data.yaml");
    what = k + " leads nowhere";
  }
  else if (kind == 6)
  {
    const std::string k = paths[std::size_t(r.range(0, int(paths.size()) - 1))];
    std::ofstream(g_dir + "/bad.yaml") << "- image: [a\n  pose: {";
    p.set(k, g_dir + "/bad.yaml");
    what = k + " is not a data set";
  }
  else if (kind == 7)
  {
    p.set("target_finder/type", "rct_ros_tools::NoSuchFinder");
    what = "unknown target finder";
  }
  else if (kind == 8)
  {
    p.drop("target_finder/type");
    what = "target finder without type";
  }
  else
  {
    for (auto& k : paths)
    {
      const std::string dir = g_dir + "/none";
      ::mkdir(dir.c_str(), 0755);
      std::ofstream(dir + "/cal_data.yaml") << "[]\n";
      p.set(k, dir + "/cal_data.yaml");
    }
    what = "empty data set";
    if (tool == "solve_multi_camera_pnp") return false;   // nothing to solve, nothing wrong
  }
  refused(c, tool, run(tool, p), tool + " " + what);
  return true;
}

// ---- the tools
static void handEye(Case& c, bool onWrist)
{
  Rng& r = c.rng;
  const std::string tool = onWrist ? "camera_on_wrist_extrinsic" : "static_camera_extrinsic";
  Scene S = makeScene(r, r.chance(0.3));
  const Iso far = randPose(r, 1.0), near = randPose(r, 0.15);   // base to target / wrist to camera, or base to camera / wrist to target
  const int n = r.chance(0.12) ? r.range(10, 12) : r.range(6, 9);
  Set set;
  std::vector<Kind> kinds;
  for (int i = 0; i < n; ++i)
  {
    const Iso v = look(r, S);
    kinds.push_back(i < 4 ? Kind::plain : anyKind(r, true));
    set.poses.push_back(onWrist ? far * v.inverse() * near.inverse() : far * v * near.inverse());
    set.images.push_back(shoot(r, S, S.k, v, kinds.back(), 100 + i));
  }
  // shuffled, so that spoiled pictures are anywhere
  for (std::size_t i = set.images.size(); i > 1; --i)
  {
    const std::size_t j = std::size_t(r.range(0, int(i) - 1));
    std::swap(set.images[i - 1], set.images[j]);
    std::swap(set.poses[i - 1], set.poses[j]);
    std::swap(kinds[i - 1], kinds[j]);
  }
  // which pictures count: a threshold well between the flat and the bent ones
  std::vector<Correspondence2D3D::Set> seen;
  std::vector<std::pair<double, double>> err;
  std::vector<double> all;
  for (auto& m : set.images)
  {
    seen.push_back(see(S, m));
    err.push_back(seen.back().empty() ? std::make_pair(1e300, 1e300) : bend(seen.back()));
    if (err.back().second < 1e299) all.push_back(err.back().first), all.push_back(err.back().second);
  }
  double threshold = r.uni(20, 100);
  std::sort(all.begin(), all.end());
  if (!r.chance(0.2) && !all.empty())
  {
    double best = 0;
    for (std::size_t i = all.size() / 2; i + 1 < all.size(); ++i)
      if (all[i + 1] > 1.5 * all[i] && all[i + 1] / all[i] > best) best = all[i + 1] / all[i], threshold = std::sqrt(all[i] * all[i + 1]);
    if (best == 0) threshold = 2 * all.back() + 0.1;
  }
  for (auto& e : err)
    if (e.first <= threshold * 1.1 && e.second >= threshold * 0.9 && e.second < 1e299) { threshold = 2 * all.back() + 0.1; break; }
  std::vector<std::size_t> used;
  for (std::size_t i = 0; i < err.size(); ++i)
  {
    if (err[i].first <= threshold * 1.1 && err[i].second >= threshold * 0.9 && err[i].second < 1e299) { c.count("undecided thresholds"); return; }
    if (err[i].first < 1e299 && err[i].second > 1e299) { c.count("undecided thresholds"); return; }
    if (err[i].second <= threshold) used.push_back(i);
  }
  int bent = 0;
  for (std::size_t i = 0; i < err.size(); ++i) bent += err[i].first > threshold && !seen[i].empty();
  Params p;
  p.d("homography_threshold", threshold);
  p.s("data_path", writeSet(set, "set"));
  p.intr("intrinsics", S.k);
  finderParams(S, p);
  ExtrinsicHandEyeProblem2D3D pb;
  pb.intr = S.k;
  const Iso farGuess = perturb(far, r, 0.1, 0.05 * S.side()), nearGuess = perturb(near, r, 0.1, 0.05 * S.side());
  p.pose(onWrist ? "base_to_target_guess" : "base_to_camera_guess", farGuess);
  p.pose(onWrist ? "wrist_to_camera_guess" : "wrist_to_target_guess", nearGuess);
  pb.target_mount_to_target_guess = onWrist ? farGuess : nearGuess;
  pb.camera_mount_to_camera_guess = onWrist ? nearGuess : farGuess;
  if (spoil(c, tool, { "homography_threshold", "data_path", "intrinsics", "intrinsics/fy", "target_finder", onWrist ? "base_to_target_guess" : "base_to_camera_guess", onWrist ? "wrist_to_camera_guess/qz" : "wrist_to_target_guess/x" },
            { "data_path" }, p)) return;
  for (std::size_t i : used)
  {
    Observation2D3D o;
    o.to_camera_mount = onWrist ? set.poses[i] : Iso::Identity();
    o.to_target_mount = onWrist ? Iso::Identity() : set.poses[i];
    o.correspondence_set = seen[i];
    pb.observations.push_back(o);
  }
  const std::string d = cat(tool, ": ", n, " images, ", used.size(), " used, ", bent, " bent, ", S.charuco ? "ChArUco " : "circles ", S.rows, "x", S.cols, ", threshold ", threshold);
  c.sample(d);
  if (used.size() < 3) { c.count("too few images"); return; }
  ExtrinsicHandEyeResult want;
  try { want = optimize(pb); }
  catch (const std::exception& e)
  {
    refused(c, tool, run(tool, p), d + ": the library refuses this data");
    return;
  }
  const Run t = run(tool, p);
  if (!well(c, tool, t, d)) return;
  c.count("hand eye runs");
  c.count("bent images left out", bent);
  c.count("images left out", double(set.images.size() - used.size()));
  c.nontrivial(hashIso(far, hashIso(near, 3)));
  sameCosts(c, t.out, want.converged, want.initial_cost_per_obs, want.final_cost_per_obs, "handeye-costs", d);
  Iso gc = Iso::Identity(), gt = Iso::Identity();
  samePose(c, t.out, onWrist ? "WRIST TO CAMERA" : "BASE TO CAMERA", want.camera_mount_to_camera, "handeye-camera", d, nullptr, &gc);
  samePose(c, t.out, onWrist ? "BASE TO TARGET" : "WRIST_TO_TARGET", want.target_mount_to_target, "handeye-target", d, nullptr, &gt);
  // the truth itself
  if (used.size() >= 4 && std::none_of(used.begin(), used.end(), [&](std::size_t i) { return kinds[i] == Kind::warped; }))
  {
    const double w = S.side();
    c.near(rotDist(gc, onWrist ? near : far), 0, 0.01, "handeye-truth", d + ": camera orientation");
    c.near(trDist(gc, onWrist ? near : far), 0, 0.03 * w, "handeye-truth", d + ": camera position");
    c.near(rotDist(gt, onWrist ? far : near), 0, 0.01, "handeye-truth", d + ": target orientation");
    c.near(trDist(gt, onWrist ? far : near), 0, 0.03 * w, "handeye-truth", d + ": target position");
    c.count("compared with the truth");
  }
  // statistics
  {
    const Eigen::ArrayXd e = compute3DProjectionError(pb.observations, pb.intr, want.camera_mount_to_camera, want.target_mount_to_target);
    const double m = e.mean(), sd = std::sqrt((e - m).square().sum() / (double(e.size()) - 1));
    std::size_t at = 0;
    std::vector<double> v = numbersAfter(t.out, "Mean +/- Std. Dev. (m): ", 1, &at);
    for (const char* k : { " +/- ", "Min (m): ", "Max (m): " })
    {
      auto w = numbersAfter(t.out, k, 1, &at);
      v.insert(v.end(), w.begin(), w.end());
    }
    sameNumbers(c, v, { m, sd, e.minCoeff(), e.maxCoeff() }, 1e-2, 1e-9, "handeye-3d-errors", d + ": 3D projection error");
  }
  {
    std::vector<double> pos, ori;
    for (auto& o : pb.observations)
    {
      PnPProblem q;
      q.intr = S.k;
      q.camera_to_target_guess = want.camera_mount_to_camera.inverse() * o.to_camera_mount.inverse() * o.to_target_mount * want.target_mount_to_target;
      q.correspondences = o.correspondence_set;
      const PnPResult a = optimize(q);
      pos.push_back((q.camera_to_target_guess.inverse() * a.camera_to_target).translation().norm());
      ori.push_back(rotDist(q.camera_to_target_guess, a.camera_to_target) * 180 / M_PI);
    }
    auto ms = [](const std::vector<double>& v) {
      double m = 0, s = 0;
      for (double x : v) m += x / double(v.size());
      for (double x : v) s += (x - m) * (x - m) / double(v.size());
      return std::make_pair(m, std::sqrt(s));
    };
    std::size_t at = t.out.find("Difference in camera to target transform");
    if (c.check(at != std::string::npos, "handeye-difference", d + ": no comparison printed"))
    {
      std::vector<double> v;
      for (const char* k : { "Mean (m): ", "Std. Dev. (m): ", "Mean (deg): ", "Std. Dev. (deg): " })
      {
        auto w = numbersAfter(t.out, k, 1, &at);
        v.insert(v.end(), w.begin(), w.end());
      }
      sameNumbers(c, v, { ms(pos).first, ms(pos).second, ms(ori).first, ms(ori).second }, 1e-2, 1e-6, "handeye-difference", d + ": difference to PnP");
    }
  }
  // pictures
  std::vector<int> ids;
  for (auto& s : t.shown) ids.push_back(tagOf(s.img));
  std::vector<int> wantIds;
  for (auto& m : set.images) wantIds.push_back(tagOf(m));
  for (std::size_t i : used) wantIds.push_back(tagOf(set.images[i]));
  if (c.check(ids == wantIds, "handeye-pictures", cat(d, ": ", ids.size(), " pictures shown, not the ", wantIds.size(), " expected ones in their order")))
  {
    for (std::size_t i = 0, k = 0; i < set.images.size(); ++i)
    {
      const bool isUsed = k < used.size() && used[k] == i;
      k += isUsed;
      c.check(sameImg(t.shown[i].img, set.images[i]) != isUsed, "handeye-pictures", cat(d, ": image ", i, isUsed ? " shown without its features" : " left out, but shown with features"));
    }
    for (std::size_t k = 0; k < used.size(); ++k)
      c.check(painted(t.shown[set.images.size() + k].img, S.k, want.camera_mount_to_camera.inverse() * pb.observations[k].to_camera_mount.inverse() * pb.observations[k].to_target_mount * want.target_mount_to_target, seen[used[k]], cv::Vec3b(0, 0, 255)) > 0.9,
              "handeye-reprojection", cat(d, ": reprojections of image ", used[k], " are not drawn on it"));
    c.count("pictures judged", double(ids.size()));
  }
}

static void intrinsic(Case& c)
{
  Rng& r = c.rng;
  const std::string tool = "intrinsic_calibration";
  Scene S = makeScene(r, r.chance(0.3));
  const int n = r.chance(0.12) ? r.range(10, 12) : r.range(6, 9);
  Set set;
  for (int i = 0; i < n; ++i)
  {
    set.images.push_back(shoot(r, S, S.k, look(r, S), i < 5 ? Kind::plain : anyKind(r, false), 200 + i));
    set.poses.push_back(randPose(r, 1));
  }
  for (std::size_t i = set.images.size(); i > 1; --i) std::swap(set.images[i - 1], set.images[std::size_t(r.range(0, int(i) - 1))]);
  Params p;
  p.s("data_path", writeSet(set, "set"));
  finderParams(S, p);
  IntrinsicEstimationProblem pb;
  pb.intrinsics_guess = S.k;
  for (double& v : pb.intrinsics_guess.values) v *= r.uni(0.97, 1.03);
  pb.use_extrinsic_guesses = false;
  p.intr("intrinsics", pb.intrinsics_guess);
  if (spoil(c, tool, { "data_path", "intrinsics", "intrinsics/cx", "target_finder" }, { "data_path" }, p)) return;
  std::vector<std::size_t> used;
  std::vector<std::vector<cv::Vec3f>> op;
  std::vector<std::vector<cv::Vec2f>> ip;
  for (std::size_t i = 0; i < set.images.size(); ++i)
  {
    auto s = see(S, set.images[i]);
    if (s.empty()) continue;
    used.push_back(i);
    pb.image_observations.push_back(s);
    op.emplace_back();
    ip.emplace_back();
    for (auto& q : s)
    {
      op.back().push_back(cv::Vec3f(float(q.in_target.x()), float(q.in_target.y()), float(q.in_target.z())));
      ip.back().push_back(cv::Vec2f(float(q.in_image.x()), float(q.in_image.y())));
    }
  }
  const std::string d = cat(tool, ": ", n, " images, ", used.size(), " used, ", S.charuco ? "ChArUco " : "circles ", S.rows, "x", S.cols);
  c.sample(d);
  if (used.size() < 4) { c.count("too few images"); return; }
  IntrinsicEstimationResult want;
  cv::Mat K, D;
  std::vector<cv::Mat> rv, tv;
  try
  {
    K = cv::Mat::eye(3, 3, CV_64F);
    cv::calibrateCamera(op, ip, set.images[0].size(), K, D, rv, tv);
    want = optimize(pb);
  }
  catch (const std::exception&) { refused(c, tool, run(tool, p), d + ": the library refuses this data"); return; }
  const Run t = run(tool, p);
  if (!well(c, tool, t, d)) return;
  c.count("intrinsic runs");
  c.nontrivial(hashImg(set.images[used[0]]));
  sameCosts(c, t.out, want.converged, want.initial_cost_per_obs, want.final_cost_per_obs, "intrinsic-costs", d);
  auto pick4 = [&](const char* title, const char* a, const char* b, const char* e, const char* f, const char* g) {
    std::vector<double> v;
    std::size_t at = t.out.find(title);
    if (at == std::string::npos) return v;
    for (const char* k : { a, b, e, f, g })
      if (k)
      {
        auto w = numbersAfter(t.out, k, 1, &at);
        v.insert(v.end(), w.begin(), w.end());
      }
    return v;
  };
  sameNumbers(c, pick4("RCT Intrinsics", "fx =", "fy =", "cx =", "cy =", nullptr), std::vector<double>(want.intrinsics.values.begin(), want.intrinsics.values.end()), 1e-4, 1e-4, "intrinsic-values", d + ": RCT intrinsics");
  sameNumbers(c, pick4("RCT Distortion", "k1 =", "k2 =", "p1 =", "p2 =", "k3 ="), std::vector<double>(want.distortions.begin(), want.distortions.end()), 1e-2, 1e-4, "intrinsic-distortion", d + ": RCT distortion");
  sameNumbers(c, pick4("OpenCV Intrinsics", "fx =", "fy =", "cx =", "cy =", nullptr), { K.at<double>(0, 0), K.at<double>(1, 1), K.at<double>(0, 2), K.at<double>(1, 2) }, 1e-3, 1e-3, "intrinsic-opencv", d + ": OpenCV intrinsics");
  std::vector<double> dv;
  for (int i = 0; i < 5; ++i) dv.push_back(D.at<double>(i));
  sameNumbers(c, pick4("OpenCV Distortion", "k1 =", "k2 =", "p1 =", "p2 =", "k3 ="), dv, 1e-2, 1e-3, "intrinsic-opencv", d + ": OpenCV distortion");
  const auto got = pick4("RCT Intrinsics", "fx =", "fy =", "cx =", "cy =", nullptr);
  // (the solver starts from its own guess and may be led astray: only where the library says it found a close fit)
  if (got.size() == 4 && used.size() >= 5 && want.final_cost_per_obs < 0.05)
  {
    c.near(got[0], S.k.fx(), 0.03 * S.k.fx(), "intrinsic-truth", d + ": fx");
    c.near(got[1], S.k.fy(), 0.03 * S.k.fy(), "intrinsic-truth", d + ": fy");
    c.count("compared with the truth");
  }
  std::vector<int> ids, wantIds;
  for (auto& s : t.shown) ids.push_back(tagOf(s.img));
  for (std::size_t i : used) wantIds.push_back(tagOf(set.images[i]));
  c.check(ids == wantIds, "intrinsic-pictures", d + ": other pictures shown than those used");
  c.count("pictures judged", double(ids.size()));
}

static void validation(Case& c)
{
  Rng& r = c.rng;
  const std::string tool = "camera_intrinsic_calibration_validation";
  Scene S = makeScene(r, false);   // (half of the target is compared with the other half)
  const Iso base_to_target = randPose(r, 1), wrist_to_camera = randPose(r, 0.15);
  const int n = r.range(1, 6);
  Set set;
  for (int i = 0; i < n; ++i)
  {
    const Iso v = look(r, S);
    set.poses.push_back(base_to_target * v.inverse() * wrist_to_camera.inverse());
    set.images.push_back(shoot(r, S, S.k, v, anyKind(r, false), 300 + i));
  }
  const Iso bg = perturb(base_to_target, r, 0.02, 0.01 * S.side()), wg = perturb(wrist_to_camera, r, 0.02, 0.01 * S.side());
  CameraIntrinsics k = S.k;
  if (r.chance(0.5))
    for (double& v : k.values) v *= r.uni(0.99, 1.01);
  Params p;
  p.s("data_path", writeSet(set, "set"));
  finderParams(S, p);
  p.intr("intrinsics", k);
  p.pose("base_to_target_guess", bg);
  p.pose("wrist_to_camera_guess", wg);
  if (spoil(c, tool, { "data_path", "intrinsics", "target_finder", "base_to_target_guess", "base_to_target_guess/qw", "wrist_to_camera_guess" }, { "data_path" }, p)) return;
  Observation2D3D::Set obs;
  for (std::size_t i = 0; i < set.images.size(); ++i)
  {
    Observation2D3D o;
    o.correspondence_set = see(S, set.images[i]);
    if (o.correspondence_set.empty()) continue;
    o.to_camera_mount = set.poses[i];
    o.to_target_mount = Iso::Identity();
    obs.push_back(o);
  }
  const std::string d = cat(tool, ": ", n, " images, ", obs.size(), " used, circles ", S.rows, "x", S.cols);
  IntrinsicCalibrationAccuracyResult want, loose;
  bool refuses = false;
  try { want = measureIntrinsicCalibrationAccuracy(obs, k, wg, bg, Iso::Identity(), 1.0); }
  catch (const std::exception&) { refuses = true; }
  const Run t = run(tool, p);
  if (refuses) { refused(c, tool, t, d + ": the library refuses this data"); return; }
  if (!well(c, tool, t, d)) return;
  c.count("validation runs");
  c.nontrivial(hashImg(set.images[0]));
  std::size_t at = t.err.find("Positional Error");
  std::vector<double> v;
  if (at != std::string::npos)
    for (const char* key : { "Mean (m): ", "Std. Dev. (m): ", "Mean (rad): ", "Std. Dev. (rad): " })
    {
      auto w = numbersAfter(t.err, key, 1, &at);
      v.insert(v.end(), w.begin(), w.end());
    }
  sameNumbers(c, v, { want.pos_error.first, want.pos_error.second, want.ang_error.first, want.ang_error.second }, 1e-3, 1e-8, "validation-errors", d);
  const double pe = want.pos_error.first + 2 * want.pos_error.second, ae = want.ang_error.first + 2 * want.ang_error.second, pt = 1e-3, at2 = 0.05 * M_PI / 180;
  if (!(std::abs(pe - pt) <= 1e-3 * pt || std::abs(ae - at2) <= 1e-3 * at2))   // (errors that are no numbers are never within tolerance)
  {
    const bool valid = pe <= pt && ae <= at2;
    c.check((t.err.find("calibration is valid") != std::string::npos) == valid && (t.err.find("not within tolerance") != std::string::npos) == !valid, "validation-verdict",
            cat(d, ": 95 % errors ", pe, " m, ", ae, " rad, reported as ", valid ? "invalid" : "valid"));
    c.count(valid ? "valid intrinsics" : "invalid intrinsics");
  }
  std::vector<int> ids, wantIds;
  for (auto& s : t.shown) ids.push_back(tagOf(s.img));
  for (auto& m : set.images) wantIds.push_back(tagOf(m));
  c.check(ids == wantIds, "validation-pictures", d + ": other pictures shown than those of the data set");
  c.count("pictures judged", double(ids.size()));
}

static void noise(Case& c)
{
  Rng& r = c.rng;
  const std::string tool = "noise_qualification_2d";
  Scene S = makeScene(r, r.chance(0.3));
  const Iso v = look(r, S);
  const int n = r.range(3, 8);
  Set set;
  for (int i = 0; i < n; ++i)
  {
    set.images.push_back(shoot(r, S, S.k, perturb(v, r, 0.02, 0.01 * S.side()), i < 3 ? Kind::plain : anyKind(r, false), 400 + i));
    set.poses.push_back(Iso::Identity());
  }
  for (std::size_t i = set.images.size(); i > 1; --i) std::swap(set.images[i - 1], set.images[std::size_t(r.range(0, int(i) - 1))]);
  const std::string file = writeSet(set, "set");
  Params p;
  p.s("data_path", g_dir + "/set");
  p.s("data_file", file);
  finderParams(S, p);
  p.intr("intrinsics", S.k);
  const Iso guess = perturb(v, r, 0.1, 0.05 * S.side());
  p.pose("camera_to_target_guess", guess);
  if (spoil(c, tool, { "data_path", "data_file", "intrinsics", "target_finder", "camera_to_target_guess", "camera_to_target_guess/y" }, { "data_file" }, p)) return;
  std::vector<PnPProblem> pbs;
  for (auto& m : set.images)
  {
    PnPProblem q;
    q.correspondences = see(S, m);
    if (q.correspondences.empty()) continue;
    q.intr = S.k;
    q.camera_to_target_guess = guess;
    pbs.push_back(q);
  }
  const std::string d = cat(tool, ": ", n, " images, ", pbs.size(), " used, ", S.charuco ? "ChArUco " : "circles ", S.rows, "x", S.cols);
  c.sample(d);
  if (pbs.size() < 2) { c.count("too few images"); return; }
  PnPNoiseStat want;
  bool refuses = false;
  try { want = qualifyNoise2D(pbs); }
  catch (const std::exception&) { refuses = true; }
  const Run t = run(tool, p);
  if (refuses) { refused(c, tool, t, d + ": the library refuses this data"); return; }
  if (!well(c, tool, t, d)) return;
  c.count("noise runs");
  c.nontrivial(hashImg(set.images[0]));
  // (printed to four digits)
  sameNumbers(c, numbersAfter(t.err, "Position mean (m)\n", 3), { want.p_stat.mean.x(), want.p_stat.mean.y(), want.p_stat.mean.z() }, 2e-3, 1e-7, "noise-position", d + ": mean");
  sameNumbers(c, numbersAfter(t.err, "Position standard deviation (m)\n", 3), { want.p_stat.stdev.x(), want.p_stat.stdev.y(), want.p_stat.stdev.z() }, 5e-3, 1e-9, "noise-position", d + ": standard deviation");
  std::vector<double> q = numbersAfter(t.err, "Quaternion mean (qx, qy, qz, qw)\n", 4);
  std::vector<double> wq = { want.q_stat.mean.x(), want.q_stat.mean.y(), want.q_stat.mean.z(), want.q_stat.mean.w() };
  if (q.size() == 4 && q[0] * wq[0] + q[1] * wq[1] + q[2] * wq[2] + q[3] * wq[3] < 0)
    for (double& x : wq) x = -x;
  sameNumbers(c, q, wq, 2e-3, 1e-5, "noise-quaternion", d + ": mean");
  sameNumbers(c, numbersAfter(t.err, "Quaternion standard deviation\n", 1), { want.q_stat.stdev }, 5e-3, 1e-9, "noise-quaternion", d + ": standard deviation");
  std::vector<int> ids, wantIds;
  for (auto& s : t.shown) ids.push_back(tagOf(s.img));
  for (auto& m : set.images) wantIds.push_back(tagOf(m));
  c.check(ids == wantIds, "noise-pictures", d + ": other pictures shown than those listed");
  c.count("pictures judged", double(ids.size()));
}

static void pnp(Case& c)
{
  Rng& r = c.rng;
  const std::string tool = "solve_pnp";
  Scene S = makeScene(r, r.chance(0.3));
  const Iso v = look(r, S);
  const Kind kind = r.chance(0.1) ? Kind::blank : Kind::plain;
  const cv::Mat img = shoot(r, S, S.k, v, kind, 500);
  cv::imwrite(g_dir + "/one.png", img);
  Params p;
  p.s("image_path", g_dir + "/one.png");
  p.intr("intrinsics", S.k);
  finderParams(S, p);
  if (spoil(c, tool, { "image_path", "intrinsics", "intrinsics/fx", "target_finder" }, {}, p)) return;
  if (r.chance(0.08))
  {
    p.set("image_path", g_dir + "/nothing.png");
    refused(c, tool, run(tool, p), tool + ": the image does not exist");
    return;
  }
  PnPProblem pb;
  pb.intr = S.k;
  pb.correspondences = see(S, img);
  const std::string d = cat(tool, ": ", pb.correspondences.size(), " features, ", S.charuco ? "ChArUco " : "circles ", S.rows, "x", S.cols);
  const Run t = run(tool, p);
  if (pb.correspondences.empty()) { refused(c, tool, t, d); return; }
  // the tool starts from 0.1 m in front of the camera, turned over
  pb.camera_to_target_guess = mk(rot(V3(M_PI, 0, 0)), V3(0, 0, 0.1));
  PnPResult want;
  try { want = optimize(pb); }
  catch (const std::exception&) { refused(c, tool, t, d + ": the library refuses this data"); return; }
  if (!well(c, tool, t, d)) return;
  c.count("pnp runs");
  c.nontrivial(hashImg(img));
  Iso got = Iso::Identity(), cvGot = Iso::Identity();
  sameCosts(c, t.out, want.converged, want.initial_cost_per_obs, want.final_cost_per_obs, "pnp-costs", d);
  samePose(c, t.out, "RCT CAMERA TO TARGET", want.camera_to_target, "pnp-pose", d, nullptr, &got);
  const std::vector<double> m = numbersAfter(t.out, "\nOpenCV solvePNP:\n", 16);
  if (c.check(m.size() == 16, "pnp-opencv", d + ": no OpenCV solution printed"))
  {
    for (int i = 0; i < 16; ++i) cvGot.matrix()(i / 4, i % 4) = m[std::size_t(i)];
    c.near(rotDist(cvGot, v), 0, 0.015, "pnp-opencv", d + ": orientation of the OpenCV solution");
    c.near(trDist(cvGot, v), 0, 0.03 * S.side(), "pnp-opencv", d + ": position of the OpenCV solution");
  }
  if (want.converged && std::sqrt(want.final_cost_per_obs) < 0.5)
  {
    c.count("compared with the truth");
    c.near(rotDist(got, v), 0, 0.015, "pnp-truth", d + ": orientation");
    c.near(trDist(got, v), 0, 0.03 * S.side(), "pnp-truth", d + ": position");
  }
  c.check(t.shown.size() == 1 && tagOf(t.shown[0].img) == tagOf(img), "pnp-picture", d + ": the picture is not shown");
}

struct Rig
{
  int n = 0;
  std::vector<CameraIntrinsics> k;
  std::vector<Iso> cam;        // base to camera
  std::vector<Set> set;
  std::vector<std::vector<Iso>> view;
  std::vector<Iso> target;     // base to target, by image
  std::vector<std::vector<Correspondence2D3D::Set>> seen;
  std::vector<std::size_t> everywhere;
};
// A rig of fixed cameras around a moved target
static Rig makeRig(Case& c, const Scene& S, const Iso& wrist_to_target, int images, int tag)
{
  Rng& r = c.rng;
  Rig R;
  R.n = r.range(1, 3);
  if (R.n == 1 && r.chance(0.7)) R.n = 2;
  const Iso first = randPose(r, 1);
  for (int k = 0; k < R.n; ++k)
  {
    CameraIntrinsics in = S.k;
    for (double& v : in.values) v *= r.uni(0.97, 1.03);
    R.k.push_back(in);
    const double dist = S.charuco ? 1.5 * S.side() : S.k.fx() * S.s / 42;
    // around the place where the target is moved, at the same distance
    Iso around = Iso::Identity();
    if (k)
    {
      const V3 mid(0, 0, dist);
      const Eigen::Matrix3d Q = rot(V3(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-1, 1)));
      around = mk(Q, mid - Q * mid);
    }
    R.cam.push_back(first * around);
  }
  R.set.resize(std::size_t(R.n));
  R.view.resize(std::size_t(R.n));
  R.seen.resize(std::size_t(R.n));
  for (int i = 0; i < images; ++i)
  {
    const Iso v = look(r, S);
    const Iso bt = R.cam[0] * v;
    R.target.push_back(bt);
    bool all = true;
    for (int k = 0; k < R.n; ++k)
    {
      const std::size_t kk = std::size_t(k);
      const Iso vk = R.cam[kk].inverse() * bt;
      R.view[kk].push_back(vk);
      R.set[kk].images.push_back(shoot(r, S, R.k[kk], vk, r.chance(0.85) ? Kind::plain : anyKind(r, false), tag + 32 * k + i));
      R.set[kk].poses.push_back(bt * wrist_to_target.inverse());
      R.seen[kk].push_back(see(S, R.set[kk].images.back()));
      all = all && !R.seen[kk].back().empty();
    }
    if (all) R.everywhere.push_back(std::size_t(i));
  }
  return R;
}
// Two pictures (before and after) per reprojected image, on the right image
static void beforeAfter(Case& c, const Run& t, const std::vector<int>& wantIds, const std::vector<CameraIntrinsics>& k, const std::vector<Iso>& before, const std::vector<Iso>& after,
                        const std::vector<Correspondence2D3D::Set>& pts, const std::string& key, const std::string& d)
{
  std::vector<const Shown*> s;
  for (auto& x : t.shown)
    if (x.window == "repr_before" || x.window == "repr_after") s.push_back(&x);
  if (!c.check(s.size() == 2 * wantIds.size(), key, cat(d, ": ", s.size(), " reprojection pictures, ", 2 * wantIds.size(), " expected"))) return;
  for (std::size_t i = 0; i < wantIds.size(); ++i)
  {
    const Shown *a = s[2 * i], *b = s[2 * i + 1];
    if (a->window == "repr_after") std::swap(a, b);
    c.check(tagOf(a->img) == wantIds[i] && tagOf(b->img) == wantIds[i], key, cat(d, ": reprojections on image ", tagOf(a->img), " instead of ", wantIds[i]));
    c.check(painted(a->img, k[i], before[i], pts[i], cv::Vec3b(0, 0, 255)) > 0.9, key, cat(d, ": image ", wantIds[i], ": red dots not at the calibrated places"));
    c.check(painted(b->img, k[i], after[i], pts[i], cv::Vec3b(0, 255, 0)) > 0.9, key, cat(d, ": image ", wantIds[i], ": green dots not at the solved places"));
    c.count("pictures judged", 2);
  }
}
static void rigParams(const Rig& R, Params& p, std::vector<std::string>& paths)
{
  p.i("num_of_cameras", R.n);
  for (int k = 0; k < R.n; ++k)
  {
    const std::string base = cat("camera_", k, "/");
    p.s(base + "data_path", writeSet(R.set[std::size_t(k)], cat("set", k)));
    p.intr(base + "intrinsics", R.k[std::size_t(k)]);
    paths.push_back(base + "data_path");
  }
}
static Iso pnpPrinted(Case& c, const std::string& out, std::size_t* at, const std::string& title, const Iso& want, const std::string& key, const std::string& d)
{
  Iso g = Iso::Identity();
  samePose(c, out, title, want, key, d, at, &g);
  return g;
}

static void multiPnp(Case& c)
{
  Rng& r = c.rng;
  const std::string tool = "solve_multi_camera_pnp";
  Scene S = makeScene(r, r.chance(0.3));
  // the poses of the data set are where the target is believed to be
  Rig R = makeRig(c, S, Iso::Identity(), r.range(1, 4), 600);
  for (std::size_t i = 0; i < R.target.size(); ++i)
  {
    const Iso g = perturb(R.target[i], r, 0.08, 0.04 * S.side());
    for (auto& s : R.set) s.poses[i] = g;
  }
  Params p;
  std::vector<std::string> paths;
  rigParams(R, p, paths);
  for (int k = 0; k < R.n; ++k) p.pose(cat("camera_", k, "/base_to_camera"), R.cam[std::size_t(k)]);
  finderParams(S, p);
  if (spoil(c, tool, { "num_of_cameras", cat("camera_", R.n - 1, "/data_path"), "camera_0/intrinsics", cat("camera_", R.n - 1, "/intrinsics/fx"), "camera_0/base_to_camera", cat("camera_", R.n - 1, "/base_to_camera/z"), "target_finder" }, paths, p)) return;
  const std::string d = cat(tool, ": ", R.n, " cameras, ", R.target.size(), " images, ", R.everywhere.size(), " seen by all, ", S.charuco ? "ChArUco " : "circles ", S.rows, "x", S.cols);
  std::vector<MultiCameraPnPProblem> pbs;
  std::vector<MultiCameraPnPResult> want;
  for (std::size_t i : R.everywhere)
  {
    MultiCameraPnPProblem pb;
    pb.intr = R.k;
    pb.base_to_camera = R.cam;
    pb.base_to_target_guess = R.set[0].poses[i];
    for (auto& s : R.seen) pb.image_observations.push_back(s[i]);
    try { want.push_back(optimize(pb)); }
    catch (const std::exception&) { c.count("refused by the library"); return; }
  }
  const Run t = run(tool, p);
  if (!well(c, tool, t, d)) return;
  c.count("multi camera pnp runs");
  c.count("images solved", double(want.size()));
  c.nontrivial(hashImg(R.set[0].images[0]));
  std::size_t at = 0;
  std::vector<int> ids;
  std::vector<CameraIntrinsics> ks;
  std::vector<Iso> before, after;
  std::vector<Correspondence2D3D::Set> pts;
  for (std::size_t j = 0; j < want.size(); ++j)
  {
    const std::size_t i = R.everywhere[j];
    const std::size_t title = t.out.find(cat("REPROJECT IMAGE ", i, " "), at);
    if (!c.check(title != std::string::npos, "multipnp-missing", cat(d, ": image ", i, " is not solved"))) return;
    at = title;
    sameCosts(c, t.out, want[j].converged, want[j].initial_cost_per_obs, want[j].final_cost_per_obs, "multipnp-costs", cat(d, ", image ", i), &at);
    pnpPrinted(c, t.out, &at, "BASE TO TARGET", R.set[0].poses[i], "multipnp-pose", cat(d, ", image ", i));
    const Iso g = pnpPrinted(c, t.out, &at, "PNP", want[j].base_to_target, "multipnp-pose", cat(d, ", image ", i));
    c.near(rotDist(g, R.target[i]), 0, 0.015, "multipnp-truth", cat(d, ", image ", i));
    c.near(trDist(g, R.target[i]), 0, 0.03 * S.side(), "multipnp-truth", cat(d, ", image ", i));
    ids.push_back(tagOf(R.set[0].images[i]));
    ks.push_back(R.k[0]);
    before.push_back(R.cam[0].inverse() * R.set[0].poses[i]);
    after.push_back(R.cam[0].inverse() * want[j].base_to_target);
    pts.push_back(R.seen[0][i]);
  }
  c.check(t.out.find("REPROJECT IMAGE", at) == std::string::npos, "multipnp-extra", d + ": an image that not all cameras saw is solved");
  beforeAfter(c, t, ids, ks, before, after, pts, "multipnp-pictures", d);
}

static void multiStatic(Case& c, bool steps)
{
  Rng& r = c.rng;
  const std::string tool = steps ? "multi_static_camera_multi_step_extrinsic" : "multi_static_camera_extrinsic";
  Scene S = makeScene(r, r.chance(0.3));
  const Iso w2t = randPose(r, 0.15);
  Rig R = makeRig(c, S, w2t, r.range(4, 7), 700);
  Params p;
  std::vector<std::string> paths;
  rigParams(R, p, paths);
  std::vector<Iso> guess;
  const bool fix = r.chance(0.5);
  for (int k = 0; k < R.n; ++k)
  {
    guess.push_back(steps && fix && k == 0 && r.chance(0.7) ? R.cam[0] : perturb(R.cam[std::size_t(k)], r, 0.05, 0.04 * S.side()));
    p.pose(cat("camera_", k, "/base_to_camera_guess"), guess.back());
  }
  const Iso wg = perturb(w2t, r, 0.05, 0.04 * S.side());
  p.pose("wrist_to_target_guess", wg);
  if (steps) p.b("fix_first_camera", fix);
  finderParams(S, p);
  std::vector<std::string> need = { "num_of_cameras", cat("camera_", R.n - 1, "/data_path"), "camera_0/intrinsics", cat("camera_", R.n - 1, "/intrinsics/cy"), "camera_0/base_to_camera_guess", cat("camera_", R.n - 1, "/base_to_camera_guess/qx"),
                                    "wrist_to_target_guess", "target_finder" };
  if (steps) need.push_back("fix_first_camera");
  if (spoil(c, tool, need, paths, p)) return;
  const std::size_t N = R.target.size();
  const std::string d = cat(tool, ": ", R.n, " cameras, ", N, " images, ", R.everywhere.size(), " seen by all", steps ? (fix ? ", first camera fixed" : ", all cameras free") : "", ", ", S.charuco ? "ChArUco " : "circles ", S.rows, "x", S.cols);
  c.sample(d);
  std::size_t least = N;
  for (auto& s : R.seen) least = std::min<std::size_t>(least, std::size_t(std::count_if(s.begin(), s.end(), [](const Correspondence2D3D::Set& x) { return !x.empty(); })));
  if (steps ? R.everywhere.size() < 3 : least < 3) { c.count("too few images"); return; }
  std::vector<Iso> cams;
  Iso w;
  std::size_t at = 0;
  Run t;
  if (!steps)
  {
    ExtrinsicMultiStaticCameraMovingTargetProblem pb;
    pb.intr = R.k;
    pb.wrist_to_target_guess = wg;
    pb.base_to_camera_guess = guess;
    for (int k = 0; k < R.n; ++k)
    {
      pb.wrist_poses.emplace_back();
      pb.image_observations.emplace_back();
      for (std::size_t i = 0; i < N; ++i)
        if (!R.seen[std::size_t(k)][i].empty())
        {
          pb.wrist_poses.back().push_back(R.set[std::size_t(k)].poses[i]);
          pb.image_observations.back().push_back(R.seen[std::size_t(k)][i]);
        }
    }
    ExtrinsicMultiStaticCameraMovingTargetResult want;
    try { want = optimize(pb); }
    catch (const std::exception&) { refused(c, tool, run(tool, p), d + ": the library refuses this data"); return; }
    t = run(tool, p);
    if (!well(c, tool, t, d)) return;
    sameCosts(c, t.out, want.converged, want.initial_cost_per_obs, want.final_cost_per_obs, "multistatic-costs", d, &at);
    w = want.wrist_to_target;
    cams = want.base_to_camera;
    Iso g = Iso::Identity();
    samePose(c, t.out, "WRIST TO TARGET", w, "multistatic-target", d, &at, &g);
    for (int k = 0; k < R.n; ++k)
    {
      samePose(c, t.out, cat("BASE TO CAMERA (camera_", k, ")"), cams[std::size_t(k)], "multistatic-camera", d, &at);
      samePose(c, t.out, cat("CAMERA 0 TO CAMERA (camera_", k, ")"), cams[0].inverse() * cams[std::size_t(k)], "multistatic-camera", d, &at);
    }
    if (least >= 4)
    {
      c.near(rotDist(g, w2t), 0, 0.01, "multistatic-truth", d + ": wrist to target");
      c.near(trDist(g, w2t), 0, 0.03 * S.side(), "multistatic-truth", d + ": wrist to target");
      for (int k = 0; k < R.n; ++k)
      {
        c.near(rotDist(cams[std::size_t(k)], R.cam[std::size_t(k)]), 0, 0.01, "multistatic-truth", d + ": camera");
        c.near(trDist(cams[std::size_t(k)], R.cam[std::size_t(k)]), 0, 0.03 * S.side(), "multistatic-truth", d + ": camera");
      }
      c.count("compared with the truth");
    }
  }
  else
  {
    ExtrinsicMultiStaticCameraOnlyProblem a;
    ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem b;
    a.fix_first_camera = fix;
    a.intr = b.intr = R.k;
    a.base_to_camera_guess = guess;
    a.image_observations.resize(std::size_t(R.n));
    for (std::size_t i : R.everywhere)
    {
      a.base_to_target_guess.push_back(R.set[0].poses[i] * wg);
      b.wrist_poses.push_back(R.set[0].poses[i]);
      for (int k = 0; k < R.n; ++k) a.image_observations[std::size_t(k)].push_back(R.seen[std::size_t(k)][i]);
    }
    b.image_observations = a.image_observations;
    b.wrist_to_target_guess = wg;
    ExtrinsicMultiStaticCameraOnlyResult one;
    ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult two;
    try
    {
      one = optimize(a);
      b.base_to_camera_guess = one.base_to_camera;
      two = optimize(b);
    }
    catch (const std::exception&) { refused(c, tool, run(tool, p), d + ": the library refuses this data"); return; }
    t = run(tool, p);
    if (!well(c, tool, t, d)) return;
    sameCosts(c, t.out, one.converged, one.initial_cost_per_obs, one.final_cost_per_obs, "multistep-costs", d + ", first step", &at);
    for (int k = 0; k < R.n; ++k)
    {
      samePose(c, t.out, cat("Base To Camera (camera_", k, ")"), one.base_to_camera[std::size_t(k)], "multistep-camera", d + ", first step", &at);
      samePose(c, t.out, cat("Camera 0 to Camera ", k), one.base_to_camera[0].inverse() * one.base_to_camera[std::size_t(k)], "multistep-camera", d + ", first step", &at);
    }
    sameCosts(c, t.out, two.converged, two.initial_cost_per_obs, two.final_cost_per_obs, "multistep-costs", d + ", second step", &at);
    w = two.wrist_to_target;
    cams = two.base_to_camera;
    samePose(c, t.out, "Wrist to Target", w, "multistep-target", d, &at);
    for (int k = 0; k < R.n; ++k)
    {
      samePose(c, t.out, cat("Base To Camera (camera_", k, ")"), cams[std::size_t(k)], "multistep-camera", d + ", second step", &at);
      Iso rel = Iso::Identity();
      samePose(c, t.out, cat("Camera 0 to Camera ", k), cams[0].inverse() * cams[std::size_t(k)], "multistep-camera", d + ", second step", &at, &rel);
      if (R.everywhere.size() >= 4)
      {
        const Iso truth = R.cam[0].inverse() * R.cam[std::size_t(k)];
        c.near(rotDist(rel, truth), 0, 0.01, "multistep-truth", d + ": relative camera pose");
        c.near(trDist(rel, truth), 0, 0.03 * S.side(), "multistep-truth", d + ": relative camera pose");
        c.count("compared with the truth");
      }
    }
  }
  c.count(steps ? "multi step runs" : "multi static runs");
  c.nontrivial(hashIso(w, 5));
  // reprojections
  std::vector<int> ids;
  std::vector<CameraIntrinsics> ks;
  std::vector<Iso> before, after;
  std::vector<Correspondence2D3D::Set> pts;
  std::size_t j = 0;
  for (std::size_t i = 0; i < N; ++i)
  {
    MultiCameraPnPProblem pb;
    int firstCam = -1;
    for (int k = 0; k < R.n; ++k)
      if (!R.seen[std::size_t(k)][i].empty())
      {
        if (firstCam < 0) firstCam = k;
        pb.base_to_camera.push_back(cams[std::size_t(k)]);
        pb.intr.push_back(R.k[std::size_t(k)]);
        pb.image_observations.push_back(R.seen[std::size_t(k)][i]);
      }
    if (steps ? int(pb.intr.size()) != R.n : pb.intr.size() < 2) continue;
    pb.base_to_target_guess = R.set[0].poses[i] * w;
    MultiCameraPnPResult want;
    try { want = optimize(pb); }
    catch (const std::exception&) { c.count("refused by the library"); return; }
    const std::size_t title = t.out.find(cat("REPROJECT IMAGE "), at);
    if (!c.check(title != std::string::npos, "multi-reprojection", cat(d, ": image ", i, " is not reprojected"))) return;
    c.check(t.out.compare(title, 17 + (i > 9), cat("REPROJECT IMAGE ", i)) == 0, "multi-reprojection", cat(d, ": image ", i, " is reprojected as ", t.out.substr(title, 20)));
    at = title;
    sameCosts(c, t.out, want.converged, want.initial_cost_per_obs, want.final_cost_per_obs, "multi-reprojection", cat(d, ", image ", i), &at);
    const Iso b0 = pb.base_to_camera[0].inverse() * pb.base_to_target_guess, b1 = pb.base_to_camera[0].inverse() * want.base_to_target;
    pnpPrinted(c, t.out, &at, "CAMERA 0 TO TARGET", b0, "multi-reprojection", cat(d, ", image ", i));
    if (!steps) pnpPrinted(c, t.out, &at, "PNP", b1, "multi-reprojection", cat(d, ", image ", i));
    ids.push_back(tagOf(R.set[std::size_t(firstCam)].images[i]));
    ks.push_back(R.k[std::size_t(firstCam)]);
    before.push_back(b0);
    after.push_back(b1);
    pts.push_back(pb.image_observations[0]);
    ++j;
  }
  c.check(t.out.find("REPROJECT IMAGE", at + 1) == std::string::npos, "multi-reprojection", d + ": an image is reprojected that should not be");
  c.count("images reprojected", double(j));
  beforeAfter(c, t, ids, ks, before, after, pts, "multi-pictures", d);
}

VH_CASE(C28)
{
  g_dir = scratch() + cat("/tool", c.index);
  ::mkdir(g_dir.c_str(), 0755);
  struct Clean { ~Clean() { if (g_dir.size() > 5 && g_dir.find("/tool") != std::string::npos) { std::string cmd = "rm -rf '" + g_dir + "'"; (void)!std::system(cmd.c_str()); } } } clean;
  switch (c.index % 9)
  {
    case 0: handEye(c, true); break;
    case 1: handEye(c, false); break;
    case 2: intrinsic(c); break;
    case 3: validation(c); break;
    case 4: noise(c); break;
    case 5: pnp(c); break;
    case 6: multiPnp(c); break;
    case 7: multiStatic(c, false); break;
    case 8: multiStatic(c, true); break;
  }
}
