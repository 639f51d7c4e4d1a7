// C23: calibration data sets survive storage and are paired image by image
#include "img.h"
#include <boost/optional.hpp>
#include <fstream>
#include <opencv2/imgcodecs.hpp>
#include <rct_image_tools/target_finder.h>
#include <rct_optimizations/serialization/eigen.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/exceptions.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;
using namespace rct_ros_tools;
using XV = XmlRpc::XmlRpcValue;

static std::string freshDir(Case& c)
{
  static int n = 0;
  std::string d = cat(scratch(), "/set", n++);
  mkdir(d.c_str(), 0755);
  return d;
}
static void removeTree(const std::string& d)
{
  // only ever called with a directory made above, inside this process's scratch directory
  if (d.compare(0, scratch().size(), scratch()) != 0 || d.size() <= scratch().size() + 4) return;
  std::string cmd = "rm -rf '" + d + "'";
  if (std::system(cmd.c_str())) {}
}
static cv::Mat anyImage(Rng& r)
{
  cv::Mat m = noiseImage(r, r.range(1, 24), r.range(1, 24), CV_8UC3);
  m.at<cv::Vec3b>(0, 0) = cv::Vec3b(uchar(r.range(0, 255)), uchar(r.range(0, 255)), uchar(r.range(0, 255)));
  return m;
}
static Iso anyPose(Rng& r)
{
  Iso p = randPose(r, r.logu(1e-3, 100));
  if (r.chance(0.15)) p.linear() = Eigen::Matrix3d::Identity();
  if (r.chance(0.15)) p.linear() = rot(unit(r) * (M_PI - r.logu(1e-9, 1e-2)));
  if (r.chance(0.1)) p.translation().setZero();
  return p;
}
static bool samePose(const Iso& a, const Iso& b)
{
  return (a.translation() - b.translation()).norm() <= 1e-12 * (1 + b.translation().norm()) && (a.linear() - b.linear()).norm() < 1e-12;
}
static void spit(const std::string& path, const std::string& text)
{
  std::ofstream o(path, std::ios::binary);
  o << text;
}

static void storage(Case& c)
{
  Rng& r = c.rng;
  const std::string dir = freshDir(c);
  const std::string root = dir + (r.chance(0.5) ? "/data" : "");
  ExtrinsicDataSet d;
  const int n = r.chance(0.1) ? r.range(10, 14) : r.chance(0.008) ? r.range(98, 130) : r.range(0, 6);
  if (n > 97) c.count("large data sets");
  uint64_t h = uint64_t(n);
  for (int i = 0; i < n; ++i)
  {
    d.images.push_back(anyImage(r));
    d.tool_poses.push_back(anyPose(r));
    h = hashImg(d.images.back(), hashIso(d.tool_poses.back(), h));
  }
  c.nontrivial(h);
  const std::string what = cat(n, " images");
  if (r.chance(0.2))
  {
    // over an older, larger data set
    ExtrinsicDataSet old;
    for (int i = 0; i < n + r.range(0, 3); ++i)
    {
      old.images.push_back(anyImage(r));
      old.tool_poses.push_back(anyPose(r));
    }
    saveToDirectory(root, old);
    c.count("saved over an older set");
  }
  c.check(saveToDirectory(root, d), "save-failed", what);
  auto back = parseFromFile(root + "/data.yaml");
  if (!c.check(bool(back), "load-failed", what)) { removeTree(dir); return; }
  bool ok = c.check(back->images.size() == d.images.size() && back->tool_poses.size() == d.tool_poses.size(), "load-size", cat(what, ": ", back->images.size(), " images and ", back->tool_poses.size(), " poses"));
  for (std::size_t i = 0; ok && i < d.images.size(); ++i)
  {
    c.check(sameImg(back->images[i], d.images[i]), "image-changed", cat(what, ": image ", i));
    c.check(samePose(back->tool_poses[i], d.tool_poses[i]), "pose-changed", cat(what, ": pose ", i, " ", show(back->tool_poses[i]), " was ", show(d.tool_poses[i])));
    c.count("pairs read back");
  }
  if (r.chance(0.2))
  {
    // by a file name without a directory
    char old[4096];
    if (getcwd(old, sizeof old) && chdir(root.c_str()) == 0)
    {
      auto here = parseFromFile("data.yaml");
      auto dot = parseFromFile("./data.yaml");
      if (chdir(old)) {}
      c.check(here && here->images.size() == d.images.size(), "name-without-directory", what);
      c.check(dot && dot->images.size() == d.images.size(), "name-with-dot", what);
      c.count("read from its own directory");
    }
  }
  // faults: damaged, missing, exchanged
  if (n)
  {
    std::vector<int> gone(std::size_t(n), 0);
    std::ostringstream how;
    for (int k = r.range(1, 3); k > 0; --k)
    {
      const int i = r.range(0, n - 1);
      const std::string img = cat(root, "/images/", i, ".png"), pose = cat(root, "/poses/", i, ".yaml");
      const int kind = r.range(0, 7);
      how << " " << kind << "@" << i;
      gone[std::size_t(i)] = 1;
      switch (kind)
      {
        case 0: unlink(img.c_str()); break;
        case 1: unlink(pose.c_str()); break;
        case 2: spit(img, ""); break;
        case 3: spit(img, "this is not a picture"); break;
        case 4: spit(pose, ""); break;
        case 5: spit(pose, "x: 1\ny: 2\nz: 3\nqx: 0\nqy: 0\nqz: 0\n"); break;
        case 6: spit(pose, "x: 1\ny: two\nz: 3\nqx: 0\nqy: 0\nqz: 0\nqw: 1\n"); break;
        default: spit(pose, "- [1, 2\n: :"); break;
      }
    }
    boost::optional<ExtrinsicDataSet> got;
    try { got = parseFromFile(root + "/data.yaml"); }
    catch (const std::exception& e) { c.check(false, "damaged-set-throws", cat(what, how.str(), ": ", e.what())); }
    if (c.check(bool(got), "damaged-set-refused", cat(what, how.str())))
    {
      std::vector<std::size_t> want;
      for (std::size_t i = 0; i < gone.size(); ++i)
        if (!gone[i]) want.push_back(i);
      bool same = c.check(got->images.size() == want.size() && got->tool_poses.size() == want.size(), "damaged-set-size",
                          cat(what, how.str(), ": ", got->images.size(), " images, ", got->tool_poses.size(), " poses, ", want.size(), " pairs intact"));
      for (std::size_t i = 0; same && i < want.size(); ++i)
      {
        c.check(sameImg(got->images[i], d.images[want[i]]) && samePose(got->tool_poses[i], d.tool_poses[want[i]]), "damaged-set-pairing", cat(what, how.str(), ": pair ", i));
        c.count("pairs read beside damaged ones");
      }
      c.count("damaged sets");
    }
  }
  // index files by hand: other names and orders
  {
    std::ofstream o(root + "/other.yaml");
    std::vector<int> order;
    for (int k = r.range(0, 5); k > 0; --k) order.push_back(r.range(0, 3));
    std::vector<cv::Mat> imgs;
    std::vector<Iso> poses;
    for (int i = 0; i < 4; ++i)
    {
      imgs.push_back(anyImage(r));
      poses.push_back(anyPose(r));
      cv::imwrite(cat(root, "/img_", i, ".png"), imgs.back());
      YAML::Node y(poses.back());
      spit(cat(root, "/pose ", i), YAML::Dump(y));
    }
    for (int i : order)
    {
      if (r.chance(0.5)) o << "- pose: pose " << i << "\n  image: img_" << 3 - i << ".png\n";
      else o << "- {image: ./img_" << 3 - i << ".png, pose: \"pose " << i << "\", note: 7}\n";
    }
    if (order.empty()) o << "[]\n";
    o.close();
    auto got = parseFromFile(root + "/other.yaml");
    bool ok2 = got && got->images.size() == order.size() && got->tool_poses.size() == order.size();
    for (std::size_t i = 0; ok2 && i < order.size(); ++i) ok2 = sameImg(got->images[i], imgs[std::size_t(3 - order[i])]) && samePose(got->tool_poses[i], poses[std::size_t(order[i])]);
    c.check(ok2, "index-order", cat(order.size(), " entries by hand"));
    c.count("index files by hand");
  }
  // index files that are not
  {
    static const char* bad[] = { "- image: images/0.png\n", "- pose: poses/0.yaml\n", "- 5\n", "- [a, b]\n", "[1, 2", "- image: [a]\n  pose: {b: 1}\n" };
    const int k = r.range(0, 6);
    const std::string file = root + (k == 6 ? "/missing.yaml" : "/bad.yaml");
    if (k < 6) spit(file, bad[k]);
    bool refused = false;
    try { refused = !parseFromFile(file); }
    catch (const std::exception& e) { c.check(false, "bad-index-throws", cat(k, ": ", e.what())); }
    c.check(refused, "bad-index-accepted", k < 6 ? bad[k] : "no such file");
    c.count("bad index files");
  }
  // saving where it cannot be
  {
    const int k = r.range(0, 4);
    const std::string place = dir + "/nowhere";
    ExtrinsicDataSet e;
    e.images.push_back(anyImage(r));
    e.tool_poses.push_back(anyPose(r));
    std::string target = place;
    switch (k)
    {
      case 0: target = place + "/deep/er"; break;                     // no such parent
      case 1: spit(place, "a file"); break;                           // a file in its place
      case 2: mkdir(place.c_str(), 0755); mkdir((place + "/data.yaml").c_str(), 0755); break;
      case 3: mkdir(place.c_str(), 0755); mkdir((place + "/images").c_str(), 0755); mkdir((place + "/images/0.png").c_str(), 0755); break;
      default: mkdir(place.c_str(), 0755); mkdir((place + "/poses").c_str(), 0755); mkdir((place + "/poses/0.yaml").c_str(), 0755); break;
    }
    bool saved = false;
    try { saved = saveToDirectory(target, e); }
    catch (const std::exception&) {}
    c.check(!saved, "unsaved-reported-saved", cat("obstacle ", k));
    c.count("obstacles to saving");
  }
  removeTree(dir);
}

// ---- correspondence table ----
namespace
{
struct FakeTarget : rct_image_tools::Target
{
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override
  {
    rct_optimizations::Correspondence2D3D::Set s;
    for (auto& kv : f)
    {
      if (kv.first == 999) throw std::out_of_range("not on the target");
      for (auto& p : kv.second) s.push_back(Correspondence2D3D(p, V3(kv.first, 1, 2)));
    }
    return s;
  }
};
// The first pixel of a picture says what is found in it
struct FakeFinder : rct_image_tools::TargetFinder
{
  FakeTarget t;
  mutable int calls = 0;
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& image) const override
  {
    ++calls;
    const cv::Vec3b v = image.at<cv::Vec3b>(0, 0);
    rct_image_tools::TargetFeatures f;
    if (v[0] == 1) throw std::runtime_error("nothing there");
    if (v[0] == 2) return f;
    for (int i = 0; i < 1 + v[2] % 5; ++i) f[unsigned(i)].push_back(V2(v[1], i));
    if (v[0] == 3) f[999].push_back(V2(0, 0));
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& image, const rct_image_tools::TargetFeatures&) const override { return image; }
  const rct_image_tools::Target& target() const override { return t; }
};
}  // namespace
static void table(Case& c)
{
  Rng& r = c.rng;
  const int cams = r.chance(0.05) ? 0 : r.range(1, 5);
  const bool even = r.chance(0.6);
  const int n0 = r.range(0, 7);
  std::vector<ExtrinsicDataSet> sets;
  std::size_t most = 0;
  uint64_t h = 3;
  std::ostringstream what;
  for (int k = 0; k < cams; ++k)
  {
    ExtrinsicDataSet d;
    const int n = even ? n0 : r.range(0, 7);
    for (int i = 0; i < n; ++i)
    {
      cv::Mat m(1, 1, CV_8UC3);
      m.at<cv::Vec3b>(0, 0) = cv::Vec3b(uchar(r.chance(0.5) ? 0 : r.range(1, 3)), uchar(r.range(0, 255)), uchar(r.range(0, 255)));
      h = hashImg(m, h);
      d.images.push_back(m);
      d.tool_poses.push_back(Iso::Identity());
    }
    most = std::max(most, d.images.size());
    what << " " << n;
    sets.push_back(d);
  }
  const std::string d = cat(cams, " cameras with", what.str(), " images");
  c.nontrivial(hashBytes(d.data(), d.size(), h));
  c.sample(d);
  FakeFinder f;
  std::unique_ptr<ExtrinsicCorrespondenceDataSet> t;
  try { t.reset(new ExtrinsicCorrespondenceDataSet(sets, f)); }
  catch (const std::exception&)
  {
    // data sets that do not belong together may be refused
    bool odd = cams == 0;
    for (auto& s : sets) odd = odd || s.images.size() != sets[0].images.size();
    c.check(odd, "table-refused", d);
    c.count("tables refused");
    return;
  }
  c.count(even ? "tables" : "ragged tables");
  c.check(t->getCameraCount() == std::size_t(cams), "camera-count", cat(d, ": ", t->getCameraCount()));
  c.check(t->getImageCount() == most, "image-count", cat(d, ": ", t->getImageCount()));
  std::size_t images = std::min(most, t->getImageCount());
  std::vector<std::size_t> byImage(images, 0);
  for (std::size_t k = 0; k < std::size_t(cams); ++k)
  {
    std::size_t found = 0;
    for (std::size_t i = 0; i < images; ++i)
    {
      const bool there = i < sets[k].images.size();
      const cv::Vec3b v = there ? sets[k].images[i].at<cv::Vec3b>(0, 0) : cv::Vec3b(2, 0, 0);
      const bool want = there && v[0] == 0;
      c.check(t->foundCorrespondence(k, i) == want, "found-flag", cat(d, ": camera ", k, " image ", i));
      found += want;
      byImage[i] += want;
      auto& s = t->getCorrespondenceSet(k, i);
      if (want)
      {
        bool ok = s.size() == std::size_t(1 + v[2] % 5);
        for (std::size_t q = 0; ok && q < s.size(); ++q) ok = s[q].in_image == V2(v[1], double(q)) && s[q].in_target == V3(double(q), 1, 2);
        c.check(ok, "found-set", cat(d, ": camera ", k, " image ", i));
      }
      else
        c.check(s.empty(), "unfound-set", cat(d, ": camera ", k, " image ", i));
      c.count("table entries");
    }
    if (images) c.check(t->getCameraImageCount(k) == found, "camera-image-count", cat(d, ": camera ", k, " ", t->getCameraImageCount(k), " of ", found));
  }
  for (std::size_t i = 0; i < images && cams; ++i) c.check(t->getImageCameraCount(i) == byImage[i], "image-camera-count", cat(d, ": image ", i));
}

// ---- poses and intrinsics from parameters and files ----
static void loaders(Case& c)
{
  Rng& r = c.rng;
  auto number = [&]() { return r.chance(0.2) ? double(r.range(-5, 900)) : r.uni(-1, 1) * r.logu(1e-6, 1e4); };
  const bool pose = r.chance(0.5);
  std::map<std::string, double> v;
  Iso want = Iso::Identity();
  if (pose)
  {
    want = anyPose(r);
    Eigen::Quaterniond q(want.linear());
    const double s = r.chance(0.5) ? 1 : r.logu(0.01, 100) * r.sign();
    v = { { "x", want.translation().x() }, { "y", want.translation().y() }, { "z", want.translation().z() }, { "qx", s * q.x() }, { "qy", s * q.y() }, { "qz", s * q.z() }, { "qw", s * q.w() } };
  }
  else
    v = { { "fx", number() }, { "fy", number() }, { "cx", number() }, { "cy", number() } };
  std::string lost, odd;
  if (r.chance(0.4)) lost = std::next(v.begin(), r.range(0, int(v.size()) - 1))->first;
  else if (r.chance(0.4)) odd = std::next(v.begin(), r.range(0, int(v.size()) - 1))->first;
  const bool complete = lost.empty() && odd.empty();
  uint64_t h = 11;
  for (auto& kv : v) h = hashDouble(kv.second, h);
  c.nontrivial(h);
  const std::string d = cat(pose ? "pose" : "intrinsics", lost.empty() ? "" : " without ", lost, odd.empty() ? "" : " with an odd ", odd);
  auto right = [&](const Iso& p, double tol) { return (p.translation() - want.translation()).norm() <= tol * (1 + want.translation().norm()) && (p.linear() - want.linear()).norm() < tol; };
  auto rightK = [&](const CameraIntrinsics& k) { return k.fx() == v["fx"] && k.fy() == v["fy"] && k.cx() == v["cx"] && k.cy() == v["cy"]; };
  const Iso keepP = anyPose(r);
  CameraIntrinsics keepK = randIntr(r);
  // parameters
  {
    ros::NodeHandle nh;
    XV x = XV::emptyStruct();
    for (auto& kv : v)
    {
      if (kv.first == lost) continue;
      if (kv.first == odd) { if (r.chance(0.5)) x[kv.first] = XV("one"); else x[kv.first] = XV(r.chance(0.5)); }
      else x[kv.first] = XV(kv.second);
    }
    const int shape = complete && r.chance(0.2) ? r.range(1, 3) : 0;
    if (shape == 1) x = XV(3.0);
    if (shape == 2) x = XV::emptyArray();
    const std::string key = shape == 3 ? "elsewhere" : "calib/thing";
    nh.setParam(key, x);
    const bool good = complete && !shape;
    bool threw = false, said = false;
    Iso p = keepP;
    CameraIntrinsics k = keepK;
    try
    {
      if (pose) p = loadPose(nh, "calib/thing");
      else k = loadIntrinsics(nh, "calib/thing");
    }
    catch (const ros::InvalidParameterException&) { threw = true; }
    if (good)
    {
      c.check(!threw && (pose ? right(p, 1e-12) && isRigid(p, 1e-12) : rightK(k)), "parameters", d);
      c.count(pose ? "poses from parameters" : "intrinsics from parameters");
    }
    else
    {
      c.check(threw, "bad-parameters-accepted", cat(d, " shape ", shape));
      c.count("bad parameters");
    }
    p = keepP;
    k = keepK;
    said = pose ? loadPose(nh, "calib/thing", p) : loadIntrinsics(nh, "calib/thing", k);
    c.check(said == good, "parameters-verdict", d);
    if (!good) c.check(pose ? bitEqual(p, keepP) : k.values == keepK.values, "output-touched", d);
    else c.check(pose ? right(p, 1e-12) : rightK(k), "parameters", d);
  }
  // files
  {
    const std::string dir = freshDir(c), file = dir + "/thing.yaml";
    std::ostringstream o;
    o.precision(17);
    for (auto& kv : v)
      if (kv.first != lost) { if (kv.first == odd) o << kv.first << ": " << (r.chance(0.5) ? "one" : "[1]") << "\n"; else o << kv.first << ": " << kv.second << "\n"; }
    int shape = complete && r.chance(0.25) ? r.range(1, 5) : 0;
    std::string text = o.str(), path = file;
    if (shape == 1) text = "";
    if (shape == 2) text = "- 1\n- 2\n";
    if (shape == 3) text = "x: [1\n";
    if (shape == 4) path = dir + "/none.yaml";
    if (shape == 5) path = dir;
    spit(file, text);
    const bool good = complete && !shape;
    bool threw = false;
    Iso p = keepP;
    CameraIntrinsics k = keepK;
    try
    {
      if (pose) p = loadPose(path);
      else k = loadIntrinsics(path);
    }
    catch (const BadFileException&) { threw = true; }
    if (good)
    {
      c.check(!threw && (pose ? right(p, 1e-11) && isRigid(p, 1e-11) : rightK(k)), "file", cat(d, "\n", text));
      c.count(pose ? "poses from files" : "intrinsics from files");
    }
    else
    {
      c.check(threw, "bad-file-accepted", cat(d, " shape ", shape));
      c.count("bad files");
    }
    p = keepP;
    k = keepK;
    const bool said = pose ? loadPose(path, p) : loadIntrinsics(path, k);
    c.check(said == good, "file-verdict", d);
    if (!good) c.check(pose ? bitEqual(p, keepP) : k.values == keepK.values, "output-touched", d);
    removeTree(dir);
  }
}

VH_CASE(C23)
{
  switch (c.index % 4)
  {
    case 0: storage(c); break;
    case 1: table(c); break;
    default: loaders(c); break;
  }
}
