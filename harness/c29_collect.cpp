// C29: the data collection node pairs pictures with poses, keeps them, and saves them all
#include "img.h"
#include <boost/shared_ptr.hpp>
#include <dirent.h>
#include <fstream>
#include <opencv2/imgcodecs.hpp>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <pluginlib/class_loader.h>
#include <ros/ros.h>
#include <sensor_msgs/image_encodings.h>
#include <sys/stat.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>
using namespace vh;
int rct_node_main(int argc, char** argv);   // main() of command_line_cal.cpp

static std::shared_ptr<ros::NodeHandle::Table> g_params;
void ros::init(int&, char**, const std::string&, unsigned) { ros::NodeHandle::shared() = g_params; }

namespace
{
using Image = sensor_msgs::Image;
struct Pair
{
  cv::Mat img;
  bool judged = true;      // the picture's levels are known (not those of 16 bit pictures, whose reduction is the node's affair)
  Iso pose = Iso::Identity();
};
// A picture in some encoding, and what it is in BGR
Image message(const cv::Mat& bgr, const std::string& enc, Rng& r)
{
  Image m;
  m.encoding = enc;
  m.height = uint32_t(bgr.rows);
  m.width = uint32_t(bgr.cols);
  const int ch = enc == "mono8" ? 1 : enc == "mono16" ? 2 : enc == "bgra8" || enc == "rgba8" ? 4 : 3;
  const uint32_t pad = r.chance(0.4) ? uint32_t(r.range(1, 9)) : 0;
  m.step = m.width * uint32_t(ch) + pad;
  m.data.assign(std::size_t(m.step) * m.height, 0xA5);
  for (int y = 0; y < bgr.rows; ++y)
    for (int x = 0; x < bgr.cols; ++x)
    {
      const cv::Vec3b p = bgr.at<cv::Vec3b>(y, x);
      uint8_t* o = &m.data[std::size_t(y) * m.step + std::size_t(x) * ch];
      if (enc == "mono8") o[0] = p[0];
      else if (enc == "mono16") { const uint16_t v = uint16_t(p[0] * 257); std::memcpy(o, &v, 2); }
      else
      {
        const bool rgb = enc[0] == 'r';
        o[0] = p[rgb ? 2 : 0], o[1] = p[1], o[2] = p[rgb ? 0 : 2];
        if (ch == 4) o[3] = uint8_t(r.range(0, 255));
      }
    }
  return m;
}
cv::Mat fromMessage(const Image& m)
{
  cv::Mat o(int(m.height), int(m.width), CV_8UC3);
  if (m.encoding != "bgr8" || m.step < m.width * 3 || m.data.size() != std::size_t(m.step) * m.height) return cv::Mat();
  for (int y = 0; y < o.rows; ++y) std::memcpy(o.ptr(y), &m.data[std::size_t(y) * m.step], std::size_t(o.cols) * 3);
  return o;
}
// a grid of dots seen a little from the side
cv::Mat dots(Rng& r, int rows, int cols, bool whole)
{
  const double s = r.uni(22, 34);
  const int w = int(s * (cols + 3)), h = int(s * (rows + 3));
  cv::Mat g(h, w, CV_8UC1, cv::Scalar(235));
  const double a = r.uni(-0.2, 0.2), kx = r.uni(0.9, 1);
  const int skip = whole ? -1 : r.range(0, rows * cols - 1);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
    {
      if (i * cols + j == skip) continue;
      const double x = (j - (cols - 1) / 2.0) * s * kx, y = (i - (rows - 1) / 2.0) * s;
      const double R = s * (i == rows - 1 && j == 0 ? 0.4 : 0.2);
      paintEllipse(g, w / 2.0 + x * std::cos(a) - y * std::sin(a), h / 2.0 + x * std::sin(a) + y * std::cos(a), R * kx, R, a, 20, 3);
    }
  return toBgr(g);
}
cv::Mat colours(Rng& r)
{
  cv::Mat m = noiseImage(r, r.range(1, 60), r.range(1, 60), CV_8UC3);
  for (int k = 0; k < 3; ++k) m.at<cv::Vec3b>(r.range(0, m.rows - 1), r.range(0, m.cols - 1)) = cv::Vec3b(uchar(r.range(0, 255)), uchar(r.range(0, 255)), uchar(r.range(0, 255)));
  return m;
}
void removeTree(const std::string& d)
{
  // only ever called with a directory made below, inside this process's scratch directory
  if (d.compare(0, scratch().size(), scratch()) != 0 || d.size() <= scratch().size() + 4) return;
  std::string cmd = "rm -rf '" + d + "'";
  if (std::system(cmd.c_str())) {}
}
std::size_t entries(const std::string& d)
{
  std::size_t n = 0;
  if (DIR* f = ::opendir(d.c_str()))
  {
    while (dirent* e = ::readdir(f)) n += e->d_name[0] != '.';
    ::closedir(f);
  }
  return n;
}
// What lies in the directory, read without the code under test
void judgeSaved(Case& c, const std::string& dir, const std::vector<Pair>& want, const std::string& d)
{
  YAML::Node root;
  try { root = YAML::LoadFile(dir + "/data.yaml"); }
  catch (const std::exception& e) { c.fail("saved-index", cat(d, ": the index cannot be read: ", e.what())); return; }
  if (!c.check(root.size() == want.size(), "saved-count", cat(d, ": ", root.size(), " entries for ", want.size(), " collected pairs"))) return;
  for (std::size_t i = 0; i < want.size(); ++i)
  {
    const std::string w = cat(d, ": pair ", i, " of ", want.size());
    try
    {
      const cv::Mat img = cv::imread(dir + "/" + root[i]["image"].as<std::string>(), cv::IMREAD_UNCHANGED);
      const YAML::Node p = YAML::LoadFile(dir + "/" + root[i]["pose"].as<std::string>());
      if (want[i].judged) c.check(sameImg(img, want[i].img), "saved-picture", w + ": another picture");
      else c.check(img.size() == want[i].img.size() && img.type() == CV_8UC3, "saved-picture", w + ": another picture");
      const V3 t(p["x"].as<double>(), p["y"].as<double>(), p["z"].as<double>());
      const Eigen::Quaterniond q(p["qw"].as<double>(), p["qx"].as<double>(), p["qy"].as<double>(), p["qz"].as<double>());
      c.near((t - want[i].pose.translation()).norm(), 0, 1e-10 * (1 + want[i].pose.translation().norm()), "saved-pose", w + ": position");
      c.near((q.toRotationMatrix() - want[i].pose.linear()).norm(), 0, 1e-10, "saved-pose", w + ": orientation");
    }
    catch (const std::exception& e) { c.fail("saved-pair", cat(w, ": ", e.what())); return; }
  }
  c.count("saved pairs judged", double(want.size()));
}
}  // namespace

VH_CASE(C29)
{
  Rng& r = c.rng;
  static int serial = 0;
  const std::string dir = cat(scratch(), "/node", serial++);
  ::mkdir(dir.c_str(), 0755);
  const std::string save = dir + (r.chance(0.5) ? "/set" : "/a b");
  const std::string base = r.chance(0.5) ? "base_link" : "world", tool = r.chance(0.5) ? "tool0" : "flange";
  const std::string topic = r.chance(0.5) ? "camera/image_raw" : "/left/image";
  const int rows = r.range(4, 6), cols = r.range(4, 6);
  const int kind = r.range(0, 2);

  auto& w = ros_stub::world();
  w = ros_stub::World();
  auto& log = ros_stub::log();
  g_params = std::make_shared<ros::NodeHandle::Table>();
  XmlRpc::XmlRpcValue tf;
  tf["rows"] = XmlRpc::XmlRpcValue(rows);
  tf["cols"] = XmlRpc::XmlRpcValue(cols);
  if (kind == 0)
  {
    tf["type"] = XmlRpc::XmlRpcValue(std::string("rct_ros_tools::CharucoGridTargetFinderPlugin"));
    tf["chessboard_dim"] = XmlRpc::XmlRpcValue(0.05);
    tf["aruco_marker_dim"] = XmlRpc::XmlRpcValue(0.03);
    tf["dictionary"] = XmlRpc::XmlRpcValue(int(6));
  }
  else
  {
    tf["type"] = XmlRpc::XmlRpcValue(std::string("rct_ros_tools::ModifiedCircleGridTargetFinderPlugin"));
    tf["spacing"] = XmlRpc::XmlRpcValue(0.05);
  }
  auto put = [&](const char* k, const std::string& v) { (*g_params)[k] = XmlRpc::XmlRpcValue(v); };
  put("base_frame", base);
  put("tool_frame", tool);
  put("image_topic", topic);
  put("save_dir", save);
  (*g_params)["target_finder"] = tf;

  Iso pose = randPose(r, 2);
  bool known = true;
  w.frames = [&](const std::string& b, const std::string& t, double o[7]) {
    if (!known) return false;
    Iso p;
    if (b == base && t == tool) p = pose;
    else if (b == tool && t == base) p = pose.inverse();
    else return false;
    const Eigen::Quaterniond q(p.linear());
    o[0] = p.translation().x(), o[1] = p.translation().y(), o[2] = p.translation().z(), o[3] = q.x(), o[4] = q.y(), o[5] = q.z(), o[6] = q.w();
    return true;
  };

  char arg0[] = "node";
  char* argv[] = { arg0, nullptr };
  bool spun = false;
  if (c.index % 6 == 5)
  {
    // it must not start, and say why
    std::string what;
    const int k = r.range(0, 7);
    const char* names[] = { "base_frame", "tool_frame", "image_topic", "save_dir", "target_finder" };
    if (k < 5) { g_params->erase(names[k]); what = cat("without ", names[k]); }
    else if (k == 5) { known = false; what = "transform unknown"; }
    else if (k == 6) { tf["type"] = XmlRpc::XmlRpcValue(std::string("rct_ros_tools::NoSuchFinder")); (*g_params)["target_finder"] = tf; what = "unknown finder"; }
    else
    {
      XmlRpc::XmlRpcValue t2;
      t2["type"] = tf["type"];
      t2["rows"] = tf["rows"];
      (*g_params)["target_finder"] = t2;
      what = "finder without columns";
    }
    w.spin = [&] { spun = true; };
    const int e0 = log.error;
    const int rc = rct_node_main(1, argv);
    c.check(rc != 0 && !spun, "started", what + ": the node starts nevertheless");
    c.check(log.error > e0, "silent", what + ": no error message");
    c.check(w.services.empty() && w.subs.empty(), "left-behind", what);
    c.count("refused starts");
    w = ros_stub::World();
    removeTree(dir);
    return;
  }

  boost::shared_ptr<rct_ros_tools::TargetFinderPlugin> finder = pluginlib::ClassLoader<rct_ros_tools::TargetFinderPlugin>("", "").createInstance(static_cast<std::string>(tf["type"]));
  finder->init(rct_ros_tools::toYAML(tf));

  uint64_t h = hashBytes(save.data(), save.size(), uint64_t(rows * 16 + cols));
  w.spin = [&] {
    spun = true;
    std::vector<Pair> model;
    bool have = false;
    Pair last;
    std::string story;
    const int n = r.chance(0.03) ? r.range(90, 140) : r.range(6, 24);
    int blocked = 0;
    uint32_t seq = 0;
    auto call = [&](const std::string& name, bool* ok) {
      if (!c.check(w.services.count(name) == 1, "services", cat(w.services.count(name), " services called ", name))) return false;
      std_srvs::EmptyRequest a;
      std_srvs::EmptyResponse b;
      try { *ok = w.services.find(name)->second.call(a, b); return true; }
      catch (const std::exception& e) { c.fail("ended", cat(story, ": ", name, " ends the node: ", e.what())); return false; }
    };
    auto doSave = [&]() {
      bool ok = false;
      const int e0 = log.error + log.warn;
      if (!call("save", &ok)) return false;
      if (blocked)
      {
        c.check(!ok, "save-reported", cat(story, ": reported as saved, but it was not"));
        c.check(log.error + log.warn > e0, "save-silent", cat(story, ": no message about the failed save"));
        c.count("failed saves");
      }
      else if (c.check(ok, "save-refused", cat(story, ": saving fails")))
      {
        judgeSaved(c, save, model, story);
        c.count("saves");
      }
      return true;
    };
    for (int e = 0; e <= n; ++e)
    {
      ros::Time::clock().nsec += 1000;
      const int what = e == n ? 99 : r.range(0, 15);
      if (what < 5)
      {
        // a picture arrives
        static const char* enc[] = { "bgr8", "bgr8", "mono8", "rgb8", "bgra8", "rgba8", "mono16" };
        const std::string en = enc[r.range(0, 6)];
        Pair p;
        p.img = r.chance(0.3) ? dots(r, rows, cols, r.chance(0.8)) : colours(r);
        if (en.compare(0, 4, "mono") == 0) cv::cvtColor(p.img, p.img, cv::COLOR_BGR2GRAY), p.img = toBgr(p.img);
        p.judged = en != "mono16";
        Image m = message(p.img, en, r);
        const bool bad = r.chance(0.12);
        if (bad)
        {
          if (r.chance(0.5)) m.encoding = r.chance(0.5) ? "nonsense" : "32FC1", m.step = m.width * 4, m.data.resize(std::size_t(m.step) * m.height);
          else m.data.resize(m.data.size() - std::size_t(r.range(1, int(m.data.size()))));
        }
        m.header.seq = ++seq;
        m.header.stamp = ros::Time(1000 + seq, uint32_t(r.range(0, 999999999)));
        m.header.frame_id = cat("camera", seq % 3);
        story += cat(bad ? " bad-" : " ", "picture(", en, " ", p.img.cols, "x", p.img.rows, ")");
        h = hashImg(p.img, h);
        w.published.clear();
        const int e0 = log.error;
        if (!c.check(w.subs.count(topic) == 1, "topic", cat(w.subs.count(topic), " subscriptions to ", topic))) return;
        auto msg = boost::make_shared<Image>(m);
        try { w.subs.find(topic)->second.call(msg); }
        catch (const std::exception& x) { c.fail("ended", cat(story, ": the node ends: ", x.what())); return; }
        c.check(msg->data == m.data, "message-changed", story + ": the message is changed, which others share");
        std::fill(msg->data.begin(), msg->data.end(), uint8_t(0x5A));   // (the driver reuses its buffer)
        if (bad)
        {
          c.check(w.published.empty(), "observer", story + ": an observer picture for a damaged one");
          c.check(log.error > e0, "picture-silent", story + ": no message about the damaged picture");
          c.count("damaged pictures");
          continue;
        }
        c.count("pictures");
        if (!c.check(w.published.size() == 1 && w.published[0].first == topic + "_observer", "observer", cat(story, ": ", w.published.size(), " observer pictures"))) return;
        const Image& o = w.published[0].second;
        c.check(o.header.seq == m.header.seq && o.header.stamp == m.header.stamp && o.header.frame_id == m.header.frame_id, "observer-header", story + ": the observer picture has another header");
        const cv::Mat seen = fromMessage(o);
        if (!c.check(!seen.empty() && seen.size() == p.img.size(), "observer", story + ": the observer picture is malformed")) return;
        if (p.judged)
        {
          cv::Mat should = p.img;
          try
          {
            rct_image_tools::TargetFeatures f = finder->findTargetFeatures(p.img);
            should = finder->drawTargetFeatures(p.img, f);
            if (!f.empty()) c.count("targets seen");
          }
          catch (const std::exception&) { c.count("no target"); }
          // (the colours of the marks are random: the same places are marked)
          int differ = 0, marked = 0;
          for (int y = 0; y < seen.rows; ++y)
            for (int x = 0; x < seen.cols; ++x)
            {
              const bool a = seen.at<cv::Vec3b>(y, x) != p.img.at<cv::Vec3b>(y, x), b = should.at<cv::Vec3b>(y, x) != p.img.at<cv::Vec3b>(y, x);
              differ += a != b;
              marked += b;
            }
          c.check(differ <= marked * 0.05, "observer-picture", cat(story, ": the observer picture differs from the detection at ", differ, " places, ", marked, " marked"));
        }
        last = p;
        last.img = p.img.clone();
        have = true;
      }
      else if (what < 8)
      {
        pose = randPose(r, r.logu(1e-3, 50));
        h = hashIso(pose, h);
        story += " move";
      }
      else if (what == 8)
      {
        known = !known;
        story += known ? " tf" : " no-tf";
      }
      else if (what < 14)
      {
        bool ok = false;
        story += " collect";
        const int e0 = log.error + log.warn;
        if (!call("collect", &ok)) return;
        const bool want = known && have;
        c.check(ok == want, "collect-reported", cat(story, ": reported as ", ok ? "collected" : "failed"));
        if (want)
        {
          Pair p = last;
          p.pose = pose;
          model.push_back(p);
          c.count("pairs collected");
        }
        else
        {
          c.check(log.error + log.warn > e0, "collect-silent", story + ": no message");
          c.count("nothing to collect");
        }
      }
      else if (what == 14)
      {
        story += blocked ? " blocked-save" : " save";
        if (!doSave()) return;
      }
      else if (what == 15)
      {
        struct stat st;
        if (blocked == 1) { ::unlink(save.c_str()); if (!::stat((save + ".kept").c_str(), &st)) ::rename((save + ".kept").c_str(), save.c_str()); blocked = 0; story += " unblock"; }
        else if (blocked == 2) { ::rmdir((save + "/data.yaml").c_str()); blocked = 0; story += " unblock"; }
        else if (r.chance(0.5))
        {
          ::rename(save.c_str(), (save + ".kept").c_str());
          std::ofstream(save) << "in the way";
          blocked = 1;
          story += " block";
        }
        else
        {
          ::mkdir(save.c_str(), 0755);
          ::unlink((save + "/data.yaml").c_str());
          ::mkdir((save + "/data.yaml").c_str(), 0755);
          blocked = 2;
          story += " block-index";
        }
      }
      else
      {
        if (blocked == 1) { ::unlink(save.c_str()); ::rename((save + ".kept").c_str(), save.c_str()); }
        if (blocked == 2) ::rmdir((save + "/data.yaml").c_str());
        blocked = 0;
        story += " final-save";
        if (!doSave()) return;
        c.check(entries(save + "/images") == model.size() && entries(save + "/poses") == model.size(), "saved-files", cat(story, ": ", entries(save + "/images"), " pictures and ", entries(save + "/poses"), " poses for ", model.size(), " pairs"));
        if (model.size() > 1) c.nontrivial(h);
      }
    }
    c.count("sessions");
  };
  const int rc = rct_node_main(1, argv);
  c.check(spun, "not-started", "the node does not start");
  c.check(rc == 0 || c.fails, "exit-status", cat("exit status ", rc));
  c.check(w.services.empty() && w.subs.empty(), "left-behind", "services or subscriptions outlive the node");
  c.sample(cat("session with ", rows, "x", cols, " finder ", kind));
  w = ros_stub::World();
  removeTree(dir);
}
