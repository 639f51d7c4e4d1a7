// C24: target finder plugins are configured exactly as their parameters say
#include "img.h"
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <pluginlib/class_list_macros.h>
#include <ros/console.h>
#include <yaml-cpp/yaml.h>
using namespace vh;
using namespace rct_image_tools;
using rct_ros_tools::TargetFinderPlugin;
using XV = XmlRpc::XmlRpcValue;

// The finder inside a plugin, if it is where it used to be (otherwise only behaviour is compared)
template <typename B>
struct Peek : B
{
  template <typename P = Peek>
  static auto get(const B& p, int) -> decltype(std::shared_ptr<const TargetFinder>(p.*(&P::finder_)))
  {
    return p.*(&P::finder_);
  }
  static std::shared_ptr<const TargetFinder> get(const B&, long) { return nullptr; }
};

// ---- parameter structures and what they say
static const char* odd[] = {"", " ", "true", "no", "~", "null", "1e3", "0x1F", "- a", "a: b", "#c", "\"q\"", "é", "line\nbreak", "{}", "[1, 2]", "%TAG", "'", "\\"};
static std::string word(Rng& r)
{
  if (r.chance(0.4)) return odd[r.range(0, int(sizeof odd / sizeof *odd) - 1)];
  std::string s;
  for (int i = r.range(1, 9); i; --i) s += char(r.range(32, 126));
  return s;
}
static double number(Rng& r)
{
  switch (r.range(0, 6))
  {
    case 0: return 0;
    case 1: return r.range(-1000, 1000);
    case 2: return r.sign() * r.logu(1e-300, 1e300);
    case 3: return 0.1 * r.range(-99, 99);
    case 4: return std::nextafter(double(r.range(1, 9)), 0.0);
    case 5: return r.sign() * std::numeric_limits<double>::infinity();
    default: return r.uni(-1, 1);
  }
}
static int whole(Rng& r) { return r.chance(0.1) ? (r.chance(0.5) ? INT_MIN : INT_MAX) : r.range(-100000, 100000); }

// bad: set when the structure holds something that cannot be converted
static XV anyStruct(Rng& r, int depth, bool wantBad, bool& bad, Case& c)
{
  XV s = XV::emptyStruct();
  const int n = r.range(depth ? 0 : 1, 6);
  for (int i = 0; i < n; ++i)
  {
    const std::string key = r.chance(0.1) ? word(r) + char('a' + i) : cat("k", i, char('a' + r.range(0, 25)));
    const int kind = r.range(0, wantBad ? 9 : 7);
    switch (kind)
    {
      case 0: s[key] = XV(r.chance(0.5)); break;
      case 1: s[key] = XV(whole(r)); break;
      case 2: s[key] = XV(number(r)); break;
      case 3: s[key] = XV(word(r)); break;
      case 4:
        if (depth < 4) { s[key] = anyStruct(r, depth + 1, wantBad, bad, c); c.count("nested structures"); break; }
        s[key] = XV(1);
        break;
      case 5: case 6: case 7:
      {
        XV a = XV::emptyArray();
        const int t = r.range(0, 3), m = r.range(0, 6);
        for (int j = 0; j < m; ++j)
        {
          if (t == 0) a[j] = XV(r.chance(0.5));
          else if (t == 1) a[j] = XV(whole(r));
          else if (t == 2) a[j] = XV(number(r));
          else a[j] = XV(word(r));
        }
        c.count(m ? "arrays" : "empty arrays");
        s[key] = a;
        break;
      }
      case 8:
        s[key] = XV::ofType(r.chance(0.3) ? XV::TypeInvalid : r.chance(0.5) ? XV::TypeDateTime : XV::TypeBase64);
        bad = true;
        c.count("entries of unsupported types");
        break;
      default:
      {
        XV a = XV::emptyArray();
        if (r.chance(0.5))
        {
          // elements of different kinds
          const int k0 = r.range(0, 3), k1 = (k0 + r.range(1, 3)) % 4, m = r.range(2, 5), at = r.range(1, m - 1);
          for (int j = 0; j < m; ++j)
          {
            const int t = j == at ? k1 : k0;
            if (t == 0) a[j] = XV(true);
            else if (t == 1) a[j] = XV(3);
            else if (t == 2) a[j] = XV(2.5);
            else a[j] = XV("x");
          }
          c.count("arrays of mixed kinds");
        }
        else
        {
          // elements that are no plain values
          for (int j = 0, m = r.range(1, 3), t = r.range(0, 2); j < m; ++j)
            a[j] = t == 0 ? XV::emptyArray() : t == 1 ? XV::emptyStruct() : XV::ofType(XV::TypeDateTime);
          c.count("arrays of no plain values");
        }
        s[key] = a;
        bad = true;
      }
    }
  }
  return s;
}
static void compare(Case& c, XV& v, const YAML::Node& n, const std::string& at)
{
  const auto wrong = [&](const std::string& what) { c.fail("value", cat("the entry ", at, " ", what)); };
  c.count("converted values");
  try
  {
    switch (v.getType())
    {
      case XV::TypeBoolean:
        if (!n.IsScalar() || n.as<bool>() != bool(static_cast<bool&>(v))) wrong("was converted to another truth value");
        break;
      case XV::TypeInt:
        if (!n.IsScalar() || n.as<int>() != static_cast<int&>(v)) wrong(cat(static_cast<int&>(v), " was converted to ", n.Scalar()));
        break;
      case XV::TypeDouble:
        if (!n.IsScalar() || n.as<double>() != static_cast<double&>(v)) wrong(cat(static_cast<double&>(v), " was converted to ", n.Scalar()));
        break;
      case XV::TypeString:
        if (!n.IsScalar() || n.as<std::string>() != static_cast<std::string&>(v)) wrong(cat("'", static_cast<std::string&>(v), "' was converted to another text"));
        break;
      case XV::TypeArray:
        if (!n.IsSequence() || int(n.size()) != v.size()) { wrong(cat("with ", v.size(), " elements was converted to ", n.size())); break; }
        for (int i = 0; i < v.size(); ++i) compare(c, v[i], n[i], cat(at, "[", i, "]"));
        break;
      default:
      {
        if (v.size() == 0) { if (n.size() != 0) wrong("without members has members"); break; }
        if (!n.IsMap() || int(n.size()) != v.size()) { wrong(cat("with ", v.size(), " members was converted to ", n.size())); break; }
        for (auto& m : v)
        {
          const YAML::Node sub = n[m.first];
          if (!sub.IsDefined()) { wrong(cat("lost its member ", m.first)); continue; }
          compare(c, m.second, sub, cat(at, ".", m.first));
        }
      }
    }
  }
  catch (const YAML::Exception& e) { wrong(cat("was converted to something else: ", e.what())); }
}
static void structures(Case& c)
{
  Rng& r = c.rng;
  bool bad = false;
  const bool top = r.chance(0.05);
  XV v = top ? (r.chance(0.5) ? XV(3.5) : r.chance(0.5) ? XV::emptyArray() : XV("text")) : anyStruct(r, 0, r.chance(0.3), bad, c);
  if (top) bad = true;
  bool threw = false;
  YAML::Node n;
  try { n = rct_ros_tools::toYAML(v); }
  catch (const std::exception&) { threw = true; }
  catch (const XmlRpc::XmlRpcException& e) { c.fail("foreign exception", cat("converting a parameter structure threw an exception that is no std::exception: ", e.getMessage())); return; }
  if (bad) { c.check(threw, "unsupported parameter accepted", "a structure with an entry that has no YAML counterpart was converted"); c.count("unsupported structures refused"); }
  else if (c.check(!threw, "parameters refused", "a structure of plain values, arrays and structures was refused")) compare(c, v, n, "");
}

// ---- configurations: kept as an ordered list of entries, given to the plugin as YAML text or through parameter structures
struct Val
{
  enum { Int, Dbl, Bool, Str, Raw } kind = Int;
  long i = 0;
  double d = 0;
  bool b = false;
  std::string s;
};
static Val vi(long i) { Val v; v.kind = Val::Int; v.i = i; return v; }
static Val vd(double d) { Val v; v.kind = Val::Dbl; v.d = d; return v; }
static Val vb(bool b) { Val v; v.kind = Val::Bool; v.b = b; return v; }
static Val vs(const std::string& s) { Val v; v.kind = Val::Str; v.s = s; return v; }
static Val raw(const std::string& s) { Val v; v.kind = Val::Raw; v.s = s; return v; }
using Entries = std::vector<std::pair<std::string, Val>>;
static std::string text(Rng& r, const Val& v)
{
  std::ostringstream o;
  o.precision(17);
  switch (v.kind)
  {
    case Val::Int: o << v.i; break;
    case Val::Dbl: o << v.d; break;
    case Val::Bool: { static const char* t[] = {"true", "True", "yes", "on"}; static const char* f[] = {"false", "False", "no", "off"}; o << (v.b ? t : f)[r.range(0, 3)]; break; }
    case Val::Str: o << '"' << v.s << '"'; break;
    default: o << v.s;
  }
  return o.str();
}
static std::string block(Rng& r, const Entries& e, const Entries* sub, const std::string& subName)
{
  std::ostringstream o;
  const bool flow = r.chance(0.3);
  const int at = sub ? r.range(0, int(e.size())) : -1;
  const auto nested = [&]() {
    if (flow)
    {
      o << subName << ": {";
      for (std::size_t k = 0; k < sub->size(); ++k) o << (k ? ", " : "") << (*sub)[k].first << ": " << text(r, (*sub)[k].second);
      o << "}";
    }
    else
    {
      o << subName << ":\n";
      if (sub->empty()) o << "  {}\n";
      for (const auto& k : *sub) o << "  " << k.first << ": " << text(r, k.second) << "\n";
    }
  };
  if (flow)
  {
    o << "{";
    bool first = true;
    for (int i = 0; i <= int(e.size()); ++i)
    {
      if (i == at) { o << (first ? "" : ", "); nested(); first = false; }
      if (i < int(e.size())) { o << (first ? "" : ", ") << e[std::size_t(i)].first << ": " << text(r, e[std::size_t(i)].second); first = false; }
    }
    o << "}";
  }
  else
  {
    for (int i = 0; i <= int(e.size()); ++i)
    {
      if (i == at) nested();
      if (i < int(e.size())) o << e[std::size_t(i)].first << ": " << text(r, e[std::size_t(i)].second) << "\n";
    }
    if (e.empty() && !sub) o << "{}\n";
  }
  return o.str();
}
static XV xml(const Val& v)
{
  switch (v.kind)
  {
    case Val::Int: return XV(int(v.i));
    case Val::Dbl: return XV(v.d);
    case Val::Bool: return XV(v.b);
    default: return XV(v.s);
  }
}
static XV xml(const Entries& e)
{
  XV x = XV::emptyStruct();
  for (const auto& k : e) x[k.first] = xml(k.second);
  return x;
}
// Configuration of a plugin; false: refused
static bool configure(Case& c, TargetFinderPlugin& p, const Entries& e, const Entries* sub, std::string& shown)
{
  Rng& r = c.rng;
  bool plain = true;
  for (const auto& k : e) plain = plain && k.second.kind != Val::Raw;
  if (sub) for (const auto& k : *sub) plain = plain && k.second.kind != Val::Raw;
  try
  {
    if (plain && r.chance(0.5))
    {
      XV x = xml(e);
      if (sub) x["circle_detector_params"] = xml(*sub);
      shown = "(as parameters) " + block(r, e, sub, "circle_detector_params");
      c.count("configured from parameters");
      p.init(rct_ros_tools::toYAML(x));
    }
    else
    {
      shown = block(r, e, sub, "circle_detector_params");
      c.count("configured from text");
      p.init(YAML::Load(shown));
    }
    return true;
  }
  catch (const std::exception&) { return false; }
  catch (const XmlRpc::XmlRpcException& x) { c.fail("foreign exception", cat("a configuration threw an exception that is no std::exception: ", x.getMessage(), "\n", shown)); return false; }
}
static Val wrongKind(Rng& r, bool integer)
{
  switch (r.range(0, integer ? 8 : 6))
  {
    case 0: return vs("seven");
    case 1: return raw("[3, 4]");
    case 2: return raw("{a: 3}");
    case 3: return raw("~");
    case 4: return vb(r.chance(0.5));
    case 5: return raw("3 4");
    case 6: return raw("\"\"");
    case 7: return vd(r.range(2, 9) + 0.5);
    default: return raw("99999999999999999999");
  }
}
// Removes or spoils one of the required entries
static void spoil(Case& c, Entries& e, const std::set<std::string>& integers, const std::set<std::string>& counts)
{
  Rng& r = c.rng;
  std::vector<std::size_t> req;
  for (std::size_t i = 0; i < e.size(); ++i)
    if (e[i].first.compare(0, 5, "extra")) req.push_back(i);
  const std::size_t i = req[std::size_t(r.range(0, int(req.size()) - 1))];
  if (r.chance(0.4))
  {
    if (r.chance(0.5)) e.erase(e.begin() + long(i));
    else e[i].first = r.chance(0.5) ? e[i].first + "s" : "my_" + e[i].first;
    c.count("configurations without an entry");
    return;
  }
  if (counts.count(e[i].first) && r.chance(0.25))
  {
    e[i].second = vi(-r.range(1, 20));
    c.count("configurations with a negative number of rows or columns");
    return;
  }
  e[i].second = wrongKind(r, integers.count(e[i].first) > 0);
  c.count("configurations with an entry of the wrong kind");
}
static void extras(Case& c, Entries& e)
{
  Rng& r = c.rng;
  for (int i = r.range(0, 2); i; --i) e.push_back({cat("extra", i), r.chance(0.5) ? vi(r.range(0, 9)) : vs("note")});
  r.shuffle(e);
}

// ---- what a finder does with pictures
struct Outcome
{
  bool threw = false;
  TargetFeatures f;
  cv::Mat drawn;
};
static Outcome look(const TargetFinder& f, const cv::Mat& img)
{
  Outcome o;
  cv::theRNG().state = 4711;   // keypoints are drawn in random colours
  try
  {
    o.f = f.findTargetFeatures(img);
    o.drawn = f.drawTargetFeatures(img, o.f);
  }
  catch (const std::exception&) { o.threw = true; }
  return o;
}
static void sameBehaviour(Case& c, const TargetFinder& a, const TargetFinder& b, const cv::Mat& img, const std::string& shown)
{
  const Outcome x = look(a, img), y = look(b, img);
  c.count(x.threw ? "pictures refused by both" : x.f.empty() ? "pictures without features" : "pictures with features");
  c.check(x.threw == y.threw, "another outcome", cat("the finder of a plugin ", x.threw ? "refuses" : "accepts", " a picture, one constructed directly does not agree; configuration\n", shown));
  if (x.threw || y.threw) return;
  bool same = x.f.size() == y.f.size();
  for (auto i = x.f.begin(), j = y.f.begin(); same && i != x.f.end(); ++i, ++j)
  {
    same = i->first == j->first && i->second.size() == j->second.size();
    for (std::size_t k = 0; same && k < i->second.size(); ++k) same = i->second[k] == j->second[k];
  }
  c.check(same, "other features", cat("the finder of a plugin reports other features (", x.f.size(), ") than one constructed directly (", y.f.size(), "); configuration\n", shown));
  c.check(sameImg(x.drawn, y.drawn), "another drawing", cat("the finder of a plugin draws another picture than one constructed directly; configuration\n", shown));
}

// ---- detector parameters
static CircleDetectorParams anyDetector(Rng& r, bool tame)
{
  CircleDetectorParams p;
  const auto f = [&](double v) { return static_cast<float>(v); };
  p.minThreshold = f(tame ? r.range(20, 80) : r.uni(0, 120));
  p.maxThreshold = f(tame ? r.range(160, 240) : r.uni(121, 255));
  p.nThresholds = std::size_t(r.range(3, 24));
  p.minRepeatability = std::size_t(r.range(1, int(p.nThresholds)));
  p.circleInclusionRadius = f(r.uni(1, 9));
  p.maxRadiusDiff = f(r.uni(1, 9));
  p.maxAverageEllipseError = f(r.logu(0.002, 0.2));
  p.filterByColor = r.chance(0.5);
  p.circleColor = r.chance(0.5) ? 0 : 255;
  p.filterByArea = r.chance(0.5);
  p.minArea = f(r.logu(5, 500));
  p.maxArea = p.minArea + f(r.logu(10, 20000));
  p.filterByCircularity = r.chance(0.5);
  p.minCircularity = f(r.uni(0.3, 0.95));
  p.maxCircularity = f(r.chance(0.3) ? r.uni(1, 2) : r.logu(1, 1e30));
  p.filterByInertia = r.chance(0.5);
  p.minInertiaRatio = f(r.uni(0.05, 0.9));
  p.maxInertiaRatio = f(r.chance(0.3) ? r.uni(1, 2) : r.logu(1, 1e30));
  p.filterByConvexity = r.chance(0.5);
  p.minConvexity = f(r.uni(0.3, 0.99));
  p.maxConvexity = f(r.chance(0.3) ? r.uni(1, 2) : r.logu(1, 1e30));
  return p;
}
static Entries detectorEntries(const CircleDetectorParams& p)
{
  return {{"nThresholds", vi(long(p.nThresholds))}, {"minThreshold", vd(p.minThreshold)}, {"maxThreshold", vd(p.maxThreshold)}, {"minRepeatability", vi(long(p.minRepeatability))},
          {"circleInclusionRadius", vd(p.circleInclusionRadius)}, {"maxRadiusDiff", vd(p.maxRadiusDiff)}, {"maxAverageEllipseError", vd(p.maxAverageEllipseError)},
          {"filterByColor", vb(p.filterByColor)}, {"circleColor", vi(p.circleColor)}, {"filterByArea", vb(p.filterByArea)}, {"minArea", vd(p.minArea)}, {"maxArea", vd(p.maxArea)},
          {"filterByCircularity", vb(p.filterByCircularity)}, {"minCircularity", vd(p.minCircularity)}, {"maxCircularity", vd(p.maxCircularity)},
          {"filterByInertia", vb(p.filterByInertia)}, {"minInertiaRatio", vd(p.minInertiaRatio)}, {"maxInertiaRatio", vd(p.maxInertiaRatio)},
          {"filterByConvexity", vb(p.filterByConvexity)}, {"minConvexity", vd(p.minConvexity)}, {"maxConvexity", vd(p.maxConvexity)}};
}
static std::string differs(const CircleDetectorParams& a, const CircleDetectorParams& b)
{
#define VH_P(F) if (!(a.F == b.F)) return cat(#F, " is ", double(a.F), ", not ", double(b.F));
  VH_P(nThresholds) VH_P(minThreshold) VH_P(maxThreshold) VH_P(minRepeatability) VH_P(circleInclusionRadius) VH_P(maxRadiusDiff) VH_P(maxAverageEllipseError)
  VH_P(filterByColor) VH_P(circleColor) VH_P(filterByArea) VH_P(minArea) VH_P(maxArea) VH_P(filterByCircularity) VH_P(minCircularity) VH_P(maxCircularity)
  VH_P(filterByInertia) VH_P(minInertiaRatio) VH_P(maxInertiaRatio) VH_P(filterByConvexity) VH_P(minConvexity) VH_P(maxConvexity)
#undef VH_P
  return "";
}
// What the documentation of CircleDetectorParams promises
static CircleDetectorParams documented()
{
  CircleDetectorParams p;
  const float inf = std::numeric_limits<float>::max();
  p.minThreshold = 50; p.maxThreshold = 220; p.nThresholds = 18; p.minRepeatability = 3; p.circleInclusionRadius = 5; p.maxRadiusDiff = 5; p.maxAverageEllipseError = 0.02f;
  p.filterByColor = true; p.circleColor = 0; p.filterByArea = true; p.minArea = 25; p.maxArea = 5000; p.filterByCircularity = false; p.minCircularity = 0.8f; p.maxCircularity = inf;
  p.filterByInertia = false; p.minInertiaRatio = 0.3f; p.maxInertiaRatio = inf; p.filterByConvexity = true; p.minConvexity = 0.95f; p.maxConvexity = inf;
  return p;
}
static cv::Mat printGrid(Rng& r, int rows, int cols, double step, int fg, int bg, double big)
{
  cv::Mat m(int(step * (rows + 1)), int(step * (cols + 1)), CV_8UC1, cv::Scalar(bg));
  const double rad = step * r.uni(0.2, 0.28);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
    {
      // the large dot at the lower left
      const double k = i == rows - 1 && j == 0 ? big : 1;
      const double s = r.chance(0.03) ? r.uni(0.6, 1) : 1;
      paintEllipse(m, (j + 1) * step, (i + 1) * step, rad * k, rad * k * s, r.uni(0, 3), fg, 4);
    }
  return m;
}
static void circleGrid(Case& c)
{
  Rng& r = c.rng;
  auto plugin = pluginlib_stub::create<TargetFinderPlugin>("rct_ros_tools::ModifiedCircleGridTargetFinderPlugin");
  const bool pictured = r.chance(0.15);
  const int rows = pictured ? r.range(3, 6) : r.range(1, 40), cols = pictured ? r.range(3, 6) : r.range(1, 40);
  const double spacing = r.chance(0.3) ? 0.001 * r.range(1, 200) : r.logu(1e-4, 10);
  Entries e = {{"rows", vi(rows)}, {"cols", vi(cols)}, {"spacing", r.chance(0.1) ? vi(r.range(1, 9)) : vd(spacing)}};
  const double sp = e[2].second.kind == Val::Int ? double(e[2].second.i) : spacing;
  const bool spoiled = r.chance(0.3);
  if (spoiled) spoil(c, e, {"rows", "cols"}, {"rows", "cols"});
  extras(c, e);

  CircleDetectorParams want = documented();
  Entries sub;
  const Entries* subp = nullptr;
  const int mode = r.range(0, 5);   // 0-2: complete, 3: none, 4: an entry missing, 5: an entry of the wrong kind
  if (mode != 3)
  {
    const CircleDetectorParams given = anyDetector(r, pictured);
    sub = detectorEntries(given);
    if (mode == 4)
      for (int k = r.range(1, 3); k; --k) sub.erase(sub.begin() + r.range(0, int(sub.size()) - 1));
    else if (mode == 5)
    {
      Val& v = sub[std::size_t(r.range(0, int(sub.size()) - 1))].second;
      v = v.kind == Val::Bool ? (r.chance(0.5) ? vs("perhaps") : vi(r.range(2, 9))) : (r.chance(0.5) ? vs("many") : raw("[1]"));
    }
    else want = given;
    r.shuffle(sub);
    if (r.chance(0.1)) sub.push_back({"remark", vs("none")});
    subp = &sub;
  }
  std::string shown;
  ros_stub::log().warn = ros_stub::log().error = 0;
  const bool ok = configure(c, *plugin, e, subp, shown);
  c.sample(shown);
  if (spoiled)
  {
    c.check(!ok, "wrong configuration accepted", cat("a circle grid was configured without all its entries or with a wrong one\n", shown));
    c.count("circle grid configurations refused");
    return;
  }
  if (!c.check(ok, "configuration refused", cat("a circle grid was not configured\n", shown))) return;
  c.count(mode < 3 ? "grids with detector parameters" : mode == 3 ? "grids without detector parameters" : "grids with incomplete or wrong detector parameters");
  if (mode == 4 || mode == 5) c.check(ros_stub::log().warn + ros_stub::log().error > 0, "silent default", cat("detector parameters were left aside without a warning\n", shown));
  const ModifiedCircleGridTarget target(unsigned(rows), unsigned(cols), sp);
  const auto* t = dynamic_cast<const ModifiedCircleGridTarget*>(&plugin->target());
  if (!c.check(t != nullptr, "another target", "the target of a circle grid plugin is no circle grid")) return;
  c.check(t->rows == unsigned(rows) && t->cols == unsigned(cols) && t->spacing == sp, "another target",
          cat("the plugin's target is ", t->rows, " x ", t->cols, " every ", t->spacing, "; configuration\n", shown));
  const auto inner = Peek<TargetFinderPlugin>::get(*plugin, 0);
  if (const auto* f = dynamic_cast<const ModifiedCircleGridTargetFinder*>(inner.get()))
  {
    const std::string d = differs(f->getCircleDetectorParams(), want);
    c.check(d.empty(), "other detector parameters", cat("of the plugin's finder: ", d, "; configuration\n", shown));
    c.count("detector parameters compared", 21);
  }
  if (pictured)
  {
    const bool dark = r.chance(0.7);
    const cv::Mat img = toBgr(printGrid(r, rows, cols, r.uni(24, 60), dark ? r.range(0, 60) : r.range(200, 255), dark ? r.range(200, 255) : r.range(0, 60), r.uni(1.3, 1.6)));
    const ModifiedCircleGridTargetFinder direct(target, want);
    sameBehaviour(c, *plugin, direct, img, shown);
  }
  // the same plugin object configured again is the second finder
  if (r.chance(0.2))
  {
    Entries e2 = {{"spacing", vd(0.5)}, {"cols", vi(cols + 1)}, {"rows", vi(rows + 2)}};
    std::string s2;
    if (c.check(configure(c, *plugin, e2, nullptr, s2), "configuration refused", cat("a plugin was not configured again\n", s2)))
    {
      t = dynamic_cast<const ModifiedCircleGridTarget*>(&plugin->target());
      c.check(t && t->rows == unsigned(rows) + 2 && t->cols == unsigned(cols) + 1 && t->spacing == 0.5, "another target", cat("a plugin configured again keeps its first target; configuration\n", s2));
      c.count("plugins configured again");
    }
  }
}
static void charuco(Case& c)
{
  Rng& r = c.rng;
  auto plugin = pluginlib_stub::create<TargetFinderPlugin>("rct_ros_tools::CharucoGridTargetFinderPlugin");
  const int rows = r.range(2, 9), cols = r.range(2, 9), dict = r.range(0, 16);
  const double square = r.logu(1e-3, 5), marker = square * r.uni(0.3, 0.9);
  Entries e = {{"rows", vi(rows)}, {"cols", vi(cols)}, {"chessboard_dim", vd(square)}, {"aruco_marker_dim", vd(marker)}, {"dictionary", vi(dict)}};
  const bool spoiled = r.chance(0.3);
  if (spoiled) spoil(c, e, {"rows", "cols", "dictionary"}, {"rows", "cols"});
  extras(c, e);
  std::string shown;
  const bool ok = configure(c, *plugin, e, nullptr, shown);
  if (spoiled)
  {
    c.check(!ok, "wrong configuration accepted", cat("a ChArUco grid was configured without all its entries or with a wrong one\n", shown));
    c.count("ChArUco configurations refused");
    return;
  }
  const int squares = rows * cols / 2;
  std::shared_ptr<CharucoGridTarget> target;
  try { target = std::make_shared<CharucoGridTarget>(rows, cols, float(square), float(marker), dict); }
  catch (const std::exception&) {}
  if (!target)
  {
    c.check(!ok, "wrong configuration accepted", cat("a ChArUco grid that cannot be constructed was configured\n", shown));
    return;
  }
  if (!c.check(ok, "configuration refused", cat("a ChArUco grid was not configured\n", shown))) return;
  c.count("ChArUco grids");
  const auto* t = dynamic_cast<const CharucoGridTarget*>(&plugin->target());
  if (!c.check(t != nullptr && t->board, "another target", "the target of a ChArUco plugin is no ChArUco grid")) return;
  c.check(t->board->getChessboardSize() == cv::Size(cols, rows), "another target", cat("the plugin's board has ", t->board->getChessboardSize().width, " columns and ",
          t->board->getChessboardSize().height, " rows; configuration\n", shown));
  c.check(t->board->getSquareLength() == float(square) && t->board->getMarkerLength() == float(marker), "another target",
          cat("the plugin's board has squares of ", t->board->getSquareLength(), " and markers of ", t->board->getMarkerLength(), "; configuration\n", shown));
  const cv::Mat& a = t->board->dictionary->bytesList;
  const cv::Mat b = cv::aruco::getPredefinedDictionary(dict)->bytesList;
  c.check(a.size() == b.size() && a.type() == b.type() && sameImg(a, b), "another dictionary", cat("the plugin's board has other markers; configuration\n", shown));
  c.check(*t == *target && t->points.size() == target->points.size(), "another target", cat("the plugin's target differs from one constructed directly; configuration\n", shown));
  for (const auto& p : target->points)
  {
    auto q = t->points.find(p.first);
    if (!c.check(q != t->points.end() && q->second == p.second, "another target", cat("corner ", p.first, " of the plugin's target is elsewhere; configuration\n", shown))) break;
  }
  if (squares <= 24 && rows <= 6 && cols <= 6 && r.chance(0.15))
  {
    cv::Mat print;
    // a board of these markers, or of those of another dictionary
    const int d2 = r.chance(0.6) ? dict : r.range(0, 16);
    auto board = cv::aruco::CharucoBoard::create(cols, rows, 1.f, float(marker / square), cv::aruco::getPredefinedDictionary(d2));
    board->draw(cv::Size(cols * 60, rows * 60), print, 12);
    const CharucoGridBoardTargetFinder direct(*target);
    sameBehaviour(c, *plugin, direct, toBgr(print), shown);
  }
}
VH_CASE(C24)
{
  c.nontrivial(c.rng.next());
  switch (c.rng.range(0, 9))
  {
    case 0: case 1: case 2: structures(c); break;
    case 3: case 4: case 5: case 6: circleGrid(c); break;
    default: charuco(c);
  }
}
