// C14: malformed saved data is refused, never misread
#include "yamlgen.h"
using namespace vh;

using Read = std::function<double(const YAML::Node&)>;  // reads the value; distance from the original
// every map inside, with a flag whether its number of fields is part of the format
struct Spot
{
  YAML::Node map;
  std::string path;
};
static void spots(const YAML::Node& n, const std::string& path, std::vector<Spot>& out)
{
  if (n.IsMap())
  {
    out.push_back({ n, path });
    for (auto kv : n) spots(kv.second, path + "/" + kv.first.as<std::string>(), out);
  }
  else if (n.IsSequence())
    for (std::size_t i = 0; i < n.size(); ++i) spots(n[i], path + "[]", out);
}
static bool counted(const YAML::Node& m)
{
  auto has = [&](const char* k) { return bool(m[k]); };
  return has("fx") || has("in_image") || has("correspondences") || has("observations") || has("converged");
}
static void attempt(Case& c, const YAML::Node& bad, const Read& read, const std::string& key, const std::string& how)
{
  const std::string text = YAML::Dump(bad);
  try
  {
    read(YAML::Load(text));
    c.check(false, key, cat(how, ": accepted\n", text.substr(0, 900)));
  }
  catch (const std::exception&)
  {
    c.check(true, key, how);
    c.count("malformed data refused");
    c.count(key);
  }
}
static std::string what[] = { "vector2", "vector3", "pose", "intrinsics", "correspondence2", "correspondence3", "observation2", "observation3", "problem2", "problem3", "result", "chain" };
template <typename T>
static Read reader(const T& v)
{
  return [v](const YAML::Node& n) { return diff(n.as<T>(), v); };
}
VH_CASE(C14)
{
  Rng& r = c.rng;
  const int kind = int(c.index % 12);
  YAML::Node good;
  Read read;
  auto take = [&](const auto& v) { good = YAML::Node(v); read = reader(v); };
  switch (kind)
  {
    case 0: take(V2(r.uni(1, 2), r.uni(3, 4))); break;
    case 1: take(V3(r.uni(1, 2), r.uni(3, 4), r.uni(5, 6))); break;
    case 2: take(anyPose(r)); break;
    case 3: take(anyIntr(r)); break;
    case 4: take(anySet<2>(r, 1)[0]); break;
    case 5: take(anySet<3>(r, 1)[0]); break;
    case 6: take(anyObs<2>(r, 1)); break;
    case 7: take(anyObs<3>(r, 1)); break;
    case 8:
    {
      auto p = anyProblem<ExtrinsicHandEyeProblem2D3D, 2>(r, 1);
      p.intr = anyIntr(r);
      take(p);
      break;
    }
    case 9: take(anyProblem<ExtrinsicHandEyeProblem3D3D, 3>(r, 1)); break;
    case 10: take(anyResult(r)); break;
    default:
    {
      ChainText t = anyChain(r, 1);
      good = t.node;
      read = [t](const YAML::Node& n) {
        DHChain ch = n.as<DHChain>();
        if (ch.dof() != t.k.size()) return 1e9;
        Eigen::VectorXd q = Eigen::VectorXd::Constant(Eigen::Index(t.k.size()), 0.3);
        return (ch.getFK<double>(q).matrix() - fk(t.k, t.base, q, Eigen::MatrixXd::Zero(q.size(), 4)).matrix()).norm() / (1 + t.base.translation().norm());
      };
    }
  }
  const std::string text = YAML::Dump(good);
  c.nontrivial(hashBytes(text.data(), text.size()));
  c.near(read(YAML::Load(text)), 0, 1e-7, "valid-misread", text.substr(0, 900));
  for (int rep = 0; rep < 6; ++rep)
  {
    YAML::Node bad = YAML::Load(text);
    std::vector<Spot> sp;
    spots(bad, what[kind], sp);
    Spot s = sp[std::size_t(r.range(0, int(sp.size()) - 1))];
    std::vector<std::string> keys;
    for (auto kv : s.map) keys.push_back(kv.first.as<std::string>());
    const std::string k = keys[std::size_t(r.range(0, int(keys.size()) - 1))];
    const std::string at = s.path + "/" + k;
    switch (r.range(0, 5))
    {
      case 0:
        s.map.remove(k);
        attempt(c, bad, read, "missing-field", "without " + at);
        break;
      case 1:
      {
        YAML::Node v = YAML::Clone(s.map[k]);
        s.map.remove(k);
        std::string m = k;
        switch (r.range(0, 3))
        {
          case 0: m += "_"; break;
          case 1: m[0] = char(std::toupper(m[0])); break;
          case 2: m = " " + m; break;
          default: m = "x" + m;
        }
        s.map[m] = v;
        attempt(c, bad, read, "misspelt-field", at + " called " + m);
        break;
      }
      case 2: case 3:
      {  // a value of another kind
        YAML::Node old = s.map[k];
        const bool scalar = old.IsScalar(), name = k == "joint_name";
        YAML::Node v;
        std::string how;
        switch (r.range(0, 4))
        {
          case 0: how = "text"; v = YAML::Node("banana"); break;
          case 1: how = "list"; v.push_back(1.0); v.push_back(2.0); break;
          case 2: how = "map"; v["a"] = 1; break;
          case 3: how = "nothing"; v = YAML::Node(YAML::NodeType::Null); break;
          default:
            if (scalar) { how = "number with rubbish"; v = YAML::Node(old.Scalar() + "q1"); }
            else { how = "number"; v = YAML::Node(3.5); }
        }
        if (name && (how == "text" || how == "number with rubbish" || how == "nothing")) break;
        s.map[k] = v;
        attempt(c, bad, read, "wrong-kind", at + " is " + how);
        break;
      }
      case 4:
      {  // more fields than the format has
        std::vector<Spot> cs;
        for (auto& x : sp)
          if (counted(x.map)) cs.push_back(x);
        if (cs.empty()) break;
        auto& x = cs[std::size_t(r.range(0, int(cs.size()) - 1))];
        x.map["extra"] = 1.0;
        attempt(c, bad, read, "extra-field", x.path + " with an extra field");
        break;
      }
      default:
        if (kind == 11)
        {  // a joint of no known type
          YAML::Node j = bad["dh_transforms"][std::size_t(r.range(0, int(bad["dh_transforms"].size()) - 1))];
          const char* t[] = { "2", "-1", "7", "0.5", "REVOLUTE", "4294967297" };
          const char* v = t[r.range(0, 5)];
          j["type"] = v;
          attempt(c, bad, read, "joint-type", cat("joint type ", v));
        }
        else
        {  // the whole is of another kind
          YAML::Node v;
          switch (r.range(0, 3))
          {
            case 0: v = YAML::Node("banana"); break;
            case 1: v.push_back(good); break;
            case 2: v = YAML::Node(YAML::NodeType::Null); break;
            default: v = YAML::Node(12.5);
          }
          attempt(c, v, read, "wrong-whole", "the whole of " + what[kind]);
        }
    }
    c.near(read(YAML::Load(text)), 0, 1e-7, "valid-misread-later", text.substr(0, 900));
  }
  // quaternions that are not of unit length: the same rotation, or none
  {
    YAML::Node odd = YAML::Load(text);
    std::vector<Spot> sp, poses;
    spots(odd, what[kind], sp);
    for (auto& x : sp)
      if (x.map["qw"]) poses.push_back(x);
    if (!poses.empty())
    {
      auto& x = poses[std::size_t(r.range(0, int(poses.size()) - 1))];
      const double f = r.logu(1e-3, 1e3) * r.sign();
      for (const char* q : { "qw", "qx", "qy", "qz" }) x.map[q] = x.map[q].as<double>() * f;
      double diff = 1e9;
      try { diff = read(YAML::Load(YAML::Dump(odd))); }
      catch (const std::exception&) { diff = 0; }   // (refusing it is fine too)
      c.near(diff, 0, 1e-7, "scaled-quaternion", cat(x.path, " scaled by ", f));
      c.count("scaled quaternions");
      for (const char* q : { "qw", "qx", "qy", "qz" }) x.map[q] = 0.0;
      attempt(c, odd, read, "zero-quaternion", "all zeros in " + x.path);
    }
  }
  // damaged text: any outcome but a crash
  for (int i = 0; i < 6; ++i)
  {
    std::string t = text;
    for (int k = 0, n = r.range(1, 4); k < n && !t.empty(); ++k)
    {
      const std::size_t p = std::size_t(r.range(0, int(t.size()) - 1));
      switch (r.range(0, 3))
      {
        case 0: t.erase(p); break;
        case 1: t.erase(p, std::size_t(r.range(1, 30))); break;
        case 2: t[p] = char(r.range(1, 126)); break;
        default: t.insert(p, std::string(1, "{}[]:-,\n \t&*!|>'\"%@`#?"[r.range(0, 22)]));
      }
    }
    try { read(YAML::Load(t)); c.count("damaged text read"); }
    catch (const std::exception&) { c.count("damaged text refused"); }
  }
}
