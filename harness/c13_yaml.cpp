// C13: saved data loads back unchanged
#include "yamlgen.h"
#include <fstream>
using namespace vh;

template <typename T>
static void trip(Case& c, const T& v, const std::string& what, double tol = 1e-14)
{
  std::string text;
  T b;
  YAML::Node n(v);
  if (c.rng.chance(0.3))
  {  // as a file
    const std::string f = scratch() + "/saved.yaml";
    { std::ofstream o(f); o << n; }
    b = YAML::LoadFile(f).as<T>();
    std::ifstream i(f);
    text.assign(std::istreambuf_iterator<char>(i), {});
  }
  else
  {
    text = YAML::Dump(n);
    b = YAML::Load(text).as<T>();
  }
  c.near(diff(b, v), 0, tol, what, text.substr(0, 1200));
  // saving what was read gives the same text up to rounding, and reading twice the same value
  T b2 = YAML::Load(YAML::Dump(YAML::Node(b))).template as<T>();
  c.near(diff(b2, b), 0, tol, what + "-again", text.substr(0, 1200));
  c.count("round trips");
  c.count(what);
}
VH_CASE(C13)
{
  Rng& r = c.rng;
  c.nontrivial(c.rng.next());
  switch (c.index % 7)
  {
    case 0:
    {
      for (int i = 0; i < 4; ++i)
      {
        trip(c, V3(num(r), num(r), num(r)), "vector");
        trip(c, V2(num(r), num(r)), "vector");
        trip(c, anyPose(r), "pose");
        trip(c, anyIntr(r), "intrinsics");
      }
      Eigen::Isometry3f pf = anyPose(r).cast<float>(), bf = YAML::Load(YAML::Dump(YAML::Node(pf))).as<Eigen::Isometry3f>();
      c.near((bf.matrix() - pf.matrix()).norm(), 0, 1e-5 * (1 + pf.translation().norm()), "float-pose", "");
      break;
    }
    case 1:
    {
      for (auto& k : anySet<2>(r, 2)) trip(c, k, "correspondence");
      for (auto& k : anySet<3>(r, 2)) trip(c, k, "correspondence");
      trip(c, anySet<2>(r), "correspondences");
      trip(c, anySet<3>(r), "correspondences");
      std::vector<Correspondence2D3D::Set> nest;
      for (int i = 0, n = r.chance(0.1) ? r.range(10, 14) : r.range(0, 4); i < n; ++i) nest.push_back(anySet<2>(r));
      trip(c, nest, "nested correspondences");
      break;
    }
    case 2:
    {
      trip(c, anyObs<2>(r), "observation");
      trip(c, anyObs<3>(r), "observation");
      std::vector<std::vector<Iso, Eigen::aligned_allocator<Iso>>> dummy;
      std::vector<Iso> ps;
      for (int i = 0, n = r.chance(0.1) ? r.range(10, 14) : r.range(0, 5); i < n; ++i) ps.push_back(anyPose(r));
      trip(c, ps, "poses");
      std::vector<Observation2D3D> os;
      for (int i = 0, n = r.chance(0.1) ? r.range(10, 14) : r.range(0, 3); i < n; ++i) os.push_back(anyObs<2>(r));
      trip(c, os, "observations");
      break;
    }
    case 3:
    {
      auto p = anyProblem<ExtrinsicHandEyeProblem2D3D, 2>(r);
      p.intr = anyIntr(r);
      trip(c, p, "hand-eye problem 2D");
      c.check(YAML::Load(YAML::Dump(YAML::Node(p))).as<ExtrinsicHandEyeProblem2D3D>() == p, "problem-unequal", "hand-eye problem read back compares unequal");
      break;
    }
    case 4:
    {
      auto p = anyProblem<ExtrinsicHandEyeProblem3D3D, 3>(r);
      trip(c, p, "hand-eye problem 3D");
      c.check(YAML::Load(YAML::Dump(YAML::Node(p))).as<ExtrinsicHandEyeProblem3D3D>() == p, "problem-unequal", "hand-eye problem read back compares unequal");
      break;
    }
    case 5:
      for (int i = 0; i < 4; ++i) trip(c, anyResult(r), "hand-eye result", 1e-7);  // angles lose digits at gimbal lock
      break;
    default:
    {
      ChainText t = anyChain(r);
      const std::string text = YAML::Dump(t.node);
      DHChain ch = YAML::Load(text).as<DHChain>();
      const Eigen::Index n = Eigen::Index(t.k.size());
      c.check(ch.dof() == t.k.size(), "chain-dof", text.substr(0, 1200));
      if (ch.dof() != t.k.size()) break;
      c.near(diff(ch.getBaseOffset(), t.base), 0, 1e-13, "chain-base", text.substr(0, 1200));
      for (Eigen::Index m = 0; m <= n; ++m)
      {
        Eigen::VectorXd q(m);
        for (Eigen::Index i = 0; i < m; ++i) q[i] = r.uni(-3, 3);
        Iso a = ch.getFK<double>(q), b = fk(t.k, t.base, q, Eigen::MatrixXd::Zero(n, 4));
        c.near((a.matrix() - b.matrix()).norm(), 0, 1e-11 * (1 + b.translation().norm()), "chain-kinematics", text.substr(0, 1200));
      }
      auto l = ch.getParamLabels();
      auto ty = ch.getJointTypes();
      for (std::size_t i = 0; i < t.k.size(); ++i)
      {
        c.check(l[i][0] == t.name[i] + "_d" && l[i][1] == t.name[i] + "_theta" && l[i][2] == t.name[i] + "_r" && l[i][3] == t.name[i] + "_alpha", "chain-names", text.substr(0, 1200));
        c.check(ty[i] == (t.k[i].linear ? DHJointType::LINEAR : DHJointType::REVOLUTE), "chain-types", text.substr(0, 1200));
      }
      c.count("kinematic chain");
      c.count("round trips");
    }
  }
}
