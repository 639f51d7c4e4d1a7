// C27: printed results say what the values are
#include "gen.h"
#include <cstdlib>
#include <iostream>
#include <rct_common/print_utils.h>
#include <rct_optimizations/covariance_types.h>
#include <rct_optimizations/covariance_analysis.h>
using namespace vh;

static std::string printed(const std::function<void()>& f)
{
  std::ostringstream o;
  std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  try { f(); } catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old);
  return o.str();
}
static std::vector<std::string> lines(const std::string& s)
{
  std::vector<std::string> v;
  std::istringstream i(s);
  for (std::string l; std::getline(i, l);) v.push_back(l);
  return v;
}
static std::vector<double> numbers(const std::string& s)
{
  std::vector<double> v;
  const char* p = s.c_str();
  while (*p)
  {
    char* e = nullptr;
    const double d = std::strtod(p, &e);
    if (e != p) { v.push_back(d); p = e; }
    else ++p;
  }
  return v;
}
// What stands between the first `key="` at or after `from` and the next quote; `from` is moved behind it
static std::string quoted(const std::string& s, const std::string& key, std::size_t& from)
{
  const std::size_t a = s.find(key + "=\"", from);
  if (a == std::string::npos) return "";
  const std::size_t b = a + key.size() + 2, e = s.find('"', b);
  if (e == std::string::npos) return "";
  from = e + 1;
  return s.substr(b, e - b);
}
static bool six(double got, double want, double scale = 0) { return std::fabs(got - want) <= 6e-6 * std::fabs(want) + 1e-6 * scale + 1e-300; }
static std::vector<double> after(const std::string& s, const std::string& key)
{
  const std::size_t a = s.find(key);
  if (a == std::string::npos) return {};
  const std::size_t b = a + key.size();
  return numbers(s.substr(b, s.find_first_of("\t\n", b) - b));
}
static void xyz(Case& c, const std::string& text, std::size_t& at, const V3& t, const std::string& what)
{
  const auto v = numbers(quoted(text, "xyz", at));
  c.check(v.size() == 3 && six(v[0], t.x()) && six(v[1], t.y()) && six(v[2], t.z()), "printed position", cat(what, ": ", t.transpose(), " printed as\n", text));
}
// roll, pitch, yaw of a URDF: turns about the fixed x, y and z axes, one after the other
static void rpy(Case& c, const std::string& text, std::size_t& at, const Eigen::Matrix3d& R, const std::string& what)
{
  const auto v = numbers(quoted(text, "rpy", at));
  if (!c.check(v.size() == 6, "printed angles are missing", cat(what, "\n", text))) return;
  const Eigen::Matrix3d Q = rot(V3(0, 0, v[4])) * rot(V3(0, v[2], 0)) * rot(V3(v[0], 0, 0));
  c.check(rotDist(Q, R) < 3e-5, "printed angles", cat(what, ": the printed roll, pitch and yaw are ", rotDist(Q, R), " rad off\n", text));
  for (std::size_t i = 0; i < 6; i += 2) c.check(std::fabs(v[i + 1] - v[i] * 180 / M_PI) < 1e-5 * (1 + std::fabs(v[i + 1])), "printed degrees", cat(what, ": ", v[i], " rad printed as ", v[i + 1], " degrees"));
  c.count("rotations printed");
}
static void quat(Case& c, const std::string& text, std::size_t& at, const Eigen::Matrix3d& R, const std::string& what)
{
  const auto v = numbers(quoted(text, "qxyzw", at));
  if (!c.check(v.size() == 4, "printed quaternion is missing", cat(what, "\n", text))) return;
  const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]);
  c.check(std::fabs(n - 1) < 1e-5, "printed quaternion is not one", cat(what, ": norm ", n));
  const Eigen::Quaterniond q(v[3] / n, v[0] / n, v[1] / n, v[2] / n);
  c.check(rotDist(q.toRotationMatrix(), R) < 3e-5, "printed quaternion", cat(what, ": the printed quaternion is ", rotDist(q.toRotationMatrix(), R), " rad off\n", text));
}
static void matrix(Case& c, const std::string& text, const Eigen::Matrix4d& M, const std::string& what)
{
  // four consecutive lines of four numbers each and nothing else
  const auto l = lines(text);
  for (std::size_t i = 0; i + 4 <= l.size(); ++i)
  {
    bool ok = true;
    for (std::size_t k = 0; k < 4; ++k) ok = ok && numbers(l[i + k]).size() == 4 && l[i + k].find_first_not_of(" 0123456789+-.e") == std::string::npos;
    if (!ok) continue;
    for (std::size_t a = 0; a < 4; ++a)
      for (std::size_t b = 0; b < 4; ++b)
      {
        const double got = numbers(l[i + a])[b], want = M(Eigen::Index(a), Eigen::Index(b));
        c.check(six(got, want), "printed matrix", cat(what, ": element ", a, ",", b, " is ", want, " and printed as ", got));
      }
    c.count("matrices printed");
    return;
  }
  c.check(false, "printed matrix is missing", cat(what, "\n", text));
}
static Iso anyPose(Rng& r)
{
  Eigen::Matrix3d R;
  switch (r.range(0, 5))
  {
    case 0: R = randRot(r); break;
    case 1: R = rot(unit(r) * M_PI); break;
    case 2: R = rot(V3(0, 0, r.uni(-M_PI, M_PI))) * rot(V3(0, (r.chance(0.5) ? 1 : -1) * M_PI / 2, 0)) * rot(V3(r.uni(-M_PI, M_PI), 0, 0)); break;
    case 3: R = Eigen::Matrix3d::Identity(); break;
    case 4: { V3 a = V3::Zero(); a[r.range(0, 2)] = pick(r, {M_PI, -M_PI, M_PI / 2, -M_PI / 2, 1e-3}); R = rot(a); break; }
    default: R = rot(rotvec(r, 0.3));
  }
  return mk(R, r.chance(0.1) ? V3::Zero().eval() : (unit(r) * r.logu(1e-4, 1e4)).eval());
}
static std::string name(Rng& r)
{
  std::string s;
  for (int i = r.range(1, 12); i > 0; --i) s += char('a' + r.range(0, 25));
  return s;
}

static void transforms(Case& c, Rng& r)
{
  const Iso p = anyPose(r);
  const std::string a = name(r), b = name(r), d = name(r);
  const std::string t = printed([&] { rct_common::printTransform(p, a, b, d); });
  c.check(t.find(d) == 0, "description", cat("'", d, "' is not what the print begins with:\n", t));
  c.check(t.find(a + " to " + b) != std::string::npos, "frames", cat("frames ", a, " and ", b, ":\n", t));
  matrix(c, t, p.matrix(), "transform");
  std::size_t at = 0;
  xyz(c, t, at, p.translation(), "transform");
  rpy(c, t, at, p.linear(), "transform");
  quat(c, t, at, p.linear(), "transform");
  c.count("transforms");
  c.nontrivial(hashIso(p, 1));

  const Iso q = r.chance(0.3) ? perturb(p, r, 1e-3, 1e-3) : anyPose(r);
  const Iso e = p.inverse() * q;
  const std::string s = printed([&] { rct_common::printTransformDiff(p, q, a, b, d); });
  c.check(s.find(d) == 0, "description", cat("'", d, "' is not what the print begins with:\n", s));
  c.check(s.find(a + " to " + b) != std::string::npos, "frames", cat("frames ", a, " and ", b, ":\n", s));
  matrix(c, s, e.matrix(), "difference");
  const double angle = rotDist(p, q) * 180 / M_PI;
  std::size_t where = 0;
  at = 0;
  for (int k = 0; k < 2; ++k)
  {
    // first in the parent frame, then seen from the first transform
    const V3 v = k == 0 ? (q.translation() - p.translation()).eval() : e.translation().eval();
    where = s.find("DELTA S:", where);
    if (!c.check(where != std::string::npos, "printed distance is missing", s)) return;
    const std::string from = s.substr(where);
    const auto n = after(from, "DELTA S: ");
    c.check(!n.empty() && six(n[0], v.norm(), p.translation().norm() * 1e-9 + q.translation().norm() * 1e-9), "printed distance", cat("distance ", v.norm(), " in\n", s));
    xyz(c, s, at, v, "difference");
    const auto g = after(from, "DELTA A: ");
    c.check(!g.empty() && std::fabs(g[0] - angle) < 1e-3 + 6e-6 * angle, "printed angle", cat("angle ", angle, " degrees in\n", s));
    rpy(c, s, at, e.linear(), "difference");
    ++where;
  }
  c.count("differences");
}
static void results(Case& c, Rng& r)
{
  const bool ok = r.chance(0.5);
  const double a = r.chance(0.1) ? 0 : r.logu(1e-12, 1e12), b = r.chance(0.1) ? 0 : r.logu(1e-12, 1e12);
  const std::string t = printed([&] { rct_common::printOptResults(ok, a, b); });
  const auto v = after(t, "converge?: "), i = after(t, "Initial cost?: "), f = after(t, "Final cost?: ");
  c.check(v.size() == 1 && v[0] == (ok ? 1 : 0), "printed convergence", t);
  c.check(!i.empty() && six(i[0], std::sqrt(a)), "printed initial cost", cat("root of ", a, " in\n", t));
  c.check(!f.empty() && six(f[0], std::sqrt(b)), "printed final cost", cat("root of ", b, " in\n", t));
  c.count("results printed");
  std::array<double, 4> k;
  std::array<double, 5> D;
  for (auto& x : k) x = r.chance(0.2) ? r.uni(-1, 1) : r.logu(1e-3, 1e5);
  for (auto& x : D) x = r.gauss() * r.logu(1e-4, 10);
  const std::string d = name(r);
  const std::string s = printed([&] { rct_common::printCameraIntrinsics(k, d); }), u = printed([&] { rct_common::printCameraDistortion(D, d); });
  const char* kn[] = {"fx = ", "fy = ", "cx = ", "cy = "};
  const char* dn[] = {"k1 = ", "k2 = ", "p1 = ", "p2 = ", "k3 = "};  // the order OpenCV documents
  for (std::size_t j = 0; j < 4; ++j) { const auto n = after(s, kn[j]); c.check(n.size() == 1 && six(n[0], k[j]), "printed intrinsics", cat(kn[j], k[j], " in\n", s)); }
  for (std::size_t j = 0; j < 5; ++j) { const auto n = after(u, dn[j]); c.check(n.size() == 1 && six(n[0], D[j]), "printed distortion", cat(dn[j], D[j], " in\n", u)); }
  c.check(s.find(d) == 0 && u.find(d) == 0, "description", s + u);
  c.count("intrinsics printed");
  // titles: a frame of stars of one width around the centred title
  std::string w = name(r);
  while (r.chance(0.5)) w += " " + name(r);
  const int width = r.chance(0.3) ? 80 : r.range(0, 120);
  const auto l = lines(printed([&] { width == 80 ? rct_common::printTitle(w) : rct_common::printTitle(w, width); }));
  if (c.check(l.size() == 3, "title", cat("a title of ", l.size(), " lines")))
  {
    const std::size_t at = l[1].find(" " + w + " ");
    c.check(l[0] == l[2] && l[0] == std::string(l[0].size(), '*') && l[1].size() == l[0].size(), "title frame", l[0] + "\n" + l[1] + "\n" + l[2]);
    c.check(at != std::string::npos && at > 0 && l[1].substr(0, at) == std::string(at, '*') && l[1].substr(at + w.size() + 2) == std::string(at, '*'), "title is not centred", l[1]);
    c.check(int(l[0].size()) >= width && l[0].size() <= std::max<std::size_t>(std::size_t(width) + 1, w.size() + 9), "title width", cat(l[0].size(), " for ", width));
    c.count("titles");
  }
  c.nontrivial(hashDouble(a, hashDouble(k[0], 2)));
}
static void covariance(Case& c, Rng& r)
{
  using namespace rct_optimizations;
  const int n = r.range(1, 6);
  Eigen::MatrixXd A = Eigen::MatrixXd::NullaryExpr(n + 2, n, [&] { return r.gauss() * r.logu(1e-2, 1e2); });
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) names.push_back(name(r) + "_" + std::to_string(i));
  const CovarianceResult cov = computeCovarianceResults(A.transpose() * A, names);
  const auto entry = [&](const std::string& line, const NamedParam& p, const std::string& what) {
    std::istringstream i(line);
    std::vector<std::string> w;
    for (std::string x; i >> x;) w.push_back(x);
    std::vector<std::string> want{p.names.first};
    if (!p.names.second.empty()) want.push_back(p.names.second);
    const bool ok = w.size() == want.size() + 1 && std::equal(want.begin(), want.end(), w.begin()) && six(std::strtod(w.back().c_str(), nullptr), p.value);
    c.check(ok, "printed " + what, cat(p.names.first, " ", p.names.second, " ", p.value, " printed as '", line, "'"));
    c.count("covariance entries printed");
  };
  const auto section = [&](const std::vector<std::string>& l, const std::string& head, const std::vector<NamedParam>& ps, const std::string& what) {
    const auto h = std::find_if(l.begin(), l.end(), [&](const std::string& s) { return s.find(head) != std::string::npos; });
    if (!c.check(h != l.end(), "printed " + what + " is missing", head)) return;
    std::size_t k = std::size_t(h - l.begin()) + 1;
    for (const NamedParam& p : ps)
    {
      if (!c.check(k < l.size() && !l[k].empty(), "printed " + what + " is cut short", cat(ps.size(), " entries"))) return;
      entry(l[k++], p, what);
    }
    c.check(k >= l.size() || l[k].empty(), "printed " + what + " has more entries", k < l.size() ? l[k] : "");
  };
  for (const auto* ps : {&cov.standard_deviations, &cov.covariances, &cov.correlation_coeffs})
    for (const NamedParam& p : *ps) entry(p.toString(), p, "parameter");
  const auto l = lines(cov.toString());
  section(l, "Std. Dev", cov.standard_deviations, "standard deviations");
  section(l, "Covariance", cov.covariances, "covariances");
  section(l, "Correlation Coeff", cov.correlation_coeffs, "correlations");
  const double th = r.uni(0, 1);
  const std::string t = cov.printCorrelationCoeffAboveThreshold(th);
  std::vector<NamedParam> above;
  for (const NamedParam& p : cov.correlation_coeffs)
    if (std::fabs(p.value) > th) above.push_back(p);
  std::sort(above.begin(), above.end(), [](const NamedParam& a, const NamedParam& b) { return std::fabs(a.value) > std::fabs(b.value); });
  if (above.empty()) c.check(t.find("No correlation") != std::string::npos && lines(t).size() <= 2, "printed nothing above the threshold", t);
  else section(lines(t), "Correlation Coeff", above, "correlations above the threshold");
  const auto at = t.find("> ");
  c.check(at != std::string::npos && std::fabs(std::strtod(t.c_str() + at + 2, nullptr) - th) < 1e-6, "printed threshold", cat(th, " in\n", t));
  c.count(above.empty() ? "threshold prints of nothing" : "threshold prints");
  c.nontrivial(hashDouble(A(0, 0), 3));
}
VH_CASE(C27)
{
  Rng& r = c.rng;
  switch (c.index % 3)
  {
    case 0: transforms(c, r); break;
    case 1: results(c, r); break;
    default: covariance(c, r);
  }
}
