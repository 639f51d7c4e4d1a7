// C10: kinematic chains follow the classical DH convention
#include "kin.h"
#include "opt.h"
#include <ceres/jet.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
using rct_optimizations::Isometry3;

static Eigen::MatrixX4d randOff(Rng& r, int n, double s)
{
  Eigen::MatrixX4d m(n, 4);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 4; ++j) m(i, j) = r.chance(0.3) ? 0 : r.uni(-s, s);
  return m;
}
static Eigen::VectorXd randQ(Rng& r, int n)
{
  Eigen::VectorXd q(n);
  for (int i = 0; i < n; ++i) q[i] = r.chance(0.1) ? 0 : r.uni(-4, 4);
  return q;
}
static bool same(Case& c, const Iso& a, const Iso& b, const std::string& key, const std::string& d)
{
  return c.near((a.matrix() - b.matrix()).norm(), 0, 1e-12 * (1 + b.translation().norm()), key, cat(d, ": got ", show(a), " want ", show(b)));
}
template <class F>
static bool refused(Case& c, F f, const std::string& key, const std::string& d)
{
  try { f(); }
  catch (const std::exception&) { c.count("requests refused"); return c.check(true, key, d); }
  return c.check(false, key, d + ": accepted");
}
// draws from a process in which nobody has drawn before
static std::vector<double> drawn(Case& c, const std::function<std::vector<double>()>& f, std::size_t n)
{
  int p[2];
  if (pipe(p)) throw std::runtime_error("pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    std::vector<double> v = f();
    v.resize(n, NAN);
    std::size_t off = 0, len = n * 8;
    while (off < len)
    {
      ssize_t k = write(p[1], reinterpret_cast<char*>(v.data()) + off, len - off);
      if (k <= 0) _exit(3);
      off += std::size_t(k);
    }
    _exit(0);
  }
  close(p[1]);
  std::vector<double> v(n, NAN);
  std::size_t off = 0, len = n * 8;
  while (off < len)
  {
    ssize_t k = read(p[0], reinterpret_cast<char*>(v.data()) + off, len - off);
    if (k <= 0) break;
    off += std::size_t(k);
  }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && off == len, "random-pose-crash", cat("status ", st));
  return v;
}

static void forward(Case& c)
{
  Rng& r = c.rng;
  const int n = r.range(0, 8);
  Chain k = randChain(r, n, r.chance(0.2) ? 1.0 : 0.35);
  Iso base = r.chance(0.3) ? Iso::Identity() : randPose(r, 2);
  DHChain ch = build(k, base, "j");
  Eigen::MatrixX4d off = randOff(r, n + (r.chance(0.3) ? 2 : 0), 0.5);
  Eigen::VectorXd q = randQ(r, n);
  std::string d = cat(n, " joints");
  c.nontrivial(hashIso(base, hashDouble(n ? k[0].theta : 0, n)));
  c.sample(cat(d, ", base ", show(base), ", q ", q.transpose()));
  c.check(ch.dof() == std::size_t(n), "dof", d);
  same(c, ch.getBaseOffset(), base, "base-offset", d);
  Eigen::MatrixX4d table = ch.getDHTable();
  auto types = ch.getJointTypes();
  auto labels = ch.getParamLabels();
  c.check(table.rows() == n && types.size() == std::size_t(n) && labels.size() == std::size_t(n), "table", d);
  for (int i = 0; i < n && table.rows() == n && types.size() == std::size_t(n); ++i)
  {
    auto& j = k[std::size_t(i)];
    c.check(table.row(i) == Eigen::RowVector4d(j.d, j.theta, j.r, j.alpha), "table", cat(d, " row ", i));
    c.check(types[std::size_t(i)] == (j.linear ? DHJointType::LINEAR : DHJointType::REVOLUTE), "types", d);
    std::string nm = "j" + std::to_string(i);
    c.check(labels[std::size_t(i)] == std::array<std::string, 4>({ nm + "_d", nm + "_theta", nm + "_r", nm + "_alpha" }), "labels", d);
    const double x = r.uni(-3, 3);
    same(c, ch.getRelativeTransform(i, x), dh(j.d + (j.linear ? x : 0), j.theta + (j.linear ? 0 : x), j.r, j.alpha), "relative-transform", d);
  }
  for (int m = 0; m <= n; ++m)
  {
    Eigen::VectorXd qm = q.head(m);
    same(c, ch.getFK<double>(qm), fk(k, base, qm, Eigen::MatrixX4d::Zero(n, 4)), "fk", cat(d, ", first ", m));
    same(c, ch.getFK<double>(qm, Eigen::MatrixX4d(off)), fk(k, base, qm, off), "fk-offsets", cat(d, ", first ", m));
    // only as many rows as joint values are needed
    same(c, ch.getFK<double>(qm, Eigen::MatrixX4d(off.topRows(m))), fk(k, base, qm, off), "fk-offsets", cat(d, ", first ", m, ", as many rows"));
    c.count("link poses compared", 3);
  }
  {  // derivatives, as the solvers use them
    using J = ceres::Jet<double, 40>;
    const int nv = std::min(40, n + 4 * n);
    Eigen::Matrix<J, Eigen::Dynamic, 1> qj(n);
    Eigen::Matrix<J, Eigen::Dynamic, 4> oj(n, 4);
    for (int i = 0; i < n; ++i) qj[i] = J(q[i], i);
    for (int i = 0; i < n; ++i)
      for (int a = 0; a < 4; ++a)
      {
        const int id = n + 4 * i + a;
        oj(i, a) = id < 40 ? J(off(i, a), id) : J(off(i, a));
      }
    Isometry3<J> t = ch.getFK<J>(qj, oj);
    Res f = [&](const Eigen::VectorXd& x) {
      Eigen::VectorXd qq = q;
      Eigen::MatrixXd oo = off.topRows(n);
      for (int i = 0; i < nv; ++i)
        if (i < n) qq[i] += x[i];
        else oo((i - n) / 4, (i - n) % 4) += x[i];
      Iso p = fk(k, base, qq, oo);
      return Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(p.matrix().data(), 16));
    };
    if (nv > 0)
    {
      Eigen::MatrixXd D = numJac(f, Eigen::VectorXd::Zero(nv), 1e-4);
      double w = 0;
      for (int e = 0; e < 16; ++e)
        for (int i = 0; i < nv; ++i) w = std::max(w, std::abs(t.matrix()(e % 4, e / 4).v[i] - D(e, i)));
      c.near(w, 0, 1e-7, "fk-derivative", d);
      c.count("derivatives compared", 16.0 * nv);
    }
  }
  refused(c, [&] { ch.getFK<double>(randQ(r, n + r.range(1, 3))); }, "too-many-joints", d);
  refused(c, [&] { ch.getFK<double>(randQ(r, n + 1), Eigen::MatrixX4d(randOff(r, n + 1, 1))); }, "too-many-joints", d);
  if (n > 0) refused(c, [&] { ch.getFK<double>(q, Eigen::MatrixX4d(randOff(r, r.range(0, n - 1), 1))); }, "too-few-offsets", d);
  refused(c, [&] { ch.getRelativeTransform(n + r.range(0, 2), 0.1); }, "joint-index", d);
  refused(c, [&] { ch.getRelativeTransform(-1 - r.range(0, 2), 0.1); }, "joint-index", d);
}

static void derived(Case& c)
{
  Rng& r = c.rng;
  const int n = r.range(1, 7);
  Chain k = randChain(r, n, 0.35);
  Iso base = randPose(r, 1);
  std::vector<DHTransform> ts;
  for (int i = 0; i < n; ++i)
  {
    auto& j = k[std::size_t(i)];
    DHTransform t(Eigen::Vector4d(j.d, j.theta, j.r, j.alpha), j.linear ? DHJointType::LINEAR : DHJointType::REVOLUTE, cat("axis_", i, "_", r.range(0, 99)), 7);
    t.min = r.uni(-3, 1);
    t.max = t.min + r.uni(0.01, 1);
    ts.push_back(t);
  }
  DHChain a(ts, base);
  Eigen::MatrixX4d o1 = randOff(r, n + (r.chance(0.2) ? 1 : 0), 0.4), o2 = randOff(r, n, 0.3);
  DHChain b(a, o1), b2(b, o2);
  std::string d = cat(n, " joints, made from another chain");
  c.nontrivial(hashIso(base, hashDouble(o1(0, 0), 3)));
  c.check(b.dof() == a.dof(), "derived-dof", d);
  c.check(b.getParamLabels() == a.getParamLabels(), "derived-names", d);
  c.check(b2.getParamLabels() == a.getParamLabels(), "derived-names", d);
  c.check(b.getJointTypes() == a.getJointTypes(), "derived-types", d);
  for (int m = 0; m <= n; ++m)
  {
    Eigen::VectorXd q = randQ(r, m);
    same(c, b.getFK<double>(q), fk(k, base, q, o1), "derived-fk", d);
    same(c, b.getFK<double>(q, Eigen::MatrixX4d(o2)), fk(k, base, q, o1.topRows(n) + o2), "derived-fk", d);
    same(c, b2.getFK<double>(q), fk(k, base, q, o1.topRows(n) + o2), "derived-fk", d);
    same(c, a.getFK<double>(q), fk(k, base, q, Eigen::MatrixX4d::Zero(n, 4)), "source-changed", d);
    c.count("link poses compared", 4);
  }
  same(c, b.getBaseOffset(), base, "derived-base", d);
  if (n > 0) refused(c, [&] { DHChain x(a, randOff(r, r.range(0, n - 1), 1)); }, "derived-too-few-rows", d);
  auto v = drawn(c, [&] {
    std::vector<double> o;
    for (int i = 0; i < 30; ++i)
    {
      Eigen::VectorXd q = (i % 2 ? b : b2).createUniformlyRandomPose();
      for (Eigen::Index j = 0; j < q.size(); ++j) o.push_back(q[j]);
    }
    return o; }, std::size_t(30 * n));
  bool in = true;
  for (std::size_t i = 0; i < v.size(); ++i) in = in && v[i] >= ts[i % std::size_t(n)].min && v[i] <= ts[i % std::size_t(n)].max;
  c.check(in, "derived-limits", cat(d, ": a random pose beyond the joint limits"));
  c.count("random poses drawn", 30);
}

static void random(Case& c)
{
  Rng& r = c.rng;
  const int n = r.range(1, 7), draws = 200;
  Chain k = randChain(r, n, 0.35);
  std::vector<DHTransform> ts;
  const bool own = r.chance(0.5);
  const std::size_t seed = r.next() % 100000;
  for (int i = 0; i < n; ++i)
  {
    auto& j = k[std::size_t(i)];
    DHTransform t(Eigen::Vector4d(j.d, j.theta, j.r, j.alpha), j.linear ? DHJointType::LINEAR : DHJointType::REVOLUTE, cat("a", i), own ? seed + std::size_t(i) : seed);
    if (r.chance(0.8)) { t.min = r.uni(-100, 100); t.max = t.min + r.logu(1e-3, 50); }
    ts.push_back(t);
  }
  std::string d = cat(n, " joints, seed ", seed);
  c.nontrivial(hashDouble(double(seed), n));
  auto f = [&] {
    DHChain ch(ts);
    std::vector<double> o;
    for (int i = 0; i < draws; ++i)
    {
      Eigen::VectorXd q = ch.createUniformlyRandomPose();
      if (q.size() != n) return std::vector<double>();
      for (Eigen::Index j = 0; j < q.size(); ++j) o.push_back(q[j]);
    }
    return o; };
  auto a = drawn(c, f, std::size_t(n * draws)), b = drawn(c, f, std::size_t(n * draws));
  c.check(std::memcmp(a.data(), b.data(), a.size() * 8) == 0, "not-reproducible", cat(d, ": two runs with the same seed differ"));
  for (auto& t : ts) t.random_seed += 1000003;
  auto b2 = drawn(c, f, std::size_t(n * draws));
  c.check(std::memcmp(a.data(), b2.data(), a.size() * 8) != 0, "seed-ignored", d);
  for (int j = 0; j < n; ++j)
  {
    double lo = 1e300, hi = -1e300, s = 0;
    for (int i = 0; i < draws; ++i)
    {
      const double x = a[std::size_t(i * n + j)];
      lo = std::min(lo, x); hi = std::max(hi, x); s += x;
      if (!(x >= lo && x <= hi)) hi = NAN;
    }
    auto& t = ts[std::size_t(j)];
    const double w = t.max - t.min;
    c.check(lo >= t.min && hi <= t.max, "limits", cat(d, ": joint ", j, " in [", lo, ", ", hi, "], limits [", t.min, ", ", t.max, "]"));
    // uniform: 200 draws reach both ends, and their mean is within seven standard errors
    c.check(lo < t.min + 0.15 * w && hi > t.max - 0.15 * w, "not-spread", cat(d, ": joint ", j, " in [", lo, ", ", hi, "], limits [", t.min, ", ", t.max, "]"));
    c.near(s / draws, 0.5 * (t.min + t.max), 7 * w / std::sqrt(12.0 * draws), "not-uniform", cat(d, ": mean of joint ", j));
  }
  c.count("random poses drawn", 3 * draws);
  {
    // without a seed of their own: the same joints, within the same limits, drawn afresh for every object
    auto make = [&](bool named) {
      std::vector<DHTransform> u;
      for (int i = 0; i < n; ++i)
      {
        const DHTransform& t = ts[std::size_t(i)];
        u.push_back(named ? DHTransform(t.params, t.type, t.name) : DHTransform(t.params, t.type));
        u.back().min = t.min, u.back().max = t.max;
        c.check(u.back().params == t.params && u.back().type == t.type && (!named || u.back().name == t.name), "unseeded-parameters", d);
        const auto l = u.back().getParamLabels();
        const std::string nm = named ? t.name : u.back().name;
        c.check(l[0] == nm + "_d" && l[1] == nm + "_theta" && l[2] == nm + "_r" && l[3] == nm + "_alpha", "labels", d);
      }
      return u; };
    const bool named = r.chance(0.5);
    const std::vector<DHTransform> u1 = make(named), u2 = make(named);
    const Eigen::VectorXd q = randQ(r, n);
    c.check(DHChain(u1).getFK<double>(q).matrix() == DHChain(ts).getFK<double>(q).matrix(), "unseeded-fk", d);
    auto draw = [&](const std::vector<DHTransform>& u) {
      return drawn(c, [&] {
        DHChain ch(u);
        std::vector<double> o;
        for (int i = 0; i < 20; ++i)
        {
          Eigen::VectorXd x = ch.createUniformlyRandomPose();
          for (Eigen::Index j = 0; j < x.size(); ++j) o.push_back(x[j]);
        }
        return o; }, std::size_t(20 * n)); };
    const auto a1 = draw(u1), a2 = draw(u2);
    bool in = true;
    for (std::size_t i = 0; i < a1.size(); ++i)
    {
      const DHTransform& t = ts[i % std::size_t(n)];
      in = in && a1[i] >= t.min && a1[i] <= t.max && a2[i] >= t.min && a2[i] <= t.max;
    }
    c.check(in, "limits", d + ": without a seed");
    c.check(a1 != a2, "unseeded-alike", d + ": two chains without seeds draw the same poses");
    c.count("random poses drawn", 40);
  }
}

VH_CASE(C10)
{
  switch (c.index % 4)
  {
    case 0: case 1: return forward(c);
    case 2: return derived(c);
    default: return random(c);
  }
}
