// Case runner: every property is a function run on numbered cases, each driven by its own deterministic generator.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh
{
struct Rng
{
  uint64_t s[4];
  explicit Rng(uint64_t seed = 0);
  uint64_t next();
  double u01();                                // [0,1)
  double uni(double a, double b);              // [a,b)
  int range(int a, int b);                     // inclusive
  bool chance(double p) { return u01() < p; }
  double gauss();
  double logu(double a, double b);             // log-uniform
  double sign() { return chance(0.5) ? 1.0 : -1.0; }
  template <typename T>
  void shuffle(std::vector<T>& v)
  {
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[static_cast<std::size_t>(range(0, int(i) - 1))]);
  }
};

uint64_t hashBytes(const void* p, std::size_t n, uint64_t h = 1469598103934665603ull);
uint64_t hashDouble(double d, uint64_t h);

struct Case
{
  std::string prop;
  uint64_t index = 0;
  uint64_t seed = 0;
  bool thorough = false;
  Rng rng;
  // A violation of the property; the key names the kind of failure and takes part in known-findings matching
  void fail(const std::string& key, const std::string& detail);
  // One monitored fact (an oracle evaluated on a real execution)
  void count(const std::string& name, double n = 1);
  void maxstat(const std::string& name, double v);
  // This case is distinct (by hash) and non-trivial
  void nontrivial(uint64_t h);
  void sample(const std::string& s);
  // checks
  bool check(bool ok, const std::string& key, const std::string& detail);
  bool near(double got, double want, double tol, const std::string& key, const std::string& detail);
  int fails = 0;
};

using Fn = std::function<void(Case&)>;
struct Reg
{
  Reg(const std::string& prop, Fn fn);
};
#define VH_CASE(PROP)                                                                                                  \
  static void vh_case_##PROP(vh::Case& c);                                                                             \
  static vh::Reg vh_reg_##PROP(#PROP, vh_case_##PROP);                                                                 \
  static void vh_case_##PROP(vh::Case& c)

// Silence std::cout/stdout chatter of the library while running
template <typename... A>
std::string cat(const A&... a)
{
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}
// Scratch directory of this process (created by the driver)
std::string scratch();
// bytes currently allocated (ASan builds), 0 if unknown
std::size_t allocatedBytes();
}  // namespace vh
