#include "core.h"
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <typeinfo>
#include <unistd.h>
#include <ceres/ceres.h>
#include <glog/logging.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif
#ifdef VH_ASAN
#include <sanitizer/allocator_interface.h>
#endif

namespace vh
{
static uint64_t splitmix(uint64_t& x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed)
{
  for (auto& v : s) v = splitmix(seed);
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next()
{
  const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
double Rng::u01() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
double Rng::uni(double a, double b) { return a + (b - a) * u01(); }
int Rng::range(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
double Rng::gauss()
{
  double u = u01();
  while (u <= 1e-300) u = u01();
  return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * u01());
}
double Rng::logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }

uint64_t hashBytes(const void* p, std::size_t n, uint64_t h)
{
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
uint64_t hashDouble(double d, uint64_t h) { return hashBytes(&d, sizeof d, h); }

static int g_fd = -1;
static std::string g_scratch = "/tmp";
std::string scratch() { return g_scratch; }
static std::map<std::string, double> g_count, g_max;
static std::map<std::string, Fn>& regs()
{
  static std::map<std::string, Fn> r;
  return r;
}
Reg::Reg(const std::string& prop, Fn fn) { regs()[prop] = std::move(fn); }

static void emit(const std::string& line)
{
  std::string l = line + "\n";
  std::size_t off = 0;
  while (off < l.size())
  {
    ssize_t n = ::write(g_fd, l.data() + off, l.size() - off);
    if (n <= 0) _exit(99);
    off += static_cast<std::size_t>(n);
  }
}
static std::string esc(const std::string& s)
{
  std::string o;
  for (char ch : s)
  {
    unsigned char u = static_cast<unsigned char>(ch);
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (u < 0x20 || u > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", u); o += b; }
    else o += ch;
  }
  return o;
}
void Case::fail(const std::string& key, const std::string& detail)
{
  ++fails;
  if (fails <= 5) emit("V {\"case\":" + std::to_string(index) + ",\"key\":\"" + esc(key) + "\",\"detail\":\"" + esc(detail.substr(0, 1500)) + "\"}");
}
void Case::count(const std::string& name, double n) { g_count[name] += n; }
void Case::maxstat(const std::string& name, double v)
{
  auto it = g_max.find(name);
  if (it == g_max.end()) g_max[name] = v;
  else if (v > it->second || std::isnan(v)) it->second = v;
}
void Case::nontrivial(uint64_t h) { emit("N " + std::to_string(h)); }
void Case::sample(const std::string& s)
{
  static int n = 0;
  if (n++ < 2) emit("S \"" + esc(s.substr(0, 600)) + "\"");
}
bool Case::check(bool ok, const std::string& key, const std::string& detail)
{
  count("checks");
  if (!ok) fail(key, detail);
  return ok;
}
bool Case::near(double got, double want, double tol, const std::string& key, const std::string& detail)
{
  count("checks");
  double d = std::abs(got - want);
  bool ok = d <= tol;  // false for NaN
  if (ok) maxstat(key + " (fraction of tolerance)", tol > 0 ? d / tol : 0);
  if (!ok) fail(key, cat(detail, " got ", got, " want ", want, " tol ", tol));
  return ok;
}
std::size_t allocatedBytes()
{
#ifdef VH_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
}  // namespace vh

// usage: vh PROP SEED TIER OUT SCRATCH ALARM first step end   (cases first, first+step, ... < end)
int main(int argc, char** argv)
{
  using namespace vh;
  if (argc < 10)
  {
    for (auto& r : regs()) std::printf("%s\n", r.first.c_str());
    return 2;
  }
  google::InitGoogleLogging(argv[0]);
  FLAGS_minloglevel = 2;
  FLAGS_logtostderr = true;
  std::string prop = argv[1];
  uint64_t seed = std::strtoull(argv[2], nullptr, 10);
  bool thorough = std::string(argv[3]) == "thorough";
  g_fd = ::open(argv[4], O_WRONLY | O_CREAT | O_APPEND, 0644);
  g_scratch = argv[5];
  unsigned alarm_s = static_cast<unsigned>(std::atoi(argv[6]));
  uint64_t first = std::strtoull(argv[7], nullptr, 10), step = std::strtoull(argv[8], nullptr, 10), end = std::strtoull(argv[9], nullptr, 10);
  auto it = regs().find(prop);
  if (g_fd < 0 || it == regs().end()) return 98;
  // The library prints progress on stdout; keep stderr for sanitizer reports
  if (!std::getenv("VH_STDOUT"))
  {
    int dn = ::open("/dev/null", O_WRONLY);
    ::dup2(dn, 1);
    ::close(dn);
  }
  for (uint64_t i = first; i < end; i += step)
  {
    emit("B " + std::to_string(i));
    ::alarm(alarm_s);
    Case c;
    c.prop = prop;
    c.index = i;
    c.seed = seed;
    c.thorough = thorough;
    uint64_t h = hashBytes(prop.data(), prop.size());
    h = hashBytes(&seed, sizeof seed, h);
    h = hashBytes(&i, sizeof i, h);
    c.rng = Rng(h);
    try
    {
      it->second(c);
    }
    catch (const std::exception& ex)
    {
      c.fail(std::string("unexpected-exception"), std::string(typeid(ex).name()) + ": " + ex.what());
    }
    catch (...)
    {
      c.fail("unexpected-exception", "not derived from std::exception");
    }
    ::alarm(0);
    emit("E " + std::to_string(i));
    if (i + step >= end || (i / step) % 8 == 7)
    {
      std::string m = "C {";
      bool f = true;
      for (auto& kv : g_count) { char b[64]; std::snprintf(b, sizeof b, "%.17g", kv.second); m += (f ? "\"" : ",\"") + esc(kv.first) + "\":" + b; f = false; }
      m += "}";
      emit(m);
      m = "M {"; f = true;
      for (auto& kv : g_max) { char b[64]; std::snprintf(b, sizeof b, "%.6g", kv.second); m += (f ? "\"" : ",\"") + esc(kv.first) + "\":\"" + b + "\""; f = false; }
      m += "}";
      emit(m);
      g_count.clear(); g_max.clear();
    }
  }
  return 0;
}
