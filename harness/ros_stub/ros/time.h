// Stand-in for ros/time.h
#pragma once
#include <cstdint>
namespace ros
{
struct Time
{
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) : sec(uint32_t(t)), nsec(uint32_t((t - uint32_t(t)) * 1e9)) {}
  bool isZero() const { return sec == 0 && nsec == 0; }
  double toSec() const { return sec + 1e-9 * nsec; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator<(const Time& o) const { return toSec() < o.toSec(); }
  static Time& clock() { static Time t(1000, 0); return t; }
  static Time now() { return clock(); }
};
struct Duration
{
  double s = 0;
  Duration() {}
  explicit Duration(double t) : s(t) {}
  Duration(int32_t sec, int32_t nsec) : s(sec + 1e-9 * nsec) {}
  double toSec() const { return s; }
  bool sleep() const { return true; }
};
}  // namespace ros
