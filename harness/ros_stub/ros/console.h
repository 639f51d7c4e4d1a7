// Recording stand-in for ros/console.h (ROS is not installed here): log messages are counted and dropped
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <string>
namespace ros_stub
{
struct Log
{
  std::atomic<int> info{0}, warn{0}, error{0};
  bool echo = false;   // (the stand-alone tools: messages also go to stderr)
  void say(const char* level, const std::string& text) { if (echo) std::fprintf(stderr, "[%s] %s\n", level, text.c_str()); }
};
inline Log& log()
{
  static Log l;
  return l;
}
__attribute__((format(printf, 1, 2))) inline std::string text(const char* f, ...)
{
  char buf[4096];
  va_list a;
  va_start(a, f);
  std::vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  return buf;
}
}  // namespace ros_stub
#define ROS_STUB_STREAM(LEVEL, ARGS) do { std::ostringstream ros_stub_os; ros_stub_os << ARGS; ros_stub::log().say(#LEVEL, ros_stub_os.str()); ros_stub::log().LEVEL.fetch_add(1, std::memory_order_relaxed); } while (0)
#define ROS_INFO_STREAM(ARGS) ROS_STUB_STREAM(info, ARGS)
#define ROS_WARN_STREAM(ARGS) ROS_STUB_STREAM(warn, ARGS)
#define ROS_ERROR_STREAM(ARGS) ROS_STUB_STREAM(error, ARGS)
#define ROS_DEBUG_STREAM(ARGS) ROS_STUB_STREAM(info, ARGS)
#define ROS_INFO(...) do { ros_stub::log().say("info", ros_stub::text(__VA_ARGS__)); ros_stub::log().info.fetch_add(1, std::memory_order_relaxed); } while (0)
#define ROS_WARN(...) do { ros_stub::log().say("warn", ros_stub::text(__VA_ARGS__)); ros_stub::log().warn.fetch_add(1, std::memory_order_relaxed); } while (0)
#define ROS_ERROR(...) do { ros_stub::log().say("error", ros_stub::text(__VA_ARGS__)); ros_stub::log().error.fetch_add(1, std::memory_order_relaxed); } while (0)
#define ROS_DEBUG(...) do { ros_stub::log().say("info", ros_stub::text(__VA_ARGS__)); ros_stub::log().info.fetch_add(1, std::memory_order_relaxed); } while (0)
