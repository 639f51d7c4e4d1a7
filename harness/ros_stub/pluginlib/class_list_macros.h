// Stand-in for pluginlib: exported classes are entered in a table of factories
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
namespace pluginlib_stub
{
using Factory = std::function<void*()>;
inline std::map<std::string, Factory>& table()
{
  static std::map<std::string, Factory> t;
  return t;
}
struct Export
{
  Export(const std::string& name, Factory f) { table()[name] = f; }
};
template <typename Base>
std::shared_ptr<Base> create(const std::string& name)
{
  return std::shared_ptr<Base>(static_cast<Base*>(table().at(name)()));
}
}  // namespace pluginlib_stub
#define PLUGINLIB_STUB_CAT2(a, b) a##b
#define PLUGINLIB_STUB_CAT(a, b) PLUGINLIB_STUB_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(CLASS, BASE) \
  static pluginlib_stub::Export PLUGINLIB_STUB_CAT(pluginlib_stub_export_, __LINE__)(#CLASS, []() -> void* { return static_cast<BASE*>(new CLASS); });
