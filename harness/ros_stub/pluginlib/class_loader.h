// Stand-in for pluginlib's loader: makes exported classes by name
#pragma once
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <pluginlib/class_list_macros.h>
#include <stdexcept>
namespace pluginlib
{
class PluginlibException : public std::runtime_error
{
public:
  PluginlibException(const std::string& what) : std::runtime_error(what) {}
};
class LibraryLoadException : public PluginlibException
{
public:
  LibraryLoadException(const std::string& what) : PluginlibException(what) {}
};
template <typename Base>
class ClassLoader
{
public:
  ClassLoader(std::string, std::string) {}
  boost::shared_ptr<Base> createInstance(const std::string& name)
  {
    auto it = pluginlib_stub::table().find(name);
    if (it == pluginlib_stub::table().end()) throw LibraryLoadException("According to the loaded plugin descriptions the class " + name + " does not exist.");
    return boost::shared_ptr<Base>(static_cast<Base*>(it->second()));
  }
  bool isClassAvailable(const std::string& name) { return pluginlib_stub::table().count(name) > 0; }
};
}  // namespace pluginlib
