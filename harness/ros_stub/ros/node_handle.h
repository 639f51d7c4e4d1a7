// Recording stand-in for ros/node_handle.h: parameters live in the handle's own table
#pragma once
#include <cmath>
#include <map>
#include <memory>
#include <ros/console.h>
#include <ros/exceptions.h>
#include <ros/world.h>
#include <xmlrpcpp/XmlRpcException.h>
#include <xmlrpcpp/XmlRpcValue.h>
namespace ros
{
class ServiceServer
{
public:
  std::shared_ptr<void> held;
  std::string name;
  std::string getService() const { return name; }
  void shutdown() { held.reset(); }
};
class NodeHandle
{
public:
  typedef std::map<std::string, XmlRpc::XmlRpcValue> Table;
  // The table of a node's private parameters, when the process has one (the stand-alone tools)
  static std::shared_ptr<Table>& shared() { static std::shared_ptr<Table> t; return t; }
  NodeHandle(const std::string& ns = std::string()) : ns_(ns), params_(ns == "~" && shared() ? shared() : std::make_shared<Table>()) {}
  bool getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const
  {
    auto it = params_->find(key);
    if (it != params_->end()) { v = it->second; return true; }
    // "a/b" is member b of the structure a
    const std::size_t n = key.find('/');
    if (n == std::string::npos || (it = params_->find(key.substr(0, n))) == params_->end()) return false;
    XmlRpc::XmlRpcValue at = it->second;
    for (std::size_t i = n; i != std::string::npos;)
    {
      const std::size_t j = key.find('/', i + 1);
      const std::string part = key.substr(i + 1, j == std::string::npos ? j : j - i - 1);
      if (!at.hasMember(part)) return false;
      at = XmlRpc::XmlRpcValue(at[part]);
      i = j;
    }
    v = at;
    return true;
  }
  bool hasParam(const std::string& key) const { return params_->count(key) > 0; }
  void setParam(const std::string& key, const XmlRpc::XmlRpcValue& v) const { (*params_)[key] = v; }
  // (as in roscpp: whole numbers are good enough for real ones, and real ones are rounded to whole ones)
  bool getParam(const std::string& key, double& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x)) return false;
    if (x.getType() == XmlRpc::XmlRpcValue::TypeInt) v = static_cast<int&>(x);
    else if (x.getType() == XmlRpc::XmlRpcValue::TypeDouble) v = static_cast<double&>(x);
    else return false;
    return true;
  }
  bool getParam(const std::string& key, int& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x)) return false;
    if (x.getType() == XmlRpc::XmlRpcValue::TypeInt) v = static_cast<int&>(x);
    else if (x.getType() == XmlRpc::XmlRpcValue::TypeDouble)
    {
      const double d = static_cast<double&>(x);
      if (!(d > -2147483649.0 && d < 2147483648.0)) return false;
      v = static_cast<int>(std::fmod(d, 1.0) < 0.5 ? std::floor(d) : std::ceil(d));
    }
    else return false;
    return true;
  }
  template <typename T>
  bool getParam(const std::string& key, T& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x)) return false;
    try { v = static_cast<T&>(x); }
    catch (const XmlRpc::XmlRpcException&) { return false; }
    return true;
  }
  template <typename T, typename Req, typename Res>
  ServiceServer advertiseService(const std::string& name, bool (T::*f)(Req&, Res&), T* o)
  {
    auto& w = ros_stub::world();
    const long id = w.next++;
    w.services.emplace(name, ros_stub::World::Service{ id, [o, f](Req& a, Res& b) { return (o->*f)(a, b); } });
    ServiceServer s;
    s.name = "/" + name;
    s.held = std::shared_ptr<void>(nullptr, [id](void*) { ros_stub::forget(ros_stub::world().services, id); });
    return s;
  }

private:
  std::string ns_;
  std::shared_ptr<std::map<std::string, XmlRpc::XmlRpcValue>> params_;
};
}  // namespace ros
