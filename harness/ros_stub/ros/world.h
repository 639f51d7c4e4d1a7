// What surrounds a node under test: frames, topics and services, played and recorded by the harness
#pragma once
#include <functional>
#include <map>
#include <sensor_msgs/Image.h>
#include <std_srvs/Empty.h>
#include <string>
#include <vector>
namespace ros_stub
{
struct World
{
  struct Service { long id; std::function<bool(std_srvs::EmptyRequest&, std_srvs::EmptyResponse&)> call; };
  struct Sub { long id; std::function<void(const sensor_msgs::ImageConstPtr&)> call; };
  long next = 1;
  std::multimap<std::string, Service> services;
  std::multimap<std::string, Sub> subs;
  std::vector<std::pair<std::string, sensor_msgs::Image>> published;
  // the pose of frame `child` in frame `base` as a row of x y z qx qy qz qw, when it is known
  std::function<bool(const std::string& base, const std::string& child, double out[7])> frames;
  int listeners = 0, lookups = 0;
  std::function<void()> spin;
};
inline World& world() { static World w; return w; }
template <typename M>
void forget(M& m, long id)
{
  for (auto it = m.begin(); it != m.end();)
    if (it->second.id == id) it = m.erase(it);
    else ++it;
}
}  // namespace ros_stub
