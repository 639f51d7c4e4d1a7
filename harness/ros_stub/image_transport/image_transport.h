#pragma once
#include <ros/ros.h>
#include <ros/world.h>
namespace image_transport
{
class Subscriber
{
public:
  std::shared_ptr<void> held;
  std::string topic;
  std::string getTopic() const { return topic; }
  void shutdown() { held.reset(); }
};
class Publisher
{
public:
  std::shared_ptr<void> held;
  std::string topic;
  std::string getTopic() const { return topic; }
  uint32_t getNumSubscribers() const { return 1; }
  void publish(const sensor_msgs::Image& m) const { if (!topic.empty()) ros_stub::world().published.emplace_back(topic, m); }
  void publish(const sensor_msgs::ImageConstPtr& m) const { publish(*m); }
};
class ImageTransport
{
public:
  explicit ImageTransport(const ros::NodeHandle&) {}
  template <typename T>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(const sensor_msgs::ImageConstPtr&), T* o)
  {
    auto& w = ros_stub::world();
    const long id = w.next++;
    w.subs.emplace(topic, ros_stub::World::Sub{ id, [o, f](const sensor_msgs::ImageConstPtr& m) { (o->*f)(m); } });
    Subscriber s;
    s.topic = topic;
    s.held = std::shared_ptr<void>(nullptr, [id](void*) { ros_stub::forget(ros_stub::world().subs, id); });
    return s;
  }
  Publisher advertise(const std::string& topic, uint32_t, bool = false)
  {
    Publisher p;
    p.topic = topic;
    return p;
  }
};
}  // namespace image_transport
