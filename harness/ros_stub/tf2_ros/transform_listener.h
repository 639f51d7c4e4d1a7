#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
#include <ros/world.h>
#include <tf2/exceptions.h>
namespace tf2_ros
{
class Buffer
{
public:
  int listeners = 0;
  // (the pose of source in target, as in tf2)
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& when, const ros::Duration = ros::Duration(0)) const
  {
    auto& w = ros_stub::world();
    ++w.lookups;
    double v[7];
    if (!listeners || !when.isZero() || !w.frames || !w.frames(target, source, v)) throw tf2::LookupException("\"" + target + "\" passed to lookupTransform argument target_frame does not exist.");
    geometry_msgs::TransformStamped t;
    t.header.frame_id = target;
    t.header.stamp = ros::Time::now();
    t.child_frame_id = source;
    t.transform.translation.x = v[0], t.transform.translation.y = v[1], t.transform.translation.z = v[2];
    t.transform.rotation.x = v[3], t.transform.rotation.y = v[4], t.transform.rotation.z = v[5], t.transform.rotation.w = v[6];
    return t;
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& when, const ros::Duration = ros::Duration(0)) const
  {
    try { lookupTransform(target, source, when); return true; }
    catch (const tf2::TransformException&) { return false; }
  }
};
class TransformListener
{
public:
  explicit TransformListener(Buffer& b) : b_(b) { ++b_.listeners; }
  ~TransformListener() { --b_.listeners; }

private:
  Buffer& b_;
};
}  // namespace tf2_ros
