#pragma once
#include <ros/node_handle.h>
#include <ros/time.h>
#include <ros/world.h>
namespace ros
{
namespace init_options
{
enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 };
}
typedef init_options::InitOption InitOption;
// Defined in tools_stub.cpp: loads the node's private parameters
void init(int& argc, char** argv, const std::string& name, unsigned options = 0);
inline bool ok() { return true; }
inline void shutdown() {}
inline void spin() { if (ros_stub::world().spin) ros_stub::world().spin(); }
inline void spinOnce() {}
}  // namespace ros
