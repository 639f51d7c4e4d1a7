#pragma once
#include <string>
namespace sensor_msgs
{
namespace image_encodings
{
const std::string RGB8 = "rgb8", RGBA8 = "rgba8", BGR8 = "bgr8", BGRA8 = "bgra8", MONO8 = "mono8", MONO16 = "mono16", TYPE_8UC1 = "8UC1", TYPE_8UC3 = "8UC3", TYPE_16UC1 = "16UC1", TYPE_32FC1 = "32FC1";
}  // namespace image_encodings
}  // namespace sensor_msgs
