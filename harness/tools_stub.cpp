// Linked into each stand-alone tool: parameters come from $VH_PARAMS, pictures shown are recorded in $VH_SHOWN
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <opencv2/core.hpp>
#include <ros/ros.h>
#include <sstream>

namespace
{
// one parameter per line: name/with/levels TYPE value
void load()
{
  auto t = std::make_shared<ros::NodeHandle::Table>();
  const char* path = std::getenv("VH_PARAMS");
  std::ifstream in(path ? path : "");
  std::string line;
  while (std::getline(in, line))
  {
    std::istringstream is(line);
    std::string key, type, value;
    is >> key >> type;
    std::getline(is, value);
    if (!value.empty()) value.erase(0, 1);
    XmlRpc::XmlRpcValue v;
    if (type == "d") v = XmlRpc::XmlRpcValue(std::strtod(value.c_str(), nullptr));
    else if (type == "i") v = XmlRpc::XmlRpcValue(std::atoi(value.c_str()));
    else if (type == "b") v = XmlRpc::XmlRpcValue(value == "1");
    else v = XmlRpc::XmlRpcValue(value);
    std::size_t n = key.find('/');
    XmlRpc::XmlRpcValue* at = &(*t)[key.substr(0, n)];
    while (n != std::string::npos)
    {
      const std::size_t m = key.find('/', n + 1);
      at = &(*at)[key.substr(n + 1, m == std::string::npos ? m : m - n - 1)];
      n = m;
    }
    *at = v;
  }
  ros::NodeHandle::shared() = t;
}
}  // namespace
void ros::init(int&, char**, const std::string&, unsigned)
{
  ros_stub::log().echo = true;
  load();
}
namespace cv
{
void namedWindow(const String&, int) {}
void destroyWindow(const String&) {}
void destroyAllWindows() {}
int waitKey(int) { return -1; }
void imshow(const String& name, InputArray in)
{
  const Mat m = in.getMat();
  CV_Assert(m.cols > 0 && m.rows > 0);   // (as the real one)
  const char* path = std::getenv("VH_SHOWN");
  if (!path) return;
  std::FILE* f = std::fopen(path, "ab");
  if (!f) std::abort();
  const int32_t h[4] = { int32_t(name.size()), m.rows, m.cols, m.type() };
  std::fwrite(h, sizeof h, 1, f);
  std::fwrite(name.data(), 1, name.size(), f);
  for (int y = 0; y < m.rows; ++y) std::fwrite(m.ptr(y), m.elemSize(), std::size_t(m.cols), f);
  std::fclose(f);
}
}  // namespace cv
