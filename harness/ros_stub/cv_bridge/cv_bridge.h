// Stand-in for cv_bridge: the conversions between the encodings a camera driver is likely to use
#pragma once
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <stdexcept>
namespace cv_bridge
{
class Exception : public std::runtime_error
{
public:
  Exception(const std::string& what) : std::runtime_error(what) {}
};
class CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
inline int cvType(const std::string& e)
{
  if (e == "bgr8" || e == "rgb8" || e == "8UC3") return CV_8UC3;
  if (e == "bgra8" || e == "rgba8") return CV_8UC4;
  if (e == "mono8" || e == "8UC1") return CV_8UC1;
  if (e == "mono16" || e == "16UC1") return CV_16UC1;
  if (e == "32FC1") return CV_32FC1;
  throw Exception("Unrecognized image encoding [" + e + "]");
}
class CvImage
{
public:
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
  sensor_msgs::ImagePtr toImageMsg() const
  {
    auto m = boost::make_shared<sensor_msgs::Image>();
    m->header = header;
    m->height = uint32_t(image.rows);
    m->width = uint32_t(image.cols);
    m->encoding = encoding;
    m->step = uint32_t(image.cols * image.elemSize());
    for (int y = 0; y < image.rows; ++y) m->data.insert(m->data.end(), image.ptr(y), image.ptr(y) + m->step);
    return m;
  }
};
inline CvImagePtr toCvCopy(const sensor_msgs::Image& src, const std::string& to = std::string())
{
  const int type = cvType(src.encoding);
  if (src.step < src.width * uint32_t(CV_ELEM_SIZE(type))) throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");
  if (size_t(src.step) * src.height != src.data.size()) throw Exception("Image is wrongly formed: step * height != size");
  cv::Mat m(int(src.height), int(src.width), type);
  for (int y = 0; y < m.rows; ++y) std::copy(src.data.data() + size_t(y) * src.step, src.data.data() + size_t(y) * src.step + m.cols * m.elemSize(), m.ptr(y));
  auto out = boost::make_shared<CvImage>(src.header, to.empty() ? src.encoding : to);
  const std::string &a = src.encoding, b = out->encoding;
  if (a == b) { out->image = m; return out; }
  auto colour = [](const std::string& e) { return e == "bgr8" || e == "rgb8" || e == "bgra8" || e == "rgba8" || e == "mono8" || e == "mono16"; };
  if (!colour(a) || !colour(b))
  {
    // (unnamed encodings convert when the type already agrees)
    if (cvType(a) == cvType(b)) { out->image = m; return out; }
    throw Exception("[" + a + "] is not a color format. but [" + b + "] is. The conversion does not make sense");
  }
  if (a == "mono16") m.convertTo(m, CV_8UC1, 255. / 65535.);
  if (a == "rgb8") cv::cvtColor(m, m, cv::COLOR_RGB2BGR);
  else if (a == "bgra8") cv::cvtColor(m, m, cv::COLOR_BGRA2BGR);
  else if (a == "rgba8") cv::cvtColor(m, m, cv::COLOR_RGBA2BGR);
  else if (a == "mono8" || a == "mono16") cv::cvtColor(m, m, cv::COLOR_GRAY2BGR);
  if (b == "rgb8") cv::cvtColor(m, m, cv::COLOR_BGR2RGB);
  else if (b == "mono8" || b == "mono16") cv::cvtColor(m, m, cv::COLOR_BGR2GRAY);
  else if (b != "bgr8") throw Exception("not supported by the stand-in: " + b);
  if (b == "mono16") m.convertTo(m, CV_16UC1, 65535. / 255.);
  out->image = m;
  return out;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& src, const std::string& to = std::string()) { return toCvCopy(*src, to); }
// (shares nothing here: a copy is what a reader of a shared picture sees)
inline boost::shared_ptr<const CvImage> toCvShare(const sensor_msgs::ImageConstPtr& src, const std::string& to = std::string()) { return toCvCopy(*src, to); }
}  // namespace cv_bridge
