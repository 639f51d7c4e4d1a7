#pragma once
#include <stdexcept>
#include <string>
namespace ros
{
class Exception : public std::runtime_error
{
public:
  Exception(const std::string& what) : std::runtime_error(what) {}
};
class InvalidNameException : public Exception
{
public:
  InvalidNameException(const std::string& msg) : Exception(msg) {}
};
class InvalidParameterException : public Exception
{
public:
  InvalidParameterException(const std::string& msg) : Exception(msg) {}
};
}  // namespace ros
