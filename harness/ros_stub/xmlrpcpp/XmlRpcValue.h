// Stand-in for xmlrpcpp/XmlRpcValue.h with the conversions, growth and errors of the ROS class
#pragma once
#include <map>
#include <ostream>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::vector<char> BinaryData;
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;

  XmlRpcValue() {}
  XmlRpcValue(bool v) : _type(TypeBoolean), _bool(v) {}
  XmlRpcValue(int v) : _type(TypeInt), _int(v) {}
  XmlRpcValue(double v) : _type(TypeDouble), _double(v) {}
  XmlRpcValue(const std::string& v) : _type(TypeString), _string(v) {}
  XmlRpcValue(const char* v) : _type(TypeString), _string(v) {}
  static XmlRpcValue emptyArray() { XmlRpcValue v; v._type = TypeArray; return v; }
  static XmlRpcValue emptyStruct() { XmlRpcValue v; v._type = TypeStruct; return v; }
  static XmlRpcValue ofType(Type t) { XmlRpcValue v; v._type = t; return v; }

  operator bool&() { assertTypeOrInvalid(TypeBoolean); return _bool; }
  operator const bool&() const { assertType(TypeBoolean); return _bool; }
  operator int&() { assertTypeOrInvalid(TypeInt); return _int; }
  operator const int&() const { assertType(TypeInt); return _int; }
  operator double&() { assertTypeOrInvalid(TypeDouble); return _double; }
  operator const double&() const { assertType(TypeDouble); return _double; }
  operator std::string&() { assertTypeOrInvalid(TypeString); return _string; }
  operator const std::string&() const { assertType(TypeString); return _string; }

  const XmlRpcValue& operator[](int i) const
  {
    if (_type != TypeArray) throw XmlRpcException("type error: expected an array");
    if (int(_array.size()) < i + 1) throw XmlRpcException("range error: array index too large");
    return _array.at(std::size_t(i));
  }
  XmlRpcValue& operator[](int i)
  {
    if (_type == TypeInvalid) _type = TypeArray;
    else if (_type != TypeArray) throw XmlRpcException("type error: expected an array");
    if (int(_array.size()) < i + 1) _array.resize(std::size_t(i) + 1);
    return _array.at(std::size_t(i));
  }
  XmlRpcValue& operator[](const std::string& k) { assertStruct(); return _struct[k]; }
  XmlRpcValue& operator[](const char* k) { assertStruct(); return _struct[k]; }

  iterator begin() { assertStruct(); return _struct.begin(); }
  iterator end() { assertStruct(); return _struct.end(); }
  const_iterator begin() const { assertStructC(); return _struct.begin(); }
  const_iterator end() const { assertStructC(); return _struct.end(); }

  bool valid() const { return _type != TypeInvalid; }
  const Type& getType() const { return _type; }
  int size() const
  {
    switch (_type)
    {
      case TypeString: return int(_string.size());
      case TypeArray: return int(_array.size());
      case TypeStruct: return int(_struct.size());
      default: break;
    }
    throw XmlRpcException("type error");
  }
  void setSize(int n) { if (_type == TypeInvalid) _type = TypeArray; if (_type != TypeArray) throw XmlRpcException("type error: expected an array"); _array.resize(std::size_t(n)); }
  bool hasMember(const std::string& name) const { return _type == TypeStruct && _struct.find(name) != _struct.end(); }

private:
  void assertType(Type t) const { if (_type != t) throw XmlRpcException("type error"); }
  void assertTypeOrInvalid(Type t)
  {
    if (_type == TypeInvalid) _type = t;
    else if (_type != t) throw XmlRpcException("type error");
  }
  void assertStruct()
  {
    if (_type == TypeInvalid) _type = TypeStruct;
    else if (_type != TypeStruct) throw XmlRpcException("type error: expected a struct");
  }
  void assertStructC() const { if (_type != TypeStruct) throw XmlRpcException("type error: expected a struct"); }

  Type _type = TypeInvalid;
  bool _bool = false;
  int _int = 0;
  double _double = 0;
  std::string _string;
  ValueArray _array;
  ValueStruct _struct;
};
inline std::ostream& operator<<(std::ostream& os, const XmlRpcValue& v)
{
  switch (v.getType())
  {
    case XmlRpcValue::TypeBoolean: return os << static_cast<const bool&>(v);
    case XmlRpcValue::TypeInt: return os << static_cast<const int&>(v);
    case XmlRpcValue::TypeDouble: return os << static_cast<const double&>(v);
    case XmlRpcValue::TypeString: return os << static_cast<const std::string&>(v);
    case XmlRpcValue::TypeArray: os << '{'; for (int i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i]; return os << '}';
    case XmlRpcValue::TypeStruct: os << '['; for (auto& e : v) os << (&e == &*v.begin() ? "" : ",") << e.first << ':' << e.second; return os << ']';
    default: return os;
  }
}
}  // namespace XmlRpc
