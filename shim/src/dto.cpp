// Stand-in for the parts of SUP-DTO that oac-tree uses: value semantics, JSON in and out.
#include <sup/dto/anytype_helper.h>
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anyvalue_operations.h>
#include <sup/dto/json_type_parser.h>
#include <sup/dto/json_value_parser.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <sstream>

namespace sup
{
namespace dto
{
namespace
{
const char* const kCodeNames[] = {"empty", "bool", "char8", "int8", "uint8", "int16", "uint16",
                                  "int32", "uint32", "int64", "uint64", "float32", "float64",
                                  "string", "struct", "array"};
std::string CodeName(TypeCode c) { return kCodeNames[static_cast<uint32>(c)]; }
bool IsSimple(TypeCode c) { return c != TypeCode::Struct && c != TypeCode::Array; }

// splits "a.b[1].c" in its first component and the rest
bool SplitField(const std::string& name, std::string& head, std::string& tail)
{
  if (name.empty()) return false;
  if (name[0] == '[')
  {
    auto p = name.find(']');
    if (p == std::string::npos) return false;
    head = name.substr(0, p + 1);
    tail = name.substr(p + 1);
    if (!tail.empty() && tail[0] == '.') { tail = tail.substr(1); if (tail.empty()) return false; }
    return true;
  }
  auto p = name.find_first_of(".[");
  head = name.substr(0, p);
  if (p == std::string::npos) { tail.clear(); return true; }
  tail = name[p] == '.' ? name.substr(p + 1) : name.substr(p);
  return !tail.empty();
}
}  // namespace

const AnyType EmptyType;
const AnyType BooleanType(TypeCode::Bool);
const AnyType Character8Type(TypeCode::Char8);
const AnyType SignedInteger8Type(TypeCode::Int8);
const AnyType UnsignedInteger8Type(TypeCode::UInt8);
const AnyType SignedInteger16Type(TypeCode::Int16);
const AnyType UnsignedInteger16Type(TypeCode::UInt16);
const AnyType SignedInteger32Type(TypeCode::Int32);
const AnyType UnsignedInteger32Type(TypeCode::UInt32);
const AnyType SignedInteger64Type(TypeCode::Int64);
const AnyType UnsignedInteger64Type(TypeCode::UInt64);
const AnyType Float32Type(TypeCode::Float32);
const AnyType Float64Type(TypeCode::Float64);
const AnyType StringType(TypeCode::String);

AnyType::AnyType(TypeCode code) : m_code(code) {}
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
                 const std::string& name)
  : m_code(TypeCode::Struct), m_name(name), m_members(members)
{}
AnyType::AnyType(std::size_t size, const AnyType& elem_type, const std::string& name)
  : m_code(TypeCode::Array), m_name(name), m_size(size), m_elem(new AnyType(elem_type))
{}
AnyType AnyType::MakeStruct(const std::string& name)
{
  AnyType t;
  t.m_code = TypeCode::Struct;
  t.m_name = name;
  return t;
}
std::string AnyType::GetTypeName() const { return IsSimple(m_code) ? CodeName(m_code) : m_name; }
bool AnyType::HasField(const std::string& name) const
{
  for (auto& m : m_members) if (m.first == name) return true;
  return false;
}
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_code != TypeCode::Struct || HasField(name)) throw InvalidOperationException("AddMember");
  m_members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{
  std::vector<std::string> r;
  for (auto& m : m_members) r.push_back(m.first);
  return r;
}
AnyType AnyType::ElementType() const
{
  if (m_code != TypeCode::Array) throw InvalidOperationException("ElementType");
  return *m_elem;
}
const AnyType& AnyType::operator[](const std::string& name) const
{
  for (auto& m : m_members) if (m.first == name) return m.second;
  throw InvalidOperationException("no such field");
}
bool AnyType::operator==(const AnyType& o) const
{
  if (m_code != o.m_code) return false;
  if (m_code == TypeCode::Struct)
  {
    if (m_name != o.m_name || m_members.size() != o.m_members.size()) return false;
    for (std::size_t i = 0; i < m_members.size(); ++i)
      if (m_members[i].first != o.m_members[i].first || m_members[i].second != o.m_members[i].second)
        return false;
    return true;
  }
  if (m_code == TypeCode::Array)
    return m_name == o.m_name && m_size == o.m_size && *m_elem == *o.m_elem;
  return true;
}
AnyType EmptyStructType(const std::string& name) { return AnyType::MakeStruct(name); }
bool IsEmptyType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& t)
{
  return t.GetTypeCode() >= TypeCode::Bool && t.GetTypeCode() <= TypeCode::String;
}

// ---------------------------------------------------------------- AnyValue

AnyValue::AnyValue(boolean v) : m_i(v), m_code(TypeCode::Bool) {}
AnyValue::AnyValue(char8 v) : m_i(v), m_code(TypeCode::Char8) {}
AnyValue::AnyValue(int8 v) : m_i(v), m_code(TypeCode::Int8) {}
AnyValue::AnyValue(uint8 v) : m_u(v), m_code(TypeCode::UInt8) {}
AnyValue::AnyValue(int16 v) : m_i(v), m_code(TypeCode::Int16) {}
AnyValue::AnyValue(uint16 v) : m_u(v), m_code(TypeCode::UInt16) {}
AnyValue::AnyValue(int32 v) : m_i(v), m_code(TypeCode::Int32) {}
AnyValue::AnyValue(uint32 v) : m_u(v), m_code(TypeCode::UInt32) {}
AnyValue::AnyValue(int64 v) : m_i(v), m_code(TypeCode::Int64) {}
AnyValue::AnyValue(uint64 v) : m_u(v), m_code(TypeCode::UInt64) {}
AnyValue::AnyValue(float32 v) : m_d(v), m_code(TypeCode::Float32) {}
AnyValue::AnyValue(float64 v) : m_d(v), m_code(TypeCode::Float64) {}
AnyValue::AnyValue(const std::string& v) : m_s(v), m_code(TypeCode::String) {}
AnyValue::AnyValue(const char* v) : m_s(v), m_code(TypeCode::String) {}
AnyValue::AnyValue(const AnyType& type) : m_code(type.GetTypeCode())
{
  if (m_code == TypeCode::Struct)
  {
    m_name = type.GetTypeName();
    for (auto& m : type.Members())
    {
      m_names.push_back(m.first);
      m_children.emplace_back(m.second);
    }
  }
  else if (m_code == TypeCode::Array)
  {
    m_name = type.GetTypeName();
    m_elem = std::make_shared<AnyType>(type.ElementType());
    m_children.assign(type.NumberOfElements(), AnyValue(*m_elem));
  }
  SetLock(false);
}
AnyValue::AnyValue(const AnyType& type, const AnyValue& value) : AnyValue(type)
{
  ConvertFrom(value);
}
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
                   const std::string& name)
  : m_code(TypeCode::Struct), m_name(name)
{
  for (auto& m : members) AddMember(m.first, m.second);
}
AnyValue::AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name)
  : AnyValue(AnyType(size, elem_type, name))
{}
AnyValue::AnyValue(const AnyValue& other) { Replace(other); SetLock(false); }
AnyValue::AnyValue(AnyValue&& other) noexcept
{
  m_i = other.m_i; m_u = other.m_u; m_d = other.m_d; m_s = std::move(other.m_s);
  m_code = other.m_code; m_name = std::move(other.m_name); m_names = std::move(other.m_names);
  m_children = std::move(other.m_children); m_elem = other.m_elem;
  SetLock(false);
}
void AnyValue::Replace(const AnyValue& o)
{
  m_i = o.m_i; m_u = o.m_u; m_d = o.m_d; m_s = o.m_s;
  m_code = o.m_code; m_name = o.m_name; m_names = o.m_names;
  auto c = o.m_children;   // not element by element: elements keep their types when assigned
  m_children.swap(c);
  m_elem = o.m_elem;
}
AnyValue& AnyValue::operator=(const AnyValue& other)
{
  if (this == &other) return *this;
  if (m_locked) { ConvertFrom(other); return *this; }
  AnyValue copy(other);
  Replace(copy);
  SetLock(false);
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& other) { return *this = static_cast<const AnyValue&>(other); }
void AnyValue::SetLock(bool lock)
{
  m_locked = lock;
  for (auto& c : m_children) c.SetLock(lock || m_code == TypeCode::Array);
}

bool AnyValue::IsFloat() const { return m_code == TypeCode::Float32 || m_code == TypeCode::Float64; }
bool AnyValue::IsUnsigned() const
{
  return m_code == TypeCode::UInt8 || m_code == TypeCode::UInt16 || m_code == TypeCode::UInt32 ||
         m_code == TypeCode::UInt64;
}
bool AnyValue::IsIntegral() const { return m_code >= TypeCode::Bool && m_code <= TypeCode::UInt64; }
bool AnyValue::IsScalar() const { return IsScalarValue(*this); }

namespace
{
template <typename T> T IntAs(const AnyValue& v)
{
  if (v.IsFloat())
  {
    if (!(v.m_d >= static_cast<double>(std::numeric_limits<T>::lowest()) &&
          v.m_d <= static_cast<double>(std::numeric_limits<T>::max())))
      throw InvalidConversionException("float out of range");
    return static_cast<T>(v.m_d);
  }
  if (!v.IsIntegral()) throw InvalidConversionException("not a number");
  if (v.IsUnsigned())
  {
    if (v.m_u > static_cast<uint64>(std::numeric_limits<T>::max()))
      throw InvalidConversionException("out of range");
    return static_cast<T>(v.m_u);
  }
  if (std::numeric_limits<T>::is_signed)
  {
    if (v.m_i < static_cast<int64>(std::numeric_limits<T>::lowest()) ||
        v.m_i > static_cast<int64>(std::numeric_limits<T>::max()))
      throw InvalidConversionException("out of range");
  }
  else if (v.m_i < 0 || static_cast<uint64>(v.m_i) > static_cast<uint64>(std::numeric_limits<T>::max()))
  {
    throw InvalidConversionException("out of range");
  }
  return static_cast<T>(v.m_i);
}
double DoubleAs(const AnyValue& v)
{
  if (v.IsFloat()) return v.m_d;
  if (!v.IsIntegral()) throw InvalidConversionException("not a number");
  return v.IsUnsigned() ? static_cast<double>(v.m_u) : static_cast<double>(v.m_i);
}
}  // namespace

template <> boolean AnyValue::As<boolean>() const { return DoubleAs(*this) != 0; }
template <> char8 AnyValue::As<char8>() const { return IntAs<char8>(*this); }
template <> int8 AnyValue::As<int8>() const { return IntAs<int8>(*this); }
template <> uint8 AnyValue::As<uint8>() const { return IntAs<uint8>(*this); }
template <> int16 AnyValue::As<int16>() const { return IntAs<int16>(*this); }
template <> uint16 AnyValue::As<uint16>() const { return IntAs<uint16>(*this); }
template <> int32 AnyValue::As<int32>() const { return IntAs<int32>(*this); }
template <> uint32 AnyValue::As<uint32>() const { return IntAs<uint32>(*this); }
template <> int64 AnyValue::As<int64>() const { return IntAs<int64>(*this); }
template <> uint64 AnyValue::As<uint64>() const { return IntAs<uint64>(*this); }
template <> float32 AnyValue::As<float32>() const { return static_cast<float32>(DoubleAs(*this)); }
template <> float64 AnyValue::As<float64>() const { return DoubleAs(*this); }
template <> std::string AnyValue::As<std::string>() const
{
  if (m_code != TypeCode::String) throw InvalidConversionException("not a string");
  return m_s;
}
AnyValue::operator std::string() const { return As<std::string>(); }

void AnyValue::ConvertFrom(const AnyValue& o)
{
  switch (m_code)
  {
  case TypeCode::Empty:
    if (o.m_code != TypeCode::Empty) throw InvalidConversionException("cannot convert to empty");
    return;
  case TypeCode::Bool: m_i = o.As<boolean>(); return;
  case TypeCode::Char8: m_i = o.As<char8>(); return;
  case TypeCode::Int8: m_i = o.As<int8>(); return;
  case TypeCode::UInt8: m_u = o.As<uint8>(); return;
  case TypeCode::Int16: m_i = o.As<int16>(); return;
  case TypeCode::UInt16: m_u = o.As<uint16>(); return;
  case TypeCode::Int32: m_i = o.As<int32>(); return;
  case TypeCode::UInt32: m_u = o.As<uint32>(); return;
  case TypeCode::Int64: m_i = o.As<int64>(); return;
  case TypeCode::UInt64: m_u = o.As<uint64>(); return;
  case TypeCode::Float32: m_d = o.As<float32>(); return;
  case TypeCode::Float64: m_d = o.As<float64>(); return;
  case TypeCode::String: m_s = o.As<std::string>(); return;
  case TypeCode::Struct:
  {
    if (o.m_code != TypeCode::Struct || o.m_names != m_names)
      throw InvalidConversionException("struct mismatch");
    auto copy = m_children;
    for (std::size_t i = 0; i < copy.size(); ++i) copy[i].ConvertFrom(o.m_children[i]);
    m_children = copy;
    SetLock(m_locked);
    return;
  }
  case TypeCode::Array:
  {
    if (o.m_code != TypeCode::Array || o.m_children.size() != m_children.size())
      throw InvalidConversionException("array mismatch");
    auto copy = m_children;
    for (std::size_t i = 0; i < copy.size(); ++i) copy[i].ConvertFrom(o.m_children[i]);
    m_children = copy;
    SetLock(m_locked);
    return;
  }
  }
}

AnyType AnyValue::GetType() const
{
  if (m_code == TypeCode::Struct)
  {
    auto t = AnyType::MakeStruct(m_name);
    for (std::size_t i = 0; i < m_names.size(); ++i) t.AddMember(m_names[i], m_children[i].GetType());
    return t;
  }
  if (m_code == TypeCode::Array) return AnyType(m_children.size(), *m_elem, m_name);
  return AnyType(m_code);
}
std::string AnyValue::GetTypeName() const { return IsSimple(m_code) ? CodeName(m_code) : m_name; }

AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& value)
{
  if (m_code != TypeCode::Struct || m_locked || name.empty() ||
      name.find_first_of(".[]") != std::string::npos ||
      std::find(m_names.begin(), m_names.end(), name) != m_names.end())
    throw InvalidOperationException("AddMember failed for [" + name + "]");
  m_names.push_back(name);
  m_children.push_back(value);
  return *this;
}
AnyValue& AnyValue::AddElement(const AnyValue& value)
{
  if (m_code != TypeCode::Array || m_locked) throw InvalidOperationException("AddElement");
  AnyValue e(*m_elem);
  e.ConvertFrom(value);
  m_children.push_back(e);
  SetLock(false);
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const { return m_names; }
std::size_t AnyValue::NumberOfMembers() const { return m_names.size(); }
std::size_t AnyValue::NumberOfElements() const
{
  return m_code == TypeCode::Array ? m_children.size() : 0;
}

const AnyValue* AnyValue::Find(const std::string& name) const
{
  std::string head, tail;
  if (!SplitField(name, head, tail)) return nullptr;
  const AnyValue* child = nullptr;
  if (head[0] == '[')
  {
    if (m_code != TypeCode::Array || head.size() < 3) return nullptr;
    char* end = nullptr;
    auto idx = std::strtoul(head.c_str() + 1, &end, 10);
    if (*end != ']' || head[1] < '0' || head[1] > '9' || idx >= m_children.size()) return nullptr;
    child = &m_children[idx];
  }
  else
  {
    auto it = std::find(m_names.begin(), m_names.end(), head);
    if (it == m_names.end()) return nullptr;
    child = &m_children[it - m_names.begin()];
  }
  return tail.empty() ? child : child->Find(tail);
}
bool AnyValue::HasField(const std::string& name) const { return Find(name) != nullptr; }
const AnyValue& AnyValue::operator[](const std::string& name) const
{
  auto f = Find(name);
  if (!f) throw InvalidOperationException("no field [" + name + "]");
  return *f;
}
AnyValue& AnyValue::operator[](const std::string& name)
{
  return const_cast<AnyValue&>(static_cast<const AnyValue&>(*this)[name]);
}
const AnyValue& AnyValue::operator[](std::size_t idx) const
{
  if (m_code != TypeCode::Array || idx >= m_children.size()) throw InvalidOperationException("index");
  return m_children[idx];
}
AnyValue& AnyValue::operator[](std::size_t idx)
{
  return const_cast<AnyValue&>(static_cast<const AnyValue&>(*this)[idx]);
}

bool AnyValue::operator==(const AnyValue& o) const
{
  if (IsEmptyValue(*this) || IsEmptyValue(o)) return IsEmptyValue(*this) && IsEmptyValue(o);
  if (IsScalarValue(*this) && IsScalarValue(o)) return Compare(*this, o) == CompareResult::Equivalent;
  if (m_code != o.m_code || m_names != o.m_names) return false;
  return m_children == o.m_children;
}

AnyValue EmptyStruct(const std::string& name) { return AnyValue(EmptyStructType(name)); }
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarValue(const AnyValue& v)
{
  return v.GetTypeCode() >= TypeCode::Bool && v.GetTypeCode() <= TypeCode::String;
}

CompareResult Compare(const AnyValue& l, const AnyValue& r)
{
  auto cmp = [](auto a, auto b)
  {
    return a < b ? CompareResult::Less
                 : (b < a ? CompareResult::Greater
                          : (a == b ? CompareResult::Equivalent : CompareResult::Unordered));
  };
  if (!IsScalarValue(l) || !IsScalarValue(r)) return CompareResult::Unordered;
  bool ls = l.GetTypeCode() == TypeCode::String;
  bool rs = r.GetTypeCode() == TypeCode::String;
  if (ls || rs) return ls && rs ? cmp(l.m_s, r.m_s) : CompareResult::Unordered;
  if (l.IsFloat() || r.IsFloat()) return cmp(l.As<float64>(), r.As<float64>());
  if (l.IsUnsigned() && r.IsUnsigned()) return cmp(l.m_u, r.m_u);
  if (!l.IsUnsigned() && !r.IsUnsigned()) return cmp(l.m_i, r.m_i);
  if (l.IsUnsigned()) return r.m_i < 0 ? CompareResult::Greater : cmp(l.m_u, static_cast<uint64>(r.m_i));
  return l.m_i < 0 ? CompareResult::Less : cmp(static_cast<uint64>(l.m_i), r.m_u);
}

namespace
{
template <typename T> AnyValue Stepped(const AnyValue& v, int d)
{
  return AnyValue(static_cast<T>(d > 0 ? static_cast<uint64>(IntAs<T>(v)) + 1
                                       : static_cast<uint64>(IntAs<T>(v)) - 1));
}
bool StepValue(AnyValue& v, int d)
{
  switch (v.GetTypeCode())
  {
  case TypeCode::Char8: v = Stepped<char8>(v, d); return true;
  case TypeCode::Int8: v = Stepped<int8>(v, d); return true;
  case TypeCode::UInt8: v = Stepped<uint8>(v, d); return true;
  case TypeCode::Int16: v = Stepped<int16>(v, d); return true;
  case TypeCode::UInt16: v = Stepped<uint16>(v, d); return true;
  case TypeCode::Int32: v = Stepped<int32>(v, d); return true;
  case TypeCode::UInt32: v = Stepped<uint32>(v, d); return true;
  case TypeCode::Int64: v = Stepped<int64>(v, d); return true;
  case TypeCode::UInt64: v = Stepped<uint64>(v, d); return true;
  case TypeCode::Float32: v = AnyValue(static_cast<float32>(v.As<float32>() + d)); return true;
  case TypeCode::Float64: v = AnyValue(v.As<float64>() + d); return true;
  default: return false;
  }
}
}  // namespace
bool Increment(AnyValue& value) { return StepValue(value, 1); }
bool Decrement(AnyValue& value) { return StepValue(value, -1); }

bool TryAssign(AnyValue& dest, const AnyValue& src)
{
  try { dest = src; } catch (const MessageException&) { return false; }
  return true;
}
bool TryConvert(AnyValue& dest, const AnyValue& src)
{
  try { dest.ConvertFrom(src); } catch (const MessageException&) { return false; }
  return true;
}
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src)
{
  return IsEmptyValue(dest) ? TryAssign(dest, src) : TryConvert(dest, src);
}

// ---------------------------------------------------------------- registry

void AnyTypeRegistry::RegisterType(AnyType type) { RegisterType(type.GetTypeName(), type); }
void AnyTypeRegistry::RegisterType(const std::string& name, AnyType type)
{
  if (HasType(name) && GetType(name) != type) throw InvalidOperationException("RegisterType");
  m_types[name] = type;
}
bool AnyTypeRegistry::HasType(const std::string& name) const
{
  for (auto n : kCodeNames)
    if (name == n && name != "struct" && name != "array") return true;
  return m_types.count(name) > 0;
}
AnyType AnyTypeRegistry::GetType(const std::string& name) const
{
  for (uint32 i = 0; i < 14; ++i)
    if (name == kCodeNames[i]) return AnyType(static_cast<TypeCode>(i));
  auto it = m_types.find(name);
  if (it == m_types.end()) throw InvalidOperationException("GetType");
  return it->second;
}

// ---------------------------------------------------------------- JSON

namespace
{
struct Json
{
  enum Kind { Null, Bool, Number, String, Object, Array } kind = Null;
  bool b = false;
  std::string s;  // text of string or number
  std::vector<std::pair<std::string, Json>> members;
  std::vector<Json> elements;
  const Json* Get(const std::string& n) const
  {
    for (auto& m : members) if (m.first == n) return &m.second;
    return nullptr;
  }
};

class JsonReader
{
public:
  explicit JsonReader(const std::string& text) : p(text.c_str()), end(p + text.size()) {}
  bool Read(Json& out)
  {
    if (!Value(out, 0)) return false;
    Skip();
    return p == end;
  }
private:
  const char* p;
  const char* end;
  void Skip() { while (p != end && std::strchr(" \t\r\n", *p) && *p) ++p; }
  bool Lit(const char* lit)
  {
    auto n = std::strlen(lit);
    if (static_cast<std::size_t>(end - p) < n || std::strncmp(p, lit, n) != 0) return false;
    p += n;
    return true;
  }
  bool Value(Json& out, int depth)
  {
    if (depth > 200) return false;
    Skip();
    if (p == end) return false;
    if (*p == '{')
    {
      out.kind = Json::Object;
      ++p;
      Skip();
      if (p != end && *p == '}') { ++p; return true; }
      while (true)
      {
        Skip();
        std::string key;
        if (!Str(key)) return false;
        Skip();
        if (p == end || *p++ != ':') return false;
        Json v;
        if (!Value(v, depth + 1)) return false;
        out.members.emplace_back(key, v);
        Skip();
        if (p == end) return false;
        if (*p == ',') { ++p; continue; }
        return *p++ == '}';
      }
    }
    if (*p == '[')
    {
      out.kind = Json::Array;
      ++p;
      Skip();
      if (p != end && *p == ']') { ++p; return true; }
      while (true)
      {
        Json v;
        if (!Value(v, depth + 1)) return false;
        out.elements.push_back(v);
        Skip();
        if (p == end) return false;
        if (*p == ',') { ++p; continue; }
        return *p++ == ']';
      }
    }
    if (*p == '"') { out.kind = Json::String; return Str(out.s); }
    if (Lit("true")) { out.kind = Json::Bool; out.b = true; return true; }
    if (Lit("false")) { out.kind = Json::Bool; return true; }
    if (Lit("null")) { out.kind = Json::Null; return true; }
    return Num(out);
  }
  bool Digits() { auto q = p; while (p != end && *p >= '0' && *p <= '9') ++p; return p != q; }
  bool Num(Json& out)
  {
    out.kind = Json::Number;
    auto q = p;
    if (p != end && *p == '-') ++p;
    auto d = p;
    if (!Digits()) return false;
    if (*d == '0' && p - d > 1) return false;
    if (p != end && *p == '.') { ++p; if (!Digits()) return false; }
    if (p != end && (*p == 'e' || *p == 'E'))
    {
      ++p;
      if (p != end && (*p == '+' || *p == '-')) ++p;
      if (!Digits()) return false;
    }
    out.s.assign(q, p);
    return true;
  }
  bool Str(std::string& out)
  {
    if (p == end || *p != '"') return false;
    ++p;
    while (p != end && *p != '"')
    {
      if (static_cast<unsigned char>(*p) < 0x20) return false;
      if (*p != '\\') { out += *p++; continue; }
      if (++p == end) return false;
      char c = *p++;
      switch (c)
      {
      case '"': case '\\': case '/': out += c; break;
      case 'b': out += '\b'; break;
      case 'f': out += '\f'; break;
      case 'n': out += '\n'; break;
      case 'r': out += '\r'; break;
      case 't': out += '\t'; break;
      case 'u':
      {
        if (end - p < 4) return false;
        unsigned v = 0;
        for (int i = 0; i < 4; ++i)
        {
          if (!std::isxdigit(static_cast<unsigned char>(p[i]))) return false;
          v = v * 16 + static_cast<unsigned>(std::strtoul(std::string(1, p[i]).c_str(), nullptr, 16));
        }
        p += 4;
        if (v < 0x80) out += static_cast<char>(v);
        else if (v < 0x800) { out += static_cast<char>(0xC0 | (v >> 6)); out += static_cast<char>(0x80 | (v & 63)); }
        else { out += static_cast<char>(0xE0 | (v >> 12)); out += static_cast<char>(0x80 | ((v >> 6) & 63)); out += static_cast<char>(0x80 | (v & 63)); }
        break;
      }
      default: return false;
      }
    }
    if (p == end) return false;
    ++p;
    return true;
  }
};

std::string Quote(const std::string& s)
{
  std::string r = "\"";
  for (char c : s)
  {
    switch (c)
    {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break;
    case '\t': r += "\\t"; break;
    case '\b': r += "\\b"; break;
    case '\f': r += "\\f"; break;
    default:
      if (static_cast<unsigned char>(c) < 0x20)
      {
        char buf[8];
        std::snprintf(buf, sizeof buf, "\\u%04x", c);
        r += buf;
      }
      else r += c;
    }
  }
  return r + "\"";
}

AnyType TypeFromJson(const Json& j, const AnyTypeRegistry* reg)
{
  auto t = j.Get("type");
  if (j.kind != Json::Object || !t || t->kind != Json::String) throw ParseException("type");
  auto& name = t->s;
  if (auto attrs = j.Get("attributes"))
  {
    if (attrs->kind != Json::Array) throw ParseException("attributes");
    auto r = EmptyStructType(name);
    for (auto& a : attrs->elements)
    {
      if (a.kind != Json::Object || a.members.size() != 1) throw ParseException("attribute");
      r.AddMember(a.members[0].first, TypeFromJson(a.members[0].second, reg));
    }
    return r;
  }
  if (auto elem = j.Get("element"))
  {
    auto m = j.Get("multiplicity");
    std::size_t n = 0;
    if (m)
    {
      if (m->kind != Json::Number || m->s.find_first_not_of("0123456789") != std::string::npos)
        throw ParseException("multiplicity");
      n = std::stoul(m->s);
    }
    return AnyType(n, TypeFromJson(*elem, reg), name);
  }
  if (name.empty()) return EmptyType;
  for (uint32 i = 1; i < 14; ++i)
    if (name == kCodeNames[i]) return AnyType(static_cast<TypeCode>(i));
  if (reg && reg->HasType(name)) return reg->GetType(name);
  throw ParseException("unknown type");
}

AnyValue ValueFromJson(const AnyType& type, const Json& j)
{
  auto code = type.GetTypeCode();
  switch (code)
  {
  case TypeCode::Empty:
    if (j.kind != Json::Null) throw ParseException("empty");
    return AnyValue{};
  case TypeCode::Bool:
    if (j.kind == Json::Number) return AnyValue(std::strtod(j.s.c_str(), nullptr) != 0);
    if (j.kind != Json::Bool) throw ParseException("bool");
    return AnyValue(j.b);
  case TypeCode::String:
    if (j.kind != Json::String) throw ParseException("string");
    return AnyValue(j.s);
  case TypeCode::Struct:
  {
    // members may come in any order and may be left out; unknown ones are an error
    if (j.kind != Json::Object) throw ParseException("struct");
    AnyValue r(type);
    for (auto& m : j.members)
    {
      if (!type.HasField(m.first)) throw ParseException("member");
      r[m.first] = ValueFromJson(type[m.first], m.second);
    }
    return r;
  }
  case TypeCode::Array:
  {
    if (j.kind != Json::Array) throw ParseException("array");
    if (type.NumberOfElements() != 0 && j.elements.size() != type.NumberOfElements())
      throw ParseException("array size");
    AnyValue r(AnyType(0, type.ElementType(), type.GetTypeName()));
    for (auto& e : j.elements) r.AddElement(ValueFromJson(type.ElementType(), e));
    return r;
  }
  case TypeCode::Float32:
  case TypeCode::Float64:
    if (j.kind != Json::Number) throw ParseException("number");
    return AnyValue(type, AnyValue(std::strtod(j.s.c_str(), nullptr)));
  default:
  {
    if (j.kind != Json::Number) throw ParseException("integer");
    if (j.s.find_first_of(".eE") != std::string::npos)
      return AnyValue(type, AnyValue(std::strtod(j.s.c_str(), nullptr)));
    errno = 0;
    if (j.s[0] == '-')
    {
      auto v = std::strtoll(j.s.c_str(), nullptr, 10);
      if (errno) throw ParseException("range");
      return AnyValue(type, AnyValue(static_cast<int64>(v)));
    }
    auto v = std::strtoull(j.s.c_str(), nullptr, 10);
    if (errno) throw ParseException("range");
    return AnyValue(type, AnyValue(static_cast<uint64>(v)));
  }
  }
}

bool Slurp(const std::string& filename, std::string& out)
{
  std::ifstream in(filename);
  if (!in.is_open()) return false;
  std::ostringstream oss;
  oss << in.rdbuf();
  out = oss.str();
  return true;
}

std::string ValueToJson(const AnyValue& v)
{
  std::ostringstream oss;
  switch (v.GetTypeCode())
  {
  case TypeCode::Empty: return "null";
  case TypeCode::Bool: return v.m_i ? "true" : "false";
  case TypeCode::String: return Quote(v.m_s);
  case TypeCode::Float32:
  case TypeCode::Float64:
  {
    // shortest representation that reads back as the same value, as the real library writes
    char buf[40];
    for (int prec = 1; prec <= 17; ++prec)
    {
      std::snprintf(buf, sizeof buf, "%.*g", prec, v.m_d);
      double back = std::strtod(buf, nullptr);
      if (v.GetTypeCode() == TypeCode::Float32 ? static_cast<float>(back) == static_cast<float>(v.m_d)
                                               : back == v.m_d) break;
    }
    std::string r = buf;
    if (r.find_first_of(".en") == std::string::npos) r += ".0";
    return r;
  }
  case TypeCode::Struct:
  {
    oss << "{";
    const char* sep = "";
    for (auto& n : v.MemberNames()) { oss << sep << Quote(n) << ":" << ValueToJson(v[n]); sep = ","; }
    oss << "}";
    return oss.str();
  }
  case TypeCode::Array:
  {
    oss << "[";
    for (std::size_t i = 0; i < v.NumberOfElements(); ++i) oss << (i ? "," : "") << ValueToJson(v[i]);
    oss << "]";
    return oss.str();
  }
  default: return v.IsUnsigned() ? std::to_string(v.m_u) : std::to_string(v.m_i);
  }
}
}  // namespace

std::string AnyTypeToJSONString(const AnyType& type, bool)
{
  if (IsStructType(type))
  {
    std::string r = "{\"type\":" + Quote(type.GetTypeName()) + ",\"attributes\":[";
    const char* sep = "";
    for (auto& m : type.Members())
    {
      r += sep + std::string("{") + Quote(m.first) + ":" + AnyTypeToJSONString(m.second) + "}";
      sep = ",";
    }
    return r + "]}";
  }
  if (IsArrayType(type))
    return "{\"type\":" + Quote(type.GetTypeName()) + ",\"multiplicity\":" +
           std::to_string(type.NumberOfElements()) + ",\"element\":" +
           AnyTypeToJSONString(type.ElementType()) + "}";
  return "{\"type\":" + Quote(IsEmptyType(type) ? "" : type.GetTypeName()) + "}";
}
std::string ValuesToJSONString(const AnyValue& value, bool) { return ValueToJson(value); }
std::string PrintAnyValue(const AnyValue& value)
{
  return AnyTypeToJSONString(value.GetType()) + " " + ValueToJson(value);
}
std::string AnyValueToJSONString(const AnyValue& value, bool)
{
  return "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":" + AnyTypeToJSONString(value.GetType()) +
         "},{\"instance\":" + ValueToJson(value) + "}]";
}
void AnyValueToJSONFile(const AnyValue& value, const std::string& filename, bool pretty)
{
  std::ofstream out(filename);
  if (!out.is_open()) throw SerializeException("cannot open file");
  out << AnyValueToJSONString(value, pretty);
}

bool JSONAnyTypeParser::ParseString(const std::string& json, const AnyTypeRegistry* registry)
{
  Json j;
  if (!JsonReader(json).Read(j)) return false;
  try { m_type = TypeFromJson(j, registry); } catch (const MessageException&) { return false; }
  return true;
}
bool JSONAnyTypeParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string s;
  return Slurp(filename, s) && ParseString(s, registry);
}
AnyType JSONAnyTypeParser::MoveAnyType() { auto t = m_type; m_type = AnyType{}; return t; }

bool JSONAnyValueParser::ParseString(const std::string& json, const AnyTypeRegistry* registry)
{
  Json j;
  if (!JsonReader(json).Read(j)) return false;
  if (j.kind != Json::Array || j.elements.size() != 3) return false;
  auto enc = j.elements[0].Get("encoding");
  auto type = j.elements[1].Get("datatype");
  auto inst = j.elements[2].Get("instance");
  if (!enc || !type || !inst) return false;
  try { m_value = ValueFromJson(TypeFromJson(*type, registry), *inst); }
  catch (const MessageException&) { return false; }
  return true;
}
bool JSONAnyValueParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string s;
  return Slurp(filename, s) && ParseString(s, registry);
}
bool JSONAnyValueParser::TypedParseString(const AnyType& type, const std::string& json)
{
  Json j;
  if (!JsonReader(json).Read(j)) return false;
  try { m_value = ValueFromJson(type, j); } catch (const MessageException&) { return false; }
  return true;
}
bool JSONAnyValueParser::TypedParseFile(const AnyType& type, const std::string& filename)
{
  std::string s;
  return Slurp(filename, s) && TypedParseString(type, s);
}
AnyValue JSONAnyValueParser::MoveAnyValue() { AnyValue v(m_value); m_value = AnyValue{}; return v; }

}  // namespace dto
}  // namespace sup
