// Typed values: random ones, and their form in traces (see spec/lib/Values.tla).
#ifndef VERIF_VALLIB_H_
#define VERIF_VALLIB_H_

#include "drv.h"

#include <sup/dto/anytype_helper.h>
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>

#include <cmath>

namespace vl
{
using namespace drv;
using sup::dto::AnyType;
using sup::dto::AnyValue;
using sup::dto::TypeCode;

inline std::string J(const AnyValue& v)
{
  sched::NoMem nm;
  std::string s = "{\"t\":", n, m, e;
  long long x = 0;
  std::string str, t;
  if (sup::dto::IsEmptyValue(v)) t = "empty";
  else if (sup::dto::IsStructValue(v))
  {
    t = "struct";
    str = v.GetTypeName();
    for (auto& name : v.MemberNames())
    {
      n += (n.empty() ? "" : ",") + Q(name);
      m += (m.empty() ? "" : ",") + J(v[name]);
    }
  }
  else if (sup::dto::IsArrayValue(v))
  {
    t = "array";
    str = v.GetTypeName();
    for (std::size_t i = 0; i < v.NumberOfElements(); ++i) m += (i ? "," : "") + J(v[i]);
    e = J(AnyValue(v.GetType().ElementType()));
  }
  else
  {
    t = v.GetTypeName();
    if (t == "string") str = v.As<std::string>();
    else x = std::llround(v.As<double>() * 4);
  }
  return s + Q(t) + ",\"x\":" + std::to_string(x) + ",\"s\":" + Q(str) + ",\"n\":[" + n + "],\"m\":[" + m +
         "],\"e\":[" + e + "]}";
}

inline const std::vector<TypeCode>& Scalars()
{
  static std::vector<TypeCode> v = {TypeCode::Bool, TypeCode::Char8, TypeCode::Int8, TypeCode::UInt8, TypeCode::Int16,
    TypeCode::UInt16, TypeCode::Int32, TypeCode::UInt32, TypeCode::Int64, TypeCode::UInt64, TypeCode::Float32,
    TypeCode::Float64, TypeCode::String};
  return v;
}
inline AnyType RandomType(Rng& r, int depth = 2)
{
  if (depth == 0 || r.P(0.55))
  {
    auto& s = Scalars();
    return AnyType(s[r.P(0.4) ? 6 : r.N((int)s.size())]);
  }
  static const char* const names[] = {"", "point", "rec"};
  if (r.P(0.55))
  {
    auto t = sup::dto::EmptyStructType(names[r.N(3)]);
    static const char* const mem[] = {"a", "b", "c"};
    int n = r.R(1, 3);
    for (int i = 0; i < n; ++i) t.AddMember(mem[i], RandomType(r, depth - 1));
    return t;
  }
  return AnyType(r.R(0, 3), RandomType(r, depth - 1), r.P(0.2) ? "row" : "");
}
inline AnyValue RandomScalar(Rng& r, TypeCode c)
{
  static const long long nums[] = {0, 1, 2, 3, 5, 7, 100, 126, 127, 128, 200, 254, 255, 256, 300, 1000, 32767, 32768, 65535, 65536, 70000};
  long long v = r.P(0.6) ? r.R(0, 4) : nums[r.N(21)];
  bool neg = r.P(0.3);
  static const char* const txt[] = {"", "x", "yes", "no"};
  switch (c)
  {
  case TypeCode::Bool: return AnyValue(r.P(0.5));
  case TypeCode::String: return AnyValue(std::string(txt[r.N(4)]));
  case TypeCode::Float32: return AnyValue((sup::dto::float32)((neg ? -v : v) + 0.25 * r.N(4)));
  case TypeCode::Float64: return AnyValue((sup::dto::float64)((neg ? -v : v) + 0.25 * r.N(4)));
  default: break;
  }
  AnyValue t{AnyType(c)};
  AnyValue src(neg ? (sup::dto::int64)(-v) : (sup::dto::int64)v);
  for (int i = 0; i < 20 && !sup::dto::TryConvert(t, src); ++i) src = AnyValue((sup::dto::int64)(v >>= 1));
  return t;
}
inline AnyValue RandomValue(Rng& r, const AnyType& t)
{
  if (sup::dto::IsEmptyType(t)) return {};
  if (sup::dto::IsStructType(t))
  {
    AnyValue v(sup::dto::EmptyStructType(t.GetTypeName()));
    for (auto& m : t.Members()) v.AddMember(m.first, RandomValue(r, m.second));
    return v;
  }
  if (sup::dto::IsArrayType(t))
  {
    AnyValue v(t.NumberOfElements(), t.ElementType(), t.GetTypeName());
    for (std::size_t i = 0; i < t.NumberOfElements(); ++i) v[i] = RandomValue(r, t.ElementType());
    return v;
  }
  return RandomScalar(r, t.GetTypeCode());
}
// A type that resembles the given one: the same, or another scalar somewhere, or other members.
inline AnyType Similar(Rng& r, const AnyType& t)
{
  if (r.P(0.5)) return t;
  if (sup::dto::IsStructType(t))
  {
    auto s = sup::dto::EmptyStructType(r.P(0.8) ? t.GetTypeName() : "other");
    for (auto& m : t.Members())
      if (r.P(0.92)) s.AddMember(m.first, r.P(0.5) ? m.second : Similar(r, m.second));
    if (r.P(0.05)) s.AddMember("z", AnyType(TypeCode::Int32));
    return s;
  }
  if (sup::dto::IsArrayType(t))
    return AnyType(r.P(0.8) ? t.NumberOfElements() : r.R(0, 3), r.P(0.5) ? t.ElementType() : Similar(r, t.ElementType()), t.GetTypeName());
  if (r.P(0.1)) return RandomType(r, 1);
  return AnyType(Scalars()[r.N((int)Scalars().size())]);
}

// A field: its text and its steps.
struct Path
{
  std::string text;
  std::string steps;   // JSON
};
inline Path RandomPath(Rng& r, const AnyType& type)
{
  Path p;
  AnyType t = type;
  p.steps = "[";
  auto add = [&](const std::string& n, int i)
  {
    if (n.empty()) p.text += "[" + std::to_string(i) + "]";
    else p.text += "." + n;
    p.steps += (p.steps.size() > 1 ? "," : "") + std::string("{\"n\":") + Q(n) + ",\"i\":" + std::to_string(i) + "}";
  };
  for (int k = 0; k < 4; ++k)
  {
    if (r.P(0.06))
    {
      if (r.P(0.5)) add("zz", 0); else add("", r.R(0, 5));
      break;
    }
    if (sup::dto::IsStructType(t) && t.NumberOfMembers() > 0)
    {
      auto m = t.Members()[r.N((int)t.NumberOfMembers())];
      add(m.first, 0);
      t = m.second;
    }
    else if (sup::dto::IsArrayType(t) && t.NumberOfElements() > 0)
    {
      add("", r.N((int)t.NumberOfElements() + (r.P(0.1) ? 1 : 0)));
      t = AnyType(t.ElementType());
    }
    else break;
    if (r.P(0.4)) break;
  }
  p.steps += "]";
  return p;
}
}  // namespace vl
#endif
