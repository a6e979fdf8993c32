#ifndef SHIM_SUP_DTO_ANYVALUE_H_
#define SHIM_SUP_DTO_ANYVALUE_H_
#include <deque>
#include <sup/dto/anytype.h>
namespace sup
{
namespace dto
{
class AnyValue
{
public:
  AnyValue() = default;
  AnyValue(boolean v);
  AnyValue(char8 v);
  AnyValue(int8 v);
  AnyValue(uint8 v);
  AnyValue(int16 v);
  AnyValue(uint16 v);
  AnyValue(int32 v);
  AnyValue(uint32 v);
  AnyValue(int64 v);
  AnyValue(uint64 v);
  AnyValue(float32 v);
  AnyValue(float64 v);
  AnyValue(const std::string& v);
  AnyValue(const char* v);
  explicit AnyValue(const AnyType& type);
  AnyValue(const AnyType& type, const AnyValue& value);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
           const std::string& name = {});
  AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name = {});
  AnyValue(const AnyValue& other);
  AnyValue(AnyValue&& other) noexcept;
  ~AnyValue() = default;
  AnyValue& operator=(const AnyValue& other);
  AnyValue& operator=(AnyValue&& other);

  void ConvertFrom(const AnyValue& other);

  AnyType GetType() const;
  TypeCode GetTypeCode() const { return m_code; }
  std::string GetTypeName() const;
  bool IsScalar() const;

  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  AnyValue& AddElement(const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  std::size_t NumberOfElements() const;
  std::size_t NumberOfChildren() const { return m_children.size(); }

  bool HasField(const std::string& name) const;
  AnyValue& operator[](const std::string& name);
  const AnyValue& operator[](const std::string& name) const;
  AnyValue& operator[](const char* name) { return (*this)[std::string(name)]; }
  const AnyValue& operator[](const char* name) const { return (*this)[std::string(name)]; }
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;
  AnyValue& operator[](int idx) { return (*this)[static_cast<std::size_t>(idx)]; }
  const AnyValue& operator[](int idx) const { return (*this)[static_cast<std::size_t>(idx)]; }

  template <typename T> T As() const;
  template <typename T> bool As(T& value) const
  {
    try
    {
      value = As<T>();
    }
    catch (const MessageException&)
    {
      return false;
    }
    return true;
  }
  operator std::string() const;

  bool operator==(const AnyValue& other) const;
  bool operator!=(const AnyValue& other) const { return !(*this == other); }

  // shim internals used by the helpers
  const AnyValue* Find(const std::string& name) const;
  bool IsIntegral() const;
  bool IsUnsigned() const;
  bool IsFloat() const;
  void SetTypeName(const std::string& n) { m_name = n; }
  int64 m_i = 0;
  uint64 m_u = 0;
  double m_d = 0;
  std::string m_s;

private:
  void SetLock(bool lock);
  void Replace(const AnyValue& other);
  TypeCode m_code = TypeCode::Empty;
  std::string m_name;
  std::vector<std::string> m_names;
  std::deque<AnyValue> m_children;
  std::shared_ptr<const AnyType> m_elem;
  bool m_locked = false;
};

template <> boolean AnyValue::As<boolean>() const;
template <> char8 AnyValue::As<char8>() const;
template <> int8 AnyValue::As<int8>() const;
template <> uint8 AnyValue::As<uint8>() const;
template <> int16 AnyValue::As<int16>() const;
template <> uint16 AnyValue::As<uint16>() const;
template <> int32 AnyValue::As<int32>() const;
template <> uint32 AnyValue::As<uint32>() const;
template <> int64 AnyValue::As<int64>() const;
template <> uint64 AnyValue::As<uint64>() const;
template <> float32 AnyValue::As<float32>() const;
template <> float64 AnyValue::As<float64>() const;
template <> std::string AnyValue::As<std::string>() const;

AnyValue EmptyStruct(const std::string& name = {});
bool IsEmptyValue(const AnyValue& v);
bool IsStructValue(const AnyValue& v);
bool IsArrayValue(const AnyValue& v);
bool IsScalarValue(const AnyValue& v);
}  // namespace dto
}  // namespace sup
#endif
