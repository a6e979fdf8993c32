#ifndef SHIM_SUP_DTO_ANYTYPE_H_
#define SHIM_SUP_DTO_ANYTYPE_H_
#include <sup/dto/anyvalue_exceptions.h>
#include <sup/dto/basic_scalar_types.h>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace dto
{
enum class TypeCode : uint32
{
  Empty = 0, Bool, Char8, Int8, UInt8, Int16, UInt16, Int32, UInt32, Int64, UInt64,
  Float32, Float64, String, Struct, Array
};

class AnyType
{
public:
  AnyType() = default;
  explicit AnyType(TypeCode code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
          const std::string& name = {});
  AnyType(std::size_t size, const AnyType& elem_type, const std::string& name = {});

  TypeCode GetTypeCode() const { return m_code; }
  std::string GetTypeName() const;
  bool HasField(const std::string& name) const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const { return m_members.size(); }
  std::size_t NumberOfElements() const { return m_code == TypeCode::Array ? m_size : 0; }
  AnyType ElementType() const;
  const AnyType& operator[](const std::string& name) const;
  const std::vector<std::pair<std::string, AnyType>>& Members() const { return m_members; }
  bool operator==(const AnyType& other) const;
  bool operator!=(const AnyType& other) const { return !(*this == other); }

  static AnyType MakeStruct(const std::string& name);

private:
  TypeCode m_code = TypeCode::Empty;
  std::string m_name;
  std::vector<std::pair<std::string, AnyType>> m_members;
  std::size_t m_size = 0;
  std::shared_ptr<const AnyType> m_elem;
};

extern const AnyType EmptyType;
extern const AnyType BooleanType;
extern const AnyType Character8Type;
extern const AnyType SignedInteger8Type;
extern const AnyType UnsignedInteger8Type;
extern const AnyType SignedInteger16Type;
extern const AnyType UnsignedInteger16Type;
extern const AnyType SignedInteger32Type;
extern const AnyType UnsignedInteger32Type;
extern const AnyType SignedInteger64Type;
extern const AnyType UnsignedInteger64Type;
extern const AnyType Float32Type;
extern const AnyType Float64Type;
extern const AnyType StringType;

AnyType EmptyStructType(const std::string& name = {});
bool IsEmptyType(const AnyType& t);
bool IsStructType(const AnyType& t);
bool IsArrayType(const AnyType& t);
bool IsScalarType(const AnyType& t);
}  // namespace dto
}  // namespace sup
#endif
