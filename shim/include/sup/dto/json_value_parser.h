#ifndef SHIM_SUP_DTO_JSON_VALUE_PARSER_H_
#define SHIM_SUP_DTO_JSON_VALUE_PARSER_H_
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
class AnyTypeRegistry;
class JSONAnyValueParser
{
public:
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  bool TypedParseString(const AnyType& type, const std::string& json);
  bool TypedParseFile(const AnyType& type, const std::string& filename);
  AnyValue MoveAnyValue();
private:
  AnyValue m_value;
};
}
}
#endif
