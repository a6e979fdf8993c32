#ifndef SHIM_SUP_DTO_JSON_TYPE_PARSER_H_
#define SHIM_SUP_DTO_JSON_TYPE_PARSER_H_
#include <sup/dto/anytype.h>
namespace sup
{
namespace dto
{
class AnyTypeRegistry;
class JSONAnyTypeParser
{
public:
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  AnyType MoveAnyType();
private:
  AnyType m_type;
};
}
}
#endif
