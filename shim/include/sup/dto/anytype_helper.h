#ifndef SHIM_SUP_DTO_ANYTYPE_HELPER_H_
#define SHIM_SUP_DTO_ANYTYPE_HELPER_H_
#include <sup/dto/anytype.h>
namespace sup
{
namespace dto
{
std::string AnyTypeToJSONString(const AnyType& type, bool pretty = false);
}
}
#endif
