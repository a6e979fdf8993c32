#ifndef SHIM_SUP_DTO_ANYVALUE_HELPER_H_
#define SHIM_SUP_DTO_ANYVALUE_HELPER_H_
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_operations.h>
namespace sup
{
namespace dto
{
std::string PrintAnyValue(const AnyValue& value);
std::string AnyValueToJSONString(const AnyValue& value, bool pretty = false);
void AnyValueToJSONFile(const AnyValue& value, const std::string& filename, bool pretty = false);
std::string ValuesToJSONString(const AnyValue& value, bool pretty = false);
bool TryAssign(AnyValue& dest, const AnyValue& src);
bool TryConvert(AnyValue& dest, const AnyValue& src);
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src);
}
}
#endif
