#ifndef SHIM_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#define SHIM_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#include <stdexcept>
#include <string>
namespace sup
{
namespace dto
{
struct MessageException : std::runtime_error
{
  explicit MessageException(std::string msg) : std::runtime_error(msg) {}
};
#define SHIM_EXC(name) \
  struct name : MessageException \
  { \
    explicit name(const std::string& msg) : MessageException(msg) {} \
  }
SHIM_EXC(InvalidOperationException);
SHIM_EXC(InvalidConversionException);
SHIM_EXC(ParseException);
SHIM_EXC(SerializeException);
#undef SHIM_EXC
}  // namespace dto
}  // namespace sup
#endif
