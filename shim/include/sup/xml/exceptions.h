#ifndef SHIM_SUP_XML_EXCEPTIONS_H_
#define SHIM_SUP_XML_EXCEPTIONS_H_
#include <stdexcept>
#include <string>
namespace sup
{
namespace xml
{
struct MessageException : std::runtime_error { explicit MessageException(const std::string& m) : std::runtime_error(m) {} };
struct ParseException : MessageException { explicit ParseException(const std::string& m) : MessageException(m) {} };
struct InvalidOperationException : MessageException { explicit InvalidOperationException(const std::string& m) : MessageException(m) {} };
}
}
#endif
