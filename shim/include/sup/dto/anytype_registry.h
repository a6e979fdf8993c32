#ifndef SHIM_SUP_DTO_ANYTYPE_REGISTRY_H_
#define SHIM_SUP_DTO_ANYTYPE_REGISTRY_H_
#include <sup/dto/anytype.h>
#include <map>
namespace sup
{
namespace dto
{
class AnyTypeRegistry
{
public:
  void RegisterType(AnyType type);
  void RegisterType(const std::string& name, AnyType type);
  bool HasType(const std::string& name) const;
  AnyType GetType(const std::string& name) const;
private:
  std::map<std::string, AnyType> m_types;
};
}
}
#endif
