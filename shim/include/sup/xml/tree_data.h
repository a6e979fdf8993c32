#ifndef SHIM_SUP_XML_TREE_DATA_H_
#define SHIM_SUP_XML_TREE_DATA_H_
#include <sup/xml/exceptions.h>
#include <utility>
#include <vector>
namespace sup
{
namespace xml
{
class TreeData
{
public:
  using Attribute = std::pair<std::string, std::string>;
  explicit TreeData(const std::string& name) : m_name(name) {}
  std::string GetNodeName() const { return m_name; }
  std::string GetContent() const { return m_content; }
  void SetContent(const std::string& c) { m_content = c; }
  bool HasAttribute(const std::string& name) const;
  std::string GetAttribute(const std::string& name) const;
  void AddAttribute(const std::string& name, const std::string& value);
  std::size_t GetNumberOfAttributes() const { return m_attributes.size(); }
  const std::vector<Attribute>& Attributes() const { return m_attributes; }
  const std::vector<TreeData>& Children() const { return m_children; }
  std::size_t GetNumberOfChildren() const { return m_children.size(); }
  void AddChild(const TreeData& child) { m_children.push_back(child); }
  bool operator==(const TreeData& o) const;
  bool operator!=(const TreeData& o) const { return !(*this == o); }
private:
  std::string m_name;
  std::string m_content;
  std::vector<Attribute> m_attributes;
  std::vector<TreeData> m_children;
};
}
}
#endif
