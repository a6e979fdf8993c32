#ifndef SHIM_SUP_XML_TREE_DATA_PARSER_H_
#define SHIM_SUP_XML_TREE_DATA_PARSER_H_
#include <sup/xml/tree_data.h>
#include <memory>
namespace sup
{
namespace xml
{
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename);
std::unique_ptr<TreeData> TreeDataFromString(const std::string& xml_str);
}
}
#endif
