// Stand-in for the parts of SUP-UTILS (xml, log, cli) that oac-tree uses.
#include <sup/cli/command_line_parser.h>
#include <sup/log/default_loggers.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>

#include <libxml/parser.h>
#include <libxml/tree.h>

#include <iostream>
#include <mutex>

namespace sup
{
namespace xml
{
bool TreeData::HasAttribute(const std::string& name) const
{
  for (auto& a : m_attributes) if (a.first == name) return true;
  return false;
}
std::string TreeData::GetAttribute(const std::string& name) const
{
  for (auto& a : m_attributes) if (a.first == name) return a.second;
  throw InvalidOperationException("TreeData: no attribute [" + name + "]");
}
void TreeData::AddAttribute(const std::string& name, const std::string& value)
{
  if (HasAttribute(name)) throw InvalidOperationException("TreeData: attribute exists [" + name + "]");
  m_attributes.emplace_back(name, value);
}
bool TreeData::operator==(const TreeData& o) const
{
  return m_name == o.m_name && m_content == o.m_content && m_attributes == o.m_attributes &&
         m_children == o.m_children;
}

namespace
{
std::string Str(const xmlChar* s) { return s ? reinterpret_cast<const char*>(s) : ""; }
std::string Trim(const std::string& s)
{
  auto b = s.find_first_not_of(" \t\r\n");
  return b == std::string::npos ? std::string{} : s.substr(b, s.find_last_not_of(" \t\r\n") - b + 1);
}
TreeData FromNode(xmlDocPtr doc, xmlNodePtr node)
{
  TreeData result(Str(node->name));
  for (auto a = node->properties; a; a = a->next)
  {
    auto v = xmlNodeListGetString(doc, a->children, 1);
    std::string name = Str(a->name);
    if (a->ns && a->ns->prefix) name = Str(a->ns->prefix) + ":" + name;
    result.AddAttribute(name, Str(v));
    xmlFree(v);
  }
  std::string content;
  for (auto c = node->children; c; c = c->next)
  {
    if (c->type == XML_ELEMENT_NODE) result.AddChild(FromNode(doc, c));
    else if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) content += Str(c->content);
  }
  result.SetContent(Trim(content));
  return result;
}
void Ignore(void*, const char*, ...) {}
std::unique_ptr<TreeData> FromDoc(xmlDocPtr doc, const std::string& what)
{
  if (!doc) throw ParseException("could not parse xml: " + what);
  auto root = xmlDocGetRootElement(doc);
  if (!root) { xmlFreeDoc(doc); throw ParseException("no root element: " + what); }
  std::unique_ptr<TreeData> result(new TreeData(FromNode(doc, root)));
  xmlFreeDoc(doc);
  return result;
}
void InitXml()
{
  static std::once_flag once;
  std::call_once(once, [] { xmlInitParser(); xmlSetGenericErrorFunc(nullptr, Ignore); });
}
std::string Escape(const std::string& s)
{
  std::string r;
  for (char c : s)
  {
    switch (c)
    {
    case '&': r += "&amp;"; break;
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '"': r += "&quot;"; break;
    case '\n': r += "&#10;"; break;
    case '\t': r += "&#9;"; break;
    case '\r': r += "&#13;"; break;
    default: r += c;
    }
  }
  return r;
}
void Write(std::ostream& os, const TreeData& t, int indent)
{
  std::string pad(2 * indent, ' ');
  os << pad << "<" << t.GetNodeName();
  for (auto& a : t.Attributes()) os << " " << a.first << "=\"" << Escape(a.second) << "\"";
  if (t.GetContent().empty() && t.Children().empty()) { os << "/>\n"; return; }
  os << ">" << Escape(t.GetContent());
  if (!t.Children().empty())
  {
    os << "\n";
    for (auto& c : t.Children()) Write(os, c, indent + 1);
    os << pad;
  }
  os << "</" << t.GetNodeName() << ">\n";
}
}  // namespace

std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename)
{
  InitXml();
  return FromDoc(xmlReadFile(filename.c_str(), nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET), filename);
}
std::unique_ptr<TreeData> TreeDataFromString(const std::string& s)
{
  InitXml();
  return FromDoc(xmlReadMemory(s.c_str(), static_cast<int>(s.size()), nullptr, nullptr,
                               XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET), "string");
}
std::string TreeDataToString(const TreeData& tree)
{
  std::ostringstream oss;
  oss << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Write(oss, tree, 0);
  return oss.str();
}
}  // namespace xml

namespace log
{
std::string DefaultStdoutLogMessage(int severity, const std::string& source, const std::string& message)
{
  return "[" + source + "][" + std::to_string(severity) + "] " + message;
}
DefaultLogger CreateDefaultSysLogger(const std::string& source)
{
  return DefaultLogger([](int severity, const std::string& src, const std::string& message)
                       { std::cerr << DefaultStdoutLogMessage(severity, src, message) << std::endl; },
                       source, 4);
}
}  // namespace log

namespace cli
{
const CommandLineOption* CommandLineParser::Find(const std::string& name) const
{
  for (auto& o : m_options)
    for (auto& n : o.names)
      if (n == name) return &o;
  return nullptr;
}
bool CommandLineParser::Parse(int argc, const char* const argv[])
{
  for (int i = 1; i < argc; ++i)
  {
    auto o = const_cast<CommandLineOption*>(Find(argv[i]));
    if (!o) continue;
    o->is_set = true;
    if (o->param)
    {
      if (i + 1 >= argc) return false;
      o->value = argv[++i];
    }
  }
  if (IsSet("--help")) return false;
  for (auto& o : m_options) if (o.required && !o.is_set) return false;
  return true;
}
}  // namespace cli
}  // namespace sup
