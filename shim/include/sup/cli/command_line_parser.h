#ifndef SHIM_SUP_CLI_COMMAND_LINE_PARSER_H_
#define SHIM_SUP_CLI_COMMAND_LINE_PARSER_H_
#include <deque>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace sup
{
namespace cli
{
class CommandLineOption
{
public:
  CommandLineOption& SetParameter(bool v) { param = v; return *this; }
  CommandLineOption& SetValueName(const std::string&) { return *this; }
  CommandLineOption& SetRequired(bool v) { required = v; return *this; }
  CommandLineOption& SetDefaultValue(const std::string& v) { def = v; has_def = true; return *this; }
  std::vector<std::string> names;
  bool param = false;
  bool required = false;
  bool has_def = false;
  bool is_set = false;
  std::string def;
  std::string value;
};
class CommandLineParser
{
public:
  void SetDescription(const std::string&, const std::string& = {}) {}
  void AddHelpOption() { AddOption({"-h", "--help"}, "help"); }
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string& = {})
  {
    m_options.emplace_back();
    m_options.back().names = names;
    return m_options.back();
  }
  bool Parse(int argc, const char* const argv[]);
  bool IsSet(const std::string& name) const { auto o = Find(name); return o && o->is_set; }
  template <typename T> T GetValue(const std::string& name) const
  {
    auto o = Find(name);
    std::istringstream iss(!o ? std::string{} : (o->is_set ? o->value : o->def));
    T v{};
    iss >> v;
    return v;
  }
  std::string GetUsageString() const { return "usage\n"; }
private:
  const CommandLineOption* Find(const std::string& name) const;
  std::deque<CommandLineOption> m_options;
};
template <> inline std::string CommandLineParser::GetValue<std::string>(const std::string& name) const
{
  auto o = Find(name);
  return !o ? std::string{} : (o->is_set ? o->value : o->def);
}
}
}
#endif
