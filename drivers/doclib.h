// Documents as elements, in XML and in traces (see spec/setup/Document.tla).
#ifndef VERIF_DOCLIB_H_
#define VERIF_DOCLIB_H_

#include "vallib.h"

#include <map>

namespace dl
{
using namespace vl;
// Texts that the specification knows by another name.
inline const std::map<std::string, std::string> kTexts = {
  {"T:int", R"({"type":"int32"})"}, {"T:str", R"({"type":"string"})"}, {"T:bool", R"({"type":"bool"})"},
  {"T:p1", R"({"type":"p","attributes":[{"x":{"type":"int32"}}]})"}, {"T:p2", R"({"type":"p","attributes":[{"x":{"type":"string"}}]})"},
  {"T:q", R"({"type":"q","attributes":[{"x":{"type":"int32"}}]})"}, {"T:usep", R"({"type":"u","attributes":[{"m":{"type":"p"}}]})"},
  {"T:reads", R"({"type":"p"})"}, {"T:bad", R"({"type":)"}, {"T:none", R"({"type":"nosuch"})"},
  {"V:str", R"("some text")"}, {"V:p1", R"({"x":1})"}, {"V:p2", R"({"x":"abc"})"}};
inline std::string Real(const std::string& s) { auto i = kTexts.find(s); return i == kTexts.end() ? s : i->second; }
inline std::string Tok(const std::string& s)
{
  for (auto& [k, v] : kTexts) if (v == s) return k;
  return s;
}
using Attrs = std::vector<std::pair<std::string, std::string>>;
struct El { std::string t; Attrs a; std::string x; std::vector<El> c; };
inline std::string AttrsJ(const Attrs& l)
{
  std::string s = "[";
  for (auto& [n, t] : l) s += (s.size() > 1 ? "," : "") + ("{\"n\":" + Q(n) + ",\"s\":" + Q(Tok(t)) + "}");
  return s + "]";
}
template <typename C, typename F> std::string ListOf(const C& c, F f)
{
  std::string s = "[";
  for (auto& x : c) s += (s.size() > 1 ? "," : "") + f(x);
  return s + "]";
}
inline std::string ElJ(const El& e)
{
  return "{\"t\":" + Q(e.t) + ",\"a\":" + AttrsJ(e.a) + ",\"x\":" + Q(e.x) + ",\"c\":" + ListOf(e.c, ElJ) + "}";
}
inline std::string Esc(const std::string& s)
{
  std::string r;
  for (char c : s)
    r += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
  return r;
}
inline void Xml(std::string& o, const El& e)
{
  o += "<" + e.t;
  for (auto& [n, s] : e.a) o += " " + n + "=\"" + Esc(Real(s)) + "\"";
  if (e.x.empty() && e.c.empty()) { o += "/>\n"; return; }
  o += ">" + Esc(e.x) + (e.c.empty() ? "" : "\n");
  for (auto& c : e.c) Xml(o, c);
  o += "</" + e.t + ">\n";
}
inline std::string XmlDoc(const El& e) { std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; Xml(o, e); return o; }
}  // namespace dl
#endif
