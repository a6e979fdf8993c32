// Asks the real console interface for values and choices (see spec/ui/Console.tla).
#include "vallib.h"

#include "cl_interface.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/user_input_request.h>

#include <memory>

using namespace vl;
using namespace sup::oac_tree;

namespace
{
struct Capture
{
  std::ostringstream text;
  std::streambuf* old;
  Capture() : old(std::cout.rdbuf(text.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
  std::vector<std::string> Lines() const
  {
    std::vector<std::string> r;
    std::istringstream in(text.str());
    for (std::string s; std::getline(in, s);) r.push_back(s);
    return r;
  }
};
struct Input
{
  std::istringstream text;
  std::streambuf* old;
  explicit Input(const std::string& s) : text(s), old(std::cin.rdbuf(text.rdbuf())) { std::cin.clear(); }
  ~Input() { std::cin.rdbuf(old); std::cin.clear(); }
};
std::string Chars(const std::string& s)
{
  std::string r = "[";
  for (char c : s) r += (r.size() > 1 ? "," : "") + Q(std::string(1, c));
  return r + "]";
}
std::string DigitsOf(std::string s, bool left)
{
  if (left) s.erase(0, std::min(s.find_first_not_of('0'), s.size()));
  else s.erase(s.find_last_not_of('0') + 1);
  std::string r = "[";
  for (char c : s) r += (r.size() > 1 ? "," : "") + std::string(1, c);
  return r + "]";
}
// The value in decimal.
std::string Decimal(bool ok, const AnyValue& v)
{
  bool neg = false;
  std::string i = "[]", f = "[]", s, n;
  if (ok)
  {
    switch (v.GetTypeCode())
    {
    case TypeCode::String: s = v.As<std::string>(); break;
    case TypeCode::Bool: s = v.As<bool>() ? "true" : "false"; break;
    case TypeCode::Char8: s = std::string(1, (char)v.As<sup::dto::char8>()); break;
    case TypeCode::UInt64: n = std::to_string(v.As<sup::dto::uint64>()); break;
    case TypeCode::Float32: case TypeCode::Float64:
    {
      char b[512];
      std::snprintf(b, sizeof b, "%.9f", v.As<double>());
      n = b;
      break;
    }
    default: n = std::to_string(v.As<sup::dto::int64>()); break;
    }
    if (!n.empty())
    {
      if (n[0] == '-') { neg = n.find_first_of("123456789") != std::string::npos; n.erase(0, 1); }
      auto p = n.find('.');
      i = DigitsOf(n.substr(0, p), true);
      if (p != std::string::npos) f = DigitsOf(n.substr(p + 1), false);
    }
  }
  return std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"neg\":" + (neg ? "true" : "false") + ",\"i\":" + i + ",\"f\":" + f + ",\"s\":" + Q(s) + "}";
}
std::string OutJ(const std::vector<std::string>& lines)
{
  std::string r = "[";
  for (auto& s : lines) r += (r.size() > 1 ? "," : "") + Q(s);
  return r + "]";
}
std::string ShownJ(const std::vector<std::string>& lines)
{
  std::string r = "[";
  for (auto& s : lines)
  {
    auto p = s.find_first_not_of("0123456789");
    int n = p != std::string::npos && p > 0 && p < 8 && s[p] == ':' ? std::atoi(s.c_str()) : 0;
    auto t = n ? s.substr(p + 1) : s;
    if (n && !t.empty() && t[0] == ' ') t.erase(0, 1);
    r += (r.size() > 1 ? "," : "") + std::string("{\"n\":") + std::to_string(n) + ",\"s\":" + Q(t) + "}";
  }
  return r + "]";
}

struct Gen
{
  Rng& r;
  std::string Pick(std::initializer_list<const char*> l) { return l.begin()[r.N((int)l.size())]; }
  // a whole number at, or near, a limit of one of the types
  std::string Limit()
  {
    static const char* const lim[] = {"127", "128", "129", "255", "256", "257", "32767", "32768", "32769", "65535", "65536", "2147483647", "2147483648",
      "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615",
      "18446744073709551616", "99999999999999999999999", "1000", "40000", "100"};
    return lim[r.N(25)];
  }
  std::string Whole() { return r.P(0.4) ? Limit() : r.P(0.7) ? std::to_string(r.R(0, 12)) : std::to_string(r.R(0, 70000)); }
  std::string Spaces() { return r.P(0.85) ? "" : Pick({" ", "  ", "\t", " \t"}); }
  std::string Mess(std::string s)
  {
    for (int k = r.R(1, 2); k > 0; --k)
    {
      std::string c = Pick({"x", " ", "-", "+", ".", "1", ",", "0", "7", "a", "e", "\t", "#"});
      std::size_t at = r.N((int)s.size() + 1);
      if (r.P(0.6)) s.insert(at, c); else if (!s.empty()) s.erase(std::min(at, s.size() - 1), 1);
    }
    return s;
  }
  std::string Sign() { return r.P(0.7) ? "" : r.P(0.7) ? "-" : "+"; }
  std::string Line(const std::string& t, int options)
  {
    std::string s;
    if (options >= 0) s = std::to_string(r.P(0.75) ? r.R(1, std::max(options, 1)) : r.R(0, options + 2));
    else if (t == "bool") s = r.P(0.7) ? Pick({"true", "false"}) : Pick({"True", "1", "0", "yes", "tru", "falsee", "FALSE", "t"});
    else if (t == "char8") s = r.P(0.7) ? Pick({"a", "7", "-", "%", "Z"}) : Pick({"65", "ab", "a b", "\\n"});
    else if (t == "string") s = Pick({"", "a", "some text", " padded ", "12", "\"quoted\"", "true", "x\ty", "@var"});
    else if (t == "float32" || t == "float64")
    {
      s = r.P(0.3) ? std::to_string(r.R(0, 12)) : r.P(0.3) ? std::to_string(r.R(1000000, 90000000)) : std::to_string(r.R(0, 3000));
      if (r.P(0.7)) s += "." + (r.P(0.1) ? std::string() : Pick({"0", "5", "25", "75", "50", "125", "250"}));
      else if (r.P(0.1)) s = "." + Pick({"5", "25"});
      s = Sign() + s;
    }
    else s = Sign() + (r.P(0.1) ? Pick({"0", "00", "000"}) : "") + Whole();
    if (options < 0 && t != "string" && r.P(0.08)) s = Pick({"", "text", "-", "+", "3.7", "1,5", "0x10", "1 2", "twelve", "-0.5", "- 5", "--5", "+-5", "."});
    if (options >= 0 && r.P(0.25)) s = Pick({"", "-1", "0", "one", "1.0", "2nd", "1 2", "+1", "01", "-2147483648", "2147483647", "4294967297", "99999999999", "1,2", "a1", "18446744073709551617"});
    if (r.P(0.08)) s = Mess(s);
    if (t != "string") s = Spaces() + s + Spaces();
    // a number after an exponent is not represented in the specification
    if (t.find("float") == 0 && s.find_first_of("eEpPxXiInN") != std::string::npos) s = "none";
    // floating point types hold it exactly
    if (s.find('.') != std::string::npos && (s.size() > 14 || s.size() - s.find('.') > 4)) s = "2.5";
    return s;
  }
};
const std::vector<std::pair<std::string, TypeCode>>& Types()
{
  static std::vector<std::pair<std::string, TypeCode>> v = {{"bool", TypeCode::Bool}, {"char8", TypeCode::Char8}, {"int8", TypeCode::Int8}, {"uint8", TypeCode::UInt8},
    {"int16", TypeCode::Int16}, {"uint16", TypeCode::UInt16}, {"int32", TypeCode::Int32}, {"uint32", TypeCode::UInt32}, {"int64", TypeCode::Int64},
    {"uint64", TypeCode::UInt64}, {"float32", TypeCode::Float32}, {"float64", TypeCode::Float64}, {"string", TypeCode::String}};
  return v;
}
struct Req { std::string kind, t, text, text2; std::vector<std::string> options; int sev = 0; AnyValue v; };

std::string Body(unsigned long long seed)
{
  Rng r(seed);
  Gen g{r};
  std::vector<Req> reqs;
  std::vector<std::string> lines;
  int n = r.R(1, 10);
  for (int k = 0; k < n; ++k)
  {
    Req q;
    q.text = r.P(0.4) ? "" : g.Pick({"the question", "What?", "a (b): c"});
    if (r.P(0.5))
    {
      q.kind = "value";
      q.t = Types()[r.N(13)].first;
      for (auto& t : Types()) if (t.first == q.t) q.v = AnyValue(AnyType(t.second));
      if (r.P(0.05)) { q.t = "struct"; q.v = RandomValue(r, RandomType(r, 2)); if (sup::dto::IsScalarValue(q.v)) q.v = AnyValue{}; }
      else if (r.P(0.93)) lines.push_back(g.Line(q.t, -1));
    }
    else if (r.P(0.6))
    {
      q.kind = "choice";
      int m = r.P(0.05) ? 0 : r.P(0.1) ? 12 : r.R(1, 5);
      for (int i = 0; i < m; ++i) q.options.push_back(g.Pick({"", "one", "two", "1: one", "an option", "three"}));
      if (r.P(0.93)) lines.push_back(g.Line("", m));
    }
    else
    {
      static const char* const kinds[] = {"message", "put", "log", "note", "invalid"};
      q.kind = kinds[r.N(5)];
      q.v = r.P(0.7) ? RandomScalar(r, Scalars()[r.N(13)]) : RandomValue(r, RandomType(r));
      q.sev = r.N(9);
    }
    reqs.push_back(q);
  }
  int max = r.N(9);
  std::vector<std::pair<int, std::string>> logs;
  std::string input, all;
  for (std::size_t k = 0; k < lines.size(); ++k)
  {
    input += lines[k];
    if (k + 1 < lines.size() || lines[k].empty() || r.P(0.6)) input += "\n";
    all += (all.empty() ? "" : ",") + Chars(lines[k]);
  }
  auto wait = GlobalInstructionRegistry().Create("Wait");
  Input in(input);
  CLInterface ui(sup::log::BasicLogger([&](int sev, const std::string&, const std::string& m) { logs.emplace_back(sev, m); }, "console", max < 3 ? 3 : max));
  if (max < 3) max = 3;
  for (auto& q : reqs)
  {
    logs.clear();
    auto e = Ev(q.kind);
    e.S("text", q.text);
    auto errs = [&] { int n = 0; for (auto& l : logs) n += l.first <= 3; return n; };
    Capture c;
    if (q.kind == "value")
    {
      AnyValue v = q.v;
      auto [ok, res] = GetBlockingUserValue(ui, v, q.text);
      if (ok && (q.t == "float32" || q.t == "float64"))
      {
        double d = res.As<double>();
        if (std::fabs(d) > (q.t == "float32" ? 1e6 : 1e14) || d * 8 != std::floor(d * 8)) return ",\"lines\":[" + all + "]";   // not exact: not represented in the specification
      }
      bool asked = q.text.empty() || c.text.str().find(q.text) != std::string::npos;
      e.S("t", q.t).Raw("r", Decimal(ok, res)).B("same", !ok || res.GetType() == q.v.GetType()).B("asked", asked).I("errs", errs());
    }
    else if (q.kind == "choice")
    {
      AnyValue meta;
      if (!q.text.empty()) meta = AnyValue{{{"text", AnyValue(q.text)}}, "sup::sequencerUserChoiceMetadata/v1.0"};
      auto [ok, res] = GetBlockingUserChoice(ui, q.options, meta);
      if (!ok && res >= 0) res = -2;
      if (ok && res < 0) res = -3;
      e.I("c", res).L("options", q.options).Raw("out", OutJ(c.Lines())).Raw("shown", ShownJ(c.Lines())).I("errs", errs());
    }
    else if (q.kind == "message")
    {
      ui.Message(q.text);
      e.Raw("out", OutJ(q.text.empty() ? std::vector<std::string>{c.text.str() == "\n" ? "" : "?"} : c.Lines())).I("errs", errs());
    }
    else if (q.kind == "put")
    {
      std::string val;
      std::istringstream is(sup::dto::PrintAnyValue(q.v));
      for (std::string s; std::getline(is, s);) val = s;
      bool ok = ui.PutValue(q.v, q.text);
      e.B("ok", ok).S("val", val).Raw("out", OutJ(c.Lines())).I("errs", errs());
    }
    else if (q.kind == "log")
    {
      ui.Log(q.sev, q.text);
      std::string l;
      for (auto& x : logs) l += (l.empty() ? "" : ",") + std::string("{\"sev\":") + std::to_string(x.first) + ",\"s\":" + Q(x.second) + "}";
      e.I("sev", q.sev).I("max", max).Raw("logged", "[" + l + "]").Raw("out", OutJ(c.Lines()));
    }
    else if (q.kind == "note")
    {
      if (r.P(0.5)) ui.UpdateInstructionStatus(wait.get());
      else ui.VariableUpdated("var", q.v, r.P(0.7));
      e.I("max", max).I("logged", (long long)logs.size()).Raw("out", OutJ(c.Lines()));
    }
    else
    {
      // no request at all, or one that does not contain what it should
      UserInputRequest bad = kInvalidUserInputRequest;
      if (r.P(0.6)) bad.m_request_type = r.P(0.5) ? InputRequestType::kUserValue : InputRequestType::kUserChoice;
      if (r.P(0.5)) bad.m_meta_data = r.P(0.5) ? AnyValue(5) : AnyValue{{{"options", AnyValue(1)}}};
      auto f = ui.RequestUserInput(bad);
      bool ready = f->WaitFor(5.0);
      auto reply = ready ? f->GetValue() : UserInputReply{};
      e.B("ok", !ready || reply.m_result);
    }
    evlog().Add(e);
  }
  return ",\"lines\":[" + all + "]";
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](unsigned long long seed)
  {
    auto text = std::to_string(seed);
    out.Current(text);
    evlog().ev.clear();
    std::string header = ",\"lines\":[]";
    sched::Config c;
    c.seed = seed;
    auto res = sched::Run(c, [&] { header = Body(seed); });
    Close(res);
    out.Trace(text, "", header);
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(std::strtoull(a.Str("prog").c_str(), nullptr, 10));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 2000) && bad < 5)
    if (!one(rng.Next() >> 16)) ++bad;
  out.Stats();
  _exit(0);
}
