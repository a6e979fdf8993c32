// Executes the real data instructions on random variables (see spec/data/Data.tla).
#include "memlib.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/user_interface.h>

using namespace ml;

namespace
{
struct Ref { std::string n; Path p; };
struct Text { std::string k = "none", s; };
std::string RefJ(const Ref& r) { return "{\"n\":" + Q(r.n) + ",\"p\":" + (r.p.steps.empty() ? "[]" : r.p.steps) + "}"; }
std::string TextJ(const Text& t) { return "{\"k\":" + Q(t.k) + ",\"s\":" + Q(t.s) + "}"; }
std::string RefS(const Ref& r) { return r.n + r.p.text; }
void SetText(Instruction& i, const char* attr, const Text& t)
{
  if (t.k == "lit") i.AddAttribute(attr, t.s);
  if (t.k == "var") i.AddAttribute(attr, "@" + t.s);
}
struct Ui : public DefaultUserInterface
{
  bool put = true;
  std::vector<std::string> out, logs;
  static std::string O(const char* to, int sev, const std::string& s, const AnyValue& v)
  {
    return std::string("{\"to\":") + Q(to) + ",\"sev\":" + std::to_string(sev) + ",\"s\":" + Q(s) + ",\"v\":" + J(v) + "}";
  }
  bool PutValue(const AnyValue& v, const std::string& d) override { out.push_back(O("value", 0, d, v)); return put; }
  void Message(const std::string& m) override { out.push_back(O("message", 0, m, {})); }
  void Log(int sev, const std::string& m) override { logs.push_back(O("log", sev, m, {})); }
};
std::string Xml(const std::string& s)
{
  std::string r;
  for (char c : s)
    if (c == '"') r += "&quot;";
    else if (c == '&') r += "&amp;";
    else if (c == '<') r += "&lt;";
    else r += c;
  return r;
}
std::string g_dir;
std::string WriteProcedure(const Vars& vars)
{
  auto name = g_dir + "/sub.xml";
  std::ofstream f(name);
  f << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">\n<Succeed/>\n<Workspace>\n";
  for (auto& d : vars)
  {
    f << "<Local name=\"" << d.name << "\"";
    if (!sup::dto::IsEmptyType(d.type))
      f << " type=\"" << Xml(sup::dto::AnyTypeToJSONString(d.type)) << "\" value=\"" << Xml(sup::dto::ValuesToJSONString(d.init)) << "\"";
    if (d.dyn) f << " dynamicType=\"true\"";
    f << "/>\n";
  }
  f << "</Workspace>\n</Procedure>\n";
  return name;
}
bool HasHuge(const AnyValue& v)
{
  if (sup::dto::IsStructValue(v)) { for (auto& n : v.MemberNames()) if (HasHuge(v[n])) return true; return false; }
  if (sup::dto::IsArrayValue(v)) { for (std::size_t i = 0; i < v.NumberOfElements(); ++i) if (HasHuge(v[i])) return true; return false; }
  if (!sup::dto::IsScalarValue(v) || v.GetTypeName() == "string") return false;
  return std::fabs(v.As<double>()) > 1e8;
}
std::string Shot(Workspace* ws, const Vars& vars, bool& huge)
{
  std::string s = "{";
  for (auto& d : vars)
  {
    auto v = Read(*ws, d.name);
    huge = huge || HasHuge(v);
    s += (s.size() > 1 ? "," : "") + Q(d.name) + ":" + J(v);
  }
  return s + "}";
}

struct Step { std::string op; Ref a, b; Text t, u; bool put; };

std::string Body(unsigned long long seed)
{
  Rng r(seed);
  Vars main, sub;
  int n = r.R(2, 4);
  static const char* const names[] = {"v", "w", "z", "q"};
  for (int k = 0; k < n; ++k)
  {
    Var d = RandomVar(r, names[k]);
    if (k > 0 && r.P(0.35) && !sup::dto::IsEmptyType(main[0].type))   // something that fits
    {
      auto t = main[0].type;
      if (sup::dto::IsArrayType(t) && r.P(0.6)) t = AnyType(t.ElementType());
      else if (sup::dto::IsStructType(t) && r.P(0.3)) t = t.Members()[0].second;
      else if (r.P(0.5)) t = Similar(r, t);
      d.type = t;
      d.init = RandomValue(r, t);
    }
    if (r.P(0.25)) d.dyn = true;
    main.push_back(d);
  }
  if (r.P(0.5)) main.push_back(MakeVar("s", AnyValue(std::string("a text"))));
  bool use_sub = r.P(0.3);
  if (use_sub)
    for (int k = r.R(1, 2); k > 0; --k)
    {
      auto d = RandomVar(r, k == 1 ? "v" : "other");
      if (r.P(0.5)) { d.type = Similar(r, main[0].type); d.init = RandomValue(r, d.type); }
      sub.push_back(d);
    }
  auto ws = MakeWorkspace(main);
  Procedure proc(g_dir + "/main.xml");
  Workspace none;
  Workspace* sws = &none;
  if (use_sub)
  {
    sws = &proc.GetContext().GetWorkspace(WriteProcedure(sub));
    sws->Setup();
  }
  auto header = ",\"mem\":" + MemJson(*ws, main) + ",\"sub\":" + MemJson(*sws, sub);
  auto ref = [&](const Vars& vars)
  {
    Ref x;
    if (r.P(0.04)) { x.n = "none"; return x; }
    auto& d = vars[r.N((int)vars.size())];
    x.n = d.name;
    if (r.P(0.4)) x.p = RandomPath(r, Read(&vars == &sub ? *sws : *ws, d.name).GetType());
    return x;
  };
  auto text = [&](double lit)
  {
    Text t;
    if (r.P(lit)) { t.k = "lit"; t.s = r.P(0.5) ? "some text" : "other"; }
    else if (r.P(0.6)) { t.k = "var"; t.s = r.P(0.6) ? "s" : names[r.N(4)]; }
    return t;
  };
  static const char* const ops[] = {"Copy", "Copy", "Copy", "Increment", "Increment", "Decrement", "Condition", "Equals", "LessThan", "LessThanOrEqual",
    "GreaterThan", "GreaterThanOrEqual", "AddMember", "AddElement", "AddElement", "ResetVariable", "VarExists", "Output", "Message", "Log", "Succeed", "Fail", "CopyFrom", "CopyTo"};
  static const std::map<std::string, const char*> types = {{"CopyFrom", "CopyFromProcedure"}, {"CopyTo", "CopyToProcedure"}};
  bool huge = false;
  std::unique_ptr<Instruction> kept;
  int steps = r.R(3, 14);
  Step st;
  for (int k = 0; k < steps && !huge; ++k)
  {
    Ui ui;
    bool again = kept && r.P(0.15);
    if (!again)
    {
      st = Step{};
      st.op = ops[r.N(use_sub ? 24 : 22)];
      if (use_sub && r.P(0.3)) st.op = r.P(0.5) ? "CopyFrom" : "CopyTo";
      st.a = ref(st.op == "CopyFrom" ? sub : main);
      st.b = ref(st.op == "CopyTo" ? sub : main);
      if (st.op == "ResetVariable" && r.P(0.7)) st.a.p = Path{};
      auto t = types.find(st.op);
      kept = GlobalInstructionRegistry().Create(t == types.end() ? st.op : t->second);
      auto& i = *kept;
      if (st.op.rfind("Copy", 0) == 0 || st.op.rfind("Add", 0) == 0)
      {
        i.AddAttribute("inputVar", RefS(st.a));
        i.AddAttribute("outputVar", RefS(st.b));
        if (st.op[4] == 'F' || st.op[4] == 'T') i.AddAttribute("file", "sub.xml");
        if (st.op == "AddMember")
        {
          st.t.k = "lit";
          st.t.s = r.P(0.05) ? "" : r.P(0.5) ? "d" : r.P(0.5) ? "a" : "e";
          i.AddAttribute("memberName", st.t.s);
        }
      }
      else if (st.op == "Equals" || st.op.find("Than") != std::string::npos)
      {
        i.AddAttribute("leftVar", RefS(st.a));
        i.AddAttribute("rightVar", RefS(st.b));
      }
      else if (st.op == "Output") { i.AddAttribute("fromVar", RefS(st.a)); st.t = text(0.4); SetText(i, "description", st.t); }
      else if (st.op == "Message") { st.t = text(0.4); if (st.t.k == "none") { st.t.k = "lit"; st.t.s = "!"; } SetText(i, "text", st.t); }
      else if (st.op == "Log")
      {
        st.t = text(0.4);
        if (st.t.k != "none" && r.P(0.5)) st.a = Ref{};
        if (!st.a.n.empty()) i.AddAttribute("inputVar", RefS(st.a));
        SetText(i, "message", st.t);
        static const char* const sev[] = {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace", "", "no", "Info"};
        if (r.P(0.6)) { st.u.k = "lit"; st.u.s = sev[r.N(12)]; }
        else if (r.P(0.2)) { st.u.k = "var"; st.u.s = "s"; }
        SetText(i, "severity", st.u);
      }
      else if (st.op != "Succeed" && st.op != "Fail") i.AddAttribute("varName", RefS(st.a));
      i.Setup(proc);
    }
    else kept->Reset(ui);
    st.put = r.P(0.85);
    ui.put = st.put;
    kept->ExecuteSingle(ui, *ws);
    bool ok = kept->GetStatus() == ExecutionStatus::SUCCESS;
    if (!ok && kept->GetStatus() != ExecutionStatus::FAILURE) evlog().Add(Ev("bad").S("s", St(kept->GetStatus())));
    std::string out;
    if (st.op == "Log" && ok) ui.out = ui.logs;
    for (auto& o : ui.out) out += (out.empty() ? "" : ",") + o;
    auto m = Shot(ws.get(), main, huge), s = Shot(sws, sub, huge);
    if (huge) break;   // beyond what the specification represents
    evlog().Add(Ev("exec").Raw("i", "{\"op\":" + Q(st.op) + ",\"a\":" + RefJ(st.a) + ",\"b\":" + RefJ(st.b) + ",\"t\":" + TextJ(st.t) + ",\"u\":" + TextJ(st.u) +
                                    ",\"put\":" + (st.put ? "true" : "false") + "}")
                    .B("ok", ok).Raw("out", "[" + out + "]").Raw("main", m).Raw("sub", s));
  }
  evlog().Add(Ev("end"));
  return header;
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  char tmpl[] = "/tmp/datadrvXXXXXX";
  g_dir = mkdtemp(tmpl);
  auto one = [&](unsigned long long seed)
  {
    auto text = std::to_string(seed);
    out.Current(text);
    evlog().ev.clear();
    std::string header = ",\"mem\":{},\"sub\":{}";
    try { header = Body(seed); }
    catch (const std::exception& e) { evlog().ev.push_back(Ev("abnormal").S("what", "exception").S("detail", e.what()).Str()); }
    out.Trace(text, "", header);
  };
  if (a.Has("prog")) one(std::strtoull(a.Str("prog").c_str(), nullptr, 10));
  else
  {
    Deadline dl(a.Int("seconds", 5));
    Rng rng(a.Int("seed", 1));
    while (!dl.Over() && out.Count() < a.Int("traces", 2000)) one(rng.Next() >> 16);
  }
  ::unlink((g_dir + "/sub.xml").c_str());
  ::rmdir(g_dir.c_str());
  out.Stats();
}
