// Attributes of instructions and variables: definitions, constraints and values (see spec/setup/Attributes.tla).
#include "memlib.h"

#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable_registry.h>

using namespace ml;

namespace
{
struct Con { std::string k, n, t; std::vector<Con> c; };
std::string ConJ(const Con& c)
{
  std::string s = "{\"k\":" + Q(c.k) + ",\"n\":" + Q(c.n) + ",\"t\":" + Q(c.t) + ",\"c\":[";
  for (std::size_t i = 0; i < c.c.size(); ++i) s += (i ? "," : "") + ConJ(c.c[i]);
  return s + "]}";
}
const std::map<std::string, AnyType>& Types()
{
  static std::map<std::string, AnyType> m;
  if (m.empty())
    for (auto c : Scalars()) { AnyType t(c); m[AnyValue(t).GetTypeName()] = t; }
  return m;
}
std::string RandomTypeName(Rng& r)
{
  static const char* const common[] = {"string", "bool", "int8", "uint32", "float64"};
  if (r.P(0.6)) return common[r.N(5)];
  auto it = Types().begin();
  std::advance(it, r.N((int)Types().size()));
  return it->first;
}
Constraint Make(const Con& c)
{
  if (c.k == "exists") return MakeConstraint<Exists>(c.n);
  if (c.k == "type") return MakeConstraint<FixedType>(c.n, Types().at(c.t));
  if (c.k == "not") return MakeConstraint<Not>(Make(c.c[0]));
  if (c.k == "and") return MakeConstraint<And>(Make(c.c[0]), Make(c.c[1]));
  if (c.k == "or") return MakeConstraint<Or>(Make(c.c[0]), Make(c.c[1]));
  return MakeConstraint<Xor>(Make(c.c[0]), Make(c.c[1]));
}
const char* const kNames[] = {"a", "b", "c", "p", "q", "name"};
std::string Name(Rng& r) { return kNames[r.P(0.9) ? r.N(5) : 5]; }
std::string Text(Rng& r)
{
  static const char* const numbers[] = {"0", "1", "-1", "42", "127", "128", "255", "300", "70000", "1.5", "-0.25"};
  static const char* const yes[] = {"true", "TRUE", "True", "yes", "YES", "on", "oN"};
  static const char* const vars[] = {"@v", "@s", "@none", "@"};
  static const char* const other[] = {"", "false", "off", "abc", "tru", "v", "s", "none", "$p", "$q", "$"};
  int k = r.N(10);
  return k < 4 ? numbers[r.N(11)] : k < 5 ? yes[r.N(7)] : k < 7 ? vars[r.N(4)] : other[r.N(11)];
}
Con RandomCon(Rng& r, int depth)
{
  Con c;
  int k = depth == 0 ? r.N(2) : r.N(7);
  if (k <= 1)
  {
    c.k = k || r.P(0.4) ? "exists" : "type";
    c.n = Name(r);
    if (c.k == "type") c.t = RandomTypeName(r);
    return c;
  }
  static const char* const ops[] = {"and", "or", "xor", "not", "xor"};
  c.k = ops[k - 2];
  for (int n = c.k == "not" ? 1 : 2; n > 0; --n) c.c.push_back(RandomCon(r, depth - 1));
  return c;
}
StringAttributeList RandomList(Rng& r)
{
  StringAttributeList l;
  for (int n = r.R(0, 3); n > 0; --n) l.emplace_back(Name(r), Text(r));
  return l;
}
std::string ListJ(const StringAttributeList& l)
{
  std::string s = "[";
  for (auto& [n, t] : l) s += (s.size() > 1 ? "," : "") + ("{\"n\":" + Q(n) + ",\"s\":" + Q(t) + "}");
  return s + "]";
}
const char* Cat(AttributeCategory c)
{
  return c == AttributeCategory::kLiteral ? "lit" : c == AttributeCategory::kVariableName ? "var" : "both";
}
std::string DefsJ(const std::vector<AttributeDefinition>& d)
{
  std::string s = "[";
  for (auto& x : d)
    s += (s.size() > 1 ? "," : "") + ("{\"n\":" + Q(x.GetName()) + ",\"t\":" + Q(AnyValue(x.GetType()).GetTypeName()) + ",\"m\":" +
                                      (x.IsMandatory() ? "true" : "false") + ",\"c\":" + Q(Cat(x.GetCategory())) + "}");
  return s + "]";
}

class TestInstruction : public Instruction
{
public:
  TestInstruction() : Instruction("Test") {}
  using Instruction::AddAttributeDefinition;
  using Instruction::AddConstraint;
private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
class TestVariable : public Variable
{
public:
  TestVariable() : Variable("Test") {}
  using Variable::AddAttributeDefinition;
  using Variable::AddConstraint;
private:
  bool GetValueImpl(AnyValue&) const override { return true; }
  bool SetValueImpl(const AnyValue&) override { return true; }
};

// What the random program acts on.
struct Host
{
  AttributeHandler handler;
  std::unique_ptr<TestInstruction> instr;
  std::unique_ptr<TestVariable> var;
};
AttributeDefinition& AddDef(Host& h, const std::string& n, const AnyType& t)
{
  return h.instr ? h.instr->AddAttributeDefinition(n, t) : h.var ? h.var->AddAttributeDefinition(n, t) : h.handler.AddAttributeDefinition(n, t);
}

std::string Header(const char* host, const std::string& type, const std::string& mem)
{
  return std::string(",\"host\":") + Q(host) + ",\"type\":" + Q(type) + ",\"mem\":" + mem;
}

std::string Free(Rng& r)
{
  Host h;
  int kind = r.N(3);
  if (kind == 1) h.instr = std::make_unique<TestInstruction>();
  if (kind == 2) h.var = std::make_unique<TestVariable>();
  Vars mem = {MakeVar("v", AnyValue((sup::dto::int32)7)), MakeVar("s", AnyValue(std::string("txt")))};
  auto ws = MakeWorkspace(mem);
  auto header = Header(kind == 0 ? "handler" : kind == 1 ? "instr" : "var", "", MemJson(*ws, mem));
  Procedure proc;
  DefaultUserInterface ui;
  auto& log = evlog();
  for (int n = r.R(0, 4); n > 0; --n)
  {
    auto name = Name(r), t = RandomTypeName(r);
    static const AttributeCategory cats[] = {AttributeCategory::kLiteral, AttributeCategory::kVariableName, AttributeCategory::kBoth};
    auto cat = cats[r.P(0.4) ? 0 : r.N(3)];
    bool mandatory = r.P(0.4), ok = true;
    try
    {
      auto& d = AddDef(h, name, Types().at(t));
      if (mandatory || r.P(0.3)) d.SetMandatory(mandatory);
      if (cat != AttributeCategory::kLiteral || r.P(0.3)) d.SetCategory(cat);
    }
    catch (const InvalidOperationException&) { ok = false; }
    log.Add(Ev("def").S("n", name).S("t", t).B("m", mandatory).S("c", Cat(cat)).B("ok", ok));
  }
  if (kind < 2 && r.P(0.5)) log.Add(Ev("defs").Raw("l", DefsJ(h.instr ? h.instr->GetAttributeDefinitions() : h.handler.GetAttributeDefinitions())));
  for (int n = r.P(0.7) ? r.R(0, 2) : 0; n > 0; --n)
  {
    auto c = RandomCon(r, r.R(0, 3));
    auto made = Make(c);
    if (r.P(0.5)) { auto copy = made; made = copy; }
    if (h.instr) h.instr->AddConstraint(made);
    else if (h.var) h.var->AddConstraint(made);
    else h.handler.AddConstraint(made);
    log.Add(Ev("con").Raw("c", ConJ(c)));
  }
  int steps = r.R(3, 14);
  for (int k = 0; k < steps; ++k)
  {
    auto n = Name(r), s = Text(r);
    switch (r.N(12))
    {
    case 0: case 1: case 2: case 3:
    {
      bool ok = h.instr ? h.instr->AddAttribute(n, s) : h.var ? h.var->AddAttribute(n, s) : h.handler.AddStringAttribute(n, s);
      log.Add(Ev("add").S("n", n).S("s", s).B("ok", ok));
      break;
    }
    case 4:
    {
      bool ok = true;
      if (h.instr) ok = h.instr->SetAttribute(n, s);
      else if (h.var) break;
      else h.handler.SetStringAttribute(n, s);
      log.Add(Ev("set").S("n", n).S("s", s).B("ok", ok));
      break;
    }
    case 5:
    {
      if (!h.instr && !h.var) break;
      auto l = RandomList(r);
      bool ok = h.instr ? h.instr->AddAttributes(l) : h.var->AddAttributes(l);
      log.Add(Ev("addall").Raw("l", ListJ(l)).B("ok", ok));
      break;
    }
    case 6:
    {
      if (h.instr) log.Add(Ev("has").S("n", n).B("ok", h.instr->HasAttribute(n)).S("s", h.instr->GetAttributeString(n)));
      else if (h.var) log.Add(Ev("has").S("n", n).B("ok", h.var->HasAttribute(n)).S("s", h.var->GetAttributeString(n)));
      else log.Add(Ev("has").S("n", n).B("ok", h.handler.HasStringAttribute(n)).S("s", GetStringAttributeValue(h.handler.GetStringAttributes(), n)));
      auto& l = h.instr ? h.instr->GetStringAttributes() : h.var ? h.var->GetStringAttributes() : h.handler.GetStringAttributes();
      log.Add(Ev("list").Raw("l", ListJ(l)));
      break;
    }
    case 7: case 8:
      if (h.instr || h.var)
      {
        bool ok = true;
        try { if (h.instr) h.instr->Setup(proc); else { Workspace w; h.var->Setup(w); } }
        catch (const InstructionSetupException&) { ok = false; if (h.var) throw; }
        catch (const VariableSetupException&) { ok = false; if (h.instr) throw; }
        log.Add(Ev("accept").B("ok", ok));
        if (h.instr && r.P(0.5)) h.instr->Reset(ui);
        if (h.var && r.P(0.5)) h.var->Teardown();
      }
      else
      {
        bool ok = h.handler.ValidateAttributes();
        log.Add(Ev("validate").B("ok", ok).L("failed", h.handler.GetFailedConstraints()));
        if (r.P(0.3)) h.handler.ClearFailedConstraints();
      }
      break;
    case 9: case 10:
      if (h.instr)
      {
        AnyValue v;
        bool ok = h.instr->GetAttributeValue(n, *ws, ui, v);
        log.Add(Ev("get").S("n", n).B("ok", ok).Raw("v", J(v)));
      }
      else if (!h.var)
      {
        AnyValue v;
        bool ok = h.handler.GetValue(n, v);
        log.Add(Ev("value").S("n", n).B("ok", ok).Raw("v", J(v)));
      }
      break;
    default:
      if (h.instr)
      {
        auto l = RandomList(r);
        StringAttributeList once;
        for (auto& x : l) if (FindStringAttribute(once, x.first) == once.end()) once.push_back(x);
        bool ok = h.instr->InitialisePlaceholderAttributes(once);
        log.Add(Ev("fill").Raw("l", ListJ(once)).B("ok", ok));
      }
    }
  }
  return header;
}
const char* const kRealNames[] = {"inputVar", "outputVar", "memberName", "file", "varName", "leftVar", "rightVar", "description", "message", "severity", "text", "fromVar",
  "okText", "cancelText", "timeout", "blocking", "equalsVar", "varType", "successThreshold", "failureThreshold", "arrayVar", "elementVar", "path", "varNames",
  "forceSuccess", "maxCount", "name", "isRoot", "showCollapsed", "other", "type", "value", "dynamicType", "pretty"};
void Fill(Rng& r, const std::vector<AttributeDefinition>& defs, const std::function<bool(const std::string&, const std::string&)>& add)
{
  auto one = [&](const std::string& n, const std::string& s) { bool ok = add(n, s); evlog().Add(Ev("add").S("n", n).S("s", s).B("ok", ok)); };
  for (auto& d : defs)
    if (r.P(d.IsMandatory() ? 0.85 : 0.4)) one(d.GetName(), Text(r));
  for (int n = r.N(3); n > 0; --n) one(kRealNames[r.N(34)], Text(r));
}
std::string Real(Rng& r)
{
  static const auto all = GlobalInstructionRegistry().RegisteredInstructionNames();
  static const char* const known[] = {"Condition", "Copy", "AddMember", "AddElement", "CopyFromProcedure", "CopyToProcedure", "Decrement", "Increment", "Equals", "GreaterThan",
    "GreaterThanOrEqual", "LessThan", "LessThanOrEqual", "Input", "Log", "Message", "Output", "ResetVariable", "UserConfirmation", "VarExists", "Wait",
    "WaitForVariable", "WaitForVariables", "Succeed", "Fail", "Choice", "Fallback", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Sequence", "UserChoice",
    "Async", "For", "ForceSuccess", "Include", "IncludeProcedure", "Inverter", "Listen", "Repeat"};
  if (r.P(0.02))
    evlog().Add(Ev("types").L("l", all).L("vars", GlobalVariableRegistry().RegisteredVariableNames()));
  std::string type = known[r.N(40)];
  auto i = GlobalInstructionRegistry().Create(type);
  evlog().Add(Ev("defs").Raw("l", DefsJ(i->GetAttributeDefinitions())));
  Fill(r, i->GetAttributeDefinitions(), [&](const std::string& n, const std::string& s) { return i->AddAttribute(n, s); });
  for (int n = r.P(0.8) ? (i->GetCategory() == Instruction::kAction ? 0 : 1) : r.N(3); n > 0; --n)
  {
    bool ok = AppendChildInstruction(*i, GlobalInstructionRegistry().Create("Succeed"));
    evlog().Add(Ev("kid").B("ok", ok));
  }
  Procedure proc;
  DefaultUserInterface ui;
  for (int n = r.R(1, 2); n > 0; --n)
  {
    bool ok = true;
    try { i->Setup(proc); }
    catch (const InstructionSetupException&) { ok = false; }
    catch (const std::exception&)   // also files that cannot be read
    {
      if (type.find("Include") != 0 && type.find("Procedure") == std::string::npos) throw;
      ok = false;
    }
    evlog().Add(Ev("accept").B("ok", ok));
    if (n > 1) i->Reset(ui);
  }
  return Header("real", type, "{}");
}
std::string RealVar(Rng& r)
{
  std::string type = r.P(0.5) ? "Local" : "File";
  auto v = GlobalVariableRegistry().Create(type);
  Fill(r, [&]{ std::vector<AttributeDefinition> d; for (auto n : {"type", "value", "dynamicType", "file", "pretty"}) d.emplace_back(n, sup::dto::StringType); return d; }(),
       [&](const std::string& n, const std::string& s) { return v->AddAttribute(n, n == "file" ? s : s); });
  Workspace ws;
  bool ok = true;
  try { v->Setup(ws); }
  catch (const VariableSetupException&) { ok = false; }
  evlog().Add(Ev("accept").B("ok", ok));
  return Header("realvar", type, "{}");
}
std::string Body(unsigned long long seed)
{
  Rng r(seed);
  double p = (r.N(100)) / 100.0;
  auto header = p < 0.65 ? Free(r) : p < 0.93 ? Real(r) : RealVar(r);
  evlog().Add(Ev("end"));
  return header;
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](unsigned long long seed)
  {
    auto text = std::to_string(seed);
    out.Current(text);
    evlog().ev.clear();
    std::string header = Header("handler", "", "{}");
    try { header = Body(seed); }
    catch (const std::exception& e) { evlog().ev.push_back(Ev("abnormal").S("what", "exception").S("detail", e.what()).Str()); }
    out.Trace(text, "", header);
  };
  if (a.Has("prog")) one(std::strtoull(a.Str("prog").c_str(), nullptr, 10));
  else
  {
    Deadline dl(a.Int("seconds", 5));
    Rng rng(a.Int("seed", 1));
    while (!dl.Over() && out.Count() < a.Int("traces", 2000)) one(rng.Next() >> 16);
  }
  out.Stats();
}
