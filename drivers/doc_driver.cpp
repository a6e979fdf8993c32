// Documents: reading, writing, setting up, describing (see spec/setup/Document.tla).
#include "doclib.h"

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/job_map.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>
#include <sup/xml/tree_data.h>

#include <filesystem>
#include <memory>

using namespace dl;
using namespace sup::oac_tree;
namespace fs = std::filesystem;

// The writer is a private header of the library.
namespace sup { namespace oac_tree { std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure); } }

namespace
{
std::string TreeJ(const sup::xml::TreeData& e)
{
  return "{\"t\":" + Q(e.GetNodeName()) + ",\"a\":" + AttrsJ(e.Attributes()) + ",\"x\":" + Q(e.GetContent()) + ",\"c\":" + ListOf(e.Children(), TreeJ) + "}";
}
std::string InstrJ(const Instruction* i)
{
  return "{\"t\":" + Q(i->GetType()) + ",\"a\":" + AttrsJ(i->GetStringAttributes()) + ",\"c\":" + ListOf(i->ChildInstructions(), InstrJ) + "}";
}
std::string VarsJ(const Workspace& ws)
{
  return ListOf(ws.VariableNames(), [&](const std::string& n)
  {
    auto v = ws.GetVariable(n);
    return "{\"n\":" + Q(n) + ",\"t\":" + Q(v->GetType()) + ",\"a\":" + AttrsJ(v->GetStringAttributes()) + "}";
  });
}
std::string ProcJ(const Procedure& p)
{
  auto types = ListOf(p.GetPreamble().GetTypeRegistrations(), [](const TypeRegistrationInfo& i)
  { return std::string("{\"k\":") + (i.GetRegistrationMode() == TypeRegistrationInfo::kJSONString ? "\"text\"" : "\"file\"") + ",\"s\":" + Q(Tok(i.GetString())) + "}"; });
  return "{\"a\":" + AttrsJ(p.GetStringAttributes()) + ",\"types\":" + types + ",\"plugins\":" + ListOf(p.GetPreamble().GetPluginPaths(), Q) +
         ",\"tops\":" + ListOf(p.GetTopInstructions(), InstrJ) + ",\"vars\":" + VarsJ(p.GetWorkspace()) + "}";
}

// ---- random documents
struct Gen
{
  Rng& r;
  bool main = false;
  bool clean = false;              // mostly without mistakes
  double fault = 0.0;
  std::vector<std::string> refs;   // names of other files that make sense here
  int budget = 14;

  std::string Pick(std::initializer_list<const char*> l) { return *(l.begin() + r.N((int)l.size())); }
  bool Has(const Attrs& a, const std::string& n) { for (auto& x : a) if (x.first == n) return true; return false; }
  void Put(Attrs& a, const std::string& n, const std::string& s) { if (!Has(a, n)) a.emplace_back(n, s); }
  std::string Text(const std::string& type, bool dollar)
  {
    if (dollar && r.P(0.25)) return r.P(0.9) ? Pick({"$p", "$q"}) : "$";
    if (r.P(fault)) return Pick({"abc", "", "@none", "1.5", "-1", "70000"});
    if (type == "bool") return Pick({"true", "false", "YES", "on", "off"});
    if (type == "float64") return Pick({"0", "1", "1.5", "-0.25", "42"});
    if (type == "string") return Pick({"abc", "v", "@v", "none", "1"});
    return Pick({"0", "1", "42"});
  }
  std::string File() { return r.P(0.08) ? Pick({"none.xml", "bad.xml", "", "/none.xml"}) : refs[r.N((int)refs.size())]; }
  std::string Path() { return r.P(0.85) ? Pick({"", "a", "b", "c", "i", "j", "a.b", "b.c"}) : Pick({"a.b.c", "a.", ".a", "a..b", "nn"}); }
  std::string LeafOrTree(int depth)
  {
    double p = r.N(1000) / 1000.0;
    if (p < 0.20) return "Include";
    if (p < 0.30) return "IncludeProcedure";
    if (p < 0.35) return Pick({"CopyFromProcedure", "CopyToProcedure"});
    if (p < (clean ? 0.85 : 0.65) && depth > 0)
      return r.P(0.6) ? Pick({"Sequence", "Fallback", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Choice", "UserChoice"})
                      : Pick({"Inverter", "Repeat", "ForceSuccess", "Async", "Listen", "For"});
    return r.P(0.4) ? Pick({"Succeed", "Fail"})
                    : Pick({"Condition", "Copy", "AddMember", "AddElement", "Decrement", "Increment", "Equals", "GreaterThan", "LessThan", "LessThanOrEqual", "Input", "Log",
                            "Message", "Output", "ResetVariable", "UserConfirmation", "VarExists", "Wait", "WaitForVariable", "WaitForVariables"});
  }
  El Node(int depth, bool top)
  {
    --budget;
    El e;
    e.t = LeafOrTree(budget > 0 ? depth : 0);
    if (r.P(fault * 0.2)) { e.t = "Bogus"; return e; }
    bool inc = e.t == "Include" || e.t == "IncludeProcedure";
    bool dollar = !top && !(main && inc) && r.P(main ? 0.3 : 0.6);
    if (inc ? (main || r.P(0.6)) : r.P(0.6)) Put(e.a, "name", inc ? Pick({"i", "j"}) : Pick({"a", "b", "c"}));
    if (inc || e.t.find("Procedure") != std::string::npos)
    {
      if (e.t != "Include" || r.P(0.5)) Put(e.a, "file", dollar && r.P(0.15) ? Pick({"$p", "$q"}) : File());
      if (e.t == "Include" ? !r.P(fault) : (inc && r.P(0.6))) Put(e.a, "path", dollar && r.P(0.15) ? Pick({"$p", "$q"}) : Path());
      if (inc)
        for (auto n : {"p", "q"})
          if (r.P(0.88)) Put(e.a, n, dollar && r.P(0.5) ? Pick({"$p", "$q"}) : r.P(0.3) ? Path() : r.P(0.2) ? File() : r.P(0.5) ? Pick({"1", "42", "true"}) : Pick({"abc", "v", "@v"}));
    }
    auto instr = GlobalInstructionRegistry().Create(e.t);
    for (auto& d : instr->GetAttributeDefinitions())
    {
      auto n = d.GetName();
      if (n == "name" || n == "isRoot" || n == "file" || n == "path") continue;
      if (d.IsMandatory() ? !r.P(fault) : r.P(0.15)) Put(e.a, n, Text(AnyValue(d.GetType()).GetTypeName(), dollar));
    }
    if (e.t == "Log" && !Has(e.a, "message") && !Has(e.a, "inputVar") && !r.P(fault)) Put(e.a, "message", Text("string", dollar));
    if (r.P(0.08)) Put(e.a, "other", Text("string", dollar));
    if (top && r.P(0.4)) Put(e.a, "isRoot", r.P(0.85) ? Pick({"true", "false", "YES", "off"}) : Pick({"abc", ""}));
    auto cat = instr->GetCategory();
    int n = cat == Instruction::kAction ? 0 : inc ? (r.P(0.06) ? 1 : 0) : cat == Instruction::kDecorator ? 1 : r.R(1, 3);
    bool wide = cat == Instruction::kCompound && r.P(top ? 0.12 : 0.04);
    if (wide) { n = r.R(4, 13); depth = 0; }
    if (r.P(fault * 0.5)) n = r.N(3);
    for (int k = 0; k < n; ++k) e.c.push_back(Node(depth - 1, false));
    return e;
  }
  std::string TypeText() { return clean && !r.P(0.05) ? Pick({"T:int", "T:str", "T:p1", "T:q"}) : r.P(0.85) ? Pick({"T:int", "T:str", "T:p1", "T:p2", "T:q", "T:p1"}) : Pick({"T:bad", "T:none", "T:usep", "T:reads", "T:bool"}); }
  El Var()
  {
    El e;
    e.t = r.P(0.8) ? "Local" : "File";
    if (r.P(fault)) e.t = "Succeed";
    if (!r.P(fault)) Put(e.a, "name", clean || r.P(0.97) ? Pick({"v", "s", "w", "x", "y", "z"}) : "");
    if (e.t == "Local")
    {
      static const std::map<std::string, std::string> fit = {{"T:int", "42"}, {"T:str", "V:str"}, {"T:bool", "true"}, {"T:p1", "V:p1"}, {"T:p2", "V:p2"}, {"T:q", "V:p1"}, {"T:reads", "V:p1"}};
      auto t = r.P(0.5) ? "T:int" : !clean && r.P(0.12) ? Pick({"T:reads", "T:usep", "T:bad", "abc"}) : TypeText();
      if ((clean || r.P(0.5)) && fault < 0.02 && !fit.count(t)) t = "T:str";
      if (clean && (t == "T:p1" || t == "T:q")) t = "T:str";
      if (r.P(0.9)) Put(e.a, "type", t);
      if (r.P(0.7) && (Has(e.a, "type") || r.P(fault)))
        Put(e.a, "value", fit.count(t) && !r.P(fault) ? fit.at(t) : Pick({"42", "V:str", "V:p1", "V:p2", "abc", "true"}));
      if (r.P(0.2)) Put(e.a, "dynamicType", Pick({"true", "false", clean ? "true" : "abc"}));
    }
    else if (!r.P(fault)) Put(e.a, "file", "f.json");
    if (r.P(0.1)) Put(e.a, "other", "abc");
    return e;
  }
  El Doc()
  {
    El e;
    e.t = r.P(fault * 0.3) ? "Proc" : "Procedure";
    if (r.P(0.4)) Put(e.a, "name", Pick({"proc", "abc", ""}));
    if (r.P(0.15)) Put(e.a, "tickTimeout", Text("float64", false));
    if (r.P(0.15)) Put(e.a, "timingAccuracy", Text("float64", false));
    if (r.P(0.2)) Put(e.a, "other", "abc");
    int tops = main ? r.R(1, 3) : r.R(1, 4);
    if (!clean && r.P(0.03)) tops = 0;
    int mark = tops > 1 && (clean || r.P(0.75)) ? r.N(tops) : -1;
    for (int k = 0; k < tops; ++k)
    {
      e.c.push_back(Node(clean ? r.R(1, 4) : r.R(0, 3), true));
      auto& a = e.c.back().a;
      if (k == mark && clean) a.erase(std::remove_if(a.begin(), a.end(), [](auto& x) { return x.first == "isRoot"; }), a.end());
      if (k == mark && !Has(a, "isRoot")) Put(a, "isRoot", Pick({"true", "on"}));
      if (e.c.back().t.find("Include") != 0 && r.P(0.6))
      {
        static const char* const names[] = {"a", "b", "c", "a"};
        for (auto& x : a) if (x.first == "name") x.second = names[k];
        Put(a, "name", names[k]);
      }
    }
    for (int n = r.P(0.5) ? 1 : r.N(3); n > 0; --n)
    {
      El w{"Workspace", {}, "", {}};
      for (int k = r.N(4); k > 0; --k)
      {
        auto v = Var();
        bool dup = false;
        for (auto& x : e.c) if (x.t == "Workspace") for (auto& y : x.c) dup = dup || (Has(v.a, "name") && y.a.size() && y.a[0] == v.a[0]);
        for (auto& y : w.c) dup = dup || (y.a.size() && v.a.size() && y.a[0] == v.a[0]);
        if (!dup || r.P(fault)) w.c.push_back(v);
      }
      e.c.insert(e.c.begin() + r.N((int)e.c.size() + 1), w);
    }
    for (int n = r.P(0.35) ? r.R(1, 3) : 0; n > 0; --n)
    {
      El t{"RegisterType", {}, "", {}};
      if (r.P(0.75)) Put(t.a, "jsontype", TypeText()); else Put(t.a, "jsonfile", clean || r.P(0.85) ? "t.json" : Pick({"bad.json", "none.json", "/none.json", ""}));
      if (r.P(fault)) { if (r.P(0.5)) t.a.clear(); else { Put(t.a, "jsonfile", "t.json"); Put(t.a, "jsontype", "T:q"); } }
      if (r.P(0.1)) Put(t.a, "other", "abc");
      e.c.insert(e.c.begin() + r.N((int)e.c.size() + 1), t);
    }
    for (int n = r.P(0.2) ? r.R(1, 2) : 0; n > 0; --n)
    {
      El p{"Plugin", {}, r.P(1 - fault) ? Pick({"libm.so.6", "libdl.so.2"}) : Pick({"libnone.so", ""}), {}};
      e.c.insert(e.c.begin() + r.N((int)e.c.size() + 1), p);
    }
    return e;
  }
};

// ---- systems in which inclusion mostly works
El* NameOf(El& e, const std::string& n) { for (auto& x : e.a) if (x.first == "name") { if (x.second.empty() || x.second.size() > 1) x.second = n; return &e; } e.a.emplace_back("name", n); return &e; }
const std::string* Get(const El& e, const std::string& n) { for (auto& x : e.a) if (x.first == n) return &x.second; return nullptr; }
void Placeholders(const El& e, std::set<std::string>& s)
{
  for (auto& x : e.a) if (x.second.size() > 1 && x.second[0] == '$') s.insert(x.second.substr(1));
  for (auto& c : e.c) Placeholders(c, s);
}
bool IsInclude(const El& e) { return e.t == "Include" || e.t == "IncludeProcedure"; }
bool IsInstruction(const El& e) { return e.t != "Workspace" && e.t != "RegisterType" && e.t != "Plugin"; }
// Makes the includes in e, of the document self, refer to instructions that are there.
void Link(Rng& r, El& e, El& self, int top, std::map<std::string, El>& docs, const std::vector<std::pair<std::string, std::string>>& refs)
{
  if (IsInclude(e))
  {
    static const char* const names[] = {"a", "b", "c", "i", "j"};
    std::vector<El*> later;   // a document may only include what follows in itself
    for (std::size_t k = top + 1; k < self.c.size(); ++k) if (IsInstruction(self.c[k])) later.push_back(&self.c[k]);
    bool own = e.t == "Include" && !later.empty() && r.P(0.4);
    auto drop = [&](const char* n) { e.a.erase(std::remove_if(e.a.begin(), e.a.end(), [&](auto& x) { return x.first == n; }), e.a.end()); };
    if (own) drop("file");
    else if (refs.empty()) { e.t = "Succeed"; drop("file"); drop("path"); return; }
    else
    {
      auto& ref = refs[r.N((int)refs.size())];
      drop("file");
      e.a.insert(e.a.begin() + r.N((int)e.a.size() + 1), {"file", ref.first});
      later.clear();
      for (auto& c : docs[ref.second].c) if (IsInstruction(c)) later.push_back(&c);
    }
    if (later.empty()) return;
    El* target = later[r.N((int)later.size())];
    std::string path = *Get(*NameOf(*target, names[r.N(5)]), "name");
    for (int k = r.N(3); k > 0 && !target->c.empty() && !IsInclude(*target); --k)
    {
      target = &target->c[r.N((int)target->c.size())];
      path += "." + *Get(*NameOf(*target, names[r.N(5)]), "name");
    }
    bool root = e.t == "IncludeProcedure" && r.P(0.3);
    drop("path");
    if (!root) e.a.emplace_back("path", path);
    std::set<std::string> used;
    Placeholders(*target, used);
    if (root) used = {"p", "q"};
    if (own || r.P(0.9)) { for (auto& n : used) if (!Get(e, n)) e.a.emplace_back(n, r.P(0.5) ? "1" : "v"); }
    else if (!used.empty()) drop(used.begin()->c_str());
    e.c.clear();
    return;
  }
  for (auto& c : e.c) Link(r, c, self, top, docs, refs);
}

std::unique_ptr<Instruction> Build(const El& e)
{
  auto i = GlobalInstructionRegistry().Create(e.t);
  for (auto& [n, s] : e.a) i->AddAttribute(n, Real(s));
  for (auto& c : e.c) AppendChildInstruction(*i, Build(c));
  return i;
}
bool Buildable(const El& e)
{
  if (e.t == "Bogus") return false;
  auto cat = GlobalInstructionRegistry().Create(e.t)->GetCategory();
  if ((cat == Instruction::kAction && !e.c.empty()) || (cat == Instruction::kDecorator && e.c.size() > 1)) return false;
  for (auto& c : e.c) if (!Buildable(c)) return false;
  return true;
}

// ---- descriptions of jobs
const char* Cat(Instruction::Category c)
{
  switch (c)
  {
  case Instruction::kAction: return "none";
  case Instruction::kDecorator: return "one";
  case Instruction::kCompound: return "many";
  }
  return "other";
}
std::string InfoJ(const JobInfo& info)
{
  std::map<long long, std::string> by;
  bool dup = false;
  for (auto i : Flatten(*info.GetRootInstructionInfo()))
  {
    std::vector<long long> kids;
    for (auto c : i->Children()) kids.push_back(c->GetIndex());
    auto text = "{\"t\":" + Q(i->GetType()) + ",\"cat\":" + Q(Cat(i->GetCategory())) + ",\"a\":" + AttrsJ(i->GetAttributes()) + ",\"c\":" +
                ListOf(kids, [](long long k) { return std::to_string(k); }) + "}";
    dup = !by.emplace(i->GetIndex(), text).second || dup;
  }
  auto vars = ListOf(info.GetWorkspaceInfo().GetVariableInfos(), [](const std::pair<std::string, VariableInfo>& v)
  { return "{\"n\":" + Q(v.first) + ",\"t\":" + Q(v.second.GetType()) + ",\"a\":" + AttrsJ(v.second.GetAttributes()) + "}"; });
  std::vector<long long> vi;
  for (auto& [_, v] : info.GetWorkspaceInfo().GetVariableInfos()) vi.push_back(v.GetIndex());
  bool order = !dup && !by.empty() && by.begin()->first == 0 && by.rbegin()->first == (long long)by.size() - 1 && info.GetNumberOfInstructions() == by.size() &&
               info.GetNumberOfVariables() == vi.size() && info.GetRootInstructionInfo()->GetIndex() == 0;
  for (std::size_t k = 0; k < vi.size(); ++k) order = order && vi[k] == (long long)k;
  return std::string("{\"order\":") + (order ? "true" : "false") + ",\"name\":" + Q(info.GetProcedureName()) + ",\"vars\":" + vars + ",\"instr\":" +
         ListOf(by, [](const std::pair<const long long, std::string>& x) { return x.second; }) + "}";
}
// The value with the texts as the specification knows them.
AnyValue Tokens(const AnyValue& v)
{
  if (sup::dto::IsStructValue(v))
  {
    AnyValue s(sup::dto::EmptyStructType(v.GetTypeName()));
    for (auto& n : v.MemberNames()) s.AddMember(n, Tokens(v[n]));
    return s;
  }
  if (v.GetType() == sup::dto::StringType) return AnyValue(Tok(v.As<std::string>()));
  return v;
}
int Count(const AnyValue& v)
{
  int n = 1;
  if (sup::dto::IsStructValue(v)) for (auto& m : v.MemberNames()) n += Count(v[m]);
  return n;
}
AnyValue Edit(const AnyValue& v, int& at, Rng& r)
{
  bool here = at-- == 0;
  if (sup::dto::IsStructValue(v))
  {
    auto names = v.MemberNames();
    int kind = here ? r.N(4) : -1, which = r.N((int)names.size());
    if (here && kind == 3) return r.P(0.5) ? AnyValue(sup::dto::EmptyStruct()) : AnyValue((sup::dto::uint32)1);
    AnyValue s(sup::dto::EmptyStructType(v.GetTypeName()));
    for (std::size_t k = 0; k < names.size(); ++k)
    {
      if (kind == 0 && (int)k == which) continue;
      auto n = kind == 1 && (int)k == which ? (r.P(0.5) ? std::string("zz") : std::string("child_9")) : names[k];
      auto e = Edit(v[names[k]], at, r);
      if (!s.HasField(n)) s.AddMember(n, e);
    }
    auto extra = r.P(0.7) ? "zz" : "child_7";
    if (kind == 2 && !s.HasField(extra)) s.AddMember(extra, AnyValue(std::string("abc")));
    return s;
  }
  if (!here) return v;
  switch (r.N(5))
  {
  case 0: return AnyValue((sup::dto::uint64)1);
  case 1: return AnyValue(std::string(r.P(0.5) ? "" : "abc"));
  case 2: return AnyValue((sup::dto::uint32)r.N(5));
  case 3: return AnyValue(sup::dto::EmptyStruct());
  default: return AnyValue();
  }
}

// a node of the tree of instructions with another index or category, or one child more
int Nodes(const AnyValue& v)
{
  int n = v.HasField("category") ? 1 : 0;
  if (sup::dto::IsStructValue(v)) for (auto& m : v.MemberNames()) n += Nodes(v[m]);
  return n;
}
AnyValue EditNode(const AnyValue& v, int& at, int n, Rng& r)
{
  if (!sup::dto::IsStructValue(v)) return v;
  bool here = v.HasField("category") && at-- == 0;
  int kind = here ? r.N(3) : -1;
  AnyValue s(sup::dto::EmptyStructType(v.GetTypeName()));
  AnyValue leaf;
  for (auto& m : v.MemberNames())
  {
    if ((kind == 0 && m == "index") || (kind == 1 && m == "category")) s.AddMember(m, AnyValue((sup::dto::uint32)(kind == 0 ? r.N(n + 2) : r.N(4))));
    else s.AddMember(m, EditNode(v[m], at, n, r));
  }
  if (kind == 2)
  {
    AnyValue child(sup::dto::EmptyStructType(v.GetTypeName()));
    for (auto& m : v.MemberNames()) if (m != "children") child.AddMember(m, m == "index" ? AnyValue((sup::dto::uint32)(r.P(0.8) ? n : r.N(n))) : m == "category" ? AnyValue((sup::dto::uint32)0) : v[m]);
    AnyValue kids = s.HasField("children") ? s["children"] : AnyValue(sup::dto::EmptyStruct());
    if (!sup::dto::IsStructValue(kids)) return s;
    auto name = "child_" + std::to_string(kids.MemberNames().size());
    if (!kids.HasField(name)) kids.AddMember(name, child);
    AnyValue t(sup::dto::EmptyStructType(v.GetTypeName()));
    for (auto& m : s.MemberNames()) if (m != "children") t.AddMember(m, s[m]);
    t.AddMember("children", kids);
    return t;
  }
  return s;
}

void Preorder(const Instruction* i, std::vector<const Instruction*>& l)
{
  l.push_back(i);
  for (auto c : i->ChildInstructions()) Preorder(c, l);
}
void Info(Rng& r, const Procedure& p)
{
  auto& log = evlog();
  auto root = p.RootInstruction();
  InstructionMap map(root);
  auto info = utils::CreateJobInfo(p, map);
  if (r.P(0.3)) { JobInfo copy(info); info = copy; }
  if (r.P(0.2)) { JobInfo moved(std::move(info)); JobInfo other(moved); other = std::move(moved); info = other; }
  log.Add(Ev("info").Raw("d", InfoJ(info)));
  // who has which index
  JobMap jm(p);
  bool unready = false;
  try { jm.GetInstructionIndex(root); } catch (const InvalidOperationException&) { unready = true; }
  unready = unready && jm.GetNumberOfInstructions() == 0;
  jm.InitializeInstructionTree(root);
  std::vector<const Instruction*> pre;
  Preorder(root, pre);
  std::vector<long long> idx;
  auto ordered = jm.GetOrderedInstructions();
  bool ok = unready && ordered.size() == pre.size() && jm.GetNumberOfInstructions() == pre.size();
  for (auto i : pre)
  {
    idx.push_back(jm.GetInstructionIndex(i));
    ok = ok && idx.back() < (long long)ordered.size() && ordered[idx.back()] == i && map.FindInstructionIndex(i) == idx.back();
  }
  auto other = GlobalInstructionRegistry().Create("Succeed");
  try { jm.GetInstructionIndex(other.get()); ok = false; } catch (const InvalidOperationException&) {}
  std::vector<long long> vidx;
  for (auto& n : p.VariableNames()) vidx.push_back(jm.GetVariableIndex(n));
  try { jm.GetVariableIndex("nosuch"); ok = false; } catch (const InvalidOperationException&) {}
  ok = ok && jm.GetNumberOfVariables() == vidx.size();
  log.Add(Ev("map").L("idx", idx).L("vidx", vidx).B("ok", ok));
  if (!r.P(0.6)) return;
  auto wire = utils::ToAnyValue(info);
  log.Add(Ev("wire").Raw("v", J(Tokens(wire))));
  for (int n = r.N(4); n >= 0; --n)
  {
    AnyValue v = wire;
    for (int k = n == 0 ? 0 : r.R(1, 2); k > 0; --k)
    {
      int nodes = Nodes(v);
      if (nodes > 0 && r.P(0.6)) { int at = r.N(nodes); v = EditNode(v, at, nodes, r); continue; }
      int at = r.N(Count(v)); v = Edit(v, at, r); }
    bool good = true;
    std::string d = "{\"order\":true,\"name\":\"\",\"vars\":[],\"instr\":[]}";
    try
    {
      auto back = utils::ToJobInfo(v);
      d = InfoJ(back);
      bool same = back == info;
      if (n == 0 && !same) good = false;
    }
    catch (const InvalidOperationException&) { good = false; }
    bool tree = false;
    if (sup::dto::IsStructValue(v) && v.HasField("instr_tree_info"))
    {
      try { tree = utils::ToInstructionInfoTree(v["instr_tree_info"]) != nullptr; }
      catch (const InvalidOperationException&) {}
    }
    log.Add(Ev("unwire").Raw("v", J(Tokens(v))).B("ok", good).B("tree", tree).Raw("d", d));
  }
}

// One mistake, or change, in a document that is right otherwise.
void Collect(El& e, std::vector<El*>& l) { l.push_back(&e); for (auto& c : e.c) Collect(c, l); }
void Mistake(Rng& r, El& d)
{
  auto pick = [&](std::initializer_list<const char*> l) { return std::string(l.begin()[r.N((int)l.size())]); };
  auto put = [&](Attrs& a, const std::string& n, const std::string& v)
  {
    for (auto& x : a) if (x.first == n) { x.second = v; return; }
    a.emplace_back(n, v);
  };
  std::vector<El*> all;
  Collect(d, all);
  El& e = *all[r.N((int)all.size())];
  switch (r.N(6))
  {
  case 0: put(d.a, pick({"tickTimeout", "timingAccuracy"}), pick({"abc", "", "x1", "true"})); break;
  case 1:
    if (!e.a.empty())
    {
      auto& x = e.a[r.N((int)e.a.size())];
      x.second = pick({"abc", "", "-1", "1.5", "$p", "70000"});
      if ((e.t == "Local" || e.t == "File") && x.first == "name" && x.second == "1.5") x.second = "70000";   // not a name of a member
    }
    break;
  case 2: if (!e.a.empty()) e.a.erase(e.a.begin() + r.N((int)e.a.size())); break;
  case 3:
    if (!e.c.empty() && r.P(0.5)) e.c.erase(e.c.begin() + r.N((int)e.c.size()));
    else e.c.push_back(El{"Succeed", {}, "", {}});
    break;
  default:
    for (auto& c : d.c)
      if (IsInstruction(c)) { put(c.a, "isRoot", pick({"abc", "", "true", "false"})); if (r.P(0.7)) break; }
  }
}

struct Place { std::string path, dir; };
std::string Body(unsigned long long seed)
{
  Rng r(seed);
  auto& log = evlog();
  // where files are, and how they are named from the main one and from each other
  bool text = r.P(0.12);   // the main document is a text, not a file
  std::string main = text ? "" : "m/main.xml", dir = text ? "" : "m/";
  bool nest = r.P(0.5);    // inclusion mostly works
  static const double faults[] = {0.0, 0.0, 0.003, 0.01, 0.04};
  std::map<std::string, El> docs;
  auto doc = [&](const std::string& file, std::vector<std::string> refs, bool ismain)
  {
    Gen g{r};
    g.main = ismain;
    g.fault = nest ? (r.P(0.05) ? 0.003 : 0.0) : faults[r.N(5)];
    g.refs = std::move(refs);
    g.clean = nest;
    g.budget = ismain ? 14 : 7;
    if (nest) g.budget = ismain ? r.R(8, 24) : 10;
    docs[file] = g.Doc();
  };
  if (text) doc("", {"m/a.xml", "m/s/b.xml", "l.xml", "m/a.xml"}, true);
  else doc("m/main.xml", {"a.xml", "s/b.xml", "s/c.xml", "../l.xml", "main.xml"}, true);
  doc("m/a.xml", {"a.xml", "s/b.xml", "s/c.xml", "main.xml", "../l.xml"}, false);
  doc("m/s/b.xml", {"b.xml", "c.xml", "../../l.xml"}, false);
  doc("m/s/c.xml", {"c.xml", "../../l.xml", "c.xml"}, false);
  doc("l.xml", {"k.xml"}, false);
  doc("k.xml", {"k.xml"}, false);
  if (nest)
  {
    auto link = [&](const std::string& f, const std::vector<std::pair<std::string, std::string>>& refs)
    {
      auto& d = docs[f];
      for (int k = (int)d.c.size() - 1; k >= 0; --k) if (IsInstruction(d.c[k])) Link(r, d.c[k], d, k, docs, refs);
    };
    link("k.xml", {});
    link("l.xml", {{"k.xml", "k.xml"}});
    link("m/s/c.xml", {{"../../l.xml", "l.xml"}});
    link("m/s/b.xml", {{"c.xml", "m/s/c.xml"}, {"../../l.xml", "l.xml"}});
    link("m/a.xml", {{"s/b.xml", "m/s/b.xml"}, {"s/c.xml", "m/s/c.xml"}, {"../l.xml", "l.xml"}});
    if (text) link("", {{"m/a.xml", "m/a.xml"}, {"m/s/b.xml", "m/s/b.xml"}, {"l.xml", "l.xml"}});
    else link("m/main.xml", {{"a.xml", "m/a.xml"}, {"s/b.xml", "m/s/b.xml"}, {"../l.xml", "l.xml"}});
  }
  if (nest && r.P(0.35)) { auto it = docs.begin(); if (r.P(0.4)) std::advance(it, r.N((int)docs.size())); else it = docs.find(main); Mistake(r, it->second); }
  if (text) fs::remove("m/main.xml");
  bool wellformed = !r.P(0.01);
  for (auto& [f, d] : docs)
  {
    auto s = XmlDoc(d);
    if (f == main && !wellformed) s = s.substr(0, s.size() - 3 - r.N(20));
    if (!f.empty()) std::ofstream(f) << s;
  }
  std::map<std::string, std::string> tf;   // what files say as types
  Gen tg{r};
  tg.clean = nest;
  for (auto f : {"m/t.json", "m/s/t.json", "t.json"})
  {
    tf[f] = tg.TypeText();
    std::ofstream(f) << Real(tf[f]);
  }
  tf["m/bad.json"] = "T:bad";
  std::ofstream("m/bad.json") << Real("T:bad");
  std::ofstream("m/bad.xml") << "<Procedure><Succ";
  tf["m/../t.json"] = tf["m/s/../../t.json"] = tf["t.json"];
  std::string files = "{";
  auto file = [&](const std::string& path, const std::string& d, const std::string& key)
  {
    if (path == main) return;
    files += (files.size() > 1 ? "," : "") + Q(path) + ":{\"ok\":" + (key != main || wellformed ? "true" : "false") + ",\"dir\":" + Q(d) + ",\"x\":" + ElJ(docs[key]) + "}";
  };
  file("m/a.xml", "m/", "m/a.xml");
  file("m/s/b.xml", "m/s/", "m/s/b.xml");
  file("m/s/c.xml", "m/s/", "m/s/c.xml");
  for (auto d : {"", "m/../", "m/s/../../"})
    for (auto f : {"l.xml", "k.xml"}) file(std::string(d) + f, d, f);
  files += "}";
  std::string header = ",\"main\":" + Q(main) + ",\"dir\":" + Q(dir) + ",\"wf\":" + (wellformed ? "true" : "false") + ",\"x\":" + ElJ(docs[main]) + ",\"files\":" + files +
                       ",\"tfiles\":{";
  for (auto& [f, t] : tf) header += (header.back() == '{' ? "" : ",") + Q(f) + ":" + Q(t);
  header += "}";

  std::unique_ptr<Procedure> p;
  static const std::string nothing = R"({"a":[],"types":[],"plugins":[],"tops":[],"vars":[]})";
  try
  {
    auto s = XmlDoc(docs[main]);
    if (!wellformed) s = s.substr(0, s.size() / 2);
    p = text ? ParseProcedureString(s) : ParseProcedureFile(main);
  }
  catch (const std::exception&) {}
  log.Add(Ev("parse").B("ok", p != nullptr).Raw("p", p ? ProcJ(*p) : nothing));
  if (!p) return header;
  auto root = [&]
  {
    auto tops = p->GetTopInstructions();
    int at = 0;
    for (std::size_t k = 0; k < tops.size(); ++k) if (tops[k] == p->RootInstruction()) at = (int)k + 1;
    log.Add(Ev("root").I("at", at).I("n", p->GetInstructionCount()));
  };
  for (int n = r.P(0.3) ? r.R(1, 3) : 0; n > 0; --n)
  {
    int k = r.N(3);
    if (k == 0)
    {
      Gen g{r};
      g.main = true;
      g.refs = {"a.xml", "main.xml"};
      g.budget = 3;
      auto e = g.Node(1, true);
      int at = r.N(p->GetInstructionCount() + 2) - (r.P(0.1) ? 1 : 0);
      bool push = r.P(0.3), ok = true;
      if (push) { p->PushInstruction(Build(e)); at = p->GetInstructionCount() - 1; } else ok = p->InsertInstruction(Build(e), at);
      log.Add(Ev("insert").Raw("e", ElJ(e)).I("at", at).B("ok", ok));
    }
    else if (k == 1)
    {
      int at = r.N(p->GetInstructionCount() + 1) - (r.P(0.1) ? 1 : 0);
      auto i = p->TakeInstruction(at);
      log.Add(Ev("take").I("at", at).B("ok", i != nullptr).Raw("n", i ? InstrJ(i.get()) : R"({"t":"","a":[],"c":[]})"));
    }
    else
    {
      std::string name = r.P(0.5) ? "n1" : r.P(0.5) ? "v" : "n2";
      auto v = GlobalVariableRegistry().Create("Local");
      if (r.P(0.3)) v->SetName(r.P(0.5) ? name : "other");
      if (r.P(0.7)) v->AddAttribute("type", Real("T:int"));
      auto a = AttrsJ(v->GetStringAttributes());
      bool ok = true;
      try { ok = p->AddVariable(name, std::move(v)); } catch (const InvalidOperationException&) { ok = false; }
      log.Add(Ev("addvar").S("n", name).S("t", "Local").Raw("a", a).B("ok", ok));
    }
    if (r.P(0.5)) root();
  }
  root();
  auto write = [&]
  {
    std::string back = nothing;
    bool ok = true;
    try { back = ProcJ(*ParseProcedureString(GetXMLString(*p))); } catch (const std::exception&) { ok = false; }
    log.Add(Ev("write").Raw("x", TreeJ(*ToTreeData(*p))).B("ok", ok).Raw("p", back));
  };
  if (r.P(0.5)) write();
  bool ok = true;
  try { p->Setup(); } catch (const std::exception& e) { ok = false; if (std::getenv("DOC_WHY")) std::cerr << nest << " " << e.what() << std::endl; }
  log.Add(Ev("setup").B("ok", ok).Raw("n", ok ? InstrJ(p->RootInstruction()) : R"({"t":"","a":[],"c":[]})"));
  if (!ok) return header;
  Info(r, *p);
  if (r.P(0.2))
  {
    DefaultUserInterface ui;
    bool reset = true;
    try { p->Reset(ui); } catch (const std::exception&) { reset = false; }   // files whose variables are wrong
    if (reset) Info(r, *p);
  }
  if (r.P(0.1)) write();
  return header;
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  std::string dir = "/tmp/docXXXXXX";
  if (!::mkdtemp(dir.data())) return 3;
  auto old = fs::current_path();
  fs::current_path(dir);
  fs::create_directories("m/s");
  auto one = [&](unsigned long long seed)
  {
    auto text = std::to_string(seed);
    out.Current(text);
    evlog().ev.clear();
    std::string header = R"(,"main":"","dir":"","wf":true,"x":{"t":"","a":[],"x":"","c":[]},"files":{},"tfiles":{})";
    try { header = Body(seed); evlog().Add(Ev("end")); }
    catch (const std::exception& e) { evlog().ev.push_back(Ev("abnormal").S("what", "exception").S("detail", e.what()).Str()); }
    out.Trace(text, "", header);
  };
  if (a.Has("prog")) one(std::strtoull(a.Str("prog").c_str(), nullptr, 10));
  else
  {
    Deadline dl(a.Int("seconds", 5));
    Rng rng(a.Int("seed", 1));
    while (!dl.Over() && out.Count() < a.Int("traces", 2000)) one(rng.Next() >> 16);
  }
  out.Stats();
  fs::current_path(old);
  for (auto f : {"m/main.xml", "m/a.xml", "m/s/b.xml", "m/s/c.xml", "l.xml", "k.xml", "m/t.json", "m/s/t.json", "t.json", "m/bad.json", "m/bad.xml"}) fs::remove(dir + "/" + f);
  fs::remove(dir + "/m/s"); fs::remove(dir + "/m"); fs::remove(dir);
}
