// Generation of instruction trees and the objects of the real code that correspond to them.
#ifndef VERIF_TREELIB_H_
#define VERIF_TREELIB_H_

#include "drv.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <atomic>
#include <memory>
#include <mutex>
#include <thread>

namespace tl
{
using namespace drv;
using namespace sup::oac_tree;

inline const char* St(ExecutionStatus s)
{
  switch (s)
  {
  case ExecutionStatus::NOT_STARTED: return "NS";
  case ExecutionStatus::NOT_FINISHED: return "NF";
  case ExecutionStatus::RUNNING: return "RU";
  case ExecutionStatus::SUCCESS: return "SU";
  case ExecutionStatus::FAILURE: return "FA";
  }
  return "??";
}

// A value of a workspace variable: kind i (number), a (array of numbers), b (truth value), s (text)
struct Val
{
  char ty = 'i';
  std::vector<int> x;
  std::string Json() const
  {
    std::string r = std::string("{\"ty\":\"") + ty + "\",\"x\":[";
    for (std::size_t i = 0; i < x.size(); ++i) r += (i ? "," : "") + std::to_string(x[i]);
    return r + "]}";
  }
  std::string TypeText() const
  {
    switch (ty)
    {
    case 'a': return R"({"type":"","element":{"type":"int32"}})";
    case 'b': return R"({"type":"bool"})";
    case 's': return R"({"type":"string"})";
    }
    return R"({"type":"int32"})";
  }
  std::string ValueText() const
  {
    if (ty == 's') return "\"text" + (x.empty() ? "" : std::to_string(x[0])) + "\"";
    if (ty == 'b') return x[0] ? "true" : "false";
    if (ty == 'i') return std::to_string(x[0]);
    std::string r = "[";
    for (std::size_t i = 0; i < x.size(); ++i) r += (i ? "," : "") + std::to_string(x[i]);
    return r + "]";
  }
  sup::dto::AnyValue Any() const
  {
    switch (ty)
    {
    case 'b': return sup::dto::AnyValue{(bool)x[0]};
    case 's': return sup::dto::AnyValue{"text" + (x.empty() ? "" : std::to_string(x[0]))};
    case 'i': return sup::dto::AnyValue{(sup::dto::int32)x[0]};
    }
    sup::dto::AnyValue v(x.size(), sup::dto::SignedInteger32Type);
    for (std::size_t i = 0; i < x.size(); ++i) v[i] = (sup::dto::int32)x[i];
    return v;
  }
};

// A node of a tree, as the specification sees it.
struct Node
{
  std::string t;               // type
  std::vector<int> c;          // children (numbers from 1, preorder)
  int z = 1;                   // size of the subtree
  int m = 0;                   // Rep: count
  std::string v, ev, av, fv;   // variables: Rep and Choice, For element, For array, Listen force success
  std::vector<std::string> vs; // Listen
  bool fs = false;             // Listen
  int sth = -1, fth = -1;      // Par
  std::string script, init;    // Leaf
  bool permanent = false;      // Leaf: the script goes on after a reset
  std::string wvar;            // Leaf: writes this variable
  double wait = 0;             // Wait
  std::string name;            // name and text of attribute `text` (descriptions)
  std::string Json() const
  {
    Ev e("x");
    std::string s = "{\"t\":" + Q(t) + ",\"z\":" + std::to_string(z) + ",\"c\":[";
    for (std::size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + std::to_string(c[i]);
    s += "]";
    if (t == "Rep") s += ",\"m\":" + std::to_string(m) + ",\"v\":" + Q(v);
    if (t == "Choice") s += ",\"v\":" + Q(v);
    if (t == "For") s += ",\"av\":" + Q(av) + ",\"ev\":" + Q(ev);
    if (t == "Par") s += ",\"sth\":" + std::to_string(sth) + ",\"fth\":" + std::to_string(fth);
    if (t == "Lis")
    {
      s += ",\"fs\":" + std::string(fs ? "true" : "false") + ",\"fv\":" + Q(fv) + ",\"vs\":[";
      for (std::size_t i = 0; i < vs.size(); ++i) s += (i ? "," : "") + Q(vs[i]);
      s += "]";
    }
    if (t == "Leaf") s += ",\"script\":" + Q(script);
    return s + "}";
  }
};

struct Tree
{
  std::vector<Node> n;  // n[0] is node 1
  std::map<std::string, Val> vars;
  Node& At(int i) { return n[i - 1]; }
  const Node& At(int i) const { return n[i - 1]; }
  std::string Json() const
  {
    std::string s = "[";
    for (std::size_t i = 0; i < n.size(); ++i) s += (i ? "," : "") + n[i].Json();
    return s + "]";
  }
  std::string VarsJson() const
  {
    if (vars.empty()) return "{\"_\":{\"ty\":\"s\",\"x\":[]}}";
    std::string s = "{";
    for (auto& [k, v] : vars) s += (s.size() > 1 ? "," : "") + Q(k) + ":" + v.Json();
    return s + "}";
  }
  bool Has(const std::string& t) const
  {
    for (auto& x : n) if (x.t == t) return true;
    return false;
  }
  bool Threads() const { return Has("Async") || Has("Par"); }
};

// ---------------------------------------------------------------- generation
struct GenOpts
{
  std::map<std::string, int> weight;       // inner node types
  std::vector<std::string> root;           // types of the root, empty: any
  int max_nodes = 7, max_depth = 3, max_kids = 3;
  std::string outcomes = "ssssffrnrn";
  int script_max = 3;
  double init_fail = 0.06, permanent = 0.3;
  bool block = false;                      // leaves may block until halted
};

struct Gen
{
  Rng& r;
  const GenOpts& o;
  Tree t;
  int nvars = 0;
  Gen(Rng& rng, const GenOpts& opts) : r(rng), o(opts) {}

  std::string PickType()
  {
    int sum = 0;
    for (auto& [k, w] : o.weight) sum += w;
    int x = r.N(sum);
    for (auto& [k, w] : o.weight)
    {
      if (x < w) return k;
      x -= w;
    }
    return "Leaf";
  }
  std::string Script()
  {
    std::string s;
    int n = r.R(1, o.script_max);
    for (int i = 0; i < n; ++i) s += o.outcomes[r.N((int)o.outcomes.size())];
    return s;
  }
  std::string NewVar(const Val& v)
  {
    std::string name = std::string(1, (char)('a' + nvars++ % 26)) + (nvars > 26 ? "x" : "");
    t.vars[name] = v;
    return name;
  }
  std::string SomeVar(const Val& v)
  {
    if (r.P(0.04)) return "missing";
    if (r.P(0.08)) return NewVar({"sa"[r.N(2)], {r.N(2)}});
    return NewVar(v);
  }
  int Add(int depth, int budget, const std::string& type)
  {
    int id = (int)t.n.size() + 1;
    t.n.emplace_back();
    t.n.back().t = type;
    auto kids = [&](int n)
    {
      int left = budget - 1;
      for (int i = 0; i < n; ++i)
      {
        int b = std::max(1, (left - (n - 1 - i)) / std::max(1, n - i) + (r.P(0.5) ? 1 : 0));
        std::string k = "Leaf";
        if (depth < o.max_depth && b >= 2 && r.P(0.6)) k = PickType();
        int c = Add(depth + 1, b, k);
        t.At(id).c.push_back(c);
        t.At(id).z += t.At(c).z;
        left -= t.At(c).z;
      }
    };
    if (type == "Leaf")
    {
      auto& n = t.At(id);
      n.script = Script();
      n.permanent = r.P(o.permanent);
      if (r.P(o.init_fail)) n.init = r.P(0.5) ? "f" : "sf";
      return id;
    }
    bool compound = type == "Seq" || type == "Fb" || type == "RSeq" || type == "RFb" || type == "Par" || type == "Choice";
    kids(compound ? r.R(1, std::max(1, std::min(o.max_kids, budget - 1))) : 1);
    int k = (int)t.At(id).c.size();
    if (type == "Rep")
    {
      int m = r.P(0.15) ? -r.R(1, 3) : r.R(0, 3);
      if (r.P(0.3)) t.At(id).v = SomeVar({'i', {m}});
      else t.At(id).m = m;
    }
    else if (type == "For")
    {
      Val a{'a', {}};
      int n = r.R(0, 3);
      for (int i = 0; i < n; ++i) a.x.push_back(r.N(9));
      auto v1 = SomeVar(a);
      auto v2 = SomeVar({'i', {0}});
      t.At(id).av = v1;
      t.At(id).ev = v2;
    }
    else if (type == "Choice")
    {
      Val v;
      if (r.P(0.4)) v = {'i', {r.N(k + (r.P(0.2) ? 2 : 0))}};
      else
      {
        v.ty = 'a';
        int n = r.R(0, 4);
        for (int i = 0; i < n; ++i) v.x.push_back(r.N(k + (r.P(0.06) ? 2 : 0)));
      }
      auto name = SomeVar(v);
      if (t.vars.count(name) && t.vars[name].ty == 'b') t.vars[name].ty = 's';
      t.At(id).v = name;
    }
    else if (type == "Par")
    {
      if (r.P(0.4)) t.At(id).sth = r.R(0, k + 1);
      if (r.P(0.4)) t.At(id).fth = r.R(0, k + 1);
    }
    else if (type == "Lis")
    {
      int n = r.R(1, 2);
      std::vector<std::string> vs;
      for (int i = 0; i < n; ++i) vs.push_back(r.P(0.1) ? "missing" : NewVar({'i', {0}}));
      t.At(id).vs = vs;
      t.At(id).fs = r.P(0.4);
      if (r.P(0.15)) t.At(id).fv = NewVar({'b', {r.N(2)}});
    }
    return id;
  }
  Tree Make()
  {
    std::string root = o.root.empty() ? PickType() : o.root[r.N((int)o.root.size())];
    Add(1, r.R(2, o.max_nodes), root);
    return t;
  }
};

// ---------------------------------------------------------------- the real objects
// Executes its script: s success, f failure, r running, n not finished, w: 30 ms and success,
// v: 30 ms and failure, h: until it is halted, then failure.
class Leaf : public Instruction
{
public:
  static const std::string Type;
  Leaf() : Instruction(Type)
  {
    AddAttributeDefinition("script");
    AddAttributeDefinition("init");
    AddAttributeDefinition("id", sup::dto::SignedInteger32Type);
    AddAttributeDefinition("permanent", sup::dto::BooleanType);
    AddAttributeDefinition("wvar");
  }
  ~Leaf() override = default;
private:
  int m_pos = 0, m_inits = 0, m_id = 0;
  std::string m_script, m_init, m_wvar;
  bool m_permanent = false;
  void SetupImpl(const Procedure&) override
  {
    m_script = GetAttributeString("script");
    m_init = GetAttributeString("init");
    m_wvar = GetAttributeString("wvar");
    m_id = std::atoi(GetAttributeString("id").c_str());
    m_permanent = GetAttributeString("permanent") == "true";
  }
  bool InitHook(UserInterface&, Workspace&) override
  {
    sched::NoMem nm;
    if (!m_permanent) m_pos = 0;
    bool ok = m_init.empty() || m_init[m_inits % m_init.size()] != 'f';
    ++m_inits;
    return ok;
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override;
};
inline const std::string Leaf::Type = "VerifLeaf";

// what leaves and user interfaces report to
struct Sink
{
  std::mutex mtx;   // several threads only outside of the scheduler
  std::map<const Instruction*, int> idx;
  int Index(const Instruction* i)
  {
    auto it = idx.find(i);
    return it == idx.end() ? 0 : it->second;
  }
};
inline std::shared_ptr<Sink>& CurSink() { static std::shared_ptr<Sink> s; return s; }

inline int& LeafTime() { static int ms = 0; return ms; }   // time that every second leaf takes

inline ExecutionStatus Leaf::ExecuteSingleImpl(UserInterface&, Workspace& ws)
{
  char c;
  {
    sched::NoMem nm;
    c = m_script[m_pos % m_script.size()];
    ++m_pos;
    evlog().Add(Ev("b").I("n", m_id));
  }
  sched::Yield();
  if (LeafTime() > 0 && m_pos % 2 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(LeafTime()));
  if (!m_wvar.empty())
  {
    int x = m_id * 10 + m_pos % 10;
    evlog().Add(Ev("w").I("n", m_id).S("v", m_wvar).I("x", x));
    ws.SetValue(m_wvar, sup::dto::AnyValue{(sup::dto::int32)x});
  }
  ExecutionStatus r = ExecutionStatus::SUCCESS;
  const char* o = nullptr;
  switch (c)
  {
  case 's': break;
  case 'f': r = ExecutionStatus::FAILURE; break;
  case 'r': r = ExecutionStatus::RUNNING; break;
  case 'n': r = ExecutionStatus::NOT_FINISHED; break;
  case 'w': std::this_thread::sleep_for(std::chrono::milliseconds(30)); break;
  case 'v': std::this_thread::sleep_for(std::chrono::milliseconds(30)); r = ExecutionStatus::FAILURE; break;
  case 'h':
    for (int i = 0;; ++i)
    {
      if (IsHaltRequested()) { o = "HA"; break; }   // saw the request
      if (i > 60) { o = "NH"; break; }              // gave up
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
    }
    r = ExecutionStatus::FAILURE;
    break;
  }
  sched::NoMem nm;
  evlog().Add(Ev("e").I("n", m_id).S("o", o ? o : St(r)));
  return r;
}

// Reports status changes; everything else of the default interface.
class Ui : public DefaultUserInterface
{
public:
  void UpdateInstructionStatus(const Instruction* i) override
  {
    auto s = i->GetStatus();
    sched::NoMem nm;
    evlog().Add(Ev("st").I("n", CurSink()->Index(i)).S("s", St(s)));
  }
};

inline void Attr(Instruction& i, const std::string& n, const std::string& v) { i.AddAttribute(n, v); }

inline std::unique_ptr<Instruction> BuildNode(const Tree& t, int id, std::vector<std::unique_ptr<Instruction>>& tops)
{
  static const std::map<std::string, std::string> names = {
    {"Seq", "Sequence"}, {"Fb", "Fallback"}, {"RSeq", "ReactiveSequence"}, {"RFb", "ReactiveFallback"},
    {"Par", "ParallelSequence"}, {"Choice", "Choice"}, {"Inv", "Inverter"}, {"FS", "ForceSuccess"}, {"Rep", "Repeat"},
    {"For", "For"}, {"Lis", "Listen"}, {"Async", "Async"}, {"Inc", "Include"}, {"Leaf", "VerifLeaf"}};
  auto& n = t.At(id);
  auto i = GlobalInstructionRegistry().Create(names.at(n.t));
  if (n.t == "Leaf")
  {
    Attr(*i, "script", n.script);
    if (!n.init.empty()) Attr(*i, "init", n.init);
    Attr(*i, "id", std::to_string(id));
    if (n.permanent) Attr(*i, "permanent", "true");
    if (!n.wvar.empty()) Attr(*i, "wvar", n.wvar);
  }
  else if (n.t == "Rep") { Attr(*i, "maxCount", n.v.empty() ? std::to_string(n.m) : "@" + n.v); }
  else if (n.t == "For") { Attr(*i, "arrayVar", n.av); Attr(*i, "elementVar", n.ev); }
  else if (n.t == "Choice") Attr(*i, "varName", n.v);
  else if (n.t == "Par")
  {
    if (n.sth >= 0) Attr(*i, "successThreshold", std::to_string(n.sth));
    if (n.fth >= 0) Attr(*i, "failureThreshold", std::to_string(n.fth));
  }
  else if (n.t == "Lis")
  {
    std::string vs;
    for (auto& v : n.vs) vs += (vs.empty() ? "" : ",") + v;
    Attr(*i, "varNames", vs);
    if (!n.fv.empty()) Attr(*i, "forceSuccess", "@" + n.fv);
    else if (n.fs) Attr(*i, "forceSuccess", "true");
  }
  if (n.t == "Inc")
  {
    auto kid = BuildNode(t, n.c[0], tops);
    std::string name = "inc" + std::to_string(id);
    kid->SetName(name);
    tops.push_back(std::move(kid));
    Attr(*i, "path", name);
    return i;
  }
  for (auto c : n.c)
    if (!AppendChildInstruction(*i, BuildNode(t, c, tops))) std::abort();
  return i;
}

inline void MapNodes(const Instruction* i, std::map<const Instruction*, int>& m)
{
  int id = (int)m.size() + 1;
  m[i] = id;
  for (auto c : i->ChildInstructions()) MapNodes(c, m);
}

// names: the order in which the variables are added
inline void BuildVars(const Tree& t, Procedure& p, std::vector<std::string> names = {})
{
  if (names.empty()) for (auto& [k, v] : t.vars) { (void)v; names.push_back(k); }
  for (auto& k : names)
  {
    auto& v = t.vars.at(k);
    auto var = GlobalVariableRegistry().Create("Local");
    var->AddAttribute("name", k);
    var->AddAttribute("type", v.TypeText());
    var->AddAttribute("value", v.ValueText());
    p.AddVariable(k, std::move(var));
  }
}

// The procedure of a tree; its nodes are known to the sink after Setup.
inline std::unique_ptr<Procedure> Build(const Tree& t, const std::vector<std::string>& names = {})
{
  static bool registered = RegisterGlobalInstruction<Leaf>();
  (void)registered;
  auto p = std::make_unique<Procedure>("");
  BuildVars(t, *p, names);
  std::vector<std::unique_ptr<Instruction>> tops;
  auto root = BuildNode(t, 1, tops);
  Attr(*root, "isRoot", "true");
  p->PushInstruction(std::move(root));
  for (auto& x : tops) p->PushInstruction(std::move(x));
  return p;
}
}  // namespace tl

#endif
