// Uses the real workspace and variables from several threads: life cycle, values, waiting.
#include "vallib.h"

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <atomic>
#include <memory>
#include <mutex>
#include <thread>

using namespace vl;
using namespace sup::oac_tree;

namespace
{
thread_local int tls_th = 0;
std::uint64_t t0 = 0;
Ev E(const char* k) { return std::move(Ev(k).I("th", tls_th)); }
void Add(Ev e)
{
  sched::NoMem nm;
  evlog().Add(e.I("t", (long long)((sched::Now() - t0) / 1000)));
}

// A variable of which the driver switches the availability, with actions of its own.
class TestVar : public Variable
{
public:
  static const std::string Type;
  TestVar() : Variable(Type) {}
  std::string id;
  bool hs = false, ht = false, bad = false;
  AnyValue val;
  void Switch(bool b)
  {
    AnyValue v;
    {
      std::lock_guard<std::mutex> s(sm);
      std::lock_guard<std::mutex> lk(m);
      av = b;
      v = val;
      Add(E("sw").S("name", GetName()).B("b", b));
    }
    Notify(v, b);
  }
private:
  mutable std::mutex m;
  std::mutex sm;
  bool av = false;
  bool GetValueImpl(AnyValue& v) const override
  {
    std::lock_guard<std::mutex> lk(m);
    if (!av) return false;
    v = val;
    return true;
  }
  bool SetValueImpl(const AnyValue& v) override
  {
    std::lock_guard<std::mutex> s(sm);  // no switch between a write and its notification
    {
      std::lock_guard<std::mutex> lk(m);
      if (!av) return false;
      val = v;
    }
    Notify(v, true);
    return true;
  }
  bool IsAvailableImpl() const override
  {
    std::lock_guard<std::mutex> lk(m);
    return av;
  }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    Add(E("vs").S("name", GetName()));
    if (bad) throw VariableSetupException("asked to fail");
    SetupTeardownActions a;
    a.m_identifier = id;
    auto i = id;
    if (hs) a.m_setup = [i] { Add(E("sa").S("id", i)); };
    if (ht) a.m_teardown = [i] { Add(E("ta").S("id", i)); };
    return a;
  }
  void TeardownImpl() override { Add(E("vt").S("name", GetName())); }
};
const std::string TestVar::Type = "Test";

struct VarDef
{
  std::string name, kind;
  bool dyn = false, bad = false, hs = false, ht = false;
  std::string id;
  AnyType type;      // empty: no type attribute
  AnyValue init;
};
struct Op
{
  std::string op, name;
  Path path;
  AnyValue v;
  bool b = false;
  int T = 0, inst = 0;
};
Op Simple(const char* op, int inst = 0) { Op o; o.op = op; o.inst = inst; return o; }
struct InstDef
{
  std::string name, other, vtype;
  int T = 0;
  std::string timeout;  // attribute
  std::unique_ptr<Instruction> instr;
};
struct Phase
{
  std::vector<std::vector<Op>> threads;  // concurrent with each other; [0] is executed by the main thread
};
struct Prog
{
  std::vector<VarDef> vars;
  std::vector<InstDef> insts;
  std::vector<Phase> phases;
  bool early = false;
};

class Ui : public DefaultUserInterface {};

struct World
{
  std::unique_ptr<Workspace> ws;
  std::map<std::string, TestVar*> test;
  Ui ui;
};

Ev CallEv(const char* k, const Op& o)
{
  return std::move(E(k).S("op", o.op).S("name", o.name).Raw("path", o.path.steps.empty() ? "[]" : o.path.steps).Raw("v", J(o.v))
                     .B("b", o.b).I("T", o.T).I("inst", o.inst));
}
void Ret(const Op& o, bool ok, const AnyValue& v = {}) { Add(E("ret").S("op", o.op).B("ok", ok).Raw("v", J(v))); }
const char* St(ExecutionStatus s)
{
  switch (s)
  {
  case ExecutionStatus::NOT_STARTED: return "NS";
  case ExecutionStatus::NOT_FINISHED: return "NF";
  case ExecutionStatus::RUNNING: return "RU";
  case ExecutionStatus::SUCCESS: return "SU";
  case ExecutionStatus::FAILURE: return "FA";
  }
  return "??";
}

void AddVar(World& w, const VarDef& d)
{
  std::unique_ptr<Variable> v;
  if (d.kind == "Test")
  {
    auto t = std::make_unique<TestVar>();
    t->id = d.id; t->hs = d.hs; t->ht = d.ht; t->bad = d.bad; t->val = d.init;
    if (!w.test.count(d.name)) w.test[d.name] = t.get();
    v = std::move(t);
  }
  else
  {
    v = GlobalVariableRegistry().Create("Local");
    if (!sup::dto::IsEmptyType(d.type))
    {
      v->AddAttribute("type", sup::dto::AnyTypeToJSONString(d.type));
      v->AddAttribute("value", sup::dto::ValuesToJSONString(d.init));
    }
    if (d.dyn) v->AddAttribute("dynamicType", "true");
  }
  v->SetName(d.name);
  bool ok = true;
  try { w.ws->AddVariable(d.name, std::move(v)); } catch (const std::exception&) { ok = false; }
  Add(E("add").S("name", d.name).S("kind", d.kind).B("dyn", d.dyn).Raw("init", J(d.init)).S("id", d.id).B("hs", d.hs).B("ht", d.ht)
        .B("bad", d.bad).B("ok", ok));
}

void Exec(World& w, Prog& p, const Op& o)
{
  auto full = o.name + o.path.text;
  if (o.op == "names") { auto l = w.ws->VariableNames(); Add(E("names").L("l", l)); return; }
  if (o.op == "isset") { Add(E("isset").B("b", w.ws->IsSuccessfullySetup())); return; }
  if (o.op == "add") { AddVar(w, p.vars[o.inst]); return; }
  if (o.op == "inst")
  {
    auto& d = p.insts[o.inst - 1];
    d.instr = GlobalInstructionRegistry().Create(d.vtype.empty() ? "WaitForVariable" : "WaitForVariables");
    if (!d.vtype.empty()) d.instr->AddAttribute("varType", d.vtype);
    else d.instr->AddAttribute("varName", d.name);
    if (!d.other.empty()) d.instr->AddAttribute("equalsVar", d.other);
    d.instr->AddAttribute("timeout", d.timeout);
    Procedure proc;
    d.instr->Setup(proc);
    Add(E("inst").S("name", d.name).S("other", d.other).S("vtype", d.vtype).I("T", d.T));
    return;
  }
  if (o.op == "sleep") { std::this_thread::sleep_for(std::chrono::milliseconds(o.T)); return; }
  if (o.op == "avail" && !w.test.count(o.name)) return;
  if (o.op == "run")   // executes a waiting instruction until it has finished
  {
    auto& i = *p.insts[o.inst - 1].instr;
    Op t = o;
    t.op = "tick";
    for (int k = 0; k < 60; ++k)
    {
      Add(CallEv("call", t));
      i.ExecuteSingle(w.ui, *w.ws);
      auto st = i.GetStatus();
      Add(E("ret").S("op", "tick").S("st", St(st)));
      if (st == ExecutionStatus::SUCCESS || st == ExecutionStatus::FAILURE) break;
      if (i.IsHaltRequested()) break;
      std::this_thread::sleep_for(std::chrono::milliseconds(o.T));
    }
    return;
  }
  Add(CallEv("call", o));
  if (o.op == "setup")
  {
    bool ok = true;
    try { w.ws->Setup(); } catch (const std::exception&) { ok = false; }
    Ret(o, ok);
  }
  else if (o.op == "teardown") { w.ws->Teardown(); Ret(o, true); }
  else if (o.op == "destroy") { w.ws.reset(); Ret(o, true); }
  else if (o.op == "get") { AnyValue v(o.v); bool ok = w.ws->GetValue(full, v); Ret(o, ok, v); }
  else if (o.op == "set") { bool ok = w.ws->SetValue(full, o.v); Ret(o, ok); }
  else if (o.op == "avl") { auto v = w.ws->GetVariable(o.name); Ret(o, v && v->IsAvailable()); }
  else if (o.op == "reset") { Ret(o, w.ws->ResetVariable(o.name)); }
  else if (o.op == "avail") { w.test[o.name]->Switch(o.b); Ret(o, true); }
  else if (o.op == "wait") { Ret(o, w.ws->WaitForVariable(o.name, o.T * 1e-6, o.b)); }
  else if (o.op == "irst") { p.insts[o.inst - 1].instr->Reset(w.ui); Ret(o, true); }
  else if (o.op == "halt") { p.insts[o.inst - 1].instr->Halt(); Ret(o, true); }
}

void Body(Prog& p)
{
  World w;
  tls_th = 0;
  t0 = sched::Now();
  w.ws = std::make_unique<Workspace>();
  w.ws->RegisterGenericCallback([](const std::string& name, const AnyValue& v, bool c)
                                { Add(E("n").S("name", name).Raw("v", J(v)).B("c", c)); });
  for (auto& ph : p.phases)
  {
    std::vector<std::thread> ts;
    for (std::size_t i = 1; i < ph.threads.size(); ++i)
      ts.emplace_back([&, i] { tls_th = (int)i; for (auto& o : ph.threads[i]) Exec(w, p, o); });
    for (auto& o : ph.threads[0]) Exec(w, p, o);
    for (auto& t : ts) t.join();
  }
  if (w.ws) Exec(w, p, Simple("destroy"));
  Add(E("end"));
  p.insts.clear();
}

// ---------------------------------------------------------------- programs
VarDef RandomVar(Rng& r, const std::string& name, bool test)
{
  VarDef d;
  d.name = name;
  if (test)
  {
    d.kind = "Test";
    d.init = RandomValue(r, RandomType(r, 1));
    static const char* const ids[] = {"", "p", "q", "p"};
    d.id = ids[r.N(4)];
    // all variables of a class have the same actions
    // (variables with the same identifier need not have the same actions)
    d.hs = r.P(0.6);
    d.ht = r.P(0.6);
    return d;
  }
  d.kind = "Local";
  d.dyn = r.P(0.2);
  if (r.P(0.9))
  {
    d.type = RandomType(r);
    d.init = RandomValue(r, d.type);
  }
  return d;
}

Op RandomOp(Rng& r, const std::vector<VarDef>& vars, const char* const* kinds, int nk)
{
  Op o;
  o.op = kinds[r.N(nk)];
  const VarDef& d = vars[r.N((int)vars.size())];
  o.name = r.P(0.03) ? "nosuch" : d.name;
  auto type = sup::dto::IsEmptyType(d.type) && !sup::dto::IsEmptyValue(d.init) ? d.init.GetType() : d.type;
  if ((o.op == "get" || o.op == "set") && r.P(0.4)) o.path = RandomPath(r, type);
  if (o.op == "set")
  {
    AnyType t = type;
    if (o.path.text.size() && !sup::dto::IsEmptyType(type))
    {
      AnyValue dflt(type);
      auto f = o.path.text[0] == '.' ? o.path.text.substr(1) : o.path.text;
      if (dflt.HasField(f)) t = dflt[f].GetType();
    }
    if (r.P(0.03)) o.v = AnyValue{};
    else o.v = RandomValue(r, sup::dto::IsEmptyType(t) ? RandomType(r, 1) : Similar(r, t));
  }
  if (o.op == "get" && r.P(0.3)) o.v = RandomValue(r, r.P(0.7) && !sup::dto::IsEmptyType(type) ? Similar(r, type) : RandomType(r, 1));
  if (o.op == "avail") o.b = r.P(0.6);
  if (o.op == "wait") { o.b = r.P(0.7); o.T = r.P(0.1) ? 0 : 1000 * r.R(1, 60); }
  if (o.op == "sleep") o.T = r.R(1, 30);
  return o;
}

Prog Make(const std::string& mode, std::uint64_t seed)
{
  Rng r(seed);
  Prog p;
  auto phase = [&](std::initializer_list<Op> l) { Phase f; f.threads.push_back(l); p.phases.push_back(f); };
  int nv = r.R(1, mode == "c19" ? 2 : 4);
  static const char* const vn[] = {"v", "a", "z", "m"};
  for (int i = 0; i < nv; ++i) p.vars.push_back(RandomVar(r, vn[i], mode == "c19" ? r.P(0.1) : r.P(0.5)));
  for (auto& d : p.vars) if (d.kind == "Test" && d.id.empty()) d.hs = d.ht = false;
  int nadd = 0;
  auto addall = [&] { for (; nadd < (int)p.vars.size(); ++nadd) phase({Simple("add", nadd)}); };
  auto workers = [&](const char* const* kinds, int nk, int threads, int lo, int hi, std::vector<Op> mainops = {})
  {
    Phase f;
    f.threads.push_back(mainops);
    for (int t = 0; t < threads; ++t)
    {
      f.threads.emplace_back();
      for (int i = r.R(lo, hi); i > 0; --i) f.threads.back().push_back(RandomOp(r, p.vars, kinds, nk));
    }
    p.phases.push_back(f);
  };
  if (mode == "c19")
  {
    static const char* const k[] = {"get", "set", "set", "get", "set", "avl", "reset", "avail"};
    static const char* const k0[] = {"get", "set", "avl"};
    addall();
    if (r.P(0.2)) workers(k0, 3, 1, 1, 2);
    bool conc = r.P(0.25);
    if (conc)   // access while the workspace is being set up and torn down
    {
      workers(k0, 3, 2, 2, 5, {Simple("setup")});
      workers(k0, 3, 2, 2, 5, {Simple("teardown")});
      if (r.P(0.5)) workers(k0, 3, 2, 2, 5, {Simple("setup"), Simple("teardown"), Simple("setup")});
    }
    else
    {
      phase({Simple("setup")});
      workers(k, r.P(0.5) ? 5 : 8, r.R(1, 4), 2, 8);
      if (r.P(0.5)) { phase({Simple("teardown")}); workers(k0, 3, 1, 1, 3); }
    }
  }
  else if (mode == "c20")
  {
    static const char* const k[] = {"get", "set", "avl"};
    static const char* const kr[] = {"get", "set", "avl", "reset", "avail"};
    int setup = 0;
    int steps = r.R(4, 14);
    bool bad = r.P(0.15);
    if (bad) { for (auto& d : p.vars) if (d.kind == "Test" && r.P(0.5)) d.bad = true; }
    bad = false;
    for (auto& d : p.vars) bad |= d.bad;
    int first = r.R(0, nv);
    for (; nadd < first; ++nadd) phase({Simple("add", nadd)});
    for (int i = 0; i < steps; ++i)
    {
      int c = r.N(10);
      if (c < 2 && nadd < nv) { phase({Simple("add", nadd)}); ++nadd; }
      else if (c == 2 && nadd > 0) phase({Simple("add", r.N(nadd))});
      else if (c == 3) phase({Simple("names")});
      else if (c == 4) phase({Simple("isset")});
      else if (c < 7) { phase({Simple("setup")}); if (bad) { phase({Simple("isset")}); phase({Simple("teardown")}); } else setup = 1; }
      else if (c == 7) { phase({Simple("teardown")}); setup = 0; }
      else if (nadd > 0)
      {
        auto all = p.vars;
        p.vars.resize(nadd);
        workers(setup ? kr : k, setup ? 5 : 3, r.R(1, 2), 1, 4);
        p.vars = all;
      }
    }
    phase({Simple("names"), Simple("isset"), Simple("destroy")});
  }
  else
  {
    // waiting: Test variables that come and go, local ones whose values become equal
    p.early = r.P(0.3);
    for (auto& d : p.vars) d.bad = false;
    addall();
    if (mode == "c21i")
      for (auto& d : p.vars) { d.type = AnyType(r.P(0.8) ? TypeCode::Int32 : TypeCode::UInt8); d.init = RandomScalar(r, d.type.GetTypeCode()); if (d.kind == "Local" && r.P(0.1)) { d.type = AnyType(); d.init = AnyValue(); } }
    bool pre = r.P(0.7);
    if (pre) phase({Simple("setup")});
    static const char* const k[] = {"avail", "sleep", "avail", "set", "avl", "avail", "sleep", "reset"};
    static const char* const kw[] = {"wait", "wait", "wait", "sleep", "avail"};
    Phase f;
    f.threads.emplace_back();
    int n = 0;
    if (mode == "c21")
    {
      int nw = r.R(1, 3);
      for (int t = 0; t < nw; ++t, ++n)
      {
        f.threads.emplace_back();
        for (int i = r.R(1, 3); i > 0; --i) f.threads.back().push_back(RandomOp(r, p.vars, kw, 5));
      }
    }
    else
    {
      int nw = r.R(1, 2);
      for (int t = 0; t < nw; ++t)
      {
        InstDef d;
        int ms = r.P(0.1) ? 0 : r.R(1, 80);
        d.T = ms * 1000;
        d.timeout = std::to_string(ms / 1000) + "." + std::string(3 - std::to_string(ms % 1000).size(), '0') + std::to_string(ms % 1000);
        if (r.P(0.03)) { d.T = -1; d.timeout = "-1.0"; }
        if (r.P(0.3)) d.vtype = r.P(0.5) ? "Local" : "Test";
        else
        {
          d.name = r.P(0.05) ? "nosuch" : r.Pick(p.vars).name;
          if (r.P(0.6)) d.other = r.P(0.05) ? "nosuch" : r.Pick(p.vars).name;
        }
        p.insts.push_back(std::move(d));
        phase({Simple("inst", t + 1)});
        f.threads.emplace_back();
        auto o = Simple("run", t + 1);
        o.T = r.R(1, 15);
        f.threads.back().push_back(o);
        if (r.P(0.3)) { f.threads.back().push_back(Simple("irst", t + 1)); f.threads.back().push_back(o); }
      }
    }
    int nu = r.R(1, 2);
    bool again = false;  // a halt concurrent with a reset may or may not be forgotten: not together
    for (auto& t : f.threads) for (auto& o : t) again |= o.op == "irst";
    for (int t = 0; t < nu; ++t)
    {
      f.threads.emplace_back();
      for (int i = r.R(2, 8); i > 0; --i)
      {
        auto o = RandomOp(r, p.vars, k, pre ? 8 : 7);
        if (mode == "c21i" && o.op == "set") { o.path = Path(); o.v = AnyValue((sup::dto::int32)r.N(3)); }
        f.threads.back().push_back(o);
      }
      if (mode == "c21i" && t == 0 && !again && r.P(0.4))
      {
        auto& v = f.threads.back();
        v.insert(v.begin() + r.N((int)v.size() + 1), Simple("halt", r.R(1, (int)p.insts.size())));
      }
    }
    if (!pre) f.threads[0] = {RandomOp(r, p.vars, k + 1, 1), Simple("setup")};
    p.phases.push_back(std::move(f));
  }
  return p;
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const std::string& text, const sched::Config& c)
  {
    auto k = text.find(':');
    auto p = Make(text.substr(0, k), std::strtoull(text.c_str() + k + 1, nullptr, 10));
    auto cfg = c;
    if (!p.early) cfg.early_time_prob = 0;
    out.Current(text + "\n" + SchedText(cfg));
    evlog().ev.clear();
    auto res = sched::Run(cfg, [&] { Body(p); });
    if (res.outcome != sched::Outcome::Done) Close(res);
    out.Trace(text, SchedText(cfg), std::string(",\"strict\":") + (cfg.early_time_prob > 0 ? "false" : "true"));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(a.Str("prog"), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  auto mode = a.Str("mode", "c19");
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 2000) && bad < 10)
  {
    auto text = mode + ":" + std::to_string(rng.Next() >> 16);
    for (int k = 0; k < (int)a.Int("schedules", 3); ++k)
      if (!one(text, RandomConfig(rng, true, true))) { ++bad; break; }
  }
  out.Stats();
  _exit(0);
}
