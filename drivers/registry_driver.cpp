// Registries of instructions and variables (see spec/setup/Registry.tla).
#include "drv.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>

#include <sup/dto/anyvalue.h>

using namespace drv;
using namespace sup::oac_tree;

namespace
{
const char* const kTypes[] = {"K0", "K1", "K2", "Plug"};
template <int K> struct Instr : public Instruction
{
  Instr() : Instruction(Type) {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
  static const std::string Type;
};
template <int K> const std::string Instr<K>::Type = kTypes[K];
template <int K> struct Var : public Variable
{
  Var() : Variable(Type) {}
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
  static const std::string Type;
};
template <int K> const std::string Var<K>::Type = kTypes[K];
template <int K> Instruction* MakeI() { return new Instr<K>; }
template <int K> Variable* MakeV() { return new Var<K>; }
const InstructionRegistry::InstructionConstructor kMakeI[] = {MakeI<0>, MakeI<1>, MakeI<2>};
const VariableRegistry::VariableConstructor kMakeV[] = {MakeV<0>, MakeV<1>, MakeV<2>};
template <typename F> bool Try(F f)
{
  try { return f(); }
  catch (const std::exception&) { return false; }
}
bool TemplateI(InstructionRegistry& r, int k)
{
  return k == 0 ? RegisterInstruction<Instr<0>>(r) : k == 1 ? RegisterInstruction<Instr<1>>(r) : RegisterInstruction<Instr<2>>(r);
}
bool TemplateV(VariableRegistry& r, int k)
{
  return k == 0 ? RegisterVariable<Var<0>>(r) : k == 1 ? RegisterVariable<Var<1>>(r) : RegisterVariable<Var<2>>(r);
}

void Body(unsigned long long seed)
{
  Rng r(seed);
  auto& log = evlog();
  InstructionRegistry ir[2];
  VariableRegistry vr[2];
  std::vector<std::string> names = {"K0", "K1", "K2", "a", "", "Plug", "Sequence", "Local", "sequence"};
  for (auto& n : GlobalInstructionRegistry().RegisteredInstructionNames()) if (r.P(0.1)) names.push_back(n);
  for (int n = r.R(3, 40); n > 0; --n)
  {
    int k = r.N(12), at = r.N(4), m = r.N(3);
    bool global = r.P(0.25);
    bool instr = global ? r.P(0.7) : at < 2;
    int id = global ? (instr ? 5 : 6) : at + 1;
    auto& I = global ? GlobalInstructionRegistry() : ir[at % 2];
    auto& V = global ? GlobalVariableRegistry() : vr[at % 2];
    auto name = r.Pick(names);
    if (k < 4)
    {
      // the global registries stay as they are: only what is there already is registered again
      if (global) name = r.P(0.5) ? "Plug" : instr ? "Sequence" : "Local";
      bool ok;
      std::string what = kTypes[m];
      if (global && name == "Plug")
      {
        what = name;
        ok = Try([&] { return instr ? RegisterGlobalInstruction<Instr<3>>() : RegisterGlobalVariable<Var<3>>(); });
      }
      else if (!global && r.P(0.3))
      {
        name = what;
        ok = Try([&] { return instr ? TemplateI(I, m) : TemplateV(V, m); });
      }
      else ok = Try([&] { return instr ? I.RegisterInstruction(name, kMakeI[m]) : V.RegisterVariable(name, kMakeV[m]); });
      log.Add(Ev("register").I("r", id).S("n", name).S("w", what).B("ok", ok));
    }
    else if (k < 8)
    {
      std::string what;
      bool ok = Try([&]
      {
        if (instr) { auto x = I.Create(name); if (x) what = x->GetType(); return x != nullptr; }
        auto x = V.Create(name);
        if (x) what = x->GetType();
        return x != nullptr;
      });
      log.Add(Ev("create").I("r", id).S("n", name).B("ok", ok).S("w", what));
    }
    else if (k < 10)
      log.Add(Ev("known").I("r", id).S("n", name).B("ok", instr ? I.IsRegisteredInstructionName(name) : V.IsRegisteredVariableName(name)));
    else if (k == 10 || global)
      log.Add(Ev("names").I("r", id).L("names", instr ? I.RegisteredInstructionNames() : V.RegisteredVariableNames()));
    else
    {
      if (instr) ir[at % 2] = ir[1 - at % 2]; else vr[at % 2] = vr[1 - at % 2];
      log.Add(Ev("copy").I("r", id).I("s", instr ? 2 - at % 2 : 4 - at % 2));
    }
  }
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  bool plug = Try([] { return RegisterGlobalInstruction<Instr<3>>() && RegisterGlobalVariable<Var<3>>(); });
  auto one = [&](unsigned long long seed)
  {
    auto text = std::to_string(seed);
    out.Current(text);
    evlog().ev.clear();
    if (!plug) evlog().ev.push_back(Ev("abnormal").S("what", "a plugin cannot register its kinds").Str());
    try { Body(seed); evlog().Add(Ev("end")); }
    catch (const std::exception& e) { evlog().ev.push_back(Ev("abnormal").S("what", "exception").S("detail", e.what()).Str()); }
    out.Trace(text, "");
  };
  if (a.Has("prog")) one(std::strtoull(a.Str("prog").c_str(), nullptr, 10));
  else
  {
    Deadline dl(a.Int("seconds", 5));
    Rng rng(a.Int("seed", 1));
    while (!dl.Over() && out.Count() < a.Int("traces", 2000)) one(rng.Next() >> 16);
  }
  out.Stats();
}
