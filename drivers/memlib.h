// Workspaces of local variables with random contents (see spec/lib/Memory.tla).
#ifndef VERIF_MEMLIB_H_
#define VERIF_MEMLIB_H_

#include "vallib.h"

#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <memory>

namespace ml
{
using namespace vl;
using namespace sup::oac_tree;

inline const char* St(ExecutionStatus s)
{
  switch (s)
  {
  case ExecutionStatus::NOT_STARTED: return "NS";
  case ExecutionStatus::NOT_FINISHED: return "NF";
  case ExecutionStatus::RUNNING: return "RU";
  case ExecutionStatus::SUCCESS: return "SU";
  case ExecutionStatus::FAILURE: return "FA";
  }
  return "??";
}

struct Var
{
  std::string name;
  bool dyn = false;
  AnyType type;      // empty: no type attribute
  AnyValue init;
};
using Vars = std::vector<Var>;

inline Var MakeVar(const std::string& name, const AnyValue& v, bool dyn = false)
{
  Var d;
  d.name = name;
  d.dyn = dyn;
  d.type = v.GetType();
  d.init = v;
  return d;
}
inline Var RandomVar(Rng& r, const std::string& name, int depth = 2)
{
  Var d;
  d.name = name;
  d.dyn = r.P(0.15);
  if (r.P(0.93))
  {
    d.type = RandomType(r, depth);
    d.init = RandomValue(r, d.type);
  }
  return d;
}
inline std::unique_ptr<Workspace> MakeWorkspace(const Vars& vars)
{
  auto ws = std::make_unique<Workspace>();
  for (auto& d : vars)
  {
    auto v = GlobalVariableRegistry().Create("Local");
    if (!sup::dto::IsEmptyType(d.type))
    {
      v->AddAttribute("type", sup::dto::AnyTypeToJSONString(d.type));
      v->AddAttribute("value", sup::dto::ValuesToJSONString(d.init));
    }
    if (d.dyn) v->AddAttribute("dynamicType", "true");
    v->SetName(d.name);
    ws->AddVariable(d.name, std::move(v));
  }
  ws->Setup();
  return ws;
}
inline AnyValue Read(Workspace& ws, const std::string& name)
{
  AnyValue v;
  if (!ws.HasVariable(name) || !ws.GetValue(name, v)) return {};
  return v;
}
inline std::string MemJson(Workspace& ws, const Vars& vars)
{
  std::string s = "{";
  for (auto& d : vars)
    s += (s.size() > 1 ? "," : "") + Q(d.name) + ":{\"dyn\":" + (d.dyn ? "true" : "false") + ",\"val\":" + J(Read(ws, d.name)) + "}";
  return s + "}";
}
inline const Var* Find(const Vars& vars, const std::string& name)
{
  for (auto& v : vars)
    if (v.name == name) return &v;
  return nullptr;
}
}  // namespace ml
#endif
