// Tables of names and classes (--mode=names); preamble and breakpoint objects (--mode=preamble).
#include "drv.h"

#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/job_commands.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/log_severity.h>
#include <sup/oac-tree/procedure_preamble.h>

using namespace drv;
using namespace sup::oac_tree;

static void Names(const std::vector<int>& vals, const std::vector<std::string>& strs)
{
  for (int v : vals)
  {
    auto s = static_cast<ExecutionStatus>(v);
    evlog().Add(Ev("status").I("v", v).S("name", StatusToString(s)).B("finished", IsFinishedStatus(s))
      .B("needs", NeedsExecute(s)).B("ready", ReadyForExecute(s)).B("executing", IsExecutingStatus(s)));
    auto j = static_cast<JobState>(v);
    evlog().Add(Ev("state").I("v", v).S("name", ToString(j)).B("finished", IsFinishedJobState(j)));
    evlog().Add(Ev("severity").I("v", v).S("name", log::SeverityString(v)));
  }
  for (auto& s : strs) evlog().Add(Ev("from").S("name", s).I("v", log::GetSeverityFromString(s)));
  for (int a = 0; a < 6; ++a)
    for (int b = 0; b < 6; ++b)
      evlog().Add(Ev("le").I("a", a).I("b", b).B("r", static_cast<JobCommand>(a) <= static_cast<JobCommand>(b)));
  evlog().Add(Ev("end"));
}

static void Preamble(std::uint64_t seed)
{
  Rng r(seed);
  static const std::string strs[] = {"", "a", "b", "lib.so", "{\"type\":\"x\"}", "a b", "a"};
  std::vector<ProcedurePreamble> p(3);
  const int base[16] = {};
  auto instr = [&](int i) { return i ? reinterpret_cast<const Instruction*>(base + i) : nullptr; };
  std::vector<Breakpoint> bp(3, Breakpoint(nullptr));
  auto look = [&](int s)
  {
    std::string types = "[";
    for (auto& t : p[s].GetTypeRegistrations())
    {
      if (types.size() > 1) types += ",";
      types += "{\"m\":" + std::to_string((int)t.GetRegistrationMode()) + ",\"x\":" + Q(t.GetString()) + "}";
    }
    evlog().Add(Ev("look").I("s", s).L("plugins", p[s].GetPluginPaths()).Raw("types", types + "]"));
    int i = -1;
    for (int k = 0; k < 16; ++k) if (bp[s].GetInstruction() == instr(k)) i = k;
    evlog().Add(Ev("lookbp").I("s", s).I("i", i).I("st", bp[s].GetStatus()));
  };
  int n = r.R(3, 30);
  while (n-- > 0)
  {
    int s = r.N(3), d = r.N(3);
    switch (r.N(9))
    {
    case 0: case 1: { auto& x = strs[r.N(7)]; p[s].AddPluginPath(x); evlog().Add(Ev("plugin").I("s", s).S("p", x)); break; }
    case 2: case 3:
    {
      auto& x = strs[r.N(7)];
      auto m = r.N(2) ? TypeRegistrationInfo::kJSONString : TypeRegistrationInfo::kJSONFile;
      p[s].AddTypeRegistration(TypeRegistrationInfo(m, x));
      evlog().Add(Ev("type").I("s", s).I("m", m).S("x", x));
      break;
    }
    case 4: p[d] = p[s]; evlog().Add(Ev("copy").I("d", d).I("s", s)); break;
    case 5: if (r.N(3) == 0) { p[s] = ProcedurePreamble(); evlog().Add(Ev("clear").I("s", s)); } break;
    case 6: { int i = r.N(4); bp[s] = Breakpoint(instr(i)); evlog().Add(Ev("newbp").I("s", s).I("i", i)); break; }
    case 7: { int st = r.N(2); bp[s].SetStatus(static_cast<Breakpoint::Status>(st)); evlog().Add(Ev("setbp").I("s", s).I("st", st)); break; }
    case 8: bp[d] = bp[s]; evlog().Add(Ev("copybp").I("d", d).I("s", s)); break;
    }
    for (int k = 0; k < 3; ++k) look(k);
  }
  evlog().Add(Ev("end"));
}

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto run = [&](const std::string& prog)
  {
    out.Current(prog);
    evlog().ev.clear();
    std::istringstream in(prog);
    std::string mode;
    std::uint64_t seed = 0;
    in >> mode >> seed;
    if (mode == "preamble") Preamble(seed);
    else
    {
      std::vector<int> vals;
      std::vector<std::string> strs = {"", "UNKNOWN", "EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE",
        "INFO", "DEBUG", "TRACE", "error", "Error", " ERROR", "ERROR ", "TRAC", "TRACEE", "WARN"};
      if (seed == 0) for (int i = -3; i <= 20; ++i) vals.push_back(i);
      else
      {
        Rng r(seed);
        for (int i = 0; i < 40; ++i) vals.push_back(r.R(-2000000000, 0) + r.R(0, 2000000000));
        for (int i = 0; i < 40; ++i)
        {
          std::string s = strs[r.N((int)strs.size())];
          int p = r.N((int)s.size() + 1);
          if (r.N(2)) s.insert(p, 1, char(32 + r.N(90))); else if (!s.empty()) s.erase(p % s.size(), 1);
          strs.push_back(s);
        }
      }
      Names(vals, strs);
    }
    out.Trace(prog, "");
  };
  if (a.Has("prog")) run(a.Str("prog"));
  else
  {
    std::uint64_t seed = a.Int("seed", 1) * 1000003ull;
    run(a.Str("mode") + " 0");
    for (int i = 0; i < a.Int("random", 100); ++i) run(a.Str("mode") + " " + std::to_string(++seed));
  }
  out.Stats();
  _exit(0);
}
