// Executes generated instruction trees with the synchronous runner (see spec/runner/Runner.tla).
#include "treelib.h"

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/runner.h>

using namespace tl;

namespace
{
struct Prog
{
  Tree tree;
  std::string ops, cbops, text;
  std::uint64_t seed = 0;
  int ms = 0;
  bool early = true;
};

Prog Make(std::uint64_t seed)
{
  Prog p;
  p.seed = seed;
  p.text = std::to_string(seed);
  Rng r(seed);
  GenOpts o;
  o.weight = {{"Seq", 4}, {"Fb", 2}, {"RSeq", 2}, {"RFb", 1}, {"Inv", 1}, {"FS", 1}, {"Rep", 3}, {"For", 2}, {"Choice", 2}, {"Lis", 1}, {"Inc", 1}};
  o.max_nodes = r.R(2, 7);
  o.outcomes = "ssssssffrnw";
  if (r.P(0.25)) { o.weight["Async"] = 3; o.weight["Par"] = 3; o.max_nodes = 5; }
  Gen g(r, o);
  p.tree = g.Make();
  bool threads = p.tree.Threads();
  double ph = r.P(0.5) ? 0.25 : 0.05;
  for (int n = r.R(2, 8); n > 0; --n)
  {
    if (!threads && r.P(0.5)) { p.ops += "BBBU"[r.N(4)]; if (r.P(0.5)) p.ops += "BU"[r.N(2)]; }
    if (r.P(ph) && std::count(p.ops.begin(), p.ops.end(), 'h') + std::count(p.ops.begin(), p.ops.end(), 'p') < 2) p.ops += r.P(0.5) ? 'h' : 'p';
    if (r.P(0.08)) p.ops += "PHA"[r.N(3)];
    p.ops += r.P(0.65) ? 'E' : 'O';
    if (r.P(0.4)) p.ops += 'q';
    if (r.P(0.2)) p.ops += 'R';
    if (r.P(0.15)) p.ops += 'A';
  }
  for (int n = r.R(0, 14); n > 0; --n) p.cbops += r.P(0.75) ? '.' : threads ? "ph"[r.N(2)] : "ppphqqBU"[r.N(8)];
  if (r.P(0.3)) p.ms = r.R(1, 30);
  p.early = r.P(0.1);
  return p;
}

class RunUi : public Ui
{
public:
  bool mute = true;
  void VariableUpdated(const std::string& name, const sup::dto::AnyValue& v, bool) override
  {
    if (mute) return;
    sched::NoMem nm;
    evlog().Add(Ev("var").S("v", name).Raw("x", "[" + std::to_string(v.As<int>()) + "]"));
  }
};

void Body(const Prog& p)
{
  auto sink = std::make_shared<Sink>();
  CurSink() = sink;
  RunUi ui;
  std::unique_ptr<Procedure> proc;
  {
    sched::NoMem nm;
    proc = Build(p.tree);
  }
  auto runner = std::make_unique<Runner>(ui);
  Rng r(p.seed * 31 + 7);
  std::vector<const Instruction*> nodes;
  auto ask = [&](int t, const char* c)
  {
    evlog().Add(Ev("ask").I("t", t).S("c", c));
    if (*c == 'h') runner->Halt(); else runner->Pause();
    evlog().Add(Ev("asked").I("t", t));
  };
  auto query = [&]
  {
    std::string bps = "[";
    std::vector<int> cur;
    evlog().Add(Ev("ask?"));
    bool fin = runner->IsFinished(), run = runner->IsRunning();
    for (auto i : runner->GetCurrentBreakpointInstructions()) cur.push_back(sink->Index(i));
    for (auto& b : runner->GetBreakpoints())
      bps += (bps.size() > 1 ? "," : "") + ("{\"n\":" + std::to_string(sink->Index(b.GetInstruction())) + ",\"rel\":" + (b.GetStatus() == Breakpoint::kReleased ? "true" : "false") + "}");
    evlog().Add(Ev("q").B("fin", fin).B("run", run).L("cur", cur).Raw("bps", bps + "]"));
  };
  auto mark = [&](bool on)
  {
    auto i = nodes.empty() ? nullptr : nodes[r.N((int)nodes.size())];
    std::string a = "throw";
    try { a = (on ? runner->SetBreakpoint(i) : runner->RemoveBreakpoint(i)) ? "yes" : "no"; }
    catch (const InvalidOperationException&) {}
    evlog().Add(Ev("bp").I("n", sink->Index(i)).B("on", on).S("r", a));
  };
  int nticks = 0;
  bool alone = true;
  TimeoutWhenRunning pause(p.ms * 1000000ll);
  std::size_t cbpos = 0;
  runner->SetTickCallback([&](const Procedure& pr)
                          {
                            evlog().Add(Ev("cb").S("s", St(pr.GetStatus())));
                            char c = cbpos < p.cbops.size() ? p.cbops[cbpos++] : '.';
                            if (++nticks > 12) { nticks = 0; c = 'p'; }
                            if (c == 'p') ask(-1, "pause");
                            if (c == 'h') ask(-1, "halt");
                            if (c == 'q') query();
                            if (c == 'B' || c == 'U') mark(c == 'B');
                            auto t0 = sched::Now();
                            pause(pr);
                            evlog().Add(Ev("cbend").I("ms", p.ms).I("slept", (long long)((sched::Now() - t0) / 1000000)).B("alone", alone));
                          });
  std::vector<std::thread> others;
  auto exec = [&](bool all)
  {
    nticks = 0;
    evlog().Add(Ev(all ? "run" : "single"));
    if (all) runner->ExecuteProcedure(); else runner->ExecuteSingle();
    evlog().Add(Ev("ran"));
  };
  if (p.early)    // without a procedure nothing happens
  {
    query();
    mark(true);
    exec(true);
    exec(false);
    if (r.P(0.5)) { ask(-1, "halt"); query(); }
  }
  evlog().Add(Ev("attach"));
  runner->SetProcedure(proc.get());
  ui.mute = false;
  {
    sched::NoMem nm;
    MapNodes(proc->RootInstruction(), sink->idx);
    nodes.resize(p.tree.n.size());
    for (auto& [i, k] : sink->idx) if (k <= (int)nodes.size()) nodes[k - 1] = i;
  }
  if (p.tree.Threads()) alone = false;
  for (char c : p.ops)
  {
    switch (c)
    {
    case 'E': exec(true); break;
    case 'O': exec(false); break;
    case 'q': query(); break;
    case 'B': case 'U': mark(c == 'B'); break;
    case 'P': ask(-1, "pause"); break;
    case 'H': ask(-1, "halt"); break;
    case 'A': evlog().Add(Ev("rearm")); runner->ResetBreakpoints(); break;
    case 'R':
      evlog().Add(Ev("reset"));
      const_cast<Instruction*>(proc->RootInstruction())->Reset(ui);
      evlog().Add(Ev("done"));
      break;
    case 'h': case 'p':
    {
      alone = false;
      int t = -2 - (int)others.size(), n = r.N(8), ms = r.P(0.4) ? r.R(1, 40) : 0;
      others.emplace_back([&, t, n, ms, c]
                          {
                            for (int i = 0; i < n; ++i) sched::Yield();
                            if (ms) std::this_thread::sleep_for(std::chrono::milliseconds(ms));
                            ask(t, c == 'h' ? "halt" : "pause");
                          });
    }
    }
  }
  for (auto& h : others) h.join();
  evlog().Add(Ev("end"));
  ui.mute = true;
  auto log = evlog().ev;
  runner.reset();
  proc.reset();
  evlog().ev = log;    // the end of everything is not of interest here
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    out.Current(p.text + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    if (res.outcome != sched::Outcome::Done) Close(res);
    out.Trace(p.text, SchedText(c), ",\"tree\":" + p.tree.Json() + ",\"vars\":" + p.tree.VarsJson() + ",\"ops\":" + Q(p.ops + " " + p.cbops));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(Make(std::strtoull(a.Str("prog").c_str(), nullptr, 10)), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 3000) && bad < 5)
  {
    auto p = Make(rng.Next() >> 16);
    bool par = p.tree.Threads() || p.ops.find_first_of("hp") != std::string::npos;
    for (int k = 0; k < (par ? (int)a.Int("schedules", 3) : 1); ++k)
      if (!one(p, RandomConfig(rng, true, par))) { ++bad; break; }
  }
  out.Stats();
  _exit(0);
}
