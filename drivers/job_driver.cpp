// Runs generated procedures as jobs, with commands and breakpoints from several threads, and records
// everything the job reports to its observer.
#include "treelib.h"

#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/local_job.h>

using namespace tl;

namespace
{
GenOpts Opts(const std::string& mode, Rng& r)
{
  GenOpts o;
  o.weight = {{"Seq", 4}, {"Fb", 2}, {"RSeq", 2}, {"RFb", 1}, {"Inv", 1}, {"FS", 1}, {"Rep", 3}, {"For", 2}, {"Choice", 2}, {"Inc", 1}};
  o.max_nodes = 6;
  o.outcomes = "sssssffrnw";
  if (mode == "c03")
  {
    o.weight["Async"] = 3;
    o.weight["Par"] = 3;
    o.weight["Lis"] = 2;
    o.outcomes = "sssffrrnwvhh";
    o.max_nodes = 5;
  }
  else if (mode == "c02") { o.max_nodes = 4; }
  else if (mode == "c05") { o.outcomes = "ssssssffrn"; o.max_nodes = 7; }
  else if (mode == "c06") { o.permanent = 0; if (r.P(0.3)) { o.weight["Async"] = 2; o.weight["Par"] = 2; } o.outcomes = "sssssffrnwh"; }
  else if (mode == "c30") { if (r.P(0.3)) { o.weight["Async"] = 3; o.weight["Par"] = 2; } }
  return o;
}

// s start, t step, p pause, r reset, h halt, B set a breakpoint, U remove one, Z sleep, Y yields,
// S wait until nothing moves and look
struct Prog
{
  Tree tree;
  std::string mode, text;
  std::vector<std::string> ops;   // per control thread
  std::uint64_t seed = 0;
};

std::string Some(Rng& r, const std::string& letters, int lo, int hi)
{
  std::string s;
  for (int i = r.R(lo, hi); i > 0; --i)
  {
    s += letters[r.N((int)letters.size())];
    if (r.P(0.35)) s += r.P(0.5) ? "Z" : "Y";
  }
  return s;
}

std::vector<std::string> MakeOps(const std::string& mode, Rng& r)
{
  std::vector<std::string> v;
  std::string m;
  if (mode == "c02")
  {
    v.push_back(Some(r, "sstpprhhBYZSSr", 3, 10));
    if (r.P(0.7)) v.push_back(Some(r, "sstpprhBYZr", 1, 6));
    if (r.P(0.3)) v.push_back(Some(r, "stprhYZ", 1, 4));
  }
  else if (mode == "c03")
  {
    for (int i = r.R(1, 2); i > 0; --i)
    {
      m += r.P(0.85) ? "s" : "t";
      m += Some(r, "ZYtp", 0, 3) + (r.P(0.8) ? "h" : "") + (r.P(0.3) ? "h" : "") + (r.P(0.6) ? "S" : "") + (r.P(0.6) ? "r" : "");
      if (r.P(0.3)) m += "S";
    }
    v.push_back(m);
    if (r.P(0.4)) v.push_back(Some(r, "ZYhhs", 1, 3));
  }
  else if (mode == "c04")
  {
    m = r.P(0.5) ? "s" : "t";
    v.push_back(m + Some(r, "ptspttsZYS", 3, 12) + "S");
    if (r.P(0.5)) v.push_back(Some(r, "ptspsZY", 1, 6));
  }
  else if (mode == "c05")
  {
    m = Some(r, "BBBU", 1, 4) + (r.P(0.9) ? "s" : "t");
    v.push_back(m + Some(r, "SSsssstBBUShr", 3, 14) + "S");
    if (r.P(0.35)) v.push_back(Some(r, "BBUsYZ", 1, 5));
  }
  else if (mode == "c06")
  {
    for (int i = r.R(2, 3); i > 0; --i)
    {
      m += (r.P(0.2) ? "B" : "");
      m += r.P(0.8) ? "s" : "t";
      m += Some(r, "SZYpts", 0, 3) + (r.P(0.4) ? "h" : "Ss") + "SrS";
    }
    v.push_back(m);
  }
  else
  {
    v.push_back("S" + Some(r, "BUsstpSSrh", 3, 10) + "S");
    if (r.P(0.8)) v.push_back(Some(r, "BUBUtsYZ", 2, 6));
    if (r.P(0.3)) v.push_back(Some(r, "BUBUY", 1, 5));
  }
  return v;
}

Prog Make(const std::string& mode, std::uint64_t seed)
{
  Prog p;
  p.mode = mode;
  p.seed = seed;
  p.text = mode + ":" + std::to_string(seed);
  Rng r(seed);
  auto o = Opts(mode, r);
  if (r.P(0.2)) o.max_nodes += 3;
  Gen g(r, o);
  p.tree = g.Make();
  for (auto& n : p.tree.n) if (n.t == "Rep" && n.m < 0 && r.P(mode == "c03" ? 0.6 : 0.9)) n.m = 2;
  std::vector<std::string> ints;
  for (auto& [k, v] : p.tree.vars) if (v.ty == 'i') ints.push_back(k);
  if (r.P(0.4)) { p.tree.vars["x"] = {'i', {1}}; ints.push_back("x"); }
  for (auto& n : p.tree.n)
    if (n.t == "Leaf" && r.P(0.35) && !ints.empty()) n.wvar = r.P(0.05) ? "missing" : ints[r.N((int)ints.size())];
  p.ops = MakeOps(mode, r);
  return p;
}

const char* JobName(JobState s)
{
  switch (s)
  {
  case JobState::kInitial: return "I";
  case JobState::kPaused: return "P";
  case JobState::kStepping: return "T";
  case JobState::kRunning: return "R";
  case JobState::kSucceeded: return "S";
  case JobState::kFailed: return "F";
  case JobState::kHalted: return "H";
  }
  return "?";
}

std::string Values(const sup::dto::AnyValue& v)
{
  try
  {
    if (v.GetType() == sup::dto::StringType)
    {
      auto s = v.As<std::string>();
      return s == "text" ? "[]" : "[" + std::to_string(std::atoi(s.c_str() + std::min<std::size_t>(4, s.size()))) + "]";
    }
    if (sup::dto::IsArrayValue(v))
    {
      std::string r = "[";
      for (std::size_t i = 0; i < v.NumberOfElements(); ++i) r += (i ? "," : "") + std::to_string(v[i].As<int>());
      return r + "]";
    }
    return "[" + std::to_string(v.As<int>()) + "]";
  }
  catch (const std::exception&)
  {
    return "[-999]";
  }
}

struct Obs : IJobInfoIO
{
  std::vector<int> node;            // index of an instruction -> node
  std::vector<std::string> vars;    // index of a variable -> name
  int Node(sup::dto::uint32 i) const { return i < node.size() ? node[i] : 0; }
  void InitNumberOfInstructions(sup::dto::uint32 n) override { evlog().Add(Ev("init").I("n", n)); }
  void InstructionStateUpdated(sup::dto::uint32 i, InstructionState s) override
  {
    sched::NoMem nm;
    evlog().Add(Ev("ist").I("n", Node(i)).B("b", s.m_breakpoint_set).S("s", St(s.m_execution_status)));
  }
  void VariableUpdated(sup::dto::uint32 i, const sup::dto::AnyValue& v, bool connected) override
  {
    sched::NoMem nm;
    Ev e(connected ? "var" : "var-disconnected");
    evlog().Add(e.S("v", i < vars.size() ? vars[i] : "?").Raw("x", Values(v)));
  }
  void JobStateUpdated(JobState s) override { evlog().Add(Ev("job").S("s", JobName(s))); }
  void PutValue(const sup::dto::AnyValue&, const std::string&) override {}
  bool GetUserValue(sup::dto::uint64, sup::dto::AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const sup::dto::AnyValue&) override { return -1; }
  void Interrupt(sup::dto::uint64) override {}
  void Message(const std::string&) override {}
  void Log(int, const std::string&) override {}
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>& l) override
  {
    sched::NoMem nm;
    std::vector<int> n;
    for (auto i : l) n.push_back(Node(i));
    evlog().Add(Ev("nx").L("l", n));
  }
};

void Body(const Prog& p)
{
  auto nm = std::make_unique<sched::NoMem>();
  CurSink() = std::make_shared<Sink>();
  Tree tree = p.tree;
  Rng r(p.seed * 131 + 5);
  Obs obs;
  // level by level
  std::vector<int> level{1}, below_async(tree.n.size() + 1, 0);
  while (!level.empty())
  {
    std::vector<int> next;
    for (int n : level)
    {
      obs.node.push_back(n);
      bool async = below_async[n] || tree.At(n).t == "Async" || tree.At(n).t == "Par";
      for (int c : tree.At(n).c) { next.push_back(c); below_async[c] = async; }
    }
    level = next;
  }
  std::vector<int> marks;   // nodes that may get a breakpoint
  for (std::size_t i = 0; i < obs.node.size(); ++i) if (!below_async[obs.node[i]]) marks.push_back((int)i);
  std::vector<std::string> names;
  for (auto& [k, v] : tree.vars) { (void)v; names.push_back(k); }
  for (std::size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.N((int)i)]);
  obs.vars = names;
  auto proc = Build(tree, names);
  auto raw = proc.get();
  nm.reset();
  auto job = std::make_unique<LocalJob>(std::move(proc), obs);
  std::vector<const Instruction*> instr;
  std::function<void(const Instruction*)> collect = [&](const Instruction* i)
  {
    instr.push_back(i);
    for (auto c : i->ChildInstructions()) collect(c);
  };
  collect(raw->RootInstruction());
  auto control = [&](int t, const std::string& ops)
  {
    Rng rr(p.seed * 17 + t + 100);
    auto cmd = [&](const char* name, void (LocalJob::*f)())
    {
      evlog().Add(Ev("cmd").I("t", t).S("c", name));
      (job.get()->*f)();
      evlog().Add(Ev("ret").I("t", t));
    };
    for (char c : ops)
    {
      switch (c)
      {
      case 's': cmd("start", &LocalJob::Start); break;
      case 't': cmd("step", &LocalJob::Step); break;
      case 'p': cmd("pause", &LocalJob::Pause); break;
      case 'r': cmd("reset", &LocalJob::Reset); break;
      case 'h': cmd("halt", &LocalJob::Halt); break;
      case 'B':
      case 'U':
      {
        int i = marks[rr.N((int)marks.size())];
        evlog().Add(Ev("bp").I("t", t).I("n", obs.node[i]).B("on", c == 'B'));
        if (c == 'B') job->SetBreakpoint(i); else job->RemoveBreakpoint(i);
        evlog().Add(Ev("ret").I("t", t));
        break;
      }
      case 'Z': std::this_thread::sleep_for(std::chrono::milliseconds(rr.R(1, 60))); break;
      case 'Y': for (int i = rr.N(12); i > 0; --i) sched::Yield(); break;
      case 'S':
      {
        bool idle = false;
        for (int i = 0; i < 10 && !idle; ++i)
        {
          for (int k = 0; k < 20 && !(idle = sched::OthersIdle()); ++k) sched::Yield();
          if (!idle) std::this_thread::sleep_for(std::chrono::milliseconds(40));
        }
        if (!idle || t != -1) break;
        std::vector<std::string> s;
        for (auto i : instr) s.push_back(St(i->GetStatus()));
        std::string v = "[";
        for (auto& n : names)
        {
          sup::dto::AnyValue x;
          bool ok = raw->GetWorkspace().GetValue(n, x);
          v += (v.size() > 1 ? "," : "") + std::string("{\"v\":") + Q(n) + ",\"ok\":" + (ok ? "true" : "false") + ",\"x\":" + (ok ? Values(x) : "[]") + "}";
        }
        if (!sched::OthersIdle()) break;
        evlog().Add(Ev("sit").L("s", s).Raw("v", v + "]"));
        break;
      }
      }
    }
  };
  std::vector<std::thread> threads;
  for (std::size_t i = 1; i < p.ops.size(); ++i) threads.emplace_back([&, i] { control(-1 - (int)i, p.ops[i]); });
  control(-1, p.ops[0]);
  for (auto& t : threads) t.join();
  evlog().Add(Ev("destroy").I("t", -1));
  job.reset();
  evlog().Add(Ev("gone"));
  for (int i = 0; i < 5; ++i) { sched::Yield(); std::this_thread::sleep_for(std::chrono::milliseconds(50)); }
  evlog().Add(Ev("end"));
}

std::string Extra(const Prog& p)
{
  std::string ops;
  for (auto& o : p.ops) ops += (ops.empty() ? "" : "|") + o;
  return ",\"tree\":" + p.tree.Json() + ",\"vars\":" + p.tree.VarsJson() + ",\"novars\":" + (p.tree.vars.empty() ? "true" : "false") + ",\"ops\":" + Q(ops);
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  LeafTime() = 5;   // endless procedures take time, too
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    out.Current(p.text + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    // an endless procedure that still executes is cut off
    bool cut = false;
    auto& ev = evlog().ev;
    if (res.outcome == sched::Outcome::StepLimit)
      for (std::size_t i = ev.size() > 300 ? ev.size() - 300 : 0; i < ev.size(); ++i) cut |= ev[i].find("\"k\":\"e\"") != std::string::npos || ev[i].find("\"k\":\"nx\"") != std::string::npos;
    if (cut) ev.push_back(Ev("cut").Str());
    else if (res.outcome != sched::Outcome::Done) Close(res);
    out.Trace(p.text, SchedText(c), Extra(p));
    return res.outcome == sched::Outcome::Done ? 0 : cut ? 1 : 10;
  };
  if (a.Has("prog"))
  {
    auto s = a.Str("prog");
    auto k = s.find(':');
    one(Make(s.substr(0, k), std::strtoull(s.c_str() + k + 1, nullptr, 10)), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  auto mode = a.Str("mode", "c02");
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 2000) && bad < 50)
  {
    auto p = Make(mode, rng.Next() >> 16);
    for (int k = 0; k < (int)a.Int("schedules", 3); ++k)
      if (int b = one(p, RandomConfig(rng, true, true))) { bad += b; break; }
  }
  out.Stats();
  _exit(0);
}
