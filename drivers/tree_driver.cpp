// Executes generated instruction trees with the real code and records every status update, every
// execution of a leaf, and what was asked for.
#include "treelib.h"

using namespace tl;

namespace
{
GenOpts Opts(const std::string& mode, Rng& r)
{
  GenOpts o;
  if (mode == "c08")
    o.weight = {{"Seq", 3}, {"Fb", 3}, {"RSeq", 2}, {"RFb", 2}, {"Inv", 2}, {"FS", 2}, {"Rep", 3}, {"For", 2}, {"Choice", 2}, {"Lis", 2}, {"Inc", 1}};
  else if (mode == "c08t")
  {
    o.weight = {{"Seq", 3}, {"Fb", 2}, {"RSeq", 2}, {"RFb", 1}, {"Inv", 1}, {"FS", 1}, {"Rep", 3}, {"Async", 3}, {"Par", 3}};
    o.max_nodes = 6;
  }
  else if (mode == "c09") { o.weight = {{"Seq", 5}, {"Fb", 5}, {"Inv", 1}, {"Rep", 1}}; o.max_kids = 4; o.max_nodes = 9; }
  else if (mode == "c10")
  {
    o.weight = {{"RSeq", 5}, {"RFb", 5}, {"Seq", 1}, {"Fb", 1}, {"Inv", 1}, {"Rep", 1}};
    o.root = {"RSeq", "RFb"};
    o.max_kids = 4;
    o.outcomes = "sssfffrrrnn";
    o.permanent = 0.6;
    o.script_max = 4;
  }
  else if (mode == "c11")
  {
    o.weight = {{"Par", 4}, {"Seq", 2}, {"Inv", 1}, {"Rep", 2}, {"Fb", 1}, {"RSeq", 1}};
    o.root = {"Par", "Par", "Par", "Rep", "Seq", "RSeq"};
    o.max_nodes = 6;
    o.max_kids = 4;
    o.outcomes = "ssssfffrnwvh";
  }
  else if (mode == "c12")
  {
    o.weight = {{"Rep", 5}, {"For", 5}, {"Seq", 2}, {"Fb", 1}, {"RSeq", 1}, {"Inv", 1}};
    o.root = {"Rep", "For", "Rep", "For", "Seq", "RFb"};
    o.outcomes = "sssssssfrn";
    o.max_nodes = 5;
  }
  else if (mode == "c13") { o.weight = {{"Inv", 5}, {"FS", 5}, {"Seq", 2}, {"Rep", 1}, {"RSeq", 1}}; o.root = {"Inv", "FS"}; o.max_nodes = 5; o.max_depth = 4; }
  else if (mode == "c14") { o.weight = {{"Choice", 5}, {"Seq", 2}, {"Rep", 1}, {"Inv", 1}}; o.root = {"Choice", "Choice", "Rep"}; o.max_kids = 4; o.outcomes = "ssssssffrn"; }
  else if (mode == "c15") { o.weight = {{"Lis", 5}, {"Seq", 2}, {"RSeq", 1}, {"Fb", 1}}; o.root = {"Lis", "Lis", "Seq", "RSeq"}; o.max_nodes = 5; o.outcomes = "ssssfrn"; }
  else if (mode == "c16")
  {
    o.weight = {{"Async", 5}, {"RSeq", 2}, {"RFb", 2}, {"Seq", 2}, {"Rep", 2}, {"Fb", 1}, {"Par", 1}};
    o.max_nodes = 6;
    o.outcomes = "sssffrnwvh";
  }
  else if (mode == "c17")
  {
    o.weight = {{"Seq", 3}, {"Fb", 2}, {"RSeq", 2}, {"Rep", 3}, {"For", 2}, {"Choice", 2}, {"Lis", 2}, {"Inv", 1}, {"FS", 1}, {"Inc", 1}, {"Async", 2}, {"Par", 2}};
    o.outcomes = "sssssfrnwh";
    o.max_nodes = 6;
  }
  else if (mode == "c18") { o.weight = {{"Inc", 5}, {"Seq", 3}, {"Rep", 1}, {"RSeq", 1}, {"Inv", 1}}; o.root = {"Inc", "Inc", "Seq", "Rep"}; }
  (void)r;
  return o;
}

// T tick, R reset, N look at what comes next, V set a variable, H halt, h halt from another thread
// meanwhile, Z sleep, Q wait until nothing runs
struct Prog
{
  Tree tree;
  std::string mode, ops, text;
  std::uint64_t seed;
  bool no_more_halts;
};

std::string RandomOps(const std::string& mode, const Tree& t, Rng& r)
{
  std::string s;
  bool threads = t.Threads();
  bool vars = (t.Has("Lis") && !threads) || (mode == "c14" || mode == "c12");
  int runs = r.P(0.4) ? 2 : 1;
  bool halting = mode == "c17" ? r.P(0.85) : (mode == "c11" || mode == "c16") ? r.P(0.3) : r.P(0.12);
  for (int k = 0; k < runs; ++k)
  {
    int ticks = r.R(3, threads ? 9 : 10);
    int at = halting ? r.N(ticks) : -1;
    for (int i = 0; i < ticks; ++i)
    {
      if (i == at) s += r.P(0.8) ? "h" : "H";
      if (!threads && r.P(0.3)) s += "N";
      if (vars && r.P(mode == "c15" ? 0.5 : 0.2)) s += "V";
      s += "T";
      if (threads) s += r.P(0.5) ? "Z" : r.P(0.2) ? "Q" : "";
    }
    if (k + 1 < runs || r.P(0.5)) s += r.P(0.05) ? "RR" : "R";
  }
  return s;
}

Prog Make(const std::string& mode, std::uint64_t seed)
{
  Prog p;
  p.mode = mode;
  p.seed = seed;
  p.text = mode + ":" + std::to_string(seed);
  Rng r(seed);
  auto o = Opts(mode, r);
  if (r.P(0.3)) o.max_nodes += 3;
  Gen g(r, o);
  p.tree = g.Make();
  p.ops = RandomOps(mode, p.tree, r);
  return p;
}

void Body(const Prog& p)
{
  sched::NoMem* nm = new sched::NoMem;
  auto sink = std::make_shared<Sink>();
  CurSink() = sink;
  Ui ui;
  Tree tree = p.tree;
  auto proc = Build(tree);
  bool in_set = false;
  proc->RegisterGenericCallback([&](const std::string& name, const sup::dto::AnyValue& v, bool)
                                {
                                  if (in_set) return;
                                  sched::NoMem nm;
                                  evlog().Add(Ev("var").S("v", name).Raw("x", "[" + std::to_string(v.As<int>()) + "]"));
                                }, nullptr);
  in_set = true;
  delete nm;
  proc->Setup();
  in_set = false;
  MapNodes(proc->RootInstruction(), sink->idx);
  if (sink->idx.size() != tree.n.size()) evlog().Add(Ev("size").I("n", (long long)sink->idx.size()));
  Rng r(p.seed * 31 + 7);
  std::vector<std::thread> halters;
  auto halt = [&](int t)
  {
    evlog().Add(Ev("halt").I("t", t));
    proc->Halt();
    evlog().Add(Ev("halted").I("t", t));
  };
  int nh = 0;
  for (char c : p.ops)
  {
    switch (c)
    {
    case 'T':
      evlog().Add(Ev("tick"));
      proc->ExecuteSingle(ui);
      evlog().Add(Ev("tock").S("s", St(proc->GetStatus())));
      break;
    case 'R':
      evlog().Add(Ev("reset"));
      proc->RootInstruction()->Reset(ui);
      evlog().Add(Ev("done"));
      break;
    case 'N':
    {
      std::vector<int> all, leaves;
      for (auto i : GetNextInstructions(*proc)) all.push_back(sink->Index(i));
      for (auto i : GetNextLeaves(*proc)) leaves.push_back(sink->Index(i));
      evlog().Add(Ev("next").L("i", all).L("l", leaves));
      break;
    }
    case 'V':
    {
      if (tree.vars.empty()) break;
      auto it = tree.vars.begin();
      std::advance(it, r.N((int)tree.vars.size()));
      Val v = it->second;
      int cap = p.mode == "c14" ? 4 : 3;
      if (v.ty == 'a') { v.x.clear(); for (int i = r.N(4); i > 0; --i) v.x.push_back(r.N(cap)); v.x.resize(it->second.x.size()); }
      else if (v.ty == 's') break;
      else for (auto& x : v.x) x = r.N(v.ty == 'b' ? 2 : cap);
      in_set = true;
      bool ok = proc->GetWorkspace().SetValue(it->first, v.Any());
      in_set = false;
      it->second = v;
      evlog().Add(Ev("set").S("v", it->first).Raw("w", v.Json()).B("ok", ok));
      break;
    }
    case 'H': halt(-1); break;
    case 'h':
    {
      if (nh == 2) break;
      int t = -2 - nh++;
      int n = r.N(6), ms = r.P(0.4) ? r.R(1, 40) : 0;
      halters.emplace_back([&, t, n, ms]
                           {
                             for (int i = 0; i < n; ++i) sched::Yield();
                             if (ms) std::this_thread::sleep_for(std::chrono::milliseconds(ms));
                             halt(t);
                           });
      break;
    }
    case 'Z': std::this_thread::sleep_for(std::chrono::milliseconds(r.R(1, 50))); break;
    case 'Q': sched::WaitQuiescent(); break;
    }
  }
  for (auto& h : halters) h.join();
  evlog().Add(Ev("destroy"));
  proc.reset();
  evlog().Add(Ev("end"));
}

std::string Extra(const Prog& p)
{
  return ",\"tree\":" + p.tree.Json() + ",\"vars\":" + p.tree.VarsJson() + ",\"ops\":" + Q(p.ops);
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    out.Current(p.text + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    if (res.outcome != sched::Outcome::Done) Close(res);
    out.Trace(p.text, SchedText(c), Extra(p));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    auto s = a.Str("prog");
    auto k = s.find(':');
    one(Make(s.substr(0, k), std::strtoull(s.c_str() + k + 1, nullptr, 10)), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  auto mode = a.Str("mode", "c08");
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 3000) && bad < 5)
  {
    auto p = Make(mode, rng.Next() >> 16);
    bool par = p.tree.Threads() || p.ops.find('h') != std::string::npos;
    for (int k = 0; k < (par ? (int)a.Int("schedules", 3) : 1); ++k)
    {
      auto c = RandomConfig(rng, true, par);
      if (!one(p, c)) { ++bad; break; }
    }
  }
  out.Stats();
  _exit(0);
}
