// Drives JobCommandQueue from several threads under the deterministic scheduler and records every
// call, every execution of an interrupt action and every return.
#include "drv.h"

#include <sup/oac-tree/job_command_queue.h>

#include <atomic>
#include <memory>
#include <stdexcept>
#include <thread>

using namespace drv;
using sup::oac_tree::JobCommand;
using sup::oac_tree::JobCommandQueue;

struct Op
{
  char kind;  // P push, R priority push, N priority push without action, X action throws, T trypop, W wait, E empty, S size
  int cmd;
};
using Prog = std::vector<std::vector<Op>>;

static std::string Text(const Prog& p)
{
  std::string s;
  for (auto& t : p)
  {
    if (!s.empty()) s += "|";
    for (auto& o : t) { s += o.kind; s += char('0' + o.cmd); }
  }
  return s;
}
static Prog Parse(const std::string& s)
{
  Prog p(1);
  for (std::size_t i = 0; i < s.size();)
  {
    if (s[i] == '|') { p.emplace_back(); ++i; continue; }
    p.back().push_back({s[i], s[i + 1] - '0'});
    i += 2;
  }
  return p;
}

struct ActionError : std::runtime_error { ActionError() : std::runtime_error("action") {} };

static void Exec(JobCommandQueue& q, int t, const Op& o)
{
  auto cmd = static_cast<JobCommand>(o.cmd);
  auto call = [&](const char* op) { evlog().Add(Ev("call").I("t", t).S("op", op).I("a", o.cmd)); };
  auto ret = [&](bool ok, int v) { evlog().Add(Ev("ret").I("t", t).B("ok", ok).I("v", v)); };
  auto action = [t] { evlog().Add(Ev("cb").I("t", t)); sched::Yield(); };
  switch (o.kind)
  {
  case 'P': call("push"); q.Push(cmd); ret(true, 0); break;
  case 'R': { call("prio"); bool ok = q.PriorityPush(cmd, action); ret(ok, 0); break; }
  case 'N': { call("prioN"); bool ok = q.PriorityPush(cmd, {}); ret(ok, 0); break; }
  case 'X':
  {
    call("prioX");
    bool ok = false;
    int v = 0;
    try { ok = q.PriorityPush(cmd, [&] { action(); throw ActionError(); }); }
    catch (const ActionError&) { v = 9; }
    ret(ok, v);
    break;
  }
  case 'T':
  {
    call("pop");
    auto c = static_cast<JobCommand>(0);
    bool ok = q.TryPop(c);
    ret(ok, ok ? static_cast<int>(c) : 0);
    break;
  }
  case 'W': { call("wait"); auto c = q.WaitForNextCommand(); ret(true, static_cast<int>(c)); break; }
  case 'E': { call("empty"); bool e = q.IsEmpty(); ret(e, 0); break; }
  case 'S': { call("size"); auto n = q.GetSize(); ret(true, static_cast<int>(n)); break; }
  }
}

static void Body(const Prog& prog)
{
  auto q = std::make_shared<JobCommandQueue>();
  std::atomic<int> waiting{0};
  // thread 0's part runs first, alone
  for (auto& o : prog[0]) Exec(*q, 0, o);
  std::vector<std::thread> ts;
  for (std::size_t i = 1; i < prog.size(); ++i)
    ts.emplace_back([&, i] { for (auto& o : prog[i]) Exec(*q, (int)i, o); ++waiting; });
  int n = (int)prog.size() - 1;
  for (int guard = 0; guard < 60; ++guard)
  {
    sched::WaitQuiescent();
    if (waiting == n) break;
    // everybody left is blocked: the specification says whether that is right
    evlog().Add(Ev("stuck"));
    Exec(*q, 0, {'P', guard % 6});
  }
  for (auto& t : ts) t.join();
  // drain
  for (int i = 0; i < 40; ++i)
  {
    Exec(*q, 0, {'S', 0});
    if (q->IsEmpty()) break;
    Exec(*q, 0, {'T', 0});
  }
  Exec(*q, 0, {'E', 0});
  Exec(*q, 0, {'T', 0});
}

static Prog RandomProg(Rng& r)
{
  Prog p(1);
  auto cmd = [&] { return r.N(6); };
  int pre = r.N(4);
  for (int i = 0; i < pre; ++i) p[0].push_back({r.P(0.7) ? 'P' : 'R', cmd()});
  int n = r.R(1, 3);
  for (int t = 0; t < n; ++t)
  {
    p.emplace_back();
    int k = r.R(1, 4);
    static const char prodk[] = "PPPRRRNXTES";
    static const char consk[] = "WWWTTPR";
    bool cons = r.P(0.45);
    for (int i = 0; i < k; ++i)
      p.back().push_back({cons ? consk[r.N(7)] : prodk[r.N(11)], cmd()});
  }
  return p;
}

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    auto text = Text(p);
    out.Current(text + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    Close(res);
    out.Trace(text, SchedText(c));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(Parse(a.Str("prog")), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  Rng rng(a.Int("seed", 1));
  long long dfs_runs = 0;
  int dfs_complete = 0, dfs_progs = 0, bad = 0;
  // systematic part: small programs, every schedule within the preemption bound
  std::vector<std::string> small = {"|P0|W0", "|P3|T0T0", "|R4|W0", "P0|R4|T0T0", "P4|R4|T0", "P5|R4|W0",
    "P3|R5|R4|T0T0", "|P0P1|W0W0", "|P0|P1|W0W0", "P0P1|R4|T0T0", "|W0|W0|P1P2", "|W0|R5|P2", "|X4|W0|P1",
    "P1|X4|T0R4", "|N4|R5|T0T0", "P0|R4|R4|W0", "|S0E0|R4|T0", "P2|R3P1|T0T0T0", "|W0|W0|R4|R5", "P4P0|R5|R4|W0W0"};
  long long dfs_max = a.Int("dfs", 400);
  for (auto& s : small)
  {
    auto p = Parse(s);
    bool complete = false;
    sched::Config c;
    c.preemption_bound = (int)a.Int("bound", 2);
    out.Current(s + "\n" + SchedText(c));
    evlog().ev.clear();
    dfs_runs += sched::Explore(c, dfs_max, [&] { Body(p); },
                               [&](const sched::Result& r)
                               {
                                 Close(r);
                                 auto rc = c;
                                 rc.strategy = sched::Strategy::Dfs;
                                 for (auto& d : r.decisions) rc.prefix.push_back(d.chosen);
                                 out.Trace(s, SchedText(rc));
                                 evlog().ev.clear();
                                 if (r.outcome != sched::Outcome::Done) ++bad;
                                 return bad < 5 && !dl.Over();
                               }, &complete);
    ++dfs_progs;
    dfs_complete += complete;
    if (bad >= 5) break;
  }
  long long max = a.Int("runs", 1000000);
  while (!dl.Over() && out.Count() < a.Int("traces", 3000) && max-- > 0 && bad < 5)
  {
    auto p = RandomProg(rng);
    for (int k = 0; k < 3; ++k)
      if (!one(p, RandomConfig(rng))) { ++bad; break; }
  }
  out.Stats(",\"dfs_runs\":" + std::to_string(dfs_runs) + ",\"dfs_programs\":" + std::to_string(dfs_progs) +
            ",\"dfs_programs_exhausted\":" + std::to_string(dfs_complete));
  _exit(0);
}
