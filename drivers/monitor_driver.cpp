// Reports job states to the real SimpleJobStateMonitor while other threads wait for them.
#include "drv.h"

#include <sup/oac-tree/application_utils.h>

#include <atomic>
#include <memory>
#include <thread>

using namespace drv;
using sup::oac_tree::JobState;
using sup::oac_tree::utils::SimpleJobStateMonitor;

// R report, G get, F wait for the end, S wait for a state (0.5 s), Z sleep (0.1 s times the digit)
struct Op { char kind; int a; };
using Prog = std::vector<std::vector<Op>>;

static std::string Text(const Prog& p)
{
  std::string s;
  for (auto& t : p)
  {
    if (&t != &p[0]) s += "|";
    for (auto& o : t) { s += o.kind; s += char('0' + o.a); }
  }
  return s;
}
static Prog Parse(const std::string& s)
{
  Prog p(1);
  for (std::size_t i = 0; i < s.size();)
  {
    if (s[i] == '|') { p.emplace_back(); ++i; continue; }
    p.back().push_back({s[i], s[i + 1] - '0'});
    i += 2;
  }
  return p;
}

static void Exec(SimpleJobStateMonitor& m, int t, const Op& o)
{
  const char* op = "";
  auto call = [&](const char* name) { op = name; evlog().Add(Ev("call").I("t", t).S("op", name).I("a", o.a)); };
  auto ret = [&](int v, bool late) { evlog().Add(Ev("ret").I("t", t).S("op", op).I("v", v).B("late", late)); };
  switch (o.kind)
  {
  case 'R': call("report"); m.OnStateChange(static_cast<JobState>(o.a)); ret(0, false); break;
  case 'G': { call("get"); auto s = m.GetCurrentState(); ret((int)s, false); break; }
  case 'F': { call("waitfin"); auto s = m.WaitForFinished(); ret((int)s, false); break; }
  case 'S':
  {
    call("waitst");
    auto t0 = sched::Now();
    bool ok = m.WaitForState(static_cast<JobState>(o.a), 0.5);
    ret(ok, sched::Now() - t0 >= 500000000ull);
    break;
  }
  case 'Z': std::this_thread::sleep_for(std::chrono::milliseconds(100 * o.a)); break;
  }
}

static void Body(const Prog& prog)
{
  auto m = std::make_shared<SimpleJobStateMonitor>();
  std::atomic<int> done{0};
  for (auto& o : prog[0]) Exec(*m, 0, o);
  std::vector<std::thread> ts;
  for (std::size_t i = 1; i < prog.size(); ++i)
    ts.emplace_back([&, i] { for (auto& o : prog[i]) Exec(*m, (int)i, o); ++done; });
  int n = (int)prog.size() - 1;
  for (int guard = 0; guard < 40; ++guard)
  {
    sched::WaitQuiescent();
    if (done == n) break;
    evlog().Add(Ev("stuck"));
    Exec(*m, 0, {'R', 4 + guard % 3});
  }
  for (auto& t : ts) t.join();
  Exec(*m, 0, {'G', 0});
}

static Prog RandomProg(Rng& r)
{
  Prog p(1);
  auto ops = [&](std::vector<Op>& v, const char* kinds, int lo, int hi)
  {
    int k = r.R(lo, hi);
    int nk = (int)std::strlen(kinds);
    for (int i = 0; i < k; ++i)
    {
      char c = kinds[r.N(nk)];
      v.push_back({c, (c == 'G' || c == 'F') ? 0 : c == 'Z' ? r.R(1, 5) : r.N(7)});
    }
  };
  ops(p[0], "RRG", 0, 2);
  int n = r.R(2, 5);
  for (int t = 0; t < n; ++t)
  {
    p.emplace_back();
    if (t == 0) ops(p.back(), "RRRRZG", 1, 5);
    else ops(p.back(), r.P(0.7) ? "FFFSG" : "RRSZ", 1, 3);
  }
  return p;
}

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    auto text = Text(p);
    out.Current(text + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    Close(res);
    out.Trace(text, SchedText(c));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(Parse(a.Str("prog")), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 3000) && bad < 5)
  {
    auto p = RandomProg(rng);
    for (int k = 0; k < 3; ++k)
      if (!one(p, RandomConfig(rng))) { ++bad; break; }
  }
  out.Stats();
  _exit(0);
}
