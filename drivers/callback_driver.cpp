// Drives NamedCallbackManager from several threads under the deterministic scheduler.
#include "drv.h"

#include <sup/oac-tree/named_callback_manager.h>

#include <memory>
#include <stdexcept>
#include <thread>

using namespace drv;
using Manager = sup::oac_tree::NamedCallbackManager<int, std::string>;

// G generic, N named, X named throwing, Y generic throwing, E empty generic, F empty named,
// U unregister, C execute, D drop a callback guard
struct Op { char k; int lis; int name; };
using Prog = std::vector<std::vector<Op>>;
static std::string Text(const Prog& p)
{
  std::string s;
  for (std::size_t i = 0; i < p.size(); ++i)
  {
    if (i) s += '|';
    for (auto& o : p[i]) { s += o.k; s += char('0' + o.lis); s += char('0' + o.name); }
  }
  return s;
}
static Prog Parse(const std::string& s)
{
  Prog p(1);
  for (std::size_t i = 0; i < s.size();)
  {
    if (s[i] == '|') { p.emplace_back(); ++i; continue; }
    p.back().push_back({s[i], s[i + 1] - '0', s[i + 2] - '0'});
    i += 3;
  }
  return p;
}

struct World
{
  Manager m;
  int listeners[4];
  int next_id = 1;
  int arg = 0;
};
static thread_local int t_index = 0;

static void Exec(World& w, int t, const Op& o)
{
  void* lis = o.lis ? &w.listeners[o.lis] : nullptr;
  std::string name = std::string(1, char('a' + o.name));
  int id = 0, arg = 0;
  { sched::NoMem nm; id = w.next_id++; arg = ++w.arg; }
  bool thr = o.k == 'X' || o.k == 'Y';
  auto call = [&](const char* op) { evlog().Add(Ev("call").I("t", t).Raw("c",
      std::string("{\"op\":\"") + op + "\",\"id\":" + std::to_string(id) + ",\"lis\":" + std::to_string(o.lis) +
      ",\"x\":" + (thr ? "true" : "false") + ",\"name\":\"" + name + "\",\"arg\":" + std::to_string(arg) + "}")); };
  auto ret = [&](bool ok) { evlog().Add(Ev("ret").I("t", t).B("ok", ok)); };
  // the second argument repeats the first, so that a mix-up of arguments is visible
  auto cb = [id, thr](bool generic, const std::string& n, int a, const std::string& b)
  {
    evlog().Add(Ev("cb").I("t", t_index).I("id", id).B("generic", generic).S("name", n).I("arg", b == std::to_string(a) ? a : -1));
    sched::Yield();
    if (thr) throw std::runtime_error("callback");
  };
  switch (o.k)
  {
  case 'G': case 'Y':
    call("regG");
    ret(w.m.RegisterGenericCallback([cb](const std::string& n, int a, const std::string& b) { cb(true, n, a, b); }, lis));
    break;
  case 'N': case 'X':
    call("regN");
    ret(w.m.RegisterCallback(name, [cb](int a, const std::string& b) { cb(false, "", a, b); }, lis));
    break;
  case 'E': call("regEmpty"); ret(w.m.RegisterGenericCallback({}, lis)); break;
  case 'F': call("regEmpty"); ret(w.m.RegisterCallback(name, {}, lis)); break;
  case 'U': call("unreg"); ret(w.m.UnregisterListener(lis)); break;
  case 'C':
  {
    call("exec");
    bool ok = true;
    try { w.m.ExecuteCallbacks(name, arg, std::to_string(arg)); }
    catch (const std::runtime_error&) { ok = false; }
    ret(ok);
    break;
  }
  case 'D':
  {
    auto g = w.m.GetCallbackGuard(lis);
    sup::oac_tree::ScopeGuard other{std::move(g)};
    call("drop");
    other = sup::oac_tree::ScopeGuard{};
    ret(true);
    break;
  }
  }
}

static void Body(const Prog& p)
{
  auto w = std::make_shared<World>();
  t_index = 0;
  for (auto& o : p[0]) Exec(*w, 0, o);
  std::vector<std::thread> ts;
  for (std::size_t i = 1; i < p.size(); ++i)
    ts.emplace_back([&, i] { t_index = (int)i; for (auto& o : p[i]) Exec(*w, (int)i, o); });
  for (auto& t : ts) t.join();
  t_index = 0;
  Exec(*w, 0, {'C', 0, 0});
  Exec(*w, 0, {'C', 0, 1});
  Exec(*w, 0, {'U', 1, 0});
  Exec(*w, 0, {'C', 0, 0});
  Exec(*w, 0, {'U', 2, 0});
  Exec(*w, 0, {'C', 0, 1});
  Exec(*w, 0, {'U', 0, 0});
  Exec(*w, 0, {'C', 0, 0});
}

static Prog RandomProg(Rng& r)
{
  Prog p(1);
  static const char pre[] = "GNNGNNYXEF", ops[] = "GNUCCCDCGNUCX";
  int n = r.R(0, 6);
  for (int i = 0; i < n; ++i) p[0].push_back({pre[r.N(10)], r.N(4), r.N(2)});
  int th = r.R(0, 3);
  if (th == 0)
    for (int i = 0; i < 10; ++i) p[0].push_back({ops[r.N(13)], r.N(4), r.N(2)});
  for (int t = 0; t < th; ++t)
  {
    p.emplace_back();
    int k = r.R(1, 4);
    for (int i = 0; i < k; ++i) p.back().push_back({ops[r.N(13)], r.N(4), r.N(2)});
  }
  return p;
}

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    auto t = Text(p);
    out.Current(t + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    Close(res);
    out.Trace(t, SchedText(c));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog")) { one(Parse(a.Str("prog")), ParseSched(a.Str("sched"))); out.Stats(); _exit(0); }
  Deadline dl(a.Int("seconds", 5));
  Rng r(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 3000) && bad < 5)
  {
    auto p = RandomProg(r);
    for (int k = 0; k < (p.size() > 1 ? 4 : 1); ++k)
      if (!one(p, RandomConfig(r))) { ++bad; break; }
  }
  out.Stats();
  _exit(0);
}
