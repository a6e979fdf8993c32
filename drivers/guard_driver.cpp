// Replays programs over scope guards and records which actions run during each operation.
#include "drv.h"

#include <sup/oac-tree/scope_guard.h>

#include <memory>
#include <new>

using namespace drv;
using sup::oac_tree::ScopeGuard;

struct Op { char k; int x, y; };
using Prog = std::vector<Op>;
static std::string Text(const Prog& p)
{
  std::string s;
  for (auto& o : p) { s += o.k; s += char('0' + o.x); s += std::to_string(o.y); s += ' '; }
  return s;
}
static Prog Parse(const std::string& s)
{
  Prog p;
  std::istringstream in(s);
  for (std::string w; in >> w;) p.push_back({w[0], w[1] - '0', std::atoi(w.c_str() + 2)});
  return p;
}

struct World
{
  alignas(ScopeGuard) unsigned char mem[10][sizeof(ScopeGuard)];
  ScopeGuard* g[10] = {};
  std::vector<int> ran;
  void Do(const Op& o)
  {
    ran.clear();
    Ev e(std::string(1, o.k));
    e.I("x", o.x).I("y", o.y);
    bool valid = false;
    switch (o.k)
    {
    case 'n': g[o.x] = new (mem[o.x]) ScopeGuard([this, a = o.y] { ran.push_back(a); }); break;
    case 'e': g[o.x] = o.y ? new (mem[o.x]) ScopeGuard(std::function<void()>{}) : new (mem[o.x]) ScopeGuard(); break;
    case 'd': g[o.x]->~ScopeGuard(); g[o.x] = nullptr; break;
    case 'v': valid = g[o.x]->IsValid(); break;
    case 'm': g[o.x] = new (mem[o.x]) ScopeGuard(std::move(*g[o.y])); break;
    case 'a': *g[o.x] = std::move(*g[o.y]); break;
    case 's': g[o.x]->Swap(*g[o.y]); break;
    }
    e.L("ran", ran);
    if (o.k == 'v') e.B("valid", valid);
    evlog().Add(e);
  }
};

// Every operation is followed by a look at all guards.
static void Exec(const Prog& p)
{
  World w;
  for (auto& o : p)
  {
    w.Do(o);
    for (int s = 1; s < 10; ++s) if (w.g[s]) w.Do({'v', s, 0});
  }
  for (int s = 1; s < 10; ++s) if (w.g[s]) w.Do({'d', s, 0});
  evlog().Add(Ev("end"));
}

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p)
  {
    auto t = Text(p);
    out.Current(t);
    evlog().ev.clear();
    Exec(p);
    out.Trace(t, "");
  };
  if (a.Has("prog")) { one(Parse(a.Str("prog"))); out.Stats(); return 0; }
  if (a.Has("progs"))
  {
    std::ifstream in(a.Str("progs"));
    for (std::string line; std::getline(in, line);) one(Parse(line));
  }
  Rng r(a.Int("seed", 1));
  for (int i = 0; i < a.Int("random", 300); ++i)
  {
    Prog p;
    bool alive[5] = {};
    int next = 1, len = r.R(5, 40);
    while ((int)p.size() < len)
    {
      int x = r.R(1, 4), y = r.R(1, 4);
      switch (r.N(7))
      {
      case 0: case 1: if (!alive[x]) { p.push_back({'n', x, next++}); alive[x] = true; } break;
      case 2: if (!alive[x]) { p.push_back({'e', x, r.N(2)}); alive[x] = true; } break;
      case 3: if (alive[x] && r.P(0.6)) { p.push_back({'d', x, 0}); alive[x] = false; } break;
      case 4: if (!alive[x] && alive[y]) { p.push_back({'m', x, y}); alive[x] = true; } break;
      case 5: if (alive[x] && alive[y]) p.push_back({'a', x, y}); break;
      case 6: if (alive[x] && alive[y]) p.push_back({'s', x, y}); break;
      }
    }
    one(p);
  }
  out.Stats();
  _exit(0);
}
