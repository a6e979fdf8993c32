// Several threads ask for user input through the real AsyncInputAdapter; the provider is scripted.
#include "drv.h"

#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/user_interface.h>

#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

using namespace drv;
using namespace sup::oac_tree;
using sup::dto::AnyValue;

namespace
{
thread_local int tls_th = 0;
std::uint64_t t0 = 0;
void Add(Ev e)
{
  sched::NoMem nm;
  evlog().Add(e.I("t", (long long)((sched::Now() - t0) / 1000)));
}

// N request, R ready?, W wait (a: 0 none, else a*10 ms), G fetch, D drop, I id, Z sleep a*10 ms
struct Op { char kind; int slot; int a; };
using Prog = std::vector<std::vector<Op>>;   // [0]: main, afterwards; last character of the text: leak or not

std::string Text(const Prog& p)
{
  std::string s;
  for (auto& t : p)
  {
    if (&t != &p[0]) s += "|";
    for (auto& o : t) s += std::string() + o.kind + std::to_string(o.slot) + "," + std::to_string(o.a) + ";";
  }
  return s;
}
Prog Parse(const std::string& s)
{
  Prog p(1);
  for (std::size_t i = 0; i < s.size();)
  {
    if (s[i] == '|') { p.emplace_back(); ++i; continue; }
    Op o{s[i], 0, 0};
    std::size_t n;
    o.slot = std::stoi(s.substr(i + 1), &n);
    i += 1 + n + 1;
    o.a = std::stoi(s.substr(i), &n);
    i += n + 1;
    p.back().push_back(o);
  }
  return p;
}

// What is asked is a number x: x % 4 is what the provider does (answer at once, after a while, when
// interrupted or very late, after a while without minding interrupts), (x / 4) % 2 the kind of input,
// (x / 8) % 4 how long, (x / 32) % 3 whether the user refuses (0), x / 96 makes it unique.
UserInputRequest Request(int x)
{
  auto text = "question " + std::to_string(x);
  if ((x / 4) % 2) return CreateUserValueRequest(AnyValue(sup::dto::int32(x)), text);
  auto meta = CreateUserChoiceMetadata();
  return CreateUserChoiceRequest({"yes", text, "no"}, meta);
}
int Asked(const UserInputRequest& r)
{
  std::string text;
  std::vector<std::string> options;
  AnyValue meta, value;
  if (ParseUserValueRequest(r, value, text))
  {
    if (value.GetType() != sup::dto::SignedInteger32Type) return -2;
  }
  else if (ParseUserChoiceRequest(r, options, meta))
  {
    if (options.size() != 3 || options[0] != "yes" || options[2] != "no" || !IsUserChoiceMetadata(meta)) return -3;
    text = options[1];
  }
  else return -4;
  if (text.rfind("question ", 0) != 0) return -5;
  int x = std::stoi(text.substr(9));
  return r == Request(x) ? x : -6;
}
UserInputReply Reply(int x)
{
  bool ok = (x / 32) % 3 != 0;
  if ((x / 4) % 2) return CreateUserValueReply(ok, ok ? AnyValue(sup::dto::int32(x)) : AnyValue());
  return CreateUserChoiceReply(ok, ok ? x : -1);
}
// the number the reply carries; a refusal: the negative of its kind minus ten
int Code(const UserInputReply& r)
{
  auto v = ParseUserValueReply(r);
  if (v.first) return v.second.GetType() == sup::dto::SignedInteger32Type ? (int)v.second.As<sup::dto::int32>() : -7;
  auto c = ParseUserChoiceReply(r);
  if (c.first) return c.second;
  return -10 - (int)r.m_request_type;
}

struct Provider
{
  std::mutex m;
  std::condition_variable cv;
  std::set<unsigned long long> stopped;
  UserInputReply Ask(const UserInputRequest& r, sup::dto::uint64 id)
  {
    int x = Asked(r);
    Add(Ev("begin").I("id", (long long)id).I("tag", x));
    int ms = 10 * (1 + (x / 8) % 4);
    switch (x < 0 ? 0 : x % 4)
    {
    case 1:
    case 2:
    {
      std::unique_lock<std::mutex> lk(m);
      cv.wait_for(lk, std::chrono::milliseconds(x % 4 == 1 ? ms : 60000), [&] { return stopped.count(id) > 0; });
      break;
    }
    case 3: std::this_thread::sleep_for(std::chrono::milliseconds(ms)); break;
    default: break;
    }
    auto reply = x < 0 ? kInvalidUserInputReply : Reply(x);
    Add(Ev("finish").I("id", (long long)id).I("v", Code(reply)));
    return reply;
  }
  void Interrupt(sup::dto::uint64 id)
  {
    Add(Ev("intr").I("th", tls_th).I("id", (long long)id));
    {
      std::lock_guard<std::mutex> lk(m);
      stopped.insert(id);
    }
    cv.notify_all();
  }
};

struct Slot { std::unique_ptr<IUserInputFuture> f; long long id = 0; };

void Exec(AsyncInputAdapter& a, Slot& s, int t, const Op& o)
{
  tls_th = t;
  auto call = [&](const char* op, long long id, int x) { Add(Ev("call").I("th", t).S("op", op).I("id", id).I("x", x)); };
  auto ret = [&](long long v) { Add(Ev("ret").I("th", t).I("v", v)); };
  if (o.kind == 'Z') { std::this_thread::sleep_for(std::chrono::milliseconds(10 * o.a)); return; }
  if (o.kind == 'N')
  {
    if (s.f) return;
    call("request", 0, o.a);
    s.f = a.AddUserInputRequest(Request(o.a));
    s.id = (long long)s.f->GetId();
    ret(s.id);
    return;
  }
  if (!s.f) return;
  switch (o.kind)
  {
  case 'R': call("ready", s.id, 0); ret(s.f->IsReady()); break;
  case 'I': call("id", s.id, 0); { auto id = (long long)s.f->GetId(); ret(s.f->IsValid() == (id != 0) ? id : -1); } break;
  case 'W': call("wait", s.id, 10000 * o.a); ret(s.f->WaitFor(0.01 * o.a)); break;
  case 'G':
  {
    call("get", s.id, 0);
    long long v = -1;
    try
    {
      v = Code(s.f->GetValue());
      s.id = 0;
    }
    catch (const InvalidOperationException&) {}
    ret(v);
    break;
  }
  case 'D': call("cancel", s.id, 0); s.f.reset(); ret(0); break;
  }
}

void Body(const Prog& prog)
{
  t0 = sched::Now();
  tls_th = 0;
  Provider p;
  auto a = std::make_unique<AsyncInputAdapter>([&p](const UserInputRequest& r, sup::dto::uint64 id) { return p.Ask(r, id); },
                                               [&p](sup::dto::uint64 id) { p.Interrupt(id); });
  std::vector<Slot> slots(16);
  std::vector<std::thread> ts;
  for (std::size_t i = 1; i < prog.size(); ++i)
    ts.emplace_back([&, i] { for (auto& o : prog[i]) Exec(*a, slots[o.slot], (int)i, o); });
  for (auto& t : ts) t.join();
  for (auto& o : prog[0]) Exec(*a, slots[o.slot], 0, o);
  // futures that are still there are never used again
  Add(Ev("call").I("th", 0).S("op", "shut").I("id", 0).I("x", 0));
  a.reset();
  Add(Ev("ret").I("th", 0).I("v", 0));
  for (auto& s : slots) s.f.release();
}

Prog RandomProg(Rng& r)
{
  Prog p(1);
  int n = r.R(1, 5), slot = 0, unique = 0;
  std::vector<std::vector<int>> own(n + 1);
  for (int t = 1; t <= n; ++t)
  {
    p.emplace_back();
    int k = r.R(1, slot + n > 12 ? 1 : 3);
    for (int i = 0; i < k; ++i) own[t].push_back(slot++);
    int ops = r.R(2, 8);
    if (r.P(0.3)) p.back().push_back({'Z', 0, r.R(0, 4)});
    static const char* const mixes[] = {"RWGGDIZ", "WWGWGW", "DDWGNZ", "WGNWGD"};
    const char* mix = mixes[r.N(4)];
    auto request = [&](int s) { return Op{'N', s, (int)(96 * ++unique + 32 * r.N(3) + 8 * r.N(4) + 4 * r.N(2) + (r.P(0.4) ? r.N(2) : r.N(4)))}; };
    for (int s : own[t]) if (r.P(0.8)) p.back().push_back(request(s));
    for (int i = 0; i < ops; ++i)
    {
      char c = mix[r.N((int)std::strlen(mix))];
      int s = own[t][r.N((int)own[t].size())];
      if (c == 'N') p.back().push_back(request(s));
      else p.back().push_back({c, s, c == 'W' ? (r.P(0.7) ? r.R(0, 12) : 100) : c == 'Z' ? r.R(1, 6) : 0});
    }
    // leave, drop or fetch what is left
    for (int s : own[t])
      if (r.P(0.4)) p.back().push_back({'D', s, 0});
      else if (r.P(0.5)) { p.back().push_back({'W', s, r.P(0.5) ? 20 : 7000}); p.back().push_back({'G', s, 0}); }
  }
  for (int s = 0; s < slot; ++s)
    if (r.P(0.6)) p[0].push_back({r.P(0.7) ? 'D' : 'W', s, r.R(0, 10)});
  return p;
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const Prog& p, const sched::Config& c)
  {
    auto text = Text(p);
    out.Current(text + "\n" + SchedText(c));
    evlog().ev.clear();
    auto res = sched::Run(c, [&] { Body(p); });
    Close(res);
    if (res.outcome == sched::Outcome::Done) evlog().ev.back() = Ev("end").I("t", (long long)((sched::Now() - t0) / 1000)).Str();
    out.Trace(text, SchedText(c));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(Parse(a.Str("prog")), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 3000) && bad < 5)
  {
    auto p = RandomProg(rng);
    for (int k = 0; k < 3; ++k)
      if (!one(p, RandomConfig(rng))) { ++bad; break; }
  }
  out.Stats();
  _exit(0);
}
