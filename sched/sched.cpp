#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <unordered_map>

namespace
{
long RawSyscall(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
void FutexWait(volatile int* addr, int val)
{
  RawSyscall(SYS_futex, (long)addr, FUTEX_WAIT_PRIVATE, val, 0, 0, 0);
}
void FutexWake(volatile int* addr)
{
  RawSyscall(SYS_futex, (long)addr, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

template <typename F> F Real(const char* name)
{
  void* p = dlsym(RTLD_NEXT, name);
  if (!p)
  {
    fprintf(stderr, "sched: no %s\n", name);
    _exit(2);
  }
  return reinterpret_cast<F>(p);
}

const std::uint64_t kNever = ~0ull;

enum class Why { None, Mutex, Cond, Futex, Join, Sleep, Guard, Quiet };
const char* const kWhy[] = {"none", "mutex", "cond", "futex", "join", "sleep", "guard", "quiet"};

struct Thread
{
  int id = 0;
  std::string name;
  volatile int baton = 0;
  bool finished = false;
  bool blocked = false;
  Why why = Why::None;
  const void* obj = nullptr;
  std::uint64_t deadline = kNever;  // for timed blocking
  bool timed_out = false;
  pthread_t pt{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  std::uint64_t prio = 0;  // PCT
  bool detached = false;
};

struct Mutex
{
  Thread* owner = nullptr;
  int depth = 0;
};

struct World
{
  sched::Config cfg;
  std::vector<std::unique_ptr<Thread>> threads;
  std::unordered_map<const void*, Mutex> mutexes;
  Thread* current = nullptr;
  std::uint64_t now = 1700000000ull * 1000000000ull;
  std::uint64_t steps = 0;
  std::uint64_t rng = 1;
  sched::Outcome outcome = sched::Outcome::Done;
  std::string detail;
  volatile int done = 0;
  std::vector<sched::Decision> decisions;
  int preemptions = 0;
  std::vector<std::uint64_t> change_points;
  std::uint64_t low_prio = 1000;
  bool dead = false;
};

World* g_world = nullptr;
thread_local Thread* t_self = nullptr;

std::uint64_t NextRand(World& w)
{
  // splitmix64
  std::uint64_t z = (w.rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
bool Chance(World& w, double p) { return p > 0 && (NextRand(w) >> 11) * (1.0 / 9007199254740992.0) < p; }

[[noreturn]] void Park()
{
  volatile int never = 0;
  while (true) FutexWait(&never, 0);
}

std::string Describe(World& w)
{
  std::string s;
  for (auto& t : w.threads)
  {
    if (t->finished) continue;
    if (!s.empty()) s += ", ";
    s += "thread " + std::to_string(t->id) + (t->name.empty() ? "" : "(" + t->name + ")") + " " +
         (t->blocked ? std::string("blocked on ") + kWhy[(int)t->why] : std::string("runnable"));
  }
  return s;
}

// Ends the run without finishing the threads.
[[noreturn]] void Abandon(World& w, sched::Outcome o)
{
  w.outcome = o;
  w.detail = Describe(w);
  w.dead = true;
  w.done = 1;
  FutexWake(&w.done);
  Park();
}

// Ends the run because of a use of the synchronisation primitives that has no defined meaning.
[[noreturn]] void Misuse(World& w, const char* what)
{
  w.outcome = sched::Outcome::Exception;
  w.detail = what;
  w.dead = true;
  w.done = 1;
  FutexWake(&w.done);
  Park();
}
// A destroyed condition variable is filled with a pattern that its next construction overwrites.
const unsigned char kGone = 0xDD;
const unsigned char kFreed = 0xA5;   // MALLOC_PERTURB_=165
bool Filled(const void* p, std::size_t from, std::size_t to, unsigned char c)
{
  auto b = static_cast<const unsigned char*>(p);
  for (std::size_t i = from; i < to; ++i)
    if (b[i] != c) return false;
  return true;
}
void CheckCond(World& w, const pthread_cond_t* c)
{
  if (Filled(c, 0, sizeof *c, kGone)) Misuse(w, "a condition variable is used after its destruction");
  if (Filled(c, 16, sizeof *c, kFreed)) Misuse(w, "a condition variable is used after its memory was freed");
}
void CheckMutex(World& w, const pthread_mutex_t* m)
{
  if (Filled(m, 16, sizeof *m, kFreed)) Misuse(w, "a mutex is used after its memory was freed");
}

void HandOver(World& w, Thread* next, bool wait)
{
  Thread* me = t_self;
  if (next == me) return;
  w.current = next;
  next->baton = 1;
  FutexWake(&next->baton);
  if (!wait) return;
  while (!me->baton) FutexWait(&me->baton, 0);
  me->baton = 0;
}

void FireTimeouts(World& w)
{
  for (auto& t : w.threads)
    if (!t->finished && t->blocked && t->deadline <= w.now)
    {
      t->blocked = false;
      t->timed_out = t->why != Why::Sleep;
      t->deadline = kNever;
    }
}

void WakeQuietWaiters(World& w)
{
  bool busy = false;
  for (auto& t : w.threads)
    if (!t->finished && (!t->blocked || t->deadline != kNever) && t->why != Why::Quiet) busy = true;
  if (!busy)
    for (auto& t : w.threads)
      if (!t->finished && t->blocked && t->why == Why::Quiet) { t->blocked = false; t->why = Why::None; }
}

// Picks the next thread. The caller is current and may be blocked, finished or runnable.
Thread* Pick(World& w, bool voluntary)
{
  Thread* me = t_self;
  if (++w.steps > w.cfg.max_steps) Abandon(w, sched::Outcome::StepLimit);
  if (Chance(w, w.cfg.early_time_prob))
  {
    std::uint64_t d = kNever;
    for (auto& t : w.threads) if (!t->finished && t->blocked) d = std::min(d, t->deadline);
    if (d != kNever) { if (d > w.now) w.now = d; FireTimeouts(w); }
  }
  else
  {
    FireTimeouts(w);
  }
  std::vector<Thread*> run;
  while (true)
  {
    run.clear();
    for (auto& t : w.threads) if (!t->finished && !t->blocked) run.push_back(t.get());
    if (!run.empty()) break;
    std::uint64_t d = kNever;
    for (auto& t : w.threads) if (!t->finished && t->blocked) d = std::min(d, t->deadline);
    if (d != kNever)
    {
      if (d > w.now) w.now = d;
      FireTimeouts(w);
      continue;
    }
    bool all = true;
    for (auto& t : w.threads) if (!t->finished) all = false;
    if (all) return nullptr;
    WakeQuietWaiters(w);
    bool any = false;
    for (auto& t : w.threads) if (!t->finished && !t->blocked) any = true;
    if (!any) Abandon(w, sched::Outcome::Deadlock);
  }
  bool me_ok = !me->finished && !me->blocked;
  if (run.size() == 1) return run[0];
  switch (w.cfg.strategy)
  {
  case sched::Strategy::Random:
    if (me_ok && !voluntary && !Chance(w, w.cfg.switch_prob)) return me;
    return run[NextRand(w) % run.size()];
  case sched::Strategy::Pct:
  {
    for (auto cp : w.change_points)
      if (cp == w.steps && me_ok) me->prio = w.low_prio--;
    if (voluntary && me_ok) me->prio = w.low_prio--;
    return *std::max_element(run.begin(), run.end(), [](Thread* a, Thread* b) { return a->prio < b->prio; });
  }
  case sched::Strategy::Dfs:
  {
    // order: the current thread first, so that choice 0 is "no preemption"
    if (me_ok)
    {
      run.erase(std::find(run.begin(), run.end(), me));
      run.insert(run.begin(), me);
    }
    bool free = !me_ok || voluntary;
    std::size_t n = w.decisions.size();
    int choice = n < w.cfg.prefix.size() ? w.cfg.prefix[n] : 0;
    if (choice >= (int)run.size()) choice = 0;
    w.decisions.push_back({choice, (int)run.size(), free, w.preemptions});
    if (choice != 0 && !free) ++w.preemptions;
    return run[choice];
  }
  }
  return run[0];
}

void Point(bool voluntary = false)
{
  World& w = *g_world;
  if (w.dead) Park();
  Thread* next = Pick(w, voluntary);
  HandOver(w, next, true);
  if (w.dead) Park();
}

// Blocks the caller until somebody unblocks it or the deadline passes; true on timeout.
bool Block(Why why, const void* obj, std::uint64_t deadline)
{
  World& w = *g_world;
  if (w.dead) Park();
  Thread* me = t_self;
  me->blocked = true;
  me->why = why;
  me->obj = obj;
  me->deadline = deadline;
  me->timed_out = false;
  Thread* next = Pick(w, true);
  HandOver(w, next, true);
  if (w.dead) Park();
  me->why = Why::None;
  me->obj = nullptr;
  me->deadline = kNever;
  bool r = me->timed_out;
  me->timed_out = false;
  return r;
}

int Unblock(Why why, const void* obj, int max)
{
  World& w = *g_world;
  std::vector<Thread*> c;
  for (auto& t : w.threads)
    if (!t->finished && t->blocked && t->why == why && t->obj == obj) c.push_back(t.get());
  int n = 0;
  while (!c.empty() && n < max)
  {
    // any waiter may be the one to wake
    std::size_t i = max == 1 && w.cfg.strategy != sched::Strategy::Dfs ? NextRand(w) % c.size() : 0;
    c[i]->blocked = false;
    c[i]->timed_out = false;
    c[i]->deadline = kNever;
    c.erase(c.begin() + i);
    ++n;
  }
  return n;
}

void LockMutex(const void* m, int recursive)
{
  World& w = *g_world;
  (void)recursive;
  while (w.mutexes[m].owner && w.mutexes[m].owner != t_self) Block(Why::Mutex, m, kNever);
  auto& mu = w.mutexes[m];
  if (mu.owner == t_self && !recursive)
  {
    // self deadlock on a normal mutex
    Block(Why::Mutex, m, kNever);
  }
  mu.owner = t_self;
  ++mu.depth;
}
void UnlockMutex(const void* m)
{
  World& w = *g_world;
  auto& mu = w.mutexes[m];
  if (mu.owner == t_self && --mu.depth == 0)
  {
    w.mutexes.erase(m);
    Unblock(Why::Mutex, m, 1 << 30);
  }
}
bool IsRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

std::uint64_t ToNs(const timespec* ts) { return (std::uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }

void* Trampoline(void* p)
{
  Thread* t = static_cast<Thread*>(p);
  t_self = t;
  World* w = g_world;
  while (!t->baton) FutexWait(&t->baton, 0);
  t->baton = 0;
  if (w->dead) Park();
  void* const ret = t->fn(t->arg);
  t->ret = ret;
  t->finished = true;
  Unblock(Why::Join, t, 1 << 30);
  Thread* next = Pick(*w, true);
  t_self = nullptr;
  if (next)
  {
    w->current = next;
    next->baton = 1;
    FutexWake(&next->baton);
  }
  else
  {
    w->done = 1;  // w and t may be gone from here on
    FutexWake(&w->done);
  }
  return ret;
}

Thread* NewThread(World& w, void* (*fn)(void*), void* arg)
{
  w.threads.emplace_back(new Thread);
  Thread* t = w.threads.back().get();
  t->id = (int)w.threads.size() - 1;
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000000 + NextRand(w) % 1000000;
  return t;
}

int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
int (*real_join)(pthread_t, void**) = nullptr;
}  // namespace

namespace sched
{
thread_local int t_nomem = 0;
NoMem::NoMem() { ++t_nomem; }
NoMem::~NoMem() { --t_nomem; }
bool Controlled() { return t_self != nullptr; }
int Self() { return t_self ? t_self->id : -1; }
void Yield() { if (t_self) Point(true); }
std::uint64_t Now() { return g_world ? g_world->now : 0; }
void SetName(const std::string& name) { if (t_self) t_self->name = name; }
std::uint64_t Rand() { return NextRand(*g_world); }
int LiveOthers()
{
  int n = 0;
  for (auto& t : g_world->threads) if (!t->finished && t.get() != t_self) ++n;
  return n;
}
bool OthersIdle()
{
  for (auto& t : g_world->threads)
    if (!t->finished && t.get() != t_self && (!t->blocked || t->deadline != kNever)) return false;
  return true;
}
void WaitQuiescent() { if (t_self) Block(Why::Quiet, nullptr, kNever); }

namespace
{
const std::function<void()>* g_body = nullptr;
std::string g_exception;
void* BodyThread(void*)
{
  try
  {
    (*g_body)();
  }
  catch (const std::exception& e)
  {
    g_exception = std::string("exception: ") + e.what();
  }
  return nullptr;
}
}  // namespace

Result Run(const Config& cfg, const std::function<void()>& body)
{
  if (!real_create)
  {
    real_create = Real<decltype(real_create)>("pthread_create");
    real_join = Real<decltype(real_join)>("pthread_join");
  }
  // worlds of abandoned runs must stay alive: their threads are parked inside them
  World* w = new World;
  w->cfg = cfg;
  w->rng = cfg.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  NextRand(*w);
  if (cfg.strategy == Strategy::Pct)
    for (int i = 0; i < cfg.pct_depth; ++i) w->change_points.push_back(1 + NextRand(*w) % 150);
  g_world = w;
  g_body = &body;
  g_exception.clear();
  Thread* t = NewThread(*w, BodyThread, nullptr);
  w->current = t;
  t->baton = 1;
  if (real_create(&t->pt, nullptr, Trampoline, t) != 0)
  {
    fprintf(stderr, "sched: cannot create thread\n");
    _exit(2);
  }
  while (!w->done) FutexWait(&w->done, 0);
  Result r;
  r.outcome = w->outcome;
  r.steps = w->steps;
  r.detail = w->detail;
  r.decisions = w->decisions;
  if (w->outcome == Outcome::Done)
  {
    for (auto& th : w->threads)
      if (!th->detached && (th->id == 0)) real_join(th->pt, nullptr);
    if (!g_exception.empty())
    {
      r.outcome = Outcome::Exception;
      r.detail = g_exception;
    }
    delete w;
  }
  g_world = nullptr;
  return r;
}

std::uint64_t Explore(Config cfg, std::uint64_t max_runs, const std::function<void()>& body,
                      const std::function<bool(const Result&)>& after, bool* complete)
{
  cfg.strategy = Strategy::Dfs;
  cfg.prefix.clear();
  std::uint64_t runs = 0;
  if (complete) *complete = false;
  while (runs < max_runs)
  {
    Result r = Run(cfg, body);
    ++runs;
    if (!after(r)) return runs;
    // next prefix: last decision that has another affordable alternative
    auto& d = r.decisions;
    int i = (int)d.size() - 1;
    for (; i >= 0; --i)
    {
      if (d[i].chosen + 1 >= d[i].options) continue;
      bool costs = !d[i].free;
      if (costs && d[i].chosen == 0 && d[i].preemptions_before >= cfg.preemption_bound) continue;
      break;
    }
    if (i < 0)
    {
      if (complete) *complete = true;
      return runs;
    }
    cfg.prefix.clear();
    for (int k = 0; k < i; ++k) cfg.prefix.push_back(d[k].chosen);
    cfg.prefix.push_back(d[i].chosen + 1);
  }
  return runs;
}
}  // namespace sched

// ---------------------------------------------------------------- interposed entry points

extern "C"
{
int pthread_create(pthread_t* pt, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
  if (!real_create) real_create = Real<decltype(real_create)>("pthread_create");
  if (!t_self) return real_create(pt, attr, fn, arg);
  Thread* t = NewThread(*g_world, fn, arg);
  int r = real_create(&t->pt, attr, Trampoline, t);
  if (r != 0)
  {
    t->finished = true;
    return r;
  }
  *pt = t->pt;
  Point();
  return 0;
}

int pthread_join(pthread_t pt, void** ret)
{
  if (!real_join) real_join = Real<decltype(real_join)>("pthread_join");
  if (!t_self) return real_join(pt, ret);
  for (auto& t : g_world->threads)
    if (pthread_equal(t->pt, pt) && !t->detached)
    {
      Thread* th = t.get();
      Point();
      while (!th->finished) Block(Why::Join, th, kNever);
      int r = real_join(pt, ret);
      th->detached = true;
      return r;
    }
  return real_join(pt, ret);
}

int pthread_detach(pthread_t pt)
{
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  if (t_self)
    for (auto& t : g_world->threads)
      if (pthread_equal(t->pt, pt)) t->detached = true;
  return real(pt);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!t_self) return real(m);
  CheckMutex(*g_world, m);
  Point();
  LockMutex(m, IsRecursive(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!t_self) return real(m);
  Point();
  auto it = g_world->mutexes.find(m);
  if (it != g_world->mutexes.end() && !(it->second.owner == t_self && IsRecursive(m))) return EBUSY;
  LockMutex(m, IsRecursive(m));
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
  static auto real = Real<int (*)(pthread_mutex_t*, const timespec*)>("pthread_mutex_timedlock");
  if (!t_self) return real(m, ts);
  Point();
  while (g_world->mutexes[m].owner)
    if (Block(Why::Mutex, m, ToNs(ts))) return ETIMEDOUT;
  LockMutex(m, IsRecursive(m));
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts)
{
  return pthread_mutex_timedlock(m, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!t_self) return real(m);
  if (g_world->dead) Park();
  UnlockMutex(m);
  Point();
  return 0;
}

// reader/writer locks are treated as exclusive
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!t_self) return real(m);
  Point();
  LockMutex(m, 1);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!t_self) return real(m);
  Point();
  LockMutex(m, 0);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!t_self) return real(m);
  UnlockMutex(m);
  Point();
  return 0;
}

static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, std::uint64_t deadline)
{
  World& w = *g_world;
  if (w.dead) Park();
  CheckCond(w, c);
  if (Chance(w, w.cfg.spurious_prob))
  {
    UnlockMutex(m);
    Point(true);
    LockMutex(m, IsRecursive(m));
    return 0;
  }
  if (deadline != kNever && deadline <= w.now)
  {
    UnlockMutex(m);
    Point(true);
    LockMutex(m, IsRecursive(m));
    return ETIMEDOUT;
  }
  UnlockMutex(m);
  bool to = Block(Why::Cond, c, deadline);
  LockMutex(m, IsRecursive(m));
  return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!t_self) return real(c, m);
  return CondWait(c, m, kNever);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
  if (!t_self) return real(c, m, ts);
  return CondWait(c, m, ToNs(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts)
{
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
  if (!t_self) return real(c, m, id, ts);
  return CondWait(c, m, ToNs(ts));
}
int pthread_cond_destroy(pthread_cond_t* c)
{
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  if (!t_self) return real(c);
  World& w = *g_world;
  if (w.dead) Park();
  CheckCond(w, c);
  for (auto& t : w.threads)
    if (!t->finished && t->blocked && t->why == Why::Cond && t->obj == c)
      Misuse(w, "a condition variable is destroyed while a thread waits for it");
  memset(c, kGone, sizeof *c);
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!t_self) return real(c);
  if (g_world->dead) Park();
  CheckCond(*g_world, c);
  Unblock(Why::Cond, c, 1);
  Point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!t_self) return real(c);
  if (g_world->dead) Park();
  CheckCond(*g_world, c);
  Unblock(Why::Cond, c, 1 << 30);
  Point();
  return 0;
}

int clock_gettime(clockid_t id, timespec* ts)
{
  if (!t_self || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_REALTIME_COARSE &&
                  id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME))
  {
    return (int)RawSyscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  }
  if (g_world->dead) Park();
  g_world->now += 1;  // a loop that only reads the clock makes progress
  ts->tv_sec = g_world->now / 1000000000ull;
  ts->tv_nsec = g_world->now % 1000000000ull;
  return 0;
}
static void Sleep(std::uint64_t deadline)
{
  if (deadline > g_world->now) Block(Why::Sleep, nullptr, deadline);
  else Point(true);
}
int nanosleep(const timespec* req, timespec* rem)
{
  static auto real = Real<int (*)(const timespec*, timespec*)>("nanosleep");
  if (!t_self) return real(req, rem);
  Sleep(g_world->now + ToNs(req));
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec* req, timespec* rem)
{
  static auto real = Real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  if (!t_self) return real(id, flags, req, rem);
  Sleep((flags & TIMER_ABSTIME) ? ToNs(req) : g_world->now + ToNs(req));
  return 0;
}
int usleep(useconds_t us)
{
  static auto real = Real<int (*)(useconds_t)>("usleep");
  if (!t_self) return real(us);
  Sleep(g_world->now + us * 1000ull);
  return 0;
}
int sched_yield(void)
{
  if (!t_self) return (int)RawSyscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  Point(true);
  return 0;
}

// std::future and std::atomic::wait go through syscall(SYS_futex, ...)
long syscall(long n, ...)
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && t_self)
  {
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    int* addr = (int*)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
      Point();
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
      std::uint64_t deadline = kNever;
      if (d)
      {
        deadline = ToNs((const timespec*)d);
        if (op == FUTEX_WAIT) deadline += g_world->now;
      }
      if (Block(Why::Futex, addr, deadline)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
    {
      if (g_world->dead) Park();
      int k = Unblock(Why::Futex, addr, (int)c);
      Point();
      return k;
    }
  }
  long r = RawSyscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096)
  {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// Function-local statics: a controlled thread must not block on another one behind our back.
int GuardAcquire(std::uint64_t* g) __asm__("__cxa_guard_acquire");
void GuardRelease(std::uint64_t* g) __asm__("__cxa_guard_release");
void GuardAbort(std::uint64_t* g) __asm__("__cxa_guard_abort");
int GuardAcquire(std::uint64_t* g)
{
  auto bytes = reinterpret_cast<volatile unsigned char*>(g);
  while (true)
  {
    if (__atomic_load_n(bytes, __ATOMIC_ACQUIRE)) return 0;
    if (t_self)
    {
      if (bytes[1] == 0) { bytes[1] = 1; return 1; }
      Block(Why::Guard, g, kNever);
    }
    else
    {
      unsigned char expected = 0;
      if (__atomic_compare_exchange_n(bytes + 1, &expected, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
      RawSyscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
  }
}
void GuardRelease(std::uint64_t* g)
{
  auto bytes = reinterpret_cast<volatile unsigned char*>(g);
  __atomic_store_n(bytes, 1, __ATOMIC_RELEASE);
  bytes[1] = 0;
  if (t_self) Unblock(Why::Guard, g, 1 << 30);
}
void GuardAbort(std::uint64_t* g)
{
  auto bytes = reinterpret_cast<volatile unsigned char*>(g);
  bytes[1] = 0;
  if (t_self) Unblock(Why::Guard, g, 1 << 30);
}
}  // extern "C"

// ---------------------------------------------------------------- memory access instrumentation
static inline void Mem()
{
  if (!t_self || sched::t_nomem) return;
  World& w = *g_world;
  if (w.cfg.mem_prob <= 0 || w.dead) return;
  if (Chance(w, w.cfg.mem_prob)) { sched::NoMem guard; Point(true); }
}
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { Mem(); }
void __tsan_vptr_read(void**) { Mem(); }
void __tsan_read_range(void*, unsigned long) { Mem(); }
void __tsan_write_range(void*, unsigned long) { Mem(); }
#define RW(n) \
  void __tsan_read##n(void*) { Mem(); } \
  void __tsan_write##n(void*) { Mem(); } \
  void __tsan_read##n##_pc(void*, void*) { Mem(); } \
  void __tsan_write##n##_pc(void*, void*) { Mem(); } \
  void __tsan_volatile_read##n(void*) { Mem(); } \
  void __tsan_volatile_write##n(void*) { Mem(); } \
  void __tsan_unaligned_read##n(void*) { Mem(); } \
  void __tsan_unaligned_write##n(void*) { Mem(); } \
  void __tsan_unaligned_volatile_read##n(void*) { Mem(); } \
  void __tsan_unaligned_volatile_write##n(void*) { Mem(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { Mem(); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { Mem(); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { Mem(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { Mem(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { Mem(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { Mem(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { Mem(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { Mem(); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { Mem(); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) \
  { Mem(); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) \
  { Mem(); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) \
  { Mem(); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
