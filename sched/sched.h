// Deterministic scheduler for conformance drivers.
//
// Linking sched.cpp into a driver interposes the pthread, futex, clock and sleep entry points that
// the C++ standard library uses. Inside sched::Run every thread is serialised: exactly one runs,
// and the scheduler decides at every synchronisation operation who goes on. Time is virtual: it
// moves only when nobody can run, or when the scheduler decides that a timeout is due early.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{
enum class Strategy { Random, Pct, Dfs };

struct Config
{
  Strategy strategy = Strategy::Random;
  std::uint64_t seed = 1;
  double switch_prob = 0.5;        // Random: chance to pick anew at a scheduling point
  double spurious_prob = 0.0;      // chance of a spurious condition variable wakeup
  double early_time_prob = 0.0;    // chance that time jumps to the next deadline
  double mem_prob = 0.0;           // chance of a switch at an instrumented memory access
  int pct_depth = 3;
  std::uint64_t max_steps = 200000;
  std::vector<int> prefix;         // Dfs: decisions to repeat
  int preemption_bound = 2;        // Dfs
};

enum class Outcome { Done, Deadlock, StepLimit, Exception };

struct Decision
{
  int chosen;
  int options;   // number of alternatives
  bool free;     // choosing another one costs no preemption
  int preemptions_before;
};

struct Result
{
  Outcome outcome = Outcome::Done;
  std::uint64_t steps = 0;
  std::string detail;              // who was blocked on what, or the exception text
  std::vector<Decision> decisions; // Dfs
};

// Runs body as thread 0. Returns when all threads have ended, or no thread can ever run again
// (Deadlock), or the step limit was hit. In the last two cases the threads are abandoned: the
// process must not touch what they use, and normally ends soon.
Result Run(const Config& cfg, const std::function<void()>& body);

// Exhaustive exploration with a preemption bound: calls body again and again under every schedule.
// `after` sees each result; return false to stop. Returns the number of schedules; *complete tells
// whether the space was exhausted within max_runs.
std::uint64_t Explore(Config cfg, std::uint64_t max_runs, const std::function<void()>& body,
                      const std::function<bool(const Result&)>& after, bool* complete);

bool Controlled();                 // is the calling thread under the scheduler?
void Yield();                      // explicit scheduling point
// Code under test is compiled with -fsanitize=thread but linked with the entry points of sched.cpp
// instead of the sanitizer's runtime: every memory access is then a possible scheduling point.
// NoMem turns that off for the harness's own bookkeeping.
struct NoMem { NoMem(); ~NoMem(); };
int Self();                        // index of the calling thread, -1 when not controlled
std::uint64_t Now();               // virtual nanoseconds
void SetName(const std::string& name);
std::uint64_t Rand();              // deterministic per run
// Number of live threads other than the caller, and whether all of them are blocked.
int LiveOthers();
bool OthersIdle();   // every other thread has ended or waits for something without a time limit
// Blocks the caller until every other thread is blocked without a deadline or finished.
void WaitQuiescent();
}  // namespace sched

#endif
