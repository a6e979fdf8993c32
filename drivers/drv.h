// Common parts of the conformance drivers: event log, trace output, run loop.
#ifndef VERIF_DRV_H_
#define VERIF_DRV_H_

#include "../sched/sched.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace drv
{
inline std::string Q(const std::string& s)
{
  std::string r = "\"";
  for (char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if ((unsigned char)c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// One JSON object under construction.
class Ev
{
public:
  explicit Ev(const std::string& kind) : m_s("{\"k\":" + Q(kind)) {}
  Ev& I(const char* n, long long v) { m_s += std::string(",\"") + n + "\":" + std::to_string(v); return *this; }
  Ev& B(const char* n, bool v) { m_s += std::string(",\"") + n + "\":" + (v ? "true" : "false"); return *this; }
  Ev& S(const char* n, const std::string& v) { m_s += std::string(",\"") + n + "\":" + Q(v); return *this; }
  Ev& Raw(const char* n, const std::string& v) { m_s += std::string(",\"") + n + "\":" + v; return *this; }
  template <typename C> Ev& L(const char* n, const C& c)
  {
    m_s += std::string(",\"") + n + "\":[";
    const char* sep = "";
    for (auto& x : c) { m_s += sep + ToJ(x); sep = ","; }
    m_s += "]";
    return *this;
  }
  std::string Str() const { return m_s + "}"; }
  static std::string ToJ(const std::string& s) { return Q(s); }
  static std::string ToJ(long long v) { return std::to_string(v); }
  static std::string ToJ(bool v) { return v ? "true" : "false"; }
  static std::string ToJ(int v) { return std::to_string(v); }
private:
  std::string m_s;
};

// The event log of the current execution. Under the scheduler one thread runs at a time, so the
// order of the log is the order of the events.
struct Log
{
  std::vector<std::string> ev;
  std::size_t limit = 4000;
  void Add(const Ev& e) { sched::NoMem nm; if (ev.size() < limit) ev.push_back(e.Str()); }
  std::string Json() const
  {
    std::string s = "[";
    for (std::size_t i = 0; i < ev.size(); ++i) { if (i) s += ","; s += ev[i]; }
    return s + "]";
  }
};
inline Log& evlog() { static Log l; return l; }

struct Args
{
  std::map<std::string, std::string> kv;
  Args(int argc, char** argv)
  {
    for (int i = 1; i < argc; ++i)
    {
      std::string a = argv[i];
      if (a.rfind("--", 0) != 0) continue;
      auto p = a.find('=');
      if (p == std::string::npos) kv[a.substr(2)] = "1";
      else kv[a.substr(2, p - 2)] = a.substr(p + 1);
    }
  }
  bool Has(const std::string& k) const { return kv.count(k) > 0; }
  std::string Str(const std::string& k, const std::string& d = "") const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long long Int(const std::string& k, long long d) const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : std::atoll(it->second.c_str());
  }
};

// Small deterministic generator.
struct Rng
{
  std::uint64_t s;
  // neighbouring seeds must not give shifted copies of one stream
  explicit Rng(std::uint64_t seed) : s(Mix(Mix(seed + 77) + 0x9E3779B97F4A7C15ull)) {}
  std::uint64_t Next() { return Mix(s += 0x9E3779B97F4A7C15ull); }
  static std::uint64_t Mix(std::uint64_t z)
  {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int N(int n) { return n <= 0 ? 0 : (int)(Next() % (std::uint64_t)n); }
  int R(int lo, int hi) { return lo + N(hi - lo + 1); }
  bool P(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <typename C> auto& Pick(C& c) { return c[N((int)c.size())]; }
};

// Writes traces (one JSON object per line) without duplicates, and keeps a note of what is being
// executed in a shared file, so that a crash can be attributed.
class Out
{
public:
  explicit Out(const Args& a) : m_out(a.Str("out", "/dev/stdout"))
  {
    auto cur = a.Str("current");
    if (!cur.empty())
    {
      int fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ::ftruncate(fd, kSize) == 0)
      {
        void* p = ::mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) m_cur = static_cast<char*>(p);
      }
      if (fd >= 0) ::close(fd);
    }
  }
  void Current(const std::string& what)
  {
    if (!m_cur) return;
    std::size_t n = std::min(what.size(), kSize - 1);
    std::memcpy(m_cur, what.data(), n);
    m_cur[n] = 0;
  }
  // prog, sched: what was executed and how, enough to repeat it. Returns false for a duplicate.
  // extra: more fields of the trace (",\"name\":value...").
  bool Trace(const std::string& prog, const std::string& sched, const std::string& extra = "")
  {
    ++m_total;
    std::string body = evlog().Json();
    if (!m_seen.insert(prog + "|" + extra + body).second) return false;
    ++m_count;
    m_out << "{\"id\":" << m_count << ",\"prog\":" << Q(prog) << ",\"sched\":" << Q(sched) << extra
          << ",\"ev\":" << body << "}\n";
    return true;
  }
  void Stats(const std::string& extra = "")
  {
    m_out.flush();
    std::cout << "STATS {\"runs\":" << m_total << ",\"traces\":" << m_count << extra << "}" << std::endl;
  }
  long long Count() const { return m_count; }
  long long Total() const { return m_total; }
private:
  static constexpr std::size_t kSize = 16384;
  std::ofstream m_out;
  char* m_cur = nullptr;
  std::unordered_set<std::string> m_seen;
  long long m_total = 0;
  long long m_count = 0;
};

class Deadline
{
public:
  explicit Deadline(double s) : m_end(Wall() + s) {}
  bool Over() const { return Wall() > m_end; }
  static double Wall()
  {
    timespec ts;
    ::clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
  }
private:
  double m_end;
};

inline const char* OutcomeName(sched::Outcome o)
{
  switch (o)
  {
  case sched::Outcome::Done: return "done";
  case sched::Outcome::Deadlock: return "deadlock";
  case sched::Outcome::StepLimit: return "steplimit";
  case sched::Outcome::Exception: return "exception";
  }
  return "?";
}

// Adds the closing event of an execution: "end", or what went wrong.
inline void Close(const sched::Result& r)
{
  if (r.outcome == sched::Outcome::Done) evlog().Add(Ev("end"));
  else evlog().ev.push_back(Ev("abnormal").S("what", OutcomeName(r.outcome)).S("detail", r.detail).Str());
}

// A schedule configuration as text, and back: together with the program it repeats an execution.
inline std::string SchedText(const sched::Config& c)
{
  std::ostringstream o;
  o.precision(17);
  o << (int)c.strategy << ' ' << c.seed << ' ' << c.switch_prob << ' ' << c.spurious_prob << ' '
    << c.early_time_prob << ' ' << c.mem_prob << ' ' << c.pct_depth << ' ' << c.preemption_bound
    << ' ' << c.max_steps;
  for (int d : c.prefix) o << ' ' << d;
  return o.str();
}
inline sched::Config ParseSched(const std::string& s)
{
  sched::Config c;
  std::istringstream in(s);
  int st = 0;
  in >> st >> c.seed >> c.switch_prob >> c.spurious_prob >> c.early_time_prob >> c.mem_prob >> c.pct_depth
     >> c.preemption_bound >> c.max_steps;
  c.strategy = (sched::Strategy)st;
  for (int d; in >> d;) c.prefix.push_back(d);
  return c;
}

// A varied schedule configuration.
inline sched::Config RandomConfig(Rng& rng, bool spurious = true, bool early = false)
{
  sched::Config c;
  c.seed = rng.Next();
  c.strategy = rng.P(0.35) ? sched::Strategy::Pct : sched::Strategy::Random;
  c.pct_depth = rng.R(1, 4);
  static const double sw[] = {0.05, 0.2, 0.5, 1.0};
  c.switch_prob = sw[rng.N(4)];
  static const double mp[] = {0.005, 0.02, 0.1, 0.3};
  if (rng.P(0.5)) c.mem_prob = mp[rng.N(4)];
  if (spurious && rng.P(0.4)) c.spurious_prob = 0.2;
  if (early && rng.P(0.4)) c.early_time_prob = 0.05;
  return c;
}
}  // namespace drv

#endif
