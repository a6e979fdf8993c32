// Runs the real programs, oac-tree-cli and oac-tree-daemon, on files (see spec/setup/Program.tla).
#include "doclib.h"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <set>
#include <thread>
#include <unistd.h>

int cli_main(int argc, char* argv[]);
int daemon_main(int argc, char* argv[]);

using namespace dl;
namespace fs = std::filesystem;

namespace
{
// What is shown, as lines: a line is where its first character was shown, also when another thread
// shows something before it ends. Reading what the user enters ends a line.
struct Screen : std::streambuf
{
  std::vector<std::string> lines;
  std::map<std::thread::id, std::size_t> open;
  int overflow(int c) override
  {
    sched::NoMem off;
    auto id = std::this_thread::get_id();
    if (c == '\n')
    {
      if (!open.erase(id)) lines.emplace_back();
      return c;
    }
    auto i = open.find(id);
    if (i == open.end()) { i = open.emplace(id, lines.size()).first; lines.emplace_back(); }
    lines[i->second] += (char)c;
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize k = 0; k < n; ++k) overflow((unsigned char)s[k]); return n; }
};
struct Keyboard : std::streambuf
{
  Screen& screen;
  std::vector<std::string> typed;
  std::size_t next = 0;
  std::string line;
  Keyboard(Screen& s, const std::vector<std::string>& t) : screen(s), typed(t) {}
  int underflow() override
  {
    sched::NoMem off;
    screen.open.erase(std::this_thread::get_id());
    if (next >= typed.size()) return traits_type::eof();
    line = typed[next++] + "\n";
    setg(line.data(), line.data(), line.data() + line.size());
    return (unsigned char)line[0];
  }
};
struct Capture
{
  Screen screen;
  Keyboard keys;
  std::streambuf *out, *err, *in;
  explicit Capture(const std::vector<std::string>& t) : keys(screen, t), out(std::cout.rdbuf(&screen)), err(std::cerr.rdbuf(&screen)), in(std::cin.rdbuf(&keys)) { std::cin.clear(); }
  ~Capture() { std::cout.rdbuf(out); std::cerr.rdbuf(err); std::cin.rdbuf(in); std::cin.clear(); }
};
struct Item { std::string k; int sev; std::string s; };
bool operator==(const Item& a, const Item& b) { return a.k == b.k && a.sev == b.sev && a.s == b.s; }
bool Starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
bool Ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
const char* const kLevels[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};

// What was shown, line by line. Reports of an instruction that is still busy are taken together;
// the question of an instruction comes after the report that it began (another thread asks it).
std::vector<Item> Items(const std::vector<std::string>& lines, const std::set<std::string>& asks)
{
  std::vector<Item> r;
  std::set<std::string> busy;
  if (!lines.empty() && Starts(lines[0], "usage")) return {{"out", 0, "usage"}};
  for (auto s : lines)
  {
    // a question whose line does not end (nothing is read any more when there is nothing left to read)
    std::string q;
    for (auto& w : asks)
      for (std::string t : {" (int32): ", " (string): "})
        if (Starts(s, w + t) && (s == w + t || s[(w + t).size()] == '[')) q = w + t;
    if (!q.empty())
    {
      r.push_back({"ask", 0, q});
      s.erase(0, q.size());
      if (s.empty()) continue;
    }
    if (Starts(s, "[oac-tree-cli][") || Starts(s, "[oac-tree-daemon]["))
    {
      auto a = s.find("][") + 2, b = s.find(']', a);
      int sev = std::atoi(s.substr(a, b - a).c_str());
      auto m = s.substr(b + 2);
      if (sev <= 4 && !Starts(m, "say"))
      {
        if (r.empty() || r.back().k != "trouble") r.push_back({"trouble", 0, ""});
        continue;
      }
      if (sev == 6 && Starts(m, "Instruction ("))
      {
        auto who = m.substr(0, m.rfind(" : "));
        bool begun = Ends(m, " : Not finished");
        if (begun || Ends(m, " : Running"))
        {
          if (busy.count(who)) continue;
          if (begun) busy.insert(who);
          if (begun && (Starts(who, "Instruction (Input:") || Starts(who, "Instruction (UserConfirmation:")))
          {
            auto at = r.size();
            while (at > 0 && r[at - 1].k != "log") --at;
            r.insert(r.begin() + at, {"log", sev, m});
            continue;
          }
        }
        else busy.erase(who);
      }
      r.push_back({"log", sev, m});
    }
    else if (!r.empty() && r.back().k == "trouble" && (Starts(s, "Exists(") || Starts(s, "Type of (") || Starts(s, "(") || Starts(s, "Not ("))) continue;
    else r.push_back({"out", 0, s});
  }
  return r;
}

struct Gen
{
  Rng& r;
  double fault = 0;
  bool daemon = false;
  int names = 0;
  std::vector<std::string> files;   // that can be included
  std::string Pick(std::initializer_list<const char*> l) { return l.begin()[r.N((int)l.size())]; }
  std::string Var() { return r.P(fault) ? Pick({"nosuch", ""}) : r.P(0.75) ? "n" : "s"; }
  std::string Words(bool opt) { return opt && r.P(0.15) ? "" : Pick({"say hello", "say", "say it again", "say 1: yes"}); }
  El Node(int depth)
  {
    El e;
    if (depth == 0 || r.P(0.15))
      e.t = r.P(0.25) ? Pick({"Succeed", "Fail"}) : r.P(daemon ? 0.05 : 0.25) ? Pick({"Input", "UserConfirmation"})
            : Pick({"Wait", "Message", "Message", "Log", "Log", "Output", "Condition", "Increment", "Increment"});
    else
      e.t = !files.empty() && r.P(0.2) ? "Include" : Pick({"Sequence", "Sequence", "Sequence", "Fallback", "Inverter", "ForceSuccess", "Repeat"});
    static const std::set<std::string> comp = {"Sequence", "Fallback", "Inverter", "ForceSuccess", "Repeat", "Include"};
    if (comp.count(e.t) || !r.P(0.03)) e.a.emplace_back("name", "k" + std::to_string(++names));
    if (e.t == "Wait") e.a.emplace_back("timeout", Pick({"0", "1", "1.5"}));
    if (e.t == "Message") e.a.emplace_back("text", r.P(0.2) ? (r.P(0.7) ? "@s" : "@zz") : Words(false));
    if (e.t == "Log")
    {
      bool var = r.P(0.4);
      if (!var || r.P(0.7)) e.a.emplace_back("message", Words(false));
      else e.a.emplace_back("message", "say ");
      if (var) e.a.emplace_back("inputVar", Var());
      if (r.P(0.8)) e.a.emplace_back("severity", r.P(0.05) ? "abc" : Pick({"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace"}));
    }
    if (e.t == "Output") { e.a.emplace_back("fromVar", Var()); if (r.P(0.7)) e.a.emplace_back("description", r.P(0.1) ? "@s" : Words(true)); }
    if (e.t == "Condition" || e.t == "Increment") e.a.emplace_back("varName", r.P(fault) ? Var() : "n");
    if (e.t == "Input") { e.a.emplace_back("outputVar", Var()); if (r.P(0.9)) e.a.emplace_back("description", Words(false)); }
    if (e.t == "UserConfirmation")
    {
      e.a.emplace_back("description", Words(false));
      e.a.emplace_back("okText", Pick({"say ok", "say go"}));
      e.a.emplace_back("cancelText", Pick({"say no", "say stop"}));
    }
    if (e.t == "Repeat" && !r.P(0.05)) e.a.emplace_back("maxCount", r.P(0.1) ? "0" : r.P(0.4) ? "1" : "2");
    if (e.t == "Include") e.a.emplace_back("file", r.P(fault) ? "none.xml" : files[r.N((int)files.size())]);
    else if (depth > 0 && e.t != "Include")
    {
      int n = e.t == "Sequence" || e.t == "Fallback" ? r.R(1, 3) : 1;
      if (comp.count(e.t)) for (; n > 0; --n) e.c.push_back(Node(depth - 1));
    }
    if (r.P(fault * 0.3) && e.a.size() > 1)
    {
      // (the text of a Log tells its line from one about trouble)
      auto i = e.a.begin() + r.R(1, (int)e.a.size() - 1);
      if (i->first != "message") e.a.erase(i);
    }
    return e;
  }
  El Doc(int depth)
  {
    El e{r.P(fault * 0.2) ? "Proc" : "Procedure", {}, "", {}};
    if (r.P(0.05)) e.a.emplace_back("tickTimeout", r.P(0.7) ? "1" : "abc");
    int tops = r.P(0.85) ? 1 : r.R(0, 3);
    int mark = r.N(std::max(tops, 1));
    for (int k = 0; k < tops; ++k)
    {
      e.c.push_back(Node(r.P(0.1) ? 0 : r.R(1, depth)));
      if (tops > 1 && k == mark && !r.P(0.15)) e.c.back().a.emplace_back("isRoot", "true");
    }
    El w{"Workspace", {}, "", {}};
    for (std::string n : {"s", "n"})
    {
      if (r.P(fault)) continue;
      El v{"Local", {{"name", n}, {"type", n == "n" ? "T:int" : "T:str"}}, "", {}};
      if (r.P(0.6)) v.a.emplace_back("value", r.P(fault * 0.5) ? "abc" : n == "s" ? "V:str" : Pick({"0", "1", "-1", "42"}));
      if (r.P(fault * 0.3)) v.a[1].second = "T:bad";
      w.c.push_back(v);
    }
    e.c.push_back(w);
    return e;
  }
};

std::string Body(Rng& r, sched::Config cfg, std::string& sched, bool& done)
{
  bool daemon = r.P(0.35);
  static const double faults[] = {0, 0, 0.02, 0.1};
  std::map<std::string, El> docs;
  Gen g{r};
  g.daemon = daemon;
  g.fault = faults[r.N(4)];
  int more = r.P(0.3) ? r.R(1, 2) : 0;
  for (int k = 0; k < more; ++k)
  {
    std::string f = k == 0 ? "a.xml" : "b.xml";
    docs["m/" + f] = g.Doc(1);
    g.files.push_back(f);
  }
  El x = g.Doc(3);
  bool there = !r.P(0.02), wf = !r.P(0.02);
  fs::remove("m/main.xml"); fs::remove("m/a.xml"); fs::remove("m/b.xml");
  if (there) std::ofstream("m/main.xml") << (wf ? XmlDoc(x) : XmlDoc(x) + "<x");
  for (auto& [f, d] : docs) std::ofstream(f) << XmlDoc(d);
  std::string v = r.P(0.15) ? "" : r.P(0.6) ? (r.P(0.5) ? "TRACE" : "INFO") : r.P(0.07) ? "nosuch" : kLevels[r.N(9)];
  bool file = !r.P(0.02), help = r.P(0.02), validate = !daemon && r.P(0.1);
  std::vector<std::vector<std::string>> opts;
  if (file) opts.push_back({r.P(0.5) ? "-f" : "--file", "m/main.xml"});
  if (!v.empty()) opts.push_back({r.P(0.5) ? "-v" : "--verbose", v});
  if (validate) opts.push_back({r.P(0.5) ? "-V" : "--validate"});
  if (help) opts.push_back({r.P(0.5) ? "-h" : "--help"});
  for (std::size_t k = opts.size(); k > 1; --k) std::swap(opts[k - 1], opts[r.N((int)k)]);
  std::vector<std::string> words{daemon ? "oac-tree-daemon" : "oac-tree-cli"};
  for (auto& o : opts) words.insert(words.end(), o.begin(), o.end());
  std::vector<char*> argv;
  for (auto& w : words) argv.push_back(w.data());
  argv.push_back(nullptr);
  std::vector<std::string> typed;
  for (int k = r.N(6); k > 0; --k)
  {
    typed.push_back(r.P(0.6) ? g.Pick({"1", "2", "5"}) : g.Pick({"-3", "x", "12y", "", " 7 "}));
  }
  int rc = -99;
  std::vector<std::string> shown;
  sched = SchedText(cfg);
  sched::Result res;
  {
    Capture c(typed);
    res = sched::Run(cfg, [&] { rc = daemon ? daemon_main((int)words.size(), argv.data()) : cli_main((int)words.size(), argv.data()); });
    shown = c.screen.lines;
  }
  auto& log = evlog();
  log.ev.clear();
  if (std::getenv("PROGRAM_RAW")) for (auto& l : shown) std::cerr << l << "\n";
  for (auto& i : Items(shown, {"say hello", "say", "say it again", "say 1: yes", ""}))
    log.ev.push_back(Ev("line").Raw("x", "{\"k\":" + Q(i.k) + ",\"sev\":" + std::to_string(i.sev) + ",\"s\":" + Q(i.s) + "}").Str());
  done = res.outcome == sched::Outcome::Done;
  if (done) log.ev.push_back(Ev("exit").I("n", rc).Str());
  else Close(res);
  std::string o = std::string("{\"who\":") + Q(daemon ? "daemon" : "cli") + ",\"file\":" + Q(file ? "m/main.xml" : "") + ",\"v\":" + Q(v)
                  + ",\"validate\":" + (validate ? "true" : "false") + ",\"help\":" + (help ? "true" : "false") + "}";
  std::string files = "{";
  for (auto& [f, d] : docs) files += (files.size() > 1 ? "," : "") + Q(f) + ":{\"ok\":true,\"dir\":\"m/\",\"x\":" + ElJ(d) + "}";
  return ",\"o\":" + o + ",\"main\":\"m/main.xml\",\"dir\":\"m/\",\"there\":" + (there ? "true" : "false") + ",\"wf\":" + (wf ? "true" : "false")
         + ",\"x\":" + ElJ(x) + ",\"files\":" + files + "},\"tfiles\":{},\"typed\":" + ListOf(typed, [](auto& s) { return Q(s); });
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  std::string dir = "/tmp/programXXXXXX";
  if (!::mkdtemp(dir.data())) return 3;
  auto old = fs::current_path();
  fs::current_path(dir);
  fs::create_directories("m");
  auto one = [&](unsigned long long seed, const sched::Config& c)
  {
    auto text = std::to_string(seed);
    out.Current(text + "\n" + SchedText(c));
    Rng r(seed);
    std::string sched;
    bool done = true;
    auto header = Body(r, c, sched, done);
    out.Trace(text, sched, header);
    return done;
  };
  int bad = 0;
  if (a.Has("prog"))
  {
    auto p = a.Str("prog");
    one(std::strtoull(p.c_str(), nullptr, 10), ParseSched(a.Str("sched")));
  }
  else
  {
    Deadline dl(a.Int("seconds", 5));
    Rng rng(a.Int("seed", 1));
    while (!dl.Over() && out.Count() < a.Int("traces", 2000) && bad < 10)
    {
      auto s = rng.Next() >> 16;
      if (!one(s, RandomConfig(rng))) ++bad;
    }
  }
  out.Stats();
  fs::current_path(old);
  for (auto f : {"m/main.xml", "m/a.xml", "m/b.xml"}) fs::remove(dir + "/" + f);
  fs::remove(dir + "/m"); fs::remove(dir);
  _exit(0);
}
