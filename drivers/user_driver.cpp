// Executes the real Input, UserChoice and UserConfirmation instructions with a scripted user.
#include "memlib.h"

#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>

#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>

using namespace ml;

namespace
{
thread_local int tls_th = 0;
void Add(const Ev& e)
{
  sched::NoMem nm;
  evlog().Add(e);
}

struct Leaf : public Instruction
{
  static const std::string Type;
  Leaf() : Instruction(Type) {}
  int index = 0;
  std::vector<ExecutionStatus> script;
  std::size_t at = 0;
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    auto s = script[std::min(at, script.size() - 1)];
    ++at;
    Add(Ev("cexec").I("i", index).S("s", St(s)));
    return s;
  }
  void HaltImpl() override { Add(Ev("chalt").I("th", tls_th).I("i", index)); }
};
const std::string Leaf::Type = "UiLeaf";

struct Reply { bool ok = true; int kind = 2; AnyValue v; int delay = 0; bool accept = true; };
std::string ReplyJson(const UserInputReply& r)
{
  auto kind = r.m_request_type == InputRequestType::kUserValue ? "value" : r.m_request_type == InputRequestType::kUserChoice ? "choice" : "none";
  return std::string("{\"kind\":\"") + kind + "\",\"ok\":" + (r.m_result ? "true" : "false") + ",\"v\":" + J(r.m_payload) + "}";
}

struct Desk   // where requests and replies meet; outlives the futures
{
  std::mutex m;
  std::condition_variable cv, rcv;
  std::deque<int> todo;
  std::map<int, UserInputReply> replies;
  std::vector<Reply> script;
  int n = 0;
  bool end = false;
  void Serve()   // the answering thread
  {
    while (true)
    {
      std::unique_lock<std::mutex> lk(m);
      cv.wait(lk, [this] { return end || !todo.empty(); });
      if (end) return;
      int k = todo.front();
      todo.pop_front();
      auto& s = script[(k - 1) % script.size()];
      if (s.delay < 0) continue;
      if (s.delay > 0)
      {
        lk.unlock();
        std::this_thread::sleep_for(std::chrono::milliseconds(s.delay));
        lk.lock();
      }
      Put(k, s);
    }
  }
  void Put(int k, const Reply& s)
  {
    replies[k] = UserInputReply{static_cast<InputRequestType>(s.kind), s.ok, s.v};
    Add(Ev("ans").I("n", k).Raw("r", ReplyJson(replies[k])));
    rcv.notify_all();
  }
};

struct Future : public IUserInputFuture
{
  Future(Desk& d, int n) : desk(d), id(n) {}
  ~Future()
  {
    if (!taken) Add(Ev("drop").I("n", id));
  }
  Desk& desk;
  int id;
  bool taken = false;
  sup::dto::uint64 GetId() const override { return taken ? 0 : id; }
  bool IsValid() const override { return !taken; }
  bool IsReady() const override
  {
    std::lock_guard<std::mutex> lk(desk.m);
    return !taken && desk.replies.count(id) > 0;
  }
  bool WaitFor(double s) const override
  {
    std::unique_lock<std::mutex> lk(desk.m);
    return desk.rcv.wait_for(lk, std::chrono::duration<double>(s), [this] { return desk.replies.count(id) > 0; });
  }
  UserInputReply GetValue() override
  {
    std::lock_guard<std::mutex> lk(desk.m);
    if (taken || !desk.replies.count(id)) throw InvalidOperationException("not ready");
    taken = true;
    auto r = desk.replies[id];
    Add(Ev("take").I("n", id).Raw("r", ReplyJson(r)));
    return r;
  }
};

struct Ui : public DefaultUserInterface
{
  explicit Ui(Desk& d) : desk(d) {}
  Desk& desk;
  const Instruction* me = nullptr;
  void UpdateInstructionStatus(const Instruction* i) override
  {
    int n = 0;
    if (i != me) { auto l = dynamic_cast<const Leaf*>(i); n = l ? l->index : -1; }
    Add(Ev("st").I("i", n).S("s", St(i->GetStatus())));
  }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    std::lock_guard<std::mutex> lk(desk.m);
    int k = ++desk.n;
    auto& s = desk.script[(k - 1) % desk.script.size()];
    std::string text, dlg, kind = "none";
    std::vector<std::string> options;
    AnyValue meta, value;
    std::string opts;
    if (r.m_request_type == InputRequestType::kUserValue)
    {
      kind = "value";
      text = r.m_meta_data.GetType() == sup::dto::StringType ? r.m_meta_data.As<std::string>() : "??";
    }
    else if (ParseUserChoiceRequest(r, options, meta))
    {
      kind = "choice";
      text = GetMainTextFromMetadata(meta);
      auto d = meta.HasField(Constants::USER_CHOICES_DIALOG_TYPE_NAME) ? meta[Constants::USER_CHOICES_DIALOG_TYPE_NAME].As<sup::dto::uint32>() : 99u;
      dlg = d == dialog_type::kSelection ? "selection" : d == dialog_type::kConfirmation ? "confirmation" : "??";
    }
    for (auto& o : options) opts += (opts.empty() ? "" : ",") + Q(o);
    Add(Ev("req").Raw("what", "{\"kind\":" + Q(kind) + ",\"text\":" + Q(text) + ",\"opts\":[" + opts + "],\"dlg\":" + Q(dlg) + ",\"val\":" +
                               J(AnyValue(r.m_input_type)) + "}").B("ok", s.accept));
    if (!s.accept) return std::make_unique<UnsupportedInputFuture>();
    if (s.delay == 0) desk.Put(k, s);
    else { desk.todo.push_back(k); desk.cv.notify_all(); }
    return std::make_unique<Future>(desk, k);
  }
};

struct Text { std::string k = "none", s; };
struct Prog
{
  std::string kind;
  Vars vars;
  std::string name;
  Path path;
  Text texts[3];
  std::vector<std::vector<ExecutionStatus>> kids;
  std::vector<std::string> kid_names;
  std::vector<Reply> script;
  struct Phase { int ticks = 1, gap = 10; std::vector<int> halts; bool reset = false; };
  std::vector<Phase> phases;
};

void SetText(Instruction& i, const char* attr, const Text& t)
{
  if (t.k == "lit") i.AddAttribute(attr, t.s);
  if (t.k == "var") i.AddAttribute(attr, "@" + t.s);
}

std::string Body(Prog& p)
{
  tls_th = 0;
  Desk desk;
  desk.script = p.script;
  auto ws = MakeWorkspace(p.vars);
  auto header = ",\"mem\":" + MemJson(*ws, p.vars);
  Ui ui(desk);
  auto i = GlobalInstructionRegistry().Create(p.kind == "Input" ? "Input" : p.kind == "Choice" ? "UserChoice" : "UserConfirmation");
  ui.me = i.get();
  if (p.kind == "Input") i->AddAttribute("outputVar", p.name + p.path.text);
  SetText(*i, "description", p.texts[0]);
  if (p.kind == "Confirm") { SetText(*i, "okText", p.texts[1]); SetText(*i, "cancelText", p.texts[2]); }
  for (std::size_t c = 0; c < p.kids.size(); ++c)
  {
    auto l = std::make_unique<Leaf>();
    l->index = (int)c + 1;
    l->script = p.kids[c];
    if (!p.kid_names[c].empty()) l->SetName(p.kid_names[c]);
    i->InsertInstruction(std::move(l), (int)c);
  }
  Procedure proc;
  i->Setup(proc);
  std::thread server([&] { tls_th = 9; desk.Serve(); });
  auto name = p.name;
  auto look = [&]
  {
    if (p.kind == "Input") Add(Ev("mem").Raw("v", J(Read(*ws, name))));
    std::vector<int> next;
    for (auto n : i->NextInstructions()) { auto l = dynamic_cast<const Leaf*>(n); next.push_back(l ? l->index : -1); }
    Add(Ev("next").L("l", next));
  };
  for (auto& ph : p.phases)
  {
    std::vector<std::thread> ts;
    for (std::size_t h = 0; h < ph.halts.size(); ++h)
      ts.emplace_back([&, h]
      {
        tls_th = (int)h + 1;
        std::this_thread::sleep_for(std::chrono::milliseconds(ph.halts[h]));
        Add(Ev("hcall").I("th", tls_th));
        i->Halt();
        Add(Ev("hret").I("th", tls_th));
      });
    for (int k = 0; k < ph.ticks; ++k)
    {
      Add(Ev("tick"));
      i->ExecuteSingle(ui, *ws);
      Add(Ev("tret").S("s", St(i->GetStatus())));
      look();
      std::this_thread::sleep_for(std::chrono::milliseconds(ph.gap));
    }
    for (auto& t : ts) t.join();
    if (ph.reset)
    {
      Add(Ev("rcall"));
      i->Reset(ui);
      Add(Ev("rret"));
      look();
    }
  }
  Add(Ev("end"));
  auto n = evlog().ev.size();
  i.reset();
  { std::lock_guard<std::mutex> lk(desk.m); desk.end = true; }
  desk.cv.notify_all();
  server.join();
  evlog().ev.resize(std::min(n, evlog().ev.size()));
  return header;
}

Prog Make(const std::string& mode, unsigned long long seed)
{
  Rng r(seed);
  Prog p;
  int kind = mode == "halt" ? 1 : r.N(3);
  p.kind = kind == 0 ? "Input" : kind == 1 ? "Choice" : "Confirm";
  p.vars.push_back(MakeVar("s", AnyValue(std::string("a text"))));
  p.vars.push_back(MakeVar("n", AnyValue((sup::dto::int32)5)));
  p.vars.push_back(RandomVar(r, "out"));
  auto& out = p.vars.back();
  p.name = r.P(0.05) ? "none" : "out";
  if (r.P(0.4)) p.path = RandomPath(r, out.type);
  for (int k = 0; k < 3; ++k)
  {
    auto& t = p.texts[k];
    if (r.P(0.45) || (k == 0 && kind == 2)) { t.k = "lit"; t.s = r.P(0.5) ? "some text" : "other"; }
    if (r.P(0.25)) { t.k = "var"; static const char* const n[] = {"s", "s", "s", "s", "n", "none", "out"}; t.s = n[r.N(7)]; }
  }
  if (kind == 1)
  {
    int n = r.R(1, 4);
    static const ExecutionStatus end[] = {ExecutionStatus::SUCCESS, ExecutionStatus::FAILURE};
    static const ExecutionStatus mid[] = {ExecutionStatus::RUNNING, ExecutionStatus::NOT_FINISHED};
    for (int c = 0; c < n; ++c)
    {
      p.kids.emplace_back();
      for (int k = r.R(0, mode == "halt" ? 5 : 2); k > 0; --k) p.kids.back().push_back(mid[r.N(2)]);
      p.kids.back().push_back(end[r.N(2)]);
      static const char* const names[] = {"", "first", "second", "second"};
      p.kid_names.push_back(names[r.N(4)]);
    }
  }
  int n = r.R(1, 4);
  for (int k = 0; k < n; ++k)
  {
    Reply s;
    s.kind = kind == 0 ? 1 : 2;
    if (kind == 0)
    {
      auto t = out.type;
      s.v = RandomValue(r, Similar(r, t));
      if (r.P(0.3)) s.v = RandomValue(r, RandomType(r, 1));
      if (r.P(0.05)) s.v = AnyValue();
    }
    else
    {
      int c = r.P(0.75) ? r.N(std::max(1, kind == 1 ? (int)p.kids.size() : 2)) : r.R(-2, 5);
      s.v = AnyValue((sup::dto::int32)c);
      if (r.P(0.04)) s.v = AnyValue((sup::dto::int64)0);
      if (r.P(0.04)) s.v = AnyValue(true);
    }
    if (r.P(0.07)) s.ok = false;
    if (r.P(0.06)) s.kind = r.N(3);
    s.accept = !r.P(0.05);
    static const int d[] = {0, 0, 0, 0, 5, 10, 20, 35, -1};
    s.delay = d[r.N(9)];
    p.script.push_back(s);
  }
  int np = r.R(1, 3);
  for (int k = 0; k < np; ++k)
  {
    Prog::Phase ph;
    ph.ticks = r.R(1, 9);
    if (r.P(mode == "halt" ? 0.8 : 0.4)) for (int h = r.P(0.2) ? 2 : 1; h > 0; --h) ph.halts.push_back(5 * r.R(0, 8));
    ph.reset = r.P(0.7);
    p.phases.push_back(ph);
  }
  return p;
}
std::string InstrJson(const Prog& p)
{
  std::string s = "{\"kind\":" + Q(p.kind) + ",\"name\":" + Q(p.name) + ",\"path\":" + (p.path.steps.empty() ? "[]" : p.path.steps) + ",\"texts\":[";
  for (int k = 0; k < 3; ++k) s += std::string(k ? "," : "") + "{\"k\":" + Q(p.texts[k].k) + ",\"s\":" + Q(p.texts[k].s) + "}";
  s += "],\"kids\":[";
  for (std::size_t c = 0; c < p.kids.size(); ++c) s += (c ? "," : "") + Q(p.kid_names[c]);
  return s + "]}";
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  auto one = [&](const std::string& text, const sched::Config& c)
  {
    auto k = text.find(':');
    auto p = Make(text.substr(0, k), std::strtoull(text.c_str() + k + 1, nullptr, 10));
    out.Current(text + "\n" + SchedText(c));
    evlog().ev.clear();
    std::string header = ",\"mem\":{}";
    auto res = sched::Run(c, [&] { header = Body(p); });
    if (res.outcome != sched::Outcome::Done) Close(res);
    out.Trace(text, SchedText(c), header + ",\"instr\":" + InstrJson(p));
    return res.outcome == sched::Outcome::Done;
  };
  if (a.Has("prog"))
  {
    one(a.Str("prog"), ParseSched(a.Str("sched")));
    out.Stats();
    _exit(0);
  }
  Deadline dl(a.Int("seconds", 5));
  auto mode = a.Str("mode", "all");
  Rng rng(a.Int("seed", 1));
  int bad = 0;
  while (!dl.Over() && out.Count() < a.Int("traces", 2000) && bad < 10)
  {
    auto text = mode + ":" + std::to_string(rng.Next() >> 16);
    for (int k = 0; k < (int)a.Int("schedules", 3); ++k)
      if (!one(text, RandomConfig(rng, true, true))) { ++bad; break; }
  }
  out.Stats();
  _exit(0);
}
