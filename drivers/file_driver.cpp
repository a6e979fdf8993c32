// Executes random programs on file variables of several workspaces (see spec/files/FileVars.tla).
#include "memlib.h"

#include <sup/dto/json_value_parser.h>

#include <filesystem>

using namespace ml;
namespace fs = std::filesystem;

namespace
{
std::string g_dir;
const std::vector<std::pair<std::string, std::string>>& PlaceFiles()
{
  static std::vector<std::pair<std::string, std::string>> v = {{"g", "g.json"}, {"d1/f", "d1/f.json"}, {"d1/h", "d1/h.json"},
    {"d2/f", "d2/f.json"}, {"d2/h", "d2/h.json"}, {"d1", "d1"}, {"d1/no/f", "d1/no/f.json"}, {"abs", "abs/a.json"}};
  return v;
}
std::string FileOf(const std::string& place)
{
  for (auto& p : PlaceFiles()) if (p.first == place) return g_dir + "/" + p.second;
  return {};
}
std::string Content(const std::string& place)
{
  auto f = FileOf(place);
  std::error_code ec;
  if (place == "d1") return "{\"k\":\"dir\",\"v\":" + J({}) + "}";
  if (place == "d1/no/f") return "{\"k\":\"no\",\"v\":" + J({}) + "}";
  if (!fs::exists(f, ec)) return "{\"k\":\"none\",\"v\":" + J({}) + "}";
  sup::dto::JSONAnyValueParser parser;
  if (!parser.ParseFile(f)) return "{\"k\":\"bad\",\"v\":" + J({}) + "}";
  return "{\"k\":\"val\",\"v\":" + J(parser.MoveAnyValue()) + "}";
}
void Clean()
{
  std::error_code ec;
  for (auto& p : PlaceFiles()) if (p.first != "d1") fs::remove(g_dir + "/" + p.second, ec);
}

struct Ws
{
  std::string dir, file;
  std::unique_ptr<Workspace> ws;
  std::vector<std::string> notes;
  std::map<std::string, std::string> vars;   // name, text of the file
  void New()
  {
    ws.reset();
    ws = std::make_unique<Workspace>(file);
    notes.clear();
    vars.clear();
    ws->RegisterGenericCallback([this](const std::string& n, const AnyValue& v, bool c)
    {
      notes.push_back("{\"n\":" + Q(n) + ",\"c\":" + (c ? "true" : "false") + ",\"v\":" + J(v) + "}");
    });
  }
  std::string Notes()
  {
    std::string s = "[";
    for (auto& n : notes) s += (s.size() > 1 ? "," : "") + n;
    notes.clear();
    return s + "]";
  }
};

std::string Body(unsigned long long seed)
{
  Rng r(seed);
  Clean();
  std::map<std::string, Ws> all;
  static const char* const wn[] = {"P", "Q", "R"};
  std::string dirs;
  for (int k = 0; k < 3; ++k)
  {
    auto& w = all[wn[k]];
    w.dir = k == 0 ? "d1" : k == 1 ? "d2" : r.P(0.5) ? "" : r.P(0.5) ? "d1" : "d2";
    w.file = w.dir.empty() ? (r.P(0.5) ? "" : "p.xml") : w.dir + "/p.xml";
    if (!w.dir.empty() && r.P(0.3)) w.file = g_dir + "/" + w.file;
    w.New();
    dirs += (dirs.empty() ? "" : ",") + Q(wn[k]) + ":" + Q(w.dir);
  }
  std::vector<AnyValue> seen;
  auto value = [&]
  {
    if (!seen.empty() && r.P(0.3)) { auto v = seen[r.N((int)seen.size())]; return r.P(0.5) ? v : RandomValue(r, Similar(r, v.GetType())); }
    auto v = r.P(0.03) ? AnyValue{} : RandomValue(r, RandomType(r));
    seen.push_back(v);
    return v;
  };
  static const char* const names[] = {"v", "w", "u"};
  static const char* const f0[] = {"g.json", "d1/f.json", "d2/f.json", "d1", "d1/no/f.json"};
  static const char* const f1[] = {"f.json", "h.json", "../g.json", "../d1", "no/f.json"};
  static const char* const f2[] = {"f.json", "h.json", "../g.json", "../d1/f.json", "../d1"};
  auto add = [&](const std::string& wname)
  {
    auto& w = all[wname];
    std::string n = names[r.N(3)];
    if (w.ws->IsSuccessfullySetup() || w.vars.count(n)) return;
    int k = r.P(0.6) ? r.N(2) : r.N(5);
    std::string text = w.dir.empty() ? f0[k] : w.dir == "d1" ? f1[k] : f2[k], actual = text;
    if (r.P(0.12)) { text = "ABS/abs"; actual = g_dir + "/abs/a.json"; }
    auto v = GlobalVariableRegistry().Create("File");
    v->AddAttribute("file", actual);
    if (r.P(0.5)) v->AddAttribute("pretty", r.P(0.7) ? "true" : "false");
    v->SetName(n);
    w.ws->AddVariable(n, std::move(v));
    w.vars[n] = text;
    evlog().Add(Ev("add").S("w", wname).S("n", n).S("f", text));
  };
  auto field = [&](const std::string& wname, const std::string& n)
  {
    Path p;
    p.steps = "[]";
    if (!r.P(0.35)) return p;
    AnyValue v;
    auto& w = all[wname];
    if (w.ws->HasVariable(n) && w.ws->GetValue(n, v)) p = RandomPath(r, v.GetType());
    else if (r.P(0.5)) { p.text = ".a"; p.steps = "[{\"n\":\"a\",\"i\":0}]"; }
    return p;
  };
  for (int k = r.R(0, 4); k > 0; --k) add(wn[r.N(3)]);
  int steps = r.R(4, 24);
  for (int k = 0; k < steps; ++k)
  {
    std::string wname = wn[r.N(3)];
    auto& w = all[wname];
    std::string n = r.P(0.03) ? "none" : names[r.N(3)];
    if (!w.vars.empty() && r.P(0.7)) { auto it = w.vars.begin(); std::advance(it, r.N((int)w.vars.size())); n = it->first; }
    bool up = w.ws->IsSuccessfullySetup();
    int what = r.N(100);
    if (!up && what < 45 && r.P(0.6)) what = r.P(0.5) ? 100 : 101;
    if (what < 22)
    {
      auto p = field(wname, n);
      AnyValue v = value();
      AnyValue cur;
      if (!p.text.empty() && w.ws->HasVariable(n) && w.ws->GetValue(n + p.text, cur)) v = RandomValue(r, Similar(r, cur.GetType()));
      bool ok = w.ws->HasVariable(n) ? w.ws->SetValue(n + p.text, v) : false;
      evlog().Add(Ev("set").S("w", wname).S("n", n).Raw("p", p.steps).Raw("v", J(v)).B("ok", ok).Raw("notes", w.Notes()));
    }
    else if (what < 42)
    {
      auto p = field(wname, n);
      AnyValue t;
      if (r.P(0.4)) { AnyValue cur; t = w.ws->HasVariable(n) && w.ws->GetValue(n + p.text, cur) && r.P(0.7) ? RandomValue(r, Similar(r, cur.GetType())) : value(); w.Notes(); }
      auto target = J(t);
      bool ok = w.ws->HasVariable(n) ? w.ws->GetValue(n + p.text, t) : false;
      evlog().Add(Ev("get").S("w", wname).S("n", n).Raw("p", p.steps).Raw("target", target).B("ok", ok).Raw("v", J(t)).Raw("notes", w.Notes()));
    }
    else if (what < 50)
    {
      // a wait of no length asks for the availability
      bool ok = w.ws->HasVariable(n) && w.ws->WaitForVariable(n, 0.0, true);
      evlog().Add(Ev("avail").S("w", wname).S("n", n).B("ok", ok).Raw("notes", w.Notes()));
    }
    else if (what < 56 && up)
    {
      bool ok = w.ws->ResetVariable(n);
      evlog().Add(Ev("reset").S("w", wname).S("n", n).B("ok", ok).Raw("notes", w.Notes()));
    }
    else if (what >= 50 && what < 66)
    {
      static const char* const at[] = {"g", "d1/f", "d1/h", "d2/f", "d2/h", "abs"};
      std::string place = at[r.P(0.6) ? 1 + 2 * r.N(2) : r.N(6)], kind = r.P(0.3) ? "none" : r.P(0.4) ? "bad" : "val";
      AnyValue v;
      auto file = FileOf(place);
      if (kind == "none") { std::error_code ec; fs::remove(file, ec); }
      else if (kind == "val") { v = value(); sup::dto::AnyValueToJSONFile(v, file, r.P(0.5)); }
      else
      {
        auto text = sup::dto::AnyValueToJSONString(value(), r.P(0.5));
        std::ofstream(file) << (r.P(0.3) ? std::string() : r.P(0.5) ? text.substr(0, r.N((int)text.size())) : std::string("no value"));
      }
      evlog().Add(Ev("change").S("at", place).S("kind", kind).Raw("v", J(v)));
    }
    else if (what < 72)
    {
      w.ws->Teardown();
      evlog().Add(Ev("teardown").S("w", wname).Raw("notes", w.Notes()));
      if (r.P(0.3)) { w.New(); evlog().Add(Ev("new").S("w", wname)); }
    }
    else if (what < 80 || what == 101) add(wname);
    else if (what < 90 || what == 100)
    {
      w.ws->Setup();
      evlog().Add(Ev("setup").S("w", wname).Raw("notes", w.Notes()));
    }
    else
    {
      auto& p = PlaceFiles()[r.N(8)];
      evlog().Add(Ev("look").S("at", p.first).Raw("c", Content(p.first)));
    }
    // only the variable that was written reports
    for (auto& o : all)
      if (!o.second.notes.empty()) evlog().Add(Ev("bad").S("w", o.first).Raw("notes", o.second.Notes()));
  }
  for (auto& p : PlaceFiles()) evlog().Add(Ev("look").S("at", p.first).Raw("c", Content(p.first)));
  std::set<std::string> there;
  for (auto& e : fs::recursive_directory_iterator(g_dir)) if (e.is_regular_file()) there.insert(e.path().lexically_relative(g_dir).string());
  for (auto& p : PlaceFiles()) there.erase(p.second);
  if (!there.empty()) evlog().Add(Ev("bad").S("file", *there.begin()));   // files nobody asked for
  evlog().Add(Ev("end"));
  return ",\"dirs\":{" + dirs + "}";
}
}  // namespace

int main(int argc, char** argv)
{
  Args a(argc, argv);
  Out out(a);
  char tmpl[] = "/tmp/filedrvXXXXXX";
  g_dir = mkdtemp(tmpl);
  for (auto d : {"d1", "d2", "abs"}) fs::create_directory(g_dir + "/" + d);
  if (::chdir(g_dir.c_str()) != 0) return 2;
  auto one = [&](unsigned long long seed)
  {
    auto text = std::to_string(seed);
    out.Current(text);
    evlog().ev.clear();
    std::string header = ",\"dirs\":{\"P\":\"\"}";
    try { header = Body(seed); }
    catch (const std::exception& e) { evlog().ev.push_back(Ev("abnormal").S("what", "exception").S("detail", e.what()).Str()); }
    out.Trace(text, "", header);
  };
  if (a.Has("prog")) one(std::strtoull(a.Str("prog").c_str(), nullptr, 10));
  else
  {
    Deadline dl(a.Int("seconds", 5));
    Rng rng(a.Int("seed", 1));
    while (!dl.Over() && out.Count() < a.Int("traces", 2000)) one(rng.Next() >> 16);
  }
  Clean();
  std::error_code ec;
  for (auto d : {"d1", "d2", "abs"}) fs::remove(g_dir + "/" + d, ec);
  if (::chdir("/") == 0) fs::remove(g_dir, ec);
  out.Stats();
}
