// Several threads and components log at the same time, onto a device that yields between any two
// characters and may fail.
#include "drv.h"
#include "img.h"
#include <lamppost/log/Log.h>
#include <iostream>
using namespace sim;
using lp::log::Log;

namespace {
enum K { LINE = 1, NAP };
struct Line { std::string text; bool done = false, maybe = false, poor = false; };   // poor: memory ran out while it was written
struct St { std::vector<std::vector<Line*>> by; };
St* S;
const char* const PRE[] = {"LampPost", "A", "", "Plugin 1", "a]b", "PluginManager", "x y z", "\xc3\xa4"};

void gen(Plan& p, Rng& r) {
  int na = r.range(1, 6); p.p["na"] = na;
  p.p["shared"] = r.range(1, 4);
  for (int i = 0; i < 4; ++i) p.p["pre" + std::to_string(i)] = (long)r.below(8);
  for (int i = 0; i < 4; ++i) p.p["img" + std::to_string(i)] = r.below(2) ? (long)r.below(3) : 0;   // whose: the program's or a plugin library's
  p.p["fail"] = r.below(4) == 0 ? (long)(r.below(2) ? 50 : 1500) : 0;
  p.p["oom"] = r.below(6) == 0;
  for (int a = 1; a <= na; ++a) {
    int n = r.below(6) ? r.range(1, 12) : r.range(12, 60);
    for (int i = 0; i < n; ++i) {
      Op o; o.actor = a; o.kind = r.below(8) ? LINE : NAP; o.a = (long)r.below(4) + 10 * (long)r.below(4);    // which log, which level (0: no indentation given)
      o.b = r.below(4) ? (long)r.below(4) : r.below(6) ? (long)r.below(40) : -(long)r.below(3); static const long len[] = {0, 1, 7, 14, 15, 16, 80, 255, 256, 1023, 1024, 5000, 8200, 33000, 66000, 131100};
      o.c = r.below(12) ? len[r.below(8)] : len[r.below(r.below(12) ? 12 : 16)]; o.d = (long)r.below(6);
      if (o.kind == NAP) o.a = (long)r.below(3) * 700;
      p.ops.push_back(o);
    }
  }
}

void call(Log& log, const ImgApi* api, const std::string& prefix, int a, const Op& o, bool oom) {
  Line* l; std::string m; int ind = (int)o.b, how = (int)(o.a / 10 % 4); size_t from;
  {
    Quiet q; l = new Line;
    std::string t = "T" + std::to_string(a) + ":";
    // the same text again and again, numbered ones, bare ones, ones that look like other lines
    switch (o.d) { case 0: t += "again"; break; case 1: t += "[A] "; break; case 2: t += "  spaced  "; break; default: t += std::to_string(S->by[a].size()) + ":"; }
    while ((long)t.size() < o.c) t += (char)('a' + t.size() % 26);
    m = t; if (how == 0) ind = 0;
    l->text = "[" + prefix + "] " + std::string(ind > 0 ? 2 * (size_t)ind : 0, ' ') + t;
    S->by[a].push_back(l); from = out::text().size();
    if (oom) arm_alloc_failure(1 + (int)(o.c + o.d) % 6);
  }
  try {
    api->log(log, how, m, ind);
    if (oom) { if (alloc_failure_fired()) l->maybe = l->poor = true; arm_alloc_failure(0); }
  } catch (std::bad_alloc&) {
    arm_alloc_failure(0); Quiet q; l->maybe = l->poor = true; l->done = true; count("probe.log_call_out_of_memory"); return;
  } catch (...) { viol("C20.failed", "a log call ends with an exception"); throw; }
  Quiet q;
  l->done = true;
  if (!out::failed() && !l->poor) {
    size_t at = out::text().find(l->text + "\n", from);
    if (at == std::string::npos) viol("C20.line", "a log call returned but its line '%.80s' (%zu bytes) is not in the output", l->text.c_str(), l->text.size());
  }
}

void exec(const Plan& p) {
  long na = p.get("na"), nl = p.get("shared"); bool oom = p.get("oom");
  { Quiet q; S = new St; S->by.resize(16); set_prop(p.prop); out::install(); out::p_fail = (u32)p.get("fail"); }
  Log* logs[4]; std::string pre[4]; const ImgApi* api[4];
  for (int i = 0; i < nl; ++i) { { Quiet q; pre[i] = PRE[p.get(("pre" + std::to_string(i)).c_str())]; long im = p.get(("img" + std::to_string(i)).c_str()); api[i] = image(im); if (im) count("probe.log_of_a_plugin_library"); } std::string x(pre[i].c_str()); logs[i] = api[i]->new_log(x); }
  std::vector<std::thread> th; { Quiet q; th.reserve(16); }
  for (long a = 1; a <= na; ++a) th.emplace_back([&, a] {
    for (auto& o : p.ops) if (o.actor == a) {
      if (o.kind == NAP) { std::this_thread::sleep_for(std::chrono::microseconds(o.a)); continue; }
      int k = (int)(o.a % 10);
      bool om = oom && o.d >= 3 && (o.c + o.d) % 3 == 0;   // only where the text tells which call it was
      if (k < nl) call(*logs[k], api[k], pre[k], (int)a, o, om);
      else { std::string mine; { Quiet q; mine = "own" + std::to_string(a); } Log own(mine); call(own, core_IMG_api(), mine, (int)a, o, om); count("probe.log_object_of_its_own"); }
    }
  });
  for (auto& t : th) t.join();
  for (int i = 0; i < nl; ++i) delete logs[i];
  Quiet q;
  // the whole output against what was logged
  std::string t = out::text(); bool bad = out::failed();
  if (bad) { size_t c = out::fail_at(); t = t.substr(0, c); size_t e = t.rfind('\n'); t = e == std::string::npos ? "" : t.substr(0, e + 1); count("probe.output_failed"); }
  if (!t.empty() && t[t.size() - 1] != '\n') viol("C20.line", "the output ends within a line");
  std::vector<size_t> pos(S->by.size(), 0); size_t nline = 0;
  for (size_t i = 0; i < t.size();) {
    size_t e = t.find('\n', i); std::string line = t.substr(i, e - i); i = e + 1; ++nline;
    size_t m = line.find("T"), a = 0; bool ok = false;
    for (; m != std::string::npos && !ok; m = line.find("T", m + 1)) {
      a = (size_t)atoi(line.c_str() + m + 1); if (a < 1 || a >= S->by.size()) continue;
      auto& v = S->by[a]; size_t k = pos[a]; while (k < v.size() && v[k]->maybe && v[k]->text != line) ++k;
      if (k < v.size() && v[k]->text == line) { pos[a] = k + 1; ok = true; }
    }
    // A call that ran out of memory may leave out some of its line (streams swallow the exception), but nothing else.
    for (size_t a = 0; a < S->by.size() && !ok; ++a) for (auto l : S->by[a]) if (l->poor && !ok) { size_t k = 0; for (char c : l->text) if (k < line.size() && line[k] == c) ++k; if (k == line.size()) { ok = true; count("probe.line_cut_short_out_of_memory"); } }
    if (!ok) {
      bool known = false; for (auto& v : S->by) for (auto l : v) if (l->text == line) known = true;
      viol(known ? "C20.order" : "C20.line", "line %zu of the output, '%.120s' (%zu bytes), %s", nline, line.c_str(), line.size(), known ? "comes too often or out of its thread's order" : "is nothing that was logged");
    }
  }
  if (!bad) for (size_t a = 0; a < S->by.size(); ++a) for (size_t k = pos[a]; k < S->by[a].size(); ++k) if (!S->by[a][k]->maybe) viol("C20.lost", "the line '%.80s' of thread %zu is missing", S->by[a][k]->text.c_str(), a);
  count("lines", nline); state(nline * 8 + (u64)na);
}
const Scenario SC = {"log", gen, exec};
RegScenario reg(&SC);
}
