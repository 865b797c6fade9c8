// Stopping and running again: stop requests from any thread (also from callbacks) at any moment,
// several runs, publishing all along.
#include "drv.h"
using namespace sim;
using namespace lp;

namespace {
enum K { PUB = 1, BURST, STOP, NAP, SUB_NEW, TWIN };
struct St { bool done = false; int in_cb_stop = 0; };
St* S;

void gen(Plan& p, Rng& r) {
  int nb = r.range(1, 3); p.p["nb"] = nb;
  for (int i = 1; i < nb; ++i) p.p["par" + std::to_string(i)] = (long)r.below(i);
  int na = r.range(1, 4); p.p["na"] = na;
  p.p["runs"] = r.range(1, 5);
  p.p["cbstop"] = r.below(3) == 0 ? r.range(1, 3) : 0;    // stops made from inside callbacks
  p.p["gap"] = r.below(3) ? r.range(0, 3) : r.range(4, 150);
  p.p["first"] = r.below(3) == 0;                          // a stop before anything runs
  int ns = r.range(1, 5);
  for (int i = 0; i < ns; ++i) p.ops.push_back({0, SUB_NEW, (long)r.below(nb), r.below(3) == 0 ? 7 : (long)r.below(3), (long)r.below(2), r.below(4) == 0 ? 16 : r.below(4) == 0 ? 4 : 0});
  int npre = (int)r.below(5);
  for (int i = 0; i < npre; ++i) p.ops.push_back({0, PUB, (long)r.below(nb), (long)r.below(3), (long)r.below(3), 0});
  static const long naps[] = {0, 100, 1000, 20000, 99000, 99999, 100000, 100001, 130000, 250000};
  for (int a = 1; a <= na; ++a) {
    int n = r.range(1, 10); int kind = (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      Op o; o.actor = a; int x = (int)r.below(10);
      if (kind == 0) o.kind = x < 6 ? PUB : x < 7 ? BURST : x < 8 ? STOP : NAP;
      else if (kind == 1) o.kind = x < 5 ? STOP : x < 9 ? NAP : PUB;
      else o.kind = x < 4 ? PUB : x < 6 ? STOP : x < 8 ? BURST : NAP;
      o.a = (long)r.below(nb); o.b = (long)r.below(3); o.c = (long)r.below(3); o.d = (long)(r.below(3));
      if (o.kind == PUB && r.below(8) == 0) o.kind = TWIN;
      if (o.kind == BURST) o.c = r.range(2, 30);
      if (o.kind == NAP) o.a = naps[r.below(10)];
      p.ops.push_back(o);
    }
  }
}

void do_stop() {
  StopRec* sr; { Quiet q; sr = new StopRec; W->stops.push_back(sr); sr->call = seq(); sr->t_call = now_us(); if (tracing()) trace("stop request"); }
  { BusP root = W->busses[0]->cell.get(); root->Stop(); }
  { Quiet q; sr->ret = seq(); sr->t_ret = now_us(); if (!W->running_now) count("probe.stop_while_not_running"); if (W->in_cb) count("probe.stop_during_callback"); }
}

void publish(const Op& o) {
  std::string t; { Quiet q; t = topic_name(o.b); }
  MsgRec* m = begin_msg((int)o.a, t, (u64)o.d);
  BusP bp = W->busses[o.a]->cell.get();
  bool stopped; { Quiet q; stopped = !W->running_now; if (tracing()) trace("publish m%ld", m->id); }
  PubP pp; { NoSched ns; pp = W->inner_pubs[o.a * 3 + o.b]; }
  publish_via(o.c == 0 ? 0 : o.c == 1 ? 1 : 2, bp, pp, m);
  end_msg(m, true);
  Quiet q;
  if (stopped) count("probe.publish_while_stopped");
  if (m->t_ret - m->t_call > 2000 + stall_between(m->t_call, m->t_ret) + (W->busy() ? 50000 : 0)) viol("C06.publish-blocked", "a publish call took %llu ms", (unsigned long long)(m->t_ret - m->t_call) / 1000);
}

void one_run() {
  RunRec* run; { Quiet q; run = new RunRec; W->runs.push_back(run); }
  BusP root = W->busses[0]->cell.get();
  { Quiet q; run->call = seq(); run->t_call = now_us(); W->running_now = true; if (tracing()) trace("run begins"); }
  root->Start();
  { Quiet q; W->running_now = false; run->ret = seq(); run->t_ret = now_us(); if (tracing()) trace("run returned"); if (W->in_cb) viol("C06.running-after-return", "the bus returned while a callback was running"); }
}

void check_runs() {
  Quiet q;
  auto& R = W->runs; auto& P = W->stops;
  for (size_t i = 0; i < R.size(); ++i) if (R[i]->ret != ~0ull) {
    bool just = false; u64 since = i ? R[i - 1]->call : 0;
    for (auto s : P) if (s->call < R[i]->ret && s->ret > since) just = true;
    if (!just) viol("C06.spurious", "run %d of the bus returned although nobody had asked it to stop", (int)i);
  }
  // callbacks, to know what was in progress
  struct D { u64 e, x, te, tx; long m; };
  for (auto s : P) {
    // the run this request must end: the one it falls into, or the next one
    RunRec* r = nullptr; bool before = false;
    for (size_t i = 0; i < R.size(); ++i) {
      if (R[i]->call < s->call && R[i]->ret > s->call) { r = R[i]; break; }
      if (R[i]->call > s->ret && (i == 0 || R[i - 1]->ret < s->call)) { r = R[i]; before = true; break; }
    }
    if (!r) continue;
    u64 from = before ? r->t_call : s->t_ret;
    u64 end = r->t_ret == ~0ull ? now_us() : r->t_ret;
    // deliveries of the message that was being distributed at that moment
    u64 busy = 0; long cur = -1; u64 cure = ~0ull;
    for (auto x : W->subs) for (auto& d : x->dels) if (d.exit > s->call && d.enter > r->call && d.enter < cure && d.t_enter <= from + 3000) { cur = d.msg; cure = d.enter; }
    if (cur >= 0) for (auto x : W->subs) for (auto& d : x->dels) if (d.msg == cur && d.t_exit != ~0ull && d.t_exit > from) busy += d.t_exit - std::max(from, d.t_enter);
    u64 lim = 100000 + 3000 + busy + stall_between(before ? r->t_call : s->t_call, end);
    if (r->t_ret == ~0ull ? end - from > lim + 200000 : end - from > lim) { viol("C06.slow", "the bus %s %llu ms after the stop request (%s)", r->t_ret == ~0ull ? "still runs" : "returned", (unsigned long long)(end - from) / 1000, before ? "made before it ran" : "made while it ran"); return; }
    if (before) count("probe.stop_before_run"); else count("probe.stop_in_run");
  }
}

void exec(const Plan& p) {
  new_world();
  { Quiet q; S = new St; set_prop(p.prop); out::install(); }
  int nb = (int)p.get("nb", 1);
  for (int i = 0; i < nb; ++i) {
    std::string name; int par = -1; BusRec* r;
    { Quiet q; par = i ? (int)p.get(("par" + std::to_string(i)).c_str()) : -1; name = i ? "bus" + std::to_string(i) : "root"; r = new BusRec; r->parent = par; r->name = name; W->busses.push_back(r); }
    if (i == 0) r->cell.put(std::make_shared<bus::Bus>(name));
    else { BusP pb = W->busses[par]->cell.get(); r->cell.put(pb->CreateChildBus(name)); }
  }
  for (int i = 0; i < nb; ++i) for (int t = 0; t < 3; ++t) {
    BusP bp = W->busses[i]->cell.get(); std::string tn; { Quiet q; tn = topic_name(t); }
    PubP pp = bp->CreatePublisher(tn);
    { NoSched ns; W->inner_pubs.push_back(pp); }
    { Quiet q; W->inner_bus.push_back(i); W->inner_topic.push_back(tn); }
  }
  { Quiet q; W->cb_stops = (int)p.get("cbstop"); W->on_cb_stop = do_stop; }
  for (auto& o : p.ops) if (o.actor == 0) {
    if (o.kind == SUB_NEW) { SubRec* s = new_sub((int)(o.a % nb), topic_name(o.b), o.c & 1, o.d); BusP bp = W->busses[s->bus]->cell.get(); create_sub(s, bp); }
    else { Op x = o; x.a %= nb; publish(x); }
  }
  if (p.get("first")) do_stop();
  int nruns = (int)p.get("runs", 1); long gap = p.get("gap");
  std::thread runner([nruns, gap] {
    for (int i = 0; i < nruns; ++i) { one_run(); if (gap) std::this_thread::sleep_for(std::chrono::milliseconds(gap)); }
    Quiet q; S->done = true;
  });
  int na = (int)p.get("na", 1);
  std::vector<std::thread> th; { Quiet q; th.reserve(16); }
  for (int a = 1; a <= na; ++a) th.emplace_back([&p, a, nb] {
    for (auto& o : p.ops) if (o.actor == a) {
      Op x = o; if (x.kind != NAP) x.a %= nb;
      switch (x.kind) {
        case PUB: publish(x); break;
        case BURST: { long n = x.c; x.c = 2; for (long i = 0; i < n; ++i) publish(x); } break;
        case TWIN: {
          std::string t; { Quiet q; t = topic_name(x.b); }
          PubP pp; { NoSched ns; pp = W->inner_pubs[x.a * 3 + x.b]; }
          publish_twins((int)x.a, t, (int)(x.c % 3), pp, (u64)x.d, 2 + (int)x.d);
        } break;
        case STOP: do_stop(); break;
        case NAP: if (x.a) std::this_thread::sleep_for(std::chrono::microseconds(x.a)); else std::this_thread::yield(); break;
      }
    }
  });
  for (auto& t : th) t.join();
  { Quiet q; W->cb_stops = 0; }
  // nobody else asks any more: end the remaining runs
  for (int i = 0;; ++i) {
    { Quiet q; if (S->done) break; check_runs(); if (i > 60) viol("C06.stuck", "the bus keeps running although it was asked to stop again and again"); if (i > 120) break; }
    do_stop();
    std::this_thread::sleep_for(std::chrono::milliseconds(i < 3 ? 40 : 400));
  }
  faults_off();
  runner.join();
  // and everything published so far arrives when the bus runs again
  for (int k = 0;; ++k) {
    size_t ri; { Quiet q; ri = W->runs.size(); }
    std::thread last([] { one_run(); });
    drain(300000000);
    bool over; { Quiet q; over = W->runs[ri]->ret != ~0ull; }
    if (!over) { do_stop(); last.join(); break; }
    last.join();                          // an earlier request was still pending
    { Quiet q; count("probe.leftover_stop"); check_runs(); }
    if (k > 8) { viol("C06.spurious", "the bus does not keep running although nobody asks it to stop"); break; }
  }
  check_runs();
  check_history(true);
  { Quiet q; state(W->msgs.size() / 4 * 131 + W->runs.size() * 17 + W->stops.size()); u64 h = 0; for (auto s : W->subs) for (auto& d : s->dels) h = h * 31 + (u64)d.msg; state(h); }
  for (auto s : W->subs) { SubP h = s->cell.take(); }
  for (size_t b = W->busses.size(); b-- > 0;) { BusP h = W->busses[b]->cell.take(); }
  W->inner_pubs.clear();
}
const Scenario SC = {"stop", gen, exec};
RegScenario reg(&SC);
}
