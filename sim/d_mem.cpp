// Memory: the same work again and again, and the release of everything at the end. What the code under
// test holds is counted in the simulated heap at instants at which nothing is under way.
#include "drv.h"
#include "mem.h"
#include <lamppost/messages/Message.h>
using namespace sim;
using namespace lp;

// ---- accounting -------------------------------------------------------------------------------------------
static void walk_cb(void* a, uintptr_t pc, size_t n, int, uintptr_t) { Mem* m = (Mem*)a; m->blocks++; m->bytes += n; auto& x = m->by[pc]; x.first++; x.second += n; }
void Mem::take(uintptr_t from) { Quiet q; blocks = 0; bytes = 0; by.clear(); heap_walk(from, heap_mark(), walk_cb, this); }
std::string Mem::more_than(const Mem& o) const {
  std::vector<std::pair<long, uintptr_t>> v;
  for (auto& x : by) { auto f = o.by.find(x.first); long d = x.second.first - (f == o.by.end() ? 0 : f->second.first); if (d > 0) v.push_back({d, x.first}); }
  std::sort(v.rbegin(), v.rend());
  std::string s; for (size_t i = 0; i < v.size() && i < 4; ++i) { char t[80]; snprintf(t, sizeof t, "%s%ld allocated at [0x%lx]", i ? ", " : "", v[i].first, (unsigned long)v[i].second); s += t; }
  return s;
}

namespace {
enum K { PUB = 1, SUBS, PUBS, ASYNC, SYNC, BAD, NAP, BYTES, QUERY, CHILD, JSON };
struct Prov { int bus, mode; std::string topic; Cell<std::shared_ptr<bus::ActionProvider>> cell; };
struct Cons { int bus; std::string topic; bool answered; Cell<std::shared_ptr<bus::ActionConsumer>> cell; };
struct Due { int prov; std::string inv; };
struct St {
  std::vector<Cell<BusP>*> bus; std::vector<PubP> pub; std::vector<SubP> sub; std::vector<int> sub_bus, pub_bus; std::vector<PubP> raw; std::vector<Prov*> prov; std::vector<Cons*> cons; std::vector<Due> due;
  long inner = 0; long mark_seen = 0; long got = 0; long answers = 0; SubP mark;
};
St* S;
const char* const TP[] = {"/m/a", "/m/b", "/m/a/b", "/**/*", "/a topic that is longer than what fits into a string object itself"};
const char* const TA[] = {"/x", "/y", "/an action with a rather long name, longer than a small buffer"};
std::string tp(long i) { Quiet q; return TP[i % 5]; }
std::string ta(long i) { Quiet q; return TA[i % 3]; }

void gen(Plan& p, Rng& r) {
  int nb = r.range(1, 4); p.p["nb"] = nb;
  for (int i = 1; i < nb; ++i) p.p["par" + std::to_string(i)] = (long)r.below(i);
  int ns = r.range(1, 5); p.p["ns"] = ns;
  for (int i = 0; i < ns; ++i) { p.p["sb" + std::to_string(i)] = (long)r.below(nb); p.p["st" + std::to_string(i)] = (long)r.below(5); p.p["sf" + std::to_string(i)] = (long)r.below(16); }
  p.p["inner"] = r.below(3) ? 0 : r.range(1, 6);
  bool act = r.below(2); p.p["act"] = act;
  if (act) {
    int np = r.range(1, 3), nc = r.range(1, 3); p.p["np"] = np; p.p["nc"] = nc;
    for (int i = 0; i < np; ++i) { p.p["pb" + std::to_string(i)] = (long)r.below(nb); p.p["pt" + std::to_string(i)] = (long)r.below(3); p.p["pm" + std::to_string(i)] = (long)r.below(5); }
    for (int i = 0; i < nc; ++i) { p.p["cb" + std::to_string(i)] = (long)r.below(nb); p.p["ct" + std::to_string(i)] = r.below(4) ? p.p["pt" + std::to_string(r.below(np))] : (long)r.below(3); }
    p.p["endcheck"] = r.below(12) == 0;
  }
  int na = r.range(1, 4); p.p["na"] = na;
  bool fails = r.below(3) == 0;       // some calls run out of memory in between
  p.p["rounds"] = r.range(4, 7);
  bool stay = r.below(3) == 0; p.p["stay"] = stay;      // the bus goes on running between the rounds
  if (stay) { p.knobs.p_stall = 0; p.knobs.p_late = 0; p.knobs.starve_tid = -1; if (p.knobs.policy == 4) p.knobs.policy = 1; }
  p.p["order"] = (long)r.below(4); p.p["pending"] = r.below(2);
  for (int a = 1; a <= na; ++a) {
    int n = r.range(2, 8);
    for (int i = 0; i < n; ++i) {
      Op o; o.actor = a; int x = (int)r.below(act ? 21 : 12);
      o.kind = x < 4 ? PUB : x == 4 || x == 5 ? SUBS : x == 6 ? PUBS : x == 7 ? NAP : x == 8 ? BYTES : x == 9 ? QUERY : x == 10 ? CHILD : x == 11 ? JSON : x < 15 ? ASYNC : x < 18 ? SYNC : BAD;
      o.a = (long)r.below(nb); o.b = (long)r.below(24); o.c = (long)r.below(24); o.d = (long)r.below(1 << 16);
      if (o.kind == NAP) { static const long nap[] = {0, 100, 1000, 20000, 99000, 100000}; o.a = nap[r.below(6)]; }
      if (o.kind == SYNC) { static const long to[] = {0, 1, 5, 50, 100, 101, 250}; o.b = to[r.below(7)]; }
      if (fails && o.kind != NAP && o.kind != CHILD && r.below(3) == 0) o.d += (long)(1 + (r.below(2) ? r.below(12) : r.below(60))) << 16;
      p.ops.push_back(o);
    }
  }
}

void on_message(long flags, messages::Datagram d) {
  int k = -1; { Quiet q; S->got++; if ((flags & 2) && S->inner > 0) { --S->inner; k = (int)(S->inner % (long)S->pub.size()); } }
  if (flags & 1) scribble(d, (u64)flags);
  if (k >= 0) { PubP pp; { NoSched ns; pp = S->pub[k]; } messages::Datagram x = make_payload(0, 2); pp->Publish(x); }
  if ((flags & 12) == 12) std::this_thread::sleep_for(std::chrono::microseconds(300));
}

void subscribe(SubP& out, BusP b, const std::string& topic, long flags) {
  if (flags & 4) { SubP& s = out; s = b->CreateSubscriber(topic); std::string held(60, 'h'); s->SetMessageCallback([flags, held](messages::Message m) { on_message(flags, m.GetDatagram()); }); return; }
  std::string held(60, 'k');
  out = b->CreateSubscriber(topic, [flags, held](messages::Datagram d) { on_message(flags, d); });
}

void respond(int pi, const std::string& inv) {
  auto h = S->prov[pi]->cell.get(); if (!h) return;
  messages::Datagram d = make_payload(pi, 2);
  h->Respond(inv, d);
}
void parse(long k);
void run_op1(const Op& o, SubP& sub, PubP& pub);
void run_op(const Op& oo) {
  Op o = oo; int nth = (int)(o.d >> 16); o.d &= 0xffff;
  SubP s; PubP x; BusP b = S->bus[o.kind == NAP ? 0 : o.a]->get();
  if (nth) arm_alloc_failure(nth);
  try { run_op1(o, s, x); } catch (std::bad_alloc&) {}
  if (nth) { if (alloc_failure_fired()) count("probe.alloc_failure_in_call"); arm_alloc_failure(0); if (s) b->DeleteSubscriber(s); if (x) b->DeletePublisher(x); }
}
void run_op1(const Op& o, SubP& s, PubP& x) {
  BusP b = S->bus[o.kind == NAP ? 0 : o.a]->get();
  switch (o.kind) {
    case PUB: for (int i = 0; i < 1 + (int)(o.c % 3); ++i) {
      messages::Datagram d = make_payload(i, (u64)o.d);
      if (o.b % 3 == 0) { PubP pp; { NoSched ns; pp = S->pub[o.b % S->pub.size()]; } pp->Publish(d); }
      else b->Publish(messages::Message(std::string("somebody"), tp(o.c), d));
    } break;
    case SUBS: { subscribe(s, b, tp(o.b), o.c); if (o.c & 1) b->Publish(messages::Message(std::string("s"), tp(o.b), make_payload(1, (u64)o.d))); if (o.c & 2) s->SetDatagramCallback([](messages::Datagram) {}); b->DeleteSubscriber(s); if (o.c & 4) b->DeleteSubscriber(s); count("probe.subscriber_come_and_gone"); } break;
    case PUBS: { x = b->CreatePublisher(tp(o.b)); x->Publish(make_payload(2, (u64)o.d)); b->DeletePublisher(x); x->Publish(make_payload(3, (u64)o.d)); count("probe.publisher_come_and_gone"); } break;
    case NAP: if (o.a) std::this_thread::sleep_for(std::chrono::microseconds(o.a)); else std::this_thread::yield(); break;
    case BYTES: {
      messages::Message m(std::string("a sender whose name is rather long, longer than a small buffer"), tp(o.b), make_payload(5, (u64)o.d));
      auto raw = m.SerializeToBytes();
      Rng r(1); { Quiet q; r = Rng(mix2((u64)o.d, 3)); }
      if (o.c % 3) { unsigned char* c = (unsigned char*)raw->GetContent(); size_t n = raw->GetSize(); for (int i = 0; i < (int)(o.c % 5); ++i) c[r.below(n)] ^= (unsigned char)(1 << r.below(8)); count("probe.damaged_bytes"); }
      try { messages::Message x = messages::Message::Deserialize(raw); } catch (exceptions::Exception&) { count("probe.bytes_refused"); }
    } break;
    case QUERY: { PubP px; SubP sx; { NoSched ns; px = S->pub[0]; sx = S->sub[0]; } b->ContainsPublisher(px); b->ContainsSubscriber(sx); } break;
    case JSON: parse(o.b); break;
    case CHILD: { try { if (o.b & 1) b->CreateChildBus(o.b & 2 ? "" : "bus1"); else b->GetChildBus("nobody"); } catch (exceptions::Exception&) {} } break;
    case ASYNC: case SYNC: {
      if (S->cons.empty()) break;
      Cons* c = S->cons[o.c % S->cons.size()]; auto h = c->cell.get(); std::string held(50, 'c');
      messages::Datagram d = make_payload(6, (u64)o.d);
      // a request nobody ever answers stays open for good: only with a time limit
      if (o.kind == ASYNC && c->answered) h->RequestAsync(d, [held](messages::Datagram) { Quiet q; S->answers++; });
      else { messages::Datagram a = h->Request(d, (int)(o.kind == SYNC ? o.b : 5)); bool e = a.GetType() == messages::RawDatagramType::Empty; count(e ? "probe.sync_timed_out" : "probe.sync_answered"); }
    } break;
    case BAD: {
      if (S->raw.empty()) break;
      PubP pp; { NoSched ns; pp = S->raw[o.b % S->raw.size()]; }
      messages::Datagram d;
      switch (o.c % 7) {
        case 0: break;
        case 1: d = messages::Datagram(42); break;
        case 2: d["invocationId"] = messages::Datagram(std::string("")); break;
        case 3: d["invocationId"] = messages::Datagram(7); break;
        case 4: d["response"] = messages::Datagram(std::string("x")); break;
        case 5: d["invocationId"] = messages::Datagram(std::string("an identifier that nobody has given out, and long")); break;
        case 6: d["invocationId"] = messages::Datagram(std::string("known to none")); d["request"] = make_payload(1, 3); d["response"] = make_payload(1, 3); break;
      }
      pp->Publish(d); count("probe.malformed_action_traffic");
    } break;
  }
}

// everything published so far, and what that leads to, has been dealt with
void settle() {
  for (int i = 0; i < 6; ++i) {
    long want; { Quiet q; want = S->mark_seen + 1; }
    { BusP b = S->bus[0]->get(); b->Publish(messages::Message(std::string("m"), std::string("/mark"), messages::Datagram())); }
    for (int k = 0;; ++k) { bool ok; { Quiet q; ok = S->mark_seen >= want; if (k > 200000) harness_error("the mark never arrives"); } if (ok) break; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  }
}
void mini() {
  BusP b = std::make_shared<bus::Bus>("warm"); BusP c = b->CreateChildBus("up");
  SubP s, s2; subscribe(s, c, tp(3), 0); subscribe(s2, b, tp(0), 4); PubP x = c->CreatePublisher(tp(0));
  std::thread t([b] { b->Start(); });
  x->Publish(make_payload(1, 3)); { messages::Message m(std::string("s"), tp(1), make_payload(2, 2)); auto raw = m.SerializeToBytes(); b->Publish(messages::Message::Deserialize(raw)); }
  std::this_thread::sleep_for(std::chrono::milliseconds(150));
  b->Stop(); t.join();
  c->DeletePublisher(x); b->DeleteSubscriber(s2);
}

// one endpoint, as the run uses them
std::shared_ptr<bus::ActionProvider> provide(BusP b, const std::string& t, int me) {
  std::string held(70, 'p');
  return b->CreateActionProvider(t, [me, held](std::shared_ptr<bus::ActionProvider> a, std::string inv, messages::Datagram) {
    int mode; { Quiet q; mode = S->prov[me]->mode; }
    if (mode == 0 || mode == 1 || mode == 4) a->Respond(inv, make_payload(me, 2));
    if (mode == 1) a->Respond(inv, make_payload(me, 1));
    if (mode == 2 || mode == 4) { Quiet q; S->due.push_back({me, inv}); }
  });
}
// what action endpoints keep by themselves, without ever having been used
long unused_endpoints() {
  uintptr_t from; { Quiet q; from = heap_mark(); }
  {
    BusP b = std::make_shared<bus::Bus>("unused");
    for (size_t i = 0; i < S->prov.size(); ++i) { std::string t; { Quiet q; t = S->prov[i]->topic; } provide(b, t, (int)i); }
    for (auto c : S->cons) { std::string t; { Quiet q; t = c->topic; } b->CreateActionConsumer(t); }
  }
  Quiet q; Mem m; m.take(from); return m.blocks;
}
// text to values: the parser and its values belong to json-c
const char* const TXT[] = {"{\"a\": [1, 2.5, \"three\", {\"b\": true}], \"c\": {}, \"a longer key with a longer text\": \"the longer text itself, forty characters and more\"}", "[", "{\"a\": ", "not json at all", "", "[[[[[[[[[[1]]]]]]]]]]", "{\"a\": \"b\"} trailing", "42", "\"text\"", "null", "{\"a\": null}"};
void parse(long k) {
  const char* t = TXT[k % 11]; std::string s; { Quiet q; s = t; }
  try { messages::Datagram d = messages::Datagram::DeserializeFromJson(s); } catch (std::bad_alloc&) {} catch (exceptions::Exception&) {}
  count("probe.json_parsed");
}

void exec(const Plan& p) {
  { Quiet q; S = new St; set_prop(p.prop); out::install(); }
  new_world();
  mini();
  uintptr_t from; { Quiet q; from = heap_mark(); }
  const int SLACK = 2;
  int nb = (int)p.get("nb", 1);
  for (int i = 0; i < nb; ++i) {
    std::string n; int par; { Quiet q; n = "bus" + std::to_string(i) + (i & 1 ? " with a name that is longer than a small buffer" : ""); par = i ? (int)p.get(("par" + std::to_string(i)).c_str()) : -1; S->bus.push_back(new Cell<BusP>); }
    if (par < 0) S->bus[i]->put(std::make_shared<bus::Bus>(n)); else { BusP pb = S->bus[par]->get(); S->bus[i]->put(pb->CreateChildBus(n)); }
  }
  { Quiet q; S->pub.reserve(64); S->sub.reserve(64); S->raw.reserve(64); S->prov.reserve(16); S->cons.reserve(16); }
  for (int i = 0; i < nb; ++i) { BusP b = S->bus[i]->get(); PubP x = b->CreatePublisher(tp(i)); { NoSched ns; S->pub.push_back(x); } Quiet q; S->pub_bus.push_back(i); }
  for (int i = 0; i < (int)p.get("ns"); ++i) { int bi; long st, sf; { Quiet q; bi = (int)p.get(("sb" + std::to_string(i)).c_str()); st = p.get(("st" + std::to_string(i)).c_str()); sf = p.get(("sf" + std::to_string(i)).c_str()); } BusP b = S->bus[bi % nb]->get(); SubP s; subscribe(s, b, tp(st), sf); { NoSched ns; S->sub.push_back(s); } Quiet q; S->sub_bus.push_back(bi); }
  { BusP b = S->bus[0]->get(); S->mark = b->CreateSubscriber(std::string("/mark"), [](messages::Datagram) { Quiet q; S->mark_seen++; }); }
  bool act = p.get("act");
  if (act) {
    for (int i = 0; i < (int)p.get("np"); ++i) {
      Prov* pr; { Quiet q; pr = new Prov; pr->bus = (int)p.get(("pb" + std::to_string(i)).c_str()); pr->mode = (int)p.get(("pm" + std::to_string(i)).c_str()); pr->topic = TA[p.get(("pt" + std::to_string(i)).c_str()) % 3]; S->prov.push_back(pr); }
      BusP b = S->bus[pr->bus]->get(); std::string t; { Quiet q; t = pr->topic; }
      auto h = provide(b, t, i);
      pr->cell.put(h);
    }
    for (int i = 0; i < (int)p.get("nc"); ++i) {
      Cons* c; { Quiet q; c = new Cons; c->bus = (int)p.get(("cb" + std::to_string(i)).c_str()); c->topic = TA[p.get(("ct" + std::to_string(i)).c_str()) % 3]; c->answered = false; for (auto x : S->prov) if (x->topic == c->topic && x->mode != 3) c->answered = true; S->cons.push_back(c); }
      BusP b = S->bus[c->bus]->get(); std::string t; { Quiet q; t = c->topic; } auto h = b->CreateActionConsumer(t); c->cell.put(h);
    }
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) { BusP b = S->bus[i % nb]->get(); std::string t = ta(i); t += k ? "/response" : "/request"; PubP x = b->CreatePublisher(t); NoSched ns; S->raw.push_back(x); }
  }
  int rounds = (int)p.get("rounds", 4); bool stay = p.get("stay");
  Mem first, now; std::thread runner;
  for (int r = 0; r < rounds; ++r) {
    { Quiet q; S->inner = p.get("inner"); }
    if (!stay || r == 0) runner = std::thread([] { BusP b; { b = S->bus[0]->get(); } b->Start(); });
    {
      std::vector<std::thread> th; { Quiet q; th.reserve(8); }
      for (int a = 1; a <= (int)p.get("na"); ++a) th.emplace_back([&p, a] { for (auto& o : p.ops) if (o.actor == a) run_op(o); });
      for (auto& t : th) t.join();
    }
    settle();
    for (;;) { Due d; bool any; { Quiet q; any = !S->due.empty(); if (any) { d = S->due.back(); S->due.pop_back(); } } if (!any) break; respond(d.prov, d.inv); }
    settle();
    { Quiet q; if (js::tokeners > 0 || js::objects > 0) viol("C26.parser", "%ld JSON parsers and %ld JSON values are held after all JSON texts were parsed", js::tokeners, js::objects); }
    if (stay) std::this_thread::sleep_for(std::chrono::milliseconds(250));
    else { { BusP b = S->bus[0]->get(); b->Stop(); } runner.join(); }
    { Quiet q; (r ? now : first).take(from); if (r == 0) { first.take(from); } count("probe.heap_counted"); state((u64)(first.blocks / 8)); if (tracing()) trace("round %d: %ld blocks", r, r ? now.blocks : first.blocks); }
    if (r) { Quiet q; if (r > 1 && now.blocks > first.blocks + SLACK && r == rounds - 1) viol("C26.grows", "after %d rounds of the same work %ld blocks of memory are held, %ld after the first: %s", rounds, now.blocks, first.blocks, now.more_than(first).c_str()); }
  }
  if (stay) { { BusP b = S->bus[0]->get(); b->Stop(); } runner.join(); }
  // messages that nobody will deliver any more
  if (p.get("pending")) for (int i = 0; i < 12; ++i) { BusP b = S->bus[i % nb]->get(); b->Publish(messages::Message(std::string("late"), tp(i), make_payload(i, (u64)i % 8))); }
  // let go of everything
  int order = (int)p.get("order");
  auto handles = [&] { { NoSched ns; } for (size_t i = 0; i < S->sub.size(); ++i) { SubP s; { NoSched ns; s.swap(S->sub[i]); } if ((order & 1) && i % 2 == 0) { BusP b = S->bus[S->sub_bus[i]]->get(); if (b) b->DeleteSubscriber(s); } } { SubP s; { NoSched ns; s.swap(S->mark); } } for (auto x : S->prov) { auto h = x->cell.take(); } for (auto x : S->cons) { auto h = x->cell.take(); } };
  auto pubs = [&] { for (auto v : {&S->pub, &S->raw}) for (auto& y : *v) { PubP x; { NoSched ns; x.swap(y); } } };
  if (order & 2) { handles(); pubs(); }
  for (int i = 0; i < nb; ++i) { int k = order & 1 ? nb - 1 - i : i; BusP b = S->bus[k]->take(); }
  if (!(order & 2)) { handles(); pubs(); }
  { Quiet q; now.take(from); }
  long base = act ? unused_endpoints() : 0;
  { Quiet q; Mem none; if (tracing()) trace("left: %ld blocks", now.blocks);
    if (now.blocks > base + SLACK) viol("C26.kept", "%ld blocks of memory are held after all buses and everything on them were let go of (%ld are held by action providers and consumers as such): %s", now.blocks, base, now.more_than(none).c_str());
    if (p.get("endcheck") && base > SLACK) viol("C26.endpoints-kept", "%ld blocks of memory are held after a bus with %d action providers and %d action consumers that were never used was let go of", base, (int)S->prov.size(), (int)S->cons.size()); }
}
const Scenario SC = {"mem", gen, exec};
RegScenario reg(&SC);
}
