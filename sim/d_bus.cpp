// The bus under concurrent use: publishing, subscribing, creating children, detaching, action calls,
// failing allocations.
#include "drv.h"
using namespace sim;
using namespace lp;

namespace {
enum K { PUB = 1, BURST, SUB_NEW, SUB_DEL, SUB_QRY, PUB_NEW, PUB_DEL, PUB_QRY, CHILD_NEW, CHILD_GET, DETACH, NAP, ACT_NEW, ACT_REQ, TWIN, KMAX };
enum { MAXSLOT = 24 };

struct PubRec { int bus = 0; std::string topic; Cell<PubP> cell; u64 create_ret = ~0ull, del_call = ~0ull, del_ret = ~0ull; bool failed = false; };
struct ChildOp { int parent; std::string name; u64 call, ret; bool create, ok; lp::bus::Bus* ptr; };
struct St {
  std::vector<PubRec*> pubs; std::vector<ChildOp> childops;
  Cell<SubRec*> sub[MAXSLOT]; Cell<PubRec*> pub[MAXSLOT];
  Cell<std::shared_ptr<bus::ActionConsumer>> cons[4]; Cell<std::shared_ptr<bus::ActionProvider>> prov[4];
  std::vector<PubP> stat_pub; std::vector<int> stat_bus; std::vector<std::string> stat_topic;
  int nsub_slot[MAXSLOT]; 
};
St* S;

void gen(Plan& p, Rng& r) {
  const std::string& P = p.prop;
  int nb = r.range(1, 5); if (P == "C12" && nb < 3) nb = 3; if (P == "C11") nb = r.range(1, 3); else if (r.below(25) == 0) nb = r.range(6, 20);
  // rarely a large system: many buses, a long chain of them, or many subscribers
  int large = P != "C11" && r.below(100) == 0 ? 1 + (int)r.below(3) : 0;
  if (large == 1) nb = r.range(30, 140); if (large == 3) nb = r.range(1, 3); if (large == 2) nb = r.range(12, 80);
  p.p["nb"] = nb; if (large == 1) p.p["bushy"] = (long)r.below(2);
  for (int i = 1; i < nb; ++i) p.p["par" + std::to_string(i)] = large == 2 || (large != 1 && r.below(3) == 0) ? i - 1 : large == 1 && !p.get("bushy") ? 0 : (long)r.below(i);
  int na = large ? r.range(1, 3) : r.range(1, 6);
  p.p["na"] = na;
  // the topics of this run: the usual three, all of them, or a random few
  std::vector<long> pool; int tk = (int)r.below(4);
  if (tk < 2) pool = {0, 1, 2}; else if (tk == 2) for (long i = 0; i < NTOPICS; ++i) pool.push_back(i); else for (int i = r.range(2, 5); i > 0; --i) pool.push_back((long)r.below(NTOPICS));
  auto tp = [&]() -> long { return pool[r.below(pool.size())]; };
  for (int i = 0; i < 3; ++i) p.p["st" + std::to_string(i)] = tk == 3 ? pool[i % pool.size()] : i;
  int ns = r.range(1, 7); if (r.below(30) == 0) ns = r.range(8, 40); if (large == 3) ns = r.range(41, 300); else if (large) ns = r.range(10, 40);
  for (int i = 0; i < ns; ++i) {
    // c: 1 message callback; d: flags
    long fl = 0;
    if (r.below(4) == 0) fl |= 1;
    if (r.below(8) == 0) fl |= 2;
    if (r.below(12) == 0) fl |= 8;
    if (r.below(10) == 0) fl |= 4;
    p.ops.push_back({0, SUB_NEW, (long)r.below(nb), r.below(3) == 0 ? 7 : r.below(3) ? tp() : (long)r.below(tk ? 3 : NTOPICS), (long)r.below(2), fl});
  }
  p.p["inner"] = r.below(3) ? 0 : r.range(1, 20);
  int npre = r.below(2) ? 0 : r.range(1, 6);
  int shapes = r.below(3);          // 0 plain, 1 mixed, 2 heavy
  auto shape = [&]() -> long { u64 b = r.next(); if (shapes == 0) return (long)((b & ~7ull) & 0xffff); if (shapes == 1) return (long)((b & 0xfff8) | r.below(4)); return (long)(b & 0xffff); };
  for (int i = 0; i < npre; ++i) p.ops.push_back({0, PUB, (long)r.below(nb), tp(), (long)r.below(3), shape()});
  if (r.below(60) == 0) p.ops.push_back({0, BURST, (long)r.below(nb), tp(), r.range(200, 1300), 0});
  else if ((P == "C01" || P == "C02") && !large && r.below(600) == 0) { p.p["huge"] = 1; p.ops.push_back({0, BURST, (long)r.below(nb), tp(), r.below(4) ? r.range(1300, 5000) : r.range(5000, 12000), 0}); }
  p.p["actions"] = (P == "C07" && r.below(2)) ? 1 : 0;
  p.p["allocfail"] = 0;
  if (P == "C07" && r.below(2)) p.p["allocfail"] = r.range(1, 3);
  if (P == "C04" && r.below(4) == 0) p.p["allocfail"] = 1;
  // operation mix
  int w[KMAX] = {0}; w[PUB] = 20; w[NAP] = 4; w[BURST] = 1; w[TWIN] = P == "C01" || P == "C07" ? 2 : 1;
  auto sub = [&](int v) { w[SUB_NEW] = v; w[SUB_DEL] = v; w[SUB_QRY] = v / 2; };
  auto pub = [&](int v) { w[PUB_NEW] = v; w[PUB_DEL] = v; w[PUB_QRY] = v / 2; };
  auto child = [&](int v) { w[CHILD_NEW] = v; w[CHILD_GET] = v; };
  if (P == "C01") { if (r.below(2)) sub(3); if (r.below(3) == 0) child(2); }
  else if (P == "C02") { if (r.below(3) == 0) sub(2); }
  else if (P == "C05") { sub(10); pub(8); if (r.below(4) == 0) child(2); }
  else if (P == "C07") { sub(6); pub(6); child(4); if (r.below(3) == 0) w[DETACH] = 1; if (p.get("actions")) { w[ACT_NEW] = 5; w[ACT_REQ] = 8; } }
  else if (P == "C11") { child(14); sub(3); }
  else if (P == "C12") { w[DETACH] = 4; sub(2); if (r.below(2)) child(2); pub(2); }
  else if (P == "C04") { w[NAP] = 12; }
  bool longnap = P == "C04" && r.below(2);     // idle for long, then publish just as a wait of the bus ends
  p.p["end"] = P == "C12" ? (r.below(3) ? r.range(1, 3) : 0) : 0;     // how the tree is destroyed
  int tot = 0; for (int i = 0; i < KMAX; ++i) tot += w[i];
  if (large) p.p["large"] = large;
  int nops = large ? r.range(1, 6) : r.below(8) == 0 ? r.range(8, 26) : r.range(1, 9);
  for (int a = 1; a <= na; ++a) for (int i = 0; i < nops; ++i) {
    int x = (int)r.below(tot), k = 0; while (x >= w[k]) x -= w[k++];
    Op o; o.actor = a; o.kind = k; o.a = (long)r.below(nb > 8 ? nb : 8); o.b = tp(); o.c = (long)r.below(k == CHILD_NEW || k == CHILD_GET ? (r.below(2) ? 2 : 6) : 8); o.d = shape();
    if (k == BURST) { o.c = r.range(2, r.below(6) == 0 ? 120 : 20); }
    if (k == TWIN) { o.c = r.range(2, 6) * 4 + (long)r.below(3); if (r.below(2)) o.d &= 7; }
    if (k == SUB_NEW) { o.b = r.below(3) == 0 ? 7 : tp(); o.d = (long)(r.below(3) == 0); }
    if (k == NAP) { static const long naps[] = {0, 300, 1000, 30000, 99000, 99999, 100000, 100001, 101000, 150000, 200000}; o.a = r.below(longnap ? 2 : 12) ? naps[r.below(11)] : (long)r.range(2, longnap ? 40 : 12) * 100000 + (long)r.range(-1, 1) * (long)r.below(2); if (r.below(longnap ? 2 : 6) == 0) o.b = -2; }
    p.ops.push_back(o);
  }
  if (p.get("allocfail")) for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].actor && r.below(4) == 0) { Op f; f.actor = -1; f.kind = 0; f.a = r.range(1, r.below(3) == 0 ? 60 : 12); (void)f; p.ops[i].kind |= (int)f.a << 8; }
}

bool alive(int b) { return W->busses[b]->cell.set; }

MsgRec* do_publish(int b, const std::string& topic, int how, PubP pub, long shape) {
  MsgRec* m = begin_msg(b, topic, (u64)shape);
  {
    Quiet q;
    if (tracing()) trace("publish m%ld '%s' on bus %d via %d", m->id, topic.c_str(), b, how);
  }
  BusP bp = W->busses[b]->cell.get();
  bool ok = true;
  try { publish_via(how, bp, pub, m); } catch (std::bad_alloc&) { ok = false; }
  end_msg(m, ok);
  return m;
}

void run_op(const Plan& p, const Op& o0) {
  Op o = o0; int arm = o.kind >> 8; o.kind &= 255;
  int nbus; { Quiet q; nbus = (int)W->busses.size(); }
  int b = (int)(o.a % nbus);
  if (o.kind != NAP && !alive(b)) b = 0;
  if (arm) arm_alloc_failure(arm);
  switch (o.kind) {
    case PUB: {
      std::string t = topic_name(o.b); int how = (int)(o.c % 4); PubP pp; int bb = b;
      if (how == 3) { how = 0; }
      if (how == 0) {
        // a publisher created before the run, shared by every thread
        int k = -1; { Quiet q; for (size_t i = 0; i < S->stat_pub.size(); ++i) if (S->stat_bus[i] == b && S->stat_topic[i] == t) k = (int)i; if (k < 0) k = (int)(o.b + o.a) % (int)S->stat_pub.size(); t = S->stat_topic[k]; bb = S->stat_bus[k]; }
        NoSched ns; pp = S->stat_pub[k];
      }
      do_publish(bb, t, how, pp, o.d);
    } break;
    case BURST: { std::string t = topic_name(o.b); for (long i = 0; i < o.c; ++i) { do_publish(b, t, 2, nullptr, i & 1); if (arm) arm_alloc_failure(0); } count("probe.burst"); } break;
    case TWIN: {
      if (arm) arm_alloc_failure(0);
      std::string t = topic_name(o.b); int how = (int)(o.c % 4); PubP pp; int bb = b;
      if (how == 0) { int k; { Quiet q; k = (int)(o.b + o.a) % (int)S->stat_pub.size(); t = S->stat_topic[k]; bb = S->stat_bus[k]; } NoSched ns; pp = S->stat_pub[k]; }
      publish_twins(bb, t, how, pp, (u64)o.d, (int)(o.c / 4));
    } break;
    case SUB_NEW: {
      SubRec* s = new_sub(b, topic_name(o.b), o.c & 1, o.d & 1);
      BusP bp = W->busses[b]->cell.get();
      if (create_sub(s, bp)) { int k = (int)((o.a * 3 + o.c) % MAXSLOT); S->sub[k].put(s); }
    } break;
    case SUB_DEL: case SUB_QRY: {
      int k = -1; SubRec* s = nullptr;
      { Quiet q; for (int i = 0; i < MAXSLOT; ++i) { int j = (int)((o.a * 3 + o.c + i) % MAXSLOT); if (S->sub[j].set) { k = j; break; } } if (k < 0) break; s = S->sub[k].get(); if (o.kind == SUB_DEL) S->sub[k].take(); }
      BusP bp = W->busses[s->bus]->cell.get();
      if (o.kind == SUB_DEL) { if (arm) arm_alloc_failure(0); delete_sub(s, bp); bool c = bp->ContainsSubscriber(s->cell.get()); if (c) viol("C05.membership", "a deleted subscriber is still reported as present"); }
      else {
        SubP h = s->cell.get(); bool dead = s->del_ret != ~0ull; if (arm) arm_alloc_failure(0);
        u64 c0; { Quiet q; c0 = seq(); }
        bool c = bp->ContainsSubscriber(h);
        Quiet q;
        if (!c && s->del_call == ~0ull) viol("C05.membership", "an existing subscriber is reported as absent");
        if (c && (dead || s->del_ret < c0)) viol("C05.membership", "a deleted subscriber is reported as present");
      }
    } break;
    case PUB_NEW: {
      PubRec* r; { Quiet q; r = new PubRec; r->bus = b; r->topic = topic_name(o.b); S->pubs.push_back(r); }
      BusP bp = W->busses[b]->cell.get(); std::string t = topic_name(o.b);
      try { PubP h = bp->CreatePublisher(t); r->cell.put(h); } catch (std::bad_alloc&) { r->failed = true; break; }
      { Quiet q; r->create_ret = seq(); }
      S->pub[(int)((o.a * 5 + o.c) % MAXSLOT)].put(r);
      if (o.c & 1) { if (arm) arm_alloc_failure(0); PubP h = r->cell.get(); MsgRec* m = do_publish(b, t, 0, h, o.d); if (r->del_call != ~0ull) m->may_drop = true; }
    } break;
    case PUB_DEL: case PUB_QRY: {
      int k = -1; PubRec* r = nullptr;
      { Quiet q; for (int i = 0; i < MAXSLOT; ++i) { int j = (int)((o.a * 5 + o.c + i) % MAXSLOT); if (S->pub[j].set) { k = j; break; } } if (k < 0) break; r = S->pub[k].get(); if (o.kind == PUB_DEL) S->pub[k].take(); }
      BusP bp = W->busses[r->bus]->cell.get(); PubP h = r->cell.get();
      if (arm) arm_alloc_failure(0);
      if (o.kind == PUB_QRY) {
        u64 c0; { Quiet q; c0 = seq(); }
        bool c = bp->ContainsPublisher(h);
        Quiet q;
        if (!c && r->del_call == ~0ull) viol("C05.membership", "an existing publisher is reported as absent");
        if (c && r->del_ret < c0) viol("C05.membership", "a deleted publisher is reported as present");
        if (o.d & 1) { Loud l; MsgRec* m = do_publish(r->bus, r->topic, 0, h, o.d); if (r->del_ret < m->call) { m->nowhere = true; m->bus = -2; } else if (r->del_call != ~0ull) m->may_drop = true; }
        break;
      }
      { Quiet q; r->del_call = seq(); }
      bp->DeletePublisher(h);
      { Quiet q; r->del_ret = seq(); }
      // mute from now on: nothing sent through it may arrive
      std::string t; MsgRec* m; { Quiet q; t = r->topic; }
      m = begin_msg(r->bus, t, (u64)o.d); m->nowhere = true; m->bus = -2;
      publish_via(0, nullptr, h, m); end_msg(m, true);
      count("probe.publish_on_deleted_publisher");
      if (bp->ContainsPublisher(h)) viol("C05.membership", "a deleted publisher is still reported as present");
    } break;
    case CHILD_NEW: case CHILD_GET: {
      std::string n; { Quiet q; static const char* const cn[] = {"c0", "c1", "C0", "c0/c1", "c0 ", "a name longer than the others, so that it does not fit in place"}; n = cn[o.c % 6]; }
      BusP bp = W->busses[b]->cell.get();
      ChildOp c; c.parent = b; c.create = o.kind == CHILD_NEW; c.ok = false; c.ptr = nullptr;
      { Quiet q; c.name = n; c.call = seq(); }
      BusP ch; bool failed = false;
      try {
        std::string arg = n;
        ch = c.create ? bp->CreateChildBus(arg) : bp->GetChildBus(arg); c.ok = true; c.ptr = ch.get();
      }
      catch (exceptions::DuplicateKeyException&) { if (!c.create) viol("C11.exception", "looking up a child fails with a duplicate-key error"); }
      catch (exceptions::KeyNotFoundException&) { if (c.create) viol("C11.exception", "creating a child fails with a key-not-found error"); }
      catch (exceptions::ArgumentNullException&) {
        // a bus that was cut off may refuse to have children
        Quiet q; failed = true; bool cut = false; for (int x = b; x >= 0; x = W->busses[x]->parent) if (W->busses[x]->detach_call != ~0ull) cut = true;
        if (!cut) viol("C11.exception", "creating or looking up a child fails with an argument error");
      }
      catch (std::bad_alloc&) { failed = true; }
      if (arm) arm_alloc_failure(0);
      int idx = -1;
      { Quiet q; c.ret = seq(); if (!failed) S->childops.push_back(c);
        if (c.ok && !ch) viol("C11.null", "a child bus call succeeded with a null result");
        if (c.create && c.ok && W->busses.size() < 14) { BusRec* r = new BusRec; r->parent = b; r->name = n; r->create_ret = c.ret; W->busses.push_back(r); idx = (int)W->busses.size() - 1; if (is_prop("C12") || is_prop("C07")) { for (int x = b; x >= 0; x = W->busses[x]->parent) if (W->busses[x]->detach_call != ~0ull) { r->detach_call = 0; r->detach_ret = W->busses[x]->detach_ret < c.call ? 0 : ~0ull; } } }
        if (failed) count("probe.child_creation_failed"); }
      if (idx >= 0) {
        W->busses[idx]->cell.put(ch);
        // it takes part in both directions at once
        SubRec* s = new_sub(idx, topic_name(o.b), o.c & 1, 0); create_sub(s, ch);
        do_publish(idx, topic_name(o.b), 2, nullptr, o.d & 0xfff9);
      }
    } break;
    case DETACH: {
      if (b == 0) { if (nbus < 2) break; b = 1; }
      if (!alive(b)) break;
      BusP bp = W->busses[b]->cell.get();
      if (arm) arm_alloc_failure(0);
      { Quiet q; u64 s = seq(); if (s < W->busses[b]->detach_call) W->busses[b]->detach_call = s; }
      bp->Detach();
      { Quiet q; u64 s = seq(); if (s < W->busses[b]->detach_ret) W->busses[b]->detach_ret = s; count("probe.detach"); }
    } break;
    case NAP: if (o.b == -2) { std::this_thread::sleep_for(std::chrono::microseconds(o.a)); u64 d; { Quiet q; d = next_deadline() - now_us(); } sleep_us(d); count("probe.woke_with_a_timer"); }
      else if (o.a) std::this_thread::sleep_for(std::chrono::microseconds(o.a)); else std::this_thread::yield(); break;
    case ACT_NEW: {
      BusP bp = W->busses[b]->cell.get(); std::string t; int k = (int)(o.c % 4); { Quiet q; t = "/act" + std::to_string(k); }
      try {
        if (o.b & 1) { auto c = bp->CreateActionConsumer(t); Quiet q; if (!S->cons[k].set) S->cons[k].put(c); }
        else { auto h = bp->CreateActionProvider(t, [](std::shared_ptr<bus::ActionProvider> pr, std::string id, messages::Datagram d) { pr->Respond(id, messages::Datagram(std::string("r"))); }); Quiet q; if (!S->prov[k].set) S->prov[k].put(h); }
      } catch (std::bad_alloc&) {}
    } break;
    case ACT_REQ: {
      int k = (int)(o.c % 4); bool have; { Quiet q; have = S->cons[k].set; } if (!have) break;
      auto c = S->cons[k].get();
      try {
        messages::Datagram rq = make_payload(0, 0);
        if (o.b & 1) c->RequestAsync(rq, [](messages::Datagram) {});
        else { static const int to[] = {0, 1, 50, 99, 100, 101, 250}; c->Request(rq, to[(o.a + o.b) % 7]); }
      } catch (std::bad_alloc&) {}
    } break;
  }
  if (arm) { if (alloc_failure_fired()) count("probe.alloc_failure_in_call"); arm_alloc_failure(0); }
}

void check_children() {
  Quiet q;
  for (auto& a : S->childops) {
    if (a.create && a.ok) for (auto& b : S->childops) if (&a != &b && b.create && b.ok && b.parent == a.parent && b.name == a.name) { viol("C11.twice", "two attempts to create child '%s' under the same bus both succeeded", a.name.c_str()); return; }
    if (a.create && !a.ok) { bool just = false; for (auto& b : S->childops) if (b.create && b.ok && b.parent == a.parent && b.name == a.name && b.call < a.ret) just = true; if (!just) { viol("C11.refused", "creating child '%s' was refused although nobody had created it", a.name.c_str()); return; } count("probe.child_duplicate_refused"); }
    if (!a.create && a.ok) {
      bool just = false, same = false;
      for (auto& b : S->childops) if (b.create && b.ok && b.parent == a.parent && b.name == a.name && b.call < a.ret) { just = true; if (b.ptr == a.ptr) same = true; }
      if (!just) { viol("C11.lookup", "looking up child '%s' succeeded although it was never created", a.name.c_str()); return; }
      if (!same) { viol("C11.lookup", "looking up child '%s' returned another bus than its creation", a.name.c_str()); return; }
    }
    if (!a.create && !a.ok) for (auto& b : S->childops) if (b.create && b.ok && b.parent == a.parent && b.name == a.name && b.ret < a.call) { viol("C11.lookup", "looking up child '%s' failed after its creation had returned", a.name.c_str()); return; }
  }
}

void exec(const Plan& p) {
  new_world();
  { Quiet q; S = new St; W->strict = p.prop == "C03"; W->inner_budget = p.get("inner"); set_prop(p.prop); out::install(); }
  int nb = (int)p.get("nb", 1);
  for (int i = 0; i < nb; ++i) {
    std::string name; int par = -1; BusRec* r;
    { Quiet q; par = i ? (int)p.get(("par" + std::to_string(i)).c_str()) : -1; name = i ? "bus" + std::to_string(i) : "root"; r = new BusRec; r->parent = par; r->name = name; W->busses.push_back(r); }
    if (i == 0) r->cell.put(std::make_shared<bus::Bus>(name));
    else { BusP pb = W->busses[par]->cell.get(); r->cell.put(pb->CreateChildBus(name)); }
  }
  for (int i = 0; i < nb; ++i) for (int t = 0; t < 2; ++t) {
    BusP bp = W->busses[i]->cell.get(); std::string tn; { Quiet q; tn = topic_name(p.get(("st" + std::to_string(t + (i & 1))).c_str(), t + (i & 1))); }
    PubP pp = bp->CreatePublisher(tn);
    { NoSched ns; S->stat_pub.push_back(pp); W->inner_pubs.push_back(pp); }
    { Quiet q; S->stat_bus.push_back(i); S->stat_topic.push_back(tn); W->inner_bus.push_back(i); W->inner_topic.push_back(tn); }
  }
  for (auto& o : p.ops) if (o.actor == 0) {
    if (o.kind == SUB_NEW) { SubRec* s = new_sub((int)(o.a % nb), topic_name(o.b), o.c & 1, o.d); BusP bp = W->busses[s->bus]->cell.get(); create_sub(s, bp); }
    else run_op(p, o);
  }
  RunRec* run; { Quiet q; run = new RunRec; W->runs.push_back(run); }
  std::thread runner([run] {
    BusP root = W->busses[0]->cell.get();
    { Quiet q; run->call = seq(); run->t_call = now_us(); W->running_now = true; }
    root->Start();
    { Quiet q; W->running_now = false; run->ret = seq(); run->t_ret = now_us(); if (W->in_cb) viol("C06.running-after-return", "the bus returned while a callback was running"); }
  });
  int na = (int)p.get("na", 1);
  std::vector<std::thread> th; { Quiet q; th.reserve(16); }
  for (int a = 1; a <= na; ++a) { th.emplace_back([&p, a] { for (auto& o : p.ops) if (o.actor == a) run_op(p, o); }); }
  for (auto& t : th) t.join();
  faults_off();
  drain(300000000);   // slow callbacks of many subscribers take their time
  StopRec* sr; { Quiet q; sr = new StopRec; W->stops.push_back(sr); sr->call = seq(); sr->t_call = now_us(); }
  { BusP root = W->busses[0]->cell.get(); root->Stop(); }
  { Quiet q; sr->ret = seq(); sr->t_ret = now_us(); }
  u64 busy0 = W->busy();
  runner.join();
  { Quiet q; u64 lim = sr->t_ret + 100000 + (W->busy() - busy0) + stall_between(sr->t_call, run->t_ret) + 2000; if (run->t_ret > lim) viol("C06.slow", "the bus returned %llu ms after the stop request", (unsigned long long)(run->t_ret - sr->t_ret) / 1000); }
  check_children();
  check_history(true);
  for (auto m : W->msgs) if (m->bus == -2 && m->ndel) viol("C05.mute", "a message published through a deleted publisher was delivered");
  { Quiet q; state(W->msgs.size() / 4 * 131 + W->subs.size() * 17 + W->busses.size()); u64 h = 0; for (auto s : W->subs) for (auto& d : s->dels) h = h * 31 + (u64)d.msg; state(h); }
  // tear down: everything, in an order the plan chooses, while surviving handles are used
  int end = (int)p.get("end");
  if (end) {
    { Quiet q; W->tear_down = true; }
    std::vector<std::thread> th2; { Quiet q; th2.reserve(4); }
    // surviving handles: child buses and publishers; the root's own publishers are not used
    for (int k = 0; k < 2; ++k) th2.emplace_back([k, end] {
      for (int i = 0; i < 6; ++i) {
        int n; { Quiet q; n = (int)W->busses.size(); }
        int b = 1 + (i * 2 + k) % (n > 1 ? n - 1 : 1); if (b >= n) return;
        if (k && end != 3) {
          // a publisher of that bus, which may outlive the bus itself
          int pk = -1; { Quiet q; for (size_t j = 0; j < S->stat_pub.size(); ++j) if (S->stat_bus[j] == b) pk = (int)j; }
          if (pk < 0) continue;
          PubP pp; { NoSched ns; pp = S->stat_pub[pk]; }
          MsgRec* m = begin_msg(b, topic_name(0), 0); m->may_drop = true; { Quiet q; m->topic = S->stat_topic[pk]; }
          publish_via(0, nullptr, pp, m); end_msg(m, true);
        } else {
          BusP bp = W->busses[b]->cell.get(); if (!bp) continue;
          MsgRec* m = begin_msg(b, topic_name(0), 0); m->may_drop = true;
          publish_via(2, bp, nullptr, m); end_msg(m, true);
        }
        count("probe.publish_during_destruction");
      }
    });
    if (end == 2) for (auto b : W->busses) if (b != W->busses[0]) { BusP h = b->cell.take(); }   // parents own them alone now
    for (auto s : W->subs) { SubP h = s->cell.take(); }
    { BusP root = W->busses[0]->cell.take(); }
    for (auto& t : th2) t.join();
    count("probe.tree_destroyed_under_use");
    // after destruction
    for (size_t i = 0; i < S->stat_pub.size(); ++i) if (S->stat_bus[i] != 0) { MsgRec* m = begin_msg(S->stat_bus[i], "", 0); { Quiet q; m->topic = S->stat_topic[i]; } publish_via(0, nullptr, S->stat_pub[i], m); }
    for (size_t b = 1; b < W->busses.size(); ++b) { BusP h = W->busses[b]->cell.take(); if (h) { MsgRec* m = begin_msg((int)b, "x", 0); publish_via(2, h, nullptr, m); } }
  } else {
    for (auto s : W->subs) { SubP h = s->cell.take(); }
    for (size_t b = W->busses.size(); b-- > 0;) { BusP h = W->busses[b]->cell.take(); }
  }
  for (auto r : S->pubs) { PubP h = r->cell.take(); }
  for (int k = 0; k < 4; ++k) { auto c = S->cons[k].take(); auto h = S->prov[k].take(); }
  S->stat_pub.clear(); W->inner_pubs.clear();
}
const Scenario SC = {"bus", gen, exec};
RegScenario reg(&SC);
}
