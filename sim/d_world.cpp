#include "drv.h"
using namespace sim;
using namespace lp;

const char* const TOPICS[] = {"/t/a", "/t/b", "/t/a/b", "/t/aa", "t", "/t", "/t/*", "/**/*", "/T/a", "/t/a/", "/**", "", "/sysinfo",
  "/t/a/response", "/t/a/request", "/response", "/act/response", "/act/request", "/sysinfo/request", "/sysinfo/response", "/link", "/t/a ", "/t//a", "/t/\xc3\xa4", "/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789", "/t/a/b/c/d/e/f/g/h", "/t/a\x02", "/t/a\x02/b", "\x02"};
const int NTOPICS = sizeof TOPICS / sizeof *TOPICS;
World* W = nullptr;
World* new_world() { Quiet q; W = new World; W->busses.reserve(256); W->subs.reserve(4096); W->inner_pubs.reserve(256); W->runs.reserve(256); W->stops.reserve(256); return W; }

MsgRec* begin_msg(int bus, const std::string& topic, u64 shape) {
  Quiet q;
  MsgRec* m = new MsgRec; m->id = (long)W->msgs.size(); m->bus = bus; m->topic = topic; m->shape = shape; m->tid = tid();
  if (bus >= 0) m->sender = W->busses[bus]->name;
  W->msgs.push_back(m);
  m->t_call = now_us(); m->call = seq();
  // was the bus, or one above it, cut off before this call began?
  for (int x = bus; x >= 0; x = W->busses[x]->parent) if (W->busses[x]->detach_ret < m->call) m->nowhere = true;
  return m;
}
void end_msg(MsgRec* m, bool ok) { Quiet q; if (!ok) m->uncertain = true; m->ret = seq(); m->t_ret = now_us(); m->busy_ret = W->busy();
  if (m->nowhere) return;
  for (int x = m->bus; x >= 0; x = W->busses[x]->parent) if (W->busses[x]->detach_call < m->ret) m->may_drop = true;
  if (W->tear_down) m->may_drop = true;
}

SubRec* new_sub(int bus, const std::string& topic, bool msgcb, long flags) {
  Quiet q; SubRec* s = new SubRec; s->bus = bus; s->topic = topic; s->msgcb = msgcb; s->flags = flags; W->subs.push_back(s); return s;
}

void publish_via(int how, BusP bus, PubP pub, MsgRec* m) {
  std::string topic, sender;
  { Quiet q; topic = m->topic; sender = m->sender; }
  // payloads are built before the call; what happens to them afterwards must not matter
  messages::Datagram d = make_payload(m->id, m->shape);
  if (how == 0) pub->Publish(d);
  else if (how == 1) { PubP p = bus->CreatePublisher(topic); p->Publish(d); }
  else bus->Publish(messages::Message(sender, topic, d));
  scribble(d, (u64)m->id);
}

MsgRec* publish_twins(int b, const std::string& topic, int how, PubP pub, u64 shape, int n) {
  MsgRec* m = begin_msg(b, topic, shape); m->copies = n;
  { Quiet q; if (tracing()) trace("publish m%ld '%s' on bus %d, %d times", m->id, topic.c_str(), b, n); count("probe.equal_messages"); }
  BusP bp = W->busses[b]->cell.get();
  for (int i = 0; i < n; ++i) publish_via(how, bp, pub, m);
  end_msg(m, true);
  return m;
}

static void inner_publish(SubRec* s) {
  int k = -1; MsgRec* m = nullptr;
  {
    Quiet q;
    if (W->inner_budget <= 0 || W->inner_pubs.empty() || W->tear_down) return;
    --W->inner_budget;
    k = (int)((W->inner_budget + s->bus) % (long)W->inner_pubs.size());
  }
  m = begin_msg(W->inner_bus[k], W->inner_topic[k], (u64)W->inner_budget % 3);
  count("probe.publish_inside_callback");
  if (s->flags & 8) { BusP b = W->busses[m->bus]->cell.get(); publish_via(1, b, nullptr, m); }
  else publish_via(0, nullptr, W->inner_pubs[k], m);
  end_msg(m, true);
}

void on_delivery(SubRec* s, messages::Datagram d, messages::Message* m) {
  long id; MsgRec* r = nullptr;
  {
    Quiet q;
    u64 e = seq();
    if (s->del_ret != ~0ull) viol("C05.after-delete", "a subscriber to '%s' was called after its deletion had returned", s->topic.c_str());
    if (!W->running_now) viol("C06.callback-after-return", "a callback runs although the bus is not running");
    if (W->in_cb++ == 0) W->cb_start = now_us();
    s->running++;
    { Delivery dv; dv.msg = -1; dv.enter = e; dv.exit = ~0ull; dv.t_enter = now_us(); s->dels.push_back(dv); }
    W->last_delivery = now_us();
  }
  size_t di = s->dels.size() - 1;
  { NoSched ns; id = payload_id(d); }
  {
    Quiet q;
    if (id < 0 || id >= (long)W->msgs.size()) {
      viol("C01.invented", "a subscriber to '%s' received something that was never published", s->topic.c_str());
      viol("C03.content", "a subscriber to '%s' received a damaged message: its identification is unreadable", s->topic.c_str());
    } else {
      r = W->msgs[id]; s->dels[di].msg = id;
      if (tracing()) trace("sub(bus %d '%s') gets m%ld", s->bus, s->topic.c_str(), id);
      r->ndel++;
      if (r->nowhere) viol("C12.delivered", "a message published on bus '%s' after it was cut off was delivered", r->sender.c_str());
    }
  }
  if (r) {
    if (W->strict || (id & 7) == 0) {
      std::string df; std::string topic, sender;
      if (m) { NoSched ns; topic = m->GetTopic(); sender = m->GetSender(); }
      df = payload_diff(d, id, r->shape);
      Quiet q;
      if (!df.empty()) viol("C03.content", "message m%ld on '%s' differs from what was published: %s", id, r->topic.c_str(), df.c_str());
      if (m && topic != r->topic) viol("C03.topic", "message m%ld arrives with topic '%s' instead of '%s'", id, topic.c_str(), r->topic.c_str());
      if (m && sender != r->sender) viol("C03.sender", "message m%ld arrives with sender '%s' instead of '%s'", id, sender.c_str(), r->sender.c_str());
    }
    if (s->flags & 1) { count("probe.receiver_scribbles"); scribble(d, (u64)id + 1); }
    if (s->flags & 10) inner_publish(s);
    if (s->flags & 4) { u64 us; { Quiet q; us = (u64)((id * 37 + s->bus * 11) % 8) * 900; } std::this_thread::sleep_for(std::chrono::microseconds(us)); }
    if (s->flags & 16) std::this_thread::sleep_for(std::chrono::milliseconds(30));
  }
  if (W->on_cb_stop) { bool go; { Quiet q; go = W->cb_stops > 0 && (id & 3) == 1; if (go) --W->cb_stops; } if (go) { count("probe.stop_inside_callback"); W->on_cb_stop(); } }
  {
    Quiet q;
    s->running--;
    s->dels[di].exit = seq(); s->dels[di].t_exit = now_us();
    if (--W->in_cb == 0) W->cb_busy += now_us() - W->cb_start;
  }
}

bool create_sub(SubRec* s, BusP bus) {
  std::string topic; { Quiet q; topic = s->topic; s->create_call = seq(); }
  try {
    SubP h;
    if (s->msgcb) { h = bus->CreateSubscriber(topic); h->SetMessageCallback([s](messages::Message m) { on_delivery(s, m.GetDatagram(), &m); }); }
    else h = bus->CreateSubscriber(topic, [s](messages::Datagram d) { on_delivery(s, d, nullptr); });
    s->cell.put(h);
  } catch (std::bad_alloc&) { Quiet q; s->failed = true; return false; }
  Quiet q; s->create_ret = seq();
  return true;
}
void delete_sub(SubRec* s, BusP bus) {
  SubP h = s->cell.get();
  { Quiet q; s->del_call = seq(); s->t_del_call = now_us(); }
  bus->DeleteSubscriber(h);
  Quiet q;
  s->del_ret = seq();
  if (s->running) viol("C05.running", "deleting a subscriber to '%s' returned while its callback was still running", s->topic.c_str());
}

void drain(u64 max_us) {
  u64 t0 = now_us();
  for (;;) {
    std::this_thread::sleep_for(std::chrono::milliseconds(130));
    Quiet q;
    u64 e = std::max(W->last_delivery, stall_end());
    if (!W->in_cb && now_us() > e + 125000) break;
    if (now_us() - t0 > max_us) break;
  }
}

// ---- the recorded history against the model ------------------------------------------------------
static bool connected(const MsgRec* m) { return !m->nowhere && !m->may_drop; }

void check_history(bool drained) {
  Quiet q;
  size_t nm = W->msgs.size();
  // C01 / C05: who got what, how often
  for (auto s : W->subs) {
    if (s->failed) continue;
    std::vector<int> n(nm, 0);
    for (auto& d : s->dels) if (d.msg >= 0) {
      MsgRec* m = W->msgs[d.msg];
      if (++n[d.msg] > m->copies) {
        viol("C01.duplicate", "message m%ld ('%s') was delivered %d times to a subscriber to '%s'", d.msg, m->topic.c_str(), n[d.msg], s->topic.c_str());
        viol("C06.duplicate", "message m%ld ('%s') was delivered %d times to a subscriber to '%s'", d.msg, m->topic.c_str(), n[d.msg], s->topic.c_str());
        viol("C07.duplicate", "message m%ld ('%s') was delivered %d times to a subscriber to '%s'", d.msg, m->topic.c_str(), n[d.msg], s->topic.c_str());
      }
      if (!topic_match(s->topic, m->topic)) viol("C01.misrouted", "message m%ld with topic '%s' was delivered to a subscriber to '%s'", d.msg, m->topic.c_str(), s->topic.c_str());
    }
    if (!drained) continue;
    for (size_t i = 0; i < nm; ++i) {
      MsgRec* m = W->msgs[i];
      if (n[i] >= m->copies || m->uncertain || !connected(m) || !topic_match(s->topic, m->topic) || m->ret == ~0ull) continue;
      if (s->create_ret > m->call) continue;                 // joined too late
      if (s->bus >= 0) { bool cut = false; for (int b = s->bus; b >= 0; b = W->busses[b]->parent) if (W->busses[b]->detach_call != ~0ull) cut = true; if (cut) continue; }
      if (s->del_call != ~0ull) {
        // obliged only if there was time to deliver before it left
        u64 start = W->runs.empty() ? 0 : W->runs[0]->t_call;
        u64 from = m->t_ret > start ? m->t_ret : start;
        if (W->runs.empty() || s->t_del_call < from + 110000 + W->cb_busy + stall_between(0, ~0ull >> 1)) continue;
      }
      const char* fmt = m->copies > 1 ? "message m%ld ('%s' on bus %d), published several times in a row, was delivered fewer times to a subscriber to '%s' on bus %d" : "message m%ld ('%s' on bus %d) never reached a subscriber to '%s' on bus %d";
      viol("C01.lost", fmt, (long)i, m->topic.c_str(), m->bus, s->topic.c_str(), s->bus);
      viol("C06.lost", fmt, (long)i, m->topic.c_str(), m->bus, s->topic.c_str(), s->bus);
      viol("C07.lost", fmt, (long)i, m->topic.c_str(), m->bus, s->topic.c_str(), s->bus);
      viol("C05.lost", fmt, (long)i, m->topic.c_str(), m->bus, s->topic.c_str(), s->bus);
      viol("C11.lost", fmt, (long)i, m->topic.c_str(), m->bus, s->topic.c_str(), s->bus);
      viol("C12.lost", fmt, (long)i, m->topic.c_str(), m->bus, s->topic.c_str(), s->bus);
    }
  }
  // messages whose fate was open: for everybody or for nobody
  if (drained) for (size_t i = 0; i < nm; ++i) {
    MsgRec* m = W->msgs[i];
    if (!(m->uncertain || m->may_drop) || m->nowhere) continue;
    int got = 0, missed = 0;
    for (auto s : W->subs) {
      if (s->failed || !topic_match(s->topic, m->topic) || s->create_ret > m->call || s->del_call != ~0ull) continue;
      bool cut = false; for (int b = s->bus; b >= 0; b = W->busses[b]->parent) if (W->busses[b]->detach_call != ~0ull) cut = true;
      if (cut) continue;
      bool g = false; for (auto& d : s->dels) if (d.msg == (long)i) g = true;
      g ? ++got : ++missed;
    }
    if (m->may_drop) { count("probe.publish_during_detach"); if (got) count("probe.publish_during_detach_delivered"); }
    if (got && missed) { const char* r = m->may_drop ? "C12.partial" : "C07.partial"; viol(r, "message m%ld reached %d of its subscribers and missed %d", (long)i, got, missed); }
  }
  // C02: one order, consistent with real time
  {
    struct E { u64 t; int m; bool ret; };
    std::vector<E> ev;
    std::vector<char> delivered(nm, 0);
    for (auto s : W->subs) for (auto& d : s->dels) if (d.msg >= 0) delivered[d.msg] = 1;
    for (size_t i = 0; i < nm; ++i) if (delivered[i]) { ev.push_back({W->msgs[i]->call, (int)i, false}); if (W->msgs[i]->ret != ~0ull) ev.push_back({W->msgs[i]->ret, (int)i, true}); }
    std::sort(ev.begin(), ev.end(), [](const E& a, const E& b) { return a.t < b.t; });
    size_t N = nm + ev.size();
    std::vector<std::vector<int>> g(N);
    for (size_t i = 0; i < ev.size(); ++i) { int t = (int)(nm + i); if (i) g[t - 1].push_back(t); if (ev[i].ret) g[ev[i].m].push_back(t); else g[t].push_back(ev[i].m); }
    bool multi = false;
    for (auto s : W->subs) {
      long prev = -1;
      std::set<long> seen;
      for (auto& d : s->dels) { if (d.msg < 0 || seen.count(d.msg) || (W->msgs[d.msg]->copies > 1 && s->create_ret > W->msgs[d.msg]->call)) continue; seen.insert(d.msg); if (prev >= 0) { g[prev].push_back((int)d.msg); multi = true; } prev = d.msg; }
    }
    if (multi) {
      std::vector<int> indeg(N, 0); for (auto& v : g) for (int x : v) indeg[x]++;
      std::vector<int> st; for (size_t i = 0; i < N; ++i) if (!indeg[i]) st.push_back((int)i);
      size_t done = 0; while (!st.empty()) { int x = st.back(); st.pop_back(); ++done; for (int y : g[x]) if (!--indeg[y]) st.push_back(y); }
      if (done != N) {
        std::string who; int k = 0; for (size_t i = 0; i < nm && k < 6; ++i) if (indeg[i]) { who += " m" + std::to_string(i); ++k; }
        viol("C02.order", "no single order fits what the subscribers saw and when the publish calls happened; involved:%s", who.c_str());
        viol("C06.order", "no single order fits what the subscribers saw and when the publish calls happened; involved:%s", who.c_str());
      }
    }
  }
  // C04: timeliness
  if (W->stops.size() <= 1) for (auto s : W->subs) for (auto& d : s->dels) if (d.msg >= 0) {
    MsgRec* m = W->msgs[d.msg];
    if (m->t_ret == ~0ull || W->runs.empty() || d.t_enter <= m->t_ret) continue;
    u64 from = m->t_ret, busy0 = m->busy_ret;
    if (W->runs[0]->t_call > from) { from = W->runs[0]->t_call; busy0 = 0; }
    u64 allowed = 100000 + (W->cb_busy > busy0 ? W->cb_busy - busy0 : 0) + stall_between(from, d.t_enter) + 2000;
    if (d.t_enter - from > allowed) viol("C04.late", "message m%ld was delivered %llu ms after its publish call returned", d.msg, (unsigned long long)(d.t_enter - from) / 1000);
  }
  u64 tot = 0, maxq = 0; for (auto s : W->subs) { tot += s->dels.size(); } (void)maxq;
  count("msgs.published", nm); count("msgs.deliveries", tot);
}
