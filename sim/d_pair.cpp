// Two whole LampPost hosts with the shipped configurations (Link and SysInfo each), found through the
// simulated loader and joined over the simulated network, plus a plugin that watches and asks.
#include "drv.h"
#include <lamppost/LampPost.h>
#include <lamppost/messages/Message.h>
using namespace sim;
using namespace lp;

extern const char* const SHIPPED[2];     // config/default_server.cfg, config/default_client.cfg
extern "C" {
PluginInstance* sysinfo_CreateInstance(PluginConfiguration);
PluginTemplateInfo* sysinfo_CreateInfo();
PluginInstance* link_CreateInstance(PluginConfiguration);
PluginTemplateInfo* link_CreateInfo();
}

namespace {
enum K { NAP = 1, PART, BREAK, RESTART };
struct Arr { u64 t; bool remote; int k; };
struct Req { u64 t0, t1; int out; };            // out 0 nothing 1 answered
struct Epoch { int host, num; u64 t_call = 0, t_up = ~0ull, t_stop = ~0ull, t_end = ~0ull; bool returned = false, stop_sent = false; std::vector<Arr> arr; std::vector<Req> req; int asked = 0; };
struct Host {
  int k; bool send[3] = {false, false, false}; int nsys = 1; std::list<std::string> files; bool first = true;
  std::vector<Epoch*> ep; std::shared_ptr<LampPost> lp; std::thread th; bool up = false;
};
struct St { Host h[2]; u64 calm_from = ~0ull, calm_to = ~0ull; u64 seed = 0; int starting = -1; long naps = 0; bool ending = false; };
St* S;
const long SHIPPED_SEND[2] = {0, 1};
const u64 PERIOD = 2000000;

const char* const REMOTE = "Link0/SysInfo";

bool text_of(messages::Datagram& d, std::string& s) {
  if (d.GetType() != messages::RawDatagramType::Value) return false;
  try { s = d.Get<std::string>(); return true; } catch (std::exception&) { return false; }
}

class Observer : public PluginInstance {
 public:
  Epoch* e; SubP sub; std::shared_ptr<bus::ActionConsumer> cons;
  Observer(PluginConfiguration c, Epoch* ep) : PluginInstance(c), e(ep) {}
  void Initialize() override {
    Epoch* me = e; Host* h = &S->h[e->host];
    sub = GetBus()->CreateSubscriber(std::string("/**/*"));
    sub->SetMessageCallback([me, h](messages::Message m) {
      std::string sender, topic, text; bool str; messages::Datagram d;
      { NoSched ns; sender = m.GetSender(); topic = m.GetTopic(); d = m.GetDatagram(); str = text_of(d, text); }
      Quiet q;
      if (sender.find("Link", 1) != std::string::npos) viol("C27.echo", "host %d gets a message on '%s' from '%s': it came back", me->host, topic.c_str(), sender.c_str());
      if (topic == "/sysinfoaction/request" || topic == "/sysinfoaction/response") return;
      if (tracing()) trace("host %d sees '%s' on %s from '%s'", me->host, text.c_str(), topic.c_str(), sender.c_str());
      if (topic != "/sysinfo" || !str || text != "Hello Bus!") viol("C27.content", "host %d gets '%s' on '%s' from '%s' instead of the text 'Hello Bus!' on '/sysinfo'", me->host, str ? text.c_str() : "something that is no text", topic.c_str(), sender.c_str());
      Arr a; a.t = now_us(); a.remote = sender.compare(0, 6, "Link0/") == 0;
      std::string s = a.remote ? sender.substr(6) : sender;
      int src = a.remote ? 1 - me->host : me->host;
      a.k = s.size() == 8 && s.compare(0, 7, "SysInfo") == 0 && s[7] >= '0' && s[7] < '0' + S->h[src].nsys ? s[7] - '0' : -1;
      if (a.k < 0) viol("C27.sender", "host %d gets a message on /sysinfo from '%s', which no plugin of this setup sends", me->host, sender.c_str());
      else if (!S->h[src].send[a.k]) viol("C27.silent", "host %d gets a message from '%s', whose configuration does not ask for any", me->host, sender.c_str());
      if (a.k >= 0) me->arr.push_back(a);
      (void)h;
    });
    cons = GetActionConsumer(std::string("/sysinfoaction"));
  }
  void Run() override {
    { Quiet q; e->t_up = now_us(); }
    for (int i = 0; mShouldRun; ++i) {
      u64 r; { Quiet q; r = mix2(S->seed, (u64)(e->host * 1000 + e->num * 100 + i)); }
      Sleep(std::chrono::milliseconds(50 + r % 800));
      if (!mShouldRun) break;
      messages::Datagram d = r & 1 ? make_payload(i, (r >> 8) % 4096) : messages::Datagram(std::string("what?"));
      Req q1; { Quiet q; q1.t0 = now_us(); if (tracing()) trace("host %d asks", e->host); }
      int out = 0; std::string text;
      {
        messages::Datagram a = cons->Request(d, 1500);
        NoSched ns;
        if (!a.IsEmpty()) { out = 2; if (text_of(a, text) && text == "This is the response message.") out = 1; }
      }
      Quiet q; q1.t1 = now_us(); q1.out = out; e->req.push_back(q1);
      if (tracing()) trace("host %d is answered: %d", e->host, out);
      if (out == 2) viol("C27.answer", "host %d is answered with '%s' instead of 'This is the response message.'", e->host, text.c_str());
      count(out ? "answered" : "unanswered");
    }
  }
  void Deinitialize() override { if (sub) DeleteSubscriber(sub); }
};

PluginInstance* obs_create(PluginConfiguration c) { Epoch* e; { Quiet q; e = S->h[S->starting].ep.back(); } return new Observer(c, e); }
PluginTemplateInfo* obs_info() { PluginTemplateInfo* i = new PluginTemplateInfo; i->mIdentifier = "Observer"; return i; }

void start_host(Host* h) {
  Epoch* e;
  {
    Quiet q; e = new Epoch; e->host = h->k; e->num = (int)h->ep.size(); e->arr.reserve(128); e->req.reserve(256); e->t_call = now_us(); h->ep.push_back(e);
    if (tracing()) trace("host %d starts", h->k);
  }
  LampPostConfiguration conf; { Quiet q; conf.mConfigurationFiles = h->files; }
  // which host a plugin belongs to is told by the one that is starting: one after the other
  for (int i = 0; i < 200000; ++i) { { Quiet q; if (S->starting < 0) { S->starting = h->k; break; } } std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  std::shared_ptr<LampPost> l = std::make_shared<LampPost>(conf);
  { Quiet q; h->up = true; }
  h->lp = l;
  h->th = std::thread([l, e] {
    l->Start();
    Quiet q; e->returned = true; e->t_end = now_us(); if (tracing()) trace("host %d has ended", e->host);
    if (!e->stop_sent) viol("C27.ended", "host %d ended although nobody asked it to", e->host);
  });
  for (int i = 0; i < 60000; ++i) { { Quiet q; if (e->t_up != ~0ull || e->returned) break; if (now_us() > e->t_call + 5000000 + stall_between(e->t_call, now_us())) { viol("C27.start", "host %d has not started its plugins 5 s after its start", h->k); fail("hang", "host %d has not started its plugins 5 s after its start", h->k); } } std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  Quiet q; S->starting = -1;
}

void stop_host(Host* h) {
  Epoch* e; { Quiet q; if (!h->up) return; h->up = false; e = h->ep.back(); e->t_stop = now_us(); e->stop_sent = true; if (tracing()) trace("host %d is stopped", h->k); }
  h->lp->Stop();
  for (;;) {
    { Quiet q; if (e->returned) break; u64 most = 20000000 + stall_between(e->t_stop, now_us()); if (now_us() > e->t_stop + most) { viol("C27.late", "host %d still runs 20 s after it was stopped", h->k); fail("hang", "host %d still runs 20 s after it was stopped", h->k); } }
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
  }
  h->th.join();
  if (!h->lp->IsStopped()) viol("C27.state", "host %d has stopped but does not report it", h->k);
  h->lp.reset();
  Quiet q;
  u64 most = 3500000 + (u64)h->nsys * 2100000 + stall_between(e->t_stop, e->t_end);
  if (e->t_end > e->t_stop + most) viol("C27.late", "host %d took %llu ms to end", h->k, (unsigned long long)(e->t_end - e->t_stop) / 1000);
}

std::string entry(const std::string& type, const std::string& conf) { return "{\"type\": \"" + type + "\", \"configuration\": " + conf + "}"; }

void gen(Plan& p, Rng& r) {
  bool var = r.below(2); p.p["var"] = var;
  for (int h = 0; h < 2; ++h) {
    std::string n = std::to_string(h);
    p.p["first" + n] = r.below(3) != 0;                       // the observer comes first
    if (var) { p.p["nsys" + n] = r.below(4) ? 1 : (long)r.below(3); for (int i = 0; i < 3; ++i) p.p["send" + n + std::to_string(i)] = (long)r.below(4); }
  }
  p.p["order"] = (long)r.below(3); p.p["gap"] = r.below(2) ? (long)r.below(400) : (long)r.below(4000); p.p["down"] = (long)r.below(3);
  p.p["delay"] = r.below(2) ? (long)(r.below(2) ? 1000 : 6000) : 0; p.p["maxdelay"] = (long)(r.below(2) ? 3000 : 60000);
  bool rough = r.below(2); p.p["rough"] = rough;
  p.p["drop"] = rough && r.below(2) ? 2000 : 0; p.p["reset"] = rough && r.below(3) == 0 ? 100 : 0;
  p.p["calm"] = r.range(2500, 7500);
  if (rough) for (int i = r.range(1, 4); i > 0; --i) {
    Op z; z.kind = NAP; z.a = r.below(3) ? (long)r.below(900000) : (long)r.below(2500000); p.ops.push_back(z);
    Op o; int x = (int)r.below(4); o.kind = x == 0 ? PART : x == 1 ? BREAK : RESTART; o.a = (long)r.below(2); o.b = 1000 * (long)r.below(r.below(2) ? 100 : 1500); p.ops.push_back(o);
  }
  // long simulated times: no delays at every step
  if (p.knobs.p_stall > 5) p.knobs.p_stall = 5;
  if (p.knobs.policy == 2 && p.knobs.acc_gap && p.knobs.acc_gap < 300) p.knobs.acc_gap = 1000;
}

bool calm_between(u64 a, u64 b, u64 most) { return stall_between(a, b) <= most; }

void check(const Plan& p) {
  Quiet q;
  for (int k = 0; k < 2; ++k) {
    Host& h = S->h[k]; Host& o = S->h[1 - k];
    for (auto e : h.ep) {
      // its own SysInfo plugins: one message when it starts, then one every two seconds, until it is stopped
      for (int j = 0; j < h.nsys; ++j) if (h.send[j]) {
        std::vector<u64> t; for (auto& a : e->arr) if (!a.remote && a.k == j) t.push_back(a.t);
        u64 end = e->t_stop;
        u64 lead = h.first ? 1000000 : 3200000;
        u64 from = e->t_call;
        if (end > from + lead + stall_between(from, end) && (t.empty() || t[0] > from + lead + stall_between(from, t[0]))) viol("C27.hello", "SysInfo%d of host %d, which is to send, was not heard %llu ms after the host's start", j, k, (unsigned long long)(t.empty() ? end - from : t[0] - from) / 1000);
        for (size_t i = 1; i < t.size(); ++i) {
          u64 st = stall_between(t[i - 1] > 300000 ? t[i - 1] - 300000 : 0, t[i]), gap = t[i] - t[i - 1];
          if (gap + 110000 + st < PERIOD) viol("C27.burst", "SysInfo%d of host %d sends again after %llu ms instead of two seconds", j, k, (unsigned long long)gap / 1000);
          if (gap > PERIOD + 110000 + st) viol("C27.gap", "SysInfo%d of host %d sends again after %llu ms instead of two seconds", j, k, (unsigned long long)gap / 1000);
        }
        if (!t.empty() && end > t.back() + PERIOD + 110000 + stall_between(t.back(), end)) viol("C27.gap", "SysInfo%d of host %d was not heard any more for the last %llu ms before the host was stopped", j, k, (unsigned long long)(end - t.back()) / 1000);
        count("hello_local", t.size());
      }
      // the other host's, over the link
      for (int j = 0; j < o.nsys; ++j) if (o.send[j]) {
        std::vector<u64> t, sent; for (auto& a : e->arr) if (a.remote && a.k == j) t.push_back(a.t);
        for (auto oe : o.ep) for (auto& a : oe->arr) if (!a.remote && a.k == j) sent.push_back(a.t);
        count("hello_remote", t.size());
        // what one host hears, the other one has sent (an observer that comes late may have missed one of each start)
        for (size_t i = 0; i < t.size(); ++i) {
          size_t had = o.first ? 0 : o.ep.size(); u64 at = t[i] + 250000 + stall_between(t[i] > 200000 ? t[i] - 200000 : 0, t[i] + 250000);
          for (u64 s : sent) if (s <= at) ++had;
          if (i + 1 > had) { viol("C27.twice", "host %d hears SysInfo%d of the other host %d times by %llu ms, which has sent only %d messages by then", k, j, (int)i + 1, (unsigned long long)t[i] / 1000, (int)had); break; }
        }
        // while both run and are connected: every one of them once, and soon
        if (e->t_up > S->calm_from || e != h.ep.back() || S->calm_to == ~0ull) continue;
        for (u64 s : sent) {
          if (s < S->calm_from + 200000 || s + 700000 > S->calm_to || !calm_between(s - 200000, s + 700000, 100000)) continue;
          int n = 0; for (u64 x : t) if (x + 300000 >= s && x <= s + 700000) ++n;
          count("hello_matched");
          if (n != 1) viol(n ? "C27.twice" : "C27.lost", "a message of SysInfo%d of host %d at %llu ms reaches the other host %d times although both are connected", j, 1 - k, (unsigned long long)s / 1000, n);
        }
      }
      // requests
      for (auto& r : e->req) {
        if (r.out) continue;
        u64 T = r.t0 + 1500000;
        bool own = h.nsys > 0 && r.t0 > e->t_up + 400000 && e->t_stop > T && e->t_call + 1500000 + stall_between(e->t_call, r.t0) < r.t0;
        bool far = o.nsys > 0 && r.t0 > S->calm_from + 100000 && T < S->calm_to;
        if ((own || far) && calm_between(r.t0, T, 300000)) viol("C27.unanswered", "a request on /sysinfoaction made on host %d at %llu ms was not answered within 1.5 s (%s)", k, (unsigned long long)r.t0 / 1000, own ? "the host itself runs SysInfo" : "the connected host runs SysInfo");
      }
      state(e->arr.size() * 64 + e->req.size());
    }
    state(100000 + h.ep.size() * 100 + h.nsys);
  }
}

void exec(const Plan& p) {
  new_world();
  {
    Quiet q;
    S = new St; set_prop(p.prop); out::install(); S->seed = p.seed; fs::enable(true); net::enable();
    fs::add("/opt/lp/lamppost", fs::FILE_, "ELF"); fs::add("/work/lib", fs::DIR_); fs::set_env("/work", "/opt/lp/lamppost");
    fs::add("/work/lib/libplugin_link.so", fs::FILE_, "ELF"); fs::add("/work/lib/libplugin_sysinfo.so", fs::FILE_, "ELF"); fs::add("/opt/lp/libplugin_observer.so", fs::FILE_, "ELF");
    dl::add("/work/lib/libplugin_link.so", (void*)link_CreateInfo, (void*)link_CreateInstance);
    dl::add("/work/lib/libplugin_sysinfo.so", (void*)sysinfo_CreateInfo, (void*)sysinfo_CreateInstance);
    dl::add("/opt/lp/libplugin_observer.so", (void*)obs_info, (void*)obs_create);
    fs::add("/etc/lp/observer.cfg", fs::FILE_, "{\"plugins\": [" + entry("Observer", "{}") + "]}");
    for (int k = 0; k < 2; ++k) {
      Host& h = S->h[k]; h.k = k; h.ep.reserve(16); std::string n = std::to_string(k), text = SHIPPED[k];
      h.send[0] = SHIPPED_SEND[k]; h.first = p.get(("first" + n).c_str(), 1);
      if (p.get("var")) {
        h.nsys = (int)p.get(("nsys" + n).c_str(), 1); text = "{\"plugins\": [";
        std::string link = entry("Link", k ? "{\"client-role\": {\"enabled\": true, \"server-host\": \"127.0.0.1\", \"port-pub\": 6968, \"port-sub\": 6967}}" : "{\"server-role\": {\"enabled\": true, \"port-pub\": 6967, \"port-sub\": 6968, \"interface\": \"*\"}}");
        if (h.nsys == 0) text += link;
        for (int i = 0; i < h.nsys; ++i) {
          long s = p.get(("send" + n + std::to_string(i)).c_str());
          h.send[i] = s == 1 || s == 3;
          if (i) text += ", "; if (i == 0 && s == 2) text += link + ", ";
          text += entry("SysInfo", s == 0 ? "{}" : s == 2 ? "{\"send-datagram\": false}" : "{\"send-datagram\": true}");
          if (i == 0 && s != 2) text += ", " + link;
        }
        text += "]}";
      }
      fs::add("/etc/lp/host" + n + ".cfg", fs::FILE_, text);
      if (h.first) h.files = {"/etc/lp/observer.cfg", "/etc/lp/host" + n + ".cfg"}; else h.files = {"/etc/lp/host" + n + ".cfg", "/etc/lp/observer.cfg"};
    }
  }
  auto setf = [&](bool rough) { Quiet q; net::Faults& f = net::faults; f.delay = (u32)p.get("delay"); f.max_delay = p.get("maxdelay", 20000); f.drop = rough ? (u32)p.get("drop") : 0; f.reset = rough ? (u32)p.get("reset") : 0; };
  setf(p.get("rough"));
  long order = p.get("order"), gap = p.get("gap");
  Host *a = &S->h[order & 1], *b = &S->h[1 - (order & 1)];
  if (order == 2) { std::thread t([b] { start_host(b); }); start_host(a); t.join(); }
  else { start_host(a); if (gap) std::this_thread::sleep_for(std::chrono::milliseconds(gap)); start_host(b); }
  for (auto& o : p.ops) switch (o.kind) {
    case NAP: std::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
    case PART: net::partition(true); std::this_thread::sleep_for(std::chrono::microseconds(o.b)); net::partition(false); break;
    case BREAK: net::break_connections(); break;
    case RESTART: { count("fault.node_restart"); Host* h = &S->h[o.a & 1]; stop_host(h); if (o.b) std::this_thread::sleep_for(std::chrono::microseconds(o.b)); start_host(h); } break;
  }
  net::partition(false);
  setf(false);
  for (int i = 0; i < 400; ++i) { if (net::all_subscribed()) break; std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
  { Quiet q; if (!net::all_subscribed()) viol("C27.link", "the two hosts are not connected 4 s after the network came up"); else S->calm_from = now_us(); }
  std::this_thread::sleep_for(std::chrono::milliseconds(p.get("calm", 3000)));
  { Quiet q; S->calm_to = now_us(); }
  long down = p.get("down");
  if (down == 2) { std::thread t([b] { stop_host(b); }); stop_host(a); t.join(); }
  else { stop_host(&S->h[down]); stop_host(&S->h[1 - down]); }
  check(p);
  Quiet q;
  for (auto l : dl::libs) if (l->refs) viol("C27.left", "library %s is still open after both hosts have ended", l->path.c_str());
  if (net::live_contexts()) viol("C27.left", "sockets are still open after both hosts have ended");
  if (open_threads() > 1) viol("C27.left", "%d threads are still running after both hosts have ended", open_threads() - 1);
}
const Scenario SC = {"pair", gen, exec};
RegScenario reg(&SC);
}
