// Several nodes, each a bus with real Link plugins (and sometimes SysInfo), connected over the simulated
// network, plus peers that send whatever they like.
#include "drv.h"
#include "fb.h"
#include "mem.h"
#include <lamppost/messages/Message.h>
#include <lamppost/plugin/PluginTemplate.h>
using namespace sim;
using namespace lp;

extern "C" {
PluginInstance* sysinfo_CreateInstance(PluginConfiguration);
PluginInstance* link_CreateInstance(PluginConfiguration);
}

namespace {
enum K { PUB = 1, NAP, BURST, RPUB, PART, BREAK, RESTART, STALL };
const char* const ACT[] = {"/sysinfoaction/request", "/sysinfoaction/response", "/sysinfo", "/sysinfoaction"};
std::string topic_of(long i) { return i >= 100 ? ACT[i % 4] : topic_name(i); }

std::string part_name(int k, int j);
struct Ent { u64 at; std::string sender, topic, dump; long id; };
struct LinkRec { bool server = false, client = false; int rogue = -1; int peer = -1; std::string name; };
struct Node {
  int k; std::vector<LinkRec> links; std::vector<Ent> rec; int sysinfo = 0; bool up = false, was_up = false; int npart = 1;
  Cell<BusP> root; std::vector<Cell<BusP>*> part;
  std::shared_ptr<PluginTemplate> tl, ts; std::vector<std::shared_ptr<PluginInstance>> inst; SubP recorder; std::thread bus; BusP rb; bool first = false; u64 late_sub = 0;
};
struct Sent { u64 at; int cls; bool must; std::string sender, topic, dump; };
struct Rogue { int peer = -1; int node = -1, link = -1; std::vector<Sent> sent; bool bind = false; };
struct Msg { std::string topic, sender; u64 shape; u64 call; };
struct St { std::vector<Node*> nodes; std::vector<Rogue*> rogues; std::vector<Msg> msgs; u64 last = 0, must_from = ~0ull, must_to = ~0ull; bool lossy = false; const Plan* p = nullptr; bool ending = false; };
St* S;
std::string part_name(int k, int j) { static const char* pre[] = {"N", "N", "Link0N", "Link1", "Link", "SysInfo0N"}; std::string n = pre[S->p->get("names") % 6] + std::to_string(k) + "p" + std::to_string(j); if (S->p->get("names") > 5) { n += '\0'; if (j & 1) n += "x"; } return n; }

std::string json(Node* n, LinkRec& l) {
  const Plan& p = *S->p; bool defports = p.get("defports") && S->nodes.size() <= 8;
  std::string s = "{";
  auto port = [&](int k, bool pub) { return (k == 0 && defports ? 6967 : 7000 + 2 * k) + (pub ? 0 : 1); };
  if (l.server) { s += "\"server-role\": {\"enabled\": true"; if (!(n->k == 0 && defports)) s += ", \"port-pub\": " + std::to_string(port(n->k, true)) + ", \"port-sub\": " + std::to_string(port(n->k, false)); if (p.get("iface")) s += ", \"interface\": \"127.0.0.1\""; s += "}"; }
  else if (p.get("explicit")) s += "\"server-role\": {\"enabled\": false}";
  if (l.client) {
    if (s.size() > 1) s += ", ";
    int k = l.rogue >= 0 ? 900 + l.rogue : l.peer;
    s += "\"client-role\": {\"enabled\": true"; if (!(k == 0 && defports)) s += ", \"port-pub\": " + std::to_string(port(k, false)) + ", \"port-sub\": " + std::to_string(port(k, true)); if (p.get("host")) s += ", \"server-host\": \"127.0.0.1\""; s += "}";
  }
  return s + "}";
}

long links_in(const std::string& s) { long n = 0; for (size_t at = s.find("Link"); at != std::string::npos; at = s.find("Link", at + 1)) ++n; return n; }

void start_node(Node* n) {
  { Quiet q; if (tracing()) trace("node %d starts", n->k); }
  BusP root = std::make_shared<bus::Bus>("root");
  n->rb = root;
  Node* me = n;
  n->recorder = root->CreateSubscriber(std::string("/**/*"));
  n->recorder->SetMessageCallback([me](messages::Message m) {
    std::string sender, topic, bytes; long id; messages::Datagram d;
    { NoSched ns; sender = m.GetSender(); topic = m.GetTopic(); d = m.GetDatagram(); id = payload_id(d); auto raw = m.SerializeToBytes(); bytes.assign((const char*)raw->GetContent(), raw->GetSize()); }
    bool known; u64 shape = 0; { Quiet q; known = id >= 0 && id < (long)S->msgs.size(); if (known) known = S->msgs[id].sender[0] != 'R'; if (known) { const std::string& o = S->msgs[id].sender; known = sender == o || (sender.size() > o.size() && sender.compare(sender.size() - o.size() - 1, std::string::npos, "/" + o) == 0); shape = S->msgs[id].shape; } }
    std::string df; if (known) { NoSched ns; df = payload_diff(d, id, shape); }
    Quiet q;
    Ent e; std::string s2, t2; e.sender = sender; e.topic = topic; e.id = known ? id : -1;
    int c = fb::decode(bytes, s2, t2, e.dump); if (c != 1) e.dump = "undecodable";
    if (!df.empty()) { viol("C13.altered", "message %ld arrives on node %d altered: %s", id, me->k, df.c_str()); viol("C14.altered", "message %ld arrives on node %d altered: %s", id, me->k, df.c_str()); }
    e.at = seq(); S->last = now_us();
    if (tracing()) trace("node %d: '%s' from '%s' id %ld dump %.60s", me->k, e.topic.c_str(), e.sender.c_str(), e.id, e.dump.c_str());
    if (links_in(e.sender) > (long)S->nodes.size() + 4 || me->rec.size() > 6000) { viol("C13.echo", "messages go round and round: node %d gets one from '%.200s'", me->k, e.sender.c_str()); viol("C14.echo", "messages go round and round: node %d gets one from '%.200s'", me->k, e.sender.c_str()); viol("C15.echo", "messages go round and round: node %d gets one from '%.200s'", me->k, e.sender.c_str()); }
    me->rec.push_back(e);
  });
  n->root.put(root);
  for (int j = 0; j < n->npart; ++j) { std::string nm; { Quiet q; nm = part_name(n->k, j); } n->part[j]->put(root->CreateChildBus(nm)); }
  Version v(0, 1, 0, 0);
  n->tl = std::make_shared<PluginTemplate>(PluginTemplateConfiguration("Link", v, [](PluginConfiguration c) { return std::shared_ptr<PluginInstance>(link_CreateInstance(c)); }));
  auto run_bus = [n, root] { n->bus = std::thread([root] { root->Start(); }); };
  bool first = S->p->get("busfirst");
  if (first) run_bus();
  if (n->sysinfo) {
    n->ts = std::make_shared<PluginTemplate>(PluginTemplateConfiguration("SysInfo", v, [](PluginConfiguration c) { return std::shared_ptr<PluginInstance>(sysinfo_CreateInstance(c)); }));
    PluginConfiguration c; c.mBus = root; c.mCustomConfiguration = messages::Datagram::DeserializeFromJson(n->sysinfo == 2 ? "{\"send-datagram\": true}" : "{}");
    std::shared_ptr<PluginInstance> i = n->ts->Instantiate(c, root); i->Initialize(); i->Start();
  }
  for (auto& l : n->links) {
    std::string js; { Quiet q; js = json(n, l); }
    PluginConfiguration c; c.mBus = root; c.mCustomConfiguration = messages::Datagram::DeserializeFromJson(js);
    std::shared_ptr<PluginInstance> i = n->tl->Instantiate(c, root);
    std::string nm = i->GetIdentifier();
    { Quiet q; if (!l.name.empty() && l.name != nm) harness_error("link got another name"); l.name = nm; }
    i->Initialize();
    i->Start();
    if (S->p->get("gap")) std::this_thread::sleep_for(std::chrono::milliseconds(S->p->get("gap")));
  }
  if (!first) run_bus();
  Quiet q; n->up = n->was_up = true;
}

void stop_node(Node* n) {
  { Quiet q; if (!n->up) return; n->up = false; if (tracing()) trace("node %d stops", n->k); }
  long order = S->p->get("downorder");
  if (order == 2) { n->tl->Unload(); if (n->ts) n->ts->Unload(); }   // links go while the bus is running
  n->rb->Stop();
  n->bus.join();
  n->rb->Detach();
  n->tl->Unload(); if (n->ts) n->ts->Unload();
  n->tl = nullptr; n->ts = nullptr;
  n->recorder = nullptr; n->rb = nullptr;
  for (auto p : n->part) { BusP b = p->take(); }
  { BusP b = n->root.take(); }
  Quiet q; if (tracing()) trace("node %d is down", n->k);
}

void publish(Node* n, long j, long topic, u64 shape, int copies = 1) {
  if (!n->part[j]->set) return;
  BusP b = n->part[j]->get(); if (!b) return;
  long id; std::string t, s;
  { Quiet q; id = (long)S->msgs.size(); Msg m; m.topic = t = topic_name(topic); m.sender = s = part_name(n->k, j); m.shape = shape; m.call = seq(); S->msgs.push_back(m); if (tracing()) trace("node %d publishes %ld on '%s'", n->k, id, t.c_str()); }
  messages::Datagram d = make_payload(id, shape);
  PubP p = b->CreatePublisher(t);
  for (int i = 0; i < copies; ++i) p->Publish(d);
  if (copies > 1) count("probe.equal_messages");
  if (is_prop("C26")) b->DeletePublisher(p);
  Quiet q; S->last = now_us();
}

std::string real_bytes(const std::string& sender, const std::string& topic, messages::Datagram d) { NoSched ns; messages::Message m(sender, topic, d); auto raw = m.SerializeToBytes(); return std::string((const char*)raw->GetContent(), raw->GetSize()); }

void rogue_send(Rogue* g, int idx, const Op& o) {
  Rng r(1); long id; std::string sender, topic;
  { Quiet q; r = Rng(mix2((u64)o.d, 99)); id = (long)S->msgs.size(); sender = "R" + std::to_string(idx); topic = topic_of(o.b); }
  int kind = (int)o.c; std::vector<std::string> fr; std::string body; bool proper = false;
  u64 shape; { Quiet q; shape = (u64)o.d; }
  if (kind <= 10) {
    { Quiet q; Msg m; m.topic = topic; m.sender = sender; m.shape = shape; m.call = seq(); S->msgs.push_back(m); }
    messages::Datagram d = make_payload(id, shape); body = real_bytes(sender, topic, d);
  }
  Quiet q;
  fr.push_back("A");
  auto word = [&](std::string& s) { static const u32 v[] = {0, 1, 4, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffffcu, 0xffff, 0x10000}; u32 x = r.below(4) == 0 ? (u32)s.size() - (u32)r.below(9) : r.below(3) == 0 ? (u32)r.next() : v[r.below(9)]; size_t n = 1 + r.below(4); if (s.size() < 4) return; size_t at = r.below(s.size() - 3); if (r.below(2)) at &= ~3ull; memcpy(&s[at], &x, n < 4 ? n : 4); };
  switch (kind) {
    case 0: case 1: proper = true; fr.push_back(body); break;
    case 2: fr.push_back(body.substr(0, r.below(3) ? r.below(body.size()) : body.size() - 1 - r.below(std::min<size_t>(body.size(), 12)))); count("fault.rogue_truncated"); break;
    case 3: for (int i = r.range(1, 5); i > 0; --i) body[r.below(r.below(2) ? std::min<size_t>(body.size(), 64) : body.size())] ^= (char)(1 << r.below(8)); fr.push_back(body); count("fault.rogue_bit_flips"); break;
    case 4: for (int i = r.range(1, 4); i > 0; --i) word(body); fr.push_back(body); count("fault.rogue_overwritten"); break;
    case 5: { size_t a = r.below(body.size()), n = r.below(24); if (r.below(2)) body.erase(a, n); else body.insert(a, std::string(n, (char)r.next())); fr.push_back(body); count("fault.rogue_shifted"); } break;
    case 6: { std::string t = body; fr.clear(); fr.push_back("A"); for (int i = r.range(1, 4); i > 0; --i) { size_t a = r.below(t.size() + 1); fr.push_back(t.substr(0, a)); t = t.substr(a); } fr.push_back(t); if (r.below(3) == 0) fr.pop_back(); count("fault.rogue_split"); } break;
    case 7: fr[0] = r.below(2) ? "AB" : std::string("A\0x", 3); fr.push_back(body); count("fault.rogue_topic_frame"); break;
    case 8: fr.push_back(body); fr.push_back(r.below(2) ? "" : std::string(r.below(40), (char)r.next())); count("fault.rogue_extra_frame"); break;
    case 9: if (r.below(2)) fr.push_back("A"); else fr.push_back(std::string(1 + r.below(9), (char)r.next())); fr.push_back(body); count("fault.rogue_shifted"); break;
    case 10: fr.push_back(body + body.substr(0, r.below(body.size()))); count("fault.rogue_extra_bytes"); break;
    case 11: { std::string x(r.below(3) ? r.below(80) : r.below(1200), 0); for (auto& c : x) c = r.below(3) ? (char)r.below(9) : (char)r.next(); fr.push_back(x); count("fault.rogue_random"); } break;
    case 12: if (r.below(2)) fr.push_back(""); if (r.below(4) == 0) fr[0] = ""; count("fault.rogue_empty"); break;
    case 13: { static const int dep[] = {3, 30, 60, 64, 65, 200, 600, 1000, 1022, 1023, 1024, 1030, 2040, 2047, 2050, 3000}; static bool deep = false; (void)deep; fb::N n = fb::chain(dep[r.below(16)], (int)r.below(3), r); fr.push_back(fb::encode(sender, topic, n, 0, r)); count("fault.rogue_deep"); } break;
    case 14: { static const int od[] = {fb::NO_SENDER, fb::NO_TOPIC, fb::NO_DATAGRAM, fb::BAD_TYPE, fb::BAD_VALUE_TYPE, fb::MISMATCH, fb::NO_STRING, fb::NO_LIST, fb::DUP_KEY, fb::HUGE_VECTOR, fb::NO_NUL, fb::DANGLING_CHILD, fb::SELF_REF, fb::ALL_FIELDS}; int odd = od[r.below(14)]; if (r.below(4) == 0) odd |= od[r.below(14)]; fb::N n; for (int i = 0; i < 6; ++i) { n = fb::tree(3, r); if (n.t > 3) break; } fr.push_back(fb::encode(sender, topic, n, odd, r)); count("fault.rogue_odd"); } break;
    case 15: { fb::N n = fb::tree(4, r); fr.push_back(fb::encode(r.below(4) ? sender : std::string(), topic, n, r.below(2) ? fb::ALL_FIELDS : 0, r)); count("fault.rogue_foreign_encoder"); } break;
    case 16: { // action traffic of any shape, properly encoded
      fb::N n; n.t = 6; fb::N k; k.t = r.range(0, 6); k.s = "x"; k.i = 5; if (r.below(2)) n.kids.push_back({"invocationId", k}); if (r.below(2)) n.kids.push_back({r.below(2) ? "request" : "response", fb::tree(2, r)}); fr.push_back(fb::encode(sender, topic, n, 0, r)); count("fault.rogue_action"); } break;
  }
  std::string cat; for (size_t i = 1; i < fr.size(); ++i) cat += fr[i];
  Sent s; s.cls = fr[0].compare(0, 1, "A") ? 0 : fb::decode(cat, s.sender, s.topic, s.dump); s.must = proper; s.at = seq();
  if (proper && s.cls != 1) { // what a node of this very build would send cannot be read with the published format
    s.cls = 1; s.sender = sender; s.topic = topic; s.dump = "?"; s.must = false; s.cls = 2; }
  g->sent.push_back(s); S->last = now_us();
  if (tracing()) { std::string hex; for (size_t i = 1; i < fr.size(); ++i) { hex += "|"; for (size_t k = 0; k < fr[i].size() && k < 600; ++k) { char t[4]; snprintf(t, 4, "%02x", (unsigned char)fr[i][k]); hex += t; } } trace("rogue %d sends kind %d class %d frames %d: %s", idx, kind, s.cls, (int)fr.size(), hex.c_str()); }
  net::rogue_send(g->peer, fr);
}

void gen(Plan& p, Rng& r) {
  const std::string& P = p.prop;
  int nn = P == "C14" ? (r.below(3) ? 1 : 2) : r.below(3) ? 2 : r.range(3, 4);
  if (P == "C15" && r.below(5) == 0) nn = 1;
  if (P == "C13" && r.below(16) == 0) nn = r.range(5, 7);
  p.p["nn"] = nn;
  for (int i = 1; i < nn; ++i) p.p["par" + std::to_string(i)] = r.below(3) ? (long)r.below(i) : i - 1;
  for (int i = 0; i < nn; ++i) { p.p["style" + std::to_string(i)] = (long)r.below(3); p.p["np" + std::to_string(i)] = r.range(1, 2); }
  p.p["sysinfo"] = P == "C26" ? (long)r.below(2) : P == "C14" ? (long)r.below(3) : r.below(5) == 0 ? (long)r.below(3) : 0;
  p.p["defports"] = r.below(2); p.p["names"] = (long)r.below(8); p.p["iface"] = r.below(4) == 0; p.p["host"] = r.below(2); p.p["explicit"] = r.below(2);
  p.p["busfirst"] = r.below(3) == 0; p.p["gap"] = r.below(4) == 0 ? r.range(1, 30) : 0; p.p["order"] = (long)r.below(24); p.p["downorder"] = (long)r.below(3);
  int nr = P == "C14" ? r.range(1, 2) : r.below(P == "C15" ? 4 : 100) == 0 ? 1 : 0;
  if (P == "C13") nr = 0; else if (P == "C26") { nr = r.range(0, 1); p.p["rounds"] = r.range(3, 5); }
  if (P == "C26") for (auto x : {"f_send", "f_recv", "f_msg"}) if (r.below(4) == 0) p.p[x] = r.below(2) ? 300 : 2000;
  p.p["nr"] = nr; for (int i = 0; i < nr; ++i) { p.p["rn" + std::to_string(i)] = (long)r.below(nn); p.p["rb" + std::to_string(i)] = (long)r.below(2); }
  if (nr == 2 && p.p["rn0"] == p.p["rn1"] && !p.p["rb0"]) p.p["rb1"] = 1;   // one stranger per link
  bool lossy = P == "C26" ? false : P == "C13" ? r.below(2) : P == "C14" ? r.below(6) == 0 : r.below(2);
  p.p["lossy"] = lossy;
  p.p["drop"] = lossy && r.below(2) ? (long)(r.below(2) ? 300 : 3000) : 0;
  p.p["reset"] = lossy && r.below(2) ? (long)(r.below(2) ? 100 : 1500) : 0;
  p.p["delay"] = r.below(2) ? (long)(r.below(2) ? 1000 : 6000) : 0; p.p["maxdelay"] = (long)(r.below(2) ? 3000 : 60000);
  p.p["hwm"] = lossy && r.below(4) == 0 ? r.range(1, 5) : 1000;
  if (P == "C15") {
    static const char* f[] = {"f_create", "f_bind", "f_connect", "f_send", "f_msg", "f_ctx", "f_recv", "f_term"};
    if (r.below(3)) for (auto x : f) if (r.below(2)) p.p[x] = r.below(3) == 0 ? 10000 : r.below(2) ? 300 : 3000;
    if (p.get("f_msg") > 5000) p.p["f_msg"] = 3000; if (p.get("f_term")) p.p["f_term"] = 5000;
    if (r.below(4)) { static const long st[] = {0, 1, 5, 40, 110, 300, 700}; p.p["early"] = 1 + st[r.below(7)]; }
  }
  static const long burst[] = {3, 8, 20, 60};
  for (int ph = 0; ph < 2; ++ph) for (int n = 0; n < nn; ++n) for (int a = 0; a < r.range(1, 2); ++a) {
    int no = r.range(1, P == "C13" ? 10 : 5);
    for (int i = 0; i < no; ++i) {
      Op o; o.actor = ph * 100 + n * 10 + a; o.a = (long)r.below(2); o.b = r.below(10) ? (long)r.below(4) : (long)r.below(NTOPICS); o.d = (long)r.below(1 << 24);
      int x = (int)r.below(20); o.kind = x < 13 ? PUB : x < 18 ? NAP : BURST;
      if (o.kind == NAP) { static const long nap[] = {0, 100, 1000, 5000, 30000, 90000, 200000}; o.a = nap[r.below(7)]; }
      if (o.kind == PUB && r.below(7) == 0) o.c = r.range(2, 5);
      if (o.kind == BURST) { o.c = burst[r.below(r.below(4) ? 2 : 4)]; }
      p.ops.push_back(o);
    }
  }
  for (int ph = 0; ph < 2; ++ph) for (int k = 0; k < nr; ++k) {
    int no = r.range(3, 24);
    for (int i = 0; i < no; ++i) {
      Op o; o.actor = ph * 100 + 90 + k; o.kind = RPUB; o.a = k; o.b = r.below(5) == 0 ? 100 + (long)r.below(4) : (long)r.below(NTOPICS); o.c = (long)r.below(17); o.d = (long)r.below(1 << 24);
      if (o.c == 16) o.b = 100 + (long)r.below(4);
      if (r.below(6) == 0) { Op z; z.actor = o.actor; z.kind = NAP; z.a = (long)(r.below(2) ? 1500 : 40000); p.ops.push_back(z); }
      p.ops.push_back(o);
    }
  }
  // a peer that listens, and at some time does not read any more
  p.p["rsub"] = P != "C14" && r.below(4) == 0 ? 1 + (long)r.below(nn) : 0;
  if (P != "C14" && r.below(3) == 0) for (int i = r.range(1, 3); i > 0; --i) {
    Op z; z.actor = 99; z.kind = NAP; z.a = (long)r.below(150000); p.ops.push_back(z);
    Op o; o.actor = 99; o.kind = STALL; o.a = (long)r.below(16); o.b = r.below(3) ? 1000 * (long)(1 + r.below(400)) : 0; p.ops.push_back(o);
  }
  // what happens to the network and the nodes meanwhile
  if (lossy) for (int i = r.range(0, 4); i > 0; --i) {
    Op z; z.actor = 99; z.kind = NAP; z.a = (long)r.below(200000); p.ops.push_back(z);
    Op o; o.actor = 99; int x = (int)r.below(3); o.kind = x == 0 ? PART : x == 1 ? BREAK : RESTART; o.a = (long)r.below(nn); o.b = 1000 * (long)r.below(200); p.ops.push_back(o);
  }
}

u64 drain() {
  for (int i = 0; i < 4000; ++i) {
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    if (i == 100) faults_off();
    Quiet q;
    if (!net::quiet_network()) continue;
    if (now_us() > std::max(S->last, stall_end()) + 260000) return seq();
  }
  harness_error("the network never becomes quiet"); return 0;
}

void phase(const Plan& p, int ph) {
  std::vector<std::thread> th; { Quiet q; th.reserve(32); }
  std::set<int> actors; { Quiet q; for (auto& o : p.ops) if (o.actor / 100 == ph && o.actor % 100 < 99) actors.insert(o.actor); }
  for (int a : actors) th.emplace_back([&p, a] {
    for (auto& o : p.ops) if (o.actor == a) {
      { Quiet q; if (S->ending) break; }
      int n = a % 100 / 10;
      switch (o.kind) {
        case NAP: if (o.a) std::this_thread::sleep_for(std::chrono::microseconds(o.a)); else std::this_thread::yield(); break;
        case PUB: publish(S->nodes[n], o.a % S->nodes[n]->npart, o.b, (u64)o.d, o.c > 1 && o.c < 9 ? (int)o.c : 1); break;
        case BURST: for (long i = 0; i < o.c; ++i) publish(S->nodes[n], o.a % S->nodes[n]->npart, o.b, (u64)(i & 1)); break;
        case RPUB: rogue_send(S->rogues[o.a], (int)o.a, o); break;
      }
    }
  });
  for (auto& t : th) t.join();
}

// items in order, some of which have to be there; arrivals in order
template <class M> long fit(size_t n, size_t m, M match, const std::vector<char>& must, size_t* far) {
  std::vector<char> can(m + 1, 0); can[0] = 1; *far = 0;
  for (size_t i = 0; i < n; ++i) {
    std::vector<char> nx(m + 1, 0); bool any = false;
    for (size_t j = 0; j <= m; ++j) if (can[j]) {
      if (!must[i]) { nx[j] = 1; any = true; }
      if (j < m && match(i, j)) { nx[j + 1] = 1; any = true; if (j + 1 > *far) *far = j + 1; }
    }
    if (!any) return (long)i;
    can = nx;
  }
  return can[m] ? -1 : (long)n;
}

bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

void check() {
  Quiet q;
  const char* R = is_prop("C14") ? "C14" : "C13"; char rule[32];
  auto V = [&](const char* what, const char* fmt, auto... a) { snprintf(rule, sizeof rule, "%s.%s", R, what); viol(rule, fmt, a...); };
  std::map<std::string, int> owner;
  for (auto n : S->nodes) { for (int j = 0; j < n->npart; ++j) owner[part_name(n->k, j)] = n->k; if (n->sysinfo) owner["SysInfo0"] = n->k; }
  // neighbour of v through which u is reached
  auto toward = [&](int v, int u) -> int {
    for (int x = u, prev = u; x >= 0;) { if (x == v) return prev; prev = x; x = x ? (int)S->p->get(("par" + std::to_string(x)).c_str()) : -1; }
    return v ? (int)S->p->get(("par" + std::to_string(v)).c_str()) : -1;
  };
  for (auto v : S->nodes) {
    if (!v->was_up) continue;
    // sort out what arrived over which link and from whom
    std::map<std::pair<int, int>, std::vector<const Ent*>> got;     // (link, source): source node or 1000 + rogue
    for (auto& e : v->rec) {
      int li = -1; for (size_t i = 0; i < v->links.size(); ++i) if (starts(e.sender, v->links[i].name + "/")) li = (int)i;
      std::string last = e.sender.substr(e.sender.rfind('/') == std::string::npos ? 0 : e.sender.rfind('/') + 1);
      auto o = owner.find(e.sender.find('/') == std::string::npos ? e.sender : last);
      if (li < 0) { if (o == owner.end() || o->second != v->k || e.sender.find('/') != std::string::npos) V("invented", "node %d sees a message from '%s', which nobody sent", v->k, e.sender.c_str()); continue; }
      int rg = -1; for (size_t k = 0; k < S->rogues.size(); ++k) if (S->rogues[k]->node == v->k && S->rogues[k]->link == li) rg = (int)k;
      if (o != owner.end() && o->second == v->k && rg < 0) { V("echo", "a message of node %d came back to it over %s ('%s')", v->k, v->links[li].name.c_str(), e.sender.c_str()); continue; }
      if (o != owner.end() && o->second != v->k) { got[{li, toward(v->k, o->second)}].push_back(&e); continue; }
      // of a rogue, somewhere: over which link?
      std::string in = e.sender.substr(v->links[li].name.size() + 1);
      if (rg >= 0 && !starts(in, "Link")) { got[{li, 1000 + rg}].push_back(&e); continue; }
      int src = -1; for (auto u : S->nodes) if (u != v) for (auto& l : v->links) if (&l == &v->links[li]) { bool adj = (v->k && (int)S->p->get(("par" + std::to_string(v->k)).c_str()) == u->k) || (u->k && (int)S->p->get(("par" + std::to_string(u->k)).c_str()) == v->k); if (adj) { for (auto rgp : S->rogues) if (toward(v->k, rgp->node) == u->k || rgp->node == u->k) src = u->k; } }
      if (src < 0) { V("invented", "node %d gets a message from '%s' over %s, which nobody sent", v->k, e.sender.c_str(), v->links[li].name.c_str()); continue; }
      got[{li, src}].push_back(&e);
    }
    // rogues: only what can be read as a message, in order; proper ones always
    for (size_t k = 0; k < S->rogues.size(); ++k) if (S->rogues[k]->node == v->k) {
      Rogue* g = S->rogues[k]; auto& A = got[{g->link, 1000 + (int)k}]; const std::string pre = v->links[g->link].name + "/";
      std::vector<char> must; for (auto& s : g->sent) must.push_back(s.must && s.at > S->must_from && s.at < S->must_to);
      size_t far = 0;
      long bad = fit(g->sent.size(), A.size(), [&](size_t i, size_t j) { const Sent& s = g->sent[i]; const Ent& e = *A[j]; return s.cls && e.sender == pre + s.sender && e.topic == s.topic && (s.cls == 2 || s.dump == e.dump); }, must, &far);
      if (bad >= 0) {
        if (far < A.size()) V("malformed", "node %d put a message on its bus that is none of the well-formed ones it received, or not in this order (sender '%s', topic '%s', content %.80s; %d of %d explained)", v->k, A[far]->sender.c_str(), A[far]->topic.c_str(), A[far]->dump.c_str(), (int)far, (int)A.size());
        else V("lost", "a proper message (number %ld from peer %d) was not delivered on node %d", bad, (int)k, v->k);
      }
      count("rogue_accepted", A.size()); count("rogue_sent", g->sent.size());
    }
    // neighbours
    for (auto u : S->nodes) {
      if (u == v || !u->was_up) continue;
      int lu = -1, lv = -1;
      for (size_t i = 0; i < u->links.size(); ++i) if (u->links[i].client && u->links[i].peer == v->k) { lu = (int)i; for (size_t j = 0; j < v->links.size(); ++j) if (v->links[j].server) lv = (int)j; }
      for (size_t i = 0; i < v->links.size(); ++i) if (v->links[i].client && v->links[i].peer == u->k) { lv = (int)i; for (size_t j = 0; j < u->links.size(); ++j) if (u->links[j].server) lu = (int)j; }
      if (lu < 0 || lv < 0) continue;
      std::vector<const Ent*> want; for (auto& e : u->rec) if (!starts(e.sender, u->links[lu].name + "/")) want.push_back(&e);
      auto& A = got[{lv, u->k}]; const std::string pre = v->links[lv].name + "/";
      std::vector<char> must; for (auto e : want) must.push_back(e->id >= 0 && S->msgs[e->id].call > S->must_from && e->at < S->must_to);
      size_t far = 0;
      long bad = fit(want.size(), A.size(), [&](size_t i, size_t j) { return A[j]->sender == pre + want[i]->sender && A[j]->topic == want[i]->topic && A[j]->dump == want[i]->dump; }, must, &far);
      if (bad >= 0) {
        if (far < A.size()) {
          const Ent& e = *A[far]; bool dup = false, ex = false; for (size_t j = 0; j < far; ++j) if (A[j]->id == e.id && e.id >= 0) dup = true; for (auto w : want) if (w->id == e.id && e.id >= 0) ex = true;
          const char* what = dup ? "duplicate" : ex ? "order-or-content" : "unexpected";
          V(what, "node %d got message %ld from '%s' on '%s' over the link to node %d: %s", v->k, e.id, e.sender.c_str(), e.topic.c_str(), u->k, dup ? "a second time" : ex ? "out of order, or with another sender, topic or content" : "which that node did not send this way");
        } else V("lost", "message %ld of '%s' on '%s' never reached node %d over the link from node %d", bad < (long)want.size() ? want[bad]->id : -1, bad < (long)want.size() ? want[bad]->sender.c_str() : "", bad < (long)want.size() ? want[bad]->topic.c_str() : "", v->k, u->k);
      }
      count("link_deliveries", A.size());
      u64 h = 0; for (auto e : A) h = h * 31 + (u64)e->id; state(h);
    }
  }
  state(S->nodes.size() * 100 + S->rogues.size());
  count("link_losses", net::losses());
}

void exec(const Plan& p) {
  new_world();
  int nn = (int)p.get("nn", 2);
  {
    Quiet q;
    S = new St; S->p = &p; set_prop(p.prop); out::install(); net::enable();
    S->nodes.reserve(8); S->rogues.reserve(4); S->msgs.reserve(4096);
    for (int i = 0; i < nn; ++i) {
      Node* n = new Node; n->k = i; n->npart = (int)p.get(("np" + std::to_string(i)).c_str(), 1); for (int j = 0; j < n->npart; ++j) n->part.push_back(new Cell<BusP>);
      n->rec.reserve(4096); S->nodes.push_back(n);
    }
    for (int i = 0; i < nn; ++i) {
      Node* n = S->nodes[i]; bool srv = false; for (int j = 1; j < nn; ++j) if (p.get(("par" + std::to_string(j)).c_str()) == i) srv = true;
      for (int k = 0; k < p.get("nr"); ++k) if (p.get(("rn" + std::to_string(k)).c_str()) == i && !p.get(("rb" + std::to_string(k)).c_str())) srv = true;
      int par = i ? (int)p.get(("par" + std::to_string(i)).c_str()) : -1;
      long st = p.get(("style" + std::to_string(i)).c_str());
      if (srv && par >= 0 && st == 0) { LinkRec l; l.server = l.client = true; l.peer = par; n->links.push_back(l); }
      else {
        if (par >= 0 && st == 2) { LinkRec l; l.client = true; l.peer = par; n->links.push_back(l); }
        if (srv || nn == 1) { LinkRec l; l.server = true; n->links.push_back(l); }
        if (par >= 0 && st != 2) { LinkRec l; l.client = true; l.peer = par; n->links.push_back(l); }
      }
      if (i == (int)(p.seed % nn)) n->sysinfo = (int)p.get("sysinfo");
    }
    for (int k = 0; k < p.get("nr"); ++k) {
      Rogue* g = new Rogue; g->node = (int)p.get(("rn" + std::to_string(k)).c_str()); g->bind = p.get(("rb" + std::to_string(k)).c_str()); Node* n = S->nodes[g->node];
      if (g->bind) { LinkRec l; l.client = true; l.rogue = k; l.peer = -1; n->links.push_back(l); g->link = (int)n->links.size() - 1; }
      else for (size_t i = 0; i < n->links.size(); ++i) if (n->links[i].server) g->link = (int)i;
      S->rogues.push_back(g);
    }
  }
  std::vector<int> order; { Quiet q; for (int i = 0; i < nn; ++i) order.push_back(i); long o = p.get("order"); for (int i = nn - 1; i > 0; --i) { std::swap(order[i], order[o % (i + 1)]); o /= i + 1; } }
  auto setf = [&](bool on) {
    Quiet q; net::Faults& f = net::faults;
    f.drop = on ? (u32)p.get("drop") : 0; f.reset = on ? (u32)p.get("reset") : 0; f.hwm = on ? p.get("hwm", 1000) : 1000; f.delay = (u32)p.get("delay"); f.max_delay = p.get("maxdelay", 20000);
    f.create = on ? (u32)p.get("f_create") : 0; f.bind = on ? (u32)p.get("f_bind") : 0; f.connect = on ? (u32)p.get("f_connect") : 0; f.send = on ? (u32)p.get("f_send") : 0; f.msg = on ? (u32)p.get("f_msg") : 0; f.ctx = on ? (u32)p.get("f_ctx") : 0; f.recv = on ? (u32)p.get("f_recv") : 0; f.term = on ? (u32)p.get("f_term") : 0;
    if (is_prop("C26")) { f.send = (u32)p.get("f_send"); f.recv = (u32)p.get("f_recv"); f.msg = (u32)p.get("f_msg"); }
  };
  bool strict; { Quiet q; strict = !is_prop("C15"); }
  setf(!strict || p.get("lossy"));
  bool par = p.get("order") % 3 == 1;
  { std::vector<std::thread> th; for (int i : order) if (par) { Node* n = S->nodes[i]; th.emplace_back([n] { start_node(n); }); } else start_node(S->nodes[i]); for (auto& t : th) t.join(); }
  {
    Quiet q;
    for (size_t k = 0; k < S->rogues.size(); ++k) {
      Rogue* g = S->rogues[k]; int host = g->bind ? 900 + (int)k : g->node; bool def = host == 0 && p.get("defports");
      int port = (def ? 6967 : 7000 + 2 * host) + (g->bind ? 0 : 1);
      g->peer = net::rogue_pub("tcp://127.0.0.1:" + std::to_string(port), g->bind);
    }
  }
  { Quiet q; if (long k = p.get("rsub")) { bool def = k == 1 && p.get("defports"); net::rogue_sub("tcp://127.0.0.1:" + std::to_string(def ? 6967 : 7000 + 2 * (k - 1))); } }
  auto connect = [&] { for (int i = 0; i < 400; ++i) { if (net::all_subscribed()) break; std::this_thread::sleep_for(std::chrono::milliseconds(10)); } };
  long early = p.get("early");
  if (strict && !p.get("lossy")) { connect(); Quiet q; S->must_from = seq(); }
  std::thread chaos([&p] {
    for (auto& o : p.ops) if (o.actor == 99) {
      { Quiet q; if (S->ending) break; }
      switch (o.kind) {
        case NAP: std::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
        case PART: net::partition(true); std::this_thread::sleep_for(std::chrono::microseconds(o.b)); net::partition(false); break;
        case BREAK: net::break_connections(); break;
        case STALL: if (o.b) net::stall_peer((u64)o.a, (u64)o.b); else net::stall_rogues(); break;
        case RESTART: { if (S->p->get("early")) break; Node* n = S->nodes[o.a]; count("fault.node_restart"); stop_node(n); if (o.b) std::this_thread::sleep_for(std::chrono::microseconds(o.b)); start_node(n); } break;
      }
    }
  });
  if (early) {
    std::thread traffic([&p] { phase(p, 0); });
    std::this_thread::sleep_for(std::chrono::milliseconds(early - 1));
    for (int i : order) stop_node(S->nodes[i]);
    { Quiet q; S->ending = true; count("probe.early_shutdown"); }
    traffic.join(); chaos.join();
  } else {
    phase(p, 0);
    chaos.join();
    net::partition(false);
    if (strict) {
      setf(false);
      connect();
      { Quiet q; if (!net::all_subscribed()) harness_error("the simulated network did not come up again"); if (S->must_from == ~0ull) S->must_from = seq(); }
      phase(p, 1);
      u64 at = drain();
      if (is_prop("C26")) {
        // the same traffic again and again
        Mem first, now; int rounds = (int)p.get("rounds", 4);
        for (int r = 0; r < rounds; ++r) { phase(p, 1); at = drain(); std::this_thread::sleep_for(std::chrono::milliseconds(200)); Quiet q; (r ? now : first).take(0); count("probe.heap_counted"); if (tracing()) trace("round %d: %ld blocks", r, r ? now.blocks : first.blocks); }
        Quiet q; if (net::held()) viol("C26.message", "%ld ZMQ messages that were sent or received still hold memory: they were not closed", net::held());
        if (now.blocks > first.blocks + 2) viol("C26.grows", "after %d rounds of the same traffic between linked nodes %ld blocks of memory are held, %ld after the first: %s", rounds, now.blocks, first.blocks, now.more_than(first).c_str());
      }
      { Quiet q; S->must_to = at; }
    }
    if (p.get("downorder") == 1) { std::vector<std::thread> th; for (int i : order) { Node* n = S->nodes[i]; th.emplace_back([n] { stop_node(n); }); } for (auto& t : th) t.join(); }
    else for (int i : order) stop_node(S->nodes[i]);
  }
  if (strict) check();
  { Quiet q; if (net::held()) viol("C26.message", "after the end %ld ZMQ messages still hold memory: they were not closed", net::held()); }
  net::final_check();
  Quiet q; if (open_threads() > 1) viol("C15.thread-left", "%d threads are still running after shutdown", open_threads() - 1);
  state(net::losses() > 20 ? 20 : net::losses());
}
const Scenario SC = {"link", gen, exec};
RegScenario reg(&SC);
}
