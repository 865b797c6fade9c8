// Simulated ZeroMQ: contexts, PUB/SUB sockets and the network between them.
#include "stubs.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <deque>
#include <zmq.h>
using namespace sim;
#ifndef ETERM
#define ETERM 156384765
#endif

namespace net {
Faults faults;
struct Ctx; 
typedef std::vector<std::string> Frames;
struct Sock {
  u32 id = 0; Ctx* ctx = nullptr; int type = 0; bool closed = false; bool rogue = false;
  std::vector<std::string> filters; std::vector<std::string> binds, connects;
  std::deque<Frames> in; size_t frame = 0;      // receive side: next frame of the first message
  Frames out;                                   // parts collected so far
  int more = 0; int in_use = -1; const char* in_op = ""; bool overflow = false;
  int linger = -1; u64 closed_at = 0; long sndhwm = 1000, rcvhwm = 1000;           // what is still to be sent when the socket gets closed
  void* shadow = nullptr;                       // instrumented cell standing for the socket's memory
};
struct Ctx { bool terminated = false, shutdown = false; int terms = 0; std::vector<Sock*> socks; };
// a directed path publisher -> subscriber
struct Link { Sock* pub; Sock* sub; bool up = false; u64 gen = 0; u64 last = 0; std::string ep; bool stalled = false; std::deque<Frames> pend; long flying = 0; };
static std::vector<Ctx*> ctxs; static std::vector<Sock*> socks; static std::vector<Link*> links;
static bool g_partition = false; static int g_inflight = 0; static u64 g_losses = 0; static int g_err = 0;
static std::map<u64, Frames>* g_flight; static u64 g_flight_id = 0;
struct Err { int e[96]; }; static Err errs;

static void pt() { if (g_quiet > 1 || g_nosched) return; Loud l; point(); }
static void set_err(int e) { errs.e[tid() < 0 ? 0 : tid()] = e; errno = e; }
void enable() { Quiet q; g_flight = new std::map<u64, Frames>; }

static bool host_match(const std::string& bind, const std::string& conn) {
  auto port = [](const std::string& s) { return s.substr(s.rfind(':') + 1); };
  if (bind == conn) return true;
  return bind.compare(0, 8, "tcp://*:") == 0 && port(bind) == port(conn);
}
static void link_up(void* l, u64 gen);
static void make_link(Sock* pub, Sock* sub, const std::string& ep) {
  for (auto l : links) if (l->pub == pub && l->sub == sub && l->ep == ep) return;
  Link* l = new Link; l->pub = pub; l->sub = sub; l->ep = ep; links.push_back(l);
  at(500 + choose(K_NET, faults.delay, faults.max_delay > 2 ? faults.max_delay : 2), link_up, l, l->gen);
}
static void match_all() {
  for (auto a : socks) if (!a->closed) for (auto b : socks) if (!b->closed && a != b)
    for (auto& bd : a->binds) for (auto& cn : b->connects) if (host_match(bd, cn)) {
      if (a->type == ZMQ_PUB && b->type == ZMQ_SUB) make_link(a, b, cn);
      if (a->type == ZMQ_SUB && b->type == ZMQ_PUB) make_link(b, a, cn);
    }
}
static void link_up(void* x, u64 gen) {
  Link* l = (Link*)x;
  if (gen != l->gen || l->pub->closed || l->sub->closed) return;
  if (g_partition) { at(5000, link_up, l, gen); return; }
  l->up = true; count("net.link_up");
  if (tracing()) trace("link pub%u -> sub%u up", l->pub->id, l->sub->id);
}
static void link_down(Link* l, u64 back) {
  if (l->stalled || !l->pend.empty()) { g_losses += l->pend.size(); l->pend.clear(); l->stalled = false; if (l->pub->ctx) wake_all(l->pub->ctx); }
  if (l->up) { l->up = false; count("fault.net_disconnect"); if (tracing()) trace("link pub%u -> sub%u down", l->pub->id, l->sub->id); }
  l->gen++;
  if (back) at(back, link_up, l, l->gen);
}
struct Flight { Link* l; u64 gen; u64 id; };
static void deliver(void* x, u64) {
  Flight* f = (Flight*)x; --g_inflight;
  auto it = g_flight->find(f->id); Frames fr = it->second; g_flight->erase(it);
  Link* l = f->l; l->flying--;
  if (l->gen != f->gen || !l->up || l->sub->closed) { ++g_losses; count("net.lost_in_flight"); delete f; return; }
  if ((long)l->sub->in.size() >= std::min(faults.hwm, l->sub->rcvhwm)) { ++g_losses; count("net.lost_at_limit"); delete f; return; }
  bool match = false; for (auto& p : l->sub->filters) if (fr.empty() ? p.empty() : fr[0].compare(0, p.size(), p) == 0) match = true;
  if (match) l->sub->in.push_back(fr); else count("net.filtered");
  delete f;
}
static void send_on(Link* l, const Frames& fr) {
  if (l->flying >= l->pub->sndhwm) { ++g_losses; count("net.lost_at_limit"); return; }
  l->flying++;
  u64 d = 50 + (faults.delay ? choose(K_NET, faults.delay, (u64)(faults.max_delay > 2 ? faults.max_delay : 2)) : 0);
  if (d > 50) count("fault.net_delay");
  u64 t = now_us() + d; if (t < l->last) t = l->last;  // one connection keeps its order
  l->last = t;
  u64 id = ++g_flight_id; (*g_flight)[id] = fr; ++g_inflight;
  at(t - now_us(), deliver, new Flight{l, l->gen, id}, 0);
  count("net.sent");
}
// a subscriber that does not read: everything for it waits in the publisher, also when that gets closed
static void resume(void* x, u64 gen) {
  Link* l = (Link*)x; if (gen != l->gen || !l->stalled) return;
  l->stalled = false; if (tracing()) trace("link pub%u -> sub%u reads again", l->pub->id, l->sub->id);
  while (!l->pend.empty()) { send_on(l, l->pend.front()); l->pend.pop_front(); }
  if (l->pub->ctx) wake_all(l->pub->ctx);
}
static void stall_link(Link* l, u64 us) {
  if (l->stalled) return;
  l->stalled = true; count("fault.net_stalled_peer"); if (tracing()) trace("link pub%u -> sub%u: the subscriber stops reading", l->pub->id, l->sub->id);
  if (us) at(us, resume, l, l->gen);
}
static void transmit(Sock* s, const Frames& fr) {
  for (auto l : links) if (l->pub == s) {
    if (!l->up) { ++g_losses; count("net.lost_not_connected"); continue; }
    if (choose(K_NET, faults.drop, 2)) { ++g_losses; count("fault.net_drop"); continue; }
    if (choose(K_NET, faults.reset, 2)) { link_down(l, 1000 + 1000 * choose(K_NET, 5000, 50)); ++g_losses; continue; }
    if (l->stalled) { if ((long)l->pend.size() >= l->pub->sndhwm) { ++g_losses; count("net.lost_at_limit"); } else l->pend.push_back(fr); continue; }
    send_on(l, fr);
  }
}
void partition(bool on) { Quiet q; g_partition = on; if (on) { count("fault.net_partition"); for (auto l : links) link_down(l, 5000); } }
void break_connections() { Quiet q; for (auto l : links) if (l->up) link_down(l, 1000 + 1000 * choose(K_NET, 5000, 100)); }
bool quiet_network() { Quiet q; if (g_inflight) return false; for (auto l : links) if (l->stalled && !l->sub->rogue && !l->pub->closed) return false; for (auto s : socks) if (!s->closed && !s->rogue && s->type == ZMQ_SUB && !s->in.empty()) return false; return true; }
void stall_peer(u64 which, u64 us) { Quiet q; std::vector<Link*> v; for (auto l : links) if (l->up && !l->stalled && !l->pub->rogue) v.push_back(l); if (!v.empty()) stall_link(v[which % v.size()], us); }
int rogue_sub(const std::string& ep) { Quiet q; Sock* s = new Sock; s->id = (u32)socks.size() + 1; s->type = ZMQ_SUB; s->rogue = true; s->filters.push_back(""); s->connects.push_back(ep); socks.push_back(s); match_all(); return (int)s->id - 1; }
void stall_rogues() { Quiet q; for (auto l : links) if (l->up && l->sub->rogue) stall_link(l, 0); }
int live_contexts() { Quiet q; int n = 0; for (auto c : ctxs) if (!c->terminated) ++n; return n; }
u64 losses() { return g_losses; }
bool all_subscribed() { Quiet q; for (auto l : links) if (!l->pub->closed && !l->sub->closed && !l->up) return false; return true; }
int connections() { Quiet q; int n = 0; for (auto l : links) if (l->up) ++n; return n; }
int rogue_pub(const std::string& ep, bool bind) {
  Quiet q; Sock* s = new Sock; s->id = (u32)socks.size() + 1; s->type = ZMQ_PUB; s->rogue = true; (bind ? s->binds : s->connects).push_back(ep); socks.push_back(s); match_all(); return (int)s->id - 1;
}
void rogue_send(int peer, const Frames& f) { Quiet q; transmit(socks[peer], f); count("net.rogue_message"); }
void final_check() {
  Quiet q;
  for (auto s : socks) if (!s->rogue && !s->closed) viol("C15.leak", "socket %u was never closed", s->id);
  for (auto c : ctxs) if (c->terms != 1) viol("C15.leak", "a context was terminated %d times", c->terms);
}
static const u32 MAGIC = 0x534f434b;
static Sock* sk(void* h, const char* op) {
  for (auto s : socks) if (s == h) {
    if (s->closed) { viol("C15.closed", "%s on socket %u after it was closed", op, s->id); fail("use-after-free", "%s on closed socket %u", op, s->id); }
    return s;
  }
  return nullptr;
}
// the window during which a call uses the socket
struct InUse {
  Sock* s; int prev;
  InUse(Sock* s_, const char* op) : s(s_) {
    if (s->in_use >= 0 && s->in_use != tid()) viol("C15.concurrent", "%s on socket %u by t%d while t%d is in %s", op, s->id, tid(), s->in_use, s->in_op);
    s->in_use = tid(); s->in_op = op;
    if (is_prop("C15") || is_prop("C07")) race_access(s->shadow, 8, true, "(socket)");
    pt();
  }
  ~InUse() { s->in_use = -1; }
};
// message objects: the 64 opaque bytes hold magic, size and data pointer
struct Msg { u64 magic; void* data; u64 size; u64 more; };
static_assert(sizeof(Msg) <= sizeof(zmq_msg_t), "");
static const u64 MM = 0x7a6d716d73677631ull;
static Msg* mm(const void* m, const char* op) { check_range(m, sizeof(Msg), false, op); Msg* x = (Msg*)m; if (x->magic != MM) { viol("C15.message", "%s on a message that is not initialised", op); fail("bad-message", "%s on a message that is not initialised or was closed", op); } return x; }
static long g_held = 0;      // messages with content that were not given back
static void mfree(Msg* m) { if (m->size) --g_held; arena_free(m->data); m->data = nullptr; m->size = 0; }
long held() { return g_held; }
static void mset(Msg* m, const void* d, size_t n) { if (n) ++g_held; m->magic = MM; m->size = n; m->more = 0; m->data = arena_alloc(n); if (n && d) memcpy(m->data, d, n); }
static int open_msgs = 0;
}  // namespace net
using namespace net;

extern "C" {
void* zmq_ctx_new(void) {
  Quiet q; pt();
  if (choose(K_NET, faults.ctx, 2)) { count("fault.zmq_ctx"); set_err(EMFILE); return nullptr; }
  Ctx* c = new Ctx; ctxs.push_back(c); return c;
}
static Ctx* cx(void* h, const char* op) {
  for (auto c : ctxs) if (c == h) { if (c->terminated) { viol("C15.closed", "%s on a terminated context", op); fail("use-after-free", "%s on a terminated context", op); } return c; }
  return nullptr;
}
int zmq_ctx_set(void* c, int, int) { Quiet q; return cx(c, "zmq_ctx_set") ? 0 : (set_err(EFAULT), -1); }
int zmq_ctx_get(void* c, int) { Quiet q; return cx(c, "zmq_ctx_get") ? 0 : (set_err(EFAULT), -1); }
int zmq_ctx_shutdown(void* h) { Quiet q; pt(); Ctx* c = cx(h, "zmq_ctx_shutdown"); if (!c) { set_err(EFAULT); return -1; } c->shutdown = true; for (auto s : c->socks) wake_all(s); return 0; }
int zmq_ctx_term(void* h) {
  Quiet q; pt();
  Ctx* c = cx(h, "zmq_ctx_term"); if (!c) { set_err(EFAULT); return -1; }
  c->shutdown = true;
  for (auto s : c->socks) if (!s->closed) viol("C15.order", "the context is terminated while socket %u is still open", s->id);
  if (choose(K_NET, faults.term, 2)) { count("fault.zmq_term_interrupted"); set_err(EINTR); return -1; }
  // closing the sockets takes a moment, sending what is left may take longer: each for as long as its socket lingers
  u64 wait = 20;
  if (handled(SIGTERM) && choose(K_NET, faults.term_signal, 2)) raise_signal(tid(), SIGTERM);
  for (;;) {
    if (!block_on(c, wait)) { count("fault.zmq_term_interrupted"); set_err(EINTR); return -1; }
    bool busy = false; wait = ~0ull;
    for (auto s : c->socks) if (!s->closed) busy = true;
    for (auto l : links) if (l->pub->ctx == c && l->pub->closed && !l->pend.empty()) {
      u64 end = l->pub->linger < 0 ? ~0ull : l->pub->closed_at + (u64)l->pub->linger * 1000;
      if (now_us() >= end) { g_losses += l->pend.size(); l->pend.clear(); count("net.lost_at_close"); continue; }
      busy = true; if (end != ~0ull && end - now_us() < wait) wait = end - now_us();
    }
    if (!busy) break;
  }
  c->terminated = true; c->terms++;
  return 0;
}
int zmq_term(void* c) { return zmq_ctx_term(c); }
int zmq_ctx_destroy(void* c) { return zmq_ctx_term(c); }
void* zmq_socket(void* h, int type) {
  Quiet q; pt();
  Ctx* c = cx(h, "zmq_socket");
  if (!c) { set_err(EFAULT); return nullptr; }
  if (c->shutdown) { set_err(ETERM); return nullptr; }
  if (choose(K_NET, faults.create, 2)) { count("fault.zmq_socket"); set_err(EMFILE); return nullptr; }
  Sock* s = new Sock; s->id = (u32)socks.size() + 1; s->ctx = c; s->type = type; s->shadow = arena_alloc(8);
  c->socks.push_back(s); socks.push_back(s);
  return s;
}
int zmq_close(void* h) {
  Quiet q; pt();
  if (!h) { set_err(ENOTSOCK); return -1; }
  Sock* s = sk(h, "zmq_close"); if (!s) { set_err(ENOTSOCK); return -1; }
  { InUse u(s, "zmq_close"); }
  s->closed = true; s->closed_at = now_us();
  for (auto l : links) if (l->sub == s) { link_down(l, 0); }   // what a closed publisher sent still arrives
  wake_all(s->ctx);
  return 0;
}
static bool ended(Sock* s) { if (s->ctx && s->ctx->shutdown) { set_err(ETERM); return true; } return false; }
int zmq_bind(void* h, const char* ep) {
  Quiet q; Sock* s = h ? sk(h, "zmq_bind") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  InUse u(s, "zmq_bind"); if (ended(s)) return -1;
  if (choose(K_NET, faults.bind, 2)) { count("fault.zmq_bind"); set_err(EADDRINUSE); return -1; }
  for (auto o : socks) if (!o->closed) for (auto& b : o->binds) if (b == ep) { set_err(EADDRINUSE); return -1; }
  s->binds.push_back(ep); match_all(); return 0;
}
int zmq_connect(void* h, const char* ep) {
  Quiet q; Sock* s = h ? sk(h, "zmq_connect") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  InUse u(s, "zmq_connect"); if (ended(s)) return -1;
  if (choose(K_NET, faults.connect, 2)) { count("fault.zmq_connect"); set_err(EINVAL); return -1; }
  s->connects.push_back(ep); match_all(); return 0;
}
static int undo(void* h, const char* ep, const char* op) {
  Quiet q; Sock* s = h ? sk(h, op) : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  InUse u(s, op);
  auto rm = [&](std::vector<std::string>& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == ep) { v.erase(v.begin() + i); return true; } return false; };
  if (!rm(s->binds) && !rm(s->connects)) { set_err(ENOENT); return -1; }
  for (auto l : links) if ((l->pub == s || l->sub == s) && (l->ep == ep || s->binds.empty())) link_down(l, 0);
  return 0;
}
int zmq_unbind(void* h, const char* ep) { return undo(h, ep, "zmq_unbind"); }
int zmq_disconnect(void* h, const char* ep) { return undo(h, ep, "zmq_disconnect"); }
int zmq_setsockopt(void* h, int opt, const void* v, size_t n) {
  Quiet q; Sock* s = h ? sk(h, "zmq_setsockopt") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  InUse u(s, "zmq_setsockopt"); if (ended(s)) return -1;
  if (opt == ZMQ_SUBSCRIBE) { if (s->type != ZMQ_SUB) { set_err(EINVAL); return -1; } s->filters.push_back(std::string((const char*)v, n)); }
  else if (opt == ZMQ_UNSUBSCRIBE) { std::string f((const char*)v, n); for (size_t i = 0; i < s->filters.size(); ++i) if (s->filters[i] == f) { s->filters.erase(s->filters.begin() + i); break; } }
  else if (opt == ZMQ_SNDHWM || opt == ZMQ_RCVHWM) { int x; if (n != sizeof(int)) { set_err(EINVAL); return -1; } memcpy(&x, v, sizeof x); if (x < 0) { set_err(EINVAL); return -1; } (opt == ZMQ_SNDHWM ? s->sndhwm : s->rcvhwm) = x ? x : 1 << 30; }
  else if (opt == ZMQ_LINGER) { if (n != sizeof(int)) { set_err(EINVAL); return -1; } memcpy(&s->linger, v, sizeof(int)); if (s->linger < -1) s->linger = -1; }
  return 0;
}
int zmq_getsockopt(void* h, int opt, void* v, size_t* n) {
  Quiet q; Sock* s = h ? sk(h, "zmq_getsockopt") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  InUse u(s, "zmq_getsockopt"); if (ended(s)) return -1;
  long val = 0;
  if (opt == ZMQ_RCVMORE) val = s->more; else if (opt == ZMQ_TYPE) val = s->type; else if (opt == ZMQ_EVENTS) val = (s->type == ZMQ_PUB ? ZMQ_POLLOUT : (s->in.empty() ? 0 : ZMQ_POLLIN)); else if (opt == ZMQ_LINGER) val = s->linger;
  if (*n < sizeof(int)) { set_err(EINVAL); return -1; }
  check_range(v, *n, true, "(zmq_getsockopt)");
  // the option is an int; a wider target only gets its first four bytes written, as in the real library
  int iv = (int)val; memcpy(v, &iv, sizeof iv); *n = sizeof iv;
  return 0;
}
int zmq_msg_init(zmq_msg_t* m) { Quiet q; check_range(m, sizeof(Msg), true, "(zmq_msg_init)"); if (choose(K_NET, faults.msg, 2)) { count("fault.zmq_msg"); set_err(ENOMEM); return -1; } mset((Msg*)m, nullptr, 0); open_msgs++; return 0; }
int zmq_msg_init_size(zmq_msg_t* m, size_t n) { Quiet q; check_range(m, sizeof(Msg), true, "(zmq_msg_init_size)"); if (choose(K_NET, faults.msg, 2)) { count("fault.zmq_msg"); set_err(ENOMEM); return -1; } mset((Msg*)m, nullptr, n); open_msgs++; return 0; }
int zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* hint) { Quiet q; mset((Msg*)m, d, n); open_msgs++; if (f) f(d, hint); return 0; }
int zmq_msg_close(zmq_msg_t* m) { Quiet q; Msg* x = mm(m, "zmq_msg_close"); mfree(x); x->magic = 0; x->data = nullptr; open_msgs--; return 0; }
size_t zmq_msg_size(const zmq_msg_t* m) { Quiet q; return mm(m, "zmq_msg_size")->size; }
void* zmq_msg_data(zmq_msg_t* m) { Quiet q; return mm(m, "zmq_msg_data")->data; }
int zmq_msg_more(const zmq_msg_t* m) { Quiet q; return (int)mm(m, "zmq_msg_more")->more; }
int zmq_msg_get(const zmq_msg_t* m, int) { Quiet q; return (int)mm(m, "zmq_msg_get")->more; }
int zmq_msg_move(zmq_msg_t* d, zmq_msg_t* s) { Quiet q; Msg* a = mm(d, "zmq_msg_move"); Msg* b = mm(s, "zmq_msg_move"); mfree(a); *a = *b; mset(b, nullptr, 0); return 0; }
int zmq_msg_copy(zmq_msg_t* d, zmq_msg_t* s) { Quiet q; Msg* a = mm(d, "zmq_msg_copy"); Msg* b = mm(s, "zmq_msg_copy"); mfree(a); mset(a, b->data, b->size); a->more = b->more; return 0; }

static int do_send(Sock* s, const void* d, size_t n, int flags, const char* op) {
  InUse u(s, op); if (ended(s)) return -1;
  if (s->type != ZMQ_PUB) { set_err(ENOTSUP); return -1; }
  if (choose(K_NET, faults.send, 2)) { count("fault.zmq_send"); set_err(EAGAIN); return -1; }
  if (n) check_range(d, n, false, "(zmq send)");
  s->out.push_back(std::string((const char*)d, n));
  if (!(flags & ZMQ_SNDMORE)) { Frames f; f.swap(s->out); transmit(s, f); }
  return (int)n;
}
int zmq_send(void* h, const void* d, size_t n, int flags) { Quiet q; Sock* s = h ? sk(h, "zmq_send") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; } return do_send(s, d, n, flags, "zmq_send"); }
int zmq_send_const(void* h, const void* d, size_t n, int flags) { return zmq_send(h, d, n, flags); }
int zmq_msg_send(zmq_msg_t* m, void* h, int flags) {
  Quiet q; Sock* s = h ? sk(h, "zmq_msg_send") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  Msg* x = mm(m, "zmq_msg_send"); size_t n = x->size;
  int r = do_send(s, x->data, n, flags, "zmq_msg_send");
  if (r >= 0) { mfree(x); mset(x, nullptr, 0); }   // a sent message is emptied
  return r;
}
int zmq_sendmsg(void* h, zmq_msg_t* m, int flags) { return zmq_msg_send(m, h, flags); }

// 1 = a frame was taken, 0 = error set
static int take(Sock* s, int flags, std::string& f) {
  if (ended(s)) return 0;
  if (s->type != ZMQ_SUB) { set_err(ENOTSUP); return 0; }
  if (s->frame == 0) {
    if (choose(K_NET, faults.recv, 2)) { count("fault.zmq_recv"); set_err(EINTR); return 0; }
    if (s->in.empty() && (flags & ZMQ_DONTWAIT)) { set_err(EAGAIN); return 0; }
    while (s->in.empty()) { block_on(s, 1000); if (ended(s)) return 0; }
  }
  Frames& m = s->in.front();
  f = s->frame < m.size() ? m[s->frame] : "";
  ++s->frame;
  s->more = s->frame < m.size();
  if (!s->more) { s->in.pop_front(); s->frame = 0; }
  return 1;
}
int zmq_msg_recv(zmq_msg_t* m, void* h, int flags) {
  Quiet q; Sock* s = h ? sk(h, "zmq_msg_recv") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  Msg* x = mm(m, "zmq_msg_recv");
  InUse u(s, "zmq_msg_recv");
  std::string f; if (!take(s, flags, f)) return -1;
  mfree(x); mset(x, f.data(), f.size()); x->more = s->more;
  return (int)f.size();
}
int zmq_recvmsg(void* h, zmq_msg_t* m, int flags) { return zmq_msg_recv(m, h, flags); }
int zmq_recv(void* h, void* b, size_t n, int flags) {
  Quiet q; Sock* s = h ? sk(h, "zmq_recv") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
  InUse u(s, "zmq_recv");
  std::string f; if (!take(s, flags, f)) return -1;
  size_t k = f.size() < n ? f.size() : n; if (k) { check_range(b, k, true, "(zmq_recv)"); memcpy(b, f.data(), k); }
  return (int)f.size();
}
int zmq_poll(zmq_pollitem_t* it, int n, long timeout) {
  Quiet q; pt();
  u64 until = timeout < 0 ? ~0ull : now_us() + (u64)timeout * 1000;
  for (;;) {
    int r = 0;
    for (int i = 0; i < n; ++i) {
      it[i].revents = 0; Sock* s = it[i].socket ? sk(it[i].socket, "zmq_poll") : nullptr; if (!s) { set_err(ENOTSOCK); return -1; }
      if (ended(s)) return -1;
      if ((it[i].events & ZMQ_POLLIN) && s->type == ZMQ_SUB && !s->in.empty()) it[i].revents |= ZMQ_POLLIN;
      if ((it[i].events & ZMQ_POLLOUT) && s->type == ZMQ_PUB) it[i].revents |= ZMQ_POLLOUT;
      if (it[i].revents) ++r;
    }
    if (r || now_us() >= until) return r;
    u64 left = until - now_us(); block_on((void*)it, left < 1000 ? left : 1000);
  }
}
int zmq_errno(void) { return errs.e[tid() < 0 ? 0 : tid()]; }
const char* zmq_strerror(int e) { return strerror(e); }
void zmq_version(int* a, int* b, int* c) { *a = 4; *b = 3; *c = 5; }
}
