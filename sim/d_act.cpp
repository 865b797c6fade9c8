// Actions: requests (asynchronous and synchronous), providers that answer at once, late, twice or
// never, and malformed traffic on the action topics.
#include "drv.h"
#include "img.h"
using namespace sim;
using namespace lp;

namespace {
enum K { ASYNC = 1, SYNC, NAP, BAD_REQ, BAD_RESP, NEWPROV, REPLAY, PUBN };
const char* const AT[] = {"/a", "/b", "/a/request", "/a/b"};
struct Prov;
struct Req {
  long id; int cons; std::string topic; bool sync = false; int timeout = 0; u64 shape = 0; int bus = 0; int blank = 0;
  u64 call = 0, ret = ~0ull, t_call = 0, t_ret = ~0ull; u64 busy_call = 0, busy_ret = 0;
  long result = -2;               // -2 nothing, -1 empty, otherwise response number
  int callbacks = 0; std::vector<std::pair<int, int>> inv;   // provider, times
  std::string invocation; bool before_run = false;
  u64 t_first_obs = ~0ull; u64 busy_obs = 0;
};
// a request whose payload says nothing about itself: known by its identifier only
struct Inv { std::string topic; int blank = 0; std::map<int, int> by; long owner = -1; bool answered = false; };
struct Resp { int blank = 0; long id; long req; int prov; std::string inv; u64 call = 0, ret = ~0ull, t_call = 0, t_ret = ~0ull; u64 t_obs = ~0ull; u64 busy_obs = 0; };
struct Prov { int idx, bus; std::string topic; u64 create_call = 0, create_ret = ~0ull; int mode = 0; Cell<std::shared_ptr<bus::ActionProvider>> cell; };
struct Cons { int idx, bus; const ImgApi* im = nullptr; std::string topic; Cell<std::shared_ptr<bus::ActionConsumer>> cell; };
struct Due { u64 t; int prov; std::string inv; long req; };
struct St {
  std::vector<Req*> reqs; std::vector<Resp*> resps; std::vector<Prov*> provs; std::vector<Cons*> cons; std::vector<Due> due;
  std::vector<std::string> answered; std::map<std::string, int> prov_by_ptr;
  bool end = false; std::map<std::string, Inv> invs; long nested = 0, nsync = 0; bool malformed = false; int in_cb = 0; u64 cb_start = 0, cb_busy = 0; bool run_over = false; u64 run_call = ~0ull;
  int resp_threads = 1; Cell<int> give;
  std::vector<PubP> raw;          // publishers for raw traffic
  u64 last = 0;
};
St* S;
u64 busy() { return S->cb_busy + (S->in_cb ? now_us() - S->cb_start : 0); }
struct InCb { InCb() { Quiet q; if (S->in_cb++ == 0) S->cb_start = now_us(); S->last = now_us(); } ~InCb() { Quiet q; S->last = now_us(); if (--S->in_cb == 0) S->cb_busy += now_us() - S->cb_start; } };
void bad(const char* what, const char* fmt, const std::string& a, long b = 0, long c = 0) {
  for (const char* p : {"C08", "C09", "C10"}) { std::string r = std::string(p) + "." + what; viol(r.c_str(), fmt, a.c_str(), b, c); }
}

void gen(Plan& p, Rng& r) {
  int nb = r.range(1, 3); p.p["nb"] = nb;
  for (int i = 1; i < nb; ++i) p.p["par" + std::to_string(i)] = (long)r.below(i);
  int nt = r.range(1, 4);
  int np = r.range(0, 4), nc = r.range(1, 4);
  if (np == 0 && r.below(4)) np = 1;
  p.p["np"] = np; p.p["nc"] = nc;
  for (int i = 0; i < np; ++i) { p.p["pb" + std::to_string(i)] = (long)r.below(nb); p.p["pt" + std::to_string(i)] = (long)r.below(nt); p.p["pm" + std::to_string(i)] = (long)r.below(9); }
  bool libs = r.below(3) == 0;   // consumers that live in plugin libraries
  for (int i = 0; i < nc; ++i) { if (libs) p.p["ci" + std::to_string(i)] = (long)r.below(3); p.p["cb" + std::to_string(i)] = (long)r.below(nb); p.p["ct" + std::to_string(i)] = r.below(3) && np ? p.p["pt" + std::to_string(r.below(np))] : (long)r.below(nt); }
  int na = r.range(1, 5); p.p["na"] = na; p.p["nt"] = nt;
  p.p["nested"] = r.below(3) ? 0 : r.range(1, 6);
  p.p["nsync"] = r.below(10) ? 0 : 1;
  p.p["slow"] = r.below(4) == 0;
  p.p["resp_threads"] = r.range(1, 2);
  p.p["late_run"] = r.below(5) == 0 ? r.range(1, 150) : 0;
  int malformed = p.prop == "C10" ? 6 : p.prop == "C07" || r.below(3) == 0 ? 2 : 0;
  int wsync = p.prop == "C09" ? 12 : 5;
  static const long to[] = {0, 1, 5, 49, 50, 99, 100, 101, 150, 250, 1000, -3};
  int tpick = (int)r.below(3);
  if (p.prop != "C10" && r.below(30) == 0) p.p["crowd"] = std::min(r.range(250, 600), 150 + 900 / ((np + 1) * nc));
  // waits of hours, where an answer is certain
  bool sure = p.prop != "C07" && r.below(4) == 0;
  for (int a = 1; a <= na; ++a) {
    int n = r.range(1, 7);
    for (int i = 0; i < n; ++i) {
      int tot = 10 + wsync + 3 + malformed * 3 + 1 + 2; int x = (int)r.below(tot); Op o; o.actor = a;
      if ((x -= 10) < 0) o.kind = ASYNC; else if ((x -= wsync) < 0) o.kind = SYNC; else if ((x -= 3) < 0) o.kind = NAP;
      else if ((x -= malformed) < 0) o.kind = BAD_REQ; else if ((x -= malformed) < 0) o.kind = BAD_RESP; else if ((x -= malformed) < 0) o.kind = REPLAY;
      else if ((x -= 1) < 0) o.kind = NEWPROV; else o.kind = PUBN;
      o.a = (long)r.below(nc); o.b = (long)r.below(8); o.c = (long)r.below(24); o.d = r.below(2) ? 0 : (long)r.below(0x10000);
      if ((o.kind == ASYNC || o.kind == SYNC) && r.below(6) == 0) o.d = -1 - (long)r.below(3);
      if (o.kind == SYNC) o.c = tpick == 0 ? to[r.below(12)] : tpick == 1 ? to[5 + r.below(3)] : to[3 + r.below(6)];
      if (o.kind == SYNC && sure) { bool ans = false; long ct = p.p["ct" + std::to_string(o.a)]; for (int k = 0; k < np; ++k) { long m = p.p["pm" + std::to_string(k)]; if (p.p["pt" + std::to_string(k)] == ct && (m == 0 || m == 1 || m == 5 || m == 6)) ans = true; } static const long far[] = {15000, 60000, 3000000, 2147483647, 5000000, 86400000}; if (ans) o.c = far[r.below(6)]; }
      else if (o.kind == SYNC && r.below(40) == 0) o.c = r.range(8000, 20000);
      if (o.kind == NAP) { static const long naps[] = {0, 100, 1000, 49000, 99000, 100000, 101000}; o.a = naps[r.below(7)]; }
      p.ops.push_back(o);
    }
  }
}

messages::Datagram blank_payload(int b);
void respond(Prov* pr, std::shared_ptr<bus::ActionProvider> h, const std::string& inv, long req) {
  Resp* rs; { Quiet q; rs = new Resp; if (req >= 0) { u64 h2 = mix2((u64)req * 977 + (u64)pr->idx, S->resps.size() + 3); if (h2 % 7 == 0) { rs->blank = (int)(1 + h2 / 7 % 4 % 3); count(rs->blank == 1 ? "probe.empty_response" : "probe.response_that_says_nothing"); } } rs->id = (long)S->resps.size(); rs->req = req; rs->inv = inv; rs->prov = pr->idx; S->resps.push_back(rs); rs->t_call = now_us(); rs->call = seq(); if (tracing()) trace("provider %d responds r%ld to q%ld", pr->idx, rs->id, req); }
  messages::Datagram d = rs->blank ? blank_payload(rs->blank) : make_payload(rs->id, (u64)(req & 3 ? 0 : rs->id % 8));
  h->Respond(inv, d);
  { Quiet q; rs->ret = seq(); rs->t_ret = now_us(); if (req < 0) S->invs[inv].answered = true; }
  scribble(d, (u64)rs->id);
}

void do_async(int ci, u64 shape);
messages::Datagram blank_payload(int b) {
  if (b == 1) return messages::Datagram();
  if (b == 2) return messages::Datagram(std::string("same"));
  messages::Datagram d; d["same"] = messages::Datagram(7); return d;
}
int blank_kind(messages::Datagram d) {
  using messages::RawDatagramType;
  if (d.GetType() == RawDatagramType::Empty) return 1;
  if (d.GetType() == RawDatagramType::Value) return d == blank_payload(2) ? 2 : 0;
  return d.GetType() == RawDatagramType::Dictionary && d == blank_payload(3) ? 3 : 0;
}
int blank_of(u64 shape) { long v = (long)shape; return v < 0 && v > -4 ? (int)-v : 0; }
messages::Datagram request_payload(Req* r, u64 shape) { return r->blank ? blank_payload(r->blank) : make_payload(r->id, shape); }

void on_request(Prov* pr, std::shared_ptr<bus::ActionProvider> h, std::string inv, messages::Datagram d) {
  InCb in;
  messages::Datagram body; long id = -1; bool has = false; int blank = 0;
  { NoSched ns; if (d.GetType() == messages::RawDatagramType::Dictionary && d.KeyExists("request")) { has = true; body = d["request"]; blank = blank_kind(body); id = blank ? -2 : payload_id(body); } }
  Req* r = nullptr;
  if (has && blank) {
    Quiet q; count("probe.request_that_says_nothing");
    Inv& v = S->invs[inv];
    if (tracing()) trace("provider %d gets a request of blank payload %d", pr->idx, blank);
    if (!v.blank) {
      v.blank = blank; v.topic = pr->topic;
      for (auto o : S->reqs) if (!o->blank && o->invocation == inv) bad("same-id", "two requests carry the same invocation id %s", inv);
      long sent = 0, seen = 0; for (auto o : S->reqs) if (o->blank == blank && o->topic == v.topic) ++sent; for (auto& x : S->invs) if (x.second.blank == blank && x.second.topic == v.topic) ++seen;
      if (seen > sent) bad("invoked", "a provider on '%s' was invoked for something that was no proper request", pr->topic);
    } else if (v.blank != blank || v.topic != pr->topic) bad("misrouted", "a provider was invoked for a request on '%s'", v.topic);
    if (++v.by[pr->idx] > 1) bad("twice", "a provider on '%s' was invoked %ld times for one request", pr->topic, v.by[pr->idx]);
  } else {
    Quiet q;
    if (!has || id < 0 || id >= (long)S->reqs.size()) { bad("invoked", "a provider on '%s' was invoked for something that was no proper request", pr->topic); return; }
    r = S->reqs[id];
    if (tracing()) trace("provider %d gets q%ld", pr->idx, id);
    if (r->topic != pr->topic) bad("misrouted", "a provider was invoked for a request on '%s' (number %ld)", r->topic, id);
    if (r->invocation.empty()) { r->invocation = inv; for (auto o : S->reqs) if (o != r && o->invocation == inv) bad("same-id", "two requests carry the same invocation id %s (number %ld)", inv, id); }
    else if (r->invocation != inv) bad("other-id", "request on '%s' (number %ld) reached its providers with different invocation ids", r->topic, id);
    bool f = false; for (auto& x : r->inv) if (x.first == pr->idx) { f = true; if (++x.second > 1) bad("twice", "a provider on '%s' was invoked %ld times for request number %ld", pr->topic, x.second, id); }
    if (!f) r->inv.push_back({pr->idx, 1});
  }
  std::string df = r ? payload_diff(body, id, r->shape) : std::string();
  { Quiet q; if (!df.empty()) bad("payload", ("a provider received a request that differs from what was sent: " + df + " (%s)").c_str(), r->topic); }
  int mode = pr->mode; u64 h2; { Quiet q; h2 = mix2((u64)id * 131 + (u64)pr->idx, 5); }
  if (mode == 8) mode = (int)(h2 % 8);
  static const u64 delays[] = {0, 1000, 49000, 99000, 99900, 100000, 100100, 150000, 250000};
  auto later = [&](u64 us) { Quiet q; S->due.push_back({now_us() + us, pr->idx, inv, id}); hb_release(&S->give); };
  switch (mode) {
    case 0: case 5: respond(pr, h, inv, id); break;
    case 1: respond(pr, h, inv, id); respond(pr, h, inv, id); count("probe.responds_twice"); break;
    case 2: count("probe.never_responds"); break;
    case 3: later(delays[h2 / 8 % 9]); count("probe.responds_late"); break;
    case 4: later(delays[h2 / 8 % 9]); later(delays[h2 / 128 % 9]); count("probe.responds_late"); break;
    case 6: respond(pr, h, inv, id); later(delays[h2 / 8 % 9]); break;
    case 7: { long e; { Quiet q; e = r && r->sync ? r->timeout * 1000L : 20000; if (r) e -= (long)(now_us() - r->t_call); if (e < 0) e = 0; if (e > 30000000) e = 30000000; } later((u64)e); count("probe.responds_at_timeout"); } break;
  }
  bool nest; int ci = 0; { Quiet q; nest = S->nested > 0 && (h2 & 4096); if (nest) { --S->nested; ci = (int)(h2 / 8192 % S->cons.size()); } }
  if (nest) { count("probe.request_inside_provider"); do_async(ci, 0); }
}

void on_response(Req* r, messages::Datagram d, bool sync) {
  long id; int bk; { NoSched ns; bk = blank_kind(d); id = bk ? -1 : d.GetType() == messages::RawDatagramType::Empty ? -1 : payload_id(d); }
  std::string df; Resp* rs = nullptr;
  {
    Quiet q;
    if (!sync && ++r->callbacks > 1) bad("answered-twice", "the callback of a request on '%s' (number %ld) was called %ld times", r->topic, r->id, r->callbacks);
    if (bk) {
      bool f = false; for (auto x : S->resps) if (x->blank == bk && x->req == r->id) f = true;
      if (f) { r->result = -3; if (tracing()) trace("q%ld gets a blank response %d", r->id, bk); return; }
    }
    if (id < 0 || id >= (long)S->resps.size()) { bad("invented", "a request on '%s' (number %ld) got a response that nobody sent", r->topic, r->id); return; }
    rs = S->resps[id]; r->result = id;
    if (tracing()) trace("q%ld gets r%ld", r->id, id);
    if (r->blank && rs->req == -2) {
      Inv& v = S->invs[rs->inv];
      if (v.blank != r->blank || v.topic != r->topic || (v.owner >= 0 && v.owner != r->id) || (!r->invocation.empty() && r->invocation != rs->inv)) bad("foreign", "a request on '%s' (number %ld) received the response to another request", r->topic, r->id);
      v.owner = r->id; r->invocation = rs->inv;
    } else if (rs->req != r->id) bad("foreign", "a request on '%s' (number %ld) received the response to request number %ld", r->topic, r->id, rs->req);
  }
  df = payload_diff(d, id, (u64)(rs->req & 3 ? 0 : rs->id % 8));
  Quiet q;
  if (!df.empty()) bad("response-content", ("a response differs from what the provider sent: " + df + " (%s)").c_str(), r->topic);
}

Req* new_req(int ci, u64 shape) {
  Quiet q; Req* r = new Req; r->id = (long)S->reqs.size(); r->cons = ci; r->topic = S->cons[ci]->topic; r->bus = S->cons[ci]->bus; r->shape = shape; r->blank = blank_of(shape); S->reqs.push_back(r); return r;
}

void do_async(int ci, u64 shape) {
  Req* r = new_req(ci, shape);
  auto c = S->cons[ci]->cell.get();
  messages::Datagram d = request_payload(r, shape);
  { Quiet q; r->t_call = now_us(); r->call = seq(); r->before_run = S->run_call == ~0ull; if (tracing()) trace("q%ld async on %s", r->id, r->topic.c_str()); }
  S->cons[ci]->im->request_async(*c, d, [r](messages::Datagram resp) {
    InCb in;
    on_response(r, resp, false);
    bool nest, ns, slow; { Quiet q; nest = S->nested > 0; if (nest) --S->nested; ns = !nest && S->nsync > 0; if (ns) --S->nsync; slow = S->resp_threads > 10 && r->id % 3 == 0; }
    if (nest) { count("probe.request_inside_callback"); do_async(r->cons, 0); }
    if (ns) {
      // a blocking request from inside a callback holds the bus up: it can only time out
      Req* r2 = new_req(r->cons, 0); { Quiet q; r2->sync = true; r2->timeout = 30; r2->t_call = now_us(); r2->call = seq(); }
      auto c2 = S->cons[r2->cons]->cell.get(); messages::Datagram rq = make_payload(r2->id, 0);
      messages::Datagram a = S->cons[r2->cons]->im->request(*c2, rq, 30);
      { Quiet q; r2->ret = seq(); r2->t_ret = now_us(); r2->result = -1; count("probe.sync_request_inside_callback"); if (a.GetType() != messages::RawDatagramType::Empty) bad("sync-inside", "a blocking request made from inside a callback on '%s' got an answer", r2->topic); if (r2->t_ret - r2->t_call < 30000) viol("C09.early", "a synchronous request gave up after %llu us instead of 30 ms", (unsigned long long)(r2->t_ret - r2->t_call)); }
    }
    if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(4));
  });
  { Quiet q; r->ret = seq(); r->t_ret = now_us(); }
  scribble(d, (u64)r->id);
}

void do_sync(int ci, int timeout, u64 shape) {
  Req* r = new_req(ci, shape);
  auto c = S->cons[ci]->cell.get();
  messages::Datagram d = request_payload(r, shape);
  { Quiet q; r->sync = true; r->timeout = timeout; r->t_call = now_us(); r->busy_call = busy(); r->before_run = S->run_call == ~0ull; r->call = seq(); if (tracing()) trace("q%ld sync on %s, %d ms", r->id, r->topic.c_str(), timeout); }
  messages::Datagram a = S->cons[ci]->im->request(*c, d, timeout);
  bool empty = a.GetType() == messages::RawDatagramType::Empty;
  { Quiet q; r->ret = seq(); r->t_ret = now_us(); r->busy_ret = busy(); if (empty) r->result = -1; if (tracing()) trace("q%ld returns %s", r->id, empty ? "empty" : "a response"); }
  if (!empty) on_response(r, a, true);
  u64 T = timeout > 0 ? (u64)timeout * 1000 : 0, el = r->t_ret - r->t_call;
  Quiet q;
  if (empty) {
    count("probe.sync_timed_out");
    bool blank = false; for (auto x : S->resps) if (x->blank == 1 && x->req == r->id) blank = true;
    if (el < T && !blank) viol("C09.early", "a synchronous request gave up after %llu us although its timeout is %llu us", (unsigned long long)el, (unsigned long long)T);
    if (el > T + 3000 + stall_between(r->t_call, r->t_ret)) viol("C09.late", "a synchronous request timed out after %llu us instead of %llu us", (unsigned long long)el, (unsigned long long)T);
  } else {
    count("probe.sync_answered");
    if (el > T + 3000 + stall_between(r->t_call, r->t_ret)) viol("C09.late", "a synchronous request returned a response after %llu us, its timeout is %llu us", (unsigned long long)el, (unsigned long long)T);
  }
  scribble(a, 1);
}

messages::Datagram bad_payload(int kind, const std::string& id, bool request) {
  using messages::Datagram; using messages::RawDatagramType;
  const char* key = request ? "request" : "response";
  Datagram d;
  auto body = [&] { d[key] = Datagram(std::string("zz")); };
  switch (kind % 12) {
    case 0: return Datagram();
    case 1: return Datagram(42);
    case 2: return Datagram(std::string("invocationId"));
    case 3: { Datagram l(RawDatagramType::List); return l; }
    case 4: return Datagram(RawDatagramType::Dictionary);
    case 5: body(); return d;
    case 6: body(); d["invocationId"] = Datagram(42); return d;
    case 7: body(); d["invocationId"] = Datagram(true); return d;
    case 8: body(); d["invocationId"] = Datagram(RawDatagramType::List); return d;
    case 9: { body(); Datagram in; in["invocationId"] = Datagram(std::string("x")); d["invocationId"] = in; return d; }
    case 10: body(); d["invocationId"] = Datagram(); return d;
    case 11: if (request) { body(); d["InvocationId"] = Datagram(std::string("abc")); return d; } body(); d["invocationId"] = Datagram(std::string(id)); return d;
  }
  return d;
}

void run_op(const Plan& p, const Op& o) {
  switch (o.kind) {
    case ASYNC: do_async((int)(o.a % S->cons.size()), (u64)o.d); break;
    case SYNC: do_sync((int)(o.a % S->cons.size()), (int)o.c, (u64)o.d); break;
    case NAP: if (o.a) std::this_thread::sleep_for(std::chrono::microseconds(o.a)); else std::this_thread::yield(); break;
    case BAD_REQ: case BAD_RESP: case REPLAY: {
      bool req = o.kind == BAD_REQ; std::string id; int k = (int)o.c;
      {
        Quiet q; S->malformed = true; id = "unknown";
        if (o.kind == REPLAY) {
          k = 11;
          // an identifier that was answered already, or one that only resembles an open one
          Req* done = nullptr; Req* open = nullptr; for (auto r : S->reqs) { if (!r->invocation.empty() && (r->callbacks || (r->sync && r->ret != ~0ull))) done = r; if (!r->invocation.empty()) open = r; }
          if (done && o.b % 2) { id = done->invocation; count("probe.response_to_answered"); }
          else if (open && open->invocation.size() > 2) { std::string& s = open->invocation; switch (o.b / 2 % 4) { case 0: id = s.substr(0, s.size() - 1); break; case 1: id = s + "0"; break; case 2: id = s; for (auto& c : id) if (c >= 'a' && c <= 'f') c -= 32; if (id == s) id += "x"; break; case 3: id = " " + s; break; } count("probe.response_with_similar_id"); }
        } else if (k % 12 == 11 && o.b % 3 == 0) { static const std::string many = "unknown id that is rather long, longer than any small buffer"; id = many; }
        count(req ? "probe.malformed_request" : "probe.malformed_response");
      }
      messages::Datagram d = bad_payload(k, id, req);
      int t = (int)(o.b % p.get("nt", 1)); PubP pub; { NoSched ns; pub = S->raw[t * 2 + (req ? 0 : 1)]; }
      pub->Publish(d);
    } break;
    case NEWPROV: {
      Prov* pr; std::string t; { Quiet q; pr = new Prov; pr->idx = (int)S->provs.size(); pr->bus = (int)(o.a % W->busses.size()); pr->topic = t = AT[o.b % p.get("nt", 1)]; pr->mode = (int)(o.c % 9); pr->create_call = seq(); S->provs.push_back(pr); }
      BusP bp = W->busses[pr->bus]->cell.get();
      auto h = bp->CreateActionProvider(t, [pr](std::shared_ptr<bus::ActionProvider> x, std::string id, messages::Datagram d) { on_request(pr, x, id, d); });
      pr->cell.put(h); { Quiet q; pr->create_ret = seq(); }
    } break;
    case PUBN: {
      // ordinary traffic beside the actions
      std::string t; { Quiet q; t = "/t/x"; }
      BusP bp = W->busses[0]->cell.get(); messages::Datagram d = make_payload(0, 0); bp->Publish(messages::Message("x", t, d));
    } break;
  }
}

void observe(messages::Datagram d) {
  long id; int bk; std::string inv;
  { NoSched ns; if (d.GetType() != messages::RawDatagramType::Dictionary || !d.KeyExists("response")) return; messages::Datagram b = d["response"]; bk = blank_kind(b); id = bk ? -1 : payload_id(b); if (bk) inv = d.Get<std::string>("invocationId"); }
  Quiet q;
  if (bk) for (auto x : S->resps) if (x->blank == bk && x->inv == inv && x->t_obs == ~0ull) { id = x->id; break; }
  if (id < 0 || id >= (long)S->resps.size()) return;
  Resp* rs = S->resps[id]; if (rs->t_obs == ~0ull) { rs->t_obs = now_us(); rs->busy_obs = busy(); }
  if (rs->req < 0) return;
  Req* r = S->reqs[rs->req]; if (r->t_first_obs == ~0ull) { r->t_first_obs = now_us(); r->busy_obs = busy(); }
}

void check_all() {
  Quiet q;
  std::map<std::pair<std::string, int>, std::pair<long, long>> bl;      // answered, could have taken an answer
  for (auto& x : S->invs) if (x.second.answered) bl[{x.second.topic, x.second.blank}].first++;
  for (auto r : S->reqs) if (r->blank) {
    if (r->sync || r->callbacks) bl[{r->topic, r->blank}].second++;
    for (auto pr : S->provs) if (pr->topic == r->topic && pr->create_ret != ~0ull) {
      long must = 0, may = 0, got = 0;
      for (auto o : S->reqs) if (o->blank == r->blank && o->topic == r->topic) { ++may; if (o->ret != ~0ull && o->call > pr->create_ret) ++must; }
      for (auto& x : S->invs) if (x.second.blank == r->blank && x.second.topic == r->topic && x.second.by.count(pr->idx)) ++got;
      if (got < must) bad("not-invoked", "a provider on '%s' was invoked for %ld of %ld requests with equal payloads", r->topic, got, must);
      if (got > may) bad("invoked", "a provider on '%s' was invoked for %ld requests, only %ld were made", r->topic, got, may);
    }
  }
  for (auto& x : bl) if (x.second.first > x.second.second) bad("unanswered", "on '%s' %ld requests with equal payloads were answered, but only %ld callbacks were called", x.first.first, x.second.first, x.second.second);
  for (auto r : S->reqs) {
    if (r->blank) continue;
    // every provider of that topic exactly once
    for (auto pr : S->provs) if (pr->topic == r->topic && pr->create_ret < r->call) { bool f = false; for (auto& x : r->inv) if (x.first == pr->idx) f = true; if (!f && r->ret != ~0ull) bad("not-invoked", "a provider on '%s' was never invoked for request number %ld", r->topic, r->id); }
    // answered if somebody answered while the bus ran
    bool any = false; for (auto rs : S->resps) if (rs->req == r->id && rs->ret != ~0ull) any = true;
    if (!r->sync && any && !r->callbacks) bad("unanswered", "a request on '%s' (number %ld) was answered but its callback was never called", r->topic, r->id);
    if (!r->sync && !any && r->callbacks) bad("invented", "a request on '%s' (number %ld) got a response that nobody sent", r->topic, r->id);
    if (r->sync && r->t_first_obs != ~0ull && r->ret != ~0ull) {
      u64 T = r->timeout > 0 ? (u64)r->timeout * 1000 : 0;
      u64 slack = 3000 + stall_between(r->t_call, r->t_ret) + (r->busy_ret > r->busy_call ? r->busy_ret - r->busy_call : 0);
      if (r->result == -1 && r->t_first_obs + slack < r->t_call + T && r->t_ret > r->t_first_obs + slack) viol("C09.ignored", "a synchronous request (number %ld) timed out although its response was delivered %llu ms before", r->id, (unsigned long long)(r->t_call + T - r->t_first_obs) / 1000);
      if ((r->result >= 0 || r->result == -3) && r->t_ret > r->t_first_obs && r->t_ret - r->t_first_obs > slack) viol("C09.slow", "a synchronous request (number %ld) returned %llu ms after its response was delivered", r->id, (unsigned long long)(r->t_ret - r->t_first_obs) / 1000);
    }
  }
  count("requests", S->reqs.size()); count("responses", S->resps.size());
}

void exec(const Plan& p) {
  new_world();
  { Quiet q; S = new St; S->provs.reserve(64); S->reqs.reserve(1024); S->resps.reserve(4096); set_prop(p.prop); out::install(); S->nested = p.get("nested"); S->nsync = p.get("nsync"); S->resp_threads = (int)p.get("slow") * 100 + 1; }
  int nb = (int)p.get("nb", 1), nt = (int)p.get("nt", 1);
  for (int i = 0; i < nb; ++i) {
    std::string name; int par = -1; BusRec* r;
    { Quiet q; par = i ? (int)p.get(("par" + std::to_string(i)).c_str()) : -1; name = i ? "bus" + std::to_string(i) : "root"; r = new BusRec; r->parent = par; r->name = name; W->busses.push_back(r); }
    if (i == 0) r->cell.put(std::make_shared<bus::Bus>(name));
    else { BusP pb = W->busses[par]->cell.get(); r->cell.put(pb->CreateChildBus(name)); }
  }
  BusP root = W->busses[0]->cell.get();
  for (int t = 0; t < nt; ++t) {
    std::string a, b; { Quiet q; a = std::string(AT[t]) + "/request"; b = std::string(AT[t]) + "/response"; }
    PubP x = root->CreatePublisher(a), y = root->CreatePublisher(b); { NoSched ns; S->raw.push_back(x); S->raw.push_back(y); }
    root->CreateSubscriber(b, [](messages::Datagram d) { InCb in; observe(d); });
  }
  for (int i = 0; i < p.get("np"); ++i) { Op o; { Quiet q; std::string n = std::to_string(i); o.a = p.get(("pb" + n).c_str()); o.b = p.get(("pt" + n).c_str()); o.c = p.get(("pm" + n).c_str()); } o.kind = NEWPROV; run_op(p, o); }
  for (int i = 0; i < p.get("nc", 1); ++i) {
    Cons* c; std::string t; { Quiet q; std::string n = std::to_string(i); c = new Cons; c->idx = i; c->bus = (int)p.get(("cb" + n).c_str()); c->topic = t = AT[p.get(("ct" + n).c_str())]; S->cons.push_back(c); }
    BusP bp = W->busses[c->bus]->cell.get(); const ImgApi* im; { Quiet q; im = image(p.get(("ci" + std::to_string(i)).c_str())); }
    c->im = im;
    c->cell.put(im->consumer(*bp, t));
  }
  long late = p.get("late_run");
  std::thread runner([late] {
    if (late) std::this_thread::sleep_for(std::chrono::milliseconds(late));
    BusP r = W->busses[0]->cell.get();
    { Quiet q; S->run_call = seq(); }
    r->Start();
    { Quiet q; S->run_over = true; }
  });
  int nr = (int)p.get("resp_threads", 1);
  std::vector<std::thread> rt; { Quiet q; rt.reserve(4); }
  for (int k = 0; k < nr; ++k) rt.emplace_back([] {
    for (;;) {
      Due d; bool have = false, end; u64 wait = 7000;
      {
        Quiet q; end = S->end; u64 now = now_us(); int best = -1;
        for (int i = 0; i < (int)S->due.size(); ++i) if (best < 0 || S->due[i].t < S->due[best].t) best = i;
        if (best >= 0 && S->due[best].t <= now) { d = S->due[best]; S->due.erase(S->due.begin() + best); have = true; hb_acquire(&S->give); }
        else if (best >= 0 && S->due[best].t - now < wait) wait = S->due[best].t - now;
        if (end && !have && S->due.empty()) return;
      }
      if (have) { auto h = S->provs[d.prov]->cell.get(); if (h) respond(S->provs[d.prov], h, d.inv, d.req); }
      else std::this_thread::sleep_for(std::chrono::microseconds(wait));
    }
  });
  int na = (int)p.get("na", 1);
  std::vector<std::thread> th; { Quiet q; th.reserve(16); }
  for (int a = 1; a <= na; ++a) th.emplace_back([&p, a] { for (auto& o : p.ops) if (o.actor == a) run_op(p, o); });
  for (auto& t : th) t.join();
  if (long n = p.get("crowd")) { for (long i = 0; i < n; ++i) do_async((int)(i % (long)S->cons.size()), 0); count("probe.crowd_of_requests"); }
  faults_off();
  // until nothing is due and nothing has moved for a while
  for (int i = 0; i < 60; ++i) {
    std::this_thread::sleep_for(std::chrono::milliseconds(130));
    Quiet q; if (S->run_over) break;
    if (S->due.empty() && !S->in_cb && S->run_call != ~0ull && now_us() > std::max(S->last, stall_end()) + 250000) break;
  }
  { Quiet q; S->end = true; }
  for (auto& t : rt) t.join();
  std::this_thread::sleep_for(std::chrono::milliseconds(230));
  root->Stop();
  runner.join();
  check_all();
  { Quiet q; u64 h = S->reqs.size(); for (auto r : S->reqs) h = h * 31 + (u64)r->result; state(h); state(S->reqs.size() * 100 + S->resps.size()); }
}
const Scenario SC = {"act", gen, exec};
RegScenario reg(&SC);
}
