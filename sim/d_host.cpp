// A whole LampPost instance with plugin libraries and configuration files: synthetic plugins that
// record their life, and the real SysInfo and Link plugins, on a simulated file system and loader.
#include "drv.h"
#include <csignal>
#include <lamppost/LampPost.h>
#include <lamppost/exceptions/OperationFailedException.h>
using namespace sim;
using namespace lp;

int lamppost_main(int, char**);
extern std::shared_ptr<lp::LampPost> lamppost;
extern "C" {
PluginInstance* sysinfo_CreateInstance(PluginConfiguration);
PluginTemplateInfo* sysinfo_CreateInfo();
PluginInstance* link_CreateInstance(PluginConfiguration);
PluginTemplateInfo* link_CreateInfo();
}

namespace {
enum K { LIB = 1, FILEOP, ENTRY, CFG, SIG };
enum { MAXLIB = 10 };
const char* const IDS[] = {"P", "P1", "Q", "Probe", "P", "Probe With A Long Identifier", "1"};
const int NIDS = 7;

struct LibRec { int kind = 0; std::string id, path; int dlidx = -1; };   // kind 0 good 1 broken 2 no info 3 no instance 4 null info 5 empty id 6 sysinfo 7 link
struct Inst {
  int num, lib; std::string id, type; bool null_created = false, threw = false;
  u64 ctor = 0, init_in = 0, init_out = 0, run_in = 0, run_out = 0, deinit_in = 0, deinit_out = 0, dtor = 0; int ninit = 0, nrun = 0, ndeinit = 0, ndtor = 0;
  bool init_failed = false; int run_tid = -1; u64 h = 0; std::string bus; u64 saw_stop = 0; int got = 0;
};
struct Ent { int file; int kind; std::string type; u64 shape; long token; };  // kind 0 proper 1 no type 2 not an object 3 type of another kind
struct Create { int lib; std::string type; std::string ident; std::vector<int> matches; };
struct St {
  LibRec lib[MAXLIB]; int nlib = 0; std::vector<Inst*> inst; std::vector<Ent> ents; std::vector<Create> creates; std::set<std::string> used, failed;
  u64 seed = 0; u64 t_stop = ~0ull; bool started = false, returned = false; int main_tid = 0; bool stop_called = false; std::set<void*> busses; u64 t_ret = 0;
  bool whole = false;  // the program's own main function, stopped by signals
  bool reported = false;
  bool calm = false;   // plugins without trouble of their own
};
St* S;
u64 t_stop() { return S->whole ? first_signal_us() : S->t_stop; }

void lib_alive(int k, const char* what) {
  Quiet q;
  if (k < 0 || S->lib[k].dlidx < 0) return;
  if (!dl::mapped(S->lib[k].dlidx)) {
    viol("C16.library", "%s of a plugin of %s although its library is not open any more", what, S->lib[k].path.c_str());
    viol("C17.closed", "%s of a plugin of %s although its library is not open any more", what, S->lib[k].path.c_str());
  }
}
// no unusable library may still be open once anything else goes on
void unusable_closed(const char* when) {
  Quiet q;
  for (int i = 0; i < S->nlib; ++i) { LibRec& l = S->lib[i]; if (l.dlidx >= 0 && l.kind >= 2 && l.kind <= 5 && dl::libs[l.dlidx]->refs > 0) viol("C17.not-closed", "library %s is unusable but still open %s", l.path.c_str(), when); }
}

class Probe : public PluginInstance {
 public:
  Inst* r; SubP sub; PubP pub; std::shared_ptr<bus::ActionProvider> prov; std::shared_ptr<bus::ActionConsumer> cons;
  Probe(PluginConfiguration c, Inst* i) : PluginInstance(c), r(i) { Quiet q; r->ctor = seq(); }
  ~Probe() {
    lib_alive(r->lib, "destruction");
    Quiet q; r->dtor = seq(); if (tracing()) trace("inst %d destroyed", r->num);
    if (++r->ndtor > 1) viol("C16.destroyed-twice", "instance %s was destroyed twice", r->id.c_str());
    if (r->ndeinit == 0) viol("C16.not-deinitialised", "instance %s was destroyed without having been deinitialised", r->id.c_str());
    if (r->run_in && !r->run_out) viol("C16.destroyed-running", "instance %s was destroyed while its worker was running", r->id.c_str());
    if (r->deinit_in && !r->deinit_out) viol("C16.destroyed-deinitialising", "instance %s was destroyed while being deinitialised", r->id.c_str());
  }
  void Initialize() override {
    lib_alive(r->lib, "initialisation");
    int b;
    {
      Quiet q; r->init_in = seq(); if (++r->ninit > 1) viol("C16.init-twice", "instance %s was initialised twice", r->id.c_str()); if (r->ninit > 1) viol("C18.started-twice", "instance %s was initialised twice", r->id.c_str());
      if (r->run_in) viol("C16.run-before-init", "the worker of %s ran before it was initialised", r->id.c_str());
      if (tracing()) trace("inst %d initialise", r->num);
      b = S->calm ? (int)(r->h % 2) : (int)(r->h % 8);
    }
    if (b & 1) {
      sub = GetBus()->CreateSubscriber(std::string("/probe")); Inst* me = r;
      sub->SetMessageCallback([me](messages::Message m) {
        lib_alive(me->lib, "a callback");
        std::string sender; long id; { NoSched ns; sender = m.GetSender(); messages::Datagram d = m.GetDatagram(); id = payload_id(d); }
        Quiet q; me->got++;
        if (me->deinit_out) viol("C16.callback-after-deinit", "a callback of instance %s runs after it was deinitialised", me->id.c_str());
        if (id < 0 || id >= (long)S->inst.size()) return;
        if (S->inst[id]->id != sender) viol("C18.bus-name", "a message of instance %s arrives with sender '%s'", S->inst[id]->id.c_str(), sender.c_str());
      });
      pub = GetPublisher(std::string("/probe"));
      if (b == 5) { Inst* me2 = r; prov = GetActionProvider(std::string("/probeact"), [me2](std::shared_ptr<bus::ActionProvider> p, std::string i, messages::Datagram) { lib_alive(me2->lib, "a callback"); p->Respond(i, messages::Datagram(std::string("ok"))); }); cons = GetActionConsumer(std::string("/probeact")); }
    }
    if (b == 4) { count("probe.plugin_init_throws"); { Quiet q; r->init_failed = true; r->init_out = seq(); } throw exceptions::OperationFailedException("init"); }
    if (b == 6 || b == 7) std::this_thread::sleep_for(std::chrono::milliseconds(20));
    Quiet q; r->init_out = seq();
  }
  void Run() override {
    lib_alive(r->lib, "the worker");
    int b;
    {
      Quiet q; r->run_in = seq(); r->run_tid = tid(); if (tracing()) trace("inst %d worker", r->num);
      if (++r->nrun > 1) { viol("C16.run-twice", "the worker of %s was run twice", r->id.c_str()); viol("C18.started-twice", "instance %s was started twice", r->id.c_str()); }
      if (!r->init_out || r->init_failed) viol("C16.run-before-init", "the worker of %s ran although its initialisation had not completed", r->id.c_str());
      if (r->run_tid == S->main_tid) viol("C16.own-thread", "the worker of %s runs on the main thread", r->id.c_str());
      for (auto o : S->inst) if (o != r && o->run_tid == r->run_tid) viol("C16.own-thread", "the workers of %s and %s share a thread", r->id.c_str(), o->id.c_str());
      if (r->ndeinit) viol("C16.run-after-deinit", "the worker of %s runs after deinitialisation", r->id.c_str());
      b = S->calm ? 0 : (int)(r->h / 8 % 7);
    }
    u64 t0 = now_us();
    auto told = [&] { Quiet q; if (t_stop() == ~0ull) viol("C16.told-early", "the worker of %s is told to end although nobody asked for it", r->id.c_str()); };
    auto body = [&](int us) {
      if (pub) { messages::Datagram d = make_payload(r->num, 0); pub->Publish(d); }
      if (cons) { messages::Datagram d = make_payload(r->num, 0); cons->Request(d, 30); }
      Sleep(std::chrono::microseconds(us));
      lib_alive(r->lib, "the worker");
      Quiet q;
      if (r->ndeinit) viol("C16.deinit-before-worker-end", "instance %s is deinitialised while its worker is running", r->id.c_str());
      if (t_stop() != ~0ull && now_us() > t_stop() + 30000000 + stall_us()) { viol("C16.not-told", "the worker of %s is still not told to stop 30 s after the stop request", r->id.c_str()); fail("hang", "the worker of %s is still not told to stop 30 s after the stop request", r->id.c_str()); }
    };
    switch (b) {
      case 0: case 1: while (mShouldRun) body(40000 + (int)(r->h % 5) * 20000); told(); break;
      case 2: count("probe.worker_ends_by_itself"); break;
      case 3: mShouldRun = false; count("probe.worker_clears_flag"); for (int i = 0; i < 3; ++i) body(100000); break;
      case 4: while (mShouldRun) body(700000); told(); break;
      case 5: count("probe.worker_ends_by_itself"); body(150000); break;
      case 6: while (mShouldRun && now_us() - t0 < 200000) body(3000); while (mShouldRun) body(50000); told(); break;
    }
    Quiet q; r->run_out = seq(); if (tracing()) trace("inst %d worker ends", r->num);
    if (r->ndeinit) viol("C16.deinit-before-worker-end", "instance %s was deinitialised before its worker had finished", r->id.c_str());
  }
  void Deinitialize() override {
    lib_alive(r->lib, "deinitialisation");
    {
      Quiet q; r->deinit_in = seq(); if (tracing()) trace("inst %d deinitialise", r->num);
      if (++r->ndeinit > 1) viol("C16.deinit-twice", "instance %s was deinitialised twice", r->id.c_str());
      if (r->run_in && !r->run_out) viol("C16.deinit-before-worker-end", "instance %s is deinitialised while its worker is running", r->id.c_str());
      if (r->init_in && !r->init_out) viol("C16.deinit-during-init", "instance %s is deinitialised while being initialised", r->id.c_str());
    }
    if (sub) DeleteSubscriber(sub);
    if (pub) DeletePublisher(pub);
    if (!S->calm && r->h / 64 % 4 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(25));
    Quiet q; r->deinit_out = seq();
  }
};

void record_create(int k, PluginConfiguration& c, bool failing) {
  // which entries could this be?
  Create cr; std::string type; { Quiet q; type = k == 6 + 100 ? "" : S->lib[k].id; cr.lib = k; cr.type = type; cr.ident = c.mIdentifier; }
  size_t n = S->ents.size();
  for (size_t i = 0; i < n; ++i) {
    Ent& e = S->ents[i]; bool cand; { Quiet q; cand = e.kind == 0 && e.type == type; }
    if (!cand) continue;
    std::string df = cfg_diff(c.mCustomConfiguration, e.shape, e.token);
    Quiet q; if (df.empty()) cr.matches.push_back((int)i);
  }
  std::string bid; BusP b; { NoSched ns; b = c.mBus; if (b) bid = b->GetIdentifier(); }
  Quiet q;
  if (cr.matches.empty()) viol("C18.unlisted", "a plugin of type '%s' is created with a configuration that no entry of that type has", type.c_str());
  // the identifier: type plus the lowest number that is free; numbers of failed creations may be skipped or used
  const std::string& id = cr.ident;
  bool ok = id.size() > type.size() && id.compare(0, type.size(), type) == 0; long num = -1;
  if (ok) { std::string d = id.substr(type.size()); for (char ch : d) if (ch < '0' || ch > '9') ok = false; if (ok && d.size() < 7) { num = atol(d.c_str()); if (std::to_string(num) != d) ok = false; } }
  if (!ok) viol("C18.identifier", "an instance of '%s' gets the identifier '%s'", type.c_str(), id.c_str());
  if (S->used.count(id)) viol("C18.identifier", "the identifier '%s' is given twice", id.c_str());
  for (long m = 0; ok && m < num; ++m) { std::string x = type + std::to_string(m); if (!S->used.count(x) && !S->failed.count(x)) viol("C18.identifier", "an instance of '%s' gets number %ld although %ld is free", type.c_str(), num, m); }
  if (bid != id) viol("C18.bus", "instance %s got the bus '%s'", id.c_str(), bid.c_str());
  if (!S->busses.insert((void*)b.get()).second) viol("C18.bus", "instance %s does not have a bus of its own", id.c_str());
  (failing ? S->failed : S->used).insert(id);
  S->creates.push_back(cr);
}

PluginInstance* probe_create(int k, PluginConfiguration c) {
  lib_alive(k, "creation");
  unusable_closed("when plugins are created");
  Inst* r; int cb;
  { Quiet q; r = new Inst; r->num = (int)S->inst.size(); r->lib = k; r->h = mix2(S->seed, (u64)r->num + 1000); r->id = c.mIdentifier; r->type = S->lib[k].id; S->inst.push_back(r); cb = S->calm ? 0 : (int)(r->h / 1024 % 10); if (tracing()) trace("create inst %d lib %d '%s' mode %d", r->num, k, r->id.c_str(), cb); }
  record_create(k, c, cb <= 1 && !S->calm);
  if (!S->calm && cb == 0) { r->null_created = true; count("probe.creation_returns_null"); return nullptr; }
  if (!S->calm && cb == 1) { r->threw = true; count("probe.creation_throws"); throw exceptions::OperationFailedException("create"); }
  return new Probe(c, r);
}
PluginTemplateInfo* probe_info(int k) {
  lib_alive(k, "description");
  int kind; std::string id; { Quiet q; kind = S->lib[k].kind; id = S->lib[k].id; }
  if (kind == 4) return nullptr;
  PluginTemplateInfo* i = new PluginTemplateInfo; if (kind != 5) i->mIdentifier = id; return i;
}
template <int N> struct F { static PluginInstance* create(PluginConfiguration c) { return probe_create(N, c); } static PluginTemplateInfo* info() { return probe_info(N); } };
template <int N> struct R { static PluginInstance* create(PluginConfiguration c) { lib_alive(N, "creation"); record_create(N, c, false); return S->lib[N].kind == 6 ? sysinfo_CreateInstance(c) : link_CreateInstance(c); } static PluginTemplateInfo* info() { return S->lib[N].kind == 6 ? sysinfo_CreateInfo() : link_CreateInfo(); } };
void* create_fn(int k, bool real) {
#define C(n) case n: return real ? (void*)R<n>::create : (void*)F<n>::create;
  switch (k) { C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) }
#undef C
  return nullptr;
}
void* info_fn(int k, bool real) {
#define C(n) case n: return real ? (void*)R<n>::info : (void*)F<n>::info;
  switch (k) { C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) }
#undef C
  return nullptr;
}

const char* const DIRS[] = {"/opt/lp", "/work", "/work/lib", "/plug", "/plug/sub dir"};

void gen(Plan& p, Rng& r) {
  const std::string& P = p.prop;
  p.p["exe_is_cwd"] = r.below(4) == 0;
  p.p["env"] = r.below(8) == 0 ? r.range(1, 3) : 0;           // 1 no cwd 2 no exe 3 neither
  p.p["paths"] = (long)r.below(16) | (r.below(4) ? 1 : 0);                           // which directories are configured: bit i
  p.p["calm"] = P == "C18" || P == "C17" ? r.below(2) : r.below(6) == 0;
  p.p["real"] = r.below(4) == 0 ? 1 + (long)r.below(3) : 0;
  int nl = r.range(1, P == "C17" ? 8 : 5);
  for (int i = 0; i < nl; ++i) { Op o; o.kind = LIB; static const long usual[] = {1, 2, 3, 1, 0}; o.a = r.below(6) ? usual[r.below(5)] : (long)r.below(5); o.b = (long)r.below(P == "C16" ? 12 : P == "C17" ? 8 : 12); if (o.b > 5) o.b = 0; o.c = (long)r.below(NIDS); o.d = (long)r.below(5); p.ops.push_back(o); }
  bool whole = p.scenario == "main"; p.p["whole"] = whole;
  int nf = (int)r.below(P == "C17" ? 6 : 3);
  for (int i = 0; i < nf; ++i) { Op o; o.kind = FILEOP; o.a = (long)r.below(5); o.b = (long)r.below(7); p.ops.push_back(o); }
  int nc = whole ? (r.below(6) ? 1 : 0) : r.range(1, 3);
  for (int f = 0; f < nc; ++f) {
    Op o; o.kind = CFG; o.a = r.below(4) ? 0 : (long)r.below(10); o.b = (long)r.below(10000); o.c = (long)r.below(4); if (o.a == 2 && P != "C18") o.a = 1; p.ops.push_back(o);
    int ne = r.below(4) ? r.range(1, 5) : r.range(0, 16);
    if (r.below(25) == 0) ne = r.range(11, 26);
    std::vector<long> have; for (auto& l : p.ops) if (l.kind == LIB) have.push_back(l.c);
    bool same = r.below(3) == 0; long st = have[r.below(have.size())];
    for (int i = 0; i < ne; ++i) { Op e; e.kind = ENTRY; e.a = f; int x = (int)r.below(12); e.b = x < 9 ? 0 : x - 8; e.c = same ? st : r.below(6) ? have[r.below(have.size())] : (long)r.below(NIDS + 3); e.d = (long)r.below(1 << 20); p.ops.push_back(e); }
  }
  p.p["faults"] = (long)r.below(3) ? 0 : 1 + (long)r.below(15);
  p.p["prate"] = (long)(r.below(2) ? 300 : 2000);
  static const long st[] = {0, 1, 10, 200, 1000, 20000, 100000, 150000, 400000, 1000000};
  p.p["stop"] = P == "C16" ? (r.below(2) ? st[r.below(10)] : -2 - (long)r.below(30)) : r.below(5) == 0 ? st[r.below(10)] : 2500000;
  p.p["nstop"] = r.below(4) == 0 ? 2 : 1;
  p.p["dtype"] = r.below(2);
  p.p["samename"] = r.below(3) == 0;
  if (whole) {
    p.p["exitsig"] = r.below(3);
    p.p["calm"] = r.below(2);
    if (r.below(2)) { static const int ps[] = {1, 3, 10, 50, 300, 3000}; p.knobs.p_sig = ps[r.below(6)]; p.knobs.sig_budget = 1 << r.below(4); }
    int ns = p.knobs.p_sig ? (int)r.below(3) : r.range(1, 5);
    for (int i = 0; i < ns; ++i) { Op o; o.kind = SIG; o.a = r.below(5) ? st[r.below(10)] : 2200000; o.b = (long)r.below(2); o.c = r.below(2) ? (long)r.below(12) : -1; o.d = r.below(4) ? 0 : (long)r.below(8); p.ops.push_back(o); }
  }
}

std::string lib_path(const Plan& p, const Op& o, int k) { std::string d = DIRS[o.a]; return d + (d == "/" ? "" : "/") + "libplugin_" + std::string(1, (char)('a' + o.d)) + std::to_string(k) + ".so"; }

void check(const Plan& p, const std::vector<std::string>& search, const std::vector<std::string>& files, bool early) {
  Quiet q;
  // ---- libraries -----------------------------------------------------------------------------------
  dl::final_check("after the end");
  unusable_closed("after the end");
  bool dirt = fs::fault_since_mark() && (p.get("faults") & 1);
  // which identifiers have to be available?
  std::map<std::string, int> avail;   // 1 may 2 must
  for (int i = 0; i < S->nlib; ++i) {
    LibRec& l = S->lib[i]; if (l.kind >= 1 && l.kind <= 5) continue;
    std::string dir = l.path.substr(0, l.path.rfind('/')); bool in = false; for (auto& s : search) if (s == dir) in = true;
    if (!in) continue;
    int a = dirt || dl::libs[l.dlidx]->fail_now ? 1 : 2;
    if (avail[l.id] < a) avail[l.id] = a;
    if (a == 2 && dl::libs[l.dlidx]->opens == 0) viol("C17.skipped", "the usable library %s was never opened", l.path.c_str());
  }
  // ---- configuration: the creations have to be the listed entries, in order ---------------------------
  std::vector<std::pair<int, int>> exp;   // entry, must?
  std::vector<int> skip_file(files.size(), 0);
  for (size_t f = 0; f < files.size(); ++f) { int ff = fs::file_fault(files[f]); if (ff & 1) skip_file[f] = 2; else if (ff & 2) skip_file[f] = 1; }
  std::vector<std::vector<std::pair<int, int>>> byfile(files.size());
  for (size_t i = 0; i < S->ents.size(); ++i) {
    Ent& e = S->ents[i]; int a = e.kind == 0 && avail.count(e.type) ? avail[e.type] : 0;
    if (!a || skip_file[e.file] == 2) continue;
    exp.push_back({(int)i, a == 2 && !early && !skip_file[e.file]});
  }
  size_t n = exp.size(), m = S->creates.size();
  // can[j] : the first j creations are explained by the entries looked at so far
  std::vector<char> can(m + 1, 0); can[0] = 1;
  size_t deepest = 0;
  for (size_t i = 0; i < n; ++i) {
    std::vector<char> nx(m + 1, 0);
    for (size_t j = 0; j <= m; ++j) if (can[j]) {
      if (!exp[i].second) nx[j] = 1;
      if (j < m) for (int x : S->creates[j].matches) if (x == exp[i].first) { nx[j + 1] = 1; if (j + 1 > deepest) deepest = j + 1; }
    }
    can = nx;
  }
  if (!can[m]) {
    for (const char* rule : {"C18.entries", "C17.entries"}) viol(rule, "the plugins created do not match the configuration: %d entries have to be started, %d plugins were created, of which the first %d can be explained", (int)n, (int)m, (int)deepest);
  }
  for (size_t f = 0; f < files.size(); ++f) if (skip_file[f]) count("probe.config_file_fault");
  // ---- instances ------------------------------------------------------------------------------------
  for (auto r : S->inst) {
    if (r->null_created || r->threw) { if (r->ninit || r->nrun || r->ndeinit) viol("C16.ghost", "an instance whose creation failed is used"); continue; }
    if (r->ndtor != 1) viol("C16.not-destroyed", "instance %s was destroyed %d times by the end", r->id.c_str(), r->ndtor);
    if (r->ndeinit != 1) viol("C16.deinit-count", "instance %s was deinitialised %d times by the end", r->id.c_str(), r->ndeinit);
    if (r->ninit != 1 && !early) { viol("C16.init-count", "instance %s was initialised %d times", r->id.c_str(), r->ninit); viol("C18.not-started", "instance %s was initialised %d times", r->id.c_str(), r->ninit); }
    if (!r->init_failed && r->ninit && r->nrun != 1) { viol("C16.run-count", "the worker of %s was run %d times", r->id.c_str(), r->nrun); viol("C18.not-started", "the worker of %s was run %d times", r->id.c_str(), r->nrun); }
    if (r->init_failed && r->nrun) viol("C16.run-after-failed-init", "the worker of %s was run although its initialisation failed", r->id.c_str());
    if (r->run_in && !r->run_out) viol("C16.worker-left", "the worker of %s never finished", r->id.c_str());
    count("instances");
  }
  for (size_t i = 1; i < S->inst.size(); ++i) { Inst* a = S->inst[i - 1]; Inst* b = S->inst[i]; if (a->init_out && b->ctor && a->init_out > b->ctor) viol("C18.order", "instance %s was created before %s was started", b->id.c_str(), a->id.c_str()); }
  u64 h = m * 64 + n; for (auto r : S->inst) h = h * 31 + (r->h / 8 % 7) + (r->h % 8) * 8; state(h); state(m * 1000 + n * 10 + (u64)early);
  count("entries", S->ents.size()); count("creations", m);
  if (open_threads() > 1) viol("C16.thread-left", "%d threads are still running after the end", open_threads() - 1);
}

void run_instance(const Plan& p, LampPostConfiguration conf) {
  std::shared_ptr<LampPost> host = std::make_shared<LampPost>(conf);
  long stop = p.get("stop"); int nstop = (int)p.get("nstop", 1);
  std::thread stopper([host, stop, nstop] {
    if (stop >= 0) std::this_thread::sleep_for(std::chrono::microseconds(stop));
    else for (int i = 0; i < 4000; ++i) {
      // right after a certain number of instances was started
      size_t n; bool over; { Quiet q; n = 0; for (auto r : S->inst) if (r->run_in || r->init_out || r->threw) ++n; over = now_us() > 1000000; }
      if ((long)n >= -1 - stop || over) break;
      if (i % 8) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(i < 800 ? 50 : 2000));
    }
    for (int i = 0; i < nstop; ++i) { { Quiet q; if (S->t_stop == ~0ull) S->t_stop = now_us(); S->stop_called = true; if (tracing()) trace("stop"); } host->Stop(); if (i + 1 < nstop) std::this_thread::sleep_for(std::chrono::milliseconds(3)); }
  });
  host->Start();
  {
    Quiet q; S->returned = true; S->t_ret = now_us(); if (tracing()) trace("Start returned");
    if (!S->stop_called) viol("C16.returned", "the program ended although nobody asked it to stop");
    for (auto r : S->inst) if (!r->null_created && !r->threw && r->ndeinit != 1) viol("C16.shutdown", "shutdown is complete but instance %s was deinitialised %d times", r->id.c_str(), r->ndeinit);
  }
  if (!host->IsStopped()) viol("C19.state", "the application has stopped but does not report it");
  stopper.join();
  host.reset();
}

// how long the plugins may take once they are asked to stop or while the program gets there
u64 plugin_time() {
  u64 sum = 0;
  for (auto& c : S->creates) sum += S->lib[c.lib].kind == 6 ? 2100000 : S->lib[c.lib].kind == 7 ? 300000 : 0;
  for (auto r : S->inst) {
    int bi = S->calm ? (int)(r->h % 2) : (int)(r->h % 8), br = S->calm ? 0 : (int)(r->h / 8 % 7);
    static const u64 t[] = {120, 120, 0, 300, 700, 150, 50};
    sum += (bi == 6 || bi == 7 ? 20000 : 0) + t[br] * 1000 + (bi == 5 ? 3 * 31000 : 0) + 25000;
  }
  return sum;
}

void run_whole(const Plan& p, const std::vector<std::string>& files) {
  also_prop("C16");
  char a0[] = "lamppost"; char* args[3] = {a0, nullptr, nullptr}; int argc = 1;
  { Quiet q; if (!files.empty()) { args[1] = strdup(files[0].c_str()); argc = 2; } }
  bool over = false;
  std::thread sender([&p, &over] {
    for (int i = 0;; ++i) {
      { Quiet q; if (over || (handled(SIGTERM) && handled(SIGINT))) break; if (now_us() > 5000000 + stall_us()) viol("C19.no-handler", "the program has not installed its signal handlers 5 s after its start"); }
      if (i < 50) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    for (auto& o : p.ops) if (o.kind == SIG) {
      if (o.d) for (int i = 0; i < 2000; ++i) {
        size_t n; bool late; { Quiet q; n = 0; for (auto r : S->inst) n += (r->init_in != 0) + (r->run_in != 0) + (r->deinit_in != 0); late = now_us() > 2000000 || over; }
        if ((long)n >= o.d || late) break;
        if (i % 4) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(100));
      }
      else if (o.a) std::this_thread::sleep_for(std::chrono::microseconds(o.a));
      else std::this_thread::yield();
      Quiet q; if (over) break; raise_signal(o.c >= 0 && o.c < threads() ? (int)o.c : -1, o.b ? SIGINT : SIGTERM); if (tracing()) trace("signal sent");
    }
    // whatever happened so far: in the end somebody asks it to stop
    for (int i = 0; i < 300; ++i) { { Quiet q; if (over || first_signal_us() != ~0ull) break; } std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
    Quiet q; if (!over && first_signal_us() == ~0ull) { raise_signal(0, SIGTERM); count("probe.final_signal"); }
  });
  std::thread watcher([&over] {
    for (int i = 0;; ++i) {
      { Quiet q; if (over) return; if (handled(SIGTERM) && handled(SIGINT)) break; }
      std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    for (int i = 0;; ++i) {
      { Quiet q; if (over) return; }
      bool st; { NoSched ns; st = lamppost->IsStopped(); }
      if (st) {
        Quiet q; if (!S->reported) { S->reported = true; if (tracing()) trace("reports itself stopped"); count("probe.seen_stopped"); }
        for (auto r : S->inst) if (!r->null_created && !r->threw && r->ndtor != 1) viol("C19.state", "the application reports itself stopped while plugin %s still exists", r->id.c_str());
        for (auto l : dl::libs) if (l->refs) viol("C19.state", "the application reports itself stopped while library %s is still open", l->path.c_str());
        if (first_signal_us() == ~0ull) viol("C19.state", "the application reports itself stopped although it never was asked to stop");
      }
      { Quiet q; u64 f = first_signal_us(), b = plugin_time(); if (f != ~0ull && now_us() > f + 30000000 + b + stall_us()) viol("C19.forgotten", "the program still runs %llu s after the first signal", (unsigned long long)(now_us() - f) / 1000000); }
      std::this_thread::sleep_for(std::chrono::microseconds(i % 8 ? 700 : 30000));
    }
  });
  int rc = -1;
  try { rc = lamppost_main(argc, args); } catch (...) { viol("C19.exit", "the program ends with an exception"); throw; }
  {
    Quiet q; over = true; S->returned = true; S->t_ret = now_us(); if (tracing()) trace("main returned");
    u64 f = first_signal_us();
    if (f == ~0ull) { viol("C19.returned", "the program ended although nobody asked it to stop"); f = now_us(); }
    if (rc != 0) viol("C19.exit", "the program ends with status %d after a stop signal", rc);
    u64 b = plugin_time();
    u64 took = now_us() - f, inj = stall_between(f, now_us());
    if (took > 105000 + b + inj) viol("C19.late", "the program took %llu ms to end after the first signal (plugins may take %llu ms, injected delays %llu ms)", (unsigned long long)took / 1000, (unsigned long long)b / 1000, (unsigned long long)inj / 1000);
    state(took / 1000 * 64 + S->inst.size());
    S->t_stop = f;
  }
  bool st = lamppost->IsStopped();
  if (!st) viol("C19.state", "the application has stopped but does not report it");
  // what leaving main means: the program's global objects are destroyed, and signals may still come
  typedef std::shared_ptr<LampPost> LP;
  sender.join(); watcher.join();
  if (p.get("exitsig") == 1) raise_signal(0, SIGTERM);
  lamppost.~LP();
  if (p.get("exitsig") == 2) { count("probe.signal_while_exiting"); raise_signal(0, SIGINT); point(); }
  Quiet q; signals_off();
}

void exec(const Plan& p) {
  new_world();
  std::vector<std::string> files, search; LampPostConfiguration* cfg; u64 t0 = now_us();
  {
    Quiet q;
    S = new St; S->inst.reserve(256); S->ents.reserve(256); set_prop(p.prop); out::install(); S->seed = p.seed; S->main_tid = tid(); S->calm = p.get("calm"); S->whole = p.get("whole");
    fs::enable(p.get("dtype")); net::enable();
    long env = p.get("env");
    std::string exe = p.get("exe_is_cwd") ? "/work" : "/opt/lp", cwd = "/work";
    fs::add("/work", fs::DIR_); fs::add(exe + "/lamppost", fs::FILE_, "ELF"); fs::add("/plug", fs::DIR_);
    fs::set_env(env & 1 ? "" : cwd, env & 2 ? "" : exe + "/lamppost");
    std::list<std::string> conf; for (int i = 0; i < 4 && !S->whole; ++i) if (p.get("paths") >> i & 1) { conf.push_back(i == 0 ? DIRS[3] : i == 1 ? DIRS[4] : i == 2 ? "/work" : "/not/there"); }
    for (auto& c : conf) search.push_back(c);
    if (!(env & 2)) search.push_back(exe);
    if (!(env & 1)) { search.push_back(cwd); search.push_back(cwd + "/lib"); }
    int k = 0;
    auto addlib = [&](int kind, const std::string& id, const std::string& path) {
      if (k >= MAXLIB || fs::exists(path)) return;
      LibRec& l = S->lib[k]; l.kind = kind; l.id = id; l.path = path; fs::add(path, fs::FILE_, "ELF");
      bool real = kind >= 6;
      l.dlidx = (int)dl::libs.size();
      dl::add(path, kind == 2 ? nullptr : info_fn(k, real), kind == 3 ? nullptr : create_fn(k, real), kind == 1);
      ++k;
    };
    std::vector<std::string> texts;
    std::vector<int> cut; std::vector<long> cutat; std::vector<long> style;
    long tok = 0;
    for (auto& o : p.ops) {
      if (o.kind == LIB) {
        std::string path = lib_path(p, o, k), same = path.substr(0, path.rfind('/') + 1) + "libplugin_same.so";
        if (p.get("samename") && !fs::exists(same)) { path = same; count("probe.libraries_of_the_same_name_elsewhere"); }
        addlib((int)o.b, IDS[o.c], path);
      }
      else if (o.kind == FILEOP) {
        std::string d = DIRS[o.a];
        static const char* names[] = {"libplugin_x.txt", "readme", "plugin_a.so", "libplugin_dir.so", "libplugin_garbage.so", "libplugin_pipe.so", "libplugin_dangling.so"};
        std::string f = d + "/" + names[o.b];
        if (!fs::exists(f)) fs::add(f, o.b == 3 ? fs::DIR_ : o.b == 5 ? fs::OTHER : o.b == 6 ? fs::DANGLING : fs::FILE_, "x");
      }
      else if (o.kind == CFG) { files.push_back("/etc/lp/conf" + std::to_string(files.size()) + ".json"); cut.push_back((int)o.a); cutat.push_back(o.b); style.push_back(o.c); texts.push_back(""); }
    }
    std::string real = S->whole ? env & 2 ? cwd : exe : "/plug";
    if (p.get("real") & 1) addlib(6, "SysInfo", real + "/libplugin_sysinfo.so");
    if (p.get("real") & 2) addlib(7, "Link", real + "/libplugin_link.so");
    if (p.get("real") && !S->whole) { bool in = false; for (auto& s : search) if (s == "/plug") in = true; if (!in) { conf.push_back("/plug"); search.push_back("/plug"); } }
    S->nlib = k;
    // the files: cut 1 missing 2 directory 3 unreadable 4 cut off 5 empty 6 not json 7 plugins not a list 8 no plugins key 9 top-level list
    for (size_t f = 0; f < files.size(); ++f) {
      std::string list; bool first = true; std::vector<Ent> es;
      for (auto& o : p.ops) if (o.kind == ENTRY && o.a == (long)f) {
        Ent e; e.file = (int)f; e.kind = (int)o.b; e.token = tok++; e.shape = (u64)o.d;
        long c = o.c; if (c >= NIDS) e.type = c == NIDS ? "Nope" : p.get("real") & (c == NIDS + 1 ? 1 : 2) ? (c == NIDS + 1 ? "SysInfo" : "Link") : IDS[0]; else e.type = IDS[c];
        if (e.type == "Link" || e.type == "SysInfo") e.shape = (e.shape / 12) * 12;
        std::string cj = cfg_json(e.shape, e.token);
        std::string conf1 = cj.empty() ? "" : "\"configuration\": " + cj;
        std::string t;
        switch (e.kind) {
          case 0: t = style[f] & 1 ? "{" + (cj.empty() ? "" : conf1 + ", ") + "\"type\": \"" + e.type + "\"}" : "{\"type\":\"" + e.type + "\"" + (cj.empty() ? "" : "," + conf1) + (style[f] & 2 ? ", \"comment\": \"x\"" : "") + "}"; break;
          case 1: t = "{" + conf1 + "}"; break;
          case 2: { static const char* v[] = {"42", "\"P\"", "[\"type\", \"P\"]", "null", "true"}; t = v[e.token % 5]; } break;
          case 3: { static const char* v[] = {"1", "[\"P\"]", "{\"type\": \"P\"}", "null", "true", "\"\"", "1.5"}; t = std::string("{\"type\": ") + v[e.token % 7] + (cj.empty() ? "" : ", " + conf1) + "}"; } break;
        }
        list += (first ? "" : ",\n") + t; first = false; es.push_back(e);
      }
      std::string text = style[f] & 1 ? "{\n  \"plugins\": [" + list + "]\n}" : "{\"name\": \"x\", \"plugins\": [\n" + list + "\n ], \"other\": {\"plugins\": []}}";
      int c = cut[f];
      if (c == 4) text = text.substr(0, (size_t)cutat[f] * text.size() / 10000);
      if (c == 5) text = ""; if (c == 6) text = "this is no JSON"; if (c == 7) text = "{\"plugins\": {\"type\": \"P\"}}"; if (c == 8) text = "{\"Plugins\": [" + list + "]}"; if (c == 9) text = "[" + list + "]";
      if (c != 1) fs::add(files[f], c == 2 ? fs::DIR_ : fs::FILE_, text);
      if (c == 3) fs::unreadable(files[f]);
      if (!c) for (auto& e : es) S->ents.push_back(e);
    }
    long fl = p.get("faults"); u32 pr = (u32)p.get("prate");
    fs::mark();
    if (fl & 1) { fs::faults.open_dir = pr; fs::faults.read_dir = pr / 4; fs::faults.stat = pr / 4; fs::faults.readlink = pr; fs::faults.cwd = pr; }
    if (fl & 2) { fs::faults.open_file = pr; fs::faults.eio = p.prop == "C18" ? pr / 2 : 0; }
    if (fl & 4 || !fl) { fs::faults.short_read = 4000; fs::faults.eintr = 2500; }
    if (S->whole) net::faults.term_signal = 2000;
    if (fl & 8) { dl::faults.open = pr; dl::faults.sym = pr; dl::faults.close = pr; }
    cfg = new LampPostConfiguration; cfg->mPluginManagerConfiguration.mTemplateSearchPaths = conf; for (auto& f : files) cfg->mConfigurationFiles.push_back(f);
  }
  if (S->whole) run_whole(p, files);
  else run_instance(p, *cfg);
  bool early; { Quiet q; early = t_stop() < t0 + 2000000 + stall_us(); if (p.get("stop") == 2500000 && !early) count("probe.late_stop"); else count("probe.early_stop"); }
  check(p, search, files, early);
  if (net::live_contexts()) fail("code-unmapped", "threads of the network library still run after the last plugin library was closed");
  net::final_check();
}
const Scenario SC = {"host", gen, exec};
RegScenario reg(&SC);
const Scenario SM = {"main", gen, exec};
RegScenario regm(&SM);
}
