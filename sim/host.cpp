// Host: generates plans from seeds, forks one process per simulated run, gates, minimises and
// replays violations. Never active inside a run.
#include "scen.h"
#include <cerrno>
#include <csignal>
#include <sys/syscall.h>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sched.h>
#include <set>
#include <regex>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace sim;

static std::vector<const Scenario*>& scens() { static std::vector<const Scenario*> v; return v; }
void register_scenario(const Scenario* s) { scens().push_back(s); }
const Scenario* find_scenario(const std::string& n) { for (auto s : scens()) if (n == s->name) return s; return nullptr; }

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

// ---- plans as text -----------------------------------------------------------------------
struct KnobRef { const char* n; int Knobs::*i; u32 Knobs::*u; };
static const KnobRef KN[] = {{"policy", &Knobs::policy, nullptr}, {"p_sync", nullptr, &Knobs::p_sync}, {"acc_gap", nullptr, &Knobs::acc_gap}, {"p_stall", nullptr, &Knobs::p_stall}, {"p_spur", nullptr, &Knobs::p_spur}, {"p_late", nullptr, &Knobs::p_late}, {"p_notify", nullptr, &Knobs::p_notify}, {"p_sig", nullptr, &Knobs::p_sig}, {"sig_budget", &Knobs::sig_budget, nullptr}, {"p_jump", nullptr, &Knobs::p_jump}, {"pct_gap", nullptr, &Knobs::pct_gap}, {"starve_tid", &Knobs::starve_tid, nullptr}};

std::string plan_text(const Plan& p, const Decision* dec, u32 n) {
  std::ostringstream o;
  o << "prop " << p.prop << "\nscenario " << p.scenario << "\nseed " << p.seed << "\n";
  for (auto& kv : p.p) o << "param " << kv.first << " " << kv.second << "\n";
  for (auto& k : KN) o << "knob " << k.n << " " << (k.i ? (long)(p.knobs.*k.i) : (long)(p.knobs.*k.u)) << "\n";
  for (auto& op : p.ops) o << "op " << op.actor << " " << op.kind << " " << op.a << " " << op.b << " " << op.c << " " << op.d << "\n";
  for (u32 i = 0; i < n; ++i) o << "dec t" << (dec[i].key >> 56) << " k" << ((dec[i].key >> 48) & 255) << " " << (dec[i].key & 0xffffffffffffull) << " " << dec[i].val << "\n";
  return o.str();
}
bool parse_plan(const std::string& text, Plan& p, std::vector<Decision>& dec, std::map<std::string, std::string>& meta) {
  std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string w; l >> w;
    if (w == "prop") l >> p.prop;
    else if (w == "scenario") l >> p.scenario;
    else if (w == "seed") l >> p.seed;
    else if (w == "param") { std::string k; long v; l >> k >> v; p.p[k] = v; }
    else if (w == "knob") { std::string k; long v; l >> k >> v; for (auto& r : KN) if (k == r.n) { if (r.i) p.knobs.*r.i = (int)v; else p.knobs.*r.u = (u32)v; } }
    else if (w == "op") { Op o; l >> o.actor >> o.kind >> o.a >> o.b >> o.c >> o.d; p.ops.push_back(o); }
    else if (w == "dec") { std::string t, k; u64 c, v; l >> t >> k >> c >> v; dec.push_back({(u64)atoi(t.c_str() + 1) << 56 | (u64)atoi(k.c_str() + 1) << 48 | c, v}); }
    else { std::string rest; std::getline(l, rest); if (!rest.empty() && rest[0] == ' ') rest.erase(0, 1); meta[w] = rest; }
  }
  return !p.scenario.empty();
}

void gen_knobs(Plan& plan, Rng& r, bool timing) {
  Knobs& k = plan.knobs;
  static const int pol[] = {0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4};
  k.policy = pol[r.below(12)];
  static const u32 ps[] = {50, 200, 500, 1500, 4000};
  k.p_sync = ps[r.below(5)];
  static const u32 gaps[] = {30, 100, 300, 1000, 4000, 20000};
  k.acc_gap = k.policy == 2 ? gaps[r.below(6)] : 0;
  k.pct_gap = k.policy >= 3 ? gaps[1 + r.below(5)] : 0;
  k.starve_tid = k.policy == 4 ? (int)r.below(8) : -1;
  if (timing) {
    if (r.below(4) == 0) { static const u32 st[] = {2, 5, 20, 60}; k.p_stall = st[r.below(4)]; }
    if (r.below(3) == 0) { static const u32 sp[] = {200, 1000, 5000}; k.p_spur = sp[r.below(3)]; }
    if (r.below(4) == 0) { static const u32 la[] = {100, 500, 2000}; k.p_late = la[r.below(3)]; }
    if (r.below(3) == 0) k.p_notify = 5000;
    if (r.below(4) == 0) k.p_jump = 1000;
  }
}

// ---- running one simulation ----------------------------------------------------------------
static Result* RES;
static void body(void* a) {
  ++g_quiet;
  const Plan* p = (const Plan*)a;
  const Scenario* s = find_scenario(p->scenario);
  --g_quiet;
  s->exec(*p);
  ++g_quiet;
}

static std::vector<Decision> g_dec;
static u64 g_runs = 0;
struct Out { u32 status; std::string rule, msg; u64 hash; };
// The kernel takes the memory of ended processes back in the background; wait for it when it lags behind.
static void real_sleep(long ms) { struct timespec t = {ms / 1000, ms % 1000 * 1000000}; syscall(SYS_nanosleep, &t, nullptr); }
static void breathe() {
  for (int i = 0; i < 200; ++i) {
    std::ifstream f("/proc/meminfo"); std::string w; u64 v = 0, total = 0, avail = 0;
    while (f >> w) { if (w == "MemTotal:") f >> total; else if (w == "MemAvailable:") { f >> avail; break; } (void)v; }
    if (!total || avail > total / 100 * 85) return;
    if (i >= 10 && avail > total / 3) return;      // somebody else uses it
    real_sleep(20);
  }
}
static Out simulate1(const Plan& p, u64 seed, const std::vector<Decision>* replay, bool trace) {
  if (++g_runs % 16 == 0) breathe();
  RES->status = 0; RES->rule[0] = 0; RES->msg[0] = 0; RES->n_dec = 0; RES->trace_len = 0; RES->n_counts = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(4); }
  if (pid == 0) { alarm(240); sim::run(RES, p.knobs, seed, replay ? replay->data() : nullptr, replay ? (u32)replay->size() : 0, replay != nullptr, trace, body, (void*)&p); _exit(4); }
  int st = 0;
  // the child limits its own processor time; the alarm only catches a simulator that sleeps for good
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (RES->status == 0) {
    RES->status = 4; strcpy(RES->rule, "harness");
    snprintf(RES->msg, sizeof(RES->msg), "run ended without a result: %s %d%s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? " (killed after 240 s)" : "");
  }
  Out o; o.status = RES->status; o.rule = RES->rule; o.msg = RES->msg; o.hash = RES->hash;
  if (RES->status == 4 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.hash = 9;      // ended from outside
  return o;
}
static Out simulate(const Plan& p, u64 seed, const std::vector<Decision>* replay, bool trace = false) {
  for (int i = 0;; ++i) {
    Out o = simulate1(p, seed, replay, trace);
    if (o.status != 4 || o.hash != 9 || i > 3) return o;
    real_sleep(1000); breathe();
  }
}

// ---- minimisation ------------------------------------------------------------------------------
static double g_deadline;
// tries to reproduce `rule` with this plan: the given decisions first, then fresh schedules
static bool reproduces(Plan& p, std::vector<Decision>& dec, const std::string& rule, int tries, u64 salt) {
  Out o = simulate(p, p.seed, &dec);
  if (o.status == 2 && o.rule == rule) return true;
  for (int i = 0; i < tries && now() < g_deadline; ++i) {
    u64 s = i == 0 ? p.seed : mix2(salt, i);
    o = simulate(p, s, nullptr);
    if (o.status == 2 && o.rule == rule && !RES->dec_overflow) {
      std::vector<Decision> d(RES->dec, RES->dec + RES->n_dec);
      Out o2 = simulate(p, p.seed, &d);
      if (o2.status == 2 && o2.rule == rule) { dec = d; return true; }
    }
  }
  return false;
}
static void minimise(Plan& p, std::vector<Decision>& dec, const std::string& rule, double secs) {
  g_deadline = now() + secs * 0.55;
  // operations
  size_t chunk = p.ops.size() / 2; if (!chunk) chunk = 1;
  u64 salt = 1;
  while (now() < g_deadline && !p.ops.empty()) {
    bool any = false;
    for (size_t i = 0; i < p.ops.size() && now() < g_deadline;) {
      Plan q = p; std::vector<Decision> d = dec;
      size_t e = i + chunk < q.ops.size() ? i + chunk : q.ops.size();
      q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
      if (reproduces(q, d, rule, 12, mix2(p.seed, ++salt))) { p = q; dec = d; any = true; } else i += chunk;
    }
    if (chunk == 1) { if (!any) break; } else chunk /= 2;
  }
  // decisions
  g_deadline = now() + secs * 0.45;
  chunk = dec.size() / 2; if (!chunk) chunk = 1;
  while (now() < g_deadline && !dec.empty()) {
    bool any = false;
    for (size_t i = 0; i < dec.size() && now() < g_deadline;) {
      std::vector<Decision> d = dec;
      size_t e = i + chunk < d.size() ? i + chunk : d.size();
      d.erase(d.begin() + i, d.begin() + e);
      Out o = simulate(p, p.seed, &d);
      if (o.status == 2 && o.rule == rule) { dec = d; any = true; } else i += chunk;
    }
    if (chunk == 1) { if (!any) break; } else chunk = chunk / 2;
  }
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
  return o + "\"";
}

static std::string opt(int argc, char** argv, const char* n, const char* def) { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1]; return def; }
static bool flag(int argc, char** argv, const char* n) { for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], n)) return true; return false; }
static bool exists(const std::string& p) { return !p.empty() && access(p.c_str(), F_OK) == 0; }

static void make_plan(Plan& p, const std::string& prop, const std::string& only, u64 seed) {
  p.prop = prop; p.seed = seed;
  Rng r(mix2(seed, 99));
  auto& uses = uses_of(prop);
  int tot = 0; for (auto& u : uses) tot += u.weight;
  int x = (int)r.below(tot);
  for (auto& u : uses) { if (x < u.weight) { p.scenario = u.scenario; break; } x -= u.weight; }
  if (!only.empty()) p.scenario = only;
  const Scenario* s = find_scenario(p.scenario);
  if (!s) { fprintf(stderr, "no scenario %s\n", p.scenario.c_str()); exit(4); }
  gen_knobs(p, r, true);
  s->gen(p, r);
}

static void write_file(const std::string& path, const std::string& s) { std::ofstream f(path); f << s; }

static int explore(int argc, char** argv) {
  std::string prop = opt(argc, argv, "--prop", ""), outf = opt(argc, argv, "--out", "/dev/stdout"), stop = opt(argc, argv, "--stop", ""), rpath = opt(argc, argv, "--replay-out", "replay.txt"), only = opt(argc, argv, "--scenario", "");
  u64 base = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 0);
  int shard = atoi(opt(argc, argv, "--shard", "0").c_str()), shards = atoi(opt(argc, argv, "--shards", "1").c_str());
  double secs = atof(opt(argc, argv, "--secs", "10").c_str());
  u64 maxruns = strtoull(opt(argc, argv, "--runs", "0").c_str(), nullptr, 0);
  double minsecs = atof(opt(argc, argv, "--min-secs", "45").c_str());
  bool det = !flag(argc, argv, "--no-det"); u64 det_every = strtoull(opt(argc, argv, "--det-every", "64").c_str(), nullptr, 0);
  std::vector<std::pair<std::string, std::regex>> known;       // findings that are recorded already
  for (int i = 2; i + 2 < argc; ++i) if (!strcmp(argv[i], "--known")) known.push_back({argv[i + 1], std::regex(argv[i + 2])});
  std::set<std::string> skip; { std::istringstream ss(opt(argc, argv, "--skip-rules", "")); std::string w; while (std::getline(ss, w, ',')) skip.insert(w); }
  double t0 = now();
  u64 runs = 0, caps = 0, skipped = 0, det_checked = 0, sim_us = 0, stall = 0, steps = 0, switches = 0, accesses = 0, decs = 0;
  std::map<std::string, u64> counts, perscen;
  std::set<u64> scheds;
  static u64 bits[256];
  std::vector<std::string> samples;
  int code = 0; std::string vrule, vmsg, herr; u64 vseed = 0;
  for (u64 i = shard;; i += shards) {
    if (maxruns ? runs >= maxruns : now() - t0 >= secs) break;
    if (exists(stop)) break;
    u64 seed = mix2(mix2(base, std::hash<std::string>()(prop)), i) >> 1;
    Plan p; make_plan(p, prop, only, seed);
    Out o = simulate(p, seed, nullptr);
    ++runs; perscen[p.scenario]++;
    sim_us += RES->sim_us; stall += RES->stall_us; steps += RES->steps; switches += RES->switches; accesses += RES->accesses; decs += RES->n_dec;
    if (RES->switches >= 4 && RES->accesses >= 1000) scheds.insert(RES->sched_hash);
    for (u32 k = 0; k < RES->n_counts; ++k) counts[RES->counts[k].name] += RES->counts[k].n;
    for (int k = 0; k < 256; ++k) bits[k] |= RES->state_bits[k];
    if (samples.size() < 3) samples.push_back("seed " + std::to_string(seed) + " scenario " + p.scenario + " ops " + std::to_string(p.ops.size()) + " policy " + std::to_string(p.knobs.policy) + " switches " + std::to_string(RES->switches) + " sim_ms " + std::to_string(RES->sim_us / 1000));
    if (o.status == 1) {
      // determinism: a sample of the runs is executed again and must be identical
      if (det && runs % det_every == 1 % det_every) {
        u64 h = o.hash; Out o2 = simulate(p, seed, nullptr); ++det_checked;
        if (o2.status != 1 || o2.hash != h) { code = 2; herr = "not deterministic: seed " + std::to_string(seed) + " scenario " + p.scenario; break; }
      }
      continue;
    }
    if (o.status == 3) { ++caps; continue; }
    if (o.status == 4) { code = 2; herr = "harness error in seed " + std::to_string(seed) + " scenario " + p.scenario + ": " + o.msg; break; }
    // a violation: gate it
    vrule = o.rule; vmsg = o.msg; vseed = seed;
    bool old = skip.count(vrule); for (auto& k : known) if (k.first == vrule && std::regex_search(vmsg, k.second)) old = true;
    if (old) { ++skipped; vrule.clear(); continue; }
    if (RES->dec_overflow) { ++caps; vrule.clear(); continue; }
    std::vector<Decision> dec(RES->dec, RES->dec + RES->n_dec);
    Out o2 = simulate(p, seed, nullptr);
    if (o2.status != 2 || o2.rule != o.rule || o2.hash != o.hash) { code = 2; herr = "violation " + o.rule + " of seed " + std::to_string(seed) + " did not repeat (" + o2.rule + "): " + o.msg; break; }
    Out o3 = simulate(p, seed, &dec);
    if (o3.status != 2 || o3.rule != o.rule) { code = 2; herr = "violation " + o.rule + " of seed " + std::to_string(seed) + " did not replay from its decisions (" + o3.rule + " " + o3.msg + "): " + o.msg; break; }
    if (!stop.empty()) write_file(stop, "x");
    size_t n0 = p.ops.size(), d0 = dec.size();
    auto text = [&](const Out& w) { return "lamppost-sim-replay 1\nrule " + w.rule + "\nhash " + std::to_string(w.hash) + "\nmessage " + w.msg + "\nminimised " + std::to_string(n0) + " -> " + std::to_string(p.ops.size()) + " operations, " + std::to_string(d0) + " -> " + std::to_string(dec.size()) + " decisions\n" + plan_text(p, dec.data(), (u32)dec.size()); };
    write_file(rpath + ".full", text(o3));
    minimise(p, dec, o.rule, minsecs);
    Out f = simulate(p, p.seed, &dec);
    if (f.status != 2 || f.rule != o.rule) { code = 2; herr = "minimised violation lost"; break; }
    vmsg = f.msg;
    write_file(rpath, text(f));
    code = 1;
    break;
  }
  std::ostringstream o;
  u64 st = 0; for (int k = 0; k < 256; ++k) st += __builtin_popcountll(bits[k]);
  o << "{\"code\":" << code << ",\"runs\":" << runs << ",\"caps\":" << caps << ",\"skipped\":" << skipped << ",\"secs\":" << now() - t0 << ",\"det_checked\":" << det_checked << ",\"total_sims\":" << g_runs << ",\"sim_us\":" << sim_us << ",\"stall_us\":" << stall << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"accesses\":" << accesses << ",\"decisions\":" << decs << ",\"states\":" << st;
  o << ",\"rule\":" << jstr(vrule) << ",\"msg\":" << jstr(vmsg) << ",\"vseed\":" << vseed << ",\"error\":" << jstr(herr) << ",\"replay\":" << jstr(code == 1 ? rpath : "");
  o << ",\"counts\":{"; bool first = true; for (auto& c : counts) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
  o << "},\"scenarios\":{"; first = true; for (auto& c : perscen) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
  o << "},\"samples\":["; first = true; for (auto& s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
  o << "],\"sched_hashes\":["; first = true; for (u64 h : scheds) { o << (first ? "" : ",") << h; first = false; }
  o << "],\"state_bits\":["; for (int k = 0; k < 256; ++k) o << (k ? "," : "") << bits[k];
  o << "]}\n";
  write_file(outf, o.str());
  return code;
}

static int replay(int argc, char** argv) {
  std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
  Plan p; std::vector<Decision> dec; std::map<std::string, std::string> meta;
  if (!parse_plan(ss.str(), p, dec, meta) || !find_scenario(p.scenario)) { fprintf(stderr, "bad replay file\n"); return 4; }
  bool tr = flag(argc, argv, "--trace");
  Out o = simulate(p, p.seed, &dec, tr);
  if (tr) fwrite(RES->trace, 1, RES->trace_len, stdout);
  printf("status %u\nrule %s\nhash %" PRIu64 "\nmessage %s\n", o.status, o.rule.c_str(), o.hash, o.msg.c_str());
  if (meta.count("rule")) { bool same = o.status == 2 && o.rule == meta["rule"] && std::to_string(o.hash) == meta["hash"]; printf("reproduced %s\n", same ? "exactly" : "NO"); return same ? 1 : 0; }
  return o.status == 1 ? 0 : (int)o.status;
}

// one seed, printed
static int one(int argc, char** argv) {
  Plan p; make_plan(p, opt(argc, argv, "--prop", "C01"), opt(argc, argv, "--scenario", ""), strtoull(opt(argc, argv, "--runseed", "1").c_str(), nullptr, 0));
  bool tr = flag(argc, argv, "--trace");
  Out o = simulate(p, p.seed, nullptr, tr);
  if (flag(argc, argv, "--plan")) printf("%s", plan_text(p, nullptr, 0).c_str());
  if (tr) fwrite(RES->trace, 1, RES->trace_len, stdout);
  printf("status %u rule %s hash %" PRIu64 " steps %llu switches %llu acc %llu sim_ms %llu dec %u\n%s\n", o.status, o.rule.c_str(), o.hash, (unsigned long long)RES->steps, (unsigned long long)RES->switches, (unsigned long long)RES->accesses, (unsigned long long)RES->sim_us / 1000, RES->n_dec, o.msg.c_str());
  for (u32 k = 0; k < RES->n_counts; ++k) printf("  %s %llu\n", RES->counts[k].name, (unsigned long long)RES->counts[k].n);
  return o.status == 1 ? 0 : (int)o.status;
}

// hashes of the first n runs of a property (compared between processes and shard counts)
static int hashes(int argc, char** argv) {
  std::string prop = opt(argc, argv, "--prop", "C01");
  u64 base = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 0), n = strtoull(opt(argc, argv, "--runs", "50").c_str(), nullptr, 0);
  for (u64 i = 0; i < n; ++i) {
    u64 seed = mix2(mix2(base, std::hash<std::string>()(prop)), i) >> 1;
    Plan p; make_plan(p, prop, opt(argc, argv, "--scenario", ""), seed);
    Out o = simulate(p, seed, nullptr);
    printf("%" PRIu64 " %s %u %s %" PRIu64 "\n", seed, p.scenario.c_str(), o.status, o.rule.c_str(), o.hash);
  }
  return 0;
}

// What the C++ library prepares on first use (character tables of the classic locale) is prepared before
// the first run, so that a run does not depend on what the host did before it.
static void warm_up() {
  auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
  for (int c = 1; c < 128; ++c) { (void)ct.widen((char)c); (void)ct.narrow((char)c, 0); }
  char a[] = "ab", b[2]; ct.widen(a, a + 2, b); ct.narrow(a, a + 2, 0, b);
  std::istringstream in("12 0x1f 1.5 w\nline\n"); int i; double d; std::string w; in >> i >> std::hex >> i >> d >> w; std::getline(in, w); std::getline(in, w);
  std::ostringstream o; o << 1 << ' ' << 1.5 << ' ' << std::hex << 255u << ' ' << true << (void*)&o << std::endl;
  (void)std::regex_search(o.str(), std::regex("[a-z]+"));
  time_t t = 0; struct tm tm; gmtime_r(&t, &tm); localtime_r(&t, &tm);
}

int main(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: simrun explore|replay|one|hashes ...\n"); return 4; }
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  cpu_set_t set;
  if (sched_getaffinity(0, sizeof(set), &set) == 0) {
    // all threads of a run take turns: one processor is enough and makes hand-over cheap
    int shard = atoi(opt(argc, argv, "--shard", "-1").c_str());
    std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &set)) cpus.push_back(i);
    int pick = cpus[(shard >= 0 ? shard : (int)(getpid() % cpus.size())) % cpus.size()];
    CPU_ZERO(&set); CPU_SET(pick, &set); sched_setaffinity(0, sizeof(set), &set);
  }
  warm_up();
  host_init();
  RES = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::string m = argv[1];
  if (m == "explore") return explore(argc, argv);
  if (m == "replay" && argc > 2) return replay(argc, argv);
  if (m == "one") return one(argc, argv);
  if (m == "hashes") return hashes(argc, argv);
  return 4;
}
