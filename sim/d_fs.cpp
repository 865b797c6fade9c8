// The file system helpers against a simulated tree that other threads change meanwhile, with
// failing system calls.
#include "drv.h"
#include <lamppost/Filesystem.h>
#include <list>
using namespace sim;
using lp::Filesystem;
using lp::FilesystemObjectType;

namespace {
enum K { LIST = 1, QUERY, ENVQ, CHANGE, NAP };
enum Kind { NONE, FIL, DIRK, FIFO, DANGLE, LFILE, LDIR, NKIND };
const char* const NAMES[] = {"a", "b.so", "libplugin_a.so", "...", ".hidden", "sp ace", "new\nline", "\xff\xfe\x80", "A", "ab", "b", "c", "d", "e.txt", "f", "-rf", "*", "..x", "g", "h"};
const int NN = 21;   // the last one is as long as names get
std::string name_of(long i) { i %= NN; return i == NN - 1 ? std::string(255, 'n') : NAMES[i]; }
const char* const DS[] = {"/d", "/d/sub", "/e", "/work", "/empty"};
const int ND = 5;

struct Change { u64 s; int dir, name, was, is; };
struct St { long unread = 0; int cur[ND][NN] = {}; std::vector<Change> log; int nlists = 0; std::string cwd, exe; long nbig = 0; };
St* S;
bool isfile(int k) { return k == FIL || k == LFILE; }
bool isdir(int k) { return k == DIRK || k == LDIR; }
bool exists(int k) { return k != NONE && k != DANGLE; }
std::string path_of(int d, int n) { return std::string(DS[d]) + "/" + name_of(n); }
void put(int d, int n, int k) {
  Quiet q; std::string p = path_of(d, n);
  int was = S->cur[d][n]; if (was == k) return;
  if (was != NONE) fs::remove(p);
  switch (k) {
    case FIL: fs::add(p, fs::FILE_, "x"); if (S->unread && mix2((u64)S->unread, (u64)(d * 31 + n)) % 3 == 0) fs::unreadable_file(p); break; case DIRK: fs::add(p, fs::DIR_); break; case FIFO: fs::add(p, fs::OTHER); break;
    case DANGLE: fs::add(p, fs::LINK, "/nowhere/to be found"); break; case LFILE: fs::add(p, fs::LINK, "/t/file"); break; case LDIR: fs::add(p, fs::LINK, "/t/dir"); break;
  }
  S->cur[d][n] = k;
  S->log.push_back({seq(), d, n, was, k});
}
// all kinds this entry had between two moments
unsigned kinds(int d, int n, u64 from, u64 to) {
  unsigned m = 0; int k = S->cur[d][n];
  m |= 1u << k;
  for (size_t i = S->log.size(); i-- > 0;) { Change& c = S->log[i]; if (c.dir != d || c.name != n) continue; if (c.s > to) { m = 1u << c.was; continue; } if (c.s < from) break; m |= 1u << c.was; m |= 1u << c.is; }
  return m;
}
template <class F> unsigned sel(F f) { unsigned m = 0; for (int k = 0; k < NKIND; ++k) if (f(k)) m |= 1u << k; return m; }

void gen(Plan& p, Rng& r) {
  int na = r.range(1, 4); p.p["na"] = na;
  p.p["dtype"] = r.below(2);
  p.p["cwdlen"] = r.below(3) ? 0 : r.range(1000, 1040);
  p.p["exelen"] = r.below(3) ? 0 : r.range(1000, 1040);
  if (r.below(6) == 0) p.p["cwdlen"] = -1;
  if (r.below(6) == 0) p.p["exelen"] = -1;
  if (r.below(3) == 0) { static const long ls[] = {60, 120, 126, 127, 128, 129, 250, 254, 255, 256, 257, 300, 500, 510, 511, 512, 513, 700, 900, 990}; p.p["cwdlen"] = ls[r.below(20)]; p.p["exelen"] = ls[r.below(20)]; }
  if (r.below(4) == 0) { p.p["cwdlen"] = 1022 + (long)r.below(4); p.p["exelen"] = 1022 + (long)r.below(4); }
  p.p["rate"] = r.below(3) ? 0 : (long)(r.below(2) ? 300 : 2500);
  p.p["which"] = 1 + (long)r.below(31);
  p.p["oom"] = r.below(4) == 0;
  p.p["deny"] = r.below(4) == 0;
  int n0 = r.below(5) ? r.range(0, 40) : r.range(40, 90);
  for (int i = 0; i < n0; ++i) p.ops.push_back({0, CHANGE, (long)r.below(ND - 1), (long)r.below(NN), r.below(3) ? 1 + (long)r.below(2) : 1 + (long)r.below(NKIND - 1), 0});
  if (r.below(5) == 0) { static const long big[] = {30, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 1500}; p.p["big"] = big[r.below(r.below(4) ? 12 : 17)]; }
  bool still = r.below(3) == 0;
  if (r.below(3) == 0) p.p["unread"] = 1 + (long)r.below(1000);
  for (int a = 1; a <= na; ++a) {
    int n = r.range(1, 8); bool mut = !still && (int)r.below(na + 1) >= a;
    if (mut) n *= 4;
    for (int i = 0; i < n; ++i) {
      Op o; o.actor = a; int x = (int)r.below(10);
      o.kind = mut && x < 7 ? CHANGE : x < 5 ? LIST : x < 8 ? QUERY : x < 9 ? ENVQ : NAP;
      o.a = (long)r.below(o.kind == LIST ? ND + (p.get("big") ? 12 : 9) : ND); o.b = (long)r.below(NN); o.c = o.kind == CHANGE ? (long)r.below(NKIND) : 1 + (long)r.below(3);
      o.d = o.kind == CHANGE ? 0 : (long)r.below(5);
      if (o.kind == NAP) o.a = (long)r.below(4) * 300;
      if (o.kind == CHANGE && o.a == 4) o.a = 0;
      p.ops.push_back(o);
    }
  }
}

__attribute__((noinline)) void dirty_stack() { volatile char b[4096]; for (int i = 0; i < 4096; ++i) b[i] = 'X'; }

// a directory with many entries: every third one a directory, some neither
int big_kind(long i) { return i % 3 == 1 ? DIRK : i % 7 == 5 ? FIFO : i % 11 == 9 ? LFILE : FIL; }
// null when memory ran out during the call
std::list<std::string>* listing(const std::string& path, FilesystemObjectType f, int oom, std::list<std::string>* to) {
  bool failed = false;
  if (oom) arm_alloc_failure(oom);
  try { *to = Filesystem::GetDirectoryContents(path, f); }
  catch (std::bad_alloc&) { failed = true; if (!oom || !alloc_failure_fired()) { arm_alloc_failure(0); throw; } }
  if (oom) arm_alloc_failure(0);
  Quiet q; if (failed) count("probe.list_out_of_memory");
  return failed ? nullptr : to;
}
void list_big(long filter, int oom) {
  FilesystemObjectType f = filter == 1 ? FilesystemObjectType::File : filter == 2 ? FilesystemObjectType::Directory : FilesystemObjectType::Any;
  unsigned f0; { Quiet q; f0 = fs::fault_count(tid()); }
  std::string path = "/big";
  std::list<std::string> got; if (!listing(path, f, oom, &got)) return;
  std::vector<std::string> v; { NoSched ns; for (auto& x : got) { Quiet q; v.push_back(std::string(x.data(), x.size())); } }
  Quiet q; bool faulted = fs::fault_count(tid()) != f0; long nbig = S->nbig;
  std::vector<int> n(nbig, 0);
  for (auto& x : v) {
    if ((x == "." || x == "..") && filter & 2) continue;
    long i = x[0] == 'e' ? atol(x.c_str() + 1) : -1;
    if (i < 0 || i >= nbig || x != "e" + std::to_string(i)) { viol("C21.wrong-name", "listing '/big' gives '%s', which is not in there", x.c_str()); continue; }
    int k = big_kind(i); if (!((filter & 1 && isfile(k)) || (filter & 2 && isdir(k)))) viol("C21.wrong-kind", "listing '/big' (filter %ld) gives '%s', which is not of that kind", filter, x.c_str());
    if (++n[i] > 1) viol("C21.twice", "listing '/big' (filter %ld) gives '%s' twice", filter, x.c_str());
  }
  if (!faulted) for (long i = 0; i < nbig; ++i) { int k = big_kind(i); if (!n[i] && ((filter & 1 && isfile(k)) || (filter & 2 && isdir(k)))) viol("C21.missing", "listing '/big' with %ld entries (filter %ld) does not give 'e%ld'", nbig, filter, i); }
  count("lists"); count("probe.big_directory");
}

void list(long which, long filter, long style, int oom) {
  if (which >= ND + 9) { list_big(filter, oom); return; }
  // directories: known ones in several spellings, and paths that are no directories
  int d = -1; std::string path, shown;
  {
    Quiet q;
    if (which < ND) {
      d = (int)which; path = DS[d];
      if (style == 1) path += "/"; if (style == 2) path = "/t/.." + path; if (style == 3 && d == 3) path = "."; if (style == 4 && d == 3) path = "../work";
      if (S->cwd != "/work" && (style == 3 || style == 4) && d == 3) path = DS[d];
    } else { static const char* v[] = {"/missing", "/d/missing/deeper", "/t/file", "", "/t/dangling", "/locked", "/t/pipe", "/t/loop", "/t/file/x"}; path = v[(which - ND) % 9]; }
    shown = path;
  }
  FilesystemObjectType f = filter == 1 ? FilesystemObjectType::File : filter == 2 ? FilesystemObjectType::Directory : FilesystemObjectType::Any;
  u64 s0; unsigned f0; int op0; { Quiet q; s0 = seq(); f0 = fs::fault_count(tid()); op0 = fs::open_streams(); (void)op0; }
  std::list<std::string> got;
  try { if (!listing(path, f, oom, &got)) return; }
  catch (std::bad_alloc&) { throw; }
  catch (...) { viol("C21.failure", "listing '%s' ends with an exception", shown.c_str()); throw; }
  size_t ng = got.size(); (void)ng;
  std::vector<std::string> v; { NoSched ns; for (auto& x : got) { Quiet q; v.push_back(std::string(x.data(), x.size())); } }
  Quiet q;
  u64 s1 = seq(); bool faulted = fs::fault_count(tid()) != f0;
  count("lists"); S->nlists++;
  if (d < 0) { for (auto& x : v) viol("C21.wrong-name", "listing '%s', which is no readable directory, gives '%s'", shown.c_str(), x.c_str()); return; }
  unsigned files = sel(isfile), dirs = sel(isdir), want = (filter & 1 ? files : 0) | (filter & 2 ? dirs : 0);
  std::map<std::string, int> n; for (auto& x : v) n[x]++;
  for (int i = 0; i < NN; ++i) {
    std::string nm = name_of(i); unsigned k = kinds(d, i, s0, s1);
    int c = 0; auto it = n.find(nm); if (it != n.end()) { c = it->second; n.erase(it); }
    if (c && !(k & want)) viol("C21.wrong-kind", "listing '%s' (filter %ld) gives '%s', which is not of that kind", shown.c_str(), filter, nm.c_str());
    bool steady = (k & (k - 1)) == 0;
    if (c > 1 && steady) viol("C21.twice", "listing '%s' (filter %ld) gives '%s' %d times", shown.c_str(), filter, nm.c_str(), c);
    if (!c && steady && (k & want) && !faulted) viol("C21.missing", "listing '%s' (filter %ld) does not give '%s'", shown.c_str(), filter, nm.c_str());
    if (!steady) count("probe.entry_changed_during_list");
  }
  static const char* const sub[] = {"sub", "lib"};
  for (int i = 0; i < 2; ++i) {      // sub-directories that are part of the tree
    bool there = (d == 0 && i == 0) || (d == 3 && i == 1); auto it = n.find(sub[i]);
    int c = it == n.end() ? 0 : it->second; if (it != n.end()) n.erase(it);
    if (c > 1 || (c && !(there && filter & 2))) viol("C21.wrong-kind", "listing '%s' (filter %ld) gives '%s' %d times", shown.c_str(), filter, sub[i], c);
    if (there && filter & 2 && !c && !faulted) viol("C21.missing", "listing '%s' (filter %ld) does not give '%s'", shown.c_str(), filter, sub[i]);
  }
  for (auto& x : n) if (!((x.first == "." || x.first == "..") && filter & 2 && x.second == 1)) viol("C21.wrong-name", "listing '%s' gives '%s', which is not in there", shown.c_str(), x.first.c_str());
  if (faulted) count("probe.list_with_fault");
  state((u64)v.size() * 8 + (u64)filter + (faulted ? 4096 : 0));
}

void query(long d, long n, long what, long style) {
  std::string path; { Quiet q; path = path_of((int)d, (int)n % NN); if (style == 1) path = "/t/.." + path; if (style == 2 && d == 3 && S->cwd == "/work") path = name_of(n); }
  u64 s0; unsigned f0; { Quiet q; s0 = seq(); f0 = fs::fault_count(tid()); }
  bool r = what == 1 ? Filesystem::PathExists(path) : what == 2 ? Filesystem::IsFile(path) : Filesystem::IsDirectory(path);
  Quiet q; u64 s1 = seq(); unsigned k = kinds((int)d, (int)(n % NN), s0, s1); bool faulted = fs::fault_count(tid()) != f0;
  unsigned yes = what == 1 ? sel(exists) : what == 2 ? sel(isfile) : sel(isdir);
  static const char* const w[] = {"", "existence", "being a file", "being a directory"};
  if (r && !(k & yes)) viol("C21.query", "asking for %s of '%s' gives yes", w[what], path.c_str());
  if (!r && !(k & ~yes) && !faulted) viol("C21.query", "asking for %s of '%s' gives no", w[what], path.c_str());
  count("queries");
}

void envq(long what) {
  unsigned f0 = fs::fault_count(tid());
  dirty_stack();
  std::string r = what & 1 ? Filesystem::GetWorkingDirectory() : Filesystem::GetPathOfRunningExecutable();
  std::string x; { NoSched ns; Quiet q; x.assign(r.data(), r.size()); }
  Quiet q;
  const std::string& is = what & 1 ? S->cwd : S->exe; bool faulted = fs::fault_count(tid()) != f0;
  const char* nm = what & 1 ? "the working directory" : "the path of the executable";
  if (x != is && !x.empty()) viol("C21.environment", "%s is reported as '%.60s' (%zu bytes) but is '%.60s' (%zu bytes)", nm, x.c_str(), x.size(), is.c_str(), is.size());
  if (x.empty() && !is.empty() && !faulted && is.size() < 1000) viol("C21.environment", "%s is reported as unknown although it is '%.60s'", nm, is.c_str());
  count("environment_queries");
}

std::string long_path(const char* first, long len) { std::string s = first; while ((long)s.size() < len) s += (s.size() % 200 == 0) ? "/" : "p"; if (s[s.size() - 1] == '/') s[s.size() - 1] = 'q'; return s; }

void exec(const Plan& p) {
  {
    Quiet q;
    S = new St; S->log.reserve(4096); set_prop(p.prop); fs::enable(p.get("dtype"));
    for (auto d : DS) fs::add(d, fs::DIR_);
    fs::add("/t/file", fs::FILE_, "x"); fs::add("/t/dir/inner", fs::FILE_, "y"); fs::add("/t/pipe", fs::OTHER); fs::add("/t/dangling", fs::LINK, "/nowhere"); fs::add("/t/loop", fs::LINK, "/t/loop");
    fs::add("/work/lib", fs::DIR_); fs::add("/locked/x", fs::FILE_, "x"); fs::unreadable("/locked");
    S->unread = p.get("unread"); if (S->unread) fs::unreadable_file("/t/file");   // files that may not be read are there all the same
    S->nbig = p.get("big");
    for (long i = 0; i < S->nbig; ++i) { std::string e = "/big/e" + std::to_string(i); int k = big_kind(i); fs::add(e, k == DIRK ? fs::DIR_ : k == FIFO ? fs::OTHER : k == LFILE ? fs::LINK : fs::FILE_, k == LFILE ? "/t/file" : k == FIL ? "x" : ""); }
    long c = p.get("cwdlen"), e = p.get("exelen");
    S->cwd = c < 0 ? "" : c ? long_path("/w", c) : "/work"; S->exe = e < 0 ? "" : e ? long_path("/o", e) : "/opt/lp/lamppost";
    fs::set_env(S->cwd, S->exe);
    for (auto& o : p.ops) if (o.actor == 0 && o.kind == CHANGE) put((int)o.a, (int)(o.b % NN), (int)o.c);
    u32 r = (u32)p.get("rate"); long w = p.get("which");
    if (w & 1) fs::faults.open_dir = r; if (w & 2) fs::faults.read_dir = r / 3; if (w & 4) fs::faults.stat = r; if (w & 8) fs::faults.readlink = r; if (w & 16) fs::faults.cwd = r;
  }
  long na = p.get("na");
  std::vector<std::thread> th; { Quiet q; th.reserve(16); }
  for (long a = 1; a <= na; ++a) th.emplace_back([&p, a] {
    for (auto& o : p.ops) if (o.actor == a) switch (o.kind) {
      case LIST: list(o.a, o.c, o.d, p.get("oom") ? 1 + (int)o.b % 40 : 0); break;
      case QUERY: query(o.a, o.b, o.c, o.d); break;
      case ENVQ: envq(o.b); break;
      case CHANGE: put((int)o.a, (int)(o.b % NN), (int)o.c); { Quiet q; count("probe.tree_changed"); } point(); break;
      case NAP: std::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
    }
  });
  for (auto& t : th) t.join();
  Quiet q;
  if (fs::open_streams() != 0) viol("C21.handle", "%d of the %d directory handles opened were not closed", fs::open_streams(), fs::streams_opened());
}
const Scenario SC = {"fs", gen, exec};
RegScenario reg(&SC);
}
