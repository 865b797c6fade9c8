// Simulated file system, dynamic loader and process environment.
#include "stubs.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace sim;

static char g_prop[16];
void set_prop(const std::string& p) { snprintf(g_prop, sizeof g_prop, "%s", p.c_str()); }
bool is_prop(const char* p) { return !strncmp(g_prop, p, 3); }
static const char* g_also = nullptr;
void also_prop(const char* p) { g_also = p; }
void viol(const char* rule, const char* fmt, ...) {
  Quiet q;
  char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (strncmp(rule, g_prop, 3) == 0 || (g_also && strncmp(rule, g_also, 3) == 0)) fail(rule, "%s", b);
  std::string n = std::string("foreign.") + rule;
  count(n.c_str());
  if (tracing()) trace("(other property) %s: %s", rule, b);
}

// =============================================================================================
namespace fs {
Faults faults;
struct Node { std::string name; Type type; std::string content; int parent = -1; std::vector<int> kids; bool gone = false, denied = false; int opened = 0, ffault = 0; };
static std::vector<Node*> nodes;
static bool g_on = false, g_dtype = false;
static std::string g_cwd, g_exe;
static bool g_fault = false;
static int g_streams = 0, g_streams_total = 0, g_open_files = 0;

void enable(bool t) { Quiet q; g_on = true; g_dtype = t; nodes.push_back(new Node{"", DIR_}); }
static int child(int d, const std::string& n) { for (int k : nodes[d]->kids) if (!nodes[k]->gone && nodes[k]->name == n) return k; return -1; }
static std::vector<std::string> split(const std::string& p) { std::vector<std::string> v; std::string c; for (char ch : p) { if (ch == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v; }
static int walk(const std::string& path, int* err, bool follow, int depth) {
  *err = ENOENT;
  if (path.empty()) return -1;
  if (depth > 8) { *err = ELOOP; return -1; }
  std::string p = path[0] == '/' ? path : g_cwd + "/" + path;
  int n = 0;
  auto v = split(p); bool slash = p[p.size() - 1] == '/';
  for (size_t i = 0; i < v.size(); ++i) {
    auto& c = v[i];
    if (nodes[n]->type != DIR_) { *err = ENOTDIR; return -1; }
    if (c.size() > 255) { *err = ENAMETOOLONG; return -1; }
    if (c == ".") continue;
    if (c == "..") { if (nodes[n]->parent >= 0) n = nodes[n]->parent; continue; }
    n = child(n, c);
    if (n < 0) { *err = ENOENT; return -1; }
    if (nodes[n]->type == LINK && (follow || i + 1 < v.size() || slash)) { n = walk(nodes[n]->content, err, true, depth + 1); if (n < 0) return -1; }
  }
  if (slash && nodes[n]->type != DIR_) { *err = ENOTDIR; return -1; }
  return n;
}
static int lookup(const std::string& path, int* err, bool follow = true) { return walk(path, err, follow, 0); }
static unsigned g_tfaults[256], g_tcalls[256];
unsigned fault_count(int t) { return g_tfaults[t & 255]; }
unsigned calls(int t) { return g_tcalls[t & 255]; }
int add(const std::string& path, Type t, const std::string& content) {
  Quiet q;
  int n = 0; auto v = split(path);
  for (size_t i = 0; i < v.size(); ++i) {
    int k = child(n, v[i]);
    bool last = i + 1 == v.size();
    if (k < 0) { Node* x = new Node{v[i], last ? t : DIR_}; x->parent = n; k = (int)nodes.size(); nodes.push_back(x); nodes[n]->kids.push_back(k); }
    n = k;
  }
  nodes[n]->type = t; nodes[n]->content = content;
  return n;
}
void remove(const std::string& path) { Quiet q; int e; int n = lookup(path, &e, false); if (n > 0) nodes[n]->gone = true; }
void unreadable(const std::string& path) { Quiet q; int e; int n = lookup(path, &e); if (n >= 0) nodes[n]->denied = true; }
void unreadable_file(const std::string& path) { Quiet q; int e; int n = lookup(path, &e); if (n >= 0 && nodes[n]->type == FILE_) nodes[n]->denied = true; }
bool exists(const std::string& path) { Quiet q; int e; return lookup(path, &e) >= 0; }
void set_env(const std::string& c, const std::string& e) { Quiet q; g_cwd = c; g_exe = e; }
int open_streams() { return g_streams; }
int streams_opened() { return g_streams_total; }
int open_files() { return g_open_files; }
void mark() { g_fault = false; }
bool fault_since_mark() { return g_fault; }
int file_fault(const std::string& p) { Quiet q; int e; int n = lookup(p, &e); return n < 0 ? 0 : nodes[n]->ffault; }
int files_opened(const std::string& p) { Quiet q; int e; int n = lookup(p, &e); return n < 0 ? 0 : nodes[n]->opened; }
static bool fault(u32 p, const char* name) { ++g_tcalls[tid() & 255]; if (choose(K_FS, p, 2)) { g_fault = true; ++g_tfaults[tid() & 255]; std::string n = std::string("fault.fs_") + name; count(n.c_str()); return true; } return false; }
struct Dir { u32 magic; int node; size_t pos; dirent* cur; u32 owner; };
static void pt() { if (g_quiet > 1 || g_nosched) return; Loud l; point(); }
}  // namespace fs
using namespace fs;

static int fill_stat(int n, struct stat* st) {
  memset(st, 0, sizeof *st);
  static const mode_t m[] = {S_IFREG | 0644, S_IFDIR | 0755, S_IFIFO | 0644, S_IFLNK | 0777, S_IFLNK | 0777};
  st->st_mode = m[nodes[n]->type]; st->st_size = (off_t)nodes[n]->content.size(); st->st_nlink = 1; st->st_ino = n + 1;
  return 0;
}
extern "C" {
int sim_stat(const char* path, struct stat* st) {
  if (!g_on) return ::stat(path, st);
  Quiet q; pt();
  { std::string p(path); int e; int n = lookup(p, &e);
    if (n < 0 || nodes[n]->type == DANGLING) { errno = n < 0 ? e : ENOENT; return -1; }
    if (fault(faults.stat, "stat")) { static const int es[] = {EIO, EACCES, ENOMEM}; errno = es[n % 3]; return -1; }
    check_range(st, sizeof *st, true, "(stat)");
    return fill_stat(n, st); }
}
int sim_lstat(const char* path, struct stat* st) {
  if (!g_on) return ::lstat(path, st);
  Quiet q; pt();
  int e; int n = lookup(path, &e, false);
  if (n < 0) { errno = e; return -1; }
  if (fault(faults.stat, "stat")) { errno = EIO; return -1; }
  fill_stat(n, st); if (nodes[n]->type == DANGLING) st->st_mode = S_IFLNK | 0777;
  return 0;
}
int sim_access(const char* path, int mode) {
  if (!g_on) return ::access(path, mode);
  Quiet q; pt();
  int e; int n = lookup(path, &e);
  if (n < 0 || nodes[n]->type == DANGLING) { errno = n < 0 ? e : ENOENT; return -1; }
  if (fault(faults.stat, "access")) { errno = EIO; return -1; }
  if ((mode & (R_OK | W_OK | X_OK)) && nodes[n]->denied) { errno = EACCES; return -1; }
  return 0;
}
DIR* sim_opendir(const char* path) {
  if (!g_on) return ::opendir(path);
  Quiet q; pt();
  int e; int n = lookup(path, &e);
  if (n < 0) { errno = e; return nullptr; }
  if (nodes[n]->type != DIR_) { errno = nodes[n]->type == DANGLING ? ENOENT : ENOTDIR; return nullptr; }
  if (nodes[n]->denied) { errno = EACCES; return nullptr; }
  if (fault(faults.open_dir, "opendir")) { static const int es[] = {EMFILE, ENFILE, ENOMEM, EACCES}; errno = es[n % 4]; return nullptr; }
  Dir* d = new Dir{0x444952u, n, 0, nullptr, (u32)tid()};
  ++g_streams; ++g_streams_total;
  return (DIR*)d;
}
static Dir* chk(DIR* x, const char* op) {
  Dir* d = (Dir*)x;
  if (!d) { viol("C21.handle", "%s of a null directory handle", op); fail("crash", "%s of a null directory handle", op); }
  if (d->magic != 0x444952u) { viol("C21.handle", "%s of a directory handle that was already closed", op); fail("use-after-free", "%s of a closed directory handle", op); }
  return d;
}
struct dirent* sim_readdir(DIR* x) {
  if (!g_on) return ::readdir(x);
  Quiet q; pt();
  Dir* d = chk(x, "readdir");
  if (fault(faults.read_dir, "readdir")) { errno = EIO; return nullptr; }
  Node* dn = nodes[d->node];
  std::string name; int t = DT_DIR; ino_t ino = 1;
  while (d->pos < dn->kids.size() + 2) {
    size_t i = d->pos++;
    if (i < 2) { name = i ? ".." : "."; break; }
    Node* k = nodes[dn->kids[i - 2]];
    if (k->gone) continue;
    name = k->name; static const int ty[] = {DT_REG, DT_DIR, DT_FIFO, DT_LNK, DT_LNK}; t = ty[k->type]; ino = dn->kids[i - 2] + 1;
    break;
  }
  if (name.empty()) return nullptr;
  if (d->cur) arena_free(d->cur);       // the previous entry is no longer valid
  d->cur = (dirent*)arena_alloc(sizeof(dirent));
  memset((void*)d->cur, 0, sizeof(dirent));
  d->cur->d_ino = ino; d->cur->d_type = g_dtype ? t : DT_UNKNOWN; d->cur->d_reclen = sizeof(dirent);
  snprintf(d->cur->d_name, sizeof d->cur->d_name, "%s", name.c_str());
  return d->cur;
}
void sim_rewinddir(DIR* x) { if (!g_on) { ::rewinddir(x); return; } Quiet q; chk(x, "rewinddir")->pos = 0; }
int sim_closedir(DIR* x) {
  if (!g_on) return ::closedir(x);
  Quiet q; pt();
  Dir* d = chk(x, "closedir");
  if (d->cur) arena_free(d->cur);
  d->cur = nullptr; d->magic = 0;        // never reused: a second close is recognised
  --g_streams;
  return 0;
}
ssize_t sim_readlink(const char* path, char* b, size_t n) {
  if (!g_on) return ::readlink(path, b, n);
  Quiet q; pt();
  std::string p(path);
  if (p != "/proc/4242/exe" && p != "/proc/self/exe") { int e; int k = lookup(p, &e); errno = k < 0 ? e : EINVAL; return -1; }
  if (g_exe.empty()) { errno = ENOENT; return -1; }
  if (fault(faults.readlink, "readlink")) { errno = EACCES; return -1; }
  size_t k = g_exe.size() < n ? g_exe.size() : n;
  check_range(b, k, true, "(readlink)");
  memcpy(b, g_exe.data(), k);
  return (ssize_t)k;
}
char* sim_realpath(const char* path, char* out) {
  if (!g_on) return ::realpath(path, out);
  Quiet q; pt();
  std::string p(path), r;
  if (p == "/proc/4242/exe" || p == "/proc/self/exe") { if (g_exe.empty() || fault(faults.readlink, "readlink")) { errno = EACCES; return nullptr; } r = g_exe; }
  else { int e; int n = lookup(p, &e); if (n < 0) { errno = e; return nullptr; } while (n > 0) { r = "/" + nodes[n]->name + r; n = nodes[n]->parent; } if (r.empty()) r = "/"; }
  if (!out) { out = (char*)malloc(r.size() + 1); }
  strcpy(out, r.c_str()); return out;
}
char* sim_getcwd(char* b, size_t n) {
  if (!g_on) return ::getcwd(b, n);
  Quiet q; pt();
  if (g_cwd.empty()) { errno = ENOENT; return nullptr; }
  if (fault(faults.cwd, "getcwd")) { errno = EACCES; return nullptr; }
  if (!b) { if (!n) n = g_cwd.size() + 1; b = (char*)malloc(n); }
  if (g_cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
  check_range(b, g_cwd.size() + 1, true, "(getcwd)");
  memcpy(b, g_cwd.c_str(), g_cwd.size() + 1);
  return b;
}
pid_t sim_getpid() { return g_on ? 4242 : ::getpid(); }

// ---- regular files: reached through libstdc++'s file streams -----------------------------------
static int g_memfd[32]; static int g_nmemfd = 0; static std::string* g_fdpath[32]; static bool g_fddir[32]; static int g_fdnode[32];
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* do_fopen(const char* path, const char* mode, const char* real) {
  if (!active() || !g_on || tid() < 0) { fopen_t f = (fopen_t)dlsym(RTLD_NEXT, real); return f(path, mode); }
  if (!g_quiet) { Quiet q; pt(); }
  Quiet q;
  if (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')) { errno = EROFS; return nullptr; }
  int e; int n = lookup(path, &e);
  if (n < 0) { errno = e; return nullptr; }
  nodes[n]->opened++;
  if (nodes[n]->type == DANGLING) { errno = ENOENT; return nullptr; }
  if (nodes[n]->type == OTHER) { errno = ENXIO; return nullptr; }
  if (nodes[n]->denied) { errno = EACCES; return nullptr; }
  if (fault(faults.open_file, "open")) { nodes[n]->ffault |= 1; static const int es[] = {EMFILE, EACCES, EIO, ENFILE}; errno = es[n % 4]; return nullptr; }
  int fd = (int)syscall(SYS_memfd_create, "sim", 0);
  if (fd < 0 || g_nmemfd >= 32) harness_error("memfd");
  const std::string& c = nodes[n]->content;
  if (c.size() && ::write(fd, c.data(), c.size()) != (ssize_t)c.size()) harness_error("memfd write");
  lseek(fd, 0, SEEK_SET);
  g_memfd[g_nmemfd] = fd; g_fddir[g_nmemfd] = nodes[n]->type == DIR_; g_fdnode[g_nmemfd] = n; g_fdpath[g_nmemfd++] = new std::string(path);
  return fdopen(fd, mode);
}
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m, "fopen64"); }
ssize_t read(int fd, void* b, size_t n) {
  if (active() && tid() >= 0 && g_nmemfd) for (int i = g_nmemfd; i-- > 0;) if (g_memfd[i] == fd) {
    if (!g_quiet) { Quiet q; pt(); }
    Quiet q;
    if (g_fddir[i]) { errno = EISDIR; return -1; }
    // interrupted and short reads never lose data; a failed read ends the file
    if (choose(K_FS, faults.eintr, 2)) { count("fault.fs_eintr"); errno = EINTR; return -1; }
    if (fault(faults.eio, "eio")) { nodes[g_fdnode[i]]->ffault |= 2; errno = EIO; return -1; }
    if (n > 1) { u64 s = choose(K_FS, faults.short_read, 64); if (s && s < n) { count("fault.fs_short_read"); n = s; } }
    break;
  }
  return syscall(SYS_read, fd, b, n);
}

// ---- process control --------------------------------------------------------------------------
int sim_sigaction(int s, const struct sigaction* a, struct sigaction* old) {
  Quiet q; pt();
  if (old) memset(old, 0, sizeof *old);
  if (a) set_handler(s, a->sa_handler == SIG_DFL ? nullptr : a->sa_handler, a->sa_flags & SA_RESETHAND);
  return 0;
}
void (*sim_signal(int s, void (*h)(int)))(int) { Quiet q; set_handler(s, h); return SIG_DFL; }
int sim_raise(int s) { raise_signal(tid(), s); { Quiet q; pt(); } return 0; }
int sim_kill(pid_t, int s) { raise_signal(-1, s); return 0; }
void sim_exit(int c) { fail("exit-called", "the program called exit(%d) on its own", c); }
void sim__exit(int c) { fail("exit-called", "the program called _exit(%d) on its own", c); }
void sim_quick_exit(int c) { fail("exit-called", "the program called quick_exit(%d) on its own", c); }
}

// =============================================================================================
namespace dl {
std::vector<Lib*> libs;
Faults faults;
static const char* g_err = nullptr;
Lib* add(const std::string& path, void* i, void* n, bool broken) { Quiet q; Lib* l = new Lib; l->path = path; l->create_info = i; l->create_instance = n; l->broken = broken; libs.push_back(l); return l; }
bool mapped(int i) { return libs[i]->refs > 0; }
void final_check(const char* where) {
  Quiet q;
  for (auto l : libs) if (l->refs != 0) viol("C17.balance", "%s: library %s was opened %d times and closed %d times", where, l->path.c_str(), l->opens, l->closes);
}
}
extern "C" {
void* sim_dlopen(const char* path, int) {
  Quiet q; pt();
  std::string p(path);
  for (auto l : dl::libs) if (l->path == p) {
    if (l->broken || choose(K_DL, dl::faults.open, 2)) { if (!l->broken) count("fault.dlopen"); dl::g_err = "cannot open"; l->fail_now = true; return nullptr; }
    l->refs++; l->opens++;
    if (tracing()) trace("dlopen %s -> %d", path, l->refs);
    return l;
  }
  dl::g_err = "invalid ELF header";
  return nullptr;
}
static dl::Lib* libchk(void* h, const char* op) {
  for (auto l : dl::libs) if (l == h) {
    if (l->refs <= 0) { viol("C17.closed", "%s on library %s, which is not open any more (opened %d times, closed %d times)", op, l->path.c_str(), l->opens, l->closes); fail("use-after-free", "%s on closed library %s", op, l->path.c_str()); }
    return l;
  }
  viol("C17.closed", "%s on a handle that dlopen never returned", op);
  fail("crash", "%s on a handle that dlopen never returned", op);
}
void* sim_dlsym(void* h, const char* name) {
  Quiet q; pt();
  dl::Lib* l = libchk(h, "dlsym");
  if (choose(K_DL, dl::faults.sym, 2)) { count("fault.dlsym"); l->fail_now = true; dl::g_err = "undefined symbol"; return nullptr; }
  void* r = !strcmp(name, "CreateInfo") ? l->create_info : !strcmp(name, "CreateInstance") ? l->create_instance : nullptr;
  if (!r) dl::g_err = "undefined symbol";
  return r;
}
int sim_dlclose(void* h) {
  Quiet q; pt();
  dl::Lib* l = libchk(h, "dlclose");
  l->closes++; l->refs--;
  if (tracing()) trace("dlclose %s -> %d", l->path.c_str(), l->refs);
  if (choose(K_DL, dl::faults.close, 2)) { count("fault.dlclose"); dl::g_err = "cannot close"; return -1; }
  return 0;
}
char* sim_dlerror() { char* e = (char*)dl::g_err; dl::g_err = nullptr; return e; }
}

// =============================================================================================
#include <iostream>
#include <streambuf>
namespace out {
u32 p_fail = 0;
static std::string* g_text;
static bool g_failed = false;
static size_t g_fail_at = ~(size_t)0;
static void note_fail() { count("fault.output_error"); if (!g_failed) { g_failed = true; g_fail_at = g_text->size(); } }
size_t fail_at() { return g_fail_at; }
// Standard output: other threads can come in between any two operations on it, but not within one (the C
// library locks its stream). The device behind it takes the characters in pieces and can fail.
struct Buf : std::streambuf {
  void pt() { if (!g_quiet) { Quiet q; Loud l; point(); } }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (!active()) return n;
    pt();
    Quiet q;
    std::streamsize done = 0;
    while (done < n) {
      if (choose(K_OUT, p_fail, 2)) { note_fail(); return done; }
      std::streamsize k = n - done;
      if (k > 1) { u64 c = choose(K_OUT, 300, (u64)(k < 40 ? k : 40)); if (c) k = (std::streamsize)c; }
      g_text->append(s + done, (size_t)k);
      done += k;
    }
    return n;
  }
  int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : EOF; }
  int sync() override { if (!active()) return 0; pt(); Quiet q; if (choose(K_OUT, p_fail, 2)) { note_fail(); return -1; } return 0; }
};
void install() { Quiet q; g_text = new std::string; static Buf* b = new Buf; std::cout.rdbuf(b); std::cout.clear(); std::cerr.rdbuf(b); }
const std::string& text() { return *g_text; }
bool failed() { return g_failed; }
}
