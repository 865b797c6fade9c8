// Simulator core. Built WITHOUT instrumentation; everything else is built with
// -fsanitize=thread but linked against the __tsan_* entry points defined here.
#include "core.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define INLINE static inline __attribute__((always_inline))
#define NOINLINE __attribute__((noinline))
#define CALLER ((uptr)__builtin_return_address(0))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" char __data_start, _end;

namespace sim {

typedef uintptr_t uptr;

// ---- layout --------------------------------------------------------------------------
enum : uptr {
  ARENA_BASE = 0x100000000000ull, ARENA_SIZE = 1ull << 30,
  STACK_BASE = 0x110000000000ull, STACK_SIZE = 8ull << 20,
  CELL_ARENA = 0x200000000000ull, INFO_ARENA = 0x210000000000ull,
  CELL_STACK = 0x220000000000ull, INFO_STACK = 0x230000000000ull,
  CELL_GLOB = 0x240000000000ull, INFO_GLOB = 0x250000000000ull,
  ASHADOW = 0x260000000000ull,
};
static const int NT = 96;
static const uptr STACKS_SIZE = STACK_SIZE * NT;

enum State { S_NONE, S_RUN, S_BLOCK, S_STALL, S_DONE };

static const int SSTK = 4096;

struct Thread {
  int id;
  volatile int go;
  State state;
  void* wait_obj;
  const char* wait_what;
  u64 wait_gen;
  bool timed_out, woken, interrupted;
  int saved_quiet, saved_nosched;
  uptr sp;
  u32 vc[NT];
  u32 frel[NT]; bool has_frel;
  u32 facq[NT]; bool has_facq;
  u64 ctr[K_MAX];
  u64 acc, next_stop, next_draw, acc_at_switch;
  u32 rep_pos, rep_end;        // window of K_ACC decisions in replay
  u32 prio;
  int in_sig, in_alloc, sig_in_alloc;
  int pending[16]; int npending;
  int arm_nth; bool arm_fired;
  void* (*fn)(void*); void* arg; void* ret;
  pthread_t pth;
  int joiner;
  bool detached;
  uptr spc[SSTK]; int sdepth;
  void* futex_addr;
  char* altstack;
};

struct Ev { u64 t, seq; int kind; Thread* th; u64 gen; void (*fn)(void*, u64); void* arg; u64 a; };

struct Mtx { int owner; int count; int readers; u32 vc[NT]; u32 rvc[NT]; };
struct Cnd { int n; int w[NT]; };
struct SV { u64 addr; u32 vc[NT]; };

int g_quiet = 1;
int g_nosched = 0;
static bool g_active = false;
static Thread* T[NT];
static int nthreads = 0;
static Thread* cur = nullptr;
static Result* R = nullptr;
static Knobs K;
static Rng rng;
static bool g_replay = false, g_want_trace = false, g_ending = false;
static u64 g_now = 0, g_seq = 0, g_stall = 0;
static int64_t g_wall_off = 0;
static u64 g_cap_us = 600ull * 1000000;
static u64 g_cap_steps = 80ull * 1000000;
static u64 g_total_acc = 0;              // tracked accesses of the run up to the last switch
static const u64 ACC_CAP = 350000000;   // no run on the unchanged code comes near (see DESIGN.md)
static bool g_faults = true;

static Ev* heap = nullptr; static int nheap = 0, capheap = 0; static u64 evseq = 0;

static Mtx** mtx = nullptr; static int nmtx = 0, capmtx = 0;
static Cnd** cnd = nullptr; static int ncnd = 0, capcnd = 0;

static SV** svtab = nullptr; static u64 svcap = 0, svn = 0;
static char* svchunk = nullptr; static size_t svleft = 0;

static uptr arena_top = 0; static u64 alloc_seq = 0;
static uptr glob_lo, glob_hi;

static const Decision* rep = nullptr; static u32 nrep = 0;
static u32* rephash = nullptr; static u32 rephcap = 0;

// ---- real functions -------------------------------------------------------------------
template <class F> static F realfn(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) \
  typedef ret (*name##_fp)(__VA_ARGS__); \
  static name##_fp real_##name() { static name##_fp f = nullptr; if (!f) f = realfn<name##_fp>(#name); return f; }
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, clock_gettime, clockid_t, struct timespec*)
REAL(int, gettimeofday, struct timeval*, void*)
REAL(time_t, time, time_t*)
REAL(int, nanosleep, const struct timespec*, struct timespec*)
REAL(int, sched_yield, void)
REAL(int, sigaction, int, const struct sigaction*, struct sigaction*)

// ---- small helpers --------------------------------------------------------------------
INLINE void zero(void* p, size_t n) { char* c = (char*)p; __asm__ volatile("rep stosb" : "+D"(c), "+c"(n) : "a"(0) : "memory"); }
INLINE void fill(void* p, int v, size_t n) { char* c = (char*)p; __asm__ volatile("rep stosb" : "+D"(c), "+c"(n) : "a"(v) : "memory"); }
INLINE void copyb(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
INLINE void mixh(u64& h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
INLINE long rawcall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void fwait(volatile int* a, int v) { rawcall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile int* a) { rawcall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void mix(u64 v) { mixh(R->hash, v); }
bool tracing() { return g_want_trace; }
void trace(const char* fmt, ...) {
  if (!g_want_trace || !R) return;
  u32 left = sizeof(R->trace) - R->trace_len;
  if (left < 300) return;
  int n = snprintf(R->trace + R->trace_len, left, "%8llu.%03llums t%d ", (unsigned long long)(g_now / 1000), (unsigned long long)(g_now % 1000), cur ? cur->id : -1);
  R->trace_len += n; left -= n;
  va_list ap; va_start(ap, fmt);
  n = vsnprintf(R->trace + R->trace_len, left > 1200 ? 1200 : left, fmt, ap);
  va_end(ap);
  if (n > 1199) n = 1199;
  R->trace_len += n;
  R->trace[R->trace_len++] = '\n';
  R->trace[R->trace_len] = 0;
}

void count(const char* name, u64 n) {
  for (u32 i = 0; i < R->n_counts; ++i) if (strncmp(R->counts[i].name, name, 39) == 0) { R->counts[i].n += n; return; }
  if (R->n_counts < 160) { snprintf(R->counts[R->n_counts].name, 40, "%s", name); R->counts[R->n_counts].n = n; R->n_counts++; }
}
void state(u64 h) { mixh(h, 77); u32 b = h % (256 * 64); if (!(R->state_bits[b / 64] >> (b % 64) & 1)) { R->state_bits[b / 64] |= 1ull << (b % 64); R->n_states++; } }

static NOINLINE void finish(u32 status) {
  R->steps = g_seq; R->sim_us = g_now; R->stall_us = g_stall;
  for (int i = 0; i < nthreads; ++i) R->accesses += T[i]->acc;
  R->status = status;
  _exit(status == 1 ? 0 : (int)status);
}

static int put_stack(char* b, int left, Thread* t) {
  int n = 0;
  for (int i = t->sdepth - 1, k = 0; i >= 0 && k < 9; --i) {
    if (i >= SSTK) { i = SSTK; continue; }
    n += snprintf(b + n, left - n > 0 ? left - n : 0, " <[0x%lx]", (unsigned long)(t->spc[i] - 1)); ++k;
    if (n >= left) return left > 0 ? left - 1 : 0;
  }
  return n;
}

static void vfail(u32 status, const char* rule, const char* fmt, va_list ap) {
  if (g_ending) _exit(9);
  g_ending = true;
  snprintf(R->rule, sizeof(R->rule), "%s", rule);
  int n = vsnprintf(R->msg, 2600, fmt, ap);
  if (n > 2599) n = 2599;
  if (cur) {
    n += snprintf(R->msg + n, sizeof(R->msg) - n, " | at t=%llu.%03llums in t%d:", (unsigned long long)(g_now / 1000), (unsigned long long)(g_now % 1000), cur->id);
    n += put_stack(R->msg + n, sizeof(R->msg) - n - 1, cur);
  }
  for (char* p = R->msg; *p; ++p) if ((unsigned char)*p > 126 || ((unsigned char)*p < 32 && *p != '\n')) *p = '?';   // names and strings of any bytes
  mixh(R->hash, g_seq);
  for (const char* p = rule; *p; ++p) mixh(R->hash, *p);
  if (g_want_trace) { g_want_trace = true; }
  finish(status);
}
void fail(const char* rule, const char* fmt, ...) { ++g_quiet; va_list ap; va_start(ap, fmt); vfail(2, rule, fmt, ap); va_end(ap); _exit(2); }
void harness_error(const char* fmt, ...) { ++g_quiet; va_list ap; va_start(ap, fmt); vfail(4, "harness", fmt, ap); va_end(ap); _exit(4); }

struct StallRec { u64 t, d; };
static StallRec* stalls = nullptr; static int nstalls = 0, capstalls = 0;
static void note_stall(u64 t, u64 d) {
  g_stall += d;
  if (nstalls == capstalls) { capstalls = capstalls ? capstalls * 2 : 64; stalls = (StallRec*)realloc(stalls, capstalls * sizeof(StallRec)); }
  stalls[nstalls].t = t; stalls[nstalls++].d = d;
}
u64 stall_between(u64 t0, u64 t1) { u64 s = 0; for (int i = 0; i < nstalls; ++i) if (stalls[i].t <= t1 && stalls[i].t + stalls[i].d >= t0) s += stalls[i].d; return s; }
u64 now_us() { return g_now; }
u64 stall_us() { return g_stall; }
u64 stall_end() { u64 e = 0; for (int i = 0; i < nstalls; ++i) if (stalls[i].t + stalls[i].d > e) e = stalls[i].t + stalls[i].d; return e; }
u64 seq() { return ++g_seq; }
int tid() { return cur ? cur->id : -1; }
bool active() { return g_active; }
bool in_signal_handler() { return cur && cur->in_sig > 0; }
int open_threads() { int n = 0; for (int i = 0; i < nthreads; ++i) if (T[i]->state != S_DONE) ++n; return n; }
bool done(int t) { return t < nthreads && T[t]->state == S_DONE; }

// ---- decisions --------------------------------------------------------------------------
INLINE u64 dkey(int tid, int kind, u64 ctr) { return ((u64)tid << 56) | ((u64)kind << 48) | ctr; }
INLINE u32 hsh(u64 k) { k ^= k >> 31; k *= 0x9E3779B97F4A7C15ull; return (u32)(k >> 32); }
static u64 rep_get(u64 key) {
  if (!nrep) return 0;
  for (u32 i = hsh(key) & (rephcap - 1);; i = (i + 1) & (rephcap - 1)) {
    if (rephash[i] == 0) return 0;
    if (rep[rephash[i] - 1].key == key) return rep[rephash[i] - 1].val;
  }
}
static void record(u64 key, u64 val) {
  u32 n = R->n_dec;
  if (n < sizeof(R->dec) / sizeof(R->dec[0])) { R->dec[n].key = key; R->dec[n].val = val; R->n_dec = n + 1; }
  else R->dec_overflow++;
}
u64 choose(Kind k, u32 p, u64 n) {
  if (n < 2 || !cur) return 0;
  u64 c = ++cur->ctr[k], v = 0, key = dkey(cur->id, k, c);
  if (g_replay) { v = rep_get(key); if (v >= n) v = n - 1; }
  else if (p && (g_faults || k == K_PICK || k == K_USER) && rng.below(10000) < p) { v = 1 + rng.below(n - 1); record(key, v); }
  if (v) mixh(R->hash, key ^ (v << 20));
  return v;
}

// ---- events & time ------------------------------------------------------------------------
INLINE bool evless(const Ev& a, const Ev& b) { return a.t < b.t || (a.t == b.t && a.seq < b.seq); }
static void evpush(const Ev& e0) {
  if (nheap == capheap) { capheap = capheap ? capheap * 2 : 256; heap = (Ev*)realloc((void*)heap, capheap * sizeof(Ev)); }
  Ev e = e0; e.seq = ++evseq;
  int i = nheap++;
  while (i > 0 && evless(e, heap[(i - 1) / 2])) { heap[i] = heap[(i - 1) / 2]; i = (i - 1) / 2; }
  heap[i] = e;
}
static Ev evpop() {
  Ev r = heap[0], e = heap[--nheap];
  int i = 0;
  for (;;) {
    int c = 2 * i + 1;
    if (c >= nheap) break;
    if (c + 1 < nheap && evless(heap[c + 1], heap[c])) ++c;
    if (!evless(heap[c], e)) break;
    heap[i] = heap[c]; i = c;
  }
  if (nheap) heap[i] = e;
  return r;
}
enum { E_WAKE, E_CALL, E_SPUR };

static void make_runnable(Thread* t) { if (t->state == S_BLOCK || t->state == S_STALL) { t->state = S_RUN; t->wait_obj = nullptr; } }

static void fire(const Ev& e) {
  switch (e.kind) {
    case E_WAKE:
      if (e.th->wait_gen == e.gen && (e.th->state == S_BLOCK || e.th->state == S_STALL)) { e.th->timed_out = true; make_runnable(e.th); }
      break;
    case E_SPUR:
      if (e.th->wait_gen == e.gen && e.th->state == S_BLOCK) { count("fault.spurious_wakeup"); make_runnable(e.th); }
      break;
    case E_CALL: { ++g_quiet; e.fn(e.arg, e.a); --g_quiet; } break;
  }
}
static void fire_due() { while (nheap && heap[0].t <= g_now) { Ev e = evpop(); fire(e); } }
static bool advance() {
  if (!nheap) return false;
  if (heap[0].t > g_now) g_now = heap[0].t;
  if (g_now > g_cap_us) fail("hang", "simulated time cap reached: some thread never finished");
  fire_due();
  return true;
}
void at(u64 d, void (*fn)(void*, u64), void* arg, u64 a) { Ev e; e.t = g_now + d; e.kind = E_CALL; e.th = nullptr; e.gen = 0; e.fn = fn; e.arg = arg; e.a = a; evpush(e); }
static void ev_wake(Thread* t, u64 at, int kind) { Ev e; e.t = at; e.kind = kind; e.th = t; e.gen = t->wait_gen; e.fn = nullptr; e.arg = nullptr; e.a = 0; evpush(e); }

// ---- switching ------------------------------------------------------------------------------
static void describe_threads(char* b, int n) {
  int k = 0;
  for (int i = 0; i < nthreads && k < n - 80; ++i) if (T[i]->state != S_DONE) {
    k += snprintf(b + k, n - k, " t%d:%s%s%s", i, T[i]->state == S_RUN ? "runnable" : T[i]->state == S_BLOCK ? "blocked:" : "stalled",
                  T[i]->state == S_BLOCK && T[i]->wait_what ? T[i]->wait_what : "", "");
    if (T[i]->state == S_BLOCK) k += put_stack(b + k, n - k < 260 ? n - k : 260, T[i]);
  }
}

static void deliver_signals();
static void set_next_stop(Thread* t);

static NOINLINE void switch_to(Thread* n, uptr pc) {
  Thread* me = cur;
  if (n == me) return;
  g_total_acc += me->acc - me->acc_at_switch; me->acc_at_switch = me->acc;
  if (g_total_acc > ACC_CAP) fail("livelock", "access cap reached without the run finishing");
  me->saved_quiet = g_quiet; me->saved_nosched = g_nosched;
  me->sp = (uptr)__builtin_frame_address(0);
  R->switches++;
  mixh(R->sched_hash, ((u64)n->id << 40) ^ pc);
  mixh(R->hash, ((u64)n->id << 48) ^ (pc << 8) ^ g_now);
  if (g_want_trace) trace("  -> t%d (from [0x%lx])", n->id, (unsigned long)pc);
  cur = n; g_quiet = n->saved_quiet; g_nosched = n->saved_nosched;
  n->acc_at_switch = n->acc;
  bool done = me->state == S_DONE;
  n->go = 1; fwake(&n->go);
  if (done) return;
  while (!me->go) fwait(&me->go, 0);
  me->go = 0;
}

static Thread* pick() {
  int cand[NT], n = 0;
  int start = cur ? cur->id : 0;
  for (int k = 1; k <= nthreads; ++k) { int i = (start + k) % nthreads; if (T[i]->state == S_RUN) cand[n++] = i; }
  if (!n) return nullptr;
  if (n == 1) return T[cand[0]];
  u64 c = ++cur->ctr[K_PICK], v = 0, key = dkey(cur->id, K_PICK, c);
  if (g_replay) { v = rep_get(key); if (v >= (u64)n) v = n - 1; }
  else {
    if (K.policy == 3 || K.policy == 4) { for (int i = 1; i < n; ++i) if (T[cand[i]]->prio > T[cand[v]]->prio) v = i; }
    else v = rng.below(n);
    if (v) record(key, v);
  }
  return T[cand[v]];
}

static void deadlock() {
  static char b[2400]; describe_threads(b, sizeof(b));
  fail("deadlock", "no thread can run and no timer is pending:%s", b);
}

// current thread is not runnable: run others until it is chosen again
static void reschedule(uptr pc) {
  Thread* me = cur;
  for (;;) {
    fire_due();
    Thread* n = pick();
    if (n) { if (n != cur) switch_to(n, pc); else { g_total_acc += cur->acc - cur->acc_at_switch; cur->acc_at_switch = cur->acc; } break; }
    if (!advance()) deadlock();
  }
  if (me->state == S_DONE) return;      // others run already: nothing of the simulation may be touched any more
  if (cur->npending && !cur->in_sig) deliver_signals();
}

static void block(void* obj, const char* what, u64 until, uptr pc) {
  Thread* t = cur;
  t->wait_gen++; t->timed_out = false; t->woken = false; t->interrupted = false;
  t->state = S_BLOCK; t->wait_obj = obj; t->wait_what = what;
  if (t->npending && !t->in_sig) { t->state = S_RUN; t->wait_obj = nullptr; t->interrupted = true; deliver_signals(); return; }
  if (until != ~0ull) {
    u64 late = choose(K_LATE, K.p_late, 200001);
    if (late) { count("fault.late_timer"); note_stall(until, late); until += late; }
    ev_wake(t, until, E_WAKE);
  }
  reschedule(pc);
  t->wait_gen++;
}

static void wake_obj(void* obj) {
  for (int i = 0; i < nthreads; ++i) if (T[i]->state == S_BLOCK && T[i]->wait_obj == obj) { T[i]->woken = true; make_runnable(T[i]); }
}
bool block_on(void* obj, u64 timeout) { int q = g_quiet, n = g_nosched; block(obj, "stub", timeout == ~0ull ? ~0ull : g_now + timeout, CALLER); g_quiet = q; g_nosched = n; return !cur->interrupted; }
void wake_all(void* obj) { wake_obj(obj); }

enum { A_SWITCH = 1, A_STALL = 2, A_SIGNAL = 3 };
INLINE u64 act(u64 type, u64 arg) { return type << 32 | arg; }

static Thread* random_other() {
  int cand[NT], n = 0;
  for (int i = 0; i < nthreads; ++i) if (T[i]->state == S_RUN && T[i] != cur) cand[n++] = i;
  return n ? T[cand[rng.below(n)]] : nullptr;
}
static Thread* best_other() {
  Thread* b = nullptr;
  for (int i = 0; i < nthreads; ++i) if (T[i]->state == S_RUN && T[i] != cur && (!b || T[i]->prio > b->prio)) b = T[i];
  return b;
}

static void (*handlers[65])(int);
static u64 g_first_sig = ~0ull;
static bool g_sig_dead = false;
static u64 decide(bool accpoint) {
  Thread* t = cur;
  if (g_faults) {
    if (K.p_stall && rng.below(accpoint ? 40000 : 10000) < K.p_stall) {
      static const u64 ms[] = {200, 1000, 5000, 20000, 60000, 99000, 100000, 101000, 150000, 400000};
      return act(A_STALL, ms[rng.below(10)]);
    }
    if (K.p_sig && K.sig_budget > 0 && !t->in_sig && handlers[SIGTERM] && handlers[SIGINT] && rng.below(1000000) < (accpoint ? (u64)K.p_sig * 20 : K.p_sig)) {
      K.sig_budget--;
      return act(A_SIGNAL, rng.below(2) ? SIGTERM : SIGINT);
    }
  }
  switch (K.policy) {
    case 1: case 2:
      if (accpoint || rng.below(10000) < K.p_sync) { Thread* o = random_other(); if (o) return act(A_SWITCH, o->id + 1); }
      break;
    case 3: {
      if (accpoint) t->prio = (u32)rng.below(1000);
      Thread* o = best_other();
      if (o && o->prio > t->prio) return act(A_SWITCH, o->id + 1);
    } break;
    case 4: {
      Thread* o = best_other();
      if (o && (o->prio > t->prio || (accpoint || rng.below(10000) < K.p_sync))) { if (o->prio == 0 && rng.below(100)) break; return act(A_SWITCH, o->id + 1); }
    } break;
  }
  return 0;
}

static void do_act(u64 a, uptr pc) {
  Thread* t = cur;
  u64 type = a >> 32, arg = a & 0xffffffffu;
  mixh(R->hash, a);
  if (type == A_SWITCH) {
    if (arg >= 1 && arg <= (u64)nthreads && T[arg - 1]->state == S_RUN && T[arg - 1] != t) switch_to(T[arg - 1], pc);
  } else if (type == A_STALL) {
    count("fault.stall"); note_stall(g_now, arg);
    t->wait_gen++; t->state = S_STALL; t->wait_what = "stall";
    if (g_want_trace) trace("  stalled for %lluus", (unsigned long long)arg);
    ev_wake(t, g_now + arg, E_WAKE);
    reschedule(pc);
    t->wait_gen++;
  } else if (type == A_SIGNAL) {
    if (t->npending < 16 && !g_sig_dead) t->pending[t->npending++] = (int)arg;
    count("fault.signal");
  }
}

static NOINLINE void fair(Thread* t, uptr pc) {
  // a thread that has run for very long without blocking lets others (or time) go on
  t->acc_at_switch = t->acc;
  fire_due();
  for (int k = 1; k < nthreads; ++k) { Thread* o = T[(t->id + k) % nthreads]; if (o->state == S_RUN) { switch_to(o, pc); return; } }
  if (nheap) { u64 b = g_now; advance(); note_stall(b, g_now - b); }
}

static void sync_point_slow(uptr pc) {
  Thread* t = cur;
  u64 c = ++t->ctr[K_SYNC];
  ++g_seq;
  if (g_seq > g_cap_steps) fail("livelock", "step cap reached without the run finishing");
  mixh(R->hash, ((u64)t->id << 50) ^ pc ^ (g_now << 10));
  if (nheap && heap[0].t <= g_now) fire_due();
  u64 a = 0;
  if (g_replay) a = rep_get(dkey(t->id, K_SYNC, c));
  else { a = decide(false); if (a) record(dkey(t->id, K_SYNC, c), a); }
  if (a) do_act(a, pc);
  if (t->npending && !t->in_sig) deliver_signals();
}
INLINE void sync_point(uptr pc) { if (g_quiet | g_nosched) return; sync_point_slow(pc); }
void point() { sync_point(CALLER); }

static u64 draw_gap() {
  u32 g = K.policy == 3 || K.policy == 4 ? K.pct_gap : K.acc_gap;
  if (K.p_sig && K.sig_budget > 0 && (!g || g > 60)) g = 60;
  if (!g) return 1u << 30;
  // geometric-ish: exponential with mean g
  u64 r = rng.below(1u << 20) + 1;
  u64 v = 0; // -ln(r/2^20) * g, by integer bit length plus a linear part
  int lz = 0; while ((r << lz) < (1u << 20)) ++lz;
  u64 frac = ((r << lz) - (1u << 20));  // 0..2^20
  v = ((u64)lz * 693 * g) / 1000 + ((((1u << 20) - frac) * 693) >> 20) * g / 1000;
  return v + 1;
}
static const u64 FAIR = 400000;
static void set_next_stop(Thread* t) {
  u64 lim = t->acc_at_switch + FAIR;
  if (lim <= t->acc) lim = t->acc + FAIR;
  u64 s;
  if (g_replay) {
    while (t->rep_pos < t->rep_end && (rep[t->rep_pos].key & 0xffffffffffffull) <= t->acc) ++t->rep_pos;
    s = t->rep_pos < t->rep_end ? (rep[t->rep_pos].key & 0xffffffffffffull) : ~0ull;
  } else { if (t->next_draw <= t->acc) t->next_draw = t->acc + draw_gap(); s = t->next_draw; }
  t->next_stop = s < lim ? s : lim;
}
static NOINLINE void acc_point(uptr pc) {
  Thread* t = cur;
  if (t->acc - t->acc_at_switch >= FAIR) {
    g_total_acc += t->acc - t->acc_at_switch; t->acc_at_switch = t->acc;
    if (g_total_acc > ACC_CAP) fail("livelock", "access cap reached without the run finishing");
    if (g_quiet | g_nosched) t->acc_at_switch = t->acc; else fair(t, pc);
  }
  u64 a = 0;
  if (!(g_quiet | g_nosched)) {
    if (g_replay) { if (t->rep_pos < t->rep_end && (rep[t->rep_pos].key & 0xffffffffffffull) == t->acc) a = rep[t->rep_pos].val; }
    else if (t->next_draw == t->acc) { a = decide(true); if (a) record(dkey(t->id, K_ACC, t->acc), a); }
  }
  set_next_stop(t);
  if (a) {
    if (nheap && heap[0].t <= g_now) fire_due();
    mixh(R->hash, ((u64)t->id << 50) ^ pc ^ (t->acc << 4));
    do_act(a, pc);
    if (t->npending && !t->in_sig) deliver_signals();
  }
}
INLINE void tick(uptr pc) { Thread* t = cur; if (UNLIKELY(++t->acc >= t->next_stop)) acc_point(pc); }

void faults_off() {
  g_faults = false;
  K.p_stall = K.p_spur = K.p_late = K.p_sig = K.p_jump = 0;
  K.sig_budget = 0;
  if (K.policy == 4 || K.policy == 3) { K.policy = 1; K.p_sync = 500; K.acc_gap = 0; }
}

// ---- signals ---------------------------------------------------------------------------------
static bool once[65];
void set_handler(int s, void (*h)(int), bool reset) { if (s > 0 && s < 65) { handlers[s] = h; once[s] = reset; hb_release(&handlers); } }
bool handled(int s) { if (!handlers[s]) return false; hb_acquire(&handlers); return true; }
u64 first_signal_us() { return g_first_sig; }
void signals_off() { g_sig_dead = true; K.p_sig = 0; K.sig_budget = 0; for (int i = 0; i < nthreads; ++i) T[i]->npending = 0; }
int threads() { return nthreads; }
static void deliver_signals() {
  Thread* t = cur;
  while (t->npending && !t->in_sig) {
    int s = t->pending[0];
    for (int i = 1; i < t->npending; ++i) t->pending[i - 1] = t->pending[i];
    t->npending--;
    void (*h)(int) = handlers[s];
    if (!h) { count("signal.default_action"); fail("signal-default", "signal %d arrived while no handler was installed", s); }
    if (h == (void (*)(int))1) { count("signal.ignored"); continue; }
    hb_acquire(&handlers);      // whoever installed the handler did so before
    if (g_first_sig == ~0ull) g_first_sig = g_now;
    if (once[s]) handlers[s] = nullptr;
    t->in_sig = 1;
    int sa = t->sig_in_alloc; t->sig_in_alloc = t->in_alloc;
    int q = g_quiet, n = g_nosched, ia = t->in_alloc; g_quiet = 0; g_nosched = 0; t->in_alloc = 0;
    int arm = t->arm_nth; t->arm_nth = 0;
    count("signal.delivered");
    if (g_want_trace) trace("signal %d handled", s);
    int e = errno;
    h(s);
    errno = e;
    g_quiet = q; g_nosched = n; t->in_alloc = ia; t->arm_nth = arm;
    t->sig_in_alloc = sa; t->in_sig = 0;
  }
}
void raise_signal(int id, int s) {
  if (g_sig_dead) return;
  count("fault.signal");
  if (id < 0 || id >= nthreads || T[id]->state == S_DONE) {
    int best = -1;
    for (int i = 0; i < nthreads; ++i) if (T[i]->state != S_DONE) { best = i; if (T[i]->state == S_RUN) break; }
    id = best;
  }
  Thread* t = T[id];
  if (t->npending < 16) t->pending[t->npending++] = s;
  if (t->state == S_BLOCK) { t->interrupted = true; make_runnable(t); }
}

// ---- shadow memory ----------------------------------------------------------------------------
INLINE bool arena_addr(uptr a) { return a - ARENA_BASE < ARENA_SIZE; }
INLINE bool stack_addr(uptr a) { return a - STACK_BASE < STACKS_SIZE; }
bool in_arena(const void* p) { return arena_addr((uptr)p); }

struct BlkHdr { u32 magic; u32 tid; u64 size; u64 pc; u64 fpc; };   // 32 bytes before the user block
static const u32 LIVE = 0x4c495645, DEAD = 0x44454144;

static BlkHdr* find_block(uptr a) {
  // walk back over the arena to the header of the block holding (or preceding) a; only for reports
  for (uptr p = a & ~15ull; p >= ARENA_BASE && a - p < (1u << 22); p -= 16) {
    BlkHdr* h = (BlkHdr*)p;
    if ((h->magic == LIVE || h->magic == DEAD) && h->size < (1u << 28) && h->tid < (u32)NT && p + 32 <= a + 32) return h;
  }
  return nullptr;
}
static NOINLINE void bad_access(uptr a, unsigned size, bool w, uptr pc, const char* what) {
  u8 s = ((u8*)ASHADOW)[(a - ARENA_BASE) >> 3];
  BlkHdr* h = find_block(a);
  if (s == 0xFD)
    fail("use-after-free", "%s of %u bytes at 0x%lx [0x%lx] %s: memory was freed (block of %llu bytes, allocated at [0x%llx], freed at [0x%llx])", w ? "write" : "read", size,
         (unsigned long)a, (unsigned long)(pc - 1), what, h ? (unsigned long long)h->size : 0, h ? (unsigned long long)h->pc : 0, h ? (unsigned long long)h->fpc : 0);
  fail("out-of-bounds", "%s of %u bytes at 0x%lx [0x%lx] %s: outside every live block (nearest block: %llu bytes at 0x%lx, allocated at [0x%llx])", w ? "write" : "read", size,
       (unsigned long)a, (unsigned long)(pc - 1), what, h ? (unsigned long long)h->size : 0, h ? (unsigned long)((uptr)h + 32) : 0, h ? (unsigned long long)h->pc : 0);
}
INLINE void addr_check(uptr a, unsigned size, bool w, uptr pc, const char* what) {
  u8* sh = (u8*)ASHADOW;
  uptr o = a - ARENA_BASE;
  u8 s = sh[o >> 3];
  if (LIKELY(s == 8 && ((o & 7) + size <= 8))) return;
  uptr e = o + size;
  for (uptr g = o >> 3; g <= (e - 1) >> 3; ++g) {
    u8 v = sh[g];
    uptr last = ((e - 1) >> 3) == g ? ((e - 1) & 7) : 7;
    if (v == 8) continue;
    if (v > 8 || last >= v) bad_access(ARENA_BASE + (g << 3), size, w, pc, what);
  }
}

static NOINLINE void report_race(u64 c, u64 info, uptr a, unsigned size, bool w, bool at, uptr pc) {
  uptr ipc = info & 0xffffffffu, ifn = info >> 32;
  const char* where = arena_addr(a) ? "heap" : stack_addr(a) ? "stack" : "global";
  fail("race", "unsynchronised %s%s of %u bytes (%s 0x%lx) at [0x%lx] by t%d and earlier %s%s at [0x%lx] <[0x%lx] by t%d", at ? "atomic " : "", w ? "write" : "read", size, where,
       (unsigned long)a, (unsigned long)(pc - 1), cur->id, (c >> 48) & 1 ? "atomic " : "", (c >> 47) & 1 ? "write" : "read", (unsigned long)(ipc - 1), (unsigned long)(ifn ? ifn - 1 : 0), (int)((c >> 40) & 127));
}

static NOINLINE void dead_stack(uptr a, unsigned size, bool w, uptr pc, int owner) {
  fail("dead-stack", "%s of %u bytes at [0x%lx] in a stack frame of t%d that no longer exists", w ? "write" : "read", size, (unsigned long)(pc - 1), owner);
}

// mask: bytes of the granule touched
INLINE void cell_access(u64* cells, u64* info, u64 mask, bool w, bool at, uptr a, unsigned size, uptr pc) {
  Thread* t = cur;
  u32 ep = t->vc[t->id];
  u64 me = ((u64)at << 48) | ((u64)w << 47) | ((u64)t->id << 40) | (mask << 32) | ep;
  int slot = -1, empty = -1;
  for (int i = 0; i < 4; ++i) {
    u64 c = cells[i];
    if (c == 0) { if (empty < 0) empty = i; continue; }
    if (c == me) return;
    int ct = (c >> 40) & 127;
    bool cw = (c >> 47) & 1, ca = (c >> 48) & 1;
    u64 cm = (c >> 32) & 255;
    if (!(cm & mask)) continue;
    if (ct == t->id) {
      if ((cm & ~mask) == 0 && (w || !cw) && (!at || ca)) slot = i;   // ours covers it
      else if ((mask & ~cm) == 0 && cw && (u32)c == ep && !ca) return; // already covered by our own write
      continue;
    }
    if (!(cw | w)) continue;
    if (ca & at) continue;
    if (t->vc[ct] >= (u32)c) { if ((cm & ~mask) == 0 && w && !at) slot = i; continue; }
    report_race(c, info[i], a, size, w, at, pc);
  }
  if (slot < 0) slot = empty;
  if (slot < 0) slot = (int)((t->acc ^ ep) & 3);
  cells[slot] = me;
  uptr fn = t->sdepth > 0 && t->sdepth <= SSTK ? t->spc[t->sdepth - 1] : 0;
  info[slot] = ((u64)(u32)fn << 32) | (u32)pc;
}

INLINE bool cells_for(uptr a, u64*& c, u64*& inf) {
  if (arena_addr(a)) { uptr o = ((a - ARENA_BASE) >> 3) << 5; c = (u64*)(CELL_ARENA + o); inf = (u64*)(INFO_ARENA + o); return true; }
  if (stack_addr(a)) { uptr o = ((a - STACK_BASE) >> 3) << 5; c = (u64*)(CELL_STACK + o); inf = (u64*)(INFO_STACK + o); return true; }
  if (a >= glob_lo && a < glob_hi) { uptr o = ((a - glob_lo) >> 3) << 5; c = (u64*)(CELL_GLOB + o); inf = (u64*)(INFO_GLOB + o); return true; }
  return false;
}

INLINE void stack_check(uptr a, unsigned size, bool w, uptr pc) {
  if (stack_addr(a)) {
    int o = (int)((a - STACK_BASE) / STACK_SIZE);
    if (o != cur->id) {
      if (o >= nthreads || T[o]->state == S_DONE) dead_stack(a, size, w, pc, o);
      if (a < T[o]->sp) dead_stack(a, size, w, pc, o);
    }
  }
}

static void range_access(uptr a, size_t n, bool w, bool at, uptr pc, const char* what) {
  if (!n) return;
  if (arena_addr(a)) addr_check(a, (unsigned)n, w, pc, what); else stack_check(a, (unsigned)n, w, pc);
  u64 *c, *inf;
  if (!cells_for(a, c, inf)) return;
  uptr e = a + n;
  while (a < e) {
    unsigned o = a & 7; unsigned k = 8 - o; if (k > e - a) k = (unsigned)(e - a);
    u64 mask = ((1ull << k) - 1) << o;
    cell_access(c, inf, mask, w, at, a, k, pc);
    a += k; c += 4; inf += 4;
  }
}

INLINE void access(uptr a, unsigned size, bool w, bool at, uptr pc) {
  tick(pc);
  if (arena_addr(a)) addr_check(a, size, w, pc, "");
  else if (stack_addr(a)) {
    if (a - (STACK_BASE + (uptr)cur->id * STACK_SIZE) >= STACK_SIZE) stack_check(a, size, w, pc);
  } else if (a < glob_lo || a >= glob_hi) return;
  u64 *c, *inf;
  cells_for(a, c, inf);
  unsigned o = a & 7;
  if (LIKELY(o + size <= 8)) cell_access(c, inf, ((1ull << size) - 1) << o, w, at, a, size, pc);
  else range_access(a, size, w, at, pc, "");
}

void race_access(const void* p, unsigned size, bool w, const char* what) {
  if (!g_active) return;
  range_access((uptr)p, size, w, false, CALLER, what);
}
void check_range(const void* p, size_t n, bool w, const char* what) {
  if (!g_active) return;
  range_access((uptr)p, n, w, false, CALLER, what);
}

// ---- happens-before ------------------------------------------------------------------------------
INLINE void vjoin(u32* d, const u32* s) { for (int i = 0; i < nthreads; ++i) if (s[i] > d[i]) d[i] = s[i]; }
INLINE void vcopy(u32* d, const u32* s) { for (int i = 0; i < nthreads; ++i) d[i] = s[i]; }
INLINE void bump(Thread* t) { t->vc[t->id]++; }

static SV* sv_get(u64 addr, bool create) {
  if (svcap) {
    for (u64 i = hsh(addr) & (svcap - 1);; i = (i + 1) & (svcap - 1)) {
      if (!svtab[i]) break;
      if (svtab[i]->addr == addr) return svtab[i];
    }
  }
  if (!create) return nullptr;
  if (svn * 2 >= svcap) {
    u64 nc = svcap ? svcap * 2 : 4096;
    SV** nt = (SV**)calloc(nc, sizeof(SV*));
    for (u64 i = 0; i < svcap; ++i) if (svtab[i]) { u64 j = hsh(svtab[i]->addr) & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = svtab[i]; }
    free(svtab); svtab = nt; svcap = nc;
  }
  if (svleft < sizeof(SV)) { svleft = 1 << 20; svchunk = (char*)calloc(1, svleft); }
  SV* s = (SV*)svchunk; svchunk += sizeof(SV); svleft -= sizeof(SV);
  s->addr = addr;
  u64 j = hsh(addr) & (svcap - 1); while (svtab[j]) j = (j + 1) & (svcap - 1);
  svtab[j] = s; svn++;
  return s;
}
void hb_release(void* o) { if (!g_active || !cur) return; SV* s = sv_get((u64)o | 1ull << 63, true); vjoin(s->vc, cur->vc); bump(cur); }
void hb_acquire(void* o) { if (!g_active || !cur) return; SV* s = sv_get((u64)o | 1ull << 63, false); if (s) vjoin(cur->vc, s->vc); }

INLINE bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
INLINE bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void at_load(uptr a, int mo) {
  SV* s = sv_get(a, false);
  if (!s) return;
  if (is_acq(mo)) vjoin(cur->vc, s->vc);
  else { vjoin(cur->facq, s->vc); cur->has_facq = true; }
}
static void at_store(uptr a, int mo) {
  if (is_rel(mo)) { SV* s = sv_get(a, true); vcopy(s->vc, cur->vc); bump(cur); }
  else if (cur->has_frel) { SV* s = sv_get(a, true); vcopy(s->vc, cur->frel); }
  else { SV* s = sv_get(a, false); if (s) zero(s->vc, sizeof(s->vc)); }
}
static void at_rmw(uptr a, int mo) {
  SV* s = sv_get(a, is_rel(mo) || cur->has_frel);
  if (s) {
    if (is_acq(mo)) vjoin(cur->vc, s->vc); else { vjoin(cur->facq, s->vc); cur->has_facq = true; }
    if (is_rel(mo)) { vjoin(s->vc, cur->vc); bump(cur); } else if (cur->has_frel) vjoin(s->vc, cur->frel);
  }
}
static void at_fence(int mo) {
  if (is_acq(mo) && cur->has_facq) { vjoin(cur->vc, cur->facq); }
  if (is_rel(mo)) { vcopy(cur->frel, cur->vc); cur->has_frel = true; bump(cur); }
}

// ---- allocator -----------------------------------------------------------------------------------
static void* arena_alloc_pc(size_t n, uptr pc) {
  uptr p = arena_top;
  size_t body = (n + 15) & ~15ull;
  if (p + 32 + body + 16 > ARENA_BASE + ARENA_SIZE) { snprintf(R->rule, 64, "arena"); finish(3); }
  arena_top = p + 32 + body + 16;
  BlkHdr* h = (BlkHdr*)p; h->magic = LIVE; h->tid = cur ? cur->id : 0; h->size = n; h->pc = pc - 1; h->fpc = 0;
  ++alloc_seq;
  uptr u = p + 32;
  u8* sh = (u8*)ASHADOW + ((u - ARENA_BASE) >> 3);
  size_t full = n >> 3;
  if (full) fill(sh, 8, full);
  if (n & 7) sh[full] = (u8)(n & 7);
  // fresh memory holds a pattern, so that a read of something never written is visible and repeatable
  fill((void*)u, 0xCB, n);
  return (void*)u;
}
void* arena_alloc(size_t n) { return arena_alloc_pc(n, CALLER); }
static void arena_free_pc(void* p, uptr pc) {
  uptr u = (uptr)p;
  BlkHdr* h = (BlkHdr*)(u - 32);
  if (h->magic == DEAD) fail("double-free", "block of %llu bytes at 0x%lx freed again at [0x%lx]; freed before at [0x%llx]", (unsigned long long)h->size, (unsigned long)u, (unsigned long)(pc - 1), (unsigned long long)h->fpc);
  if (h->magic != LIVE) fail("bad-free", "free of 0x%lx at [0x%lx], which is not the start of a block", (unsigned long)u, (unsigned long)(pc - 1));
  size_t n = h->size;
  if (cur && g_active && n) {
    u64 *c = nullptr, *inf = nullptr; cells_for(u, c, inf);
    for (uptr a = u; a < u + n; a += 8, c += 4, inf += 4) {
      if ((c[0] | c[1] | c[2] | c[3]) == 0) continue;
      unsigned k = u + n - a < 8 ? (unsigned)(u + n - a) : 8;
      if (!g_quiet) cell_access(c, inf, (1ull << k) - 1, true, false, a, k, pc);
    }
  }
  h->magic = DEAD; h->fpc = pc - 1;
  u8* sh = (u8*)ASHADOW + ((u - ARENA_BASE) >> 3);
  fill(sh, 0xFD, (n + 7) >> 3);
  fill(p, 0xDD, n);
}
void arena_free(void* p) { arena_free_pc(p, CALLER); }

uptr heap_mark() { return arena_top; }
void heap_walk(uptr from, uptr to, void (*fn)(void* arg, uptr pc, size_t n, int tid, uptr p), void* arg) {
  if (from < ARENA_BASE + 4096) from = ARENA_BASE + 4096;
  for (uptr p = from; p < to && p < arena_top;) { BlkHdr* h = (BlkHdr*)p; if (h->magic == LIVE) fn(arg, (uptr)h->pc, h->size, (int)h->tid, p + 32); p += 32 + ((h->size + 15) & ~15ull) + 16; }
}

void arm_alloc_failure(int nth) { cur->arm_nth = nth; cur->arm_fired = false; }
bool alloc_failure_fired() { return cur->arm_fired; }

static void* new_impl(size_t n, uptr pc, bool nothrow) {
  if (!g_active || g_quiet || !cur) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  Thread* t = cur;
  if (t->in_sig && t->sig_in_alloc) fail("signal-unsafe", "a signal handler allocates memory while the interrupted thread is inside the allocator");
  t->in_alloc++;
  tick(pc);
  t->in_alloc--;
  if (UNLIKELY(t->arm_nth > 0) && --t->arm_nth == 0) {
    t->arm_fired = true;
    count("fault.alloc_failure");
    if (nothrow) return nullptr;
    ++g_quiet; struct G { ~G() { --g_quiet; } } g;
    throw std::bad_alloc();
  }
  return arena_alloc_pc(n, pc);
}
static void delete_impl(void* p, uptr pc) {
  if (!p) return;
  if (!arena_addr((uptr)p)) { free(p); return; }
  if (g_active && !g_quiet && cur) {
    Thread* t = cur;
    if (t->in_sig && t->sig_in_alloc) fail("signal-unsafe", "a signal handler frees memory while the interrupted thread is inside the allocator");
    t->in_alloc++; tick(pc); t->in_alloc--;
  }
  arena_free_pc(p, pc);
}

// ---- threads ---------------------------------------------------------------------------------------
static pthread_key_t exit_key;

static void crash_handler(int s, siginfo_t* si, void* uc) {
  if (g_ending) _exit(8);
  ucontext_t* u = (ucontext_t*)uc;
  ++g_quiet;
  if (s == SIGPROF) fail("hang", "the run used too much processor time (endless loop)");
  fail("crash", "signal %d (%s) at [0x%llx], address %p", s, s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic" : "fault", (unsigned long long)u->uc_mcontext.gregs[REG_RIP], si->si_addr);
}
static void on_terminate() {
  ++g_quiet;
  char b[600] = "no active exception"; 
  std::type_info* ti = abi::__cxa_current_exception_type();
  if (ti) {
    snprintf(b, sizeof(b), "%s", ti->name());
    try { throw; } catch (std::exception& e) { snprintf(b, sizeof(b), "%s: %s", ti->name(), e.what()); } catch (...) {}
  }
  fail("terminate", "std::terminate: uncaught exception (%s)", b);
}

static void thread_exit(void*) {
  Thread* t = cur;
  ++g_quiet;
  SV* s = sv_get((u64)t | 1ull << 62, true); vcopy(s->vc, t->vc); bump(t);
  t->state = S_DONE;
  mixh(R->hash, 0xdead ^ t->id);
  if (g_want_trace) trace("thread exits");
  if (t->id == 0) finish(1);
  wake_obj(t);
  g_quiet = 0;
  reschedule(0);
}

static void* trampoline(void* a) noexcept {
  Thread* t = (Thread*)a;
  stack_t ss; ss.ss_sp = t->altstack; ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  while (!t->go) fwait(&t->go, 0);
  t->go = 0;
  pthread_setspecific(exit_key, t);
  if (t->npending && !t->in_sig) deliver_signals();
  t->ret = t->fn(t->arg);
  return t->ret;
}

static Thread* new_thread(void* (*fn)(void*), void* arg, bool detached) {
  if (nthreads >= NT) { snprintf(R->rule, 64, "threads"); finish(3); }
  Thread* t = (Thread*)calloc(1, sizeof(Thread));
  t->id = nthreads; t->fn = fn; t->arg = arg; t->state = S_RUN; t->joiner = -1; t->detached = detached;
  t->altstack = (char*)malloc(65536);
  T[nthreads++] = t;
  if (cur) { vcopy(t->vc, cur->vc); bump(cur); }
  t->vc[t->id] = 1;
  t->sp = STACK_BASE + (uptr)t->id * STACK_SIZE;
  t->prio = g_replay ? 0 : (u32)(1 + rng.below(1000));
  if (K.policy == 4 && t->id == K.starve_tid) t->prio = 0;
  if (g_replay) {
    u32 i = 0; while (i < nrep && (rep[i].key >> 48) < ((u64)t->id << 8 | K_ACC)) ++i;
    t->rep_pos = i; while (i < nrep && (rep[i].key >> 48) == ((u64)t->id << 8 | K_ACC)) ++i;
    t->rep_end = i;
  }
  set_next_stop(t);
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)(STACK_BASE + (uptr)t->id * STACK_SIZE + 65536), STACK_SIZE - 65536);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  if (real_pthread_create()(&t->pth, &at, trampoline, t) != 0) harness_error("pthread_create failed");
  pthread_attr_destroy(&at);
  return t;
}

static Thread* find_thread(pthread_t p) { for (int i = 0; i < nthreads; ++i) if (pthread_equal(T[i]->pth, p)) return T[i]; return nullptr; }

// when the next timed wait of another thread ends (now if there is none)
u64 next_deadline() {
  u64 b = ~0ull;
  for (int i = 0; i < nheap; ++i) if (heap[i].kind == E_WAKE && heap[i].th != cur && heap[i].th->wait_gen == heap[i].gen && heap[i].th->state == S_BLOCK && heap[i].t < b) b = heap[i].t;
  return b == ~0ull || b < g_now ? g_now : b;
}
void sleep_us(u64 us) { u64 until = g_now + us; while (g_now < until) block(nullptr, "sleep", until, CALLER); }

void wall_jump(int64_t us) { g_wall_off += us; }

// ---- run ---------------------------------------------------------------------------------------------
static void* mapat(uptr a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) { fprintf(stderr, "mmap of simulator memory failed\n"); _exit(4); }
  madvise(p, n, MADV_NOHUGEPAGE);
  return p;
}

void host_init() {
  mapat(ARENA_BASE, ARENA_SIZE); mapat(STACK_BASE, STACKS_SIZE);
  mapat(CELL_ARENA, ARENA_SIZE * 4); mapat(INFO_ARENA, ARENA_SIZE * 4);
  mapat(CELL_STACK, STACKS_SIZE * 4); mapat(INFO_STACK, STACKS_SIZE * 4);
  mapat(ASHADOW, ARENA_SIZE / 8);
  glob_lo = (uptr)&__data_start & ~7ull; glob_hi = (uptr)&_end;
  mapat(CELL_GLOB, ((glob_hi - glob_lo) * 4 + 8191) & ~4095ull); mapat(INFO_GLOB, ((glob_hi - glob_lo) * 4 + 8191) & ~4095ull);
  arena_top = ARENA_BASE + 4096;
  for (int i = 0; i < NT; ++i) mprotect((void*)(STACK_BASE + (uptr)i * STACK_SIZE), 65536, PROT_NONE);
  real_pthread_create(); real_clock_gettime(); real_nanosleep(); real_sched_yield(); real_sigaction(); real_gettimeofday(); real_time();
  real_pthread_mutex_lock(); real_pthread_mutex_unlock(); real_pthread_mutex_trylock(); real_pthread_cond_wait(); real_pthread_cond_signal(); real_pthread_cond_broadcast();
}

struct Boot { void (*body)(void*); void* arg; };
static Boot boot;
static void* boot_fn(void*) { boot.body(boot.arg); return nullptr; }

static int deccmp(const void* a, const void* b) { u64 x = ((const Decision*)a)->key, y = ((const Decision*)b)->key; return x < y ? -1 : x > y; }

void run(Result* res, const Knobs& k, u64 seed, const Decision* replay, u32 n_replay, bool replay_mode, bool want_trace, void (*body)(void*), void* arg) {
  R = res; K = k; rng = Rng(seed ^ 0x5eed); g_replay = replay_mode; g_want_trace = want_trace;
  res->status = 0; res->rule[0] = 0; res->msg[0] = 0; res->hash = 1; res->sched_hash = 1; res->n_counts = 0; res->n_dec = 0; res->dec_overflow = 0; res->n_states = 0; res->trace_len = 0;
  res->steps = res->switches = res->accesses = res->sim_us = res->stall_us = 0;
  zero(res->state_bits, sizeof(res->state_bits));
  if (replay_mode) {
    Decision* d = (Decision*)malloc((n_replay + 1) * sizeof(Decision));
    copyb(d, replay, n_replay * sizeof(Decision));
    qsort(d, n_replay, sizeof(Decision), deccmp);
    rep = d; nrep = n_replay;
    rephcap = 64; while (rephcap < n_replay * 3 + 3) rephcap *= 2;
    rephash = (u32*)calloc(rephcap, sizeof(u32));
    for (u32 i = 0; i < nrep; ++i) { u32 j = hsh(d[i].key) & (rephcap - 1); while (rephash[j]) j = (j + 1) & (rephcap - 1); rephash[j] = i + 1; }
  }
  struct sigaction sa; zero(&sa, sizeof(sa));
  sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF};
  for (int s : sigs) real_sigaction()(s, &sa, nullptr);
  struct itimerval tv; zero(&tv, sizeof(tv)); tv.it_value.tv_sec = 120; setitimer(ITIMER_PROF, &tv, nullptr);
  std::set_terminate(on_terminate);
  pthread_key_create(&exit_key, thread_exit);
  boot.body = body; boot.arg = arg;
  g_quiet = 0; g_nosched = 0;
  g_active = true;
  Thread* t = new_thread(boot_fn, nullptr, true);
  cur = t;
  t->go = 1; fwake(&t->go);
  for (;;) pause();
}

// ---- mutex / cond / rwlock models -------------------------------------------------------------------
static Mtx* mtx_get(int* h) {
  int id = *h;
  if (id < 0x40000000 || id - 0x40000000 >= nmtx) {
    if (nmtx == capmtx) { capmtx = capmtx ? capmtx * 2 : 1024; mtx = (Mtx**)realloc(mtx, capmtx * sizeof(Mtx*)); }
    Mtx* m = (Mtx*)calloc(1, sizeof(Mtx)); m->owner = -1;
    id = 0x40000000 + nmtx; mtx[nmtx++] = m; *h = id;
  }
  return mtx[id - 0x40000000];
}
static Cnd* cnd_get(int* h) {
  int id = *h;
  if (id < 0x20000000 || id - 0x20000000 >= ncnd) {
    if (ncnd == capcnd) { capcnd = capcnd ? capcnd * 2 : 1024; cnd = (Cnd**)realloc(cnd, capcnd * sizeof(Cnd*)); }
    Cnd* c = (Cnd*)calloc(1, sizeof(Cnd));
    id = 0x20000000 + ncnd; cnd[ncnd++] = c; *h = id;
  }
  return cnd[id - 0x20000000];
}

// who owns what a thread is blocked on (for cycle detection)
static void check_cycle(Mtx* m) {
  Mtx* x = m; int hops = 0;
  while (x && x->owner >= 0 && hops++ < NT) {
    Thread* o = T[x->owner];
    if (o == cur) {
      static char b[2400]; describe_threads(b, sizeof(b));
      fail("deadlock", "t%d waits for a lock in a cycle of lock waits:%s", cur->id, b);
    }
    if (o->state == S_DONE) fail("deadlock", "t%d waits for a lock held by t%d, which has ended", cur->id, o->id);
    if (o->state == S_BLOCK && o->wait_what && o->wait_what[0] == 'l') x = (Mtx*)o->wait_obj;
    else if (o->state == S_BLOCK && o->wait_what && o->wait_what[0] == 'j') {
      // owner joins a thread
      Thread* j = (Thread*)o->wait_obj;
      if (j == cur) { static char b[2400]; describe_threads(b, sizeof(b)); fail("deadlock", "t%d waits for a lock whose holder waits for t%d to end:%s", cur->id, cur->id, b); }
      if (j->state == S_BLOCK && j->wait_what && j->wait_what[0] == 'l') x = (Mtx*)j->wait_obj; else return;
    }
    else return;
  }
}

static int mutex_lock_impl(pthread_mutex_t* pm, uptr pc, u64 until, bool sched) {
  int kind = pm->__data.__kind & 3;
  Mtx* m = mtx_get((int*)pm);
  if (m->owner == cur->id) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (until == ~0ull) fail("deadlock", "t%d locks a mutex it already holds%s", cur->id, cur->in_sig ? " (in a signal handler)" : "");
  }
  bool to = false;
  while (m->owner != -1) {
    if (until == ~0ull) check_cycle(m);
    if (to && g_now >= until) return ETIMEDOUT;
    block(m, until == ~0ull ? "lock" : "timed-lock", until, pc);
    to = true;
    m = mtx_get((int*)pm);
  }
  m->owner = cur->id; m->count = 1;
  vjoin(cur->vc, m->vc);
  return 0;
}
static int mutex_unlock_impl(pthread_mutex_t* pm) {
  Mtx* m = mtx_get((int*)pm);
  if (m->owner != cur->id) {
    if ((pm->__data.__kind & 3) != PTHREAD_MUTEX_NORMAL) return EPERM;
    fail("bad-unlock", "t%d unlocks a mutex it does not hold", cur->id);
  }
  if (--m->count > 0) return 0;
  m->owner = -1;
  vcopy(m->vc, cur->vc); bump(cur);
  wake_obj(m);
  return 0;
}
INLINE void lock_mem(void* p, size_t n, uptr pc) {
  uptr a = (uptr)p;
  if (arena_addr(a)) addr_check(a, (unsigned)n, false, pc, "(lock object)"); else stack_check(a, (unsigned)n, false, pc);
  u64 *c, *inf; if (cells_for(a, c, inf)) cell_access(c, inf, 0xff, false, true, a, 8, pc);
}

static const u64 MONO0 = 1000000000ull;               // 1000 s
static const u64 WALL0 = 1700000000ull * 1000000ull;
static u64 ts_us(const struct timespec* ts) { if (ts->tv_sec < 0) return 0; if (ts->tv_sec > 100000000000ll) return ~0ull >> 2; return (u64)ts->tv_sec * 1000000ull + (u64)(ts->tv_nsec + 999) / 1000; }
static u64 deadline(clockid_t c, const struct timespec* ts) {
  u64 v = ts_us(ts);
  if (c == CLOCK_REALTIME) { int64_t d = (int64_t)v - (int64_t)WALL0 - g_wall_off; return d < 0 ? 0 : (u64)d; }
  return v < MONO0 ? 0 : v - MONO0;
}

static int cond_wait_impl(pthread_cond_t* pc_, pthread_mutex_t* pm, u64 until, uptr pc) {
  lock_mem(pc_, sizeof(*pc_), pc);
  sync_point(pc);
  Cnd* c = cnd_get((int*)pc_);
  Thread* t = cur;
  c->w[c->n++] = t->id;
  int saved = 1; Mtx* m = mtx_get((int*)pm);
  if (m->owner != t->id) fail("bad-unlock", "t%d waits on a condition without holding its mutex", t->id);
  saved = m->count; m->count = 1;
  mutex_unlock_impl(pm);
  bool signalled = false;
  t->woken = false;
  if (!(g_quiet | g_nosched)) {
    u64 sp = choose(K_SPUR, K.p_spur, 120001);
    if (sp) { t->wait_gen++; Ev e; e.t = g_now + sp; e.kind = E_SPUR; e.th = t; e.gen = t->wait_gen + 1; e.fn = nullptr; e.arg = nullptr; e.a = 0; evpush(e); }
  }
  if (until != ~0ull && until <= g_now) { t->timed_out = true; }
  else { block(c, "condition", until, pc); signalled = t->woken; }
  bool to = t->timed_out;
  for (int i = 0; i < c->n; ++i) if (c->w[i] == t->id) { for (int j = i + 1; j < c->n; ++j) c->w[j - 1] = c->w[j]; c->n--; break; }
  mutex_lock_impl(pm, pc, ~0ull, true);
  mtx_get((int*)pm)->count = saved;
  return (!signalled && to) ? ETIMEDOUT : 0;
}

static void cond_wake(pthread_cond_t* pc_, bool all, uptr pc) {
  lock_mem(pc_, sizeof(*pc_), pc);
  sync_point(pc);
  Cnd* c = cnd_get((int*)pc_);
  while (c->n > 0) {
    int k = 0;
    if (!all && c->n > 1) k = (int)choose(K_NOTIFY, K.p_notify, c->n);
    Thread* w = T[c->w[k]];
    for (int j = k + 1; j < c->n; ++j) c->w[j - 1] = c->w[j];
    c->n--;
    // a waiter that was already resumed (timeout, spurious) has consumed nothing: try the next one
    if (w->state == S_BLOCK && w->wait_obj == c) { w->woken = true; make_runnable(w); w->timed_out = false; if (!all) break; }
    else if (!all && !w->timed_out && w->state == S_RUN) { w->woken = true; break; }
  }
}

static Mtx* rw_get(pthread_rwlock_t* p) { return mtx_get((int*)p); }
static int rw_rd(pthread_rwlock_t* p, uptr pc, u64 until, bool tryonly) {
  lock_mem(p, sizeof(*p), pc); sync_point(pc);
  Mtx* m = rw_get(p);
  if (m->owner == cur->id && !tryonly) return EDEADLK;
  while (m->owner != -1) {
    if (tryonly) return EBUSY;
    if (until != ~0ull && g_now >= until) return ETIMEDOUT;
    if (until == ~0ull) check_cycle(m);
    block(m, until == ~0ull ? "lock" : "timed-lock", until, pc);
  }
  m->readers++; vjoin(cur->vc, m->vc);
  return 0;
}
static int rw_wr(pthread_rwlock_t* p, uptr pc, u64 until, bool tryonly) {
  lock_mem(p, sizeof(*p), pc); sync_point(pc);
  Mtx* m = rw_get(p);
  if (m->owner == cur->id && !tryonly) return EDEADLK;
  while (m->owner != -1 || m->readers) {
    if (tryonly) return EBUSY;
    if (until != ~0ull && g_now >= until) return ETIMEDOUT;
    if (until == ~0ull && m->owner != -1) check_cycle(m);
    block(m, m->owner != -1 && until == ~0ull ? "lock" : "read-locked", until, pc);
  }
  m->owner = cur->id; m->count = 1; vjoin(cur->vc, m->vc); vjoin(cur->vc, m->rvc);
  return 0;
}
static int rw_un(pthread_rwlock_t* p, uptr pc) {
  lock_mem(p, sizeof(*p), pc); sync_point(pc);
  Mtx* m = rw_get(p);
  if (m->owner == cur->id) { m->owner = -1; vcopy(m->vc, cur->vc); vcopy(m->rvc, cur->vc); }
  else { if (m->readers <= 0) fail("bad-unlock", "t%d unlocks a shared mutex that is not locked", cur->id); m->readers--; vjoin(m->rvc, cur->vc); }
  bump(cur); wake_obj(m);
  return 0;
}

static bool on() { return g_active && cur; }

}  // namespace sim

using namespace sim;

// =====================================================================================================
// interposed libc / libstdc++ entry points
// =====================================================================================================
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!on()) return real_pthread_create()(th, attr, fn, arg);
  sync_point(CALLER);
  bool det = false;
  if (attr) { int d; pthread_attr_getdetachstate(attr, &d); det = d == PTHREAD_CREATE_DETACHED; }
  if (choose(K_USER, 0, 2)) return EAGAIN;
  Thread* t = new_thread(fn, arg, det);
  *th = t->pth;
  count("threads");
  sync_point(CALLER);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!on()) return real_pthread_join()(th, ret);
  sync_point(CALLER);
  Thread* t = find_thread(th);
  if (!t) return ESRCH;
  if (t == cur) return EDEADLK;
  while (t->state != S_DONE) {
    // a lock cycle through the joined thread
    if (t->state == S_BLOCK && t->wait_what && t->wait_what[0] == 'l') {
      Mtx* x = (Mtx*)t->wait_obj; int hops = 0;
      while (x && x->owner >= 0 && hops++ < NT) {
        Thread* o = T[x->owner];
        if (o == cur) { static char b[2400]; describe_threads(b, sizeof(b)); fail("deadlock", "t%d joins t%d, which waits for a lock t%d holds:%s", cur->id, t->id, cur->id, b); }
        if (o->state == S_BLOCK && o->wait_what && o->wait_what[0] == 'l') x = (Mtx*)o->wait_obj; else break;
      }
    }
    block(t, "join", ~0ull, CALLER);
  }
  SV* s = sv_get((u64)t | 1ull << 62, false); if (s) vjoin(cur->vc, s->vc);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t th) { if (!on()) return real_pthread_detach()(th); Thread* t = find_thread(th); if (t) t->detached = true; return 0; }

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return real_pthread_mutex_lock()(m);
  if (g_quiet) { Mtx* x = mtx_get((int*)m); if (x->owner != -1 && !(x->owner == cur->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) harness_error("lock contention in bookkeeping code"); x->owner = cur->id; x->count++; return 0; }
  lock_mem(m, sizeof(*m), CALLER); sync_point(CALLER);
  return mutex_lock_impl(m, CALLER, ~0ull, true);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return real_pthread_mutex_trylock()(m);
  lock_mem(m, sizeof(*m), CALLER); sync_point(CALLER);
  Mtx* x = mtx_get((int*)m);
  if (x->owner == cur->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
  if (x->owner != -1) return EBUSY;
  return mutex_lock_impl(m, CALLER, ~0ull, false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  lock_mem(m, sizeof(*m), CALLER); sync_point(CALLER);
  return mutex_lock_impl(m, CALLER, deadline(CLOCK_REALTIME, ts), true);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  lock_mem(m, sizeof(*m), CALLER); sync_point(CALLER);
  return mutex_lock_impl(m, CALLER, deadline(c, ts), true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return real_pthread_mutex_unlock()(m);
  if (g_quiet) { Mtx* x = mtx_get((int*)m); if (--x->count == 0) x->owner = -1; return 0; }
  lock_mem(m, sizeof(*m), CALLER);
  int r = mutex_unlock_impl(m);
  sync_point(CALLER);
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return real_pthread_cond_wait()(c, m); return cond_wait_impl(c, m, ~0ull, CALLER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait_impl(c, m, deadline(CLOCK_REALTIME, ts), CALLER); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cond_wait_impl(c, m, deadline(k, ts), CALLER); }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) return real_pthread_cond_signal()(c); cond_wake(c, false, CALLER); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) return real_pthread_cond_broadcast()(c); cond_wake(c, true, CALLER); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (on() && !g_quiet) {
    int id = *(int*)c;
    if (id >= 0x20000000 && id - 0x20000000 < ncnd) for (int i = 0; i < cnd[id - 0x20000000]->n; ++i) {
      Thread* w = T[cnd[id - 0x20000000]->w[i]];
      if (w->state == S_BLOCK && w->wait_obj == cnd[id - 0x20000000]) fail("destroyed-in-use", "a condition variable is destroyed while t%d waits on it", w->id);
    }
  }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p) { return on() && !g_quiet ? rw_rd(p, CALLER, ~0ull, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { return on() && !g_quiet ? rw_rd(p, CALLER, ~0ull, true) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) { return on() && !g_quiet ? rw_wr(p, CALLER, ~0ull, false) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { return on() && !g_quiet ? rw_wr(p, CALLER, ~0ull, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) { return on() && !g_quiet ? rw_un(p, CALLER) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* p, const struct timespec* ts) { return rw_rd(p, CALLER, deadline(CLOCK_REALTIME, ts), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* p, const struct timespec* ts) { return rw_wr(p, CALLER, deadline(CLOCK_REALTIME, ts), false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* p, clockid_t c, const struct timespec* ts) { return rw_rd(p, CALLER, deadline(c, ts), false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* p, clockid_t c, const struct timespec* ts) { return rw_wr(p, CALLER, deadline(c, ts), false); }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  int* st = (int*)o;
  if (!on() || g_quiet) { if (*st != 2) { *st = 2; fn(); } return 0; }
  sync_point(CALLER);
  while (*st == 1) block(o, "once", ~0ull, CALLER);
  if (*st == 0) {
    *st = 1;
    try { fn(); } catch (...) { *st = 0; wake_obj(o); throw; }
    *st = 2; hb_release(o); wake_obj(o);
  } else hb_acquire(o);
  return 0;
}

// function-local statics
int __cxa_guard_acquire(u64* g) {
  u8* b = (u8*)g;
  if (b[0]) { if (on()) hb_acquire(g); return 0; }
  if (!on() || g_quiet) { b[1] = 1; return 1; }
  while (b[1]) { block(g, "static-init", ~0ull, CALLER); if (b[0]) { hb_acquire(g); return 0; } }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(u64* g) { u8* b = (u8*)g; b[0] = 1; b[1] = 0; if (on()) { hb_release(g); wake_obj(g); } }
void __cxa_guard_abort(u64* g) { u8* b = (u8*)g; b[1] = 0; if (on()) wake_obj(g); }

// semaphores
int sem_init(sem_t* s, int, unsigned v) { ((int*)s)[0] = (int)v; ((int*)s)[1] = 0; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { lock_mem(s, 8, CALLER); ((int*)s)[0]++; if (on()) { hb_release(s); wake_obj(s); sync_point(CALLER); } return 0; }
int sem_wait(sem_t* s) { lock_mem(s, 8, CALLER); sync_point(CALLER); while (((int*)s)[0] <= 0) { block(s, "semaphore", ~0ull, CALLER); if (cur->interrupted) { errno = EINTR; return -1; } } ((int*)s)[0]--; hb_acquire(s); return 0; }
int sem_trywait(sem_t* s) { lock_mem(s, 8, CALLER); sync_point(CALLER); if (((int*)s)[0] <= 0) { errno = EAGAIN; return -1; } ((int*)s)[0]--; hb_acquire(s); return 0; }
int sem_timedwait(sem_t* s, const struct timespec* ts) { lock_mem(s, 8, CALLER); sync_point(CALLER); u64 d = deadline(CLOCK_REALTIME, ts); while (((int*)s)[0] <= 0) { if (g_now >= d) { errno = ETIMEDOUT; return -1; } block(s, "semaphore", d, CALLER); } ((int*)s)[0]--; hb_acquire(s); return 0; }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { lock_mem(s, 8, CALLER); sync_point(CALLER); u64 d = deadline(c, ts); while (((int*)s)[0] <= 0) { if (g_now >= d) { errno = ETIMEDOUT; return -1; } block(s, "semaphore", d, CALLER); } ((int*)s)[0]--; hb_acquire(s); return 0; }

// futex system call (std::future and friends inside libstdc++)
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on() && !g_quiet) {
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point(CALLER);
      if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      u64 until = ~0ull;
      if (d) { struct timespec* ts = (struct timespec*)d; until = op == FUTEX_WAIT ? g_now + ts_us(ts) : deadline(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); if (until <= g_now) { errno = ETIMEDOUT; return -1; } }
      block((void*)a, "futex", until, CALLER);
      if (cur->woken) return 0;
      if (cur->interrupted) { errno = EINTR; return -1; }
      if (cur->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sync_point(CALLER);
      int k = 0;
      for (int i = 0; i < nthreads && k < (int)c; ++i) if (T[i]->state == S_BLOCK && T[i]->wait_obj == (void*)a) { T[i]->woken = true; make_runnable(T[i]); ++k; }
      return k;
    }
  }
  long ret = rawcall(n, a, b, c, d, e, f);
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}

// time
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!on()) return real_clock_gettime()(c, ts);
  if (!g_quiet) g_now++;
  u64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? (u64)((int64_t)(WALL0 + g_now) + g_wall_off) : MONO0 + g_now;
  ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (!on()) return real_gettimeofday()(tv, tz);
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) noexcept {
  if (!on()) return real_time()(p);
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec;
}
static int do_sleep(u64 us, struct timespec* rem, uptr pc) {
  sync_point(pc);
  if (K.p_jump) { u64 j = choose(K_LATE, K.p_jump, 7); if (j) { static const int64_t J[] = {0, 3600000000ll, -3600000000ll, 150000, -150000, 50000, -50000}; g_wall_off += J[j]; count("fault.clock_jump"); } }
  u64 until = g_now + us;
  while (g_now < until) {
    block(nullptr, "sleep", until, pc);
    if (cur->interrupted && g_now < until) { if (rem) { u64 l = until - g_now; rem->tv_sec = l / 1000000; rem->tv_nsec = (l % 1000000) * 1000; } errno = EINTR; return -1; }
  }
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) { if (!on() || g_quiet) return real_nanosleep()(ts, rem); return do_sleep(ts_us(ts), rem, CALLER); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!on() || g_quiet) return 0;
  u64 us;
  if (flags & TIMER_ABSTIME) { u64 d = deadline(c, ts); us = d > g_now ? d - g_now : 0; } else us = ts_us(ts);
  return do_sleep(us, rem, CALLER) == 0 ? 0 : EINTR;
}
int usleep(useconds_t us) { return do_sleep(us, nullptr, CALLER); }
unsigned sleep(unsigned s) { do_sleep((u64)s * 1000000, nullptr, CALLER); return 0; }
int sched_yield(void) noexcept {
  if (!on() || g_quiet) return real_sched_yield()();
  // a yielding thread lets every other runnable thread go first; if there is none, time passes
  Thread* t = cur;
  g_now++;
  ++g_seq; if (g_seq > g_cap_steps) fail("livelock", "step cap reached without the run finishing");
  fire_due();
  bool other = false;
  for (int i = 0; i < nthreads; ++i) if (T[i] != t && T[i]->state == S_RUN) other = true;
  if (g_nosched) return 0;
  if (other) {
    u64 c = ++t->ctr[K_PICK], v = 0; int cand[NT], n = 0;
    for (int k = 1; k < nthreads; ++k) { int i = (t->id + k) % nthreads; if (T[i]->state == S_RUN) cand[n++] = i; }
    u64 key = dkey(t->id, K_PICK, c);
    if (g_replay) { v = rep_get(key); if (v >= (u64)n) v = n - 1; } else { v = rng.below(n); if (v) record(key, v); }
    switch_to(T[cand[v]], CALLER);
  } else if (nheap) advance();
  if (t->npending && !t->in_sig) deliver_signals();
  return 0;
}

// randomness: distinct values, a pure function of the run
static u64 g_rand_ctr = 0;
static u32 next_random() { u64 z = ++g_rand_ctr * 0x9E3779B97F4A7C15ull; u32 x = (u32)g_rand_ctr * 2654435761u; x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 12; (void)z; return x; }
ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((u8*)b)[i] = (u8)next_random(); return (ssize_t)n; }

// ---- instrumentation entry points ------------------------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) { if (!g_active || !cur) return; Thread* t = cur; if (t->sdepth >= 0 && t->sdepth < SSTK) t->spc[t->sdepth] = (uptr)pc; t->sdepth++; }
void __tsan_func_exit(void) { if (!g_active || !cur) return; if (cur->sdepth > 0) cur->sdepth--; }
#define ACC(n, sz, w) void n(void* a) { if (g_quiet) return; access((uptr)a, sz, w, false, CALLER); }
ACC(__tsan_read1, 1, false) ACC(__tsan_read2, 2, false) ACC(__tsan_read4, 4, false) ACC(__tsan_read8, 8, false) ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true) ACC(__tsan_write2, 2, true) ACC(__tsan_write4, 4, true) ACC(__tsan_write8, 8, true) ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false) ACC(__tsan_unaligned_read4, 4, false) ACC(__tsan_unaligned_read8, 8, false) ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true) ACC(__tsan_unaligned_write4, 4, true) ACC(__tsan_unaligned_write8, 8, true) ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false) ACC(__tsan_volatile_read2, 2, false) ACC(__tsan_volatile_read4, 4, false) ACC(__tsan_volatile_read8, 8, false)
ACC(__tsan_volatile_write1, 1, true) ACC(__tsan_volatile_write2, 2, true) ACC(__tsan_volatile_write4, 4, true) ACC(__tsan_volatile_write8, 8, true)
void __tsan_vptr_update(void** p, void* v) { if (g_quiet) return; if (arena_addr((uptr)p)) { tick(CALLER); addr_check((uptr)p, 8, true, CALLER, "(vtable pointer)"); } if (*p != v) access((uptr)p, 8, true, false, CALLER); }
void __tsan_vptr_read(void** p) { if (g_quiet) return; access((uptr)p, 8, false, false, CALLER); }
void __tsan_read_range(void* a, size_t n) { if (g_quiet || !n) return; tick(CALLER); range_access((uptr)a, n, false, false, CALLER, ""); }
void __tsan_write_range(void* a, size_t n) { if (g_quiet || !n) return; tick(CALLER); range_access((uptr)a, n, true, false, CALLER, ""); }

#define AT_PRE(a, sz, w) if (on() && !g_quiet) access((uptr)a, sz, w, true, CALLER);
#define AT_OPS(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { AT_PRE(a, sizeof(TY), false) if (on()) at_load((uptr)a, mo); return *a; } \
  void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_store((uptr)a, mo); *a = v; } \
  TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = v; return o; } \
  TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = (TY)(o + v); return o; } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = (TY)(o - v); return o; } \
  TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = (TY)(o & v); return o; } \
  TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = (TY)(o | v); return o; } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = (TY)(o ^ v); return o; } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { AT_PRE(a, sizeof(TY), true) if (on()) at_rmw((uptr)a, mo); TY o = *a; *a = (TY)~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { AT_PRE(a, sizeof(TY), true) if (*a == *c) { if (on()) at_rmw((uptr)a, mo); *a = v; return 1; } if (on()) at_load((uptr)a, fmo); *c = *a; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { AT_PRE(a, sizeof(TY), true) if (*a == *c) { if (on()) at_rmw((uptr)a, mo); *a = v; return 1; } if (on()) at_load((uptr)a, fmo); *c = *a; return 0; } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { AT_PRE(a, sizeof(TY), true) if (*a == c) { if (on()) at_rmw((uptr)a, mo); *a = v; return c; } if (on()) at_load((uptr)a, fmo); return *a; }
AT_OPS(8, u8) AT_OPS(16, uint16_t) AT_OPS(32, u32) AT_OPS(64, u64)
void __tsan_atomic_thread_fence(int mo) { if (on()) { if (!g_quiet) tick(CALLER); at_fence(mo); } }
void __tsan_atomic_signal_fence(int) {}

// memory functions called by the instrumented objects (their undefined symbols are renamed to these)
void* sim_memcpy(void* d, const void* s, size_t n) { if (on() && !g_quiet && n) { tick(CALLER); range_access((uptr)s, n, false, false, CALLER, "(memcpy source)"); range_access((uptr)d, n, true, false, CALLER, "(memcpy target)"); } return __builtin_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { if (on() && !g_quiet && n) { tick(CALLER); range_access((uptr)s, n, false, false, CALLER, "(memmove source)"); range_access((uptr)d, n, true, false, CALLER, "(memmove target)"); } return __builtin_memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if (on() && !g_quiet && n) { tick(CALLER); range_access((uptr)d, n, true, false, CALLER, "(memset)"); } return __builtin_memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { if (on() && !g_quiet && n) { tick(CALLER); range_access((uptr)a, n, false, false, CALLER, "(memcmp)"); range_access((uptr)b, n, false, false, CALLER, "(memcmp)"); } return __builtin_memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { if (on() && !g_quiet && n) { tick(CALLER); range_access((uptr)a, n, false, false, CALLER, "(memchr)"); } return (void*)__builtin_memchr(a, c, n); }
size_t sim_strlen(const char* s) {
  if (on() && !g_quiet && arena_addr((uptr)s)) { const char* p = s; do { addr_check((uptr)p, 1, false, CALLER, "(strlen)"); } while (*p++); }
  return __builtin_strlen(s);
}

}  // extern "C"

// C++ allocation
void* operator new(size_t n) { return new_impl(n, CALLER, false); }
void* operator new[](size_t n) { return new_impl(n, CALLER, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, CALLER, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, CALLER, true); }
void operator delete(void* p) noexcept { delete_impl(p, CALLER); }
void operator delete[](void* p) noexcept { delete_impl(p, CALLER); }
void operator delete(void* p, size_t) noexcept { delete_impl(p, CALLER); }
void operator delete[](void* p, size_t) noexcept { delete_impl(p, CALLER); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delete_impl(p, CALLER); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delete_impl(p, CALLER); }

// std::random_device: same ABI names as libstdc++'s out-of-line members
#include <random>
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_init_pretr1(const std::string&) {}
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() { if (on() && !g_quiet) { tick(CALLER); } return next_random(); }
unsigned std::random_device::_M_getval_pretr1() { return next_random(); }
double std::random_device::_M_getentropy() const noexcept { return 32; }
extern "C" void _ZNSt13random_device7_M_initEPKcm(void*, const char*, size_t) {}

namespace sim {
void quiet_enter() { ++g_quiet; }
void quiet_leave() { --g_quiet; }
void nosched_enter() { ++g_nosched; }
void nosched_leave() { --g_nosched; }
void loud_enter(int* v) { v[0] = g_quiet; v[1] = g_nosched; g_quiet = g_nosched = 0; }
void loud_leave(const int* v) { g_quiet = v[0]; g_nosched = v[1]; }
}
