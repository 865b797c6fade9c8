// Deterministic simulator core: scheduler, simulated clock, shadow memory, fault decisions.
// One OS thread runs at a time; who runs, what fails and what time it is, is decided here.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---- kinds of recorded decisions -------------------------------------------------------
enum Kind : u8 {
  K_SYNC = 1,   // at a synchronisation point: act (switch / stall / signal)
  K_ACC = 2,    // at a memory access: act
  K_PICK = 3,   // who runs next after a block
  K_NOTIFY = 4, // which waiter a notify wakes
  K_SPUR = 5,   // spurious wake-up after this many us (0 none)
  K_LATE = 6,   // timer fires late by this many us
  K_NET = 7,    // network stub
  K_FS = 8,     // file system stub
  K_DL = 9,     // dynamic loader stub
  K_USER = 10,  // workload
  K_OUT = 11,   // output stream faults
  K_MAX
};

struct Knobs {
  int policy = 0;          // 0 run-to-block, 1 random at sync points, 2 + random at accesses, 3 PCT, 4 starve one
  u32 p_sync = 0;          // probability (per 10000) of a switch at a sync point
  u32 acc_gap = 0;         // mean gap between access-level preemptions (0 = none)
  u32 p_stall = 0;         // per 10000, at sync points
  u32 p_spur = 0;          // per 10000, per timed wait
  u32 p_late = 0;          // per 10000, per timer
  u32 p_notify = 0;        // per 10000: notify picks a random waiter
  u32 p_sig = 0;           // per 1000000 per point: deliver a signal
  int sig_budget = 0;
  u32 p_jump = 0;          // per 10000 per sleep: wall clock jumps
  u32 pct_gap = 0;         // mean access gap between priority changes
  int starve_tid = -1;
};

struct Decision { u64 key; u64 val; };  // key: tid<<56 | kind<<48 | ctr

// What a run leaves behind (lives in shared memory).
struct Result {
  u32 status;              // 0 running, 1 ok, 2 violation, 3 cap (inconclusive), 4 harness error
  char rule[64];
  char msg[3800];
  u64 hash;                // hash of the whole event log
  u64 sched_hash;          // hash of the sequence of context switches (who, where)
  u64 steps, switches, accesses, sim_us, stall_us;
  u32 n_counts;
  struct { char name[40]; u64 n; } counts[160];
  u32 n_dec; u32 dec_overflow;
  u32 n_states;            // distinct abstract states noted by the workload
  u64 state_bits[256];     // bloom bits of abstract states reached
  u32 trace_len;
  char trace[1 << 20];
  Decision dec[1 << 20];
};

// ---- run control (host side) -----------------------------------------------------------
void host_init();                                     // once, in the zygote
void run(Result* res, const Knobs& k, u64 seed, const Decision* replay, u32 n_replay,
         bool replay_mode, bool want_trace, void (*body)(void*), void* arg);  // never returns: _exit

// ---- used by stubs and drivers ---------------------------------------------------------
u64 now_us();
u64 stall_us();
u64 stall_between(u64 t0, u64 t1);                    // injected delay that overlaps [t0, t1]
u64 stall_end();                                      // when the last injected delay ends
u64 seq();                                            // next global event number
int tid();
bool active();
[[noreturn]] void fail(const char* rule, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* name, u64 n = 1);              // fault / probe counters
void state(u64 h);                                    // abstract state reached
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void mix(u64 v);                                      // add to the event hash
// draws a value in [0,n); probability per 10000 of a non-zero one (uniform in 1..n-1)
u64 choose(Kind k, u32 p10000, u64 n);
void faults_off();                                    // no faults from now on; fair scheduling
void point();                                         // explicit scheduling point
void sleep_us(u64 us);
u64 next_deadline();                                  // when the next timed wait of another thread ends
void at(u64 delay_us, void (*fn)(void*, u64), void* arg, u64 a);   // timed event
bool block_on(void* obj, u64 timeout_us = ~0ull);     // block the current thread; false: interrupted by a signal
void wake_all(void* obj);
void race_access(const void* p, unsigned size, bool write, const char* what);
void check_range(const void* p, size_t n, bool write, const char* what); // addressability + race
void hb_release(void* obj);
void hb_acquire(void* obj);
void arm_alloc_failure(int nth);                      // nth allocation of this thread from now fails (0 off)
bool alloc_failure_fired();
uintptr_t heap_mark();                                // the end of the heap now
void heap_walk(uintptr_t from, uintptr_t to, void (*fn)(void*, uintptr_t pc, size_t n, int tid, uintptr_t p), void* arg);   // blocks in use
void* arena_alloc(size_t n);
void arena_free(void* p);
bool in_arena(const void* p);
void set_handler(int signo, void (*h)(int), bool reset = false);
void raise_signal(int tid, int signo);                // pending on that simulated thread (-1: any)
bool in_signal_handler();
bool handled(int signo);                              // a handler is installed (or the signal is ignored)
u64 first_signal_us();                                // when the first signal was handled (~0: none yet)
void signals_off();                                   // no further random signals, pending ones are dropped
int threads();                                        // simulated threads ever created
int open_threads();                                   // simulated threads not finished yet
bool done(int tid);
void wall_jump(int64_t us);

extern int g_quiet;
extern int g_nosched;
// out of line, so that instrumented code does not touch the counters itself
void quiet_enter(); void quiet_leave(); void nosched_enter(); void nosched_leave();
void loud_enter(int* save); void loud_leave(const int* save);
struct Quiet { Quiet() { quiet_enter(); } ~Quiet() { quiet_leave(); } };             // bookkeeping: untracked, atomic
struct NoSched { NoSched() { nosched_enter(); } ~NoSched() { nosched_leave(); } };   // tracked, but never preempted
struct Loud { int v[2]; Loud() { loud_enter(v); } ~Loud() { loud_leave(v); } };

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(u32 per10000) { return below(10000) < per10000; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
};

}  // namespace sim
