// Driver helpers shared by the workloads (instrumented code; bookkeeping runs under Quiet).
#pragma once
#include "payload.h"
#include "stubs.h"
#include <lamppost/bus/Bus.h>
#include <thread>

typedef std::shared_ptr<lp::bus::Bus> BusP;
typedef std::shared_ptr<lp::bus::Subscriber> SubP;
typedef std::shared_ptr<lp::bus::Publisher> PubP;

// A cell through which driver threads hand each other handles: the taker sees what the giver did
// before giving; nothing else is ordered.
template <class T> struct Cell {
  T v; bool set = false;
  void put(const T& x) { sim::Quiet q; v = x; set = true; sim::hb_release(this); }
  T get() { sim::Quiet q; sim::hb_acquire(this); return v; }
  // moves the handle out; the caller's copy is then the one that gets dropped, outside bookkeeping
  T take() { sim::Quiet q; sim::hb_acquire(this); T x; std::swap(x, v); set = false; return x; }
};

struct MsgRec {
  long id = 0; int bus = 0; std::string topic, sender; sim::u64 shape = 0; int tid = 0;
  sim::u64 call = 0, ret = ~0ull, t_call = 0, t_ret = ~0ull;
  bool uncertain = false;        // the call failed (allocation): all or nothing
  bool nowhere = false;          // must not be delivered at all
  bool may_drop = false;         // concurrent with a detach: all or nothing
  sim::u64 busy_ret = 0;
  int ndel = 0;
  int copies = 1;                // published this many times in a row, all equal
};
struct Delivery { long msg; sim::u64 enter, exit, t_enter, t_exit = ~0ull; };
struct SubRec {
  int bus = 0; std::string topic; bool msgcb = false;
  sim::u64 create_call = 0, create_ret = ~0ull, del_call = ~0ull, del_ret = ~0ull, t_del_call = ~0ull;
  bool failed = false;           // creation threw
  int running = 0;
  long flags = 0;                // 1 scribble, 2 publish from inside, 4 slow, 8 new publisher inside
  std::vector<Delivery> dels;
  Cell<SubP> cell;
  bool queried_absent = false;
};
struct BusRec { int parent = -1; std::string name; Cell<BusP> cell; sim::u64 create_ret = 0; sim::u64 detach_call = ~0ull, detach_ret = ~0ull; bool ok = true; };
struct RunRec { sim::u64 call, ret = ~0ull, t_call, t_ret = ~0ull; };
struct StopRec { sim::u64 call, ret = ~0ull, t_call, t_ret = ~0ull; };

extern const char* const TOPICS[];
extern const int NTOPICS;
static inline std::string topic_name(long i) { sim::Quiet q; std::string t = TOPICS[((i % NTOPICS) + NTOPICS) % NTOPICS]; for (auto& c : t) if (c == 2) c = 0; return t; }   // \2 stands for NUL
static inline bool topic_match(const std::string& sub, const std::string& topic) { return sub == topic || sub == "/**/*"; }

struct World {
  std::vector<BusRec*> busses; std::vector<MsgRec*> msgs; std::vector<SubRec*> subs; std::vector<RunRec*> runs; std::vector<StopRec*> stops;
  sim::u64 cb_busy = 0; int in_cb = 0; sim::u64 cb_start = 0; sim::u64 last_delivery = 0;
  long inner_budget = 0;
  bool strict = false;           // compare contents in every callback
  bool run_returned = false; bool running_now = false;
  std::vector<PubP> inner_pubs;  // publishers used from inside callbacks
  std::vector<int> inner_bus; std::vector<std::string> inner_topic;
  bool tear_down = false;
  int cb_stops = 0; void (*on_cb_stop)() = nullptr;
  bool under(int b, int anc) const { while (b >= 0) { if (b == anc) return true; b = busses[b]->parent; } return false; }
  sim::u64 busy() { return cb_busy + (in_cb ? sim::now_us() - cb_start : 0); }
};
extern World* W;
World* new_world();

MsgRec* begin_msg(int bus, const std::string& topic, sim::u64 shape);   // assigns the id
void end_msg(MsgRec* m, bool ok);
SubRec* new_sub(int bus, const std::string& topic, bool msgcb, long flags);
// installs the recording callback; returns false if creation failed by allocation failure
bool create_sub(SubRec* s, BusP bus);
void delete_sub(SubRec* s, BusP bus);
void on_delivery(SubRec* s, lp::messages::Datagram d, lp::messages::Message* m);
// a publish through one of the public ways
void publish_via(int how, BusP bus, PubP pub, MsgRec* m);
// n equal messages in a row
MsgRec* publish_twins(int b, const std::string& topic, int how, PubP pub, sim::u64 shape, int n);
void check_history(bool all_drained);
void drain(sim::u64 max_us);
