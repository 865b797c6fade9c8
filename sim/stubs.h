// Simulated file system, dynamic loader, process environment, network and output.
#pragma once
#include "scen.h"
#include <string>
#include <vector>

// A violation of one property's own rule; ignored (counted) when another property is being checked.
void viol(const char* rule, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void set_prop(const std::string& p);
void also_prop(const char* p);          // this property's rules count as well
bool is_prop(const char* p);

// ---- file system ---------------------------------------------------------------------------
namespace fs {
enum Type { FILE_ = 0, DIR_ = 1, OTHER = 2, DANGLING = 3, LINK = 4 };   // LINK: content is the target
struct Faults { sim::u32 open_dir = 0, read_dir = 0, stat = 0, readlink = 0, cwd = 0, open_file = 0, short_read = 0, eintr = 0, eio = 0; };
extern Faults faults;
void enable(bool readdir_with_type);
int add(const std::string& path, Type t, const std::string& content = "");   // creates parents
void remove(const std::string& path);
void unreadable(const std::string& path);
void unreadable_file(const std::string& path);
bool exists(const std::string& path);
void set_env(const std::string& cwd, const std::string& exe);  // empty: not available
struct Handle;                        // one opendir stream, as seen by the oracle
struct Stream { std::string dir; std::vector<std::pair<std::string, int>> at_open; bool faulted = false; };
int open_streams();
unsigned fault_count(int tid);         // faults injected into calls of this thread
unsigned calls(int tid);               // file system calls of this thread
bool fault_since_mark();
void mark();
int streams_opened();
int files_opened(const std::string& path);
int file_fault(const std::string& path);   // 1 an open failed, 2 a read failed
int open_files();
}

// ---- dynamic loader --------------------------------------------------------------------------
namespace dl {
struct Lib { std::string path; void* create_info = nullptr; void* create_instance = nullptr; bool broken = false; int refs = 0, opens = 0, closes = 0; bool fail_now = false; };
extern std::vector<Lib*> libs;
struct Faults { sim::u32 open = 0, sym = 0, close = 0; };
extern Faults faults;
Lib* add(const std::string& path, void* info, void* inst, bool broken = false);
bool mapped(int lib);
void final_check(const char* where);
}

// ---- network (zmq) -----------------------------------------------------------------------------
namespace net {
struct Faults { sim::u32 create = 0, bind = 0, connect = 0, send = 0, msg = 0, ctx = 0, drop = 0, reset = 0, delay = 0, recv = 0, term = 0, term_signal = 0; long max_delay = 20000, hwm = 1000; };
extern Faults faults;
void enable();
void partition(bool on);
bool quiet_network();                  // everything delivered or dropped
void final_check();
// traffic of a peer that is not one of ours
int rogue_pub(const std::string& endpoint, bool bind);
void rogue_send(int peer, const std::vector<std::string>& frames);
int connections(); 
sim::u64 losses();                     // messages the network dropped so far
bool all_subscribed();
void break_connections();
// a connected subscriber stops reading for a while (0: for ever); which: picks the connection
void stall_peer(sim::u64 which, sim::u64 us);
int rogue_sub(const std::string& endpoint);   // a peer that receives and ignores everything
void stall_rogues();                          // these never read again
int live_contexts();
long held();                                  // messages (zmq_msg_t) with content that were not closed
}

// ---- output ---------------------------------------------------------------------------------------
namespace out {
void install();
extern sim::u32 p_fail;
const std::string& text();
bool failed();
size_t fail_at();                      // how much had been written when a write first failed
}

// ---- json-c: the real one, counted ------------------------------------------------------------------
namespace js { extern long tokeners, objects; long uses(); }
