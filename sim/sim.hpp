// Deterministic simulator for EigenIPC: public interface used by worlds and adapters.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  long logu(long lo, long hi);  // log-uniform in [lo,hi]
};

// A fault attached to an operation of a simulated process. `at` counts inside the operation:
//   kill  : die at the at-th step               stall : sleep arg ns at the at-th step
//   sys   : at-th failable system call -> errno arg
//   eintr : at-th blocking wait is interrupted after arg ns (or at once)
//   alloc : at-th heap allocation fails          spur  : at-th condition wait wakes spuriously after arg ns
//   jump  : wall clock jumps by arg ns at the at-th step
struct Fault { std::string kind; long at = 1; long arg = 0; };

struct Op { std::string k; std::vector<long> a; std::vector<std::string> s; std::vector<Fault> f; };
struct ProcPlan { std::vector<Op> ops; };
struct Plan {
  std::string world;
  std::map<std::string, long> par;
  std::vector<ProcPlan> procs;
  long get(const std::string& k, long d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
};

// Scheduler decision, keyed by (process, its local step)
struct Decision { int proc; uint64_t lstep; char kind; long arg; };  // kind 's'witch to arg, 'p'ause arg ns

struct RunCfg {
  uint64_t seed = 1;
  bool replay = false;               // take decisions from `sched` only
  std::vector<Decision> sched;
  bool trace = false;
  uint64_t step_cap = 3000000;
  int64_t horizon = 8000000000ll;    // virtual time after which waiting is taken for good
};

struct MemFault { int proc; std::string what; };

struct KernelStats {
  uint64_t steps = 0, switches = 0, preempts = 0, pauses = 0;
  int64_t vtime = 0;
  int64_t slack_ns = 0;                    // virtual time used by steps, stalls and pauses of all processes
  std::map<std::string, uint64_t> faults;  // fired, by kind
  uint64_t states = 0;
};

struct Quiescence { enum K { Done, Deadlock, StepCap } k; };

// ---- life cycle of one run
void init_process();                         // once per OS process
void begin_run(const RunCfg& cfg);
int spawn(const std::string& name, std::function<void()> body);
Quiescence run_all();
void end_run();

// ---- from inside a simulated process
int self();                                  // -1 outside
bool in_sim();
void op_begin(const std::vector<Fault>* faults, int opidx);
void op_end();
void sleep_ns(int64_t ns);
void boundary();                             // scheduling opportunity between operations
void wait_until(std::function<bool()> pred, int64_t timeout_ns = -1);  // harness level blocking
int lib_depth(int n);                        // set library depth, returns the old one
void exit_now();                             // orderly process exit
extern void (*switch_out)();
extern void (*switch_in)();
extern bool auto_lib;
int auto_depth();
struct Lib { Lib(); ~Lib(); };               // code inside runs as library code

// ---- queries (harness)
uint64_t seq();                              // global event counter (increments)
int64_t now();                               // virtual monotonic ns
int64_t now_real();
uint64_t local_steps(int p);
uint64_t op_blocked_ns();                    // virtual time the current op spent blocked
enum PState { PS_READY, PS_BLOCKED, PS_DONE, PS_DEAD };
PState pstate(int p);
const std::string& death(int p);             // why a process died ("" if not)
bool killed_by_plan(int p);
std::string waiting_on(int p);
int nprocs();
const std::vector<MemFault>& memfaults();
uint64_t run_hash();
uint64_t path_hash();
void hash_in(uint64_t v);
const std::vector<Decision>& decisions();    // made in this run (record mode)
KernelStats& stats();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
const std::vector<std::string>& trace_lines();

// resource tables
struct Usage { int fds, maps, sems; long map_bytes; int bad_close, foreign_close, bad_unmap, bad_semclose; };
Usage usage(int p);
int open_bystander_fd();                     // a descriptor of the application, not of the library
int bystanders_alive(int p);
struct NameInfo { std::string name; bool sem; size_t size; int value; };
std::vector<NameInfo> names();               // currently linked shm objects and semaphores
std::vector<uint8_t> shm_bytes(const std::string& name);
void put_shm(const std::string& name, const std::vector<uint8_t>& bytes);
bool unlink_name(const std::string& name, bool sem);
// lock-truth used only for diagnostics
uint64_t gone_seq(int p);                    // event number of the death or exit of p, ~0 while alive
int64_t gone_time(int p);
long live_heap(int p);                       // library heap blocks not freed by process p

const std::vector<char>& op_fired();         // which faults of the current op fired
void no_inject(int delta);                   // >0: allocations are not fault sites (adapter buffers)
int held_sems(int p);                        // semaphore units taken and not given back by p
uint64_t fault_sites();                      // failable calls seen in current op

}  // namespace sim
