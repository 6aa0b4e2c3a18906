// Simulated kernel, scheduler, seams and instrumentation runtime.
#include "sim.hpp"
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <deque>
#include <memory>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <time.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start, etext;
extern char __lib_data_start, __lib_data_end;
void* __cxa_get_globals(void);
int __cxa_atexit(void (*)(void*), void*, void*) noexcept;
}

namespace sim {

long Rng::logu(long lo, long hi) {
  double a = std::log((double)lo), b = std::log((double)hi + 1.0);
  long v = (long)std::exp(a + (b - a) * unit());
  return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ layout of the simulated address space
static constexpr int MAXP = 16;
static constexpr uintptr_t HEAP_BASE = 0x100000000000ull;
static constexpr size_t HEAP_PER = 32ull << 20;
static constexpr size_t HEAP_SIZE = HEAP_PER * MAXP;
static constexpr uintptr_t SHADOW_BASE = 0x110000000000ull;
static constexpr uintptr_t SHM_BASE = 0x120000000000ull;
static constexpr size_t PAGE = 4096;
static constexpr int NPAGES = 8192;                 // 32 MB of simulated physical memory
static constexpr size_t WIN = (size_t)NPAGES * PAGE;
static constexpr int ALIASES = 4;
static constexpr int NWIN = MAXP * ALIASES;
static constexpr size_t SHM_SIZE = WIN * NWIN;
static constexpr uintptr_t SEM_BASE = 0x130000000000ull;
static constexpr int SEMS_PER = 512;
static constexpr size_t SEM_SIZE = (size_t)MAXP * SEMS_PER * sizeof(sem_t);
static constexpr size_t STACK = 1 << 20;
static constexpr int64_t NEVER = INT64_MAX;

struct Obj { std::string name; bool linked; size_t size; int page0, npages, used; int id; bool shrunk = false; };
struct Sem { std::string name; bool linked; int value; int id; };
struct SemH { Sem* s; int refs; };
struct Fd { bool open; Obj* obj; bool bystander; int off; };
struct Map { uintptr_t addr; size_t len; Obj* obj; size_t off; int proc; bool live; bool ro; int idx; bool cut = false; };
struct Mutex { int owner = -1; int count = 0; bool robust = false; bool inconsistent = false; bool recursive = false; bool notrec = false; bool inited = false; };
struct Cond { std::deque<std::pair<int, uint64_t>> waiters; };

enum WK { W_NONE, W_SEM, W_MUTEX, W_COND, W_SLEEP, W_PRED };

struct Proc {
  int id; std::string name; std::function<void()> body;
  void* sp = nullptr; char* stack = nullptr;
  PState st = PS_READY; std::string death; bool killed = false;
  WK wk = W_NONE; void* wobj = nullptr; int64_t deadline = NEVER; bool dl_real = false; int64_t intr_at = NEVER;
  bool cond_signalled = false; uint64_t cond_ticket = 0;
  std::function<bool()>* pred = nullptr;
  int64_t stall_until = 0;
  uint64_t lstep = 0, next_ev = 0, next_preempt = ~0ull, last_in = 0;
  int lib = 0, autod = 0;
  // op state
  const std::vector<Fault>* faults = nullptr; std::vector<char> fired; int opidx = -1;
  uint64_t op0 = 0; int sysn = 0, allocn = 0, blockn = 0, condn = 0; int64_t blocked_ns = 0;
  uint64_t pause_at = ~0ull; int64_t pause_ns = 0;
  // resources
  std::vector<Fd> fds; std::vector<Map*> maps; std::vector<SemH> semh;
  int bad_close = 0, foreign_close = 0, bad_unmap = 0, bad_semclose = 0;
  // heap
  size_t heap_used = 0; long live = 0;
  std::map<int, int> held; int held_at_death = 0; bool attr_pause = false;
  // saved per-process context
  char eh[16] = {0}; int err = 0; std::vector<char> libdata;
  size_t rp_s = 0, rp_p = 0; uint64_t gone = ~0ull; int64_t gone_t = NEVER;
};

struct Sim {
  bool active = false;
  RunCfg cfg; Rng srng{1}; Rng krng{1};
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<std::unique_ptr<Obj>> objs; std::map<std::string, Obj*> shm;
  std::vector<std::unique_ptr<Sem>> sems; std::map<std::string, Sem*> semns;
  std::vector<std::unique_ptr<Map>> maps; std::vector<int> free_maps;
  std::unordered_map<uint64_t, Mutex> mtx; std::unordered_map<uint64_t, Cond> cnd;
  std::unordered_map<uint64_t, Sem*> unnamed;
  int next_page = 1; uint64_t ticket = 0, seqc = 0;
  int64_t clk = 0, rt_off = 0;
  KernelStats st; std::vector<Decision> dec; std::vector<MemFault> mf;
  std::vector<std::string> tl; uint64_t h = 0, ph = 0; bool capped = false;
  double p_mem = 0, p_sys = 0, p_pause = 0; bool cond_lifo = false; int memcost = 50, syscost = 500; uint8_t fill = 0xA5;
  std::vector<std::map<uint64_t, long>> rs, rp;  // replay tables per proc+1
  int forced = -1;
  int last = -1; uint64_t last_step = 0;
};

static Sim* S = nullptr;
static Proc* cur = nullptr;      // process whose fiber is running
static void* sched_sp = nullptr;
static int loaded = -1;          // whose library statics are in place
static std::vector<char> pristine;
static uint8_t* shadow = (uint8_t*)SHADOW_BASE;
static uint16_t (*pmap)[NPAGES] = nullptr;  // [window][page] -> map index + 1
static char* stacks[MAXP];
static bool ready_ = false;

template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(fn) ([]() { static auto p = real<decltype(&fn)>(#fn); return p; }())

static void mix(uint64_t v) { if (S) { S->h = (S->h ^ v) * 0x100000001b3ull; S->h ^= S->h >> 29; } }
void hash_in(uint64_t v) { mix(v); }
static void mixs(const char* s) { while (*s) mix((unsigned char)*s++); }

bool tracing() { return S && S->cfg.trace; }
void trace(const char* fmt, ...) {
  if (!S || !S->cfg.trace) return;
  int sl = 0; if (cur) { sl = cur->lib; cur->lib = 0; }
  char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  char c[700]; snprintf(c, sizeof c, "%10.3fus P%-2d #%-5llu %s", S->clk / 1000.0, cur ? cur->id : -1,
                        cur ? (unsigned long long)cur->lstep : 0ull, b);
  S->tl.push_back(c);
  if (cur) cur->lib = sl;
}
const std::vector<std::string>& trace_lines() { return S->tl; }

// ------------------------------------------------------------------ context switch
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void** save, void* to);

static void load_statics(int id) {
  size_t n = &__lib_data_end - &__lib_data_start;
  if (loaded == id || n == 0) return;
  if (loaded >= 0 && loaded < (int)S->procs.size()) memcpy(S->procs[loaded]->libdata.data(), &__lib_data_start, n);
  memcpy(&__lib_data_start, S->procs[id]->libdata.data(), n);
  loaded = id;
}

void (*switch_out)() = nullptr;   // an interpreter's per-process state changes hands here
void (*switch_in)() = nullptr;
bool auto_lib = false;            // library functions called from outside enter library mode on their own
static void to_sched() {
  Proc* p = cur; int lib = p->lib, at = p->autod; p->lib = 0; p->autod = 0;
  if (switch_out) switch_out();
  memcpy(p->eh, __cxa_get_globals(), 16); p->err = errno;
  cur = nullptr;
  sim_switch(&p->sp, sched_sp);
  cur = p;
  memcpy(__cxa_get_globals(), p->eh, 16); errno = p->err;
  if (switch_in) switch_in();
  p->lib = lib; p->autod = at;
}

static void resume(Proc* p) {
  load_statics(p->id);
  p->last_in = p->lstep;
  char save[16]; memcpy(save, __cxa_get_globals(), 16);
  cur = p; memcpy(__cxa_get_globals(), p->eh, 16); errno = p->err;
  sim_switch(&sched_sp, p->sp);
  cur = nullptr;
  memcpy(__cxa_get_globals(), save, 16);
}

static void release_all(Proc* p);
[[noreturn]] static void die(const std::string& why, bool killed) {
  Proc* p = cur; p->lib = 0;
  p->lstep++;
  if (S->cfg.trace) trace("process dies: %s", why.c_str());
  mixs("die"); mix(p->id);
  p->death = why; p->killed = killed; p->st = PS_DEAD;
  release_all(p);
  for (;;) to_sched();
}
static std::string g_segv_why;
static void die_entry() { std::string w = g_segv_why; die(w, false); }

static void fiber_main() {
  Proc* p = cur;
  try { p->body(); }
  catch (...) { die("exception escaped the process main", false); }
  p->lib = 0; p->lstep++;
  trace("process exits");
  mix(0xE417 + p->id);
  p->st = PS_DONE;
  release_all(p);
  for (;;) to_sched();
}
extern "C" void sim_fiber_entry() { fiber_main(); abort(); }

void exit_now() {
  Proc* p = cur; p->lib = 0; p->lstep++; trace("process exits (abrupt)");
  p->st = PS_DONE; release_all(p);
  for (;;) to_sched();
}

// ------------------------------------------------------------------ scheduling
static int64_t deadline_of(Proc* p) { return p->deadline == NEVER ? NEVER : p->dl_real ? p->deadline - S->rt_off : p->deadline; }
static uint64_t mkey(void* a);
static bool cond_ok(Proc* p) {
  switch (p->wk) {
    case W_SEM: return ((Sem*)p->wobj)->value > 0;
    case W_MUTEX: { Mutex* m = (Mutex*)p->wobj; return m->owner < 0; }
    case W_COND: return p->cond_signalled;
    case W_PRED: return p->pred && (*p->pred)();
    default: return false;
  }
}
static bool eligible(Proc* p) {
  if (p->st == PS_DONE || p->st == PS_DEAD) return false;
  if (S->clk < p->stall_until) return false;
  if (p->st == PS_READY) return true;
  return cond_ok(p) || S->clk >= deadline_of(p) || S->clk >= p->intr_at;
}
static int64_t next_timer(Proc* p) {
  if (p->st == PS_DONE || p->st == PS_DEAD) return NEVER;
  if (p->stall_until == NEVER) return NEVER;
  int64_t t;
  if (p->st == PS_READY || cond_ok(p)) t = p->stall_until;
  else t = std::min(deadline_of(p), p->intr_at);
  if (t == NEVER) return NEVER;
  return std::max(t, p->stall_until);
}

static void recompute(Proc* p) {
  uint64_t n = p->last_in + 3000;
  if (p->faults)
    for (size_t i = 0; i < p->faults->size(); i++) {
      const Fault& f = (*p->faults)[i];
      if (!p->fired[i] && (f.kind == "kill" || f.kind == "stall" || f.kind == "hang" || f.kind == "jump")) n = std::min<uint64_t>(n, p->op0 + f.at);
    }
  if (S->cfg.replay) {
    auto& ms = S->rs[p->id + 1]; auto& mp = S->rp[p->id + 1];
    auto i = ms.upper_bound(p->lstep); if (i != ms.end()) n = std::min(n, i->first);
    auto j = mp.upper_bound(p->lstep); if (j != mp.end()) n = std::min(n, j->first);
  } else {
    n = std::min(n, std::min(p->next_preempt, p->pause_at));
  }
  p->next_ev = n;
}
static void new_preempt(Proc* p) {
  if (S->cfg.replay || S->p_mem <= 0) { p->next_preempt = ~0ull; return; }
  double u = S->srng.unit();
  uint64_t g = 1 + (uint64_t)(std::log(1.0 - u) / std::log(1.0 - S->p_mem));
  p->next_preempt = p->lstep + g;
}
static void fire(const std::string& k) { S->st.faults[k]++; mixs(k.c_str()); }

static void do_pause(Proc* p, int64_t ns) {
  S->st.pauses++; S->st.slack_ns += ns; trace("paused for %lld ns", (long long)ns);
  p->stall_until = S->clk + ns; S->forced = -1; to_sched();
}

static void slow(Proc* p, bool sys) {
  int lib = p->lib; p->lib = 0;
  if (S->st.steps > S->cfg.step_cap) { S->capped = true; S->forced = -1; to_sched(); }
  if (p->faults)
    for (size_t i = 0; i < p->faults->size(); i++) {
      const Fault& f = (*p->faults)[i];
      if (p->fired[i] || p->lstep < p->op0 + f.at) continue;
      if (f.kind == "kill") { p->fired[i] = 1; fire("kill"); die("killed", true); }
      if (f.kind == "stall") { p->fired[i] = 1; fire("stall"); do_pause(p, f.arg); }
      if (f.kind == "hang") { p->fired[i] = 1; fire("hang"); trace("process hangs"); p->stall_until = NEVER; S->forced = -1; to_sched(); }
      if (f.kind == "jump") { p->fired[i] = 1; fire("clockjump"); S->rt_off += f.arg; trace("wall clock jumps by %ld ns", f.arg); }
    }
  if (S->cfg.replay) {
    auto& mp = S->rp[p->id + 1]; auto j = mp.find(p->lstep);
    if (j != mp.end()) do_pause(p, j->second);
    auto& ms = S->rs[p->id + 1]; auto i = ms.find(p->lstep);
    if (i != ms.end()) {
      int t = (int)i->second;
      if (t >= 0 && t < (int)S->procs.size() && t != p->id && eligible(S->procs[t].get())) {
        S->st.preempts++; S->forced = t; to_sched();
      }
    }
    if (p->lstep >= p->last_in + 3000) {   // only after decisions were taken away: keep the schedule fair
      int t = -1; for (size_t k = 1; k < S->procs.size() && t < 0; k++) { int q = (int)((p->id + k) % S->procs.size()); if (eligible(S->procs[q].get())) t = q; }
      if (t >= 0) { S->st.preempts++; S->forced = t; to_sched(); } else p->last_in = p->lstep;
    }
  } else {
    if (p->lstep >= p->pause_at) {
      p->pause_at = ~0ull; S->dec.push_back({p->id, p->lstep, 'p', (long)p->pause_ns});
      S->st.faults["pause"]++;
      do_pause(p, p->pause_ns);
    }
    bool want = false;
    if (p->lstep >= p->next_preempt) { want = true; new_preempt(p); }
    if (sys && S->p_sys > 0 && S->srng.chance(S->p_sys)) want = true;
    if (p->lstep >= p->last_in + 3000) want = true;
    if (want) {
      int el[MAXP], n = 0;
      for (auto& q : S->procs) if (q.get() != p && eligible(q.get())) el[n++] = q->id;
      if (n) {
        int t = el[S->srng.below(n)];
        S->dec.push_back({p->id, p->lstep, 's', t});
        S->st.preempts++; S->forced = t; to_sched();
      } else p->last_in = p->lstep;
    }
  }
  recompute(p);
  p->lib = lib;
}

static inline void point(bool sys) {
  Proc* p = cur;
  S->st.steps++; p->lstep++; { int64_t c = sys ? S->syscost : S->memcost; S->clk += c; S->st.slack_ns += c; }
  if (sys || p->lstep >= p->next_ev) slow(p, sys);
}
static inline bool simmed() { return cur && cur->lib > 0; }

void boundary() {
  Proc* p = cur; S->st.steps++; p->lstep++; S->clk += S->syscost; S->st.slack_ns += S->syscost;
  slow(p, true);
}

enum BlockRes { B_COND, B_TIMEOUT, B_INTR };
static BlockRes block(WK wk, void* obj, int64_t deadline, bool real, bool intr_ok) {
  Proc* p = cur; p->lstep++; S->st.steps++;
  int lib = p->lib; p->lib = 0;
  int64_t t0 = S->clk;
  p->intr_at = NEVER;
  if (intr_ok) {
    p->blockn++;
    if (p->faults)
      for (size_t i = 0; i < p->faults->size(); i++) {
        const Fault& f = (*p->faults)[i];
        if (!p->fired[i] && f.kind == "eintr" && f.at == p->blockn) { p->fired[i] = 1; p->intr_at = S->clk + f.arg; }
      }
  }
  p->st = PS_BLOCKED; p->wk = wk; p->wobj = obj; p->deadline = deadline; p->dl_real = real;
  S->forced = -1; to_sched();
  BlockRes r = B_COND;
  if (!cond_ok(p)) {
    if (S->clk >= p->intr_at) { r = B_INTR; fire("eintr"); trace("interrupted by a signal"); }
    else r = B_TIMEOUT;
  }
  p->st = PS_READY; p->wk = W_NONE; p->wobj = nullptr; p->deadline = NEVER; p->intr_at = NEVER;
  p->blocked_ns += S->clk - t0;
  recompute(p);
  p->lib = lib;
  return r;
}

void sleep_ns(int64_t ns) {
  Proc* p = cur; int lib = p->lib; p->lib = 0;
  block(W_SLEEP, nullptr, S->clk + ns, false, false);
  p->lib = lib;
}
void wait_until(std::function<bool()> pred, int64_t timeout) {
  Proc* p = cur;
  int64_t dl = timeout < 0 ? NEVER : S->clk + timeout;
  while (!pred()) {
    p->pred = &pred;
    BlockRes r = block(W_PRED, nullptr, dl, false, false);
    p->pred = nullptr;
    if (r == B_TIMEOUT) break;
  }
  slow(p, true);
}

static Proc* pick() {
  int el[MAXP], n = 0;
  for (auto& q : S->procs) if (eligible(q.get())) el[n++] = q->id;
  if (!n) return nullptr;
  int lp = S->last; uint64_t ls = S->last_step;
  if (S->cfg.replay) {
    auto& ms = S->rs[lp + 1]; auto i = ms.find(ls);
    if (i != ms.end()) for (int k = 0; k < n; k++) if (el[k] == (int)i->second) return S->procs[el[k]].get();
    for (int k = 0; k < n; k++) if (el[k] >= lp) return S->procs[el[k]].get();
    return S->procs[el[0]].get();
  }
  int t = el[n == 1 ? 0 : S->srng.below(n)];
  if (n > 1) S->dec.push_back({lp, ls, 's', t});
  return S->procs[t].get();
}

Quiescence run_all() {
  S->last = -1; S->last_step = 0;
  for (;;) {
    if (S->capped && getenv("SIM_DUMP")) for (auto& q : S->procs) fprintf(stderr, "P%d st %d stall %ld clk %ld lstep %lu last_in %lu wk %d dl %ld\n", q->id, (int)q->st, (long)q->stall_until, (long)S->clk, q->lstep, q->last_in, (int)q->wk, (long)q->deadline);
    if (S->capped) return {Quiescence::StepCap};
    if (S->clk > S->cfg.horizon) break;
    Proc* p = nullptr;
    if (S->forced >= 0) { p = S->procs[S->forced].get(); S->forced = -1; }
    else p = pick();
    if (!p) {
      int64_t t = NEVER;
      for (auto& q : S->procs) t = std::min(t, next_timer(q.get()));
      if (t == NEVER) break;
      if (S->clk < t) S->clk = t;
      // a predicate may depend on time; avoid endless idle loops
      if (S->clk > (int64_t)3600 * 1000000000ll * 24 * 365) break;
      continue;
    }
    S->st.switches++;
    mix(p->id * 131 + p->lstep);
    S->ph = (S->ph ^ (p->id * 1000003ull + p->lstep)) * 0x100000001b3ull;
    S->last = p->id;
    resume(p);
    S->last_step = p->lstep;
  }
  bool all = true;
  for (auto& q : S->procs) if (q->st != PS_DONE && q->st != PS_DEAD) all = false;
  return {all ? Quiescence::Done : Quiescence::Deadlock};
}

int spawn(const std::string& name, std::function<void()> body) {
  int id = (int)S->procs.size();
  if (id >= MAXP) { fprintf(stderr, "sim: too many processes\n"); _exit(71); }
  auto p = std::make_unique<Proc>();
  p->id = id; p->name = name; p->body = std::move(body);
  p->stack = stacks[id];
  void** sp = (void**)(p->stack + STACK - 64);
  *--sp = nullptr;                       // alignment / return address of entry
  *--sp = (void*)&sim_fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  p->sp = sp;
  size_t n = &__lib_data_end - &__lib_data_start;
  p->libdata.assign(pristine.begin(), pristine.begin() + n);
  p->fds.resize(3, Fd{true, nullptr, true, 0});
  // the semaphore handle vector must not move
  p->semh.reserve(SEMS_PER);
  S->rs.resize(id + 2); S->rp.resize(id + 2);
  if (S->cfg.replay) {
    for (auto& d : S->cfg.sched) if (d.proc == id || (id == 0 && d.proc == -1)) (d.kind == 's' ? S->rs : S->rp)[d.proc + 1][d.lstep] = d.arg;
  }
  Proc* q = p.get();
  S->procs.push_back(std::move(p));
  new_preempt(q); recompute(q);
  return id;
}

void op_begin(const std::vector<Fault>* f, int opidx) {
  Proc* p = cur; p->faults = f && !f->empty() ? f : nullptr; p->fired.assign(f ? f->size() : 0, 0);
  p->opidx = opidx; p->op0 = p->lstep; p->sysn = p->allocn = p->blockn = p->condn = 0; p->blocked_ns = 0;
  p->pause_at = ~0ull;
  if (!S->cfg.replay && S->p_pause > 0 && S->srng.chance(S->p_pause)) {
    p->pause_at = p->lstep + S->srng.logu(1, 150);
    p->pause_ns = S->srng.logu(5000, 30000000);
  }
  recompute(p);
}
const std::vector<char>& op_fired() { return cur->fired; }
int lib_depth(int n) { int o = cur->lib; cur->lib = n; return o; }
void op_end() { Proc* p = cur; p->faults = nullptr; p->pause_at = ~0ull; recompute(p); }
uint64_t op_blocked_ns() { return cur->blocked_ns; }
uint64_t fault_sites() { return cur->sysn; }

// ------------------------------------------------------------------ accessors
int self() { return cur ? cur->id : -1; }
bool in_sim() { return cur != nullptr; }
uint64_t seq() { return ++S->seqc; }
int64_t now() { return S->clk; }
int64_t now_real() { return 1700000000ll * 1000000000ll + S->clk + S->rt_off; }
uint64_t local_steps(int p) { return S->procs[p]->lstep; }
PState pstate(int p) { return S->procs[p]->st; }
const std::string& death(int p) { return S->procs[p]->death; }
bool killed_by_plan(int p) { return S->procs[p]->killed; }
int nprocs() { return (int)S->procs.size(); }
const std::vector<MemFault>& memfaults() { return S->mf; }
uint64_t run_hash() { return S->h; }
uint64_t path_hash() { return S->ph; }
const std::vector<Decision>& decisions() { return S->dec; }
KernelStats& stats() { S->st.vtime = S->clk; return S->st; }
std::string waiting_on(int p) {
  Proc* q = S->procs[p].get();
  if (q->st == PS_READY) return q->stall_until > S->clk ? "stalled" : "ready";
  if (q->st != PS_BLOCKED) return "";
  switch (q->wk) {
    case W_SEM: return "semaphore " + ((Sem*)q->wobj)->name;
    case W_MUTEX: return "mutex"; case W_COND: return "condition"; case W_SLEEP: return "sleep"; case W_PRED: return "harness";
    default: return "?";
  }
}
uint64_t gone_seq(int p) { return S->procs[p]->gone; }
int64_t gone_time(int p) { return S->procs[p]->gone_t; }
long live_heap(int p) { return S->procs[p]->live; }

// ------------------------------------------------------------------ heap
static inline uint8_t* sh(uintptr_t a) { return shadow + ((a - HEAP_BASE) >> 3); }
static int g_noinject = 0;
void no_inject(int d) { g_noinject += d; }
static void* arena_alloc(size_t n, size_t align, bool injectable) {
  Proc* p = cur;
  struct Eh { void* caught; unsigned uncaught; };
  const Eh* eh = (const Eh*)__cxa_get_globals();
  if (injectable && !g_noinject && !eh->caught && !eh->uncaught) {   // a failure while another one is being cleaned up is not claimed
    p->allocn++;
    if (p->faults)
      for (size_t i = 0; i < p->faults->size(); i++) {
        const Fault& f = (*p->faults)[i];
        if (!p->fired[i] && f.kind == "alloc" && f.at == p->allocn) { p->fired[i] = 1; int l = p->lib; p->lib = 0; fire("alloc"); trace("allocation of %zu bytes fails", n); p->lib = l; return nullptr; }
      }
  }
  if (n > (8u << 20)) return nullptr;
  if (align < 16) align = 16;
  uintptr_t base = HEAP_BASE + p->id * HEAP_PER;
  uintptr_t u = base + p->heap_used + 32;
  u = (u + align - 1) & ~(uintptr_t)(align - 1);
  uintptr_t end = ((u + n + 15) & ~(uintptr_t)15) + 16;
  if (end > base + HEAP_PER) { return nullptr; }
  size_t old = p->heap_used; p->heap_used = end - base;
  *(size_t*)(u - 16) = n; *(uint64_t*)(u - 8) = 0xA110CA7EDull;
  memset((void*)u, S->fill, n);
  uint8_t* s = sh(u); size_t k = n >> 3;
  { uint8_t* s0 = sh(base + (old & ~(size_t)7)); uint8_t* s1 = sh(end); if (s1 > s0) memset(s0, 0xff, s1 - s0); }
  memset(s, 0, k); if (n & 7) s[k] = n & 7;
  p->live++;
  return (void*)u;
}
static bool in_arena(const void* a) { return (uintptr_t)a - HEAP_BASE < HEAP_SIZE; }
static void soft_fault(const std::string& w) {
  int l = 0; if (cur) { l = cur->lib; cur->lib = 0; }
  S->mf.push_back({cur ? cur->id : -1, w}); trace("MEMORY FAULT: %s", w.c_str()); mixs("mf");
  if (cur) cur->lib = l;
}
static void arena_free(void* a) {
  uintptr_t u = (uintptr_t)a;
  if (!S || !S->active) return;
  if (*(uint64_t*)(u - 8) != 0xA110CA7EDull) { if (cur) { soft_fault("invalid or double free"); } return; }
  *(uint64_t*)(u - 8) = 0xF4EEDull;
  size_t n = *(size_t*)(u - 16);
  memset(sh(u), 0xfd, (n + 7) >> 3);
  int pid = (u - HEAP_BASE) / HEAP_PER;
  if (pid < (int)S->procs.size()) S->procs[pid]->live--;
}
static __attribute__((noinline)) void heap_bad(uintptr_t x, size_t n, bool w, uint8_t v) {
  char b[120]; snprintf(b, sizeof b, "heap %s of %zu bytes %s", w ? "write" : "read", n, v == 0xfd ? "after free" : "out of bounds");
  soft_fault(b);
  die(std::string("memory corruption: ") + b, false);
}
static inline void heap_access(uintptr_t x, size_t n, bool w) {
  uintptr_t e = x + n - 1;
  for (uintptr_t g = x & ~7ull; g <= e; g += 8) {
    uint8_t v = *sh(g);
    if (v == 0) continue;
    unsigned last = (unsigned)std::min<uintptr_t>(e - g, 7);
    if (v >= 8 || last >= v) heap_bad(x, n, w, v);
  }
}

// ------------------------------------------------------------------ shared memory objects
static Map* map_at(uintptr_t x) {
  size_t o = x - SHM_BASE; int w = o / WIN, pg = (o % WIN) / PAGE;
  uint16_t m = pmap[w][pg]; return m ? S->maps[m - 1].get() : nullptr;
}
static __attribute__((noinline)) void shm_bad(uintptr_t x, size_t n, bool w, const char* why, bool fatal) {
  char b[160]; snprintf(b, sizeof b, "%s of %zu bytes of shared memory: %s", w ? "write" : "read", n, why);
  soft_fault(b);
  if (fatal) die(std::string("SIGSEGV/SIGBUS: ") + b, false);
}
static inline void shm_check(uintptr_t x, size_t n, bool w) {
  Map* m = map_at(x);
  if (!m || m->proc != cur->id) { shm_bad(x, n, w, "not mapped", true); return; }
  size_t o = x - m->addr;
  size_t ml = (m->len + PAGE - 1) / PAGE * PAGE, ol = (m->obj->size + PAGE - 1) / PAGE * PAGE;
  if (o + n > ml) shm_bad(x, n, w, "past the mapping", true);
  else if (m->off + o + n > ol) shm_bad(x, n, w, "past the end of the object (bus error)", true);
  else if (m->obj->shrunk) return;
  else if (o + n > m->len || m->off + o + n > m->obj->size) shm_bad(x, n, w, "past the requested length", false);
  if (w && m->ro) shm_bad(x, n, w, "read-only mapping", true);
}
static inline void shm_access(uintptr_t x, size_t n, bool w) {
  point(false);
  shm_check(x, n, w);
}

static void acc(const void* a, size_t n, bool w) {
  if (!simmed()) return;
  uintptr_t x = (uintptr_t)a;
  if (x - SHM_BASE < SHM_SIZE) shm_access(x, n, w);
  else if (x - HEAP_BASE < HEAP_SIZE) heap_access(x, n, w);
}
// libc style block operations: word-wise points on shared memory, so that they can be torn
static void range(const void* a, size_t n, bool w) {
  if (!simmed() || !n) return;
  uintptr_t x = (uintptr_t)a;
  if (x - SHM_BASE < SHM_SIZE) { shm_check(x, 1, w); shm_check(x + n - 1, 1, w); }
  else if (x - HEAP_BASE < HEAP_SIZE) heap_access(x, n, w);
}
static bool is_shm(const void* a) { return (uintptr_t)a - SHM_BASE < SHM_SIZE; }

static Obj* new_obj(const std::string& n) {
  auto o = std::make_unique<Obj>(); o->name = n; o->linked = true; o->size = 0; o->page0 = -1; o->npages = 0; o->used = 0; o->id = (int)S->objs.size();
  Obj* r = o.get(); S->objs.push_back(std::move(o)); S->shm[n] = r; return r;
}
static char* phys(int page) { return (char*)(SHM_BASE) + (size_t)page * PAGE + (size_t)(NWIN - 1) * WIN; }  // kernel view: last window
static int set_size(Obj* o, size_t sz) {
  int need = (int)((sz + PAGE - 1) / PAGE);
  if (need > 0 && o->page0 < 0) {
    int res = need + 3;
    if (S->next_page + res > NPAGES) return ENOMEM;
    o->page0 = S->next_page; o->npages = res; S->next_page += res;
  }
  if (need > o->npages) {
    if (o->page0 + o->npages == S->next_page && o->page0 + need + 3 <= NPAGES) { o->npages = need + 3; S->next_page = o->page0 + o->npages; }
    else return EFBIG;  // not representable in the simulator
  }
  if (sz < o->size) o->shrunk = true;   // Boost cuts a failed object to one byte while others map it: harmless inside the page
  if (sz < o->size) memset(phys(o->page0) + sz, 0, (size_t)o->used * PAGE - sz);
  if (need > o->used) { o->used = need; }
  o->size = sz;
  return 0;
}

static bool failing(const char* what) {
  Proc* p = cur; p->sysn++;
  if (p->faults)
    for (size_t i = 0; i < p->faults->size(); i++) {
      const Fault& f = (*p->faults)[i];
      bool lasting = f.arg >= 1000;   // until the operation is over
      if (f.kind == "sys" && (p->fired[i] ? lasting : f.at == p->sysn)) {
        int l = p->lib; p->lib = 0; if (!p->fired[i]) fire(std::string(lasting ? "sys:lasting:" : "sys:") + what); p->fired[i] = 1; trace("%s fails with errno %ld", what, f.arg % 1000); p->lib = l; errno = (int)(f.arg % 1000); return true;
      }
    }
  return false;
}
static int alloc_fd(Proc* p) {
  for (size_t i = 3; i < p->fds.size(); i++) if (!p->fds[i].open) return (int)i;
  p->fds.push_back(Fd{}); return (int)p->fds.size() - 1;
}
struct Hn { int l; Hn() : l(cur->lib) { cur->lib = 0; } ~Hn() { cur->lib = l; } };  // kernel code uses the harness heap

int open_bystander_fd() { Hn h; int fd = alloc_fd(cur); cur->fds[fd] = Fd{true, nullptr, true, 0}; return fd; }
int bystanders_alive(int p) { int n = 0; for (auto& f : S->procs[p]->fds) if (f.open && f.bystander) n++; return n; }

static void unmap_one(Proc* p, Map* m) {
  m->live = false;
  size_t o = m->addr - SHM_BASE; int w = o / WIN, pg = (o % WIN) / PAGE; int n = (int)((m->len + PAGE - 1) / PAGE);
  for (int i = 0; i < n; i++) if (pmap[w][pg + i] && S->maps[pmap[w][pg + i] - 1].get() == m) pmap[w][pg + i] = 0;
  for (auto it = p->maps.begin(); it != p->maps.end(); ++it) if (*it == m) { p->maps.erase(it); break; }
  S->free_maps.push_back(m->idx);
}
static void release_all(Proc* p) {
  p->gone = ++S->seqc; p->gone_t = S->clk;
  while (!p->maps.empty()) unmap_one(p, p->maps.back());
  for (auto& f : p->fds) f.open = false;
  for (auto& h : p->semh) h.refs = 0;
  for (auto& kv : S->mtx) if (kv.second.owner == p->id) { if (kv.second.robust) { kv.second.owner = -1; kv.second.count = 0; kv.second.inconsistent = true; } }
  for (auto& kv : S->cnd) { auto& w = kv.second.waiters; for (auto it = w.begin(); it != w.end();) if (it->first == p->id) it = w.erase(it); else ++it; }
}

Usage usage(int pid) {
  Proc* p = S->procs[pid].get(); Usage u{};
  for (auto& f : p->fds) if (f.open && !f.bystander) u.fds++;
  u.maps = (int)p->maps.size(); for (auto* m : p->maps) u.map_bytes += (long)m->len;
  for (auto& h : p->semh) if (h.refs > 0) u.sems += 1;
  u.bad_close = p->bad_close; u.foreign_close = p->foreign_close; u.bad_unmap = p->bad_unmap; u.bad_semclose = p->bad_semclose;
  return u;
}
std::vector<NameInfo> names() {
  std::vector<NameInfo> v;
  for (auto& k : S->shm) v.push_back({k.first, false, k.second->size, 0});
  for (auto& k : S->semns) v.push_back({k.first, true, 0, k.second->value});
  return v;
}
std::vector<uint8_t> shm_bytes(const std::string& n) {
  auto i = S->shm.find(n); if (i == S->shm.end()) return {};
  Obj* o = i->second; if (!o->size) return {};
  uint8_t* b = (uint8_t*)phys(o->page0); return std::vector<uint8_t>(b, b + o->size);
}
void put_shm(const std::string& n, const std::vector<uint8_t>& bytes) {
  Obj* o = S->shm.count(n) ? S->shm[n] : new_obj(n);
  if (set_size(o, bytes.size())) return;
  if (!bytes.empty()) memcpy(phys(o->page0), bytes.data(), bytes.size());
}
bool unlink_name(const std::string& n, bool sem) {
  if (sem) { auto i = S->semns.find(n); if (i == S->semns.end()) return false; i->second->linked = false; S->semns.erase(i); return true; }
  auto i = S->shm.find(n); if (i == S->shm.end()) return false; i->second->linked = false; S->shm.erase(i); return true;
}

// ------------------------------------------------------------------ run life cycle
static void on_signal(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_;
  if (!cur) {
    fprintf(stderr, "sim: harness crashed with signal %d at %p ip %p seed %lu\n", sig, si->si_addr, (void*)uc->uc_mcontext.gregs[REG_RIP], S ? (unsigned long)S->cfg.seed : 0ul);
    { Dl_info di; if (dladdr((void*)uc->uc_mcontext.gregs[REG_RIP], &di)) fprintf(stderr, "sim:   in %s at %s+%lx\n", di.dli_fname, di.dli_sname ? di.dli_sname : "?", (unsigned long)(uc->uc_mcontext.gregs[REG_RIP] - (uintptr_t)di.dli_saddr)); uintptr_t* sp = (uintptr_t*)uc->uc_mcontext.gregs[REG_RSP]; for (int i = 0; i < 60; i++) if (dladdr((void*)sp[i], &di) && di.dli_sname) fprintf(stderr, "sim:     %s+%lx\n", di.dli_sname, (unsigned long)(sp[i] - (uintptr_t)di.dli_saddr)); }
    _exit(72);
  }
  char b[100]; snprintf(b, sizeof b, "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : "fatal");
  if (getenv("SIM_DEBUG_SEGV")) {
    char c[200]; int n = snprintf(c, sizeof c, "fiber signal %d addr %p ip %p base %p lib=%d\n", sig, si->si_addr, (void*)uc->uc_mcontext.gregs[REG_RIP], (void*)&__executable_start, cur->lib);
    if (write(2, c, n)) {}
  }
  int l = cur->lib; cur->lib = 0; g_segv_why = b; cur->lib = l;
  uc->uc_mcontext.gregs[REG_RIP] = (greg_t)&die_entry;
  uc->uc_mcontext.gregs[REG_RSP] = (greg_t)(cur->stack + STACK - 64 - 8);
}
static void on_terminate() {
  if (cur) {
    cur->lib = 0; std::string why = "std::terminate";
    if (auto e = std::current_exception()) {
      try { std::rethrow_exception(e); } catch (std::exception& x) { why += std::string(": ") + x.what(); } catch (...) {}
    }
    die(why, false);
  }
  abort();
}
static void* fixed(uintptr_t at, size_t n, int fd = -1) {
  auto mm = (void* (*)(void*, size_t, int, int, int, off_t))dlsym(RTLD_NEXT, "mmap");
  void* r = mm((void*)at, n, PROT_READ | PROT_WRITE, (fd < 0 ? MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE : MAP_SHARED | MAP_NORESERVE) | MAP_FIXED_NOREPLACE, fd, 0);
  if (r != (void*)at) { fprintf(stderr, "sim: cannot reserve address space at %lx: %s\n", at, strerror(errno)); _exit(73); }
  return r;
}
void init_process() {
  if (ready_) return;
  ready_ = true;
  fixed(HEAP_BASE, HEAP_SIZE); fixed(SHADOW_BASE, HEAP_SIZE / 8); fixed(SEM_BASE, SEM_SIZE);
  int fd = (int)syscall(SYS_memfd_create, "simphys", 0);
  if (fd < 0 || syscall(SYS_ftruncate, fd, WIN) != 0) { fprintf(stderr, "sim: memfd\n"); _exit(73); }
  for (int w = 0; w < NWIN; w++) fixed(SHM_BASE + (size_t)w * WIN, WIN, fd);
  pmap = (uint16_t(*)[NPAGES])fixed(0x140000000000ull, sizeof(uint16_t) * NPAGES * NWIN);
  auto mm = (void* (*)(void*, size_t, int, int, int, off_t))dlsym(RTLD_NEXT, "mmap");
  for (int i = 0; i < MAXP; i++) stacks[i] = (char*)mm(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pristine.assign(&__lib_data_start, &__lib_data_end);
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  S = new Sim;
}
void begin_run(const RunCfg& cfg) {
  delete S; S = new Sim; S->active = true; loaded = -1;
  S->cfg = cfg; S->srng = Rng(cfg.seed * 7919 + 13); S->krng = Rng(cfg.seed * 104729 + 7);
  S->rs.resize(1); S->rp.resize(1);
  Rng& k = S->krng;  // run-wide parameters depend on the seed only, not on the schedule
  static const double pm[] = {0, 0.002, 0.01, 0.03, 0.1, 0.3, 0.5}; static const double ps[] = {0, 0.02, 0.1, 0.3, 0.6};
  static const double pp[] = {0, 0, 0.03, 0.1, 0.25};
  S->p_mem = pm[k.below(7)]; S->p_sys = ps[k.below(5)]; S->p_pause = pp[k.below(5)];
  S->cond_lifo = k.chance(0.3);
  static const int mc[] = {5, 20, 50, 200, 1000}; S->memcost = mc[k.below(5)]; S->syscost = S->memcost * (k.chance(0.5) ? 10 : 3);
  static const uint8_t fl[] = {0xA5, 0x00, 0xFF, 0x03}; S->fill = fl[k.below(4)];
  S->clk = 1000000; S->rt_off = (int64_t)k.below(1000000000);
}
void end_run() {
  for (auto& p : S->procs) {
    if (p->heap_used) memset(sh(HEAP_BASE + p->id * HEAP_PER), 0xff, (p->heap_used >> 3) + 8);
    // kill stale headers so that late frees of this run are recognised as such
  }
  if (S->next_page > 1) {
    for (auto& o : S->objs) if (o->used) memset(phys(o->page0), 0, (size_t)o->used * PAGE);
    for (int w = 0; w < NWIN; w++) memset(pmap[w], 0, sizeof(uint16_t) * S->next_page);
  }
  S->active = false;
}
struct ShadowInit { ShadowInit() {} };

int auto_depth() { return cur ? cur->autod : 0; }
Lib::Lib() { if (cur) cur->lib++; }
Lib::~Lib() { if (cur && cur->lib > 0) cur->lib--; }

// ------------------------------------------------------------------ semaphores
static SemH* handle(sem_t* s) {
  uintptr_t x = (uintptr_t)s;
  if (x - SEM_BASE >= SEM_SIZE) return nullptr;
  size_t i = (x - SEM_BASE) / sizeof(sem_t); int p = i / SEMS_PER; int k = i % SEMS_PER;
  if (p != cur->id || k >= (int)cur->semh.size()) return nullptr;
  SemH* h = &cur->semh[k]; return h->refs > 0 ? h : nullptr;
}
static Sem* sem_of(sem_t* s, const char* fn) {
  if (SemH* h = handle(s)) return h->s;
  uint64_t key = mkey(s);
  auto i = S->unnamed.find(key); if (i != S->unnamed.end()) return i->second;
  Hn hn; char b[120];
  snprintf(b, sizeof b, "SIGSEGV: %s on a %s semaphore handle", fn, s == SEM_FAILED ? "failed (null)" : (uintptr_t)s - SEM_BASE < SEM_SIZE ? "closed" : "garbage");
  die(b, false);
}
static uint64_t mkey(void* a) {
  uintptr_t x = (uintptr_t)a;
  if (x - SHM_BASE < SHM_SIZE) { Map* m = map_at(x); if (m) return ((uint64_t)(m->obj->id + 1) << 32) | (x - m->addr + m->off); }
  return x ^ ((uint64_t)((cur ? cur->id : 0) + 1) << 56);
}
static void hold(Sem* s, int d) { int l = cur->lib; cur->lib = 0; cur->held[s->id] += d; cur->lib = l; }
int held_sems(int p) { int n = 0; for (auto& k : S->procs[p]->held) if (k.second > 0) n += k.second; return n; }
static int do_sem_wait(sem_t* sp, bool try_, bool timed, const timespec* ts, bool real, const char* fn) {
  point(true);
  Sem* s = sem_of(sp, fn);
  if (s->value > 0) { s->value--; hold(s, 1); mix(0x5e0 + s->id); trace("%s(%s) acquired", fn, s->name.c_str()); return 0; }
  if (try_) { mix(0x5e1 + s->id); trace("%s(%s) busy", fn, s->name.c_str()); errno = EAGAIN; return -1; }
  int64_t dl = NEVER;
  if (timed) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } dl = ts->tv_sec * 1000000000ll + ts->tv_nsec - (1700000000ll * 1000000000ll); if (!real) dl += 1700000000ll * 1000000000ll; }
  trace("%s(%s) blocks", fn, s->name.c_str());
  for (;;) {
    BlockRes r = block(W_SEM, s, dl, real, true);
    s = sem_of(sp, fn);
    if (r == B_INTR) { errno = EINTR; return -1; }
    if (s->value > 0) { s->value--; hold(s, 1); mix(0x5e2 + s->id); trace("%s(%s) acquired after blocking", fn, s->name.c_str()); return 0; }
    if (r == B_TIMEOUT) { mix(0x5e3 + s->id); trace("%s(%s) timed out", fn, s->name.c_str()); errno = ETIMEDOUT; return -1; }
  }
}

// ------------------------------------------------------------------ mutex / condition variables
static Mutex& mtx(pthread_mutex_t* m) {
  if (is_shm(m)) shm_check((uintptr_t)m, sizeof *m, true);
  return S->mtx[mkey(m)];
}
static int m_lock(pthread_mutex_t* pm, bool try_, const timespec* abs, bool real) {
  Mutex* m = &mtx(pm); int64_t dl = NEVER;
  if (abs) dl = abs->tv_sec * 1000000000ll + abs->tv_nsec - (real ? 1700000000ll * 1000000000ll : 0);
  if (m->notrec) return ENOTRECOVERABLE;
  if (m->owner == cur->id) { if (m->recursive) { m->count++; return 0; } if (try_) return EBUSY; }
  while (m->owner >= 0) {
    if (try_) return EBUSY;
    BlockRes r = block(W_MUTEX, m, dl, real, false);
    m = &mtx(pm);
    if (r == B_TIMEOUT && m->owner >= 0) return ETIMEDOUT;
  }
  if (m->notrec) return ENOTRECOVERABLE;
  m->owner = cur->id; m->count = 1; mix(0x3117 + cur->id);
  if (m->inconsistent) return EOWNERDEAD;
  return 0;
}
static int m_unlock(pthread_mutex_t* pm) {
  Mutex& m = mtx(pm);
  if (m.owner != cur->id) return EPERM;
  if (--m.count > 0) return 0;
  m.owner = -1; if (m.inconsistent) { m.notrec = true; }
  return 0;
}
static int c_wait(pthread_cond_t* pc, pthread_mutex_t* pm, const timespec* abs, bool real) {
  Proc* p = cur;
  if (is_shm(pc)) shm_check((uintptr_t)pc, sizeof *pc, true);
  uint64_t ck = mkey(pc);
  p->cond_signalled = false; p->cond_ticket = ++S->ticket;
  S->cnd[ck].waiters.push_back({p->id, p->cond_ticket});
  m_unlock(pm);
  int64_t dl = NEVER; if (abs) dl = abs->tv_sec * 1000000000ll + abs->tv_nsec - (real ? 1700000000ll * 1000000000ll : 0);
  bool spur = false; int64_t sdl = dl; bool sreal = real;
  p->condn++;
  if (p->faults)
    for (size_t i = 0; i < p->faults->size(); i++) {
      const Fault& f = (*p->faults)[i];
      if (!p->fired[i] && f.kind == "spur" && (f.at == p->condn || f.at == 0)) { if (f.at) p->fired[i] = 1; int64_t d = S->clk + f.arg; int64_t cm = dl == NEVER ? NEVER : real ? dl - S->rt_off : dl; if (d < cm) { sdl = d; sreal = false; spur = true; } }
    }
  trace("waits on condition");
  BlockRes r = block(W_COND, nullptr, sdl, sreal, false);
  auto& w = S->cnd[ck].waiters;
  for (auto it = w.begin(); it != w.end();) if (it->second == p->cond_ticket) it = w.erase(it); else ++it;
  bool to = false;
  if (r == B_TIMEOUT) { if (spur) { Hn h; fire("spurious"); trace("spurious wake-up"); } else to = true; }
  trace("condition wait ends: %s", to ? "timeout" : "woken"); mix(to ? 0xc0 : 0xc1);
  int e = m_lock(pm, false, nullptr, false);
  if (e) return e;
  return to ? ETIMEDOUT : 0;
}
static int c_signal(pthread_cond_t* pc, bool all) {
  if (is_shm(pc)) shm_check((uintptr_t)pc, sizeof *pc, true);
  auto& w = S->cnd[mkey(pc)].waiters;
  trace("%s %zu waiter(s)", all ? "broadcast to" : "signal one of", w.size());
  while (!w.empty()) {
    auto t = S->cond_lifo ? w.back() : w.front();
    if (S->cond_lifo) w.pop_back(); else w.pop_front();
    Proc* q = S->procs[t.first].get();
    if (q->st == PS_BLOCKED && q->cond_ticket == t.second) { q->cond_signalled = true; if (!all) break; }
  }
  return 0;
}

}  // namespace sim
using namespace sim;

// ====================================================================== seams (C symbols)
extern "C" {

void* malloc(size_t n) {
  if (__builtin_expect(simmed(), 0)) {
    char* ra = (char*)__builtin_return_address(0);
    void* r = arena_alloc(n, 16, ra >= &__executable_start && ra < &etext);
    if (!r) errno = ENOMEM;
    return r;
  }
  return __libc_malloc(n);
}
void free(void* p) { if (!p) return; if (in_arena(p)) { arena_free(p); return; } __libc_free(p); }
void* calloc(size_t a, size_t b) {
  if (simmed()) { char* ra = (char*)__builtin_return_address(0); void* r = arena_alloc(a * b, 16, ra >= &__executable_start && ra < &etext); if (r) memset(r, 0, a * b); else errno = ENOMEM; return r; }
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (in_arena(p)) {
    size_t o = *(size_t*)((char*)p - 16);
    void* r = simmed() ? arena_alloc(n, 16, false) : __libc_malloc(n);
    if (!r) { errno = ENOMEM; return nullptr; }
    memcpy(r, p, o < n ? o : n); arena_free(p); return r;
  }
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { return simmed() ? arena_alloc(n, al, false) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return simmed() ? arena_alloc(n, al, true) : __libc_memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* r = simmed() ? arena_alloc(n, al, true) : __libc_memalign(al, n); if (!r) return ENOMEM; *o = r; return 0; }

// ---- shared memory
int shm_open(const char* name, int fl, mode_t mode) {
  if (!simmed()) return REAL(shm_open)(name, fl, mode);
  point(true); Hn hn;
  if (failing("shm_open")) return -1;
  std::string n = name; if (n.size() > 255) { errno = ENAMETOOLONG; return -1; }
  if (!n.empty() && n[0] != '/') n = "/" + n;
  if (n.size() < 2 || n.find('/', 1) != std::string::npos) { errno = EINVAL; return -1; }
  auto it = S->shm.find(n); Obj* o = it == S->shm.end() ? nullptr : it->second;
  if (o && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if (!o) { if (!(fl & O_CREAT)) { mix(0x0b1); trace("shm_open(%s) no such object", name); errno = ENOENT; return -1; } o = new_obj(n); }
  else if (fl & O_TRUNC) set_size(o, 0);
  int fd = alloc_fd(cur); cur->fds[fd] = Fd{true, o, false, 0};
  mix(0x0b0 + o->id); trace("shm_open(%s) -> fd %d, object %d", name, fd, o->id);
  return fd;
}
int shm_unlink(const char* name) {
  if (!simmed()) return REAL(shm_unlink)(name);
  point(true); Hn hn;
  std::string n = name; if (!n.empty() && n[0] != '/') n = "/" + n;
  bool ok = unlink_name(n, false); trace("shm_unlink(%s) %s", name, ok ? "ok" : "no such object"); mix(0x0c0 + ok);
  if (!ok) { errno = ENOENT; return -1; }
  return 0;
}
static Fd* fdof(int fd) { if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return nullptr; } return &cur->fds[fd]; }
int ftruncate(int fd, off_t len) noexcept {
  if (!simmed()) return (int)syscall(SYS_ftruncate, fd, len);
  point(true); Hn hn;
  Fd* f = fdof(fd); if (!f) return -1;
  if (!f->obj || len < 0) { errno = EINVAL; return -1; }
  if (failing("ftruncate")) return -1;
  int e = set_size(f->obj, (size_t)len); trace("ftruncate(fd %d = %s, %ld) %s", fd, f->obj->name.c_str(), (long)len, e ? "fails" : "ok"); mix(0x0d0 + len);
  if (e) { errno = e; return -1; }
  return 0;
}
int ftruncate64(int fd, off64_t len) noexcept { return ftruncate(fd, len); }
int posix_fallocate(int fd, off_t off, off_t len) {
  if (!simmed()) return REAL(posix_fallocate)(fd, off, len);
  point(true); Hn hn;
  Fd* f = fdof(fd); if (!f) return EBADF;
  if (failing("posix_fallocate")) { int e = errno; return e; }
  if (f->obj && (size_t)(off + len) > f->obj->size) return set_size(f->obj, off + len);
  return 0;
}
int posix_fallocate64(int fd, off64_t off, off64_t len) { return posix_fallocate(fd, off, len); }
int fallocate(int fd, int mode, off_t off, off_t len) { if (!simmed()) return REAL(fallocate)(fd, mode, off, len); int e = posix_fallocate(fd, off, len); if (e) { errno = e; return -1; } return 0; }
int fstat(int fd, struct stat* st) noexcept {
  if (!simmed()) return REAL(fstat)(fd, st);
  point(true); Hn hn;
  Fd* f = fdof(fd); if (!f) return -1;
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0600; st->st_size = f->obj ? (off_t)f->obj->size : 0; st->st_ino = f->obj ? f->obj->id + 1 : 999; st->st_dev = 77; st->st_nlink = f->obj && f->obj->linked ? 1 : 0;
  return 0;
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
int fchmod(int fd, mode_t m) noexcept { if (!simmed()) return REAL(fchmod)(fd, m); point(true); return fdof(fd) ? 0 : -1; }
int fchown(int fd, uid_t u, gid_t g) noexcept { if (!simmed()) return REAL(fchown)(fd, u, g); point(true); return fdof(fd) ? 0 : -1; }
int fsync(int fd) { if (!simmed()) return REAL(fsync)(fd); point(true); return fdof(fd) ? 0 : -1; }
int dup(int fd) noexcept { if (!simmed()) return REAL(dup)(fd); point(true); Hn hn; Fd* f = fdof(fd); if (!f) return -1; Fd c = *f; int n = alloc_fd(cur); cur->fds[n] = c; return n; }
int close(int fd) {
  if (!simmed()) return (int)syscall(SYS_close, fd);
  point(true); Hn hn;
  Fd* f = fdof(fd);
  if (!f) { cur->bad_close++; trace("close(%d): bad descriptor", fd); mix(0x0e1); errno = EBADF; return -1; }
  if (f->bystander) { cur->foreign_close++; trace("close(%d): closes a descriptor of the application", fd); }
  else trace("close(fd %d = %s)", fd, f->obj->name.c_str());
  f->open = false; mix(0x0e0);
  return 0;
}
static void* sim_mmap(size_t len, int prot, int fd, off_t off) {
  point(true); Hn hn;
  Fd* f = fdof(fd); if (!f) return MAP_FAILED;
  if (failing("mmap")) return MAP_FAILED;
  if (!f->obj) { errno = ENODEV; return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  Obj* o = f->obj;
  int n = (int)((len + PAGE - 1) / PAGE);
  if (o->page0 < 0) { size_t keep = o->size; set_size(o, 1); o->size = keep; }
  if (off / (off_t)PAGE + n > o->npages) {  // mapping larger than what we reserved: extend the reservation
    size_t keep = o->size; int e = set_size(o, off + len); o->size = keep; if (e) { errno = ENOMEM; return MAP_FAILED; } }
  int pg = o->page0 + off / PAGE, w = -1;
  for (int a = 0; a < ALIASES - (cur->id == MAXP - 1); a++) { bool fr = true; for (int i = 0; i < n; i++) if (pmap[cur->id * ALIASES + a][pg + i]) fr = false; if (fr) { w = cur->id * ALIASES + a; break; } }
  if (w < 0) w = cur->id * ALIASES;
  auto m = std::make_unique<sim::Map>(); m->addr = SHM_BASE + (size_t)w * WIN + (size_t)pg * PAGE; m->len = len; m->obj = o; m->off = off; m->proc = cur->id; m->live = true; m->ro = !(prot & PROT_WRITE);
  sim::Map* r = m.get(); m->idx = (int)S->maps.size();
  if (S->free_maps.empty()) S->maps.push_back(std::move(m)); else { m->idx = S->free_maps.back(); S->free_maps.pop_back(); S->maps[m->idx] = std::move(m); }
  if (S->maps.size() > 65000) { fprintf(stderr, "sim: too many mappings\n"); _exit(74); }
  for (int i = 0; i < n; i++) pmap[w][pg + i] = (uint16_t)(r->idx + 1);
  cur->maps.push_back(r);
  trace("mmap(fd %d = %s, %zu bytes)", fd, o->name.c_str(), len); mix(0x0f0 + o->id);
  return (void*)r->addr;
}
void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) noexcept {
  if (!simmed() || (flags & MAP_ANONYMOUS)) return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off);
  return sim_mmap(len, prot, fd, off);
}
void* mmap64(void* a, size_t len, int prot, int flags, int fd, off64_t off) noexcept { return mmap(a, len, prot, flags, fd, off); }
int munmap(void* a, size_t len) noexcept {
  if (!is_shm(a) && !simmed()) return (int)syscall(SYS_munmap, a, len);
  if (!simmed()) return 0;
  point(true); Hn hn;
  if (!is_shm(a)) {
    if (a == nullptr || len == 0) { cur->bad_unmap += a == nullptr; if (len == 0) { errno = EINVAL; return -1; } return 0; }
    return (int)syscall(SYS_munmap, a, len);
  }
  if ((uintptr_t)a % PAGE || len == 0) { cur->bad_unmap++; errno = EINVAL; return -1; }
  bool any = false;
  for (auto* m : std::vector<sim::Map*>(cur->maps)) if (m->addr == (uintptr_t)a) {
    if (m->cut) continue;
    size_t k = (len + PAGE - 1) / PAGE, have = (m->len + PAGE - 1) / PAGE;
    if (k < have) {   // the rest of the mapping stays
      size_t at = m->addr - SHM_BASE; for (size_t i = 0; i < k; i++) pmap[at / WIN][(at % WIN) / PAGE + i] = 0;
      m->cut = any = true; trace("munmap(%s) of %zu of %zu pages", m->obj->name.c_str(), k, have); break;
    }
    if (k > have) cur->bad_unmap++;   // takes the neighbours along
    unmap_one(cur, m); any = true; trace("munmap(%s)", m->obj->name.c_str()); break;
  }
  if (!any) { cur->bad_unmap++; trace("munmap of nothing"); }
  mix(0x0f8 + any);
  return 0;
}
int msync(void* a, size_t n, int f) { if (is_shm(a)) { if (simmed()) point(true); return 0; } return (int)syscall(SYS_msync, a, n, f); }
int madvise(void* a, size_t n, int f) noexcept { if (is_shm(a)) { if (simmed()) point(true); return 0; } return (int)syscall(SYS_madvise, a, n, f); }
int mlock(const void* a, size_t n) noexcept { if (is_shm(a)) { if (simmed()) point(true); return 0; } return (int)syscall(SYS_mlock, a, n); }
int munlock(const void* a, size_t n) noexcept { if (is_shm(a)) return 0; return (int)syscall(SYS_munlock, a, n); }

// ---- named semaphores
sem_t* sem_open(const char* name, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t md = 0; unsigned val = 0;
  if (fl & O_CREAT) { md = va_arg(ap, mode_t); val = va_arg(ap, unsigned); }
  va_end(ap);
  if (!simmed()) return ((sem_t * (*)(const char*, int, ...)) dlsym(RTLD_NEXT, "sem_open"))(name, fl, md, val);
  point(true); Hn hn;
  if (failing("sem_open")) return SEM_FAILED;
  std::string n = name; if (n.size() > 250) { errno = ENAMETOOLONG; return SEM_FAILED; }
  if (!n.empty() && n[0] != '/') n = "/" + n;
  if (n.size() < 2 || n.find('/', 1) != std::string::npos) { errno = EINVAL; return SEM_FAILED; }
  auto it = S->semns.find(n); Sem* s = it == S->semns.end() ? nullptr : it->second;
  if (s && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
  if (!s) {
    if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    auto u = std::make_unique<Sem>(); u->name = n; u->linked = true; u->value = (int)val; u->id = (int)S->sems.size(); s = u.get(); S->sems.push_back(std::move(u)); S->semns[n] = s;
  }
  for (size_t i = 0; i < cur->semh.size(); i++) if (cur->semh[i].refs > 0 && cur->semh[i].s == s) { cur->semh[i].refs++; mix(0x5e5); trace("sem_open(%s) again", name); return (sem_t*)(SEM_BASE + ((size_t)cur->id * SEMS_PER + i) * sizeof(sem_t)); }
  if (cur->semh.size() >= SEMS_PER) { errno = EMFILE; return SEM_FAILED; }
  cur->semh.push_back({s, 1}); mix(0x5e6 + s->id); trace("sem_open(%s) value %d, semaphore %d", name, s->value, s->id);
  return (sem_t*)(SEM_BASE + ((size_t)cur->id * SEMS_PER + cur->semh.size() - 1) * sizeof(sem_t));
}
int sem_close(sem_t* s) noexcept {
  if (!simmed()) return REAL(sem_close)(s);
  point(true); Hn hn;
  SemH* h = handle(s);
  if (!h) { cur->bad_semclose++; trace("sem_close of a bad handle"); errno = EINVAL; return -1; }
  h->refs--; trace("sem_close(%s)", h->s->name.c_str()); return 0;
}
int sem_unlink(const char* name) noexcept {
  if (!simmed()) return REAL(sem_unlink)(name);
  point(true); Hn hn;
  std::string n = name; if (!n.empty() && n[0] != '/') n = "/" + n;
  bool ok = unlink_name(n, true); trace("sem_unlink(%s) %s", name, ok ? "ok" : "no such semaphore"); mix(0x5e8 + ok);
  if (!ok) { errno = ENOENT; return -1; }
  return 0;
}
int sem_wait(sem_t* s) { if (!simmed()) return REAL(sem_wait)(s); return do_sem_wait(s, false, false, nullptr, true, "sem_wait"); }
int sem_trywait(sem_t* s) noexcept { if (!simmed()) return REAL(sem_trywait)(s); return do_sem_wait(s, true, false, nullptr, true, "sem_trywait"); }
int sem_timedwait(sem_t* s, const timespec* t) { if (!simmed()) return REAL(sem_timedwait)(s, t); return do_sem_wait(s, false, true, t, true, "sem_timedwait"); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { if (!simmed()) return REAL(sem_clockwait)(s, c, t); return do_sem_wait(s, false, true, t, c == CLOCK_REALTIME, "sem_clockwait"); }
int sem_post(sem_t* s) noexcept {
  if (!simmed()) return REAL(sem_post)(s);
  point(true);
  Sem* q = sem_of(s, "sem_post"); q->value++; hold(q, -1); mix(0x5ea + q->id + q->value); trace("sem_post(%s) -> %d", q->name.c_str(), q->value); return 0;
}
int sem_getvalue(sem_t* s, int* v) noexcept { if (!simmed()) return REAL(sem_getvalue)(s, v); point(true); *v = sem_of(s, "sem_getvalue")->value; return 0; }
int sem_init(sem_t* s, int ps, unsigned v) noexcept {
  if (!simmed()) return REAL(sem_init)(s, ps, v);
  point(true); Hn hn; auto u = std::make_unique<Sem>(); u->name = "unnamed"; u->linked = false; u->value = (int)v; u->id = (int)S->sems.size(); S->unnamed[mkey(s)] = u.get(); S->sems.push_back(std::move(u)); return 0;
}
int sem_destroy(sem_t* s) noexcept { if (!simmed()) return REAL(sem_destroy)(s); point(true); S->unnamed.erase(mkey(s)); return 0; }

// ---- pthread mutex / cond
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
  if (!simmed()) return REAL(pthread_mutex_init)(m, a);
  point(true); Hn hn; Mutex& x = mtx(m); x = Mutex{}; x.inited = true;
  if (a) { int t = 0, r = 0; pthread_mutexattr_gettype(a, &t); pthread_mutexattr_getrobust(a, &r); x.recursive = t == PTHREAD_MUTEX_RECURSIVE; x.robust = r == PTHREAD_MUTEX_ROBUST; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (!simmed()) return REAL(pthread_mutex_destroy)(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!simmed()) { static int (*r)(pthread_mutex_t*) = nullptr; if (!r) r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); }
  point(true); Hn hn; return m_lock(m, false, nullptr, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!simmed()) return REAL(pthread_mutex_trylock)(m); point(true); Hn hn; return m_lock(m, true, nullptr, false); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { if (!simmed()) return REAL(pthread_mutex_timedlock)(m, t); point(true); Hn hn; return m_lock(m, false, t, true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { if (!simmed()) return REAL(pthread_mutex_clocklock)(m, c, t); point(true); Hn hn; return m_lock(m, false, t, c == CLOCK_REALTIME); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!simmed()) { static int (*r)(pthread_mutex_t*) = nullptr; if (!r) r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); }
  point(true); Hn hn; return m_unlock(m);
}
int pthread_mutex_consistent(pthread_mutex_t* m) noexcept { if (!simmed()) return REAL(pthread_mutex_consistent)(m); Hn hn; mtx(m).inconsistent = false; return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { if (!simmed()) return REAL(pthread_cond_init)(c, a); point(true); Hn hn; if (is_shm(c)) shm_check((uintptr_t)c, sizeof *c, true); S->cnd[mkey(c)] = Cond{}; return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (!simmed()) return REAL(pthread_cond_destroy)(c); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!simmed()) return REAL(pthread_cond_wait)(c, m); point(true); Hn hn; return c_wait(c, m, nullptr, true); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!simmed()) return REAL(pthread_cond_timedwait)(c, m, t); point(true); Hn hn; return c_wait(c, m, t, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!simmed()) return REAL(pthread_cond_clockwait)(c, m, k, t); point(true); Hn hn; return c_wait(c, m, t, k == CLOCK_REALTIME); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!simmed()) return REAL(pthread_cond_signal)(c); point(true); Hn hn; return c_signal(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!simmed()) return REAL(pthread_cond_broadcast)(c); point(true); Hn hn; return c_signal(c, true); }

// ---- time
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!simmed()) return (int)syscall(SYS_clock_gettime, c, t);
  point(true);
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? now_real() : now();
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* t, void* z) noexcept {
  if (!simmed()) return (int)syscall(SYS_gettimeofday, t, z);
  point(true); int64_t v = now_real(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0;
}
time_t time(time_t* o) noexcept { time_t v; if (!simmed()) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); v = t.tv_sec; } else v = now_real() / 1000000000; if (o) *o = v; return v; }
// the rest of the sleep when a signal interrupts it
static int64_t sim_sleep(int64_t ns) {
  point(true); Hn hn; int64_t end = S->clk + (ns < 0 ? 0 : ns);
  BlockRes r = block(W_SLEEP, nullptr, end, false, true);
  return r == B_INTR && S->clk < end ? end - S->clk : 0;
}
int nanosleep(const struct timespec* r, struct timespec* m) {
  if (!simmed()) return (int)syscall(SYS_nanosleep, r, m);
  int64_t left = sim_sleep(r->tv_sec * 1000000000ll + r->tv_nsec); if (!left) return 0;
  if (m) { m->tv_sec = left / 1000000000; m->tv_nsec = left % 1000000000; }
  errno = EINTR; return -1;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* m) {
  if (!simmed()) { return syscall(SYS_clock_nanosleep, c, fl, r, m) ? errno : 0; }
  int64_t ns = r->tv_sec * 1000000000ll + r->tv_nsec;
  if (fl & TIMER_ABSTIME) ns -= c == CLOCK_REALTIME ? now_real() : now();
  int64_t left = sim_sleep(ns); if (!left) return 0;
  if (m && !(fl & TIMER_ABSTIME)) { m->tv_sec = left / 1000000000; m->tv_nsec = left % 1000000000; }
  return EINTR;
}
int usleep(useconds_t u) { if (!simmed()) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); } if (sim_sleep((int64_t)u * 1000)) { errno = EINTR; return -1; } return 0; }
unsigned sleep(unsigned s) { if (!simmed()) { struct timespec t = {(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } return (unsigned)((sim_sleep((int64_t)s * 1000000000ll) + 999999999) / 1000000000); }
int sched_yield(void) noexcept { if (!simmed()) return (int)syscall(SYS_sched_yield); sim_sleep(1000); return 0; }
pid_t getpid(void) noexcept { if (!simmed()) return (pid_t)syscall(SYS_getpid); return 1000 + cur->id; }
int kill(pid_t p, int sig) noexcept {
  if (!simmed()) return (int)syscall(SYS_kill, p, sig);
  point(true);
  int id = p - 1000;
  if (id < 0 || id >= (int)S->procs.size() || S->procs[id]->st == PS_DONE || S->procs[id]->st == PS_DEAD) { errno = ESRCH; return -1; }
  return 0;
}

// destructors of function statics never run: a simulated process ends without exit handlers
int __cxa_atexit(void (*f)(void*), void* a, void* d) noexcept { if (cur) return 0; return REAL(__cxa_atexit)(f, a, d); }

// ---- output of the library is dropped inside the simulation
int printf(const char* f, ...) { if (cur) return 0; va_list a; va_start(a, f); int r = vfprintf(stdout, f, a); va_end(a); return r; }
int puts(const char* s) { if (cur) return 0; fputs(s, stdout); fputc('\n', stdout); return 0; }
int sim_putchar(int c) __asm__("putchar");
int sim_putchar(int c) { if (cur) return c; return fputc(c, stdout); }

// ====================================================================== instrumentation runtime
void __tsan_init() {}
void __tsan_func_entry(void*) { if (!auto_lib || !cur) return; if (cur->autod) cur->autod++; else if (!cur->lib) { cur->lib = 1; cur->autod = 1; S->clk += 2000; S->st.slack_ns += 2000; point(false); } }
void __tsan_func_exit() { if (!auto_lib || !cur || !cur->autod) return; if (--cur->autod == 0) cur->lib = 0; }
#define RW(n) \
  void __tsan_read##n(void* a) { acc(a, n, false); } \
  void __tsan_write##n(void* a) { acc(a, n, true); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, false); } \
  void __tsan_unaligned_write##n(void* a) { acc(a, n, true); } \
  void __tsan_volatile_read##n(void* a) { acc(a, n, false); } \
  void __tsan_volatile_write##n(void* a) { acc(a, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, true); } \
  void __tsan_read_write##n(void* a) { acc(a, n, true); } \
  void __tsan_unaligned_read_write##n(void* a) { acc(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*) { acc(a, 8, true); }
void __tsan_vptr_read(void** a) { acc(a, 8, false); }
void __tsan_read_range(void* a, size_t n) { range(a, n, false); }
void __tsan_write_range(void* a, size_t n) { range(a, n, true); }

// copies that touch shared memory go word by word with a preemption point before each word
static void chunked(char* d, const char* s, size_t n) {
  size_t i = 0;
  while (i < n) {
    size_t c = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1;
    if (is_shm(s)) shm_access((uintptr_t)s + i, c, false);
    char t[8]; memcpy(t, s + i, c);
    if (is_shm(d)) shm_access((uintptr_t)d + i, c, true);
    memcpy(d + i, t, c); i += c;
  }
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (simmed() && n && (is_shm(d) || is_shm(s))) { if (!is_shm(d)) range(d, n, true); if (!is_shm(s)) range(s, n, false); chunked((char*)d, (const char*)s, n); return d; }
  range(d, n, true); range(s, n, false); return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (simmed() && n && (is_shm(d) || is_shm(s))) {
    if (!is_shm(d)) range(d, n, true); if (!is_shm(s)) range(s, n, false);
    bool overlap = (char*)d < (char*)s + n && (char*)s < (char*)d + n;
    if (!overlap) { chunked((char*)d, (const char*)s, n); return d; }
    point(false);
  }
  range(d, n, true); range(s, n, false); return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (simmed() && n && is_shm(d)) { size_t i = 0; while (i < n) { size_t k = n - i >= 8 ? 8 : 1; shm_access((uintptr_t)d + i, k, true); memset((char*)d + i, c, k); i += k; } return d; }
  range(d, n, true); return memset(d, c, n);
}

#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { acc((const void*)a, sizeof(T), false); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { acc((const void*)a, sizeof(T), true); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((const void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((const void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((const void*)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- C++ allocation
static void* op_new(size_t n, size_t al) {
  if (simmed()) { void* r = arena_alloc(n, al, true); if (!r) throw std::bad_alloc(); return r; }
  void* r = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1); if (!r) throw std::bad_alloc(); return r;
}
void* operator new(size_t n) { return op_new(n, 16); }
void* operator new[](size_t n) { return op_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
