// Interpreter of plans, recorded history and helpers shared by the property checkers.
#pragma once
#include <cstring>
#include <memory>
#include "adapters.hpp"
#include "sim.hpp"

using sim::Fault; using sim::Op; using sim::Plan; using sim::ProcPlan; using sim::Rng;

struct Ev {
  int proc = 0, opi = 0; const Op* op = nullptr;
  uint64_t inv = 0, ret = ~0ull;             // ret == ~0: never returned
  bool done = false; int out = -1;           // 0 false, 1 done, 2 threw, -1 skipped (no such handle)
  std::string what; std::vector<double> data; std::vector<std::string> strs; long val = 0;
  int64_t t0 = 0, t1 = 0; uint64_t steps = 0; int64_t blocked = 0;
  bool frame_bad = false, touched = false;
  std::vector<char> fired; bool any_fired = false;
  sim::Usage u1{}; int held = 0;
  long hdl() const { return op->a.empty() ? -1 : op->a[0]; }
  bool is(const char* k) const { return op->k == k; }
  bool ok() const { return done && out == 1; }
};
struct Run {
  const Plan* plan = nullptr;
  std::vector<std::unique_ptr<Ev>> ev;       // in order of invocation
  sim::Quiescence q{sim::Quiescence::Done};
  std::vector<sim::Usage> base;              // per process, before its first library call
  std::map<int, sim::Usage> last;
};
struct Viol { std::string kind, msg; };

void execute(const Plan& plan, const sim::RunCfg& cfg, Run& run);  // spawn, run to quiescence; caller checks, then sim::end_run()

double cell(int type, long tag, int i, int j, int c);
Op op(const char* k, std::vector<long> a = {}, std::vector<std::string> s = {});

// linearizability of one tensor
struct LOp { uint64_t inv, ret; bool write; int row, col, r, c; std::vector<double> data; bool pending; std::string label; };
bool linearizable(int rows, int cols, const std::vector<double>& init, std::vector<LOp> ops, std::string& why);

struct Prop {
  const char* id;
  Plan (*gen)(Rng&);
  std::vector<Viol> (*check)(Run&);
};
const std::vector<Prop>& props();
std::string show_op(const Op& o);
