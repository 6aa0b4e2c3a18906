#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <unordered_set>
#include "pyhost.hpp"

__attribute__((weak)) PyHost* py_host = nullptr;   // the build with Python has its own

Op op(const char* k, std::vector<long> a, std::vector<std::string> s) { Op o; o.k = k; o.a = std::move(a); o.s = std::move(s); return o; }

double cell(int type, long tag, int i, int j, int c) {
  if (type == 3) { uint64_t z = (uint64_t)tag * 0x9E3779B97F4A7C15ull + i * 1315423911ull + j * 2654435761ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; return z & 1; }
  double v = (double)(tag * 64 + ((i * c + j) & 63));
  if (tag % 3 == 0) v = -v;
  if (type == 1) v += 0.5 + 1.0 / (1 << 30);   // more digits than a float has
  if (type == 2) v += tag % 2 ? 0x10000001 : 0; // and an integer more than a float can hold
  return v;
}

std::string show_op(const Op& o) {
  std::string s = o.k + "(";
  for (size_t i = 0; i < o.a.size(); i++) s += (i ? "," : "") + std::to_string(o.a[i]);
  for (auto& x : o.s) s += " '" + (x.size() > 24 ? x.substr(0, 24) + "~" + std::to_string(x.size()) : x) + "'";
  s += ")";
  for (auto& f : o.f) s += " !" + f.kind + "@" + std::to_string(f.at) + (f.arg ? ":" + std::to_string(f.arg) : "");
  return s;
}

namespace {
struct H { ad::Obj* o = nullptr; int type = 2; char kind = 0; std::string name; long got = 0; bool locked = false; };
struct CvShared { std::map<long, long> counters; std::map<std::string, int> owner; };
CvShared* g_cv = nullptr;

struct Proc {
  Run& run; const Plan& plan; int id; std::map<long, H> hs; bool py = false;
  // one operation of a process that uses the Python bindings
  void pyop(Ev& e, const std::string& k, const std::vector<long>& a) {
    PyRes r; const Op& o = *e.op;
    py_host->call(id, k, a, o.s, e.data, r);
    e.out = r.code; e.what = r.what; e.val = r.val; if (!r.data.empty()) e.data = r.data; for (auto& x : r.strs) e.strs.push_back(x); e.touched = r.touched; e.frame_bad = r.frame;
  }
  void pyexec(Ev& e) {
    const Op& o = *e.op; auto& a = o.a;
    if (o.k == "write") { auto t = ptype(a[0]); e.data.resize((size_t)a[4] * a[5]); for (int i = 0; i < a[4]; i++) for (int j = 0; j < a[5]; j++) e.data[i * a[5] + j] = cell(t, a[6], i, j, (int)a[5]); }
    else if (o.k == "read") e.data.resize((size_t)a[4] * a[5]);
    else if (o.k == "vwrite" || o.k == "set") { auto t = ptype(a[0]); e.data.resize((size_t)a[3] * a[4]); for (int i = 0; i < a[3]; i++) for (int j = 0; j < a[4]; j++) e.data[i * a[4] + j] = cell(t, a[5], i, j, (int)a[4]); }
    else if (o.k == "incr") {
      pyop(e, "read", {a[0], 0, 0, 0, a[1], a[2]}); if (e.out != 1) { e.val = 1; return; }
      for (auto& v : e.data) v += 1;
      sim::boundary(); pyop(e, "write", {a[0], 0, 0, 0, a[1], a[2]}); if (e.out != 1) e.val = 2; return;
    }
    pyop(e, o.k, a);
    static const char* mk[] = {"srv", "cli", "view"};
    for (auto m : mk) if (e.out == 1 && (o.k == m || o.k == std::string("re") + m)) types[a[0]] = (int)a[o.k == "view" ? 2 : 1];
  }
  std::map<long, int> types; int ptype(long h) { auto i = types.find(h); return i == types.end() ? 2 : i->second; }
  void ads(Ev& e, const ad::Out& o) { e.out = o.code; e.what = o.what; e.val = o.val; }
  ad::Cfg cfg(const Op& o, int f, int s, int v) {
    ad::Cfg c; c.name = o.s[0].c_str(); c.ns = o.s.size() > 1 ? o.s[1].c_str() : "";
    if (f >= 0) c.force = o.a[f]; if (s >= 0) c.safe = o.a[s];
    if (v >= 0 && (int)o.a.size() > v) { c.verbose = o.a[v] != 0; c.vlevel = (int)o.a[v] - 1; }
    return c;
  }
  void exec(Ev& e) {
    const Op& o = *e.op; std::string k = o.k; ad::Out r;
    if (k == "resrv" || k == "recli" || k == "ressrv" || k == "rescli" || k == "reprod" || k == "recons") { if (!py && hs.count(o.a[0])) { e.out = 1; return; } k = k.substr(2); }
    auto A = [&](size_t i, long d = 0) { return i < o.a.size() ? o.a[i] : d; };
    if (py) { static const std::set<std::string> ctl = {"sleep", "await", "awaitall", "awaitall2", "bystander", "note", "peek"}; if (!ctl.count(o.k) && o.k.compare(0, 2, "cv") != 0 && !(o.k == "del" && hs.count(A(0)))) { pyexec(e); return; } }
    // ---- creation
    if (k == "srv") { H h; h.kind = 's'; h.type = (int)A(1); h.o = ad::make_server(r, h.type, (int)A(2), (int)A(3), (int)A(4), cfg(o, 5, 6, 7)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    if (k == "cli") { H h; h.kind = 'c'; h.type = (int)A(1); h.o = ad::make_client(r, h.type, (int)A(2), cfg(o, -1, 3, 4)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    if (k == "ssrv") { H h; h.kind = 'S'; h.o = ad::make_strserver(r, (int)A(1), cfg(o, 2, 3, 4)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    if (k == "scli") { H h; h.kind = 'C'; h.o = ad::make_strclient(r, cfg(o, -1, 1, 2)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    if (k == "prod") { H h; h.kind = 'P'; h.o = ad::make_producer(r, cfg(o, 1, -1, 2)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    if (k == "cons") { H h; h.kind = 'Q'; h.o = ad::make_consumer(r, cfg(o, -1, -1, 1)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    if (k == "cv") { H h; h.kind = 'v'; h.name = o.s[0]; h.o = ad::make_cv(r, A(1), cfg(o, 2, -1, 3)); if (h.o) hs[A(0)] = h; ads(e, r); return; }
    // ---- control
    if (k == "sleep") { sim::sleep_ns(A(0)); e.out = 1; return; }
    if (k == "await") {  // until process a0 has finished its operation number a1 (or is gone)
      int p = (int)A(0); long n = A(1); auto& c = prog();
      sim::wait_until([&] { return c[p] >= n || sim::pstate(p) == sim::PS_DONE || sim::pstate(p) == sim::PS_DEAD; }, A(2, -1)); e.out = 1; return;
    }
    if (k == "awaitall") {  // until all processes below a0 are gone (or a1 ns have passed)
      int n = (int)A(0);
      sim::wait_until([&] { for (int p = 0; p < n; p++) if (sim::pstate(p) != sim::PS_DONE && sim::pstate(p) != sim::PS_DEAD) return false; return true; }, A(1, -1)); e.out = 1; return;
    }
    if (k == "awaitall2") {  // until all processes in [a0, a1) are gone or cannot go on
      int a = (int)A(0), b = (int)A(1);
      sim::wait_until([&] { for (int p = a; p < b; p++) if (sim::pstate(p) != sim::PS_DONE && sim::pstate(p) != sim::PS_DEAD) return false; return true; }, A(2, 3000000000l)); e.out = 1; return;
    }
    if (k == "bystander") { for (long i = 0; i < A(0); i++) sim::open_bystander_fd(); e.out = 1; return; }
    if (k == "note") { e.out = 1; e.val = A(0); return; }
    if (k == "peek") {  // what is linked under any name
      e.out = 1; for (auto& n : sim::names()) { bool nz = n.sem; if (!n.sem) for (auto b : sim::shm_bytes(n.name)) if (b) { nz = true; break; } e.strs.push_back((n.sem ? "S" : nz ? "D" : "Z") + n.name); } return;
    }
    auto it = hs.find(A(0)); if (it == hs.end()) { e.out = -1; return; }
    H& h = it->second;
    if (k == "odd") { e.out = -1; return; }   // arrays only Python can hand over
    if (k == "del") { ad::destroy(h.o, r); hs.erase(it); ads(e, r); return; }
    if (k == "write") {
      ad::Xfer x; x.mode = (int)A(1); x.row = (int)A(2); x.col = (int)A(3); x.r = (int)A(4); x.c = (int)A(5);
      e.data.resize((size_t)x.r * x.c); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) e.data[i * x.c + j] = cell(h.type, A(6), i, j, x.c);
      x.in = e.data.data(); ad::write(h.o, r, x); ads(e, r); e.frame_bad = x.frame_bad; e.touched = x.touched; return;
    }
    if (k == "read") {
      ad::Xfer x; x.mode = (int)A(1); x.row = (int)A(2); x.col = (int)A(3); x.r = (int)A(4); x.c = (int)A(5);
      e.data.resize((size_t)x.r * x.c); x.out = e.data.data(); ad::read(h.o, r, x); ads(e, r); e.frame_bad = x.frame_bad; e.touched = x.touched; return;
    }
    if (k == "incr") {  // read the r x c block at (0,0), add one to every element, write it back (values via in/out)
      ad::Xfer x; x.r = (int)A(1); x.c = (int)A(2); e.data.resize((size_t)x.r * x.c); x.out = e.data.data();
      ad::read(h.o, r, x); if (r.code != 1) { ads(e, r); e.val = 1; return; }
      for (auto& v : e.data) v += 1;
      sim::boundary();
      ad::Xfer y; y.r = x.r; y.c = x.c; y.in = e.data.data(); r = ad::Out(); ad::write(h.o, r, y); ads(e, r); if (r.code != 1) e.val = 2; return;
    }
    if (k == "swrite") { ad::swrite(h.o, r, o.s, (int)A(1), A(2)); ads(e, r); return; }
    if (k == "sread") { e.strs.assign((size_t)std::max(0l, A(2)), "<prev>"); ad::sread(h.o, r, e.strs, (int)A(1), A(3)); ads(e, r); return; }
    if (k.compare(0, 2, "cv") == 0) { cvop(e, h, k, A(1), A(2), A(3)); return; }
    static const std::map<std::string, ad::Act> acts = {{"run", ad::RUN}, {"stop", ad::STOP}, {"close", ad::CLOSE}, {"attach", ad::ATTACH}, {"detach", ad::DETACH}, {"nclients", ad::NCLIENTS}, {"nrows", ad::NROWS}, {"ncols", ad::NCOLS}, {"isrun", ad::ISRUN}, {"lock", ad::LOCK}, {"unlock", ad::UNLOCK}, {"scalar", ad::SCALAR}, {"layout", ad::LAYOUT}, {"trigger", ad::TRIGGER}, {"wack", ad::WACK}, {"wait", ad::WAIT}, {"ack", ad::ACK}, {"waitack", ad::WAITACK}, {"len", ad::LEN}};
    auto ai = k == "cwait" ? acts.begin() : acts.find(k);
    if (ai == acts.end()) { fprintf(stderr, "unknown operation %s\n", k.c_str()); _exit(75); }
    if (k == "cwait") {   // wait for trigger number a2 of this handle, unless it has been received already; a3: 1 acknowledge, 2 with a failing pre-acknowledge step
      if (h.got >= A(2)) { e.out = -1; e.val = 1; return; }
      if (A(3)) ad::act(h.o, ad::WAITACK, r, A(3) == 1, A(1)); else { ad::act(h.o, ad::WAIT, r, 0, A(1)); r.val = r.code == 1; }
      ads(e, r); if (r.val) h.got++; return;
    }
    if (k == "lock" && A(1) && h.locked) return;      // a1: only if this handle does not hold the lock already
    if (k == "unlock" && A(1) && !h.locked) return;   // a1: only if it does
    if (ai->second == ad::WAIT) ad::act(h.o, ad::WAIT, r, 0, A(1));
    else ad::act(h.o, ai->second, r, A(1), A(2));
    if (k == "lock" && r.code == 1) h.locked = true; if (k == "unlock") h.locked = false;
    ads(e, r);
  }
  void cvop(Ev& e, H& h, const std::string& k, long a, long b, long c);
  static std::vector<long>& prog();
};
std::vector<long> g_prog;
std::vector<long>& Proc::prog() { return g_prog; }

void Proc::cvop(Ev& e, H& h, const std::string& k, long a, long b, long c) {
  ad::Out r; auto& cnt = g_cv->counters; auto& own = g_cv->owner; std::string key = h.name;
  auto take = [&] { if (own.count(key) && own[key] >= 0 && own[key] != id) e.strs.push_back("mutex held by two processes"); own[key] = id; };
  auto give = [&] { own[key] = -1; };
  if (k == "cvlock") { ad::cv(h.o, r, "lock", 0); if (r.code == 1) take(); }
  else if (k == "cvunlock") { give(); ad::cv(h.o, r, "unlock", 0); }
  else if (k == "cvset") { cnt[a] += 1; e.val = cnt[a]; r.code = 1; }
  else if (k == "cvget") { e.val = cnt[a]; r.code = 1; }
  else if (k == "cvone") ad::cv(h.o, r, "one", 0);
  else if (k == "cvall") ad::cv(h.o, r, "all", 0);
  // wait until counter a reaches b, the textbook loop around an untimed wait
  else if (k == "cvwait") { r.code = 1; while (cnt[a] < b && r.code == 1) { give(); ad::cv(h.o, r, "wait", 0); if (r.code == 1) take(); } e.val = cnt[a]; }
  else if (k == "cvwaitfor") { if (cnt[a] < b) { give(); ad::cv(h.o, r, "wait_for", 0, [&] { return cnt[a] >= b; }); if (r.code == 1) take(); } else r.code = 1; e.val = cnt[a]; }
  else if (k == "cvtimed") { give(); ad::cv(h.o, r, "timedwait", c); if (r.code != 2) take(); e.val = cnt[a]; }
  else if (k == "cvtimedfor") { give(); ad::cv(h.o, r, "timedwait_for", c, [&] { return cnt[a] >= b; }); if (r.code != 2) take(); e.val = cnt[a]; }
  // a bag of tokens: put one in; take one out, waiting with the textbook loop (for at most c ms)
  else if (k == "cvput") { cnt[a] += 1; e.val = cnt[a]; r.code = 1; }
  else if (k == "cvtake") { r.code = 1; while (cnt[a] <= 0 && r.code == 1) { give(); ad::cv(h.o, r, "wait", 0); if (r.code == 1) take(); } if (r.code == 1) e.val = --cnt[a]; }
  else if (k == "cvtaketimed") { r.code = 1; while (cnt[a] <= 0 && r.code == 1) { give(); ad::cv(h.o, r, "timedwait", c); if (r.code != 2) take(); } e.val = cnt[a]; if (r.code != 2) { r.code = cnt[a] > 0; if (r.code) cnt[a]--; } }
  else { fprintf(stderr, "unknown operation %s\n", k.c_str()); _exit(75); }
  e.out = r.code; e.what = r.what;
}
}  // namespace

void execute(const Plan& plan, const sim::RunCfg& cfg, Run& run) {
  run.plan = &plan;
  sim::RunCfg c2 = cfg; c2.horizon = plan.get("horizon_ms", 8000) * 1000000ll;
  long pym = plan.get("py"); if (pym && !py_host) { fprintf(stderr, "this plan needs a build with Python\n"); _exit(77); }
  if (pym) py_host->begin((int)plan.procs.size());
  sim::begin_run(c2);
  delete g_cv; g_cv = new CvShared; g_prog.assign(plan.procs.size(), 0);
  run.base.resize(plan.procs.size());
  for (size_t p = 0; p < plan.procs.size(); p++) {
    int id = (int)p;
    sim::spawn("p" + std::to_string(p), [&run, &plan, id, pym] {
      Proc P{run, plan, id, {}}; P.py = pym >> id & 1; if (P.py) py_host->enter(id);
      run.base[id] = sim::usage(id);
      auto& ops = plan.procs[id].ops;
      for (size_t i = 0; i < ops.size(); i++) {
        sim::boundary();
        auto up = std::make_unique<Ev>(); Ev& e = *up; e.proc = id; e.opi = (int)i; e.op = &ops[i];
        run.ev.push_back(std::move(up));
        e.inv = sim::seq(); e.t0 = sim::now(); uint64_t s0 = sim::local_steps(id);
        if (sim::tracing()) sim::trace("-> %s", show_op(ops[i]).c_str());
        sim::op_begin(&ops[i].f, (int)i);
        P.exec(e);
        e.blocked = sim::op_blocked_ns(); e.fired = sim::op_fired(); e.fired.resize(ops[i].f.size());
        for (char c : e.fired) if (c) e.any_fired = true;
        sim::op_end();
        e.t1 = sim::now(); e.ret = sim::seq(); e.steps = sim::local_steps(id) - s0; e.u1 = sim::usage(id); e.held = sim::held_sems(id);
        e.done = true; run.last[id] = e.u1; g_prog[id] = (long)i + 1;
        sim::hash_in((uint64_t)(e.out + 7) * 31 + e.val); for (double d : e.data) sim::hash_in((uint64_t)(int64_t)(d * 2));
        for (auto& s : e.strs) for (char ch : s) sim::hash_in((unsigned char)ch);
        if (sim::tracing()) {
          std::string d; if (ops[i].k == "read" && e.out == 1) for (size_t q = 0; q < e.data.size() && q < 16; q++) { char b[32]; snprintf(b, sizeof b, " %g", e.data[q]); d += b; }
          for (auto& x : e.strs) d += " '" + x.substr(0, 24) + "'";
          sim::trace("<- %s = %s%s%s%s val=%ld", ops[i].k.c_str(), e.out == 1 ? "ok" : e.out == 0 ? "false" : e.out == 2 ? "error " : "skipped", e.out == 2 ? e.what.c_str() : "", d.c_str(), e.frame_bad ? " FRAME" : "", e.val);
        }
      }
      if (P.py) py_host->leave(id);
    });
  }
  run.q = sim::run_all();
  if (pym) py_host->end();
}

// ---------------------------------------------------------------- linearizability (Wing & Gong with memoisation)
namespace {
struct Lin {
  int rows, cols; std::vector<LOp> ops; std::vector<std::unordered_set<uint64_t>> seen; std::unordered_set<uint64_t> memo; long budget = 400000; int deepest = 0; int stuck_op = -1; std::vector<double> deep_state;
  bool fits(const LOp& o, const std::vector<double>& st) const {
    for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) if (st[(o.row + i) * cols + o.col + j] != o.data[i * o.c + j]) return false;
    return true;
  }
  static uint64_t hs(const std::vector<double>& st) { uint64_t h = 1469598103934665603ull; for (double d : st) { uint64_t u; memcpy(&u, &d, 8); h = (h ^ u) * 1099511628211ull; h ^= h >> 31; } return h; }
  bool go(std::vector<char>& used, int nreq, std::vector<double>& st, uint64_t mh) {
    if (nreq == 0) return true;
    if (--budget < 0) return true;  // give up: not a violation
    if (!memo.insert(mh ^ (hs(st) * 0x9E3779B97F4A7C15ull)).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < ops.size(); i++) if (!used[i] && !ops[i].pending) minret = std::min(minret, ops[i].ret);
    for (size_t i = 0; i < ops.size(); i++) {
      if (used[i] || ops[i].inv > minret) continue;
      LOp& o = ops[i];
      uint64_t nh = mh ^ ((i + 1) * 0xD6E8FEB86659FD93ull) ^ (((i + 1) * 0xD6E8FEB86659FD93ull) << 17 | (i + 77));
      if (!o.write) {
        if (!fits(o, st)) continue;
        used[i] = 1; if (go(used, nreq - 1, st, nh)) return true; used[i] = 0;
        continue;
      }
      std::vector<double> old = st;
      for (int a = 0; a < o.r; a++) for (int b = 0; b < o.c; b++) st[(o.row + a) * cols + o.col + b] = o.data[a * o.c + b];
      used[i] = 1; if (go(used, nreq - (o.pending ? 0 : 1), st, nh)) return true;
      used[i] = 0; st = old;
    }
    int done = 0; for (size_t i = 0; i < ops.size(); i++) done += used[i];
    if (done >= deepest) { deepest = done; deep_state = st; for (size_t i = 0; i < ops.size(); i++) if (!used[i] && !ops[i].pending && ops[i].ret == minret) stuck_op = (int)i; }
    return false;
  }
};
}
bool linearizable(int rows, int cols, const std::vector<double>& init, std::vector<LOp> ops, std::string& why) {
  Lin l; l.rows = rows; l.cols = cols;
  for (auto& o : ops) if (!(o.pending && !o.write)) l.ops.push_back(std::move(o));
  std::sort(l.ops.begin(), l.ops.end(), [](const LOp& a, const LOp& b) { return a.inv < b.inv; });
  int req = 0; for (auto& o : l.ops) req += !o.pending;
  std::vector<char> used(l.ops.size(), 0); std::vector<double> st = init;
  if (l.go(used, req, st, 0)) return true;
  if (l.stuck_op >= 0) {
    why = l.ops[l.stuck_op].label + " does not fit any order; it returned/wrote [";
    for (size_t i = 0; i < l.ops[l.stuck_op].data.size() && i < 24; i++) { char b[32]; snprintf(b, sizeof b, "%s%g", i ? " " : "", l.ops[l.stuck_op].data[i]); why += b; }
    why += "] while the deepest consistent prefix left [";
    for (size_t i = 0; i < l.deep_state.size() && i < 24; i++) { char b[32]; snprintf(b, sizeof b, "%s%g", i ? " " : "", l.deep_state[i]); why += b; }
    why += "]";
  } else why = "no order of the transfers explains the reads";
  return false;
}
