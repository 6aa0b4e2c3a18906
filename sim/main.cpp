// Runner: seeded search over plans, schedules and faults; minimisation; replay; evidence.
#include "world.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

#include "pyhost.hpp"
static bool py_build() { return py_host != nullptr; }
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static FILE* OUT = nullptr;   // the real standard output (the library's own output goes nowhere)

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; return z & 0x7fffffffffffull; }

struct Case { std::string prop, kind, msg; Plan plan; sim::RunCfg cfg; };

static std::string esc(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { if (c <= 32 || c == '%' || c >= 127) { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += c; } return r.empty() ? "%" : r; }
static std::string unesc(const std::string& s) { std::string r; if (s == "%") return r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }

static std::string plan_text(const Plan& p) {
  std::ostringstream o;
  o << "world " << p.world << "\n"; for (auto& k : p.par) o << "par " << k.first << " " << k.second << "\n";
  for (auto& q : p.procs) {
    o << "proc\n";
    for (auto& x : q.ops) { o << "op " << x.k << " " << x.a.size(); for (long v : x.a) o << " " << v; o << " " << x.s.size(); for (auto& s : x.s) o << " " << esc(s); o << " " << x.f.size(); for (auto& f : x.f) o << " " << f.kind << " " << f.at << " " << f.arg; o << "\n"; }
  }
  return o.str();
}
static void save(const Case& c, const std::string& path) {
  std::ofstream o(path);
  o << "# deterministic simulation replay: run with  ./check replay <this file>\nproperty " << c.prop << "\nkind " << esc(c.kind) << "\nmsg " << esc(c.msg) << "\nseed " << c.cfg.seed << "\nmode " << (c.cfg.replay ? "schedule" : "seed") << "\n" << plan_text(c.plan);
  for (auto& d : c.cfg.sched) o << "d " << d.proc << " " << d.lstep << " " << d.kind << " " << d.arg << "\n";
}
static bool load(Case& c, const std::string& path) {
  std::ifstream in(path); if (!in) return false; std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; if (!(l >> k) || k[0] == '#') continue; std::string t;
    if (k == "property") l >> c.prop; else if (k == "kind") { l >> t; c.kind = unesc(t); } else if (k == "msg") { l >> t; c.msg = unesc(t); }
    else if (k == "seed") l >> c.cfg.seed; else if (k == "mode") { l >> t; c.cfg.replay = t == "schedule"; }
    else if (k == "world") l >> c.plan.world; else if (k == "par") { std::string n; long v; l >> n >> v; c.plan.par[n] = v; }
    else if (k == "proc") c.plan.procs.emplace_back();
    else if (k == "op") { Op o; size_t n; l >> o.k >> n; o.a.resize(n); for (auto& v : o.a) l >> v; l >> n; for (size_t i = 0; i < n; i++) { l >> t; o.s.push_back(unesc(t)); } l >> n; for (size_t i = 0; i < n; i++) { Fault f; l >> f.kind >> f.at >> f.arg; o.f.push_back(f); } c.plan.procs.back().ops.push_back(o); }
    else if (k == "d") { sim::Decision d; l >> d.proc >> d.lstep >> d.kind >> d.arg; c.cfg.sched.push_back(d); }
  }
  return true;
}

static const Prop* find(const std::string& id) { for (auto& p : props()) if (id == p.id) return &p; return nullptr; }

struct Result { std::vector<Viol> v; uint64_t hash, path; std::vector<sim::Decision> dec; sim::KernelStats st; std::vector<std::string> trace; size_t events; };
static Result go(const Prop* p, const Plan& plan, const sim::RunCfg& cfg) {
  Run run; execute(plan, cfg, run);
  Result r; r.v = p->check(run); r.hash = sim::run_hash(); r.path = sim::path_hash(); r.dec = sim::decisions(); r.st = sim::stats(); r.events = run.ev.size();
  if (cfg.trace) r.trace = sim::trace_lines();
  sim::end_run();
  return r;
}
static const Viol* same(const Result& r, const std::string& kind) { for (auto& v : r.v) if (v.kind == kind) return &v; return nullptr; }

// ---------------------------------------------------------------- minimisation
static void minimise(const Prop* p, Case& c, double budget, std::ostream* log) {
  double end = wall() + budget; Rng rng(c.cfg.seed ^ 99); int tries = 0;
  auto attempt = [&](const Plan& cand, int fresh) -> bool {
    for (int k = 0; k <= fresh; k++) {
      sim::RunCfg cfg = c.cfg;
      if (k > 0) { cfg.replay = false; cfg.sched.clear(); cfg.seed = rng.next() & 0xffffffffff; }
      tries++;
      Result r = go(p, cand, cfg);
      if (const Viol* v = same(r, c.kind)) {
        if (!cfg.replay) { cfg.replay = true; cfg.sched = r.dec; Result r2 = go(p, cand, cfg); tries++; if (!same(r2, c.kind)) continue; }
        c.plan = cand; c.cfg = cfg; c.msg = v->msg; return true;
      }
    }
    return false;
  };
  for (int round = 0; round < 3 && wall() < end; round++) {
    bool any = false;
    for (size_t i = 0; i < c.plan.procs.size() && wall() < end; i++) if (!c.plan.procs[i].ops.empty()) { Plan q = c.plan; q.procs[i].ops.clear(); any |= attempt(q, 8); }
    for (size_t i = 0; i < c.plan.procs.size() && wall() < end; i++)
      for (size_t n = c.plan.procs[i].ops.size() / 2; n >= 1 && wall() < end; n /= 2)
        for (size_t j = 0; j + n <= c.plan.procs[i].ops.size() && wall() < end;) {
          Plan q = c.plan; auto& o = q.procs[i].ops; o.erase(o.begin() + j, o.begin() + j + n);
          if (attempt(q, 6)) any = true; else j += n;
        }
    for (size_t i = 0; i < c.plan.procs.size() && wall() < end; i++)
      for (size_t j = 0; j < c.plan.procs[i].ops.size() && wall() < end; j++)
        for (size_t k = 0; k < c.plan.procs[i].ops[j].f.size() && wall() < end;) { Plan q = c.plan; auto& f = q.procs[i].ops[j].f; f.erase(f.begin() + k); if (attempt(q, 6)) any = true; else k++; }
    if (!any) break;
  }
  // schedule: drop decisions
  for (size_t n = std::max<size_t>(1, c.cfg.sched.size() / 2); n >= 1 && wall() < end; n /= 2) {
    for (size_t j = 0; j < c.cfg.sched.size() && wall() < end;) {
      sim::RunCfg cfg = c.cfg; cfg.replay = true; size_t e = std::min(cfg.sched.size(), j + n); cfg.sched.erase(cfg.sched.begin() + j, cfg.sched.begin() + e);
      tries++; Result r = go(p, c.plan, cfg);
      if (const Viol* v = same(r, c.kind)) { c.cfg = cfg; c.msg = v->msg; } else j += n;
    }
    if (n == 1) break;
  }
  if (log) *log << "minimised with " << tries << " simulated runs\n";
}

// ---------------------------------------------------------------- search
struct Stats { uint64_t runs = 0, nontrivial = 0, steps = 0, switches = 0, preempts = 0, pauses = 0, events = 0, rechecks = 0, nondet = 0, known = 0; double vtime = 0; std::map<std::string, uint64_t> faults, outcomes, faulted_runs; std::unordered_set<uint64_t> paths, states; std::vector<std::string> samples; };
static std::set<std::string> g_known;   // kinds of listed findings

static void write_stats(const Stats& s, const std::string& f) {
  std::ofstream o(f + ".tmp", std::ios::binary);
  o << s.runs << " " << s.nontrivial << " " << s.steps << " " << s.switches << " " << s.preempts << " " << s.pauses << " " << s.events << " " << s.rechecks << " " << s.nondet << " " << s.known << " " << (uint64_t)s.vtime << "\n";
  auto m = [&](const std::map<std::string, uint64_t>& x) { o << x.size(); for (auto& k : x) o << " " << esc(k.first) << " " << k.second; o << "\n"; };
  m(s.faults); m(s.outcomes); m(s.faulted_runs);
  o << s.samples.size() << "\n"; for (auto& x : s.samples) o << esc(x) << "\n";
  o << s.paths.size() << " " << s.states.size() << "\n"; for (uint64_t h : s.paths) o.write((char*)&h, 8); for (uint64_t h : s.states) o.write((char*)&h, 8);
  o.close(); rename((f + ".tmp").c_str(), f.c_str());
}
static bool read_stats(Stats& s, const std::string& f) {
  std::ifstream in(f, std::ios::binary); if (!in) return false; uint64_t v[11];
  for (auto& x : v) in >> x;
  s.runs += v[0]; s.nontrivial += v[1]; s.steps += v[2]; s.switches += v[3]; s.preempts += v[4]; s.pauses += v[5]; s.events += v[6]; s.rechecks += v[7]; s.nondet += v[8]; s.known += v[9]; s.vtime += (double)v[10];
  auto m = [&](std::map<std::string, uint64_t>& x) { size_t n; in >> n; for (size_t i = 0; i < n; i++) { std::string k; uint64_t c; in >> k >> c; x[unesc(k)] += c; } };
  m(s.faults); m(s.outcomes); m(s.faulted_runs);
  size_t n; in >> n; for (size_t i = 0; i < n; i++) { std::string k; in >> k; if (s.samples.size() < 3) s.samples.push_back(unesc(k)); }
  size_t a, b; in >> a >> b; in.get(); for (size_t i = 0; i < a; i++) { uint64_t h; in.read((char*)&h, 8); s.paths.insert(h); } for (size_t i = 0; i < b; i++) { uint64_t h; in.read((char*)&h, 8); s.states.insert(h); }
  return true;
}
static std::string plan_line(const Plan& p) { std::string s; for (size_t i = 0; i < p.procs.size(); i++) { s += (i ? " | P" : "P") + std::to_string(i) + ":"; for (auto& o : p.procs[i].ops) s += " " + show_op(o); } return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }

static volatile sig_atomic_t g_stop = 0;
static void on_term(int) { g_stop = 1; }
// a run that burns processor time without ever reaching a scheduling point
static const int SPIN_S = 40;
static volatile sig_atomic_t g_spin_exit = 5;
static void on_spin(int) { if (g_spin_exit == 1) { const char m[] = "spins: the run never ends\nREPRODUCED\n"; if (write(fileno(OUT), m, sizeof m - 1)) {} } _exit(g_spin_exit); }
static void arm() {
  struct sigaction sa{}; sa.sa_handler = on_spin; sa.sa_flags = SA_ONSTACK; sigaction(SIGPROF, &sa, nullptr);
  itimerval t{}; t.it_value.tv_sec = SPIN_S; setitimer(ITIMER_PROF, &t, nullptr);
}
struct Slot { uint64_t next, seed; };           // per worker, shared with the parent
static Slot* g_slots = nullptr;
static long rss_mb() { std::ifstream f("/proc/self/statm"); long a = 0, b = 0; f >> a >> b; return b * 4 / 1024; }

// returns 0 at the end of its time, 1 with a violation, 4 to be continued by a fresh process
static int worker(const Prop* p, int w, int jobs, uint64_t seed, double end, uint64_t max_runs, const std::string& dir) {
  Stats s; read_stats(s, dir + "/stats." + std::to_string(w)); signal(SIGPROF, SIG_IGN); uint64_t mine = 0;
  for (uint64_t i = g_slots[w].next; i < max_runs; i += jobs) {
    if (g_stop || wall() > end) break;
    g_slots[w].next = i;
    if (++mine % 512 == 0 && rss_mb() > (getenv("SIM_RSS_MB") ? atol(getenv("SIM_RSS_MB")) : 600)) { write_stats(s, dir + "/stats." + std::to_string(w)); return 4; }
    uint64_t rs = mix(mix(seed, 77), i);
    g_slots[w].seed = rs; arm();
    Rng g(rs); Plan plan = p->gen(g);
    sim::RunCfg cfg; cfg.seed = rs; cfg.step_cap = (uint64_t)plan.get("stepcap", 3000000);
    Result r = go(p, plan, cfg);
    s.runs++; s.steps += r.st.steps; s.switches += r.st.switches; s.preempts += r.st.preempts; s.pauses += r.st.pauses; s.events += r.events; s.vtime += (double)r.st.vtime;
    uint64_t nf = 0; for (auto& k : r.st.faults) { s.faults[k.first] += k.second; nf += k.second; s.faulted_runs[k.first]++; }
    if (r.st.preempts > 0 || nf > 0) { s.nontrivial++; if (s.paths.size() < 3000000) s.paths.insert(r.path); }
    if (s.states.size() < 3000000) s.states.insert(r.hash);
    if (s.samples.size() < 2 && (r.st.preempts > 2 || nf > 0)) s.samples.push_back("seed " + std::to_string(rs) + ": " + plan_line(plan) + " [" + std::to_string(r.st.steps) + " steps, " + std::to_string(r.st.preempts) + " preemptions, " + std::to_string(nf) + " faults]");
    if (s.runs % 97 == 1) { Result r2 = go(p, plan, cfg); s.rechecks++; if (r2.hash != r.hash || r2.st.steps != r.st.steps) { s.nondet++; std::ofstream(dir + "/nondet." + std::to_string(w)) << "seed " << rs << "\n" << plan_text(plan); } }
    const Viol* bad = nullptr;
    for (auto& v : r.v) { if (g_known.count(v.kind)) s.known++; else if (!bad) bad = &v; }
    if (bad) {
      Case c; c.prop = p->id; c.kind = bad->kind; c.msg = bad->msg; c.plan = plan; c.cfg = cfg; c.cfg.replay = false;
      save(c, dir + "/raw." + std::to_string(w) + ".tmp"); rename((dir + "/raw." + std::to_string(w) + ".tmp").c_str(), (dir + "/raw." + std::to_string(w)).c_str());
      write_stats(s, dir + "/stats." + std::to_string(w)); return 1;
    }
  }
  write_stats(s, dir + "/stats." + std::to_string(w));
  return 0;
}

static std::string jesc(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static int run_self(const std::vector<std::string>& args) {
  fflush(nullptr); pid_t p = fork();
  if (p == 0) { std::vector<char*> a; for (auto& s : args) a.push_back((char*)s.c_str()); a.push_back(nullptr); int n = open("/dev/null", O_WRONLY); dup2(n, 1); execv("/proc/self/exe", a.data()); _exit(127); }
  int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

static int replay(const std::string& file, bool trace, bool quiet) {
  Case c; if (!load(c, file)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
  const Prop* p = find(c.prop); if (!p) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 2; }
  sim::init_process(); c.cfg.trace = trace; c.cfg.step_cap = (uint64_t)c.plan.get("stepcap", 3000000);
  if (c.kind == "spins") g_spin_exit = 1;
  arm();
  Result r = go(p, c.plan, c.cfg);
  if (trace) { for (size_t i = 0; i < c.plan.procs.size(); i++) { fprintf(OUT, "P%zu:", i); for (auto& o : c.plan.procs[i].ops) fprintf(OUT, " %s;", show_op(o).c_str()); fprintf(OUT, "\n"); } for (auto& l : r.trace) fprintf(OUT, "%s\n", l.c_str()); }
  if (!quiet) for (auto& v : r.v) fprintf(OUT, "%s: %s: %s\n", p->id, v.kind.c_str(), v.msg.c_str());
  if (!quiet) fprintf(OUT, "hash %016lx steps %lu\n", (unsigned long)r.hash, (unsigned long)r.st.steps);
  bool hit = c.kind.empty() ? !r.v.empty() : same(r, c.kind) != nullptr;
  if (!quiet) fprintf(OUT, hit ? "REPRODUCED\n" : "not reproduced\n");
  fflush(OUT);
  return hit ? 1 : 0;
}

int main(int argc, char** argv) {
  int so = dup(1); OUT = fdopen(so, "w"); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
  static char obuf[8192]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  std::map<std::string, std::string> opt; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0) { size_t e = a.find('='); if (e == std::string::npos) opt[a.substr(2)] = "1"; else opt[a.substr(2, e - 2)] = a.substr(e + 1); } else pos.push_back(a); }
  auto O = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };
  if (pos.size() >= 2 && pos[0] == "replay") return replay(pos[1], opt.count("trace"), opt.count("quiet"));
  if (pos.size() >= 1 && pos[0] == "list") { for (auto& p : props()) fprintf(OUT, "%s\n", p.id); fflush(OUT); return 0; }
  if (pos.size() >= 3 && pos[0] == "one") {  // one <prop> <run seed>
    const Prop* p = find(pos[1]); if (!p) return 2; sim::init_process(); uint64_t rs = strtoull(pos[2].c_str(), nullptr, 10); Rng g(rs); Plan plan = p->gen(g); sim::RunCfg cfg; cfg.seed = rs; cfg.trace = opt.count("trace"); cfg.step_cap = (uint64_t)plan.get("stepcap", 3000000);
    Result r = go(p, plan, cfg); fprintf(OUT, "%s\n", plan_text(plan).c_str()); for (auto& l : r.trace) fprintf(OUT, "%s\n", l.c_str()); for (auto& v : r.v) fprintf(OUT, "%s: %s\n", v.kind.c_str(), v.msg.c_str()); fprintf(OUT, "hash %016lx steps %lu\n", (unsigned long)r.hash, (unsigned long)r.st.steps); fflush(OUT); return 0;
  }
  if (pos.size() < 2 || pos[0] != "search") { fprintf(stderr, "usage: simcheck search <prop> [--seed= --time= --jobs= --runs= --dir= --evidence= --tier= --known=kinds] | replay <file> [--trace] | one <prop> <seed> [--trace]\n"); return 2; }
  const Prop* p = find(pos[1]); if (!p) { fprintf(stderr, "unknown property %s\n", pos[1].c_str()); return 2; }
  uint64_t seed = strtoull(O("seed", "1").c_str(), nullptr, 10); double T = atof(O("time", "40").c_str()); int jobs = atoi(O("jobs", "8").c_str());
  uint64_t max_runs = strtoull(O("runs", "1000000000000").c_str(), nullptr, 10); std::string dir = O("dir", "/tmp/simcheck"), tier = O("tier", "quick");
  { std::string k = O("known", ""); std::istringstream is(k); std::string t; while (std::getline(is, t, ',')) if (!t.empty()) g_known.insert(t); }
  mkdir(dir.c_str(), 0755);
  uint64_t pseed = mix(seed, std::hash<std::string>()(p->id));
  fprintf(OUT, "VERIF_SEED=%lu property=%s tier=%s jobs=%d budget=%.0fs\n", (unsigned long)seed, p->id, tier.c_str(), jobs, T); fflush(OUT);
  double t0 = wall(), end = t0 + T; std::vector<pid_t> kids;
  g_slots = (Slot*)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto start = [&](int w) {
    fflush(nullptr); pid_t k = fork();
    if (k == 0) { signal(SIGTERM, on_term); sim::init_process(); _exit(worker(p, w, jobs, pseed, end, max_runs, dir)); }
    kids[w] = k;
  };
  for (int w = 0; w < jobs; w++) {
    for (const char* n : {"/stats.", "/raw.", "/nondet."}) unlink((dir + n + std::to_string(w)).c_str());
    g_slots[w] = {(uint64_t)w, 0}; kids.push_back(0); start(w);
  }
  bool found = false, broken = false; int left = jobs; std::string brk;
  while (left > 0) {
    int st; pid_t k = wait(&st); if (k < 0) break;
    int w = (int)(std::find(kids.begin(), kids.end(), k) - kids.begin()); if (w == jobs) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4 && !found && wall() < end) { start(w); continue; }
    left--;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 5) {   // it spins: what it was about is known from its seed
      Case c; c.prop = p->id; c.kind = "spins"; c.msg = "the run never ends"; c.cfg.seed = g_slots[w].seed; Rng g(c.cfg.seed); c.plan = p->gen(g); c.cfg.replay = false;
      save(c, dir + "/raw." + std::to_string(w)); st = 1 << 8;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { found = true; for (pid_t q : kids) if (q != k) kill(q, SIGTERM); }
    else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { broken = true; brk = WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st)); }
  }
  double t1 = wall(); Stats s; for (int w = 0; w < jobs; w++) read_stats(s, dir + "/stats." + std::to_string(w));
  std::string rep; Case c; int rc = 0;
  if (found) {
    bool have = false; std::string err;
    for (int w = 0; w < jobs && !have; w++) if (load(c, dir + "/raw." + std::to_string(w))) {
      // gate: the same seed must give the same violation again, twice, with the same hash, in fresh processes
      std::string raw = dir + "/raw." + std::to_string(w); c.cfg.sched.clear();
      if (run_self({"simcheck", "replay", raw, "--quiet"}) != 1) { err = "violation of seed " + std::to_string(c.cfg.seed) + " did not repeat in a fresh process: " + c.kind; continue; }
      rep = dir + "/" + c.prop + "-" + std::to_string(c.cfg.seed) + ".replay"; save(c, rep);
      // minimise in a child: a crash there must not lose the finding
      if (c.kind == "spins") { have = true; continue; }
      fflush(nullptr); pid_t k = fork();
      if (k == 0) {
        sim::init_process(); Case m = c; m.cfg.step_cap = (uint64_t)m.plan.get("stepcap", 3000000); Result r = go(p, m.plan, m.cfg); m.cfg.replay = true; m.cfg.sched = r.dec; Result r2 = go(p, m.plan, m.cfg);
        if (!same(r2, m.kind)) { m.cfg.replay = false; m.cfg.sched.clear(); }
        minimise(p, m, atof(O("mintime", "40").c_str()), nullptr); save(m, rep + ".min"); _exit(0);
      }
      int st; waitpid(k, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && run_self({"simcheck", "replay", rep + ".min", "--quiet"}) == 1) { rename((rep + ".min").c_str(), rep.c_str()); }
      else unlink((rep + ".min").c_str());
      c = Case(); load(c, rep); have = true;
    }
    if (have) {
      rc = 1; fprintf(OUT, "found %s: %s\n", c.kind.c_str(), c.msg.c_str());
      for (size_t i = 0; i < c.plan.procs.size(); i++) if (!c.plan.procs[i].ops.empty()) { fprintf(OUT, "  P%zu:", i); for (auto& o : c.plan.procs[i].ops) fprintf(OUT, " %s;", show_op(o).c_str()); fprintf(OUT, "\n"); }
      fprintf(OUT, "  %zu schedule decisions, run seed %lu\n", c.cfg.sched.size(), (unsigned long)c.cfg.seed);
      fprintf(OUT, "VIOLATION property=%s replay=%s\n", p->id, rep.c_str());
    } else { broken = true; brk = err; }
  }
  if (s.nondet) { broken = true; brk += " nondeterministic runs: " + std::to_string(s.nondet); }
  double secs = t1 - t0;
  if (opt.count("evidence")) {
    std::ostringstream o; o << "{\n \"property\": \"" << p->id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"" << O("level", "exploration") << "\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << s.runs << ",\n  \"distinct_nontrivial\": " << s.paths.size() << ",\n";
    o << "  \"rule\": " << jesc("each evaluation is one simulated execution of a generated plan of API calls by several processes under one seed; it is non-trivial when at least one preemption or fault happened in it, and distinct when its sequence of (process, local step) context switches was not seen before in this search") << ",\n";
    o << "  \"samples\": ["; for (size_t i = 0; i < s.samples.size(); i++) o << (i ? ", " : "") << jesc(s.samples[i]); if (s.samples.empty()) o << "\"none\""; o << "],\n";
    o << "  \"runs_per_hour\": " << (uint64_t)(s.runs / std::max(secs, 0.001) * 3600) << ", \"simulated_seconds\": " << s.vtime * 1e-9 << ", \"scheduling_points\": " << s.steps << ", \"context_switches\": " << s.switches << ", \"preemptions\": " << s.preempts << ", \"api_calls\": " << s.events << ",\n";
    o << "  \"distinct_histories\": " << s.states.size() << ", \"nontrivial_runs\": " << s.nontrivial << ", \"determinism_rechecks\": " << s.rechecks << ", \"determinism_failures\": " << s.nondet << ", \"known_finding_hits\": " << s.known << ",\n";
    o << "  \"faults_fired\": {"; bool f = true; for (auto& k : s.faults) { o << (f ? "" : ", ") << jesc(k.first) << ": " << k.second; f = false; } o << "},\n";
    o << "  \"runs_with_fault\": {"; f = true; for (auto& k : s.faulted_runs) { o << (f ? "" : ", ") << jesc(k.first) << ": " << k.second; f = false; } o << "},\n";
    o << "  \"real_code\": \"all of EigenIPC/src and include from the working tree, Eigen, Boost.Interprocess, libstdc++" << (py_build() ? "; PyEigenIPC bindings and wrappers, pybind11, numpy, CPython" : "") << "\",\n  \"stubs\": \"shm_open/ftruncate/mmap/munmap/close/shm_unlink, sem_*, pthread mutex and condition variables, clocks and sleeps, heap allocation, process life cycle\"\n },\n";
    o << " \"assumptions\": [\"sequentially consistent memory with preemption at every instrumented access to shared memory and every system call\"],\n \"wall_s\": " << secs << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    std::ofstream(O("evidence", "")) << o.str();
  }
  fprintf(OUT, "%s: %lu simulated runs (%lu distinct interleavings) in %.1f s, %lu scheduling points, %.1f simulated s, %lu rechecks, known-finding hits %lu\n", p->id, (unsigned long)s.runs, (unsigned long)s.paths.size(), secs, (unsigned long)s.steps, s.vtime * 1e-9, (unsigned long)s.rechecks, (unsigned long)s.known);
  if (rc == 0 && broken) { fprintf(OUT, "harness error: %s\n", brk.c_str()); rc = 2; }
  fflush(OUT);
  return rc;
}
