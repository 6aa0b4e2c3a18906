#include "props.hpp"
#include <cstdio>

std::string fmt(const char* f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
Shape rnd_shape(Rng& r, bool big) {
  Shape s; s.type = (int)r.below(4); if (s.type == 3 && r.chance(0.5)) s.type = (int)r.below(3);
  s.layout = (int)r.below(2);
  if (big && r.chance(0.03)) { s.rows = (int)r.range(10, 50); s.cols = (int)r.range(10, 50); if (r.chance(0.2)) { s.rows = (int)r.range(1, 2); s.cols = (int)r.range(100, 1100); if (r.chance(0.5)) std::swap(s.rows, s.cols); } }
  else { s.rows = (int)r.range(1, 6); s.cols = (int)r.range(1, 6); }
  return s;
}
Blk rnd_block(Rng& r, int rows, int cols) {
  if (r.chance(0.4)) return {0, 0, rows, cols};
  Blk b; b.row = (int)r.below(rows); b.col = (int)r.below(cols); b.r = (int)r.range(1, rows - b.row); b.c = (int)r.range(1, cols - b.col); return b;
}
Op rd(Rng& r, long h, const Shape& s) { Blk b = rnd_block(r, s.rows, s.cols); return op("read", {h, (long)r.below(4), b.row, b.col, b.r, b.c}); }
Op wr(Rng& r, long h, const Shape& s, long& tag) { Blk b = rnd_block(r, s.rows, s.cols); return op("write", {h, (long)r.below(4), b.row, b.col, b.r, b.c, tag++}); }
Op rdw(long h, const Shape& s) { return op("read", {h, 0, 0, 0, s.rows, s.cols}); }
Op srv(long h, const Shape& s, bool force, bool safe, const std::string& n, const std::string& ns, int v) { return op("srv", {h, s.type, s.layout, s.rows, s.cols, force, safe, v}, {n, ns}); }
Op cli(long h, const Shape& s, bool safe, const std::string& n, const std::string& ns, int v) { return op("cli", {h, s.type, s.layout, safe, v}, {n, ns}); }
Op& with(Op& o, const char* kind, long at, long arg) { o.f.push_back({kind, at, arg}); return o; }
int verb(Rng& r) { return r.chance(0.7) ? 0 : (int)r.range(1, 4); }
void sprinkle_stalls(Rng& r, Plan& p, double prob) {
  for (auto& q : p.procs) for (auto& o : q.ops) if (o.k != "sleep" && o.k != "await" && o.k != "awaitall" && o.k != "awaitall2" && r.chance(prob)) with(o, "stall", r.logu(1, 80), r.logu(1000, 20000000));
}
bool takes_lock(const Op& o) {
  static const std::set<std::string> k = {"write", "read", "incr", "attach", "detach", "nclients", "srv", "run", "close", "del", "ssrv", "scli", "swrite", "sread", "lock"};
  return k.count(o.k) > 0;
}
bool fits(const Op& o, int rows, int cols) { long row = o.a[2], col = o.a[3], r = o.a[4], c = o.a[5]; return row >= 0 && col >= 0 && row < rows && col < cols && row + r <= rows && col + c <= cols; }
std::string evs(const Ev& e) { return fmt("P%d #%d %s", e.proc, e.opi, show_op(*e.op).c_str()); }
std::vector<Viol> basics(Run& run, bool stuck_ok) {
  std::vector<Viol> v;
  for (int p = 0; p < sim::nprocs(); p++) if (sim::pstate(p) == sim::PS_DEAD && !sim::killed_by_plan(p)) {
    const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == p) last = e.get();
    v.push_back({"crash", fmt("process P%d died: %s, during %s", p, sim::death(p).c_str(), last ? evs(*last).c_str() : "start")});
  }
  if (v.empty()) for (auto& m : sim::memfaults()) { v.push_back({"memory", fmt("P%d: %s", m.proc, m.what.c_str())}); break; }
  if (run.q.k == sim::Quiescence::StepCap) v.push_back({"livelock", "the run did not finish within the step limit"});
  if (run.q.k == sim::Quiescence::Deadlock && !stuck_ok) {
    auto lv = lives(run);
    std::string s; for (int p = 0; p < sim::nprocs(); p++) if (sim::pstate(p) == sim::PS_BLOCKED || sim::pstate(p) == sim::PS_READY) {
      if (fired("hang") && sim::waiting_on(p) == "stalled") continue;
      const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == p) last = e.get();
      if (last && (last->is("awaitall") || last->is("awaitall2") || last->is("await"))) continue;
      if (last && last->is("attach") && !last->done && !server_up(lv, okey_of(run, *last))) continue;   // nobody to attach to
      { std::map<long, bool> mine; for (auto& e : run.ev) if (e->proc == p && e.get() != last) { if (e->is("lock") && e->ok()) mine[e->hdl()] = true; else if (e->is("unlock")) mine.erase(e->hdl()); } if (!mine.empty() && last && takes_lock(*last->op)) continue; }   // waits for the lock it took itself
      s += fmt(" P%d in %s waits for %s;", p, last ? evs(*last).c_str() : "?", sim::waiting_on(p).c_str());
    }
    if (!s.empty()) v.push_back({"stuck", "never finishes:" + s});
  }
  return v;
}
std::vector<LOp> lops(const std::vector<const Ev*>& ev, bool pend) {
  std::vector<LOp> l;
  for (const Ev* e : ev) {
    bool w = e->is("write"); if (!w && !e->is("read")) continue;
    if (e->done && e->out != 1) continue;
    if (!e->done && (!w || !pend)) continue;
    LOp o; o.inv = e->inv; o.ret = e->ret; o.write = w; o.row = (int)e->op->a[2]; o.col = (int)e->op->a[3]; o.r = (int)e->op->a[4]; o.c = (int)e->op->a[5]; o.data = e->data; o.pending = !e->done; o.label = evs(*e);
    l.push_back(o);
  }
  return l;
}

std::string okey(const Op& o) { return o.s.empty() ? "" : o.s[0] + "\n" + (o.s.size() > 1 ? o.s[1] : ""); }
Shape oshape(const Op& o) { bool s = o.k == "srv" || o.k == "resrv"; return {(int)o.a[1], (int)o.a[2], s ? (int)o.a[3] : 0, s ? (int)o.a[4] : 0}; }
std::vector<SrvLife> lives(Run& run) {
  std::vector<SrvLife> l; std::map<std::pair<int, long>, int> cur;
  for (auto& up : run.ev) {
    Ev& e = *up; auto k = std::make_pair(e.proc, e.hdl());
    if (e.is("srv") || e.is("resrv")) {
      if (e.is("resrv") && cur.count(k)) continue;
      SrvLife x; x.proc = e.proc; x.h = e.hdl(); x.key = okey(*e.op); x.sh = oshape(*e.op); x.force = e.op->a[5]; x.safe = e.op->a[6]; x.create = &e; x.ok = e.ok();
      if (e.done && !x.ok) { x.einv = e.inv; x.eret = e.ret; l.push_back(x); continue; }
      cur[k] = (int)l.size(); l.push_back(x); continue;
    }
    auto it = cur.find(k); if (it == cur.end()) continue;
    SrvLife& x = l[it->second];
    auto endrun = [&] { if (!x.runs.empty() && x.runs.back().einv == ~0ull) { x.runs.back().einv = e.inv; x.runs.back().eret = e.ret; } };
    if (e.is("run") && (e.ok() || !e.done)) { if (x.runs.empty() || x.runs.back().einv != ~0ull) x.runs.push_back({&e, e.inv, e.ret, ~0ull, ~0ull, e.t1}); }
    else if (e.is("stop")) endrun();
    else if (e.is("close") || e.is("del")) { endrun(); if (x.einv == ~0ull) { x.einv = e.inv; x.eret = e.ret; } if (e.is("del")) cur.erase(it); }
  }
  for (auto& x : l) {
    uint64_t g = sim::gone_seq(x.proc);
    if (g == ~0ull) continue;
    if (!x.runs.empty() && x.runs.back().eret == ~0ull) { x.runs.back().eret = g; x.runs.back().died = true; if (x.runs.back().einv == ~0ull) x.runs.back().einv = g; }
    if (x.eret == ~0ull) { x.eret = g; x.died = true; if (x.einv == ~0ull) x.einv = g; }
  }
  return l;
}
std::vector<Att> atts(Run& run) {
  std::vector<Att> l; struct C { std::string key; Shape sh; bool safe; int cur = -1; }; std::map<std::pair<int, long>, C> cs;
  for (auto& up : run.ev) {
    Ev& e = *up; auto k = std::make_pair(e.proc, e.hdl());
    if (e.is("cli") || e.is("recli")) { if (e.is("recli") && cs.count(k)) continue; if (e.ok()) cs[k] = C{okey(*e.op), oshape(*e.op), e.op->a[3] != 0, -1}; continue; }
    auto it = cs.find(k); if (it == cs.end()) continue; C& c = it->second;
    if (e.is("attach") && c.cur < 0 && (e.ok() || !e.done)) { if (e.ok()) c.cur = (int)l.size(); l.push_back({e.proc, e.hdl(), c.key, c.sh, c.safe, &e, e.inv, e.ok() ? e.ret : e.inv, ~0ull, ~0ull, e.ok()}); }
    else if (e.is("detach") || e.is("close") || e.is("del")) {
      if (c.cur >= 0 && (e.out != 2 || !e.is("detach"))) { l[c.cur].dinv = e.inv; l[c.cur].dret = e.ret; c.cur = -1; }
      if (e.is("del")) cs.erase(it);
    }
  }
  return l;
}
void count_bounds(const std::vector<Att>& at, const std::string& key, uint64_t slo, uint64_t shi, uint64_t a, uint64_t b, long& lo, long& hi) {
  lo = hi = 0;
  for (auto& x : at) {
    if (x.key != key || x.ret < slo || x.inv > shi) continue;
    bool surely = x.sure && x.inv > slo;               // attached to this session and to no earlier one
    if (surely && x.ret < a && x.dinv > b) lo++;
    if (x.inv < b && x.dret > a) hi++;
  }
}
const Att* att_of(const std::vector<Att>& at, const Ev& e) { for (auto& x : at) if (x.sure && x.proc == e.proc && x.h == e.hdl() && x.ret < e.inv && e.inv < x.dinv) return &x; return nullptr; }
const SrvLife* life_of(const std::vector<SrvLife>& l, const Ev& e) { const SrvLife* r = nullptr; for (auto& x : l) if (x.proc == e.proc && x.h == e.hdl() && x.create->inv <= e.inv && (x.ok || !x.create->done)) r = &x; return r; }

// a server which runs to the end of the simulation, or whose process exited while it ran and whose names nobody took over
bool server_up(const std::vector<SrvLife>& l, const std::string& key) {
  for (auto& x : l) if (x.key == key && !x.runs.empty() && x.runs.back().run->done) {
    if (x.runs.back().einv == ~0ull) return true;
    if (!x.runs.back().died || fired("kill") || fired("hang")) continue;
    bool last = true; for (auto& y : l) if (&y != &x && y.key == key && y.create->ret > x.create->inv) last = false;
    if (last) return true;
  }
  return false;
}
std::string okey_of(Run& run, const Ev& e) {
  std::string k; for (auto& x : run.ev) if (x->proc == e.proc && x->hdl() == e.hdl() && x->inv < e.inv && !x->op->s.empty() && (x->is("cli") || x->is("srv") || x->is("recli") || x->is("resrv"))) k = okey(*x->op); return k;
}

void sleepy(Rng& r, std::vector<Op>& o, double p, long max) { if (r.chance(p)) o.push_back(op("sleep", {r.logu(1000, max)})); }
bool surely_in(const Att& a, const SrvLife& s, const std::vector<SrvLife>& l) {
  if (!a.sure || a.key != s.key || !s.create->done || !s.ok || a.inv < s.create->ret) return false;
  for (auto& y : l) if (&y != &s && y.key == s.key && y.create->inv > s.create->inv && y.create->inv < a.ret && (y.ok || !y.create->done)) return false;
  for (auto& y : l) if (&y != &s && y.key == s.key && y.create->inv < s.create->inv && y.create->ret > s.create->inv) return false;  // created at the same time
  return true;
}
bool maybe_in(const Att& a, const SrvLife& s, const std::vector<SrvLife>& l) {
  if (a.key != s.key || (s.create->done && !s.ok)) return false;
  if (a.sure && a.ret < s.first_run()) return false;
  return true;
}
void session_content(Run& run, const std::vector<SrvLife>& l, const std::vector<Att>& at, const SrvLife& s, std::vector<Viol>& v, const char* kind) {
  std::vector<const Ev*> sure, maybe;
  for (auto& e : run.ev) {
    if (!e->is("read") && !e->is("write")) continue;
    const SrvLife* x = life_of(l, *e); if (x) { if (x == &s) sure.push_back(e.get()); continue; }
    const Att* a = att_of(at, *e); if (!a) continue;
    if (surely_in(*a, s, l)) sure.push_back(e.get()); else if (maybe_in(*a, s, l) && e->is("write") && e->out != 0) maybe.push_back(e.get());
  }
  auto ops = lops(sure);
  for (auto* e : maybe) { auto o = lops({e}); for (auto& x : o) { if (x.row + x.r > s.sh.rows || x.col + x.c > s.sh.cols) continue; x.pending = true; x.ret = ~0ull; ops.push_back(x); } }
  for (auto& o : ops) if (!o.pending && (o.row < 0 || o.col < 0 || o.row + o.r > s.sh.rows || o.col + o.c > s.sh.cols)) { v.push_back({"shape", o.label + fmt(" succeeded on a %d x %d tensor", s.sh.rows, s.sh.cols)}); return; }
  ops.erase(std::remove_if(ops.begin(), ops.end(), [&](const LOp& o) { return o.row < 0 || o.col < 0 || o.row + o.r > s.sh.rows || o.col + o.c > s.sh.cols; }), ops.end());
  if (ops.size() > 60) return;
  std::string why; if (!linearizable(s.sh.rows, s.sh.cols, std::vector<double>((size_t)s.sh.rows * s.sh.cols, 0.0), ops, why)) v.push_back({kind, why});
}
std::vector<Busy> busy(Run& run) {
  std::vector<Busy> in; std::map<std::pair<int, long>, const Ev*> open;
  auto end = [](const Ev& x) { return x.done ? x.ret : sim::gone_seq(x.proc) != ~0ull && sim::held_sems(x.proc) == 0 ? sim::gone_seq(x.proc) : ~0ull; };
  for (auto& x : run.ev) {
    auto k = std::make_pair(x->proc, x->hdl());
    if (x->is("lock")) { if (!x->done || x->out == 1) open[k] = x.get(); else in.push_back({x->inv, x->ret, x.get()}); }
    else if (x->is("unlock") && open.count(k)) { in.push_back({open[k]->inv, x->ret, open[k]}); open.erase(k); }
    else if (takes_lock(*x->op) && (!x->done || x->out != -1)) in.push_back({x->inv, end(*x), x.get()});
  }
  for (auto& o : open) in.push_back({o.second->inv, ~0ull, o.second});
  // from its creation until it is started a server keeps the lock
  for (auto& x : lives(run)) if (x.ok || !x.create->done) in.push_back({x.create->inv, x.runs.empty() ? x.died ? ~0ull : x.eret : x.runs[0].ret, x.create});
  return in;
}
