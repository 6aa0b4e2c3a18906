// P01-P06
#include "props.hpp"
using std::vector; using std::string;

namespace {
// ---------------------------------------------------------------- P01
Plan gen01(Rng& r) {
  Plan p; p.world = "P01"; Shape s = rnd_shape(r); bool huge = s.rows * s.cols > 60; long tag = 1;
  p.par = {{"type", s.type}, {"rows", s.rows}, {"cols", s.cols}};
  int nc = huge ? 2 : (int)r.range(1, 4), n = huge ? 4 : (int)r.range(3, 9); double pw = r.unit() * 0.6 + 0.2;
  p.procs.resize(nc + 1);
  p.procs[0].ops = {srv(0, s, r.chance(0.3), true, "t", "ns", verb(r)), op("run", {0})};
  for (int i = 1; i <= nc; i++) { p.procs[i].ops = {cli(0, s, true, "t", "ns", verb(r)), op("attach", {0})}; if (r.chance(0.15)) { p.procs[i].ops.push_back(cli(1, s, true)); p.procs[i].ops.push_back(op("attach", {1})); } }
  for (int i = 0; i <= nc; i++) {
    bool two = p.procs[i].ops.size() > 2;
    int k = i == 0 ? (int)r.range(0, n) : n;
    for (int j = 0; j < k; j++) { long h = two ? (long)r.below(2) : 0; p.procs[i].ops.push_back(r.chance(pw) ? wr(r, h, s, tag) : rd(r, h, s)); if (r.chance(0.05)) p.procs[i].ops.push_back(op("sleep", {r.logu(1000, 2000000)})); }
    if (r.chance(0.2)) p.procs[i].ops.push_back(op(r.chance(0.5) ? "nclients" : "detach", {0}));
  }
  for (auto& q : p.procs) for (size_t j = q.ops.size(); j-- > 2;) if (q.ops[j].k == "nclients" && &q != &p.procs[0]) q.ops[j].k = "detach";
  for (auto& o : p.procs[0].ops) if (o.k == "detach") o.k = "nclients";
  if (r.chance(0.4)) sprinkle_stalls(r, p, 0.1);
  if (r.chance(0.4)) { auto& q = p.procs[r.below(nc + 1)]; auto& o = q.ops[r.below(q.ops.size() - 1) + 1]; with(o, r.chance(0.75) ? "kill" : "hang", r.logu(1, huge ? 600 : 70)); }
  return p;
}
vector<Viol> chk01(Run& run) {
  auto v = basics(run, fired("kill") || fired("hang"));
  vector<const Ev*> e; for (auto& x : run.ev) e.push_back(x.get());
  int rows = (int)run.plan->get("rows"), cols = (int)run.plan->get("cols"); string why;
  for (auto* x : e) if (x->ok() && (x->is("read") || x->is("write")) && !fits(*x->op, rows, cols)) { v.push_back({"bounds", evs(*x) + " succeeded although it does not fit"}); return v; }
  if (!linearizable(rows, cols, vector<double>((size_t)rows * cols, 0.0), lops(e), why)) v.push_back({"torn", why});
  return v;
}

// ---------------------------------------------------------------- P02
Op xfer02(Rng& r, long h, const Shape& s, long& tag, double pbad) {
  Op o = r.chance(0.55) ? wr(r, h, s, tag) : rd(r, h, s);
  if (r.chance(pbad)) {
    switch (r.below(8)) {
      case 0: o.a[2] = r.chance(0.5) ? -1 : -(long)r.range(1, 40); break;
      case 1: o.a[3] = r.chance(0.5) ? -1 : -(long)r.range(1, 40); break;
      case 2: o.a[2] = s.rows; break;
      case 3: o.a[3] = s.cols; break;
      case 4: o.a[4] = s.rows - o.a[2] + r.range(1, 3); break;
      case 5: o.a[5] = s.cols - o.a[3] + r.range(1, 3); break;
      case 6: o.a[2] = r.chance(0.5) ? INT_MAX : INT_MIN; break;
      case 7: o.a[3] = r.chance(0.5) ? INT_MAX : INT_MIN; break;
    }
  }
  return o;
}
Plan gen02(Rng& r) {
  Plan p; p.world = "P02"; Shape s = rnd_shape(r, false); bool page = r.chance(0.01); if (r.chance(0.25)) s.rows = (int)r.range(1, 12); if (r.chance(0.25)) s.cols = (int)r.range(1, 12);
  if (page) { s.rows = (int)r.range(1, 40); s.cols = (int)r.logu(10, 1500); if (r.chance(0.5)) std::swap(s.rows, s.cols); while (s.rows * s.cols > 3000) s.rows = (s.rows + 1) / 2, s.cols = (s.cols + 1) / 2; }
  long tag = 1; bool conc = r.chance(0.5); double pbad = r.unit() * 0.6;
  p.par = {{"type", s.type}, {"rows", s.rows}, {"cols", s.cols}, {"conc", conc}};
  int nc = (int)r.range(1, 3);
  p.procs.resize(nc + 1);
  // handle 0 of every process transfers; handle 1 of the last process (unsafe) is used for manual locking
  bool ssafe = conc || r.chance(0.5);
  p.procs[0].ops = {srv(0, s, false, ssafe, "t", "ns", verb(r)), op("run", {0})};
  for (int i = 1; i <= nc; i++) p.procs[i].ops = {cli(0, s, conc || r.chance(0.5), "t", "ns", verb(r)), op("attach", {0})};
  p.procs[nc].ops.push_back(cli(1, s, false)); p.procs[nc].ops.push_back(op("attach", {1}));
  if (conc) {
    for (int i = 0; i <= nc; i++) { int n = (int)r.range(2, 8); for (int j = 0; j < n; j++) p.procs[i].ops.push_back(xfer02(r, 0, s, tag, pbad)); }
    sprinkle_stalls(r, p, r.chance(0.5) ? 0.1 : 0);
    return p;
  }
  // one call at a time, everybody in turn
  for (int i = 0; i <= nc; i++) for (int k = 0; k <= nc; k++) if (k != i) p.procs[i].ops.push_back(op("await", {k, k == nc ? 4 : 2}));
  int n = (int)r.range(4, 16), prev = -1; bool locked = false, stopped = false;
  for (int j = 0; j < n; j++) {
    int i = (int)r.below(nc + 1); Op o;
    double u = r.unit();
    if (u < 0.08) { i = nc; o = op(locked ? "unlock" : "lock", {1}); locked = !locked; }
    else if (u < 0.16 && !locked) { i = 0; o = op(stopped ? "run" : "stop", {0}); stopped = !stopped; }
    else o = xfer02(r, i == nc && r.chance(0.4) ? 1 : 0, s, tag, pbad);
    if (prev >= 0 && prev != i) p.procs[i].ops.push_back(op("await", {prev, (long)p.procs[prev].ops.size()}));
    if (prev >= 0 && prev != i && j == 0) {}
    p.procs[i].ops.push_back(o); prev = i;
    if (u >= 0.16 && r.chance(0.5)) { p.procs[nc].ops.push_back(op("await", {i, (long)p.procs[i].ops.size()})); p.procs[nc].ops.push_back(rdw(1, s)); prev = nc; }
  }
  return p;
}
vector<Viol> chk02(Run& run) {
  auto v = basics(run, false);
  int rows = (int)run.plan->get("rows"), cols = (int)run.plan->get("cols"); bool conc = run.plan->get("conc");
  vector<const Ev*> e; for (auto& x : run.ev) e.push_back(x.get());
  std::map<std::pair<int, long>, bool> safe, on; bool locked = false, stopped = false;
  for (auto* x : e) {
    if (x->is("srv")) safe[{x->proc, x->hdl()}] = x->op->a[6]; if (x->is("cli")) safe[{x->proc, x->hdl()}] = x->op->a[3];
    if (!conc && x->ok()) { if (x->is("lock")) locked = true; if (x->is("unlock")) locked = false; if (x->is("stop")) stopped = true; if (x->is("run")) stopped = false; }
    if (x->is("srv") || x->is("cli")) on[{x->proc, x->hdl()}] = false;
    if (x->ok() && (x->is("run") || x->is("attach"))) on[{x->proc, x->hdl()}] = true;
    if (!x->is("write") && !x->is("read")) continue;
    if (!x->done) continue;
    bool f = fits(*x->op, rows, cols);
    if (x->frame_bad) v.push_back({"frame", evs(*x) + " changed the caller's buffer outside the block" });
    if (x->out != 1 && x->touched) v.push_back({"touched", evs(*x) + " was refused but changed the caller's buffer"});
    if (x->out == 2) v.push_back({"throws", evs(*x) + " threw: " + x->what});
    if (x->out == 1 && !f) v.push_back({"bounds", evs(*x) + " succeeded although it does not fit"});
    if (!conc) {
      bool expect = f && !(locked && safe[{x->proc, x->hdl()}]) && !(stopped && x->proc == 0);
      if (x->out == 0 && expect && on[{x->proc, x->hdl()}]) v.push_back({"refused", evs(*x) + " was refused although it fits and nothing is in its way"});
      if (x->out == 1 && f && !expect) v.push_back({"accepted", evs(*x) + (stopped && x->proc == 0 ? " succeeded on a stopped server" : " succeeded under somebody else's lock")});
    }
  }
  string why;
  if (v.empty() && !linearizable(rows, cols, vector<double>((size_t)rows * cols, 0.0), lops(e), why)) v.push_back({"content", why});
  return v;
}

// ---------------------------------------------------------------- P03
Plan gen03(Rng& r) {
  Plan p; p.world = "P03"; Shape s = rnd_shape(r, false); if (s.type == 3) s.type = 2; s.rows = (int)r.range(1, 3); s.cols = (int)r.range(1, 3); long tag = 1;
  p.par = {{"type", s.type}, {"rows", s.rows}, {"cols", s.cols}};
  int nc = (int)r.range(1, 3); bool writers = r.chance(0.4); p.par["writers"] = writers;
  p.procs.resize(nc + 1);
  bool ssafe = r.chance(0.5); double pstop = r.chance(0.6) ? 0.35 : 0;
  auto& S = p.procs[0].ops; S = {srv(0, s, r.chance(0.4), ssafe, "t", "ns", verb(r)), op("run", {0})};
  int n = (int)r.range(2, 6);
  auto section = [&](vector<Op>& o, long h) { o.push_back(op("lock", {h})); int k = (int)r.range(1, 2); for (int q = 0; q < k; q++) o.push_back(op("incr", {h, s.rows, s.cols})); if (r.chance(0.2)) o.push_back(op("sleep", {r.logu(1000, 1000000)})); o.push_back(op("unlock", {h})); };
  for (int j = 0; j < n; j++) {
    if (r.chance(pstop)) { S.push_back(op("stop", {0})); if (r.chance(0.4)) S.push_back(op("sleep", {r.logu(1000, 3000000)})); S.push_back(op("run", {0})); }
    else if (!ssafe && r.chance(0.5)) section(S, 0); else if (ssafe) S.push_back(r.chance(0.5) || !writers ? rdw(0, s) : wr(r, 0, s, tag)); else S.push_back(op("sleep", {r.logu(1000, 1000000)}));
    if (r.chance(0.15)) S.push_back(op("nclients", {0}));
  }
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; o = {cli(0, s, false, "t", "ns", verb(r)), op("attach", {0}), cli(1, s, true), op("attach", {1})};
    int m = (int)r.range(1, 5);
    for (int j = 0; j < m; j++) { if (r.chance(0.65)) section(o, 0); else o.push_back(r.chance(0.5) || !writers ? rdw(1, s) : wr(r, 1, s, tag)); }
    if (r.chance(0.3)) { o.push_back(op("close", {0})); }
  }
  if (r.chance(0.25)) {  // somebody holds the lock for long while somebody else tries again and again
    int a = (int)r.range(0, nc), b; do b = (int)r.range(0, nc); while (b == a); auto &A = p.procs[a].ops, &B = p.procs[b].ops;
    if (a > 0 || !ssafe) { vector<Op> q = {op("lock", {0}), op("incr", {0, s.rows, s.cols}), op("sleep", {r.logu(100000, 60000000)}), op("incr", {0, s.rows, s.cols}), op("unlock", {0})}; A.insert(A.end() - (A.back().k == "close"), q.begin(), q.end()); }
    if (b > 0 || ssafe) { long n = r.range(8, 60), w = r.chance(0.5) ? r.logu(1000, 2000000) : 0; for (long i = 0; i < n; i++) { B.push_back(r.chance(0.5) || !writers ? rdw(b ? 1 : 0, s) : wr(r, b ? 1 : 0, s, tag)); if (w) B.push_back(op("sleep", {w})); } }
  }
  sprinkle_stalls(r, p, r.chance(0.5) ? 0.15 : 0.02);
  if (r.chance(0.15)) { auto& q = p.procs[r.range(1, nc)]; with(q.ops[r.below(q.ops.size() - 3) + 3], "kill", r.logu(1, 30)); }
  else if (r.chance(0.2)) for (auto& q : p.procs) for (auto& o : q.ops) if (o.k == "lock" && r.chance(0.4)) with(o, "eintr", 1, r.logu(100, 300000));
  return p;
}
vector<Viol> chk03(Run& run) {
  bool dead = fired("kill") > 0;
  auto v = basics(run, dead);
  struct Hold { uint64_t a, b; const Ev* e; }; vector<Hold> holds; std::map<std::pair<int, long>, const Ev*> open; long incs = 0; bool uncertain = false;
  std::map<std::pair<int, long>, bool> safe;
  for (auto& x : run.ev) {
    if (x->is("srv")) safe[{x->proc, x->hdl()}] = x->op->a[6]; if (x->is("cli")) safe[{x->proc, x->hdl()}] = x->op->a[3];
    auto k = std::make_pair(x->proc, x->hdl());
    if (x->is("lock") && x->ok()) open[k] = x.get();
    if (x->is("unlock") && open.count(k)) { holds.push_back({open[k]->ret, x->inv, open[k]}); open.erase(k); }
    if (x->is("incr")) { if (x->ok()) incs++; else if (!x->done || x->val == 2) uncertain = true; }
  }
  for (auto& o : open) holds.push_back({o.second->ret, ~0ull, o.second});
  // an interrupted acquisition gives no right to go on, so sections run without the lock are not counted
  bool unlocked_section = false;
  for (auto& x : run.ev) if (x->is("incr")) { bool in = false; for (auto& h : holds) if (h.e->proc == x->proc && h.e->hdl() == x->hdl() && h.a <= x->inv && (!x->done || x->ret <= h.b)) in = true; if (!in) unlocked_section = true; }
  if (unlocked_section) {  // some process went on after an error of lock(): it may also have released somebody else's lock
    return v;
  }
  for (size_t i = 0; i < holds.size(); i++) for (size_t j = i + 1; j < holds.size(); j++)
    if (holds[i].a < holds[j].b && holds[j].a < holds[i].b) { v.push_back({"two-holders", fmt("%s and %s held the lock at the same time", evs(*holds[i].e).c_str(), evs(*holds[j].e).c_str())}); return v; }
  for (auto& x : run.ev) if ((x->is("read") || x->is("write")) && x->ok() && safe[{x->proc, x->hdl()}])
    for (auto& h : holds) if (x->inv > h.a && x->ret < h.b) { v.push_back({"transfer-under-lock", fmt("%s succeeded while %s held the lock", evs(*x).c_str(), evs(*h.e).c_str())}); return v; }
  if (!run.plan->get("writers") && !dead && !uncertain && run.q.k == sim::Quiescence::Done && v.empty()) {
    // the value of the last section equals the number of increments
    const Ev* last = nullptr; for (auto& x : run.ev) if (x->is("incr") && x->ok() && (!last || x->ret > last->ret)) last = x.get();
    if (last && (double)incs != last->data[0]) {  // doubles carry no offset here: initial content is zero
      v.push_back({"lost-update", fmt("%ld increments were made under the lock but the last one wrote %g", incs, last->data[0])});
    }
    for (auto& x : run.ev) if (last && x->is("incr") && x->ok()) for (double d : x->data) if (d != x->data[0]) { v.push_back({"lost-update", evs(*x) + " saw unequal elements"}); return v; }
  }
  return v;
}

// ---------------------------------------------------------------- P04
Plan gen04(Rng& r) {
  Plan p; p.world = "P04"; Shape s = rnd_shape(r); long tag = 1; bool huge = s.rows * s.cols > 60;
  p.par = {{"type", s.type}, {"rows", s.rows}, {"cols", s.cols}};
  int nc = (int)r.range(1, 3), n = huge ? 4 : (int)r.range(3, 10); p.procs.resize(nc + 1);
  auto locks = [&] { return !r.chance(0.1); };   // a handle created as not safe
  p.procs[0].ops = {srv(0, s, r.chance(0.3), locks(), "t", "ns", verb(r)), op("run", {0})};
  for (int i = 1; i <= nc; i++) p.procs[i].ops = {cli(0, s, locks(), "t", "ns", verb(r)), op("attach", {0})};
  for (int i = 0; i <= nc; i++) {
    bool locker = r.chance(0.2);
    for (int j = 0; j < n; j++) {
      double u = r.unit();
      if (locker && u < 0.2) { p.procs[i].ops.push_back(op("lock", {0})); if (r.chance(0.5)) p.procs[i].ops.push_back(op("sleep", {r.logu(1000, 1000000)})); else p.procs[i].ops.push_back(rd(r, 0, s)); p.procs[i].ops.push_back(op("unlock", {0})); }
      else if (u < 0.3) p.procs[i].ops.push_back(op("sleep", {r.logu(1000, 3000000)}));
      else if (u < 0.35 && i == 0) p.procs[i].ops.push_back(op("nclients", {0}));
      else if (u < 0.6) p.procs[i].ops.push_back(wr(r, 0, s, tag));
      else p.procs[i].ops.push_back(rd(r, 0, s));
    }
    if (i > 0 && r.chance(0.3)) p.procs[i].ops.push_back(op("detach", {0}));
  }
  if (r.chance(0.6)) sprinkle_stalls(r, p, 0.15);
  if (r.chance(0.4)) { auto& q = p.procs[r.below(nc + 1)]; with(q.ops[r.below(q.ops.size() - 1) + 1], r.chance(0.5) ? "kill" : "hang", r.logu(1, huge ? 600 : 70)); }
  if (r.chance(0.2)) { auto& q = p.procs[r.below(nc + 1)]; with(q.ops[r.below(q.ops.size())], "jump", 1, (r.chance(0.5) ? 1 : -1) * r.logu(1000000, 4000000000000)); }
  return p;
}
vector<Viol> chk04(Run& run) {
  auto v = basics(run, fired("kill") || fired("hang"));
  int rows = (int)run.plan->get("rows"), cols = (int)run.plan->get("cols");
  // intervals during which somebody may hold the lock
  struct I { uint64_t a, b; const Ev* e; }; vector<I> in; std::map<std::pair<int, long>, const Ev*> open; std::set<int> raw;
  for (auto& x : run.ev) { if (x->is("srv") && !x->op->a[6]) raw.insert(x->proc); if (x->is("cli") && !x->op->a[3]) raw.insert(x->proc); }
  for (auto& x : run.ev) {
    auto k = std::make_pair(x->proc, x->hdl());
    if (raw.count(x->proc) && (x->is("read") || x->is("write"))) continue;   // does not use the lock
    if (x->is("lock")) { if (!x->done || x->out == 1) open[k] = x.get(); else in.push_back({x->inv, x->ret, x.get()}); }
    else if (x->is("unlock") && open.count(k)) { in.push_back({open[k]->inv, x->ret, open[k]}); open.erase(k); }
    else if (takes_lock(*x->op) && (!x->done || x->out != -1)) in.push_back({x->inv, x->done ? x->ret : ~0ull, x.get()});
  }
  for (auto& o : open) in.push_back({o.second->inv, ~0ull, o.second});
  // from its creation until it is started a server keeps the lock
  for (auto& x : run.ev) if (x->is("srv")) for (auto& y : run.ev) if (y->is("run") && y->proc == x->proc) in.push_back({x->inv, y->done ? y->ret : ~0ull, x.get()});
  for (auto& x : run.ev) {
    if ((!x->is("read") && !x->is("write")) || !x->done || x->out == -1) continue;
    long bound = 4000 + 30l * rows * cols;
    if ((long)x->steps > bound) v.push_back({"unbounded", fmt("%s took %lu steps", evs(*x).c_str(), (unsigned long)x->steps)});
    if (x->blocked > 0) v.push_back({"waits", fmt("%s was blocked for %ld ns", evs(*x).c_str(), (long)x->blocked)});
    if (x->out == 2) v.push_back({"throws", evs(*x) + " threw: " + x->what});
    if (x->out == 0 && fits(*x->op, rows, cols)) {
      bool att = false;   // only handles that are attached / running
      for (auto& y : run.ev) if (y->proc == x->proc && y->hdl() == x->hdl() && y->done && y->ret < x->inv) { if ((y->is("attach") || y->is("run")) && y->ok()) att = true; if (y->is("detach") || y->is("close") || y->is("stop")) att = false; }
      bool excuse = !att;
      if (!raw.count(x->proc)) for (auto& i : in) if (i.e != x.get() && i.a < x->ret && x->inv < i.b) excuse = true;
      if (!excuse) v.push_back({"spurious", raw.count(x->proc) ? evs(*x) + " returned false although its handle does not use the lock" : evs(*x) + " returned false although nobody else used the tensor during the call"});
    }
  }
  // a transfer that is still running at the end is waiting for something, unless its process was stopped by the plan
  for (auto& x : run.ev) if ((x->is("read") || x->is("write")) && !x->done && sim::pstate(x->proc) == sim::PS_BLOCKED) v.push_back({"waits", evs(*x) + " never returned, waiting for " + sim::waiting_on(x->proc)});
  if (v.size() > 3) v.resize(3);
  return v;
}

// ---------------------------------------------------------------- P05
void misfit(Rng& r, Op& o, const Shape& s) {
  switch (r.below(5)) { case 0: o.a[2] = s.rows + r.range(0, 1); break; case 1: o.a[3] = s.cols; break; case 2: o.a[2] = -1; break; case 3: o.a[4] = s.rows - o.a[2] + 1; break; default: o.a[5] = s.cols - o.a[3] + 1; }
}
const int ERR[] = {ENOMEM, ENOSPC, EMFILE, EACCES};
Plan gen05(Rng& r) {
  Plan p; p.world = "P05"; Shape s = rnd_shape(r, false); long tag = 1;
  p.par = {{"type", s.type}, {"rows", s.rows}, {"cols", s.cols}};
  int nc = (int)r.range(1, 3); p.procs.resize(nc + 2);
  auto& S = p.procs[0].ops;
  bool stops = r.chance(0.5);                // a stopped server may be superseded: then nobody tries
  double pf = r.chance(0.7) ? 0.25 : 0.0;   // chance of a fault per call
  auto fault = [&](Op o) -> Op {
    if (!r.chance(pf)) return o;
    double u = r.unit();
    if (u < 0.45) with(o, "sys", r.range(1, 9), ERR[r.below(4)]); else if (u < 0.8) with(o, "eintr", 1, r.chance(0.4) ? 0 : r.logu(10, 200000)); else if (o.k != "del") with(o, "alloc", r.range(1, 2));
    return o;
  };
  S.push_back(fault(srv(0, s, r.chance(0.3), true, "t", "ns", verb(r)))); S.push_back(srv(0, s, false, true)); S.back().k = "resrv";
  S.push_back(fault(op("run", {0}))); S.push_back(op("run", {0}));
  int n = (int)r.range(1, 6);
  for (int j = 0; j < n; j++) {
    double u = r.unit();
    if (u < 0.3) S.push_back(fault(op("nclients", {0}))); else if (u < 0.5) S.push_back(fault(wr(r, 0, s, tag))); else if (u < 0.7) S.push_back(fault(rd(r, 0, s)));
    else if (u < 0.85 && stops) { S.push_back(op("stop", {0})); S.push_back(op("run", {0})); } else S.push_back(op("sleep", {r.logu(1000, 2000000)}));
  }
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; int m = (int)r.range(1, 4);
    for (int j = 0; j < m; j++) {
      double u = r.unit(); long h = j; Shape t = s;
      if (u < 0.3) { if (r.chance(0.5)) t.layout = 1 - t.layout; else t.type = (t.type + (int)r.range(1, 3)) % 4; o.push_back(cli(h, t, true, "t", "ns", verb(r))); o.push_back(op("attach", {h})); o.push_back(op(r.chance(0.5) ? "close" : "del", {h})); }
      else if (u < 0.45 && !stops) { o.push_back(cli(h, s, true)); o.push_back(op("attach", {h})); Op q = srv(h + 50, s, false, true, "t", "ns", verb(r)); o.push_back(q); o.push_back(op("run", {h + 50})); o.push_back(op("close", {h + 50})); }
      else {
        o.push_back(cli(h, s, true, "t", "ns", verb(r))); o.push_back(fault(op("attach", {h}))); if (r.chance(0.5)) o.push_back(op("attach", {h}));
        int k = (int)r.range(0, 4); for (int q = 0; q < k; q++) o.push_back(fault(r.chance(0.5) ? wr(r, h, s, tag) : rd(r, h, s)));
        if (r.chance(0.3)) { Op b = rd(r, h, s); b.a[2] = s.rows; o.push_back(b); }
        double d = r.unit(); if (d < 0.3) o.push_back(fault(op("detach", {h}))); else if (d < 0.6) o.push_back(fault(op("close", {h}))); else if (d < 0.8) o.push_back(fault(op("del", {h})));
      }
    }
  }
  double pm = r.chance(0.5) ? 0.2 : 0.02;   // transfers that do not fit
  for (auto& q : p.procs) for (auto& o : q.ops) if ((o.k == "read" || o.k == "write") && r.chance(pm)) misfit(r, o, s);
  sprinkle_stalls(r, p, r.chance(0.5) ? 0.08 : 0);
  // probe: when all calls have returned the tensor can be used again
  auto& P = p.procs[nc + 1].ops; P = {op("awaitall", {nc + 1}), cli(0, s, true), op("attach", {0}), wr(r, 0, s, tag), rd(r, 0, s), op("detach", {0})};
  return p;
}
vector<Viol> chk05(Run& run) {
  auto v = basics(run, false);
  int n = (int)run.plan->procs.size() - 1;
  if (v.empty()) for (auto& x : run.ev) if (x->proc == n && !x->is("awaitall") && x->out != 1)
    { v.push_back({"locked", evs(*x) + (x->out == 2 ? " threw: " + x->what : " failed") + " after all calls had returned"}); break; }
  return v;
}
}  // namespace

const vector<Prop>& props_a() { static vector<Prop> v = {{"P01", gen01, chk01}, {"P02", gen02, chk02}, {"P03", gen03, chk03}, {"P04", gen04, chk04}, {"P05", gen05, chk05}}; return v; }
