// P06-P09: sessions with one name
#include "props.hpp"
using std::vector; using std::string;

namespace {
const char* NM[] = {"t", "tensor", "a_b"};
// content of a single session: every transfer of every attached or running handle
void content(Run& run, const SrvLife& s, vector<Viol>& v, const char* kind) {
  vector<const Ev*> e; for (auto& x : run.ev) e.push_back(x.get());
  string why; if (!linearizable(s.sh.rows, s.sh.cols, vector<double>((size_t)s.sh.rows * s.sh.cols, 0.0), lops(e), why)) v.push_back({kind, why});
}

// ---------------------------------------------------------------- P06
Plan gen06(Rng& r) {
  Plan p; p.world = "P06"; Shape s = rnd_shape(r, false); long tag = 1; bool solo = r.chance(0.55);
  p.par = {{"solo", solo}, {"type", s.type}, {"rows", s.rows}, {"cols", s.cols}, {"horizon_ms", 20000}};
  auto other = [&] { Shape t = s; if (r.chance(0.5)) { t.rows = (int)r.range(1, 6); t.cols = (int)r.range(1, 6); } if (r.chance(0.3)) t.type = (int)r.below(4); if (r.chance(0.3)) t.layout = (int)r.below(2); return t; };
  auto rival = [&](vector<Op>& o, long h, bool verbose) {
    Op c = srv(h, other(), false, r.chance(0.7), "t", "ns", verbose ? verb(r) : 0); o.push_back(c); sleepy(r, o, 0.3); o.push_back(op("run", {h})); sleepy(r, o, 0.3);
    if (r.chance(0.3)) { Shape t = s; o.push_back(wr(r, h, t, tag)); }
    if (r.chance(0.2)) o.push_back(op("nclients", {h}));
    if (r.chance(0.5)) { o.push_back(op("stop", {h})); sleepy(r, o, 0.5); o.push_back(op("run", {h})); }
    sleepy(r, o, 0.3);
    if (r.chance(0.8)) o.push_back(op(r.chance(0.6) ? "close" : "del", {h}));
  };
  if (solo) {  // one server runs all the time, others try to take the name, clients go on working
    int nc = (int)r.range(0, 2), nr = (int)r.range(1, 2); p.procs.resize(1 + nc + nr);
    auto& S = p.procs[0].ops; S = {srv(0, s, r.chance(0.3), true, "t", "ns", verb(r)), op("run", {0})};
    int n = (int)r.range(2, 6); for (int i = 0; i < n; i++) { double u = r.unit(); S.push_back(u < 0.35 ? wr(r, 0, s, tag) : u < 0.6 ? rd(r, 0, s) : u < 0.8 ? op("nclients", {0}) : op("sleep", {r.logu(1000, 2000000)})); }
    // a rival created before the first one runs and started afterwards must be refused as well
    bool early = r.chance(0.25);
    S.push_back(op("awaitall2", {1, 1 + nc + nr})); S.push_back(op("nclients", {0})); S.push_back(rdw(0, s));
    for (int i = 1; i <= nc; i++) {
      auto& o = p.procs[i].ops; o = {cli(0, s, true, "t", "ns", verb(r)), op("attach", {0}), op("nrows", {0}), op("ncols", {0})};
      int m = (int)r.range(2, 6); for (int j = 0; j < m; j++) { o.push_back(r.chance(0.5) ? wr(r, 0, s, tag) : rd(r, 0, s)); sleepy(r, o, 0.2); }
      if (r.chance(0.4)) { o.push_back(op("detach", {0})); if (r.chance(0.5)) o.push_back(op("attach", {0})); }
    }
    for (int i = 0; i < nr; i++) {
      auto& o = p.procs[1 + nc + i].ops;
      if (!early || i) { o.push_back(op("await", {0, 2})); int m = (int)r.range(1, 3); for (int j = 0; j < m; j++) { sleepy(r, o, 0.3); rival(o, j, true); } }
      else { o.push_back(srv(0, other(), false, true)); o.push_back(op("note", {1})); S[0].a[5] = 1; S.insert(S.begin(), op("await", {1 + nc, 2})); o.push_back(op("await", {0, 3})); o.push_back(op("run", {0})); if (r.chance(0.5)) o.push_back(op("close", {0})); p.par["early"] = 1; }
    }
  } else {     // everybody tries
    int nr = (int)r.range(2, 3), nc = (int)r.range(0, 1); p.procs.resize(nr + nc);
    for (int i = 0; i < nr; i++) { auto& o = p.procs[i].ops; int m = (int)r.range(1, 4); for (int j = 0; j < m; j++) { sleepy(r, o, 0.4); rival(o, j, true); } for (int j = 0; j < m; j++) if (r.chance(0.7)) o.push_back(op("del", {j})); }
    if (nc) { auto& o = p.procs[nr].ops; o = {cli(0, s, true), op("attach", {0}), rd(r, 0, s), wr(r, 0, s, tag), op("detach", {0})}; }
  }
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  return p;
}
vector<Viol> chk06(Run& run) {
  auto v = basics(run, !run.plan->get("solo")); auto l = lives(run); auto at = atts(run);
  for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) if (i != j) for (auto& a : l[i].runs) if (a.run->done) {
    for (auto& b : l[j].runs) if (b.run->done && i < j && a.ret < b.einv && b.ret < a.einv) { v.push_back({"two-running", evs(*a.run) + " and " + evs(*b.run) + " were running at the same time"}); return v; }
    const Ev* c = l[j].create; if (c->ok() && c->inv > a.ret && c->ret < a.einv) { v.push_back({"created", evs(*c) + " succeeded while " + evs(*l[i].create) + " was running"}); return v; }
  }
  // nothing in its way: neither another call nor a server which was not closed
  for (auto& x : l) if (x.create->done && !x.ok) {
    bool free = true;
    for (auto& y : l) if (&y != &x && (y.ok || !y.create->done) && y.create->inv < x.create->ret && (y.died || y.eret > x.create->inv)) free = false;
    for (auto& e : run.ev) if (e.get() != x.create && !e->is("sleep") && !e->is("await") && !e->is("awaitall") && !e->is("awaitall2") && e->inv < x.create->ret && e->ret > x.create->inv && !(e->is("attach") && !e->done)) free = false;
    for (auto& e : run.ev) if (e->is("attach") && e->inv < x.create->ret && e->ret > x.create->inv) free = false;
    if (free) { v.push_back({"refused", evs(*x.create) + " failed although nobody uses the name: " + x.create->what}); return v; }
  }
  if (!run.plan->get("solo")) return v;
  const SrvLife* s = nullptr; for (auto& x : l) if (x.proc == 0) s = &x;
  if (!s || !s->ok || s->runs.empty()) { if (v.empty()) v.push_back({"refused", "the first server did not start"}); return v; }
  if (!v.empty()) return v;
  for (auto& e : run.ev) {
    if (e->proc > 0 && e->is("attach") && e->out == 2) v.push_back({"disturbed", evs(*e) + " threw: " + e->what});
    if (e->is("nrows") && e->ok() && e->val != s->sh.rows) v.push_back({"disturbed", evs(*e) + fmt(" gives %ld", e->val)});
    if (e->is("ncols") && e->ok() && e->val != s->sh.cols) v.push_back({"disturbed", evs(*e) + fmt(" gives %ld", e->val)});
    if (e->is("nclients") && e->proc == 0 && e->done) {
      long lo, hi; count_bounds(at, s->key, s->create->inv, ~0ull, e->inv, e->ret, lo, hi);
      if (e->out != 1 || e->val < lo || e->val > hi) v.push_back({"disturbed", evs(*e) + (e->out == 1 ? fmt(" gives %ld, expected %ld to %ld", e->val, lo, hi) : " failed: " + e->what)});
    }
  }
  const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == 0) last = e.get();
  if (v.empty() && last && last->is("read") && last->out != 1) v.push_back({"disturbed", evs(*last) + " failed at the end"});
  for (auto& x : l) if (&x != s) for (auto& a : x.runs) if (a.run->done && a.ret > s->runs[0].ret) v.push_back({"two-running", evs(*a.run) + " succeeded while the first server was running"});
  if (v.empty() && !run.plan->get("early")) content(run, *s, v, "disturbed");
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P07
// a server goes away, killed or closed, and another one follows it while clients of the first still hold their handles
Plan gen07_next(Rng& r) {
  Plan p; p.world = "P07"; Shape s = rnd_shape(r, false), t = s; t.rows = (int)r.range(1, 6); t.cols = (int)r.range(1, 6); long tag = 1; int nc = (int)r.range(1, 3);
  p.par = {{"horizon_ms", 40000}, {"sessions", 2}}; p.procs.resize(2 + nc); auto &A = p.procs[0].ops, &B = p.procs[1].ops; bool kill = r.chance(0.6);
  A.push_back(srv(0, s, r.chance(0.25), true, "t", "ns", verb(r))); A.push_back(op("run", {0})); int m = (int)r.range(0, 2); while (m--) A.push_back(wr(r, 0, s, tag));
  for (int i = 2; i < 2 + nc; i++) if (r.chance(0.8)) A.push_back(op("await", {i, (long)r.range(2, 5), 50000000}));
  if (kill && r.chance(0.5)) A.push_back(op("lock", {0}));
  if (kill) { if (A.back().k != "lock" && r.chance(0.6)) A.push_back(r.chance(0.5) ? wr(r, 0, s, tag) : op(r.chance(0.5) ? "close" : "nclients", {0})); else A.push_back(op("sleep", {10000})); with(A.back(), "kill", A.back().k == "sleep" ? 1 : r.logu(1, 60)); } else A.push_back(op("close", {0}));
  B.push_back(op("await", {0, 99, 3000000000})); sleepy(r, B, 0.5, 20000000); B.push_back(srv(0, t, true, true, "t", "ns", verb(r))); sleepy(r, B, 0.4, 5000000); B.push_back(op("run", {0})); long up = (long)B.size(); B.push_back(op("awaitall2", {2, 2 + nc, 30000000000}));
  for (int i = 2; i < 2 + nc; i++) {
    auto& o = p.procs[i].ops; sleepy(r, o, 0.3); o.push_back(cli(0, s, true, "t", "ns", verb(r))); o.push_back(op("attach", {0})); if (r.chance(0.6)) o.push_back(op("read", {0, 0, 0, 0, 1, 1}));
    double u = r.unit(); if (u < 0.6) o.push_back(op("await", {1, up, 4000000000})); else if (u < 0.8) o.push_back(op("await", {0, 99, 4000000000})); else sleepy(r, o, 1, 30000000);
    o.push_back(op(r.chance(0.7) ? "detach" : "close", {0})); long h = 0; if (r.chance(0.25)) { h = 1; o.push_back(cli(1, t, true)); }
    o.push_back(op("attach", {h})); o.push_back(op("nrows", {h})); o.push_back(op("ncols", {h})); o.push_back(op("read", {h, 0, 0, 0, 1, 1})); o.push_back(wr(r, h, {t.type, t.layout, 1, 1}, tag)); if (r.chance(0.5)) o.push_back(op("detach", {h}));
  }
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.08 : 0);
  return p;
}
Plan gen07(Rng& r) {
  if (r.chance(0.3)) return gen07_next(r);
  Plan p; p.world = "P07"; Shape s = rnd_shape(r, false); long tag = 1; int sessions = r.chance(0.5) ? 1 : (int)r.range(2, 4); int64_t late = r.chance(0.07) ? r.logu(100000000, 12000000000) : 0;   // clients which wait long for their server
  p.par = {{"horizon_ms", 40000 + late / 1000000}, {"sessions", sessions}};
  int nc = (int)r.range(1, late ? 2 : 4); p.procs.resize(1 + nc); auto& S = p.procs[0].ops;
  if (late) S.push_back(op("sleep", {(long)late}));
  sleepy(r, S, 0.6, 5000000);
  for (int k = 0; k < sessions; k++) {
    Shape t = s; if (k) { t.rows = (int)r.range(1, 6); t.cols = (int)r.range(1, 6); }
    S.push_back(srv(k, t, r.chance(0.25), true, "t", "ns", verb(r))); if (k && !S.back().a[5]) { Op again = S.back(); again.k = "resrv"; S.push_back(op("sleep", {30000})); S.push_back(again); } sleepy(r, S, 0.6, 5000000); S.push_back(op("run", {k})); sleepy(r, S, 0.6);
    int m = (int)r.range(0, 3); for (int j = 0; j < m; j++) { double u = r.unit(); if (u < 0.4) { S.push_back(op("stop", {k})); sleepy(r, S, 0.7); S.push_back(op("run", {k})); } else S.push_back(u < 0.7 ? wr(r, k, t, tag) : op("nclients", {k})); sleepy(r, S, 0.3); }
    if (k + 1 == sessions) S.push_back(op("awaitall2", {1, 1 + nc, 39000000000 + late}));
    if (k + 1 < sessions) { S.push_back(op(r.chance(0.7) ? "close" : "del", {k})); sleepy(r, S, 0.5); }
  }
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; int m = (int)r.range(1, 3);
    for (int j = 0; j < m; j++) {
      sleepy(r, o, 0.5, 8000000);
      o.push_back(cli(j, s, true, "t", "ns", verb(r))); o.push_back(op("attach", {j})); if (r.chance(0.5)) sleepy(r, o, 0.5, 5000000); o.push_back(op("nrows", {j})); o.push_back(op("ncols", {j}));
      o.push_back(op("read", {j, 0, 0, 0, 1, 1}));
      if (sessions == 1) { o.push_back(rdw(j, s)); if (r.chance(0.5)) o.push_back(wr(r, j, s, tag)); }
      if (r.chance(0.5)) { o.push_back(op("detach", {j})); if (r.chance(0.5)) { o.push_back(op("attach", {j})); o.push_back(op("nrows", {j})); o.push_back(op("ncols", {j})); } }
    }
  }
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  int jumps = r.chance(0.5) ? (int)r.range(1, 3) : 0;
  while (jumps--) { auto& q = p.procs[r.below(nc + 1)]; with(q.ops[r.below(q.ops.size())], "jump", r.logu(1, 40), (r.chance(0.5) ? 1 : -1) * r.logu(1000000, 40000000000000)); }
  return p;
}
// whoever died or kept the lock is followed by a server which starts with fresh names
bool sound07(Run& run) {
  uint64_t gone = 0; for (int p = 0; p < sim::nprocs(); p++) if (sim::killed_by_plan(p)) gone = std::max(gone, sim::gone_seq(p));
  for (auto& e : run.ev) if (e->is("lock")) { if (!gone) return false; gone = std::max(gone, e->ret); }   // (its process is killed later)
  if (!gone) return true;
  for (auto& x : lives(run)) if (x.force && x.ok && x.create->inv > gone && !x.runs.empty() && x.runs.back().run->done && (x.runs.back().einv == ~0ull || x.runs.back().died)) return true;
  return false;
}
vector<Viol> chk07(Run& run) {
  auto v = basics(run, !sound07(run)); bool sound = sound07(run); auto l = lives(run); auto at = atts(run);
  int64_t up = 0; for (auto& x : l) for (auto& a : x.runs) if ((a.einv == ~0ull || (a.died && !sim::killed_by_plan(x.proc))) && a.run->done) up = std::max(up, a.t1);
  for (auto& a : at) {
    if (!a.sure) continue;
    bool any = false; for (auto& x : l) for (auto& q : x.runs) if (q.inv < a.ret && (q.died || q.eret > a.inv)) any = true;
    if (!any) v.push_back({"early", evs(*a.att) + " returned although no server was running"});
    const int64_t bound = 2000000000ll; int64_t from = std::max(a.att->t0, up);
    if (up && sound && a.att->t1 > from + bound) v.push_back({"slow", evs(*a.att) + fmt(" took %.3f s after the server was up", (a.att->t1 - from) * 1e-9)});
  }
  if (up && sound && v.empty()) for (auto& e : run.ev) if (e->is("attach") && !e->done && sim::pstate(e->proc) != sim::PS_DEAD && sim::now() > std::max(e->t0, up) + 2000000000ll)
    v.push_back({"slow", evs(*e) + fmt(" still waits %.3f s after the server was up", (sim::now() - std::max(e->t0, up)) * 1e-9)});
  // the shape is that of a server which was running during the attach
  for (auto& a : at) {
    if (!a.sure) continue;
    long rr = -1, cc = -1; for (auto& e : run.ev) if (e->proc == a.proc && e->hdl() == a.h && e->inv > a.ret && e->inv < a.dinv && e->ok()) { if (e->is("nrows")) rr = e->val; if (e->is("ncols")) cc = e->val; }
    if (rr < 0 || cc < 0) continue;
    bool any = false; for (auto& x : l) for (auto& q : x.runs) if (q.inv < a.ret && (q.died || q.eret > a.inv) && x.sh.rows == rr && x.sh.cols == cc) any = true;
    if (!any) v.push_back({"shape", evs(*a.att) + fmt(" gave a %ld x %ld tensor, no server with that shape was running", rr, cc)});
  }
  for (auto& e : run.ev) if (e->is("attach") && e->out == 2) v.push_back({"throws", evs(*e) + " threw: " + e->what});
  for (auto& x : l) if (x.create->out == 2 && v.empty()) {
    // refused while there is another server; and a client which was attaching to the previous one may be holding the lock of the new name for a moment
    bool excused = false;
    if (!x.force) { for (auto& y : l) if (&y != &x && y.create->inv < x.create->inv && y.eret > x.create->inv) excused = true; for (auto& e : run.ev) if (e->proc != x.proc && (e->is("attach") || e->is("detach") || e->is("close") || e->is("del")) && e->inv < x.create->ret && (!e->done || e->ret > x.create->inv)) excused = true; }
    if (!excused) v.push_back({"throws", evs(*x.create) + " threw: " + x.create->what});
  }
  if (v.empty() && run.plan->get("sessions") == 1 && !l.empty()) content(run, l[0], v, "content");
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P08
Plan gen08(Rng& r) {
  Plan p; p.world = "P08"; Shape s = rnd_shape(r, false); s.type = (int)r.below(4); s.layout = (int)r.below(2); long tag = 1;
  p.par = {{"type", s.type}, {"layout", s.layout}}; int nc = (int)r.range(1, 3); p.procs.resize(1 + nc);
  auto& S = p.procs[0].ops; S = {srv(0, s, r.chance(0.3), true, "t", "ns", verb(r)), op("run", {0})};
  int n = (int)r.range(1, 6); for (int j = 0; j < n; j++) { double u = r.unit(); if (u < 0.3) S.push_back(wr(r, 0, s, tag)); else if (u < 0.5) S.push_back(rd(r, 0, s)); else if (u < 0.8) S.push_back(op("nclients", {0})); else if (u < 0.9) { S.push_back(op("stop", {0})); S.push_back(op("run", {0})); } else S.push_back(op("sleep", {r.logu(1000, 2000000)})); }
  S.push_back(op("awaitall2", {1, 1 + nc})); S.push_back(op("nclients", {0})); S.push_back(rdw(0, s));
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; int m = (int)r.range(1, 5);
    for (int j = 0; j < m; j++) {
      Shape t = s;
      if (r.chance(0.65)) { int k = (int)r.range(1, 3); if (k & 1) t.type = (int)((t.type + r.range(1, 3)) % 4); if (k & 2) t.layout = 1 - t.layout; }
      bool bad = t.type != s.type || t.layout != s.layout;
      o.push_back(cli(j, t, r.chance(0.8), "t", "ns", verb(r))); o.push_back(op("attach", {j}));
      if (bad) { if (r.chance(0.3)) o.push_back(op("attach", {j})); if (r.chance(0.3)) { o.push_back(wr(r, j, t, tag)); o.push_back(rd(r, j, t)); } if (r.chance(0.2)) o.push_back(op("detach", {j})); if (r.chance(0.6)) o.push_back(op(r.chance(0.5) ? "close" : "del", {j})); }
      else { int k = (int)r.range(0, 4); for (int q = 0; q < k; q++) { Op x = r.chance(0.5) ? wr(r, j, s, tag) : rd(r, j, s); o.push_back(x); } if (r.chance(0.5)) o.push_back(op(r.chance(0.5) ? "detach" : "close", {j})); }
    }
  }
  // unsafe clients only lock or read: keep the content checkable
  for (int i = 1; i <= nc; i++) { std::map<long, bool> safe; for (auto& o : p.procs[i].ops) { if (o.k == "cli") safe[o.a[0]] = o.a[3]; if ((o.k == "write" || o.k == "read") && !safe[o.a[0]]) { o.k = "isrun"; o.a.resize(1); } } }
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  return p;
}
vector<Viol> chk08(Run& run) {
  auto v = basics(run, false); auto l = lives(run); auto at = atts(run); if (l.empty() || !l[0].ok) return v;
  auto& s = l[0]; std::map<std::pair<int, long>, Shape> sh;
  for (auto& e : run.ev) {
    auto k = std::make_pair(e->proc, e->hdl()); if (e->is("cli")) sh[k] = oshape(*e->op);
    bool bad = e->proc && sh.count(k) && (sh[k].type != s.sh.type || sh[k].layout != s.sh.layout);
    if (e->is("attach") && e->done && bad && e->out != 2) v.push_back({"accepted", evs(*e) + fmt(" was not refused: type %d layout %d on a server of type %d layout %d", sh[k].type, sh[k].layout, s.sh.type, s.sh.layout)});
    if (e->is("attach") && e->done && !bad && e->out != 1) v.push_back({"refused", evs(*e) + " of a matching client failed: " + e->what});
    if ((e->is("read") || e->is("write")) && bad && e->done && e->out == 1) v.push_back({"accepted", evs(*e) + " succeeded on a refused client"});
    if ((e->is("read") || e->is("write") || e->is("detach") || e->is("close") || e->is("del") || e->is("nclients") || e->is("stop") || e->is("run")) && e->out == 2) v.push_back({"disturbed", evs(*e) + " threw: " + e->what});
    if (e->is("nclients") && e->ok()) { long lo, hi; count_bounds(at, s.key, s.create->inv, ~0ull, e->inv, e->ret, lo, hi); if (e->val < lo || e->val > hi) v.push_back({"count", evs(*e) + fmt(" gives %ld, expected %ld to %ld", e->val, lo, hi)}); }
  }
  const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == 0) last = e.get();
  if (v.empty() && last && last->is("read") && last->out != 1) v.push_back({"disturbed", evs(*last) + " failed at the end"});
  if (v.empty()) content(run, s, v, "content");
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P09
Plan gen09(Rng& r) {
  Plan p; p.world = "P09"; Shape s = rnd_shape(r, false); long tag = 1; bool two = r.chance(0.35), lots = r.chance(0.001); int nc = (int)(lots ? r.range(1, 2) : r.chance(0.02) ? r.range(5, 12) : r.range(1, 4)); p.procs.resize(1 + nc);
  p.par = {{"two", two}}; string nm = NM[r.below(3)];
  auto& S = p.procs[0].ops; S = {srv(0, s, r.chance(0.3), r.chance(0.7), nm, "ns", verb(r)), op("run", {0})};
  int n = (int)r.range(1, 6); for (int j = 0; j < n; j++) { double u = r.unit(); if (u < 0.6) S.push_back(op("nclients", {0})); else if (u < 0.8) { S.push_back(op("stop", {0})); if (r.chance(0.3)) S.push_back(op("nclients", {0})); sleepy(r, S, 0.5); if (r.chance(0.4)) S.push_back(op("nclients", {0})); S.push_back(op("run", {0})); } else S.push_back(op("sleep", {r.logu(1000, 2000000)})); }
  if (!two && r.chance(0.2)) { S.push_back(op("stop", {0})); S.push_back(op("awaitall2", {1, 1 + nc, 20000000})); S.push_back(op("nclients", {0})); S.push_back(op("run", {0})); }
  if (two) {
    if (r.chance(0.7)) S.push_back(op("close", {0})); else S.push_back(op("stop", {0}));
    sleepy(r, S, 0.5);
    S.push_back(srv(1, s, r.chance(0.5), true, nm, "ns", verb(r))); S.push_back(op("run", {1}));
    int m = (int)r.range(1, 4); for (int j = 0; j < m; j++) { S.push_back(op("nclients", {1})); sleepy(r, S, 0.5); }
  }
  S.push_back(op("awaitall2", {1, 1 + nc})); S.push_back(op("nclients", {two ? 1 : 0}));
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; int hs = (int)r.range(1, 2); for (int h = 0; h < hs; h++) o.push_back(cli(h, s, r.chance(0.7), nm, "ns", verb(r)));
    if (lots) { hs = (int)r.range(100, 140); for (int h = 2; h < hs; h++) o.push_back(cli(h, s, r.chance(0.7), nm)); for (int h = 0; h < hs; h++) o.push_back(op("attach", {h})); if (r.chance(0.5)) for (int h = 0; h < hs; h++) if (r.chance(0.5)) o.push_back(op("detach", {h})); }
    int m = (int)r.range(2, 8);
    for (int j = 0; j < m; j++) {
      long h = r.below(hs); double u = r.unit();
      if (u < 0.4) o.push_back(op("attach", {h})); else if (u < 0.6) o.push_back(op("detach", {h})); else if (u < 0.72) o.push_back(op("close", {h}));
      else if (u < 0.8) o.push_back(rd(r, h, s));
      else if (u < 0.88) { Shape t = s; t.type = (t.type + 1) % 4; o.push_back(cli(200 + j, t, true, nm)); o.push_back(op("attach", {200 + j})); o.push_back(op(r.chance(0.5) ? "close" : "del", {200 + j})); }
      else if (u < 0.93) { o.push_back(op("del", {h})); o.push_back(cli(h, s, true, nm)); }
      else sleepy(r, o, 1);
    }
    if (r.chance(0.3)) o.push_back(op("close", {0}));
  }
  (void)tag;
  sprinkle_stalls(r, p, r.chance(0.5) ? 0.15 : 0);
  return p;
}
vector<Viol> chk09(Run& run) {
  auto v = basics(run, false); auto l = lives(run); auto at = atts(run);
  for (auto& e : run.ev) if (e->is("nclients") && e->done && e->out != -1) {
    const SrvLife* s = life_of(l, *e); if (!s) continue;
    if (e->out == 2) { v.push_back({"throws", evs(*e) + " threw: " + e->what}); continue; }
    // attachments which began before an earlier server of the name had ended may belong to that one
    uint64_t lo_seq = s->create->inv; for (auto& x : l) if (&x != s && x.key == s->key && x.ok && x.create->inv < s->create->inv) { lo_seq = std::max(lo_seq, std::min(x.eret, s->create->ret)); }
    long lo, hi; count_bounds(at, s->key, lo_seq, ~0ull, e->inv, e->ret, lo, hi);
    if (e->val < lo || e->val > hi) v.push_back({"count", evs(*e) + fmt(" gives %ld, but %ld to %ld clients are attached", e->val, lo, hi)});
  }
  for (auto& e : run.ev) if ((e->is("detach") || e->is("close") || e->is("del")) && e->out == 2) v.push_back({"throws", evs(*e) + " threw: " + e->what});
  if (v.size() > 2) v.resize(2);
  return v;
}
}  // namespace

const vector<Prop>& props_b() { static vector<Prop> v = {{"P06", gen06, chk06}, {"P07", gen07, chk07}, {"P08", gen08, chk08}, {"P09", gen09, chk09}}; return v; }
