// P10-P14: deaths, shortages, resources, sessions
#include "props.hpp"
using std::vector; using std::string;

namespace {
Shape vary(Rng& r, Shape s) { if (r.chance(0.7)) { s.rows = (int)r.range(1, 6); s.cols = (int)r.range(1, 6); } return s; }
void xfers(Rng& r, vector<Op>& o, long h, const Shape& s, long& tag, int n) { for (int i = 0; i < n; i++) { o.push_back(r.chance(0.5) ? wr(r, h, s, tag) : rd(r, h, s)); sleepy(r, o, 0.15); } }

// ---------------------------------------------------------------- P10
Plan gen10(Rng& r) {
  Plan p; p.world = "P10"; Shape s = rnd_shape(r, false); long tag = 1; int g = r.chance(0.7) ? 1 : (int)r.range(2, 3), no = (int)r.range(0, 2), nn = (int)r.range(1, 2);
  p.procs.resize(g + 1 + no + nn); p.par = {{"gens", g}, {"old", no}, {"horizon_ms", 20000}};
  for (int k = 0; k < g; k++) {
    auto& o = p.procs[k].ops; if (k) o.push_back(op("awaitall", {k})); Shape t = vary(r, s); size_t first = o.size();
    o.push_back(srv(0, t, k > 0 || r.chance(0.3), r.chance(0.8), "t", "ns", verb(r))); sleepy(r, o, 0.2); o.push_back(op("run", {0})); sleepy(r, o, 0.3);
    int m = (int)r.range(0, 5);
    for (int j = 0; j < m; j++) { double u = r.unit(); if (u < 0.5) xfers(r, o, 0, t, tag, 1); else if (u < 0.7) { o.push_back(op("stop", {0})); sleepy(r, o, 0.3); o.push_back(op("run", {0})); } else if (u < 0.85) o.push_back(op("nclients", {0})); else { o.push_back(op("lock", {0})); if (r.chance(0.5)) xfers(r, o, 0, t, tag, 1); o.push_back(op("unlock", {0})); } }
    if (r.chance(0.5)) o.push_back(op(r.chance(0.6) ? "close" : "del", {0}));
    if (r.chance(0.3)) { o.push_back(srv(1, t, r.chance(0.5), true)); o.push_back(op("run", {1})); }
    with(o[first + r.below(o.size() - first)], "kill", r.logu(1, 130));
  }
  auto& F = p.procs[g].ops; Shape t = vary(r, s); if (r.chance(0.2)) t.type = (int)r.below(4); if (r.chance(0.2)) t.layout = (int)r.below(2);
  F.push_back(op("awaitall", {g})); sleepy(r, F, 0.4); F.push_back(srv(0, t, true, true, "t", "ns", verb(r))); sleepy(r, F, 0.2); F.push_back(op("run", {0}));
  long up = (long)F.size();
  F.push_back(rdw(0, t)); F.push_back(op("nclients", {0})); xfers(r, F, 0, t, tag, (int)r.range(0, 3)); if (r.chance(0.3)) { F.push_back(op("stop", {0})); F.push_back(op("run", {0})); }
  F.push_back(op("awaitall2", {g + 1 + no, g + 1 + no + nn, 9000000000})); F.push_back(op("sleep", {20000000})); F.push_back(op("nclients", {0})); F.push_back(op("write", {0, 0, 0, 0, t.rows, t.cols, tag++})); F.push_back(rdw(0, t));
  F.push_back(op("awaitall2", {g + 1, g + 1 + no, 9000000000}));
  for (int i = 0; i < no; i++) {
    auto& o = p.procs[g + 1 + i].ops; sleepy(r, o, 0.5); o.push_back(cli(0, s, true, "t", "ns", verb(r))); o.push_back(op("attach", {0})); int m = (int)r.range(0, 6); xfers(r, o, 0, s, tag, m);
    double u = r.unit(); if (u < 0.3) o.push_back(op("detach", {0})); else if (u < 0.5) o.push_back(op("close", {0})); else if (u < 0.7) { o.push_back(op("detach", {0})); o.push_back(op("attach", {0})); }
    if (r.chance(0.3)) with(o[r.below(o.size())], "kill", r.logu(1, 60));
  }
  for (int i = 0; i < nn; i++) {
    auto& o = p.procs[g + 1 + no + i].ops; o.push_back(op("await", {g, up})); sleepy(r, o, 0.3); o.push_back(cli(0, t, true, "t", "ns", verb(r))); o.push_back(op("attach", {0})); o.push_back(op("nrows", {0})); o.push_back(op("ncols", {0})); o.push_back(rdw(0, t));
    xfers(r, o, 0, t, tag, (int)r.range(1, 4)); if (r.chance(0.5)) o.push_back(op("detach", {0}));
  }
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.08 : 0);
  return p;
}
vector<Viol> chk10(Run& run) {
  auto l = lives(run); auto at = atts(run); int g = (int)run.plan->get("gens"), no = (int)run.plan->get("old");
  const SrvLife* F = nullptr; for (auto& x : l) if (x.proc == g) F = &x;
  // a client killed with the lock of the last session in its hands keeps it (P11)
  bool poisoned = false; for (int i = g + 1; i < g + 1 + no; i++) if (sim::pstate(i) == sim::PS_DEAD && sim::held_sems(i) > 0 && F && sim::gone_seq(i) > F->create->inv) poisoned = true;
  // a client which died with the lock of a generation can hold that generation up for ever
  bool held_up = false, lost = poisoned; for (int i = 0; i < g; i++) { if (sim::gone_seq(i) == ~0ull) held_up = true; } for (int i = g + 1; i < g + 1 + no; i++) if (sim::pstate(i) == sim::PS_DEAD && sim::held_sems(i) > 0) lost = true;
  auto v = basics(run, poisoned || (held_up && lost)); if (!v.empty() || held_up) return v;
  for (auto& x : l) {
    if (!x.force || x.proc == 0 || !x.create->done || x.h != 0) continue;
    if (!x.ok) { v.push_back({"not-replaced", evs(*x.create) + " failed: " + x.create->what}); return v; }
    if (x.create->steps > 4000 || (x.create->blocked > 5000000000ll)) { v.push_back({"slow", evs(*x.create) + fmt(" took %lu steps and waited %.3f s", (unsigned long)x.create->steps, x.create->blocked * 1e-9)}); return v; }
    for (auto& e : run.ev) if (e->proc == x.proc && e->hdl() == 0 && e->is("run") && e->out == 2) { v.push_back({"not-replaced", evs(*e) + " failed: " + e->what}); return v; }
  }
  if (!F || F->runs.empty()) { bool c = false, a = false; for (auto& o : run.plan->procs[g].ops) { if (o.k == "srv") c = true; if (o.k == "run" && c) a = true; } if (a) v.push_back({"not-started", "the last server never started"}); return v; }
  session_content(run, l, at, *F, v, "leftovers");
  const Ev* last = nullptr;
  for (auto& e : run.ev) {
    if (e->proc == g && e->is("read")) last = e.get();
    if (e->proc >= g + 1 + no && !poisoned) {
      if (e->is("attach") && e->out != 1) v.push_back({"not-replaced", evs(*e) + " failed: " + e->what});
      const Att* a = att_of(at, *e);
      if (a && surely_in(*a, *F, l) && e->is("nrows") && e->ok() && e->val != F->sh.rows) v.push_back({"leftovers", evs(*e) + fmt(" gives %ld", e->val)});
      if (a && surely_in(*a, *F, l) && e->is("ncols") && e->ok() && e->val != F->sh.cols) v.push_back({"leftovers", evs(*e) + fmt(" gives %ld", e->val)});
    }
    if (e->proc == g && e->is("nclients") && e->done) {
      long lo, hi; count_bounds(at, F->key, F->create->inv, ~0ull, e->inv, e->ret, lo, hi);
      hi = 0; for (auto& a : at) if (a.inv < e->ret && a.dret > e->inv && maybe_in(a, *F, l)) hi++;
      lo = 0; for (auto& a : at) if (a.ret < e->inv && a.dinv > e->ret && surely_in(a, *F, l)) lo++;
      if (e->out != 1 || e->val < lo || e->val > hi) v.push_back({"leftovers", evs(*e) + fmt(" gives %ld, expected %ld to %ld", e->val, lo, hi)});
    }
  }
  if (v.empty() && !poisoned && last && last->out != 1) {
    bool busy_ = false; for (auto& b : busy(run)) if (b.e->proc != g && b.a < last->ret && b.b > last->inv) busy_ = true;
    if (!busy_) v.push_back({"unusable", evs(*last) + " of the new server failed"});
  }
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P11
Plan gen11(Rng& r) {
  Plan p; p.world = "P11"; Shape s = rnd_shape(r, true); long tag = 1; int nc = (int)r.range(1, 3), vic = (int)r.range(1, nc); bool again = r.chance(0.6), hang = r.chance(0.3);
  p.procs.resize(1 + nc); p.par = {{"victim", vic}, {"again", again}, {"horizon_ms", 15000}};
  auto& S = p.procs[0].ops; sleepy(r, S, 0.5); S.push_back(srv(0, s, r.chance(0.3), true, "t", "ns", verb(r))); sleepy(r, S, 0.4); S.push_back(op("run", {0}));
  xfers(r, S, 0, s, tag, (int)r.range(0, 3)); S.push_back(op("await", {vic, 1000, 80000000})); xfers(r, S, 0, s, tag, r.chance(0.15) ? (int)r.range(10, 60) : (int)r.range(1, 4));
  if (again) {
    S.push_back(op("sleep", {r.chance(0.5) ? r.logu(1000, 10000000) : 100000000})); S.push_back(op("close", {0})); S.push_back(srv(1, s, true, true)); S.push_back(op("run", {1})); p.par["up"] = (long)S.size(); xfers(r, S, 1, s, tag, (int)r.range(1, 3)); S.push_back(op("nclients", {1}));
  }
  S.push_back(op("awaitall2", {1, nc + 1, 1000000000}));
  if (again) { S.push_back(op("write", {1, 0, 0, 0, s.rows, s.cols, tag++})); S.push_back(rdw(1, s)); }
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; sleepy(r, o, 0.4); o.push_back(cli(0, s, true, "t", "ns", verb(r))); o.push_back(op("attach", {0})); xfers(r, o, 0, s, tag, (int)r.range(1, 4));
    if (i == vic) {
      double u = r.unit(); if (u < 0.25) { o.push_back(op("lock", {0})); xfers(r, o, 0, s, tag, 1); o.push_back(op("unlock", {0})); } else if (u < 0.6) { o.push_back(op(r.chance(0.5) ? "detach" : "close", {0})); } 
      with(o[r.chance(0.15) ? r.below(o.size()) : o.size() - 1 - r.below(std::min<size_t>(4, o.size()))], hang ? "hang" : "kill", r.logu(1, 60));
      continue;
    }
    o.push_back(op("await", {vic, 1000, 80000000})); xfers(r, o, 0, s, tag, r.chance(0.15) ? (int)r.range(10, 60) : (int)r.range(1, 4));
    if (again) {
      o.push_back(op("await", {0, p.par["up"]})); if (r.chance(0.5)) o.push_back(rd(r, 0, s)); if (r.chance(0.6)) o.push_back(op("detach", {0})); o.push_back(cli(1, s, true)); o.push_back(op("attach", {1})); xfers(r, o, 1, s, tag, (int)r.range(1, 4)); if (r.chance(0.5)) o.push_back(op("detach", {1}));
    }
  }
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.08 : 0);
  return p;
}
vector<Viol> chk11(Run& run) {
  auto v = basics(run, false); if (!v.empty()) return v;
  auto l = lives(run); auto at = atts(run); int vic = (int)run.plan->get("victim"); bool again = run.plan->get("again");
  const SrvLife *A = nullptr, *B = nullptr; for (auto& x : l) { if (x.h == 0) A = &x; if (x.h == 1) B = &x; }
  if (!A || !A->create->done) return v;
  if (!A->ok) { v.push_back({"harmed", "the server could not be created"}); return v; }
  if (B && B->create->done && !B->ok) { v.push_back({"not-recreated", evs(*B->create) + " failed: " + B->create->what}); return v; }
  for (auto& e : run.ev) if (e->proc == 0 && e->is("run") && e->out == 2) { v.push_back({"not-recreated", evs(*e) + " failed: " + e->what}); return v; }
  auto in_b = [&](const Ev& e) -> int { if (!B) return 0; if (const SrvLife* x = life_of(l, e)) return x == B; const Att* a = att_of(at, e); if (!a) return -1; if (a->ret < B->create->inv) return 0; if (a->inv > B->create->ret) return 1; return -1; };
  session_content(run, l, at, *A, v, "content"); if (B && v.empty()) session_content(run, l, at, *B, v, "content");
  bool dead = sim::pstate(vic) == sim::PS_DEAD, held = dead && sim::held_sems(vic) > 0; uint64_t gone = sim::gone_seq(vic);
  const Ev* vl = nullptr; for (auto& e : run.ev) if (e->proc == vic && e->hdl() == 0 && !e->is("cli")) vl = e.get();
  // in whose hands did the victim die? an attach which was under way may have been at either session
  int vb = vl ? (vl->is("attach") ? (B && gone > B->create->inv ? -1 : 0) : in_b(*vl)) : 0;
  auto bs = busy(run);
  for (auto& e : run.ev) {
    if ((!e->is("read") && !e->is("write")) || !e->done || e->out == -1) continue;
    if (e->out == 2) { v.push_back({"throws", evs(*e) + " threw: " + e->what}); continue; }
    int b = in_b(*e);
    if (b < 0) continue;
    if (b == 0 && held && vb == 0 && e->inv > gone && e->out == 1) v.push_back({"lock-lost", evs(*e) + " succeeded although the holder of the lock died"});
    if (e->out == 0 && fits(*e->op, A->sh.rows, A->sh.cols)) {
      const SrvLife* x = life_of(l, *e); if (x) { bool up = false; for (auto& q : x->runs) if (q.ret < e->inv && e->ret < q.einv) up = true; if (!up) continue; }
      bool reason = held && (vb < 0 || vb == b) && e->ret > (vl ? vl->inv : 0);
      for (auto& y : bs) if (y.e->proc == e->proc ? y.e->is("lock") && y.a < e->inv && y.b > e->inv : y.a < e->ret && y.b > e->inv && !(y.e->proc == vic && dead && (!held || !(vb < 0 || vb == b)) && e->inv > gone)) reason = true;
      if (!reason) v.push_back({"harmed", evs(*e) + " failed although nobody had the lock"});
    }
  }
  for (auto& e : run.ev) if (e->proc != vic && (e->is("attach") || e->is("detach") || e->is("close") || e->is("nclients")) && e->out == 2) v.push_back({"throws", evs(*e) + " threw: " + e->what});
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P12
const int ERR[] = {ENOMEM, ENOSPC, EMFILE, ENFILE, EACCES};
Op short_(Rng& r, Op o, double p) {
  if (!r.chance(p)) return o;
  int n = r.chance(0.8) ? 1 : 2; while (n--) { if (r.chance(0.65)) with(o, "sys", r.range(1, r.chance(0.5) ? 12 : 30), ERR[r.below(5)] + (r.chance(0.3) ? 1000 : 0)); else with(o, "alloc", r.range(1, r.chance(0.6) ? 12 : 60)); }   // 1000: the shortage lasts as long as the operation
  return o;
}
// kinds of object: 0 tensor, 1 strings, 2 producer/consumer
Plan gen12(Rng& r) {
  Plan p; p.world = "P12"; Shape s = rnd_shape(r, false); long tag = 1; int kind = (int)r.below(3), ncl = (int)r.range(1, 2); bool fs = r.chance(0.7), fc = !fs || r.chance(0.6); bool force = r.chance(0.4);
  p.procs.resize(3 + ncl); p.par = {{"kind", kind}, {"rows", s.rows}, {"cols", s.cols}, {"type", s.type}, {"horizon_ms", 15000}};
  // an unrelated pair that works all the time
  auto& A = p.procs[0].ops; A = {srv(0, s, false, true, "other", "ns"), op("run", {0})}; auto& B = p.procs[1].ops; B = {cli(0, s, true, "other", "ns"), op("attach", {0})};
  for (int i = 0; i < 4; i++) { A.push_back(r.chance(0.5) ? wr(r, 0, s, tag) : rd(r, 0, s)); sleepy(r, A, 0.3); B.push_back(r.chance(0.5) ? wr(r, 0, s, tag) : rd(r, 0, s)); sleepy(r, B, 0.3); }
  B.push_back(op("note", {0})); A.push_back(op("await", {1, (long)B.size()})); A.push_back(op("nclients", {0})); A.push_back(rdw(0, s));
  auto& S = p.procs[2].ops; Op c, rc; int v = verb(r);
  if (kind == 0) c = srv(0, s, force, true, "t", "ns", v); else if (kind == 1) c = op("ssrv", {0, 4, force, 1, v}, {"t", "ns"}); else c = op("prod", {0, force, v}, {"t", "ns"});
  int tries = (int)r.range(1, 2);
  rc = c; rc.k = "re" + c.k;
  for (int i = 0; i < tries; i++) S.push_back(short_(r, i ? rc : c, fs ? 0.8 : 0)); S.push_back(rc);
  sleepy(r, S, 0.3);
  for (int i = 0; i < tries; i++) S.push_back(short_(r, op("run", {0}), fs ? 0.6 : 0)); S.push_back(op("run", {0}));
  if (kind == 0) { S.push_back(op("write", {0, 0, 0, 0, s.rows, s.cols, tag++})); S.push_back(rdw(0, s)); }
  else if (kind == 1) S.push_back(op("swrite", {0, 0, 1}, {"first", "second string", "", "x"}));
  long ready = (long)S.size(); 
  vector<long> cready;
  for (int i = 0; i < ncl; i++) {
    auto& o = p.procs[3 + i].ops; int w = verb(r); Op q, rq;
    if (kind == 0) q = cli(0, s, true, "t", "ns", w); else if (kind == 1) q = op("scli", {0, 1, w}, {"t", "ns"}); else q = op("cons", {0, w}, {"t", "ns"});
    rq = q; rq.k = "re" + q.k; if (kind == 2 || r.chance(0.5)) o.push_back(op("await", {2, ready}));   // Boost makes who opens a half-made condition variable wait up to 300 s
    o.push_back(short_(r, q, fc ? 0.3 : 0)); o.push_back(rq); int t2 = (int)r.range(1, 2); for (int j = 0; j < t2; j++) o.push_back(short_(r, op("attach", {0}), fc ? 0.8 : 0)); o.push_back(op("attach", {0}));
    cready.push_back((long)o.size()); o.push_back(op("await", {2, ready}));
  }
  if (kind == 2) for (int k = 0; k < 2; k++) { for (int i = 0; i < ncl; i++) S.push_back(op("await", {3 + i, k == 0 ? cready[i] : cready[i] + 2})); S.push_back(op("trigger", {0})); S.push_back(op("wack", {0, ncl, 0})); for (int i = 0; i < ncl; i++) p.procs[3 + i].ops.push_back(op("waitack", {0, 1, 0})); }
  else {
    for (int i = 0; i < ncl; i++) {   // one after the other, so that every transfer has to succeed
      auto& o = p.procs[3 + i].ops; if (i) o.push_back(op("await", {3 + i - 1, (long)p.procs[3 + i - 1].ops.size()}));
      for (int k = 0; k < ncl; k++) if (k != i) o.push_back(op("await", {3 + k, cready[k]}));
      if (kind == 0) { o.push_back(rdw(0, s)); o.push_back(op("write", {0, 0, 0, 0, s.rows, s.cols, tag++})); o.push_back(rdw(0, s)); }
      else { o.push_back(op("sread", {0, 0, 4, 1})); o.push_back(op("swrite", {0, 1, 0}, {"again " + std::to_string(i)})); o.push_back(op("sread", {0, 1, 1, 0})); }
    }
    S.push_back(op("await", {3 + ncl - 1, (long)p.procs[3 + ncl - 1].ops.size()})); S.push_back(op("nclients", {0})); p.par["count"] = ncl;
  }
  for (int i = 0; i < ncl; i++) { auto& o = p.procs[3 + i].ops; o.push_back(op("await", {2, (long)S.size()})); o.push_back(op(r.chance(0.5) ? "close" : "del", {0})); }
  S.push_back(op("awaitall2", {3, 3 + ncl})); if (kind != 2) S.push_back(op("nclients", {0})); S.push_back(op(r.chance(0.5) ? "close" : "del", {0}));
  return p;
}
vector<Viol> chk12(Run& run) {
  auto v = basics(run, false); if (!v.empty()) return v;
  int rows = (int)run.plan->get("rows"), cols = (int)run.plan->get("cols"), type = (int)run.plan->get("type"), kind = (int)run.plan->get("kind"), ncl = (int)run.plan->procs.size() - 3;
  vector<const Ev*> oth, own; const Ev* scount[2] = {nullptr, nullptr}; vector<double> last((size_t)rows * cols, 0.0); auto bs = busy(run); vector<string> str = {"", "", "", ""};
  for (auto& e : run.ev) {
    if (e->proc < 2) {
      if (e->is("read") || e->is("write")) { oth.push_back(e.get()); continue; }
      if (e->done && e->out != 1 && !e->is("await")) v.push_back({"disturbed", evs(*e) + " failed: " + e->what}); if (e->is("nclients") && e->val != 1) v.push_back({"disturbed", evs(*e) + fmt(" gives %ld", e->val)}); continue;
    }
    if (!e->done || e->is("await") || e->is("sleep")) continue;
    if (!e->any_fired) {
      bool after = false;   // calls on a handle whose creation failed are skipped; later ones have to work
      if (e->out == -1) { for (auto& o : e->op->f) { (void)o; after = true; } if (after) continue;
        bool made = false; for (auto& y : run.ev) if (y->proc == e->proc && y->inv < e->inv && !y->op->s.empty() && y->op->k.compare(0, 2, "re") == 0) made = true; if (!made) continue; }
      if (e->out == 0) { bool in_use = false; for (auto& b : bs) if (b.e->proc >= 2 && b.e->proc != e->proc && b.a < e->ret && b.b > e->inv) in_use = true; if (in_use) continue; }
      if (e->out == -1) { bool ever = false; for (auto& y : run.ev) if (y->proc == e->proc && y->inv < e->inv && y->hdl() == e->hdl() && !y->op->s.empty() && y->ok() && !y->is("swrite")) ever = true; if (!ever) continue; }
      if (!e->op->s.empty() || e->is("run") || e->is("attach") || e->is("del") || e->is("close")) {} else { bool on = false; for (auto& y : run.ev) if (y->proc == e->proc && y->inv < e->inv && (y->is("run") || y->is("attach")) && y->ok()) on = true; if (!on) continue; }
      if (e->out != 1) { v.push_back({e->out == 2 ? "retry" : "pretends", evs(*e) + (e->out == 2 ? " failed without a shortage: " + e->what : " does not work")}); continue; }
    } else if (e->out == 0) v.push_back({"silent", evs(*e) + " failed without an error"});
    if (e->proc == 2 && e->is("nclients")) scount[scount[0] ? 1 : 0] = e.get();
    if (e->ok() && e->is("write")) last = e->data;
    if (e->ok() && e->is("read") && e->data != last) v.push_back({"content", evs(*e) + " returned something else than was written"});
    if ((e->ok() || !e->done) && e->is("swrite")) for (size_t i = 0; i < e->op->s.size(); i++) str[e->op->a[1] + i] = e->op->s[i];
    if (e->ok() && e->is("sread")) for (size_t i = 0; i < (size_t)e->op->a[2]; i++) if (e->strs[i] != str[e->op->a[1] + i]) v.push_back({"content", evs(*e) + " returned '" + e->strs[i] + "'"});
  }
  if (kind != 2) { if (scount[0] && scount[0]->ok() && scount[0]->val != ncl) v.push_back({"count", evs(*scount[0]) + fmt(" gives %ld instead of %d", scount[0]->val, ncl)}); if (scount[1] && scount[1]->ok() && scount[1]->val != 0) v.push_back({"count", evs(*scount[1]) + fmt(" gives %ld at the end", scount[1]->val)}); }
  string why; if (v.empty() && !linearizable(rows, cols, vector<double>((size_t)rows * cols, 0.0), lops(oth), why)) v.push_back({"disturbed", why});
  (void)type; if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P13
Plan gen13(Rng& r) {
  Plan p; p.world = "P13"; Shape s = rnd_shape(r, false); if (r.chance(0.03)) { s.rows = (int)r.range(20, 60); s.cols = (int)r.range(60, 200); } long tag = 1; int nc = (int)r.range(1, 2); double pf = r.chance(0.5) ? 0.3 : 0; int kind = (int)r.below(5); if (kind == 4) kind = 0;
  p.procs.resize(1 + nc); p.par = {{"kind", kind}, {"horizon_ms", 20000}}; auto& S = p.procs[0].ops; int n = (int)r.range(1, 3);
  auto F = [&](Op o) { if (!r.chance(pf)) return o; double u = r.unit(); if (u < 0.6) with(o, "sys", r.range(1, 14), ERR[r.below(5)] + (r.chance(0.2) ? 1000 : 0)); else if (u < 0.8) with(o, "eintr", 1, r.logu(1, 100000)); else if (o.k != "close" && o.k != "del" && o.k != "detach") with(o, "alloc", r.range(1, r.chance(0.6) ? 12 : 60)); return o; };
  auto ends = [&](vector<Op>& o, long h) { double u = r.unit(); if (u < 0.4) o.push_back(op("close", {h})); else if (u < 0.6) { o.push_back(op("close", {h})); o.push_back(op("close", {h})); } if (u >= 0.3) o.push_back(op("del", {h})); };
  if (r.chance(0.5)) S.push_back(op("bystander", {(long)r.range(1, 3)}));
  bool quiet_srv = kind >= 2 && r.chance(0.6); if (kind >= 2 && !quiet_srv) nc = 0; double pfs = pf; if (quiet_srv) pfs = 0;   // Boost makes who opens a half-made condition variable wait up to 300 s
  auto FS = [&](Op o) { double k = pf; pf = pfs; o = F(o); pf = k; return o; };
  for (int k = 0; k < n; k++) {
    Op c = kind == 1 ? op("ssrv", {k, (long)r.range(1, 5), r.chance(0.3), 1, verb(r)}, {"t", "ns"}) : kind == 2 ? op("prod", {k, r.chance(0.3), verb(r)}, {"t", "ns"}) : kind == 3 ? op("cv", {k, 1, r.chance(0.3), verb(r)}, {"t", "ns"}) : srv(k, vary(r, s), r.chance(0.3), r.chance(0.7), "t", "ns", verb(r));
    S.push_back(FS(c)); if (kind == 3) { sleepy(r, S, 0.6); if (r.chance(0.5)) { S.push_back(op("cvlock", {k})); S.push_back(op("cvall", {k})); S.push_back(op("cvunlock", {k})); } ends(S, k); S.push_back(op("peek")); continue; }
    bool again = r.chance(0.3); if (again) { Op d = c; d.k = "re" + c.k; d.f.clear(); S.push_back(d); }
    if (r.chance(0.8)) { S.push_back(FS(op("run", {k}))); if (r.chance(0.4)) S.push_back(op("run", {k})); }
    int m = (int)r.range(0, 4);
    for (int j = 0; j < m; j++) { double u = r.unit(); if (kind == 0 || kind > 3) { if (u < 0.3) { S.push_back(op("stop", {k})); S.push_back(FS(op("run", {k}))); } else if (u < 0.6) S.push_back(wr(r, k, s, tag)); else if (u < 0.8) S.push_back(FS(op("nclients", {k}))); } else if (kind == 1) { if (u < 0.6) S.push_back(op("swrite", {k, 0, 0}, {"abc"})); } else if (u < 0.4) S.push_back(op("trigger", {k})); sleepy(r, S, 0.5); }
    ends(S, k); S.push_back(op("peek"));
  }
  S.push_back(op("note", {1})); 
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; if (r.chance(0.4)) o.push_back(op("bystander", {(long)r.range(1, 3)})); int m = (int)r.range(1, 4);
    for (int j = 0; j < m; j++) {
      sleepy(r, o, 0.3); Shape t = s; if (r.chance(0.2)) t.type = (t.type + 1) % 4;
      Op c = kind == 1 ? op("scli", {j, 1, verb(r)}, {"t", "ns"}) : kind == 2 ? op("cons", {j, verb(r)}, {"t", "ns"}) : kind == 3 ? op("cv", {j, 0, 0, verb(r)}, {"t", "ns"}) : cli(j, t, r.chance(0.8), "t", "ns", verb(r));
      o.push_back(F(c)); if (kind == 3) { if (r.chance(0.5)) { o.push_back(op("cvlock", {j})); o.push_back(op("cvone", {j})); o.push_back(op("cvunlock", {j})); } ends(o, j); continue; }
      int w = (int)r.range(0, 3);
      for (int q = 0; q < w; q++) { double u = r.unit(); if (u < 0.5) o.push_back(F(op("attach", {j}))); else if (u < 0.7 && (kind == 0 || kind > 3)) o.push_back(F(op("detach", {j}))); else if (u < 0.85) o.push_back(op("close", {j})); else if (kind == 0 || kind > 3) o.push_back(rd(r, j, s)); }
      ends(o, j);
    }
  }
  // without a server for ever an attach waits for ever: a last one ends that
  if (kind != 3) { S.push_back(kind == 1 ? op("ssrv", {20, 2, 1, 1, 0}, {"t", "ns"}) : kind == 2 ? op("prod", {20, 1, 0}, {"t", "ns"}) : srv(20, s, true, true)); S.push_back(op("run", {20})); S.push_back(op("awaitall2", {1, 1 + nc, 12000000000})); S.push_back(op("close", {20})); S.push_back(op("peek")); }
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.08 : 0);
  return p;
}
vector<Viol> chk13(Run& run) {
  auto v = basics(run, false); if (!v.empty()) return v;
  std::map<std::pair<int, long>, bool> busy_; std::map<int, long> by;
  bool kinds_cv = run.plan->get("kind") >= 2;   // condition variables and what is built of them
  std::map<std::pair<int, long>, char> kinds; std::set<std::pair<int, long>> cvs; bool failed = false;
  for (auto& e : run.ev) {
    auto k = std::make_pair(e->proc, e->hdl()); if (!e->done) continue;
    bool make = !e->op->s.empty() && !e->is("swrite");
    if (e->is("bystander")) by[e->proc] += e->op->a[0];
    if (make) {
      bool srvlike = e->is("srv") || e->is("resrv") || e->is("ssrv") || e->is("ressrv") || e->is("prod") || e->is("reprod") || e->is("cv");
      if (e->ok() && srvlike && e->op->k.compare(0, 2, "re") != 0) busy_[k] = true; else if (e->ok() && srvlike && !kinds.count(k)) busy_[k] = true;
      if (e->ok()) kinds[k] = 1;
      if (e->proc == 0 && srvlike) failed = !e->ok();
      if (e->ok()) { if (e->is("cv")) { cvs.insert(k); busy_[k] = true; } else cvs.erase(k); }
    }
    else if ((e->is("attach") || e->is("run")) && e->out != -1) busy_[k] = true;   // what a failed attempt still has is given back at the end
    else if (e->is("close") && e->out != -1 && e->out != 2) { if (!cvs.count(k)) busy_.erase(k); }   // a condition variable keeps its handles until it is destroyed
    else if (e->is("detach") && e->ok()) busy_.erase(k);
    else if (e->is("del")) { busy_.erase(k); kinds.erase(k); }
    bool quiet = true; for (auto& b : busy_) if (b.first.first == e->proc) quiet = false;
    auto& b = run.base[e->proc]; auto& u = e->u1;
    if (quiet && !e->is("close") && e->out == 2 && (e->is("close") || e->is("detach"))) continue;
    int boost = 0;   // Boost loses the descriptor it has just opened if it runs out of memory for its copy of the name
    for (auto& x : run.ev) if (x->proc == e->proc && x->inv <= e->inv && x->done && x->out == 2 && x->what == "std::bad_alloc" && (x->is("cv") || x->is("run") || x->is("attach"))) for (auto& f : x->op->f) if (f.kind == "alloc") boost++;
    if (kinds_cv && u.fds > b.fds && u.fds <= b.fds + boost) u.fds = b.fds;
    if (quiet && (u.fds != b.fds || u.maps != b.maps || u.sems != b.sems)) { v.push_back({"leak", fmt("after %s, with everything closed, the process still has %d descriptors, %d mappings and %d semaphores", evs(*e).c_str(), u.fds - b.fds, u.maps - b.maps, u.sems - b.sems)}); return v; }
    if (u.foreign_close) { v.push_back({"foreign", evs(*e) + " closed a descriptor of the application"}); return v; }
    if (u.bad_close || u.bad_unmap || u.bad_semclose) { v.push_back({"twice", fmt("%s gave back something twice (%d descriptors, %d mappings, %d semaphores)", evs(*e).c_str(), u.bad_close, u.bad_unmap, u.bad_semclose)}); return v; }
    if (e->is("peek") && e->proc == 0) {
      bool own = true; for (auto& x : busy_) if (x.first.first == 0) own = false;
      if (failed) e->strs.erase(std::remove_if(e->strs.begin(), e->strs.end(), [](const string& x) { return x[0] == 'S'; }), e->strs.end());   // a free semaphore left by a failed creation looks like no session
      if (own && !e->strs.empty()) { string s; for (auto& x : e->strs) s += " " + x.substr(1); v.push_back({"names", evs(*e) + ": names remain after close:" + s}); return v; }
    }
  }
  for (int p = 0; p < sim::nprocs(); p++) if (sim::pstate(p) == sim::PS_BLOCKED) {}
  return v;
}

// ---------------------------------------------------------------- P14
// a server is killed and another process replaces it, while clients of the first session keep theirs: whatever they do there, the second session does not notice
Plan gen14_old(Rng& r) {
  Plan p; p.world = "P14"; Shape s = rnd_shape(r, false), t = r.chance(0.6) ? vary(r, s) : s; long tag = 1; int nc = (int)r.range(1, 3); p.par = {{"horizon_ms", 20000}, {"old", 1}}; p.procs.resize(2 + nc);
  auto &A = p.procs[0].ops, &B = p.procs[1].ops; A.push_back(srv(0, s, r.chance(0.3), true, "t", "ns", verb(r))); A.push_back(op("run", {0})); if (r.chance(0.2)) A.push_back(op("stop", {0}));
  bool stopped = A.back().k == "stop"; if (stopped) { A.pop_back(); }
  vector<long> in; for (int i = 0; i < nc; i++) { auto& o = p.procs[2 + i].ops; o.push_back(cli(0, s, r.chance(0.9), "t", "ns", verb(r))); o.push_back(op("attach", {0})); in.push_back((long)o.size()); A.push_back(op("await", {2 + i, (long)o.size(), 3000000000})); }
  if (stopped) A.push_back(op("stop", {0})); double u = r.unit(); A.push_back(u < 0.4 ? wr(r, 0, s, tag) : u < 0.6 ? op("lock", {0}) : u < 0.8 ? op("nclients", {0}) : op("sleep", {1000})); if (A.back().k == "lock") A.push_back(op("sleep", {1000})); with(A.back(), "kill", A.back().k == "sleep" ? 1 : r.logu(1, 30));
  B.push_back(op("await", {0, 99, 4000000000})); sleepy(r, B, 0.3); B.push_back(srv(0, t, true, true, "t", "ns", verb(r))); sleepy(r, B, 0.4); B.push_back(op("run", {0})); long up = (long)B.size(); bool own = r.chance(0.7); if (own) { B.push_back(cli(1, t, true, "t", "ns", verb(r))); B.push_back(op("attach", {1})); }
  int m = (int)r.range(3, 12); for (int j = 0; j < m; j++) { long h = own ? r.below(2) : 0; double w = r.unit(); if (w < 0.35) B.push_back(wr(r, h, t, tag)); else if (w < 0.6) B.push_back(rdw(h, t)); else if (w < 0.75) B.push_back(op("nclients", {0})); else if (w < 0.85) { B.push_back(op("lock", {h})); sleepy(r, B, 0.3); B.push_back(op("unlock", {h})); } else if (own && w < 0.93) { B.push_back(op("detach", {1})); sleepy(r, B, 0.3); B.push_back(op("attach", {1})); } else { B.push_back(op("stop", {0})); sleepy(r, B, 0.3); B.push_back(op("run", {0})); } sleepy(r, B, 0.5, 500000); }
  B.push_back(rdw(0, t)); B.push_back(op("nclients", {0}));
  for (int i = 0; i < nc; i++) {
    auto& o = p.procs[2 + i].ops; o.push_back(op("await", {r.chance(0.5) ? 1 : 0, (long)(r.chance(0.5) ? up : 99), 4000000000})); int q = (int)r.range(2, 8); bool lk = false;
    for (int j = 0; j < q; j++) { double w = r.unit(); if (!lk && w < 0.45) { o.push_back(op("lock", {0})); lk = true; } else if (lk && w < 0.5) { o.push_back(op("unlock", {0})); lk = false; } else if (w < 0.7) o.push_back(r.chance(0.6) ? wr(r, 0, s, tag) : rd(r, 0, s)); else o.push_back(op("sleep", {r.logu(1000, 2000000)})); }
    if (lk && r.chance(0.8)) o.push_back(op("unlock", {0})), lk = false; double w = r.unit(); if (!lk && w < 0.3) o.push_back(op("detach", {0})); else if (!lk && w < 0.5) o.push_back(op("close", {0})); else if (w < 0.7) with(o[in[i] + r.below(o.size() - in[i])], "kill", r.logu(1, 30));
  }
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.08 : 0);
  return p;
}
vector<Viol> chk14_old(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v;
  const Ev* c = nullptr; for (auto& e : run.ev) if (e->proc == 1 && e->is("srv")) { c = e.get(); break; }
  if (!c || !c->op->a[5] || !sim::killed_by_plan(0) || sim::gone_seq(0) > c->inv) return v;
  for (auto& e : run.ev) if (e->proc > 1 && e->is("attach") && (!e->done || e->ret > c->inv)) return v;   // it may have joined the second session
  if (c->done && c->out == 2) return {{"refused", evs(*c) + " failed: " + c->what}};
  Shape t = oshape(*c->op); vector<double> T((size_t)t.rows * t.cols, 0.0); bool runs = false, made = false, att = false; long locker = -1;
  auto bad = [&](const Ev& e, const string& w) { v.push_back({"disturbed", evs(e) + " " + w + ", nobody else is in this session"}); };
  for (auto& up : run.ev) {
    const Ev& e = *up; if (e.proc != 1 || e.inv <= c->inv || e.is("await") || e.is("sleep")) continue; if (e.done && e.out == -1) continue; long h = e.hdl();
    if (e.is("srv")) break;
    if (e.is("cli")) { made = h == 1; if (!made) break; continue; }
    if (h == 1 && !made) break;
    if (locker >= 0 && !(e.is("unlock") && h == locker)) break;   // the minimiser has cut the unlock away
    bool on = h == 1 ? att : runs;
    if (e.is("attach") && !runs) break; if (e.is("lock") && !on) break; if (e.is("unlock") && locker != h) break;
    if (!e.done) { bad(e, "never finishes"); break; } if (e.out == 2) { bad(e, "failed: " + e.what); break; }
    if (e.is("run")) runs = true; else if (e.is("stop")) runs = false; else if (e.is("attach")) att = true; else if (e.is("detach")) att = false; else if (e.is("close") || e.is("del")) break;
    else if (e.is("lock")) locker = h; else if (e.is("unlock")) locker = -1;
    else if (e.is("nclients")) { if (e.val != (long)att) bad(e, fmt("gives %ld instead of %d", e.val, (int)att)); }
    else if (e.is("write") || e.is("read")) {
      bool can = on && fits(*e.op, t.rows, t.cols); if (e.out != (can ? 1 : 0)) { bad(e, can ? "was refused" : "succeeded"); break; } if (!can) continue;
      size_t x = 0; for (int i = 0; i < e.op->a[4]; i++) for (int j = 0; j < e.op->a[5]; j++, x++) { double& q = T[(e.op->a[2] + i) * t.cols + e.op->a[3] + j]; if (e.is("write")) q = e.data[x]; else if (q != e.data[x]) { bad(e, fmt("found %g instead of %g", e.data[x], q)); return v; } }
    }
    if (!v.empty()) break;
  }
  return v;
}
Plan gen14(Rng& r) {
  if (r.chance(0.25)) return gen14_old(r);
  Plan p; p.world = "P14"; Shape s = rnd_shape(r, false); long tag = 1; int ns = (int)r.range(2, 4), nc = (int)r.range(1, 3); p.procs.resize(1 + nc + ns);
  p.par = {{"horizon_ms", 20000}}; auto& S = p.procs[0].ops; vector<Shape> sh; vector<long> up; bool keep = r.chance(0.4);
  for (int k = 0; k < ns; k++) {
    Shape t = k && r.chance(0.7) ? vary(r, s) : s; if (k && r.chance(0.1)) t.type = (int)r.below(4); sh.push_back(t);
    S.push_back(srv(k, t, r.chance(0.3), true, "t", "ns", verb(r))); sleepy(r, S, 0.2); S.push_back(op("run", {k})); up.push_back((long)S.size());
    int m = (int)r.range(0, 4); for (int j = 0; j < m; j++) { double u = r.unit(); if (u < 0.25) S.push_back(op("nclients", {k})); else if (u < 0.45) S.push_back(rdw(k, t)); else if (u < 0.7) S.push_back(wr(r, k, t, tag)); else S.push_back(op("sleep", {r.logu(1000, 3000000)})); if (k && r.chance(0.15)) { double w = r.unit(); long o = r.below(k); S.push_back(w < 0.3 ? wr(r, o, sh[o], tag) : w < 0.6 ? op("run", {o}) : w < 0.8 ? op("close", {o}) : op("stop", {o})); } }
    if (r.chance(0.5)) S.push_back(op("await", {1 + nc + k, 3, 20000000}));
    S.push_back(op("nclients", {k})); S.push_back(rdw(k, t));
    if (k + 1 < ns) { if (keep && r.chance(0.5)) S.push_back(op("stop", {k})); else S.push_back(op(r.chance(0.7) ? "close" : "del", {k})); }
  }
  S.push_back(op("awaitall2", {1, 1 + nc + ns})); S.push_back(op("nclients", {ns - 1})); S.push_back(rdw(ns - 1, sh[ns - 1]));
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; sleepy(r, o, 0.3); int hs = (int)r.range(1, 2); for (int h = 0; h < hs; h++) { o.push_back(cli(h, s, true, "t", "ns", verb(r))); o.push_back(op("attach", {h})); }
    int m = (int)r.range(2, 8); for (int j = 0; j < m; j++) { long h = r.below(hs); double u = r.unit(); if (u < 0.55) o.push_back(r.chance(0.7) ? wr(r, h, s, tag) : rd(r, h, s)); else if (u < 0.65) o.push_back(op("detach", {h})); else if (u < 0.75) o.push_back(op("attach", {h})); else o.push_back(op("sleep", {r.logu(1000, 3000000)})); }
    double u = r.unit(); if (u < 0.3) o.push_back(op("detach", {0})); else if (u < 0.5) o.push_back(op("close", {0})); else if (u < 0.6) o.push_back(op("del", {0})); else if (u < 0.75) with(o[r.below(o.size())], "kill", r.logu(1, 60));
  }
  for (int k = 0; k < ns; k++) {  // one fresh client per session
    auto& o = p.procs[1 + nc + k].ops; o.push_back(op("await", {0, up[k]})); o.push_back(cli(0, sh[k], true)); o.push_back(op("attach", {0})); o.push_back(op("nrows", {0})); o.push_back(op("ncols", {0})); o.push_back(rdw(0, sh[k])); if (r.chance(0.6)) o.push_back(wr(r, 0, sh[k], tag)); sleepy(r, o, 0.5); if (r.chance(0.6)) o.push_back(op("detach", {0}));
  }
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  return p;
}
vector<Viol> chk14(Run& run) {
  if (run.plan->get("old")) return chk14_old(run);
  auto l = lives(run); auto at = atts(run);
  auto bs = busy(run);
  auto all_closed = [&](const SrvLife& x) { for (auto& y : l) if (&y != &x && y.create->inv < x.create->inv && y.create->done && y.ok && (y.eret > x.create->inv || y.died)) return false; return true; };
  bool poisoned = false; for (int i = 1; i < sim::nprocs(); i++) if (sim::pstate(i) == sim::PS_DEAD && sim::held_sems(i) > 0) poisoned = true;
  auto v = basics(run, poisoned); if (!v.empty()) return v;
  for (auto& x : l) { if (!x.ok) { bool met = false; for (auto& b : bs) if (b.e->proc != x.proc && b.a < x.create->ret && b.b > x.create->inv) met = true;   // somebody attaching may have the lock for a moment
      if (!poisoned && !met && x.create->done && all_closed(x)) v.push_back({"refused", evs(*x.create) + " failed: " + x.create->what}); continue; } session_content(run, l, at, x, v, "content"); if (!v.empty()) return v; }
  for (auto& e : run.ev) {
    const SrvLife* s = life_of(l, *e);
    bool stale = false; if (s) for (auto& y : l) if (&y != s && y.ok && y.create->inv > s->create->inv && y.create->ret < e->inv) stale = true;
    bool was_running = false; if (s) for (auto& q : s->runs) if (q.inv < e->inv && q.eret > e->inv) was_running = true;
    if (was_running) stale = false;
    if (s && stale && (e->is("write") || e->is("read")) && e->out == 1) v.push_back({"stale", evs(*e) + " succeeded on a server which was replaced"});
    if (s && stale && e->is("run") && e->ok()) v.push_back({"stale", evs(*e) + " succeeded on a server which was replaced"});
    if (s && e->is("nclients") && e->done && !stale) {
      long lo = 0, hi = 0; for (auto& a : at) { if (a.inv < e->ret && a.dret > e->inv && maybe_in(a, *s, l)) hi++; if (a.ret < e->inv && a.dinv > e->ret && surely_in(a, *s, l)) lo++; }
      if (e->out != 1 || e->val < lo || e->val > hi) v.push_back({"count", evs(*e) + (e->out == 2 ? " threw: " + e->what : fmt(" gives %ld, expected %ld to %ld", e->val, lo, hi))});
    }
    const Att* a = att_of(at, *e);
    if (a && e->ok() && (e->is("nrows") || e->is("ncols"))) { bool any = false; for (auto& x : l) if (maybe_in(*a, x, l) && (e->is("nrows") ? x.sh.rows : x.sh.cols) == e->val) any = true; for (auto& x : l) if (surely_in(*a, x, l) && (e->is("nrows") ? x.sh.rows : x.sh.cols) != e->val) any = false; if (!any) v.push_back({"shape", evs(*e) + fmt(" gives %ld", e->val)}); }
    if ((e->is("detach") || e->is("close") || e->is("del")) && e->out == 2) v.push_back({"throws", evs(*e) + " threw: " + e->what});
  }
  if (v.size() > 2) v.resize(2);
  return v;
}
}  // namespace

const vector<Prop>& props_c() { static vector<Prop> v = {{"P10", gen10, chk10}, {"P11", gen11, chk11}, {"P12", gen12, chk12}, {"P13", gen13, chk13}, {"P14", gen14, chk14}}; return v; }
