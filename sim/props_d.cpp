// P15-P17, P22: producers, consumers, condition variables
#include "props.hpp"
using std::vector; using std::string;

namespace {
void spurs(Rng& r, Op& o, double p) { if (r.chance(p)) { int n = (int)r.range(1, 3); for (int i = 1; i <= n; i++) with(o, "spur", i, r.logu(100, 20000000)); } }
Op sp(Rng& r, Op o, double p) { spurs(r, o, p); return o; }
Op prod(Rng& r, long h, bool force) { return op("prod", {h, force, verb(r)}, {"t", "ns"}); }
Op cons(Rng& r, long h) { return op("cons", {h, verb(r)}, {"t", "ns"}); }

// ---------------------------------------------------------------- history of one channel
struct Session { const Ev* run; uint64_t inv, ret, end = ~0ull; int64_t end_t = INT64_MAX; vector<const Ev*> trig, wack; };
struct CSess { int proc; const Ev* att; uint64_t inv, ret, end = ~0ull; vector<const Ev*> waits, acks; int s = -1; };
struct Chan { vector<Session> S; vector<CSess> C; };
bool wait_done(const Ev& e) { return e.is("wait") ? e.out == 1 : e.val == 1; }
long wait_ms(const Ev& e) { return e.is("waitack") ? (e.op->a.size() > 2 ? e.op->a[2] : 0) : e.op->a.size() > 1 ? e.op->a[1] : 0; }
long wack_ms(const Ev& e) { return e.op->a[2]; }
Chan chan_of(Run& run) {
  Chan c; std::map<long, int> cur; std::map<std::pair<int, long>, int> cc;
  for (auto& up : run.ev) {
    Ev& e = *up; auto k = std::make_pair(e.proc, e.hdl());
    if (e.proc == 0) {
      auto it = cur.find(e.hdl());
      if (e.is("run") && e.out != 2 && e.out != -1 && it == cur.end()) { cur[e.hdl()] = (int)c.S.size(); Session s; s.run = &e; s.inv = e.inv; s.ret = e.ret; c.S.push_back(s); continue; }
      if (it == cur.end()) continue; Session& s = c.S[it->second];
      if (e.is("trigger")) s.trig.push_back(&e); else if (e.is("wack")) s.wack.push_back(&e);
      else if (e.is("close") || e.is("del")) { s.end = e.inv; s.end_t = e.t0; cur.erase(it); }
      continue;
    }
    if (e.is("attach") && e.ok() && !cc.count(k)) { cc[k] = (int)c.C.size(); CSess s; s.proc = e.proc; s.att = &e; s.inv = e.inv; s.ret = e.ret; c.C.push_back(s); continue; }
    auto it = cc.find(k); if (it == cc.end()) continue; CSess& s = c.C[it->second];
    if (e.is("wait") || e.is("waitack") || (e.is("cwait") && (!e.done || e.out != -1))) s.waits.push_back(&e);
    if (e.is("ack") || e.is("waitack") || (e.is("cwait") && (!e.done || e.out != -1) && e.op->a[3])) s.acks.push_back(&e);
    if (e.is("close") || e.is("del")) { s.end = e.inv; cc.erase(it); }
  }
  if (sim::gone_seq(0) != ~0ull) for (auto& s : c.S) if (s.end == ~0ull) {}   // the memory of a producer which has exited stays
  for (auto& x : c.C) { int n = 0, w = -1; for (size_t i = 0; i < c.S.size(); i++) if (c.S[i].inv < x.ret && c.S[i].end > x.inv) { n++; w = (int)i; } if (n == 1) x.s = w; }
  return c;
}
void triggers(Chan& c, bool jumps, vector<Viol>& v) {
  for (auto& x : c.C) {
    if (x.s < 0) continue; Session& s = c.S[x.s]; long n = 0;
    auto done_before = [&](uint64_t q) { long k = 0; for (auto* t : s.trig) if (t->out == 1 && t->ret < q) k++; return k; };
    auto begun_before = [&](uint64_t q) { long k = 0; for (auto* t : s.trig) if (t->inv < q) k++; return k; };
    for (auto* e : x.waits) {
      long lo = done_before(e->inv), hi = begun_before(e->ret); bool broken = false;
      if (!e->done) { if (lo >= n + 2) broken = true; long all = 0; for (auto* t : s.trig) if (t->out == 1) all++; if (all > n && sim::pstate(x.proc) != sim::PS_DEAD && sim::pstate(x.proc) != sim::PS_DONE) v.push_back({"asleep", evs(*e) + fmt(" sleeps although trigger %ld was given", n + 1)}); }
      else if (wait_done(*e)) {
        if (hi < n + 1) v.push_back({"phantom", evs(*e) + fmt(" received trigger %ld which was never given", n + 1)});
        else if (lo > n + 1) v.push_back({"skipped", evs(*e) + fmt(" succeeded after %ld triggers of which %ld were received", lo, n)});
        n++;
      } else if (e->out == 2) { if (hi < n + 2) v.push_back({"error", evs(*e) + " failed: " + e->what}); }
      else {
        long ms = wait_ms(*e);
        if (ms <= 0) v.push_back({"no-trigger", evs(*e) + " without a timeout returned without a trigger"});
        else if (!jumps) { long k = 0; for (auto* t : s.trig) if (t->out == 1 && t->t1 < e->t0 + ms * 1000000 - 2000) k++; if (k > n) v.push_back({"lost", evs(*e) + fmt(" timed out although trigger %ld was given before", n + 1)}); }
        else if (lo > n) v.push_back({"lost", evs(*e) + fmt(" timed out although trigger %ld was given before", n + 1)});
      }
      if (v.size() > 1 || broken) return;
    }
  }
  for (auto& s : c.S) for (auto* t : s.trig) if (t->done && t->out != 1) v.push_back({"trigger-failed", evs(*t) + " failed: " + t->what});
}
struct Ack { uint64_t inv, ret; int64_t t1; bool sure; };
vector<Ack> acks_of(Chan& c, int si) {
  vector<Ack> a;
  for (auto& x : c.C) { bool maybe = false; if (x.s != si) { if (x.s >= 0) continue; maybe = c.S[si].inv < x.ret && c.S[si].end > x.inv; if (!maybe) continue; }
    for (auto* e : x.acks) { bool did = e->is("ack") ? e->done && e->out == 1 : e->val == 1 && e->out != 2; if (!e->done) { if (e->is("ack") || true) a.push_back({e->inv, ~0ull, INT64_MAX, false}); } else if (did) a.push_back({e->inv, e->ret, e->t1, !maybe}); } }
  return a;
}
void acknowledgements(Chan& c, bool jumps, vector<Viol>& v) {
  for (size_t i = 0; i < c.S.size(); i++) {
    Session& s = c.S[i]; auto a = acks_of(c, (int)i); long blo = 0, bhi = 0;
    for (auto* e : s.wack) {
      long n = e->op->a[1], ms = wack_ms(*e); auto lo = [&](uint64_t q) { long k = 0; for (auto& x : a) if (x.sure && x.ret < q) k++; return k; }; auto hi = [&](uint64_t q) { long k = 0; for (auto& x : a) if (x.inv < q) k++; return k; };
      if (!e->done) { if (lo(~0ull) - bhi >= n) v.push_back({"not-released", evs(*e) + fmt(" keeps waiting although %ld acknowledgements were given", lo(~0ull) - bhi)}); return; }
      if (e->out == 2) { v.push_back({"error", evs(*e) + " failed: " + e->what}); return; }
      if (e->out == 1) {
        if (hi(e->ret) - blo < n) { v.push_back({"overcounted", evs(*e) + fmt(" succeeded with at most %ld acknowledgements", hi(e->ret) - blo)}); return; }
        blo = std::max(blo + n, lo(e->inv)); bhi = hi(e->ret); continue;
      }
      if (ms <= 0) { v.push_back({"no-ack", evs(*e) + " without a timeout returned false"}); return; }
      long k = 0; for (auto& x : a) if (x.sure && (jumps ? x.ret < e->inv : x.t1 < e->t0 + ms * 1000000 - 2000)) k++;
      if (k - bhi >= n) { v.push_back({"lost", evs(*e) + fmt(" timed out although %ld acknowledgements were given before", k - bhi)}); return; }
    }
  }
  for (auto& x : c.C) for (auto* e : x.acks) if (e->is("ack") && e->done && e->out != 1 && e->out != -1) v.push_back({"ack-failed", evs(*e) + " failed: " + e->what});
  for (auto& x : c.C) for (auto* e : x.acks) if (!e->is("ack") && e->done && e->val == 1 && e->out != (e->is("cwait") ? e->op->a[3] == 1 : e->op->a[1] != 0)) v.push_back({"ack-failed", evs(*e) + " gave the wrong result: " + e->what});
}
void timing(Chan& c, bool upper, vector<Viol>& v) {
  int64_t slack = 3000000 + sim::stats().slack_ns;
  auto one = [&](const Ev* e, long ms, bool ok) {
    if (!e->done || ms <= 0 || e->out == 2) return; int64_t d = e->t1 - e->t0;
    if (!ok && d < ms * 1000000 - 2000) v.push_back({"early", evs(*e) + fmt(" timed out after %.6f ms", d * 1e-6)});
    if (upper && d > ms * 1000000 + slack) v.push_back({"late", evs(*e) + fmt(" took %.3f ms, at most %.3f ms of which were work", d * 1e-6, slack * 1e-6)});
  };
  for (auto& x : c.C) for (auto* e : x.waits) one(e, wait_ms(*e), wait_done(*e));
  for (auto& s : c.S) for (auto* e : s.wack) one(e, wack_ms(*e), e->out == 1);
  if (!upper) return;
  // released soon after the event
  for (auto& x : c.C) {
    if (x.s < 0) continue; Session& s = c.S[x.s]; size_t n = 0;
    for (auto* e : x.waits) { if (!e->done || e->out == 2) break; if (!wait_done(*e)) continue; if (n < s.trig.size() && s.trig[n]->out == 1 && e->t1 > std::max(e->t0, s.trig[n]->t1) + slack) v.push_back({"slow", evs(*e) + fmt(" returned %.3f ms after its trigger", (e->t1 - std::max(e->t0, s.trig[n]->t1)) * 1e-6)}); n++; }
  }
  for (size_t i = 0; i < c.S.size(); i++) {
    Session& s = c.S[i]; auto a = acks_of(c, (int)i); long bhi = 0;
    for (auto* e : s.wack) {
      if (!e->done || e->out != 1) continue; vector<int64_t> t; for (auto& y : a) if (y.sure) t.push_back(y.t1); std::sort(t.begin(), t.end()); size_t need = (size_t)(bhi + e->op->a[1]);
      if (need >= 1 && t.size() >= need) { int64_t T = std::max(e->t0, t[need - 1]); if (e->t1 > T + slack) v.push_back({"slow", evs(*e) + fmt(" returned %.3f ms after the last acknowledgement it needed", (e->t1 - T) * 1e-6)}); }
      bhi = 0; for (auto& y : a) if (y.inv < e->ret) bhi++;
    }
  }
}
// calls which have to finish
void finishes(Run& run, Chan& c, vector<Viol>& v) {
  for (auto& e : run.ev) {
    if (e->done || sim::pstate(e->proc) == sim::PS_DEAD || sim::pstate(e->proc) == sim::PS_DONE) continue;
    bool must = e->is("trigger") || e->is("ack") || e->is("close") || e->is("del") || e->is("prod") || (e->is("run") && e->proc == 0);
    if (e->is("attach")) for (auto& s : c.S) if (s.ret != ~0ull && s.end == ~0ull) must = true;
    if (must) v.push_back({"stuck", evs(*e) + " never finishes, it waits for " + sim::waiting_on(e->proc)});
  }
  bool threw = false;
  for (auto& e : run.ev) if (e->out == 2 && (e->is("attach") || e->is("cons") || e->is("close") || e->is("del"))) threw = true;
  if (threw) for (auto& e : run.ev) if (e->out == 2 && !e->any_fired && (e->is("attach") || e->is("cons") || e->is("close") || e->is("del"))) { v.push_back({"error", evs(*e) + " failed: " + e->what}); break; }
}

// ---------------------------------------------------------------- P15
Plan gen15(Rng& r) {
  Plan p; p.world = "P15"; bool lots = r.chance(0.0005); int nc = (int)(lots ? r.range(1, 2) : r.chance(0.02) ? r.range(4, 10) : r.range(1, 3)), sess = r.chance(0.2) ? 2 : 1; double ps = r.chance(0.6) ? 0.4 : 0, pj = r.chance(0.2) ? 0.1 : 0; int mode = lots || r.chance(0.65) ? 0 : r.chance(0.5) ? 1 : 2;  // in turn, rushing, late
  if (mode || lots) sess = 1;
  p.procs.resize(1 + nc); auto& P = p.procs[0].ops; p.par = {{"horizon_ms", 20000}};
  for (int s = 0; s < sess; s++) {
    int K = (int)(lots ? r.range(100, 300) : r.range(1, 5)), late = mode == 2 ? (int)r.range(1, nc) : 0;
    if (s) for (int i = 1; i <= nc; i++) P.push_back(op("await", {i, (long)p.procs[i].ops.size()}));
    sleepy(r, P, 0.4); P.push_back(prod(r, s, s > 0 && r.chance(0.4))); sleepy(r, P, 0.3); P.push_back(op("run", {s})); long up = (long)P.size();
    vector<vector<long>> at(nc + 1);
    for (int i = 1; i <= nc; i++) {
      auto& o = p.procs[i].ops; sleepy(r, o, 0.4); if (s) o.push_back(op("await", {0, up})); 
      if (i == late) continue;
      o.push_back(cons(r, s)); sleepy(r, o, 0.2); o.push_back(op("attach", {s})); P.push_back(op("await", {i, (long)o.size()}));
      if (mode == 1) { int m = (int)r.range(1, 6); for (int j = 0; j < m; j++) { sleepy(r, o, 0.4); o.push_back(sp(r, op("wait", {s, (long)r.range(1, 20)}), ps)); } continue; }
      for (int k = 1; k <= K; k++) {
        sleepy(r, o, 0.2, 10000000); int tries = lots ? 0 : (int)r.below(3), m = r.chance(0.5) ? 0 : r.chance(0.7) ? 1 : 2;
        for (int j = 0; j < tries; j++) o.push_back(sp(r, op("cwait", {s, (long)r.range(1, 12), k, m}), ps));
        o.push_back(sp(r, op("cwait", {s, 0, k, m}), ps)); at[i].push_back((long)o.size());
      }
      if (r.chance(0.4)) o.push_back(sp(r, op("cwait", {s, (long)r.range(1, 12), K + 1, 0}), ps));
    }
    if (mode == 1) K = (int)r.range(2, 5);
    for (int k = 0; k < K; k++) {
      sleepy(r, P, 0.6, 15000000); P.push_back(op("trigger", {s})); if (pj && r.chance(pj)) with(P.back(), "jump", r.range(1, 6), r.range(-30, 30) * 1000000);
      if (mode != 1) for (int i = 1; i <= nc; i++) if (i != late) P.push_back(op("await", {i, at[i][k]}));
      if (mode == 1 && r.chance(0.4)) P.push_back(op("sleep", {r.logu(1000, 20000000)}));
      if (late && k == 1) { auto& o = p.procs[late].ops; o.push_back(op("await", {0, (long)P.size()})); o.push_back(cons(r, s)); o.push_back(op("attach", {s})); int m = (int)r.range(1, 3); for (int j = 0; j < m; j++) o.push_back(sp(r, op("wait", {s, (long)r.range(1, 12)}), ps)); }
    }
    if (sess > 1 || r.chance(0.3)) {
      for (int i = 1; i <= nc; i++) P.push_back(op("await", {i, (long)p.procs[i].ops.size()}));
      bool cf = r.chance(0.5); if (cf) for (int i = 1; i <= nc; i++) if (i != late) p.procs[i].ops.push_back(op(r.chance(0.5) ? "close" : "del", {s}));
      P.push_back(op(r.chance(0.6) ? "close" : "del", {s})); if (!cf) for (int i = 1; i <= nc; i++) if (i != late) { p.procs[i].ops.push_back(op("await", {0, (long)P.size()})); p.procs[i].ops.push_back(op(r.chance(0.5) ? "close" : "del", {s})); }
    }
  }
  for (int i = 1; i <= nc; i++) for (auto& o : p.procs[i].ops) { if (o.k == "sleep" && mode == 0 && r.chance(0.04)) with(o, "kill", 1); if (pj && o.k == "cwait" && r.chance(pj)) with(o, "jump", r.range(1, 20), r.range(-30, 30) * 1000000); }
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  return p;
}
vector<Viol> chk15(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v;
  auto c = chan_of(run); triggers(c, fired("clockjump") > 0, v); if (v.empty()) finishes(run, c, v);
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P16
Plan gen16(Rng& r) {
  Plan p; p.world = "P16"; bool lots = r.chance(0.001); int nc = (int)(lots ? r.range(1, 2) : r.chance(0.02) ? r.range(5, 12) : r.range(1, 4)); double ps = r.chance(0.5) ? 0.3 : 0; bool turn = r.chance(0.6), trig = r.chance(0.4);
  p.procs.resize(1 + nc); auto& P = p.procs[0].ops; p.par = {{"horizon_ms", 20000}};
  P.push_back(prod(r, 0, r.chance(0.3))); sleepy(r, P, 0.3); P.push_back(op("run", {0})); for (int i = 1; i <= nc; i++) { auto& o = p.procs[i].ops; sleepy(r, o, 0.3); o.push_back(cons(r, 0)); o.push_back(op("attach", {0})); P.push_back(op("await", {i, (long)o.size()})); }
  long start = (long)P.size(); for (int i = 1; i <= nc; i++) p.procs[i].ops.push_back(op("await", {0, start}));
  int K = turn ? (int)r.range(1, 4) : 1; 
  for (int k = 1; k <= K; k++) {
    long tot = 0; vector<long> done; if (trig) { sleepy(r, P, 0.3); P.push_back(op("trigger", {0})); }
    for (int i = 1; i <= nc; i++) {
      auto& o = p.procs[i].ops; if (trig) { o.push_back(sp(r, op("cwait", {0, 0, k, r.chance(0.8) ? 1 : 2}), ps)); tot++; }
      int m = (int)(lots ? r.range(60, 200) : r.range(trig ? 0 : 1, turn ? 3 : 5)); for (int j = 0; j < m; j++) { sleepy(r, o, lots ? 0.01 : turn ? 0.1 : 0.3); o.push_back(op("ack", {0})); tot++; }
      done.push_back((long)o.size());
    }
    if (turn) {
      bool after = r.chance(0.2); if (after) for (int i = 1; i <= nc; i++) P.push_back(op("await", {i, done[i - 1]}));
      if (r.chance(0.4)) P.push_back(sp(r, op("wack", {0, tot + r.range(0, 1), (long)r.range(1, 8)}), ps)); else sleepy(r, P, 0.2);
      P.push_back(sp(r, op("wack", {0, tot, (long)(after && r.chance(0.5) ? r.range(1, 10) : 0)}), ps));
      // an earlier timed wait may have taken them all already
      if (P[P.size() - 2].k == "wack") P.back().a[2] = r.range(5, 50);
      for (int i = 1; i <= nc; i++) P.push_back(op("await", {i, done[i - 1]})); for (int i = 1; i <= nc; i++) p.procs[i].ops.push_back(op("await", {0, (long)P.size()}));
    } else { int w = (int)r.range(1, 5); for (int j = 0; j < w; j++) { sleepy(r, P, 0.3); P.push_back(sp(r, op("wack", {0, (long)r.range(1, std::max(1l, tot / w + 1)), (long)(r.chance(0.5) ? 0 : r.range(1, 20))}), ps)); } }
  }
  if (r.chance(0.3)) P.push_back(op("wack", {0, (long)r.range(1, 2), (long)r.range(1, 10)}));
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  return p;
}
vector<Viol> chk16(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v;
  auto c = chan_of(run); acknowledgements(c, fired("clockjump") > 0, v); if (v.empty()) finishes(run, c, v);
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P17
Plan gen17(Rng& r) {
  Plan p; p.world = "P17"; int nc = (int)r.range(1, 3), K = (int)r.range(1, 4); bool slow = r.chance(0.06); double ps = r.chance(0.7) ? 0.5 : 0;
  p.procs.resize(1 + nc); auto& P = p.procs[0].ops; p.par = {{"horizon_ms", slow ? 3000000 : 20000}};
  P.push_back(prod(r, 0, r.chance(0.2))); P.push_back(op("run", {0})); for (int i = 1; i <= nc; i++) { auto& o = p.procs[i].ops; o.push_back(cons(r, 0)); o.push_back(op("attach", {0})); P.push_back(op("await", {i, (long)o.size()})); }
  for (int i = 1; i <= nc; i++) p.procs[i].ops.push_back(op("await", {0, (long)P.size()}));
  for (int k = 1; k <= K; k++) {
    long base = slow ? r.logu(200, 100000) : r.chance(0.8) ? r.range(1, 15) : r.range(30, 200);   // the deadline everybody aims at, in ms
    auto near = [&]() -> long { double u = r.unit(); long b = base * 1000000; if (u < 0.5) return std::max(1000l, b + r.range(-60000, 60000)); if (u < 0.75) return std::max(1000l, b + r.range(-2000000, 2000000)); return r.logu(1000, 2 * b); };
    P.push_back(op("sleep", {near()})); P.push_back(op("trigger", {0}));
    vector<long> got, ends; bool acks = r.chance(0.7); long tot = 0; 
    for (int i = 1; i <= nc; i++) {
      auto& o = p.procs[i].ops; int m = acks ? (int)r.below(2) : 0; tot += m;
      int tries = (int)r.range(1, 3); for (int j = 0; j < tries; j++) { o.push_back(sp(r, op("cwait", {0, std::max(1l, base + (r.chance(0.3) ? r.range(-2, 2) : 0)), k, m}), ps)); if (r.chance(0.2)) o.push_back(op("sleep", {r.logu(1000, 1000000)})); }
      o.push_back(sp(r, op("cwait", {0, 0, k, m}), ps)); got.push_back((long)o.size());
      if (acks && r.chance(0.7)) { int q = (int)r.range(1, 3); for (int j = 0; j < q; j++) { o.push_back(op("sleep", {near()})); o.push_back(op("ack", {0})); tot++; } }
      ends.push_back((long)o.size());
    }
    if (tot) { int w = (int)r.range(1, 3); for (int j = 0; j < w; j++) P.push_back(sp(r, op("wack", {0, std::max(1l, tot - r.range(0, 1)), std::max(1l, base + (r.chance(0.3) ? r.range(-2, 2) : 0))}), ps)); }
    for (int i = 1; i <= nc; i++) P.push_back(op("await", {i, ends[i - 1]})); for (int i = 1; i <= nc; i++) p.procs[i].ops.push_back(op("await", {0, (long)P.size()}));
    if (tot) P.push_back(op("wack", {0, 1, 1}));
  }
  sprinkle_stalls(r, p, r.chance(0.2) ? 0.05 : 0);
  return p;
}
vector<Viol> chk17(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v;
  auto c = chan_of(run); timing(c, true, v); if (v.empty()) triggers(c, false, v); if (v.empty()) acknowledgements(c, false, v); if (v.empty()) finishes(run, c, v);
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P22
Plan gen22(Rng& r) {
  Plan p; p.world = "P22"; int np = (int)r.range(2, 5); bool bag = r.chance(0.45); double ps = r.chance(0.5) ? 0.3 : 0, pj = r.chance(0.15) ? 0.1 : 0;
  int64_t mx = r.chance(0.06) ? r.logu(200, 100000) : 15; p.procs.resize(np); p.par = {{"bag", bag}, {"horizon_ms", mx > 15 ? 3000000 : 15000}};
  p.procs[0].ops.push_back(op("cv", {0, 1, r.chance(0.3), verb(r)}, {"c", "ns"}));
  for (int i = 1; i < np; i++) { p.procs[i].ops.push_back(op("await", {0, 1})); sleepy(r, p.procs[i].ops, 0.3); p.procs[i].ops.push_back(op("cv", {0, 0, 0, verb(r)}, {"c", "ns"})); }
  auto in = [&](vector<Op>& o, Op x) { o.push_back(op("cvlock", {0})); o.push_back(x); if (r.chance(0.3)) o.push_back(op("cvget", {0, 0})); if (r.chance(0.15)) o.push_back(op("sleep", {r.logu(1000, 2000000)})); o.push_back(op("cvunlock", {0})); };
  if (bag) {
    long puts = 0, takes = 0; vector<vector<Op>> w(np);
    for (int i = 0; i < np; i++) { int n = (int)r.range(1, 4); bool giver = i == 0 || (i < np - 1 && r.chance(0.3)); for (int j = 0; j < n; j++) {
      auto& o = w[i]; sleepy(r, o, 0.3);
      if (giver) { bool inside = r.chance(0.5), all = r.chance(0.2); o.push_back(op("cvlock", {0})); o.push_back(op("cvput", {0, 0})); if (inside) o.push_back(op(all ? "cvall" : "cvone", {0})); o.push_back(op("cvunlock", {0})); if (!inside) o.push_back(op(all ? "cvall" : "cvone", {0})); puts++; }
      else if (r.chance(0.3)) in(o, sp(r, op("cvtaketimed", {0, 0, 0, (long)(mx > 15 ? r.logu(1, mx) : r.range(1, 15))}), ps)); else { in(o, sp(r, op("cvtake", {0, 0}), ps)); takes++; }
    } }
    for (int i = 0; i < np; i++) for (auto& o : w[i]) p.procs[i].ops.push_back(o);
    for (; puts < takes; puts++) { auto& o = p.procs[0].ops; o.push_back(op("cvlock", {0})); o.push_back(op("cvput", {0, 0})); o.push_back(op("cvunlock", {0})); o.push_back(op("cvone", {0})); }
  } else for (int i = 0; i < np; i++) {
    auto& o = p.procs[i].ops; int n = (int)r.range(1, 4); bool giver = i == 0 || r.chance(0.3); 
    for (int j = 0; j < n; j++) {
      long key = r.below(2); sleepy(r, o, 0.3);
      if (giver) { int where = (int)r.below(3); o.push_back(op("cvlock", {0})); o.push_back(op("cvset", {0, key})); if (where != 1) o.push_back(op("cvall", {0})); if (r.chance(0.15)) o.push_back(op("sleep", {r.logu(1000, 2000000)})); o.push_back(op("cvunlock", {0})); if (where != 0) o.push_back(op("cvall", {0})); continue; }
      double u = r.unit(); long min = r.range(1, 4), ms = mx > 15 ? r.logu(1, mx) : r.range(1, 15);
      in(o, sp(r, u < 0.3 ? op("cvwait", {0, key, min}) : u < 0.55 ? op("cvwaitfor", {0, key, min}) : u < 0.75 ? op("cvtimed", {0, 0, 0, ms}) : op("cvtimedfor", {0, key, min, ms}), ps));
    }
  }
  for (int i = 0; i < np; i++) { if (r.chance(0.2)) p.procs[i].ops.push_back(op("del", {0})); for (auto& o : p.procs[i].ops) if (pj && o.k.compare(0, 3, "cvt") == 0 && r.chance(0.4)) with(o, "jump", r.range(1, 20), r.range(-30, 30) * 1000000); }
  if (p.procs[0].ops.back().k == "del") p.procs[0].ops.pop_back();
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.1 : 0);
  return p;
}
vector<Viol> chk22(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v; bool jumps = fired("clockjump") > 0; int64_t slack = 3000000 + sim::stats().slack_ns;
  std::map<int, bool> locked; bool kept = false, opened = false;
  for (auto& e : run.ev) {
    for (auto& s : e->strs) v.push_back({"exclusion", evs(*e) + ": " + s});
    if (e->is("cvlock") && e->ok()) locked[e->proc] = true; else if (e->is("cvunlock") || e->is("del")) locked[e->proc] = false;
    if (e->out == 2) v.push_back({"error", evs(*e) + " failed: " + e->what});
    if (e->is("cv") && e->ok()) opened = true;
    if (!e->done) continue;
    if ((e->is("cvwait") || e->is("cvwaitfor")) && e->ok() && e->val < e->op->a[2]) v.push_back({"predicate", evs(*e) + " returned although its predicate does not hold"});
    if (e->is("cvtimedfor") && e->ok() && e->val < e->op->a[2]) v.push_back({"predicate", evs(*e) + " returned true although its predicate does not hold"});
    if (e->is("cvtimedfor") && e->out == 0 && e->val >= e->op->a[2]) v.push_back({"predicate", evs(*e) + " reported a timeout although its predicate holds"});
    if (e->is("cvtake") && e->ok() && e->val < 0) v.push_back({"predicate", evs(*e) + " returned without a token"});
    bool timed = e->is("cvtimed") || e->is("cvtimedfor"); int64_t d = e->t1 - e->t0, ms = timed ? e->op->a[3] * 1000000 : 0;
    if (timed && !jumps && e->out == 0 && d < ms - 2000) v.push_back({"early", evs(*e) + fmt(" reported a timeout after %.6f ms", d * 1e-6)});
  }
  if (!v.empty()) { if (v.size() > 2) v.resize(2); return v; }
  // the mutex can be kept for ever only by who does not unlock it (the minimiser can cut the unlock away)
  std::map<int, int> depth; for (auto& e : run.ev) { if (e->is("cvlock") && e->out != -1) depth[e->proc]++; else if (e->is("cvunlock") && e->done) depth[e->proc]--; }
  for (auto& x : depth) if (x.second > 0) { const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == x.first) last = e.get(); bool waits = last && !last->done && (last->is("cvwait") || last->is("cvwaitfor") || last->is("cvtake") || last->is("cvtimed") || last->is("cvtimedfor") || last->is("cvtaketimed") || last->is("cvlock")); if (!waits) kept = true; }
  std::map<int, int> dl; for (auto& e : run.ev) { if (e->is("cvlock") && e->ok()) dl[e->proc]++; else if (e->is("cvlock") && !e->done && dl[e->proc] > 0) kept = true; else if (e->is("cvunlock")) dl[e->proc] = 0; }
  if (kept) return v;
  int64_t asleep = 0; for (auto& e : run.ev) if (e->is("sleep")) asleep += e->op->a[0];   // possibly with the mutex held
  if (!jumps) for (auto& e : run.ev) if (e->done && (e->is("cvtimed") || e->is("cvtimedfor")) && e->t1 - e->t0 > e->op->a[3] * 1000000 + asleep + slack) v.push_back({"late", evs(*e) + fmt(" took %.3f ms, at most %.3f ms of which were work", (e->t1 - e->t0) * 1e-6, (asleep + slack) * 1e-6)});
  if (!v.empty()) { v.resize(1); return v; }
  for (auto& e : run.ev) {
    if (e->done || sim::pstate(e->proc) == sim::PS_DEAD || sim::pstate(e->proc) == sim::PS_DONE) continue;
    bool must = e->is("cvlock") || e->is("cvone") || e->is("cvall") || e->is("cvtimed") || e->is("cvtimedfor") || e->is("cvtaketimed") || e->is("del") || (e->is("cv") && e->op->a[1]) || (e->is("cv") && opened && e->proc == 0);
    if (e->is("cvwait") || e->is("cvwaitfor")) {   // notified after the condition came true?
      long cnt = 0; uint64_t reached = ~0ull; for (auto& x : run.ev) if (x->is("cvset") && x->done && x->out == 1 && x->op->a[1] == e->op->a[1] && x->val >= e->op->a[2] && x->ret < reached) { reached = x->ret; cnt = x->val; }
      (void)cnt; for (auto& x : run.ev) if (x->is("cvall") && x->ok() && x->inv > reached) must = true;
    }
    if (e->is("cvtake")) {   // as many notifications as tokens, and one is left
      long tok = 0, calls = 0; for (auto& x : run.ev) { if (x->is("cvput") && x->ok()) tok++; if ((x->is("cvone") || x->is("cvall")) && x->ok()) calls++; }
      long puts = tok; for (auto& x : run.ev) if ((x->is("cvtake") || x->is("cvtaketimed")) && x->ok()) tok--;
      // every put must be followed by a notification of its own process
      std::map<int, long> open; for (auto& x : run.ev) { if (x->is("cvput") && x->ok()) open[x->proc]++; if ((x->is("cvone") || x->is("cvall")) && x->ok() && open[x->proc] > 0) open[x->proc]--; }
      bool all = true; for (auto& x : open) if (x.second > 0) all = false;
      if (tok > 0 && all && calls >= puts) must = true;
    }
    if (must) { v.push_back({"asleep", evs(*e) + " never returns, it waits for " + sim::waiting_on(e->proc)}); break; }
  }
  (void)slack; (void)locked;
  return v;
}
// ---------------------------------------------------------------- P28
// one call after the other through sessions of a channel, with calls on handles that are not in a session in between (and, from a process of its own, at any moment)
Plan gen28(Rng& r) {
  Plan p; p.world = "P28"; p.par = {{"horizon_ms", 20000}}; int nc = (int)r.range(1, 3), sess = (int)r.range(1, 3); bool stray = r.chance(0.6); p.procs.resize(2 + nc + stray); int sp_ = 2 + nc, lp = -1; bool dead[2] = {false, false}; vector<bool> cdead(nc, false);
  auto step = [&](int q, Op o) { auto& ops = p.procs[q].ops; if (lp >= 0 && lp != q) ops.push_back(op("await", {lp, (long)p.procs[lp].ops.size()})); sleepy(r, ops, 0.15, 3000000); ops.push_back(o); lp = q; };
  auto fail = [&](Op o, double c) { if (r.chance(c)) with(o, r.chance(0.75) ? "sys" : "alloc", r.range(1, 40), 0); for (auto& f : o.f) if (f.kind == "sys") { static const int E[] = {ENOMEM, ENOSPC, EMFILE, ENFILE}; f.arg = E[r.below(4)]; } return o; };
  long ms = 0; auto few = [&] { return ms = r.range(1, 5); };
  struct H { int q; long h; int st; }; vector<H> hp, hc;   // producers and consumers outside the present session: 0 new, 1 running, 2 closed
  auto misuse = [&] {
    if (r.chance(0.5) && !hp.empty()) { H& x = hp[r.below(hp.size())]; if (x.q < 2 && dead[x.q]) return; double u = r.unit(); step(x.q, u < 0.3 ? op("trigger", {x.h}) : u < 0.6 ? op("wack", {x.h, (long)r.range(1, 2), few()}) : x.st == 2 && u < 0.85 ? op("run", {x.h}) : x.st == 2 ? op("close", {x.h}) : op("trigger", {x.h})); }
    else if (!hc.empty()) { H& x = hc[r.below(hc.size())]; if (cdead[x.q - 2]) return; double u = r.unit(); if (u < 0.45) step(x.q, op("wait", {x.h, x.st == 1 || r.chance(0.7) ? few() : 0})); else if (u < 0.8) step(x.q, op("ack", {x.h})); else if (u < 0.9) step(x.q, op("waitack", {x.h, (long)r.below(2), few()})); else { step(x.q, op("close", {x.h})); x.st = 2; } }
  };
  bool left = false;
  if (stray) {
    double u = r.unit(); bool f = r.chance(0.5), ran = r.chance(0.5); step(sp_, op("prod", {90, f, verb(r)}, {"t", "ns"})); if (ran) step(sp_, op("run", {90})); if (u < 0.65) step(sp_, op("close", {90})); else left = true;
    step(sp_, op("cons", {91, verb(r)}, {"t", "ns"})); step(sp_, op("note", {28}));
  }
  bool over = left;
  for (int s = 0; s < sess; s++) {
    int q = (int)r.below(2); if (dead[q]) q = 1 - q; if (dead[q]) break; long h = s;
    if (r.chance(0.3)) misuse();
    step(q, op("prod", {h, left || r.chance(0.4), verb(r)}, {"t", "ns"})); left = false;
    hp.push_back({q, h, 0}); int me = (int)hp.size() - 1; if (r.chance(0.3)) misuse(); if (r.chance(0.15)) step(q, op("wack", {h, 1, few()}));
    if (r.chance(0.15) && !dead[1 - q]) step(1 - q, op("prod", {50 + s, 0, verb(r)}, {"t", "ns"}));
    hp.erase(hp.begin() + me); { Op o = fail(op("run", {h}), 0.25); step(q, o); if (!o.f.empty()) { if (r.chance(0.3)) { hp.push_back({q, h, 0}); misuse(); hp.pop_back(); } step(q, op("run", {h})); } } if (over) p.procs[sp_].ops.push_back(op("await", {q, (long)p.procs[q].ops.size()})), over = false;   // taking a channel over while its owner is in the middle of closing it is not claimed
    if (r.chance(0.2)) step(q, op("run", {h}));
    if (r.chance(0.15) && !dead[1 - q]) step(1 - q, op("prod", {60 + s, 0, verb(r)}, {"t", "ns"}));
    if (r.chance(0.3)) misuse();
    vector<int> in; long T = 0, A = 0, B = 0; vector<long> ch(nc);
    for (int i = 0; i < nc; i++) {
      if (cdead[i] || r.chance(0.15)) continue; int c = 2 + i; long hh = s; int re = -1; if (r.chance(0.4)) for (size_t k = 0; k < hc.size(); k++) if (hc[k].q == c && hc[k].st == 2) re = (int)k;   // a closed consumer is used again
      if (re >= 0) { hh = hc[re].h; hc.erase(hc.begin() + re); } else { step(c, op("cons", {hh, verb(r)}, {"t", "ns"})); if (r.chance(0.25)) { hc.push_back({c, hh, 0}); misuse(); hc.pop_back(); } }
      { Op o = fail(op("attach", {hh}), 0.2); step(c, o); if (!o.f.empty()) step(c, op("attach", {hh})); } if (r.chance(0.2)) step(c, op("attach", {hh}));
      ch[i] = hh; in.push_back(i); if (r.chance(0.2)) step(c, op("wait", {hh, few()})); if (r.chance(0.2)) { step(c, op("close", {hh})); if (r.chance(0.4)) { hc.push_back({c, hh, 2}); misuse(); hc.pop_back(); } step(c, op("attach", {hh})); }
    }
    int K = (int)r.range(0, 4); auto rest = [&](long n) { step(q, op("wack", {h, n, A - B >= n ? (r.chance(0.5) ? 0 : few()) : few()})); if (A - B >= n) B = A; };
    for (int k = 0; k < K; k++) {
      if (r.chance(0.2)) rest(r.range(1, 3)); step(q, op("trigger", {h})); T++;
      for (int i : in) { if (cdead[i]) continue; int c = 2 + i; if (r.chance(0.2)) misuse(); step(c, op("wait", {ch[i], r.chance(0.5) ? 0 : few()})); if (r.chance(0.2)) step(c, op("wait", {ch[i], few()})); int m = r.chance(0.7) ? 1 : (int)r.below(3); while (m--) { step(c, op("ack", {ch[i]})); A++; }
        if (r.chance(0.06)) { Op o = op("sleep", {1000}); with(o, "kill", 1); step(c, o); cdead[i] = true; } else if (r.chance(0.08)) { step(c, op("close", {ch[i]})); hc.push_back({c, ch[i], 2}); in.erase(std::find(in.begin(), in.end(), i)); break; } }
      if (r.chance(0.6)) rest(r.range(1, 4)); if (r.chance(0.2)) misuse();
    }
    rest(1); auto gone = [&] { hp.push_back({q, h, 2}); };
    bool cf = r.chance(0.4); auto leave = [&] { for (int i : in) if (!cdead[i]) { int c = 2 + i; if (r.chance(0.7)) { step(c, op(r.chance(0.8) ? "close" : "del", {ch[i]})); if (p.procs[c].ops.back().k == "close") hc.push_back({c, ch[i], 2}); } else hc.push_back({c, ch[i], 1}); } };
    if (cf) leave(); if (r.chance(0.15) && s + 1 < sess) { Op o = op("sleep", {1000}); with(o, "kill", 1); step(q, o); dead[q] = true; left = true; } else { step(q, op(r.chance(0.8) ? "close" : "del", {h})); if (p.procs[q].ops.back().k == "close") gone(); }
    if (!cf) leave(); if (r.chance(0.4)) misuse();
  }
  if (stray) {
    auto& o = p.procs[sp_].ops; bool bad90 = true; int m = (int)r.range(3, 14);
    for (int j = 0; j < m; j++) { o.push_back(op("sleep", {r.logu(500, 4000000)})); double u = r.unit(); if (bad90 && u < 0.3) o.push_back(op("run", {90})); else if (u < 0.4) o.push_back(op("trigger", {90})); else if (u < 0.5) o.push_back(op("wack", {90, 1, few()})); else if (u < 0.65) o.push_back(op("wait", {91, r.chance(0.5) ? 0 : few()})); else if (u < 0.8) o.push_back(op("ack", {91})); else o.push_back(op("close", {u < 0.92 ? 90 : 91})); }
  }
  for (auto& q : p.procs) for (auto& o : q.ops) if (o.k == "wait" && r.chance(0.05)) spurs(r, o, 1);
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.05 : 0);
  return p;
}
vector<Viol> chk28(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v;
  struct H { bool prod; int st; bool sup; long sess, before, got; }; std::map<std::pair<int, long>, H> hs; std::pair<int, long> owner{-1, 0}; bool owned = false; long cur = 0, T = 0, A = 0; std::set<int> roaming; std::map<long, long> Ts;
  auto bad = [&](const char* kind, const Ev& e, const string& why) { v.push_back({kind, evs(e) + (e.done ? "" : " never returns:") + " " + why + (e.done && e.out == 2 ? ": " + e.what : "")}); };
  // the calls have to follow each other: nothing is judged from the first overlap on
  std::map<const Ev*, uint64_t> next; { std::set<int> ro; const Ev* prev = nullptr; for (auto& e : run.ev) { if (e->is("note")) ro.insert(e->proc); if (e->is("note") || e->is("await") || e->is("sleep") || ro.count(e->proc)) continue; if (prev) next[prev] = e->inv; prev = e.get(); }
    std::set<std::pair<int, long>> shut; for (auto& e : run.ev) { if ((e->is("close") || e->is("del")) && !ro.empty()) { bool before = true; for (auto& n : run.ev) if (n->is("note") && n->proc == e->proc && n->inv < e->inv) before = false; if (before) shut.insert({e->proc, e->hdl()}); } }
    for (auto& e : run.ev) if (ro.count(e->proc) && e->hdl() == 90 && !e->is("prod") && !e->is("note") && !e->is("await") && !e->is("sleep") && !shut.count({e->proc, 90})) { bool after = false; for (auto& n : run.ev) if (n->is("note") && n->proc == e->proc && n->inv < e->inv) after = true; if (!after) continue; bool ok = false; for (auto& n : run.ev) if (n->is("run") && n->proc != e->proc && n->ok() && n->ret < e->inv) ok = true; if (!ok) return v; } }
  for (auto& up : run.ev) {
    const Ev& e = *up; auto key = std::make_pair(e.proc, e.hdl()); if (e.is("note")) { roaming.insert(e.proc); continue; }
    if (e.is("await") || e.is("sleep") || (e.done && e.out == -1)) continue;
    bool killed = sim::killed_by_plan(e.proc) && !e.done; if (killed) return v;
    if (roaming.count(e.proc)) {   // at any moment
      auto it = hs.find(key); if (it == hs.end()) continue; H& x = it->second; bool dur = e.done && (e.is("run") || e.is("trigger") || e.is("wack") || e.is("wait") || e.is("ack") || e.is("close")); if (!e.done) { bad("stuck", e, "a call outside any session"); return v; } if (!dur) continue;
      if (e.is("close")) { if (e.out != 1) bad("close", e, "closing failed"); x.st = 2; continue; }
      if (x.st == 1) { bool live = x.prod && !x.sup; if (live) return v; if (e.is("wack") && e.out == 1) bad("leaks-in", e, "an earlier producer got the acknowledgements of a later session"); continue; }
      if (x.st == 0 && x.prod && !x.sup) return v;
      if (e.out != 2) bad("accepted", e, "was not refused, its handle is in no session");
      if (!v.empty()) return v; continue;
    }
    if (next.count(&e) && next[&e] < (e.done ? e.ret : ~0ull)) return v;
    bool fired = e.any_fired;
    if (e.is("prod")) {
      bool force = e.op->a[1]; if (owned && !force) { H& o = hs[owner]; if (sim::pstate(owner.first) == sim::PS_DEAD) return v; (void)o; if (e.out == 1) { bad("accepted", e, "although another producer has the channel"); return v; } if (!e.done) { bad("stuck", e, ""); return v; } continue; }
      if (e.out != 1) { bad("refused", e, "cannot be created although the channel is free"); return v; }
      for (auto& k : hs) if (k.second.prod && k.second.st != 2) k.second.sup = true; cur++; T = A = 0; owner = key; owned = true; hs[key] = {true, 0, false, cur, 0, 0}; continue;
    }
    if (e.is("cons")) { if (e.out != 1) { bad("refused", e, "cannot be created"); return v; } hs[key] = {false, 0, false, 0, 0, 0}; continue; }
    auto it = hs.find(key); if (it == hs.end()) continue; H& x = it->second; bool live = owned && hs.count(owner) && hs[owner].st == 1;
    if (e.is("close") || e.is("del")) { if (e.out != 1) { bad("close", e, "closing failed"); return v; } if (x.prod && owned && owner == key) owned = false; x.st = 2; if (e.is("del")) hs.erase(it); continue; }
    if (x.prod) {
      if (e.is("run")) {
        if (x.st == 1) { if (e.out != 1) { bad("refused", e, "runs already"); return v; } continue; }
        if (x.st == 2 || x.sup) { if (e.out != 2) { bad("accepted", e, "was closed or replaced and cannot be started again"); return v; } continue; }
        if (e.out == 1) x.st = 1; else if (!fired) { bad("refused", e, "cannot be started"); return v; } continue;
      }
      if (x.st != 1) { if (e.out != 2) { bad("accepted", e, "is not running"); return v; } continue; }
      if (x.sup) { if (!e.done) { bad("stuck", e, ""); return v; } continue; }
      if (e.is("trigger")) { if (e.out != 1) { bad("refused", e, "failed"); return v; } Ts[cur] = ++T; continue; }
      if (e.is("wack")) { long n = e.op->a[1], ms = e.op->a[2]; bool en = A - x.before >= n; if (!en && ms <= 0) return v; if (!e.done) { bad("stuck", e, ""); return v; } if (e.out != (en ? 1 : 0)) { bad(en ? "lost" : "leaks-in", e, fmt("%ld of %ld acknowledgements of this session were given since the last time", A - x.before, n)); return v; } if (en) x.before = A; continue; }
      continue;
    }
    if (e.is("attach")) {
      if (x.st == 1) { if (e.out != 1) { bad("refused", e, "is attached already"); return v; } continue; }
      if (!live || T > 0) return v; if (e.out == 1) { x.st = 1; x.sess = cur; x.got = 0; } else if (!fired || !e.done) { bad(e.done ? "refused" : "stuck", e, "cannot join the running producer"); return v; } continue;
    }
    bool wt = e.is("wait") || e.is("waitack"), ak = e.is("ack") || e.is("waitack"); if (!wt && !ak) continue; long ms = wt ? wait_ms(e) : 0;
    if (x.st != 1) { if (e.out != 2) { bad("accepted", e, "is not attached"); return v; } continue; }
    bool in = live && x.sess == cur;
    if (!in) { if (wt && ms <= 0) return v; if (!e.done) { bad("stuck", e, ""); return v; } if (wt && wait_done(e) && ++x.got > Ts[x.sess]) { bad("leaks-in", e, "received a trigger of another session"); return v; } continue; }
    bool pre = e.is("waitack") && e.op->a[1]; (void)pre;
    if (wt) { long d = T - x.got; if (d > 1 || (d == 0 && ms <= 0) || e.is("waitack")) return v; if (!e.done) { bad("stuck", e, ""); return v; } if (e.out != (d ? 1 : 0)) { bad(d ? "lost" : "leaks-in", e, fmt("%ld triggers of this session were given and %ld received", T, x.got)); return v; } x.got += d; continue; }
    if (e.out != 1) { bad("refused", e, "failed"); return v; } A++;
  }
  return v;
}
}  // namespace

const vector<Prop>& props_d() { static vector<Prop> v = {{"P15", gen15, chk15}, {"P16", gen16, chk16}, {"P17", gen17, chk17}, {"P22", gen22, chk22}, {"P28", gen28, chk28}}; return v; }
