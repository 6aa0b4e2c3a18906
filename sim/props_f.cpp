// Properties of the Python bindings and wrappers: the real ones, run by an interpreter inside the simulator.
#include "props.hpp"
#include <cmath>
using std::string; using std::vector;
namespace {
// ---------------------------------------------------------------- P26
Plan gen26(Rng& g) {
  static const char* ids[] = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21"};
  string id = ids[g.below(sizeof ids / sizeof *ids)]; if (const char* e = getenv("INNER")) id = e;
  const Prop* q = nullptr; for (auto& p : props()) if (id == p.id) q = &p;
  Plan p = q->gen(g); p.par["inner"] = atoi(id.c_str() + 1);
  long all = (1l << p.procs.size()) - 1; p.par["py"] = g.chance(0.5) ? all : (long)(g.next() & all);
  for (auto& x : p.procs) for (auto& o : x.ops) if (o.k == "swrite") for (auto& s : o.s) for (auto& c : s) if ((unsigned char)c >= 0x80) c = (char)('A' + (c & 31));   // text in Python
  if (id != "P05" && id != "P12" && g.chance(0.5)) for (size_t i = 0; i < p.procs.size(); i++) if (p.par["py"] >> i & 1) {   // now and then an array nobody can transfer
    vector<Op> o; vector<long> at; for (auto& x : p.procs[i].ops) { bool w = x.k == "write" || x.k == "read"; if (w && g.chance(0.15)) o.push_back(op("odd", {x.a[0], (long)g.below(10), x.a[2], x.a[3], x.a[4], x.a[5], g.chance(0.5)})); o.push_back(x); at.push_back((long)o.size()); }
    p.procs[i].ops = std::move(o);
    for (auto& q : p.procs) for (auto& x : q.ops) if (x.k == "await" && x.a[0] == (long)i && x.a[1] > 0 && x.a[1] <= (long)at.size()) x.a[1] = at[x.a[1] - 1];
  }
  return p;
}
vector<Viol> chk26(Run& run) {
  vector<Viol> v;
  for (auto& e : run.ev) if (e->is("odd")) {
    if (e->touched) v.push_back({"odd-touched", evs(*e) + " changed an array that cannot be transferred"});
    else if (e->ok()) v.push_back({"odd-accepted", evs(*e) + " claims to have transferred an array that cannot be transferred"});
  }
  if (!v.empty()) return v;
  run.ev.erase(std::remove_if(run.ev.begin(), run.ev.end(), [](const std::unique_ptr<Ev>& e) { return e->is("odd"); }), run.ev.end());
  for (auto& p : props()) if (atoi(p.id + 1) == run.plan->get("inner")) return p.check(run);
  return {};
}

// ---------------------------------------------------------------- P23
const double NAN_ = 7.0e9;
double fill_value(int type, long f) { if (f == 0) return 0; if (type == 3) return 1; if (f == 1) return type < 2 ? NAN_ : -1; return 5; }
Op vop(Rng& r, long h, int rows, int cols, long& tag, double pbad) {
  Blk b = rnd_block(r, rows, cols); double u = r.unit();
  if (u < 0.33) { int how = (int)r.below(4); if (how & 1) { b.r = b.c = 1; } Op o = op("vwrite", {h, b.row, b.col, b.r, b.c, tag++, how}); if (r.chance(pbad)) { if (how & 1) o.a[1 + r.below(2)] += 50; else o.a[1 + r.below(4)] += r.chance(0.5) ? 1 : 7; } return o; }
  if (u < 0.6) { int how = (int)r.below(4); if (how & 1) { b.r = b.c = 1; } Op o = op("vread", {h, b.row, b.col, b.r, b.c, how}); if (r.chance(pbad)) { if (how & 1) o.a[1 + r.below(2)] += 50; else o.a[1 + r.below(4)] += r.chance(0.5) ? 1 : 7; } return o; }
  if (u < 0.85) { int how = (int)r.below(4); if (how >= 2) b = {0, 0, rows, cols}; Op o = op("synch", {h, b.row, b.col, b.r, b.c, r.chance(0.6), how}); if (how == 0 && r.chance(pbad)) { static const long d[] = {1, 7, -1, -9}; o.a[1 + r.below(4)] += d[r.below(4)]; for (int i = 3; i < 5; i++) o.a[i] = std::max(0l, o.a[i]); } return o; }
  if (u < 0.95) return op("set", {h, b.row, b.col, b.r, b.c, tag++});
  return r.chance(0.6) ? op("look", {h}) : op("zero", {h});
}
Plan gen23(Rng& r) {
  Plan p; p.world = "P23"; int type = (int)r.below(4), rows = (int)r.range(1, 5), cols = (int)r.range(1, 5); long tag = 1; double pbad = r.chance(0.5) ? 0.15 : 0;
  Shape s{type, 0, rows, cols}; int nc = (int)r.range(1, 3), n = (int)r.range(2, 7);
  bool pysrv = r.chance(0.85); long py = pysrv ? 1 : 0; bool live = r.chance(0.3);   // live: everybody leaves in the end
  p.par = {{"type", type}, {"rows", rows}, {"cols", cols}, {"stepcap", 400000}};
  p.procs.resize(nc + 1);
  if (pysrv) p.procs[0].ops = {op("view", {0, 1, type, rows, cols, r.chance(0.3), 1, verb(r), (long)r.below(3)}, {"t", "ns"}), op("run", {0})};
  else p.procs[0].ops = {srv(0, s, r.chance(0.3), true, "t", "ns", verb(r)), op("run", {0})};
  for (int i = 1; i <= nc; i++) {
    bool pyc = r.chance(0.75) || (!pysrv && i == 1); if (pyc) py |= 1l << i;
    if (pyc) p.procs[i].ops = {op("view", {0, 0, type, 0, 0, 0, 1, verb(r), (long)r.below(3)}, {"t", "ns"}), op("run", {0})};
    else p.procs[i].ops = {cli(0, s, true, "t", "ns", verb(r)), op("attach", {0})};
  }
  p.par["py"] = py;
  for (int i = 0; i <= nc; i++) {
    auto& o = p.procs[i].ops; int k = i == 0 ? (int)r.range(0, n) : n;
    for (int j = 0; j < k; j++) {
      if (py >> i & 1) {
        if (r.chance(0.06)) { o.push_back(op("lock", {0})); int m = (int)r.range(0, 2); for (int q = 0; q < m; q++) { Op x = vop(r, 0, rows, cols, tag, pbad); bool again = (x.k == "vwrite" && x.a[6] & 2) || (x.k == "vread" && x.a[5] & 2) || (x.k == "synch" && x.a[6] & 1) || x.k == "zero"; if (!again) o.push_back(x); } o.push_back(op("sleep", {r.logu(1000, 300000)})); o.push_back(op("unlock", {0})); }
        else o.push_back(vop(r, 0, rows, cols, tag, pbad));
        if (i == 0 && r.chance(0.15)) o.push_back(op("nclients", {0}));
      } else o.push_back(r.chance(0.5) ? wr(r, 0, s, tag) : rd(r, 0, s));
      sleepy(r, o, 0.1, 500000);
    }
    if (i && (live || r.chance(0.1))) o.push_back(op(py >> i & 1 ? "close" : "detach", {0}));
  }
  if (live) { auto& o = p.procs[0].ops; o.push_back(op("awaitall2", {1, nc + 1, -1})); if (pysrv) { o.push_back(op("nclients", {0})); o.push_back(op("synch", {0, 0, 0, rows, cols, 1, 2})); o.push_back(op("close", {0})); } }
  for (auto& q : p.procs) for (auto& o : q.ops) if (o.k != "sleep" && o.k != "awaitall2" && r.chance(0.04)) with(o, "stall", r.logu(1, 60), r.logu(1000, 1500000));
  if (r.chance(0.35)) { auto& q = p.procs[r.below(nc + 1)]; auto& o = q.ops[r.below(q.ops.size() - 1) + 1]; with(o, r.chance(0.8) ? "kill" : "hang", r.logu(1, 60)); }
  return p;
}
struct View { bool on = false; vector<double> m; bool server = false; int fill = 0; };
vector<Viol> chk23(Run& run) {
  bool dead = fired("kill") || fired("hang"); auto v = basics(run, dead);
  if (dead) v.erase(std::remove_if(v.begin(), v.end(), [](const Viol& x) { return x.kind == "livelock"; }), v.end());   // who retries, retries forever under a dead holder's lock
  int type = (int)run.plan->get("type"), R = (int)run.plan->get("rows"), C = (int)run.plan->get("cols"); long py = run.plan->get("py");
  vector<LOp> L; std::map<int, View> V; std::map<int, const Ev*> on; vector<Busy> locks; std::map<int, const Ev*> lk;
  auto lop = [&](const Ev& e, bool w, int row, int col, int r, int c, vector<double> d) { LOp o; o.inv = e.inv; o.ret = e.ret; o.write = w; o.row = row; o.col = col; o.r = r; o.c = c; o.data = std::move(d); o.pending = !e.done; o.label = evs(e); L.push_back(o); };
  auto bad = [&](const char* k, const Ev& e, const string& t) { v.push_back({k, evs(e) + t}); };
  auto in = [&](long row, long col, long r, long c) { return row >= 0 && col >= 0 && r >= 0 && c >= 0 && row + r <= R && col + c <= C; };
  std::map<int, const Ev*> closed; bool srvgone = false;
  for (auto& up : run.ev) {
    Ev& e = *up; auto& a = e.op->a; bool P = py >> e.proc & 1; View& w = V[e.proc];
    if (!P) {
      if (e.is("attach") || e.is("run")) { if (e.ok()) on[e.proc] = &e; continue; }
      if (e.is("detach")) { closed[e.proc] = &e; continue; }
      if (!e.is("read") && !e.is("write")) continue;
      if (e.done && e.out != 1) { if (e.out == 2) bad("throws", e, " threw: " + e.what); continue; }
      if (!e.done && e.is("read")) continue;
      auto d = e.data; for (auto& x : d) if (x != x) x = NAN_;
      lop(e, e.is("write"), (int)a[2], (int)a[3], (int)a[4], (int)a[5], d); continue;
    }
    if (e.is("view")) { w = View(); w.server = a[1]; w.fill = (int)a[8]; w.m.assign((size_t)R * C, 0.0); if (e.done && e.out == 2 && !dead) bad("throws", e, " threw: " + e.what); continue; }
    if (e.is("run")) {
      if (e.done && e.out == 2) { if (!dead && e.what.find("SEMACQTIMEOUT") == string::npos) bad("throws", e, " threw: " + e.what); continue; }
      double f = fill_value(type, w.fill); w.m.assign((size_t)R * C, f);
      if (w.server && w.fill) lop(e, true, 0, 0, R, C, w.m);
      if (!e.ok()) continue;
      w.on = true; on[e.proc] = &e;
      if (e.val != R * 1000 + C) bad("shape", e, fmt(": the view is %ld x %ld, the tensor %d x %d", e.val / 1000, e.val % 1000, R, C));
      if (e.data != w.m) bad("initial", e, ": the view does not start from its fill value");
      continue;
    }
    if (e.is("close")) { closed[e.proc] = &e; w.on = false; if (w.server) srvgone = true; if (e.done && e.out == 2) bad("throws", e, " threw: " + e.what); continue; }
    if (e.is("lock")) { if (!e.done || e.ok()) lk[e.proc] = &e; continue; }
    if (e.is("unlock")) { if (lk.count(e.proc)) { if (lk[e.proc]->ok()) locks.push_back({lk[e.proc]->ret, e.inv, lk[e.proc]}); lk.erase(e.proc); } continue; }
    if (!w.on) continue;
    auto blk = [&](int row, int col, int r, int c) { vector<double> d; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) d.push_back(w.m[(size_t)(row + i) * C + col + j]); return d; };
    auto put = [&](int row, int col, int r, int c, const vector<double>& d) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w.m[(size_t)(row + i) * C + col + j] = d[(size_t)i * c + j]; };
    if (e.frame_bad) { bad("frame", e, " changed the view outside the block"); return v; }
    if (e.touched) { bad("touched", e, e.out == 1 ? " changed the view although it only publishes" : " was refused but changed data of the caller"); return v; }
    if (e.is("look")) { if (e.ok() && e.data != w.m) { bad("view", e, ": the view is not what the transfers of this process left in it"); return v; } continue; }
    if (e.is("set")) { if (e.ok() && in(a[1], a[2], a[3], a[4])) put((int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); continue; }
    bool fit = in(a.size() > 4 ? a[1] : 0, a.size() > 4 ? a[2] : 0, a.size() > 4 ? a[3] : R, a.size() > 4 ? a[4] : C);
    if (e.is("vwrite") || e.is("vread") || e.is("synch")) {
      if (!fit) { if (e.ok()) bad("bounds", e, " succeeded although it does not fit"); if (e.done) continue; continue; }
      if (e.done && e.out == 2) { bad("throws", e, " threw: " + e.what); return v; }
    }
    if (e.is("vwrite")) { put((int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); if (!e.done || e.ok()) lop(e, true, (int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); if (e.done && e.out != 1 && a[6] & 2) bad("gave-up", e, " gave up"); }
    else if (e.is("vread")) {
      if (e.ok()) { lop(e, false, (int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); put((int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); }
      else if (e.done && a[5] & 2) bad("gave-up", e, " gave up");
    } else if (e.is("synch")) {
      if (a[5]) { if (e.ok()) { lop(e, false, (int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); put((int)a[1], (int)a[2], (int)a[3], (int)a[4], e.data); } }
      else {
        auto d = blk((int)a[1], (int)a[2], (int)a[3], (int)a[4]);
        if (e.done && e.data != d) { bad("view", e, ": the view is not what the transfers of this process left in it"); return v; }
        if (!e.done || e.ok()) lop(e, true, (int)a[1], (int)a[2], (int)a[3], (int)a[4], d);
      }
      if (e.done && e.out != 1 && a[6] & 1) bad("gave-up", e, " gave up");
    } else if (e.is("zero")) { w.m.assign((size_t)R * C, 0.0); lop(e, true, 0, 0, R, C, w.m); if (e.done && e.out == 2) bad("throws", e, " threw: " + e.what); if (e.ok() && e.data != w.m) bad("view", e, " left something else in the view"); }
    else if (e.is("nclients") && e.ok()) {
      long lo = 0, hi = 0;
      for (auto& x : run.ev) if ((x->is("attach") || (x->is("run") && x->proc != 0)) && (!x->done || x->ok())) {
        const Ev* c = nullptr; for (auto& y : run.ev) if (y->proc == x->proc && (y->is("close") || y->is("detach")) && !c) c = y.get();
        if (x->done && x->ret < e.inv && (!c || c->inv > e.ret)) lo++;
        if (x->inv < e.ret && (!c || c->ret > e.inv)) hi++;
      }
      if (!dead && (e.val < lo || e.val > hi)) bad("clients", e, fmt(" returned %ld, attached were %ld to %ld", e.val, lo, hi));
    }
  }
  // a transfer never gets past a lock taken by hand, and is only refused if somebody may hold the lock
  for (auto& l : locks) for (auto& o : L) if (o.inv > l.a && o.ret < l.b && !o.pending) { v.push_back({"lock-ignored", o.label + " succeeded while " + evs(*l.e) + " was in force"}); break; }
  for (auto& up : run.ev) {
    Ev& e = *up; auto& a = e.op->a; if (!(py >> e.proc & 1) || !e.done || e.out != 0 || !(e.is("vwrite") || e.is("vread") || e.is("synch")) || !in(a[1], a[2], a[3], a[4]) || srvgone) continue;
    bool may = false;
    for (auto& x : run.ev) {
      if (x->proc == e.proc) { if (x->is("lock") && x->inv < e.inv) may = true; continue; }
      if (x->is("look") || x->is("set") || x->is("sleep") || x->is("await") || x->is("awaitall2")) continue;
      if (x->inv < e.ret && (!x->done || x->ret > e.inv || (x->is("lock") && x->out == 1))) may = true;
    }
    for (auto& x : run.ev) if ((x->is("view") || x->is("srv")) && x->proc == 0 && on.count(0) && on[0]->ret > e.inv) may = true;
    if (!may) bad("refused", e, " was refused although nothing was in its way");
  }
  string why; for (auto& o : L) if (!in(o.row, o.col, o.r, o.c)) return v;
  if (v.empty() && !linearizable(R, C, vector<double>((size_t)R * C, 0.0), L, why)) v.push_back({"torn", why});
  return v;
}

// ---------------------------------------------------------------- P24
Op dictsrv(Rng& r, long h, const string& ns, bool force, const string& pre, bool small) {
  int nk = (int)r.range(1, small ? 3 : 4); Op o = op("dict", {h, 1, (long)r.range(1, 3), force, 1, verb(r)}, {ns});
  static const char* alt[] = {"", " x", "_very_long_name_of_a_block_of_data", "/y"};
  for (int k = 0; k < nk; k++) { o.s.push_back(pre + std::to_string(k) + alt[r.below(4)]); o.a.push_back((long)r.range(1, 3)); }
  return o;
}
Plan gen24(Rng& r) {
  Plan p; p.world = "P24"; int nd = r.chance(0.15) ? 2 : 1; bool again = nd == 1 && r.chance(0.25); long tag = 1; vector<int> keys;
  p.par["stepcap"] = 400000; int nc = (int)r.range(1, 3);
  auto use = [&](vector<Op>& o, int nk, int n) {
    for (int j = 0; j < n; j++) { double u = r.unit(); if (u < 0.4) o.push_back(op("dwrite", {0, (long)r.below(nk), tag++, r.chance(0.6)})); else if (u < 0.75) o.push_back(op("dsynch", {0, r.chance(0.6)})); else o.push_back(op("dget", {0, (long)r.below(nk)})); sleepy(r, o, 0.1, 500000); }
  };
  auto nkeys = [](const Op& o) { return (int)o.s.size() - 1; };
  for (int d = 0; d < nd; d++) {
    p.procs.emplace_back(); auto& o = p.procs.back().ops; Op s = dictsrv(r, 0, d ? "nt" : "ns", r.chance(0.3), "k", true); keys.push_back(nkeys(s)); o = {s, op("run", {0})};
    if (r.chance(0.3)) o.insert(o.begin(), op("sleep", {r.logu(1000, 3000000)}));
    use(o, keys[d], (int)r.range(0, 4));
  }
  for (int i = 0; i < nc; i++) { p.procs.emplace_back(); auto& o = p.procs.back().ops; int d = (int)r.below(nd); o = {op("dict", {0, 0, 0, 0, 1, verb(r)}, {d ? "nt" : "ns"}), op("run", {0})}; use(o, keys[d], (int)r.range(1, 5)); if (r.chance(0.2)) o.push_back(op("close", {0})); }
  if (again && r.chance(0.3)) {   // closed is closed: the next one needs no force
    auto& o = p.procs[0].ops; Op s = dictsrv(r, 0, "ns", false, "n", false); o.push_back(op("close", {0})); if (r.chance(0.5)) o.push_back(op("del", {0})); o.push_back(s); o.back().a[0] = 1; o.push_back(op("run", {1})); if (r.chance(0.5)) o.push_back(op("close", {1})); again = false; p.par["reopen"] = 1;
  } else if (again) {
    int n = (int)p.procs.size(); if (r.chance(0.5)) p.procs[0].ops.push_back(op("close", {0})); else { auto& o = p.procs[0].ops; with(o[r.below(o.size())], "kill", r.logu(1, 80)); }
    p.procs.emplace_back(); auto& o = p.procs.back().ops; Op s = dictsrv(r, 0, "ns", true, "n", false); o = {op("await", {0, 99, 50000000}), op("sleep", {1000000}), s, op("run", {0})}; int nk = nkeys(s); use(o, nk, (int)r.range(0, 3));
    int m = (int)r.range(1, 2); for (int i = 0; i < m; i++) { p.procs.emplace_back(); auto& q = p.procs.back().ops; q = {op("await", {n, 4, 100000000}), op("dict", {0, 0, 0, 0, 1, verb(r)}, {"ns"}), op("run", {0})}; use(q, nk, (int)r.range(1, 4)); }
  }
  p.par["py"] = (1l << p.procs.size()) - 1;
  for (auto& q : p.procs) for (auto& o : q.ops) if (o.k[0] == 'd' || o.k == "run") if (r.chance(0.05)) with(o, "stall", r.logu(1, 100), r.logu(1000, 1500000));
  for (auto& q : p.procs) for (auto& o : q.ops) if (o.k == "run" && r.chance(0.1)) with(o, "stall", r.range(1, 400), r.logu(1000000, 10000000));   // clients come in between the steps of a start
  if (!again && r.chance(0.35)) { auto& q = p.procs[r.below(p.procs.size())]; auto& o = q.ops[r.below(q.ops.size())]; if (o.k != "sleep") with(o, r.chance(0.8) ? "kill" : "hang", r.logu(1, 200)); }
  return p;
}
struct Sess { const Op* op; int proc; const Ev *create, *run = nullptr; uint64_t cinv = ~0ull, cret = ~0ull; vector<string> keys; vector<long> dims; long nodes, rows; bool mixed = false; vector<LOp> L; };
vector<Viol> chk24(Run& run) {
  bool dead = fired("kill") || fired("hang"); auto v = basics(run, dead);
  bool closes = false; for (auto& e : run.ev) if (e->is("close")) closes = true;
  if (dead || closes) v.erase(std::remove_if(v.begin(), v.end(), [](const Viol& x) { return x.kind == "livelock" || x.kind == "stuck"; }), v.end());
  auto bad = [&](const char* k, const Ev& e, const string& t) { v.push_back({k, evs(e) + t}); };
  vector<std::unique_ptr<Sess>> S; std::map<int, int> srv_of;
  for (auto& up : run.ev) {
    Ev& e = *up; auto& o = *e.op;
    if (e.is("dict") && o.a[1] && (!e.done || e.ok())) { auto s = std::make_unique<Sess>(); s->op = &o; s->proc = e.proc; s->create = &e; s->keys.assign(o.s.begin() + 1, o.s.end()); s->dims.assign(o.a.begin() + 6, o.a.end()); s->nodes = o.a[2]; s->rows = 0; for (long d : s->dims) s->rows += d; srv_of[e.proc] = (int)S.size(); S.push_back(std::move(s)); }
    else if (e.is("run") && srv_of.count(e.proc) && e.out != 2) { auto& s = *S[srv_of[e.proc]]; s.run = &e; LOp l; l.inv = e.inv; l.ret = e.ret; l.write = true; l.row = l.col = 0; l.r = (int)s.rows; l.c = (int)s.nodes; l.data.assign((size_t)s.rows * s.nodes, NAN_); l.pending = !e.done; l.label = evs(e); s.L.push_back(l); }
    else if (e.is("close") && srv_of.count(e.proc)) { auto& s = *S[srv_of[e.proc]]; if (s.cinv == ~0ull) { s.cinv = e.inv; s.cret = e.ret; } }
    if (e.is("dict") && e.done && e.out == 2 && !dead) bad("throws", e, " threw: " + e.what);
    if (e.is("run") && e.done && e.out == 2 && !dead && (S.size() < 2 || (run.plan->get("reopen") && srv_of.count(e.proc)))) bad("throws", e, " threw: " + e.what);
  }
  std::map<int, Sess*> in; std::map<int, vector<double>> M; std::map<int, string> nsof;
  for (auto& up : run.ev) {
    Ev& e = *up; auto& o = *e.op; auto& a = o.a;
    if (e.is("dict")) { nsof[e.proc] = o.s[0]; in[e.proc] = nullptr; srv_of.erase(e.proc); for (size_t i = 0; i < S.size(); i++) if (S[i]->create == &e) srv_of[e.proc] = (int)i; continue; }
    if (e.is("close")) { in[e.proc] = nullptr; if (e.done && e.out == 2) bad("throws", e, " threw: " + e.what); continue; }
    if (e.is("run")) {
      if (!e.ok()) continue;
      Sess* s = nullptr;
      if (srv_of.count(e.proc)) s = S[srv_of[e.proc]].get();
      else {   // the only session this client can have met
        vector<Sess*> may;
        for (auto& x : S) if (x->op->s[0] == nsof[e.proc] && x->create->inv < e.ret && x->cret > e.inv) {
          bool over = false; for (auto& y : S) if (y != x && y->op->s[0] == nsof[e.proc] && y->create->inv > x->create->inv && y->run && y->run->ret < e.inv) over = true;
          if (!over) may.push_back(x.get());
        }
        if (may.empty()) bad("nobody", e, " finished although no server ever ran");
        if (may.size() != 1 || may[0]->cinv < e.ret) { for (auto* x : may) x->mixed = true; continue; }
        s = may[0];
      }
      in[e.proc] = s; M[e.proc].assign((size_t)s->rows * s->nodes, NAN_);
      if (e.strs != s->keys) { string t; for (auto& x : e.strs) t += " '" + x + "'"; bad("keys", e, ": its keys are" + t + ", the server's differ"); return v; }
      vector<double> dd(s->dims.begin(), s->dims.end());
      if (e.data != dd) { string t; for (double x : e.data) t += fmt(" %g", x); bad("dims", e, ": its block sizes are" + t + ", the server's differ"); return v; }
      if (e.val != s->rows * 1000 + s->nodes) { bad("shape", e, fmt(": %ld rows and nodes, the server has %ld", e.val, s->rows * 1000 + s->nodes)); return v; }
      continue;
    }
    Sess* s = in.count(e.proc) ? in[e.proc] : nullptr; if (!s) continue;
    auto& m = M[e.proc];
    if (e.done && e.out == 2) { bad("throws", e, " threw: " + e.what); return v; }
    if (e.touched) { bad("touched", e, e.is("dget") ? ": a block handed out before has changed meanwhile" : " was refused but changed the values of this process"); return v; }
    auto start = [&](long k) { long r = 0; for (long i = 0; i < k; i++) r += s->dims[i]; return r; };
    auto lop = [&](bool w, long row, long n, const vector<double>& d) { LOp l; l.inv = e.inv; l.ret = e.ret; l.write = w; l.row = (int)row; l.col = 0; l.r = (int)n; l.c = (int)s->nodes; l.data = d; l.pending = !e.done; l.label = evs(e); s->L.push_back(l); };
    if (e.is("dwrite")) {
      if (a[1] >= (long)s->keys.size()) continue;
      long n = s->dims[a[1]], row = start(a[1]); vector<double> d; for (int i = 0; i < n; i++) for (int j = 0; j < s->nodes; j++) d.push_back(cell(0, a[2], i, j, (int)s->nodes));
      for (size_t i = 0; i < d.size(); i++) m[(size_t)row * s->nodes + i] = d[i];
      if (!e.done || e.ok()) lop(true, row, n, d);
      if (e.done && e.out == 0 && a[3]) bad("gave-up", e, " gave up");
    } else if (e.is("dsynch")) {
      if (e.ok()) { lop(false, 0, s->rows, e.data); m = e.data; }
      else if (e.done) { if (a[1]) bad("gave-up", e, " gave up"); if (e.data != m) { bad("view", e, " failed and the values of this process differ from what it left"); return v; } }
    } else if (e.is("dget")) {
      if (a[1] >= (long)s->keys.size() || !e.ok()) continue;
      long n = s->dims[a[1]] * s->nodes, at = start(a[1]) * s->nodes; vector<double> d(m.begin() + at, m.begin() + at + n);
      if (e.data != d) { bad("view", e, " returned something else than this process' last transfers left"); return v; }
    }
  }
  for (auto& s : S) {
    bool whole = true; for (auto& l : s->L) if (l.data.size() != (size_t)l.r * l.c || l.row + l.r > s->rows) whole = false;
    string why; if (v.empty() && whole && !s->mixed && !linearizable((int)s->rows, (int)s->nodes, vector<double>((size_t)s->rows * s->nodes, 0.0), s->L, why)) v.push_back({"torn", why});
  }
  return v;
}
}
const std::vector<Prop>& props_f() { static std::vector<Prop> v = {{"P23", gen23, chk23}, {"P24", gen24, chk24}, {"P26", gen26, chk26}}; return v; }
