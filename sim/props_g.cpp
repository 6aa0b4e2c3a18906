// The ROS bridge: the real ToRos and FromRos with the real bindings, between stand-ins for ROS 1 and ROS 2.
#include "props.hpp"
using std::string; using std::vector;
namespace {
const double NAN_ = 7.0e9;
struct T { string name, ns; int type, rows, cols; bool str; };
Plan gen27(Rng& r) {
  Plan p; p.world = "P27"; p.par["stepcap"] = 600000; long tag = 1; int nt = r.chance(0.2) ? 2 : 1; vector<T> t;
  int ros = (int)r.range(1, 2); long queue = r.range(1, 3); bool quiet = r.chance(0.5);
  for (int k = 0; k < nt; k++) { T x{"t", "ns", (int)r.below(4), (int)r.range(1, 5), (int)r.range(1, 5), r.chance(0.15)}; if (k) { if (r.chance(0.5)) x.name = "u"; else x.ns = "nt"; } t.push_back(x); }
  bool pysrv = r.chance(0.3), pyrd = r.chance(0.3); int nr = (int)r.range(1, 2);
  int mode = (int)r.below(6); bool tor2 = mode == 1, other = mode == 2, from2 = mode == 3;   // a new ToRos; a new source of another size with a new ToRos; a new FromRos
  if (other) nt = 1, t.resize(1), t[0].str = false;
  int W = 0, A = 1, B = 2, first_reader = 3; int X = tor2 || other || from2 ? 3 + nr : -1; p.procs.resize(3 + nr + (X >= 0) + (from2 ? 1 : 0));
  auto source = [&](vector<Op>& o, const T& x, int k, bool force) { if (x.str) o.push_back(op("ssrv", {k, x.cols, force, 1, verb(r)}, {x.name, x.ns})); else o.push_back(srv(k, {x.type, 0, x.rows, x.cols}, force, true, x.name, x.ns, verb(r))); o.push_back(op("run", {k})); };
  auto put = [&](vector<Op>& o, const T& x, int k) {
    if (x.str) { Op w = op("swrite", {k, 0, 1}); for (int i = 0; i < x.cols; i++) w.s.push_back(string(1 + (tag * 7 + i) % 9, (char)('a' + tag % 26)) + std::to_string(tag)); tag++; o.push_back(w); }
    else o.push_back(op("write", {k, (long)r.below(4), 0, 0, x.rows, x.cols, tag++}));
  };
  auto tor = [&](const T& x, int k) { return op("tor", {k, x.type, 0, 1, verb(r), ros, queue, x.str}, {x.name, x.ns}); };
  auto fror = [&](const T& x, int k, bool force) { return op("fror", {k, ros, queue, force, verb(r)}, {x.name, x.ns}); };
  long dt = r.logu(2000, 1000000);
  auto some = [&] { return (long)r.next() & 0xffffff; };
  { auto& o = p.procs[W].ops; for (int k = 0; k < nt; k++) { source(o, t[k], k, r.chance(0.2)); sleepy(r, o, 0.2, 2000000); }
    int n = (int)r.range(1, 8); for (int i = 0; i < n; i++) { int k = (int)r.below(nt); put(o, t[k], k); if (r.chance(0.6)) o.push_back(op("sleep", {r.logu(500, dt * 2)})); } }
  auto bridge_out = [&](vector<Op>& o, const vector<T>& t, int base) {
    for (int k = 0; k < (int)t.size(); k++) { o.push_back(tor(t[k], base + k)); if (r.chance(0.9)) o.push_back(op("run", {base + k})); else { o.push_back(op("sleep", {dt})); o.push_back(op("run", {base + k})); } }
    int n = (int)r.range(1, 7); for (int i = 0; i < n; i++) { o.push_back(op("update", {base + (long)r.below(t.size())})); if (r.chance(0.7)) o.push_back(op("sleep", {r.logu(500, dt * 2)})); }
  };
  { auto& o = p.procs[A].ops; if (r.chance(0.3)) o.push_back(op("await", {W, (long)r.range(1, 4), r.logu(1000, 5000000)})); bridge_out(o, t, 0);
    if (r.chance(0.6)) { o.push_back(op("await", {W, 100000, 20000000})); for (int k = 0; k < nt; k++) o.push_back(op("update", {k})); }
    if (tor2 || other) { if (r.chance(0.5)) for (int k = 0; k < nt; k++) o.push_back(op("del", {k})); }
    else { if (r.chance(0.15)) { long k = (long)r.below(nt); o.push_back(op("close", {k})); if (r.chance(0.4)) o.push_back(op("update", {k})); } o.push_back(op("await", {B, 100000, 40000000})); } }
  auto spin = [&](int base) { Op s = op("rspin", {r.chance(0.75) ? 0 : (long)r.range(1, 4), some()}); if (r.chance(0.2)) { s.a.push_back(base + (long)r.below(nt)); s.a.push_back((long)r.range(1, 14)); } return s; };
  auto upd = [&](long h) { Op u = op("update", {h}); if (r.chance(0.25)) { u.a.push_back((long)r.range(1, 12)); u.a.push_back(some()); } return u; };
  auto bridge_in = [&](vector<Op>& o, int base, bool force) {
    for (int k = 0; k < nt; k++) { o.push_back(fror(t[k], base + k, force)); if (r.chance(0.05)) o.push_back(upd(base + k)); }
    if (r.chance(0.04)) { o.push_back(op("close", {base})); return; }
    int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { if (r.chance(0.8)) o.push_back(spin(base)); for (int k = 0; k < nt; k++) if (r.chance(0.8)) { Op u = op("run", {base + k}); if (r.chance(0.2)) { u.a.push_back((long)r.range(1, 40)); u.a.push_back(some()); if (r.chance(0.5)) { u.a[1] = (long)r.range(1, 30); u.a.push_back(1); } } o.push_back(u); } if (r.chance(0.6)) o.push_back(op("sleep", {r.logu(1000, dt * 3)})); }
    o.push_back(op("await", {A, (long)r.range(2, 6), 5000000})); o.push_back(op("rspin", {0, some()})); for (int k = 0; k < nt; k++) o.push_back(op("run", {base + k}));
    n = (int)r.range(2, 9);
    for (int i = 0; i < n; i++) { if (r.chance(0.7)) o.push_back(spin(base)); if (r.chance(0.8)) o.push_back(upd(base + (long)r.below(nt))); if (!quiet && r.chance(0.12)) { o.push_back(op("rlink", {0})); sleepy(r, o, 0.7, dt * 3); if (r.chance(0.3)) o.push_back(upd(base)); o.push_back(op("rlink", {1})); } if (r.chance(0.6)) o.push_back(op("sleep", {r.logu(500, dt * 2)})); if (r.chance(0.04)) o.push_back(op("run", {base + (long)r.below(nt)})); }
  };
  { auto& o = p.procs[B].ops; if (r.chance(0.3)) o.push_back(op("await", {A, (long)r.range(1, 5), 5000000})); bridge_in(o, 0, r.chance(0.3));
    if (r.chance(0.6)) { o.push_back(op("await", {X >= 0 && !from2 ? X : A, X >= 0 && !from2 ? 100000 : (long)p.procs[A].ops.size() - (p.procs[A].ops.back().k == "await"), 30000000})); o.push_back(op("rspin", {0, some()})); for (int k = 0; k < nt; k++) o.push_back(upd(k)); }
    if (!from2 && r.chance(0.15)) { o.push_back(op("await", {first_reader, 100000, 20000000})); long k = (long)r.below(nt); o.push_back(op("close", {k})); if (r.chance(0.5)) o.push_back(upd(k)); if (r.chance(0.3)) o.push_back(op("run", {k})); } }
  auto reader = [&](vector<Op>& o, int k) {
    auto& x = t[k]; string n = x.name + "AAAAAA";
    if (x.str) o.push_back(op("scli", {0, 1, verb(r)}, {n, x.ns})); else o.push_back(cli(0, {x.type, 0, x.rows, x.cols}, true, n, x.ns, verb(r)));
    o.push_back(op("attach", {0})); if (r.chance(0.7)) { if (x.str) o.push_back(op("len", {0})); else { o.push_back(op("nrows", {0})); o.push_back(op("ncols", {0})); } }
    int m = (int)r.range(2, 9); auto get = [&] { if (x.str) o.push_back(op("sread", {0, 0, x.cols, 1})); else o.push_back(op("read", {0, (long)r.below(4), 0, 0, x.rows, x.cols})); };
    for (int j = 0; j < m; j++) { get(); if (r.chance(0.7)) o.push_back(op("sleep", {r.logu(500, dt * 2)})); }
    return get;
  };
  long bops = (long)p.procs[B].ops.size(); if (p.procs[B].ops[bops - 1].k == "close") bops--; if (bops > 1 && p.procs[B].ops[bops - 1].k == "await") bops--;
  for (int i = 0; i < nr; i++) { auto& o = p.procs[first_reader + i].ops; if (r.chance(0.3)) o.push_back(op("await", {B, (long)r.range(1, 8), 20000000})); auto get = reader(o, i % nt); if (r.chance(0.6)) { o.push_back(op("await", {B, bops, 50000000})); for (int j = 0; j < 3; j++) get(); } }
  if (X >= 0) {
    auto& o = p.procs[X].ops;
    if (tor2) { o.push_back(op("await", {A, 100000, -1})); sleepy(r, o, 0.5, dt * 3); bridge_out(o, t, 4); for (int k = 0; k < nt; k++) o.push_back(op("update", {4 + k})); }
    else if (other) { o.push_back(op("await", {A, 100000, -1})); T x = t[0]; do { x.rows = (int)r.range(1, 5); x.cols = (int)r.range(1, 5); } while (x.rows * x.cols == t[0].rows * t[0].cols); if (r.chance(0.3)) x.type = (int)r.below(4); o.push_back(op("await", {W, 100000, -1})); source(o, x, 6, true); put(o, x, 6); bridge_out(o, {x}, 4); put(o, x, 6); o.push_back(op("update", {4})); }
    else { o.push_back(op("await", {B, 100000, -1})); bridge_in(o, 8, true); auto& q = p.procs[X + 1].ops; q.push_back(op("await", {X, 4, 50000000})); reader(q, 0); }
  }
  long py = 0; for (int i = 0; i < (int)p.procs.size(); i++) if (i == A || i == B || i == X || (i == W && pysrv) || (i != W && pyrd)) py |= 1l << i;
  p.par["py"] = py; p.par["nt"] = nt; for (int k = 0; k < nt; k++) { string s = std::to_string(k); p.par["type" + s] = t[k].type; p.par["rows" + s] = t[k].rows; p.par["cols" + s] = t[k].cols; p.par["str" + s] = t[k].str; }
  for (auto& q : p.procs) for (auto& o : q.ops) if (o.k != "sleep" && o.k != "await" && r.chance(0.03)) with(o, "stall", r.logu(1, 60), r.logu(1000, 1500000));
  if (r.chance(0.3)) { auto& q = p.procs[r.below(X >= 0 ? 3 : p.procs.size())]; auto& o = q.ops[r.below(q.ops.size() - 1) + 1]; if (o.k != "await" && o.k != "sleep" && o.k != "rlink") with(o, r.chance(0.85) ? "kill" : "hang", r.logu(1, 60)); }
  return p;
}
string show(const Ev& e, const vector<string>& s) { string t; for (auto& x : s) t += " '" + x + "'"; return evs(e) + " shows" + t; }
vector<Viol> chk27(Run& run) {
  bool dead = fired("kill") || fired("hang"); auto v = basics(run, true);
  if (dead) v.erase(std::remove_if(v.begin(), v.end(), [](const Viol& x) { return x.kind == "livelock"; }), v.end());
  auto bad = [&](const char* k, const Ev& e, const string& t) { v.push_back({k, evs(e) + t}); };
  auto gone = [&](int p) { return sim::gone_seq(p); };
  struct B { const Ev* make; vector<const Ev*> run, upd; uint64_t end = ~0ull; const Ev* close = nullptr; };   // one bridge element
  auto same = [](const Op& a, const Op& b) { return a.s[0] == b.s[0] && a.s[1] == b.s[1]; };
  auto out = [](const B& b) { return b.make->is("tor"); };
  vector<B> bs; std::map<std::pair<int, long>, int> cur;
  std::map<int, vector<std::pair<uint64_t, uint64_t>>> down; std::map<int, const Ev*> isdown;
  for (auto& up : run.ev) {
    Ev& e = *up;
    if (e.done && e.out == 2 && !dead && !(e.is("attach") || e.is("srv") || e.is("ssrv"))) bad("throws", e, " threw: " + e.what);
    if (e.is("tor") || e.is("fror")) { if (e.ok()) { cur[{e.proc, e.hdl()}] = (int)bs.size(); B b; b.make = &e; b.end = gone(e.proc); bs.push_back(b); } continue; }
    if (e.is("rlink")) { if (!e.op->a[0]) { if (!isdown[e.proc]) isdown[e.proc] = &e; } else if (isdown[e.proc]) { down[e.proc].push_back({isdown[e.proc]->inv, e.ret}); isdown[e.proc] = nullptr; } continue; }
    auto i = cur.find({e.proc, e.hdl()}); if (i == cur.end()) continue;
    B& b = bs[i->second];
    if (e.is("run")) b.run.push_back(&e); else if (e.is("update")) b.upd.push_back(&e);
    else if (e.is("close")) { if (!b.close) b.close = &e; }
    else if (e.is("del")) { b.end = std::min(b.end, e.inv); cur.erase(i); }
  }
  for (auto& d : isdown) if (d.second) down[d.first].push_back({d.second->inv, ~0ull});
  auto first_ok = [](const B& b) -> const Ev* { for (auto* e : b.run) if (e->ok()) return e; return nullptr; };
  auto first_run = [](const B& b) -> uint64_t { return b.run.empty() ? ~0ull : b.run[0]->inv; };
  auto link_ok = [&](int p, uint64_t a, uint64_t b) { for (auto& d : down[p]) if (d.first < b && d.second > a) return false; return true; };
  int nt = (int)run.plan->get("nt");
  for (int k = 0; k < nt; k++) {
    string ks = std::to_string(k); int type = (int)run.plan->get("type" + ks), R = (int)run.plan->get("rows" + ks), C = (int)run.plan->get("cols" + ks); bool str = run.plan->get("str" + ks);
    const Ev* src = nullptr; for (auto& e : run.ev) if (e->proc == 0 && e->hdl() == k && (e->is("srv") || e->is("ssrv"))) { src = e.get(); break; }
    if (!src || src->out == 2) continue;
    if (str ? src->op->a[1] != C : src->op->a[3] != R || src->op->a[4] != C) continue;
    const Ev* srun = nullptr; for (auto& e : run.ev) if (e->proc == 0 && e->hdl() == k && e->is("run") && e->ok()) { srun = e.get(); break; }
    // contents of the source
    struct Cnt { vector<string> v; uint64_t inv, ret; bool sure; }; vector<Cnt> c;
    auto words = [&](const Ev& e, bool in) { vector<string> w; if (str) w = in ? e.op->s : e.strs; else for (double d : e.data) w.push_back(d != d ? "nan" : d == NAN_ ? "nan" : fmt("%.16g", d)); return w; };
    size_t n = str ? (size_t)C : (size_t)R * C; bool strange = false;
    for (auto& e : run.ev) {
      if (e->proc == 0 && e->hdl() == k && (e->is("write") || e->is("swrite")) && e->out != 2 && !(e->done && e->out != 1)) { c.push_back({words(*e, true), e->inv, e->ret, e->ok()}); if (c.back().v.size() != n) strange = true; }
      if (e->proc != 0 && (e->is("srv") || e->is("ssrv")) && same(*e->op, *src->op) && e->op->a[3] * e->op->a[4] == R * C) strange = true;
    }
    if (strange) continue;
    vector<B*> to, from; for (auto& b : bs) if (same(*b.make->op, *src->op)) (out(b) ? to : from).push_back(&b);
    auto foreign = [&](const B& b) { for (auto& e : run.ev) if (e->proc == b.make->proc && (e->is("srv") || e->is("ssrv")) && b.make->proc != 0) return true; return false; };
    bool overlap = false, wrong = false; for (size_t i = 0; i < to.size(); i++) { if (foreign(*to[i])) wrong = true; if (to[i]->make->op->a[1] != type && !str) overlap = true; for (size_t j = i + 1; j < to.size(); j++) if (to[j]->make->inv < to[i]->end) overlap = true; }
    for (auto& e : run.ev) if (e->proc != 0 && (e->is("srv") || e->is("ssrv")) && same(*e->op, *src->op)) for (auto* b : to) if (b->make->proc != e->proc && (!first_ok(*b) || first_ok(*b)->ret > e->inv)) overlap = true;   // a bridge that may have met the other source
    for (size_t i = 0; i < from.size(); i++) for (size_t j = i + 1; j < from.size(); j++) if (from[j]->make->inv < from[i]->end) overlap = true;
    for (auto* b : to) if (foreign(*b)) for (auto* f : from) if (!first_ok(*f) || first_ok(*f)->ret > first_run(*b)) overlap = true;   // the mirror may be the other source's
    if (overlap) continue;
    // ---- what run() and update() report
    for (auto* b : to) {
      for (auto* e : b->upd) if (e->done && !dead && e->out == 0 && !b->close && !b->run.empty()) bad("refused", *e, " gave up");
      if (b->close) for (auto* e : b->upd) if (e->inv > b->close->ret && e->ok()) bad("after-close", *e, " reported success after close");
    }
    for (auto* b : from) {
      const Ev* ok = first_ok(*b); int P = b->make->proc;
      std::set<string> got; string base = src->op->s[1] + "/" + src->op->s[0] + "/";
      for (auto& up : run.ev) {
        Ev& e = *up; if (e.proc != P || e.inv < b->make->inv) continue;
        bool mine = e.hdl() == b->make->hdl() && !e.is("rspin");
        if (mine && e.is("run") && e.done) {
          for (auto& s : e.strs) got.insert(s);
          bool all = got.count(base + "NRows") && got.count(base + "NCols") && got.count(base + "DType");
          if (e.ok() && !all) bad("early", e, " reported success before the metadata arrived");
          if (e.ok() && b->close && b->close->ret < e.inv) {}
          else if (e.out == 0 && !dead && ok && ok->ret < e.inv && (!b->close || b->close->inv > e.ret)) bad("refused", e, " reported failure of a running bridge");
          else if (e.out == 0 && !b->close && !dead) {   // everything it needs was published, delivered and not taken
            for (auto* t : to) { const Ev* tr = first_ok(*t); if (!tr || foreign(*t)) continue;
              for (auto& s : run.ev) if (s->proc == P && s->is("rspin") && s->ok() && s->op->a[0] == 0 && s->inv > b->make->ret && s->inv > tr->ret && s->ret < e.inv && t->end > s->ret && link_ok(P, s->inv, s->ret)) { bad("late", e, " reported failure although " + evs(*tr) + " had published the metadata and " + evs(*s) + " delivered it"); goto next; } }
            next:;
          }
          if (e.ok() && !str && e.val != R * 1000 + C && !wrong) bad("shape", e, fmt(": the mirror is %ld x %ld, the tensor %d x %d", e.val / 1000, e.val % 1000, R, C));
        } else for (auto& s : e.strs) got.insert(s);
        if (mine && e.is("update") && e.done) {
          bool before = !ok || ok->inv > e.ret, after = b->close && b->close->ret < e.inv; for (auto* q : b->run) if (b->close && q->ret > b->close->inv) after = false;
          if (e.ok() && (before || after)) bad("not-running", e, before ? " reported success before the bridge ran" : " reported success after close");
          if (e.out == 0 && ok && ok->ret < e.inv && !dead && (!b->close || b->close->inv > e.ret)) bad("refused", e, " gave up");
        }
      }
    }
    if (!v.empty()) return v;
    // ---- the mirror
    string mname = src->op->s[0] + "AAAAAA";
    std::map<std::pair<int, long>, const Ev*> made; struct Rd { const Ev* e; B* b; }; vector<Rd> rds; std::map<std::pair<int, long>, B*> ses; std::map<std::pair<int, long>, bool> none;
    for (auto& up : run.ev) {
      Ev& e = *up; std::pair<int, long> hk{e.proc, e.hdl()};
      if ((e.is("cli") || e.is("scli")) && e.op->s[0] == mname && e.op->s[1] == src->op->s[1]) { made[hk] = &e; continue; }
      if (!made.count(hk)) continue;
      if (e.is("attach")) {
        vector<B*> may; uint64_t first = ~0ull; for (auto* b : from) { uint64_t fr = first_run(*b); first = std::min(first, fr); uint64_t en = std::min<uint64_t>(b->end, b->close ? b->close->ret : ~0ull);
          if (!b->close && b->end == gone(b->make->proc)) { en = ~0ull; for (auto* n : from) if (n != b && n->make->inv > b->end && first_ok(*n)) en = std::min(en, first_ok(*n)->ret); }   // what a process that ended leaves can be attached to until the next one replaces it
          if (fr < e.ret && en > e.inv) may.push_back(b); }
        if (e.ok() && first > e.ret) { bad("nothing-to-show", e, " attached although no FromRos was run yet"); return v; }
        if (e.done && e.out == 2 && !dead && !wrong) bad("throws", e, " threw: " + e.what);
        bool rerun = false; for (auto* b : from) for (auto* q : b->run) if (b->close && q->ret > b->close->inv && q->inv < e.ret) rerun = true;
        if (may.size() == 1 && e.ok() && !rerun) ses[hk] = may[0]; else ses[hk] = nullptr;
        if (!e.done && !dead && may.size() == 1 && first_ok(*may[0]) && !may[0]->close && may[0]->end == ~0ull && !wrong) bad("stuck", e, " never finishes although the mirror exists");
        continue;
      }
      B* b = ses.count(hk) ? ses[hk] : nullptr; if (!b || !e.ok()) continue;
      if (e.is("nrows") && e.val != R && !wrong) bad("shape", e, fmt(" returned %ld", e.val));
      if (e.is("ncols") && e.val != C && !wrong) bad("shape", e, fmt(" returned %ld", e.val));
      if (e.is("len") && e.val != C && !wrong) bad("shape", e, fmt(" returned %ld", e.val));
      if ((e.is("read") || e.is("sread")) && (str ? e.strs.size() : e.data.size()) == n) rds.push_back({&e, b});
    }
    std::map<const Ev*, int> idx;
    for (auto& rd : rds) {
      const Ev& e = *rd.e; B& b = *rd.b; auto w = words(e, false); int P = b.make->proc;
      bool fill = true; for (auto& x : w) if (str ? !x.empty() : x != (type < 2 ? "nan" : "0")) fill = false;
      if (!fill) { bool z = true; for (auto& x : w) if (str ? !x.empty() : x != "0") z = false; fill = z; }
      int prev = -1; const Ev* pe = nullptr; for (auto& q : rds) if (q.b == rd.b && q.e->ret < e.inv && idx.count(q.e) && idx[q.e] > prev) { prev = idx[q.e]; pe = q.e; }
      // the newest content it must show at least
      int low = -1; string how;
      for (auto* t : to) if (!foreign(*t)) for (auto* U : t->upd) if (U->ok()) {
        bool newer = false; for (auto* q : to) for (auto* x : q->run) if (x->inv > U->inv && x->inv < e.ret) newer = true;
        if (newer || U->ret > e.inv || (t->close && t->close->ret < U->inv)) continue;
        int i = -1; for (size_t j = 0; j < c.size(); j++) if (c[j].sure && c[j].ret < U->inv) i = (int)j;
        if (i <= low) continue;
        for (auto& s : run.ev) if (s->proc == P && s->is("rspin") && s->ok() && s->op->a[0] == 0 && s->inv > U->ret && s->ret < e.inv && i > low) {
          bool had = first_ok(b) && first_ok(b)->ret < U->inv && link_ok(P, 0, s->ret), latched = t->end > s->ret && link_ok(P, s->inv, s->ret) && first_ok(b) && first_ok(b)->ret < s->inv;
          if (!had && !latched) continue;
          for (auto* F : b.upd) if (F->ok() && F->inv > s->ret && F->ret < e.inv) { low = i; how = evs(*U) + ", " + evs(*s) + ", " + evs(*F); break; }
        }
      }
      int at = -2; bool again = false; for (auto* q : to) if (q != to[0] && first_run(*q) < e.ret) again = true;
      if (fill && prev < 0 && low < 0) at = -1;
      else if (fill && again && low < 0) continue;
      else for (int j = std::max({prev, low, 0}); j < (int)c.size(); j++) if (c[j].inv < e.ret && c[j].v == w) { at = j; break; }
      if (at == -2) {
        bool was = fill; for (auto& x : c) if (x.v == w && x.inv < e.ret) was = true;
        if (!was) v.push_back({"not-a-content", show(e, w) + ", which the source never contained"});
        else if (low >= 0 && low >= prev) v.push_back({"stale", show(e, w) + ", older than what was carried over by " + how});
        else v.push_back({"went-back", show(e, w) + ", older than what " + evs(*pe) + " showed"});
        return v;
      }
      idx[&e] = at;
    }
    // ---- nothing hangs
    if (run.q.k == sim::Quiescence::Deadlock && !dead) for (auto* b : to) { const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == b->make->proc) last = e.get(); if (last && !last->done && last->hdl() == b->make->hdl() && (last->is("update") || (last->is("run") && srun))) bad("stuck", *last, " never finishes"); }
    if (run.q.k == sim::Quiescence::Deadlock && !dead) for (auto* b : from) { const Ev* last = nullptr; for (auto& e : run.ev) if (e->proc == b->make->proc) last = e.get(); if (last && !last->done && last->hdl() == b->make->hdl() && (last->is("update") || last->is("run"))) bad("stuck", *last, " never finishes"); }
  }
  return v;
}
}
const std::vector<Prop>& props_g() { static std::vector<Prop> v = {{"P27", gen27, chk27}}; return v; }
