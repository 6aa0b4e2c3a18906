// P18-P21: string tensors, stop and run, several names, signals
#include "props.hpp"
#include <cerrno>
using std::vector; using std::string;

namespace {
// ---------------------------------------------------------------- P18
string rnd_string(Rng& r, int longp) {
  size_t n; double u = r.unit();
  if (r.chance(longp * 0.01)) { static const long L[] = {1024, 1023, 1022, 1021, 1020, 1019, 1000, 512, 300}; n = L[r.below(9)]; }
  else n = u < 0.1 ? 0 : u < 0.5 ? r.range(1, 5) : r.range(1, 17);
  string s(n, 'x'); double k = r.unit();
  for (auto& c : s) c = k < 0.3 ? (char)('a' + r.below(3)) : k < 0.6 ? (char)r.range(1, 255) : k < 0.8 ? (char)r.range(0x80, 0xff) : (r.chance(0.5) ? (char)0xff : (char)1);
  return s;
}
Plan gen18(Rng& r) {
  Plan p; p.world = "P18"; int L = (int)(r.chance(0.02) ? r.range(7, 40) : r.range(1, 6)), nc = (int)r.range(1, 3); bool solo = r.chance(0.2), safe = solo ? r.chance(0.5) : true;
  int longp = r.chance(0.25) ? 40 : 2; p.par = {{"len", L}, {"solo", solo}, {"horizon_ms", 6000}};
  if (solo) nc = 1;
  p.procs.resize(1 + nc); vector<string> pool; int np = (int)r.range(2, 6); for (int i = 0; i < np; i++) pool.push_back(rnd_string(r, longp));
  for (int i = 0; i < 2; i++) { string s = pool[r.below(pool.size())]; if (s.size() > 1 && r.chance(0.5)) s.resize(s.size() - r.range(1, std::min<long>(4, (long)s.size()))); else if (s.size() < 1020) s += rnd_string(r, 0).substr(0, 4); pool.push_back(s); }
  auto one = [&](bool odd) -> string { if (odd && r.chance(0.5)) return string((size_t)(r.chance(0.6) ? r.range(1025, 1030) : r.range(1031, 3000)), (char)r.range(1, 255)); return pool[r.below(pool.size())]; };
  auto wop = [&](long h) {
    bool odd = r.chance(0.12); int n = r.chance(0.5) ? 1 : (int)r.range(1, L); bool list = n > 1 || r.chance(0.4); long idx = r.range(0, L - n); 
    if (odd && r.chance(0.7)) { double u = r.unit(); if (u < 0.4) idx = -r.range(1, 3); else if (u < 0.8) idx = L - n + r.range(1, 4); else if (list) { n = L + (int)r.range(1, 3); idx = 0; } else idx = L; }
    Op o = op("swrite", {h, idx, list}); for (int i = 0; i < n; i++) o.s.push_back(one(odd)); return o;
  };
  auto rop = [&](long h) {
    bool odd = r.chance(0.08); int n = r.chance(0.4) ? 1 : (int)r.range(1, L); bool list = n > 1 || r.chance(0.4); long idx = r.range(0, L - n);
    if (odd) { if (r.chance(0.4)) idx = -r.range(1, 3); else idx = L - n + r.range(1, 4); }
    return op("sread", {h, idx, n, list});
  };
  bool kills = !solo && r.chance(0.15);
  p.procs[0].ops = {op("ssrv", {0, L, r.chance(0.3), safe, verb(r)}, {"t", "ns"})}; if (r.chance(0.1)) p.procs[0].ops.push_back(wop(0)); p.procs[0].ops.push_back(op("run", {0}));
  if (solo) {
    auto& c = p.procs[1].ops; c = {op("scli", {0, safe, verb(r)}, {"t", "ns"}), op("attach", {0}), op("len", {0})}; p.procs[0].ops.push_back(op("await", {1, 3}));
    int who = 0, n = (int)r.range(3, 10); for (int i = 0; i < n; i++) { auto& o = p.procs[who].ops; int m = (int)r.range(1, 3); for (int j = 0; j < m; j++) o.push_back(r.chance(0.55) ? wop(0) : rop(0)); p.procs[1 - who].ops.push_back(op("await", {who, (long)o.size()})); who = 1 - who; }
  } else {
    for (int i = 0; i <= nc; i++) {
      auto& o = p.procs[i].ops; if (i) { sleepy(r, o, 0.2); o.push_back(op("scli", {0, safe, verb(r)}, {"t", "ns"})); if (r.chance(0.05)) o.push_back(rop(0)); o.push_back(op("attach", {0})); o.push_back(op("len", {0})); }
      int n = (int)r.range(2, 6); double pw = r.chance(0.3) ? 0.9 : r.chance(0.5) ? 0.5 : 0.1;
      for (int j = 0; j < n; j++) { sleepy(r, o, 0.15, 300000); o.push_back(r.chance(pw) ? wop(0) : rop(0)); if (kills && r.chance(0.1)) with(o.back(), r.chance(0.7) ? "kill" : "hang", r.logu(1, 200)); }
      if (i && r.chance(0.3)) { o.push_back(op(r.chance(0.5) ? "close" : "del", {0})); if (r.chance(0.7)) { o.push_back(op("rescli", {0, safe, 0}, {"t", "ns"})); o.push_back(op("attach", {0})); o.push_back(rop(0)); } }
    }
    p.procs[0].ops.push_back(op("awaitall2", {1, 1 + nc})); p.procs[0].ops.push_back(op("sread", {0, 0, L, 1}));
  }
  sprinkle_stalls(r, p, r.chance(0.4) ? 0.15 : 0);
  return p;
}
vector<Viol> chk18(Run& run) {
  auto v = basics(run, fired("kill") || fired("hang")); if (!v.empty()) return v;
  int L = 0; bool safe = true; for (auto& e : run.ev) if (e->is("ssrv")) { L = (int)e->op->a[1]; safe = e->op->a[3]; }
  if (!L) return v;
  auto end = [](const Ev& x) { return x.done ? x.ret : sim::gone_seq(x.proc) != ~0ull && sim::held_sems(x.proc) == 0 ? sim::gone_seq(x.proc) : ~0ull; };
  std::map<std::pair<int, long>, bool> up; std::map<string, double> ids; ids[""] = 0; auto id = [&](const string& s) { auto it = ids.find(s); if (it == ids.end()) it = ids.emplace(s, (double)ids.size()).first; return it->second; };
  vector<LOp> ops; bool overlap = false; const Ev* prev = nullptr;
  for (auto& e : run.ev) {
    auto k = std::make_pair(e->proc, e->hdl());
    if (e->is("len") && e->ok() && up[k] && e->val != L) v.push_back({"length", evs(*e) + fmt(" gives %ld", e->val)});
    if ((e->is("attach") || e->is("run")) && e->ok()) up[k] = true; else if (e->is("close") || e->is("del")) up[k] = false;
    if (e->out == 2 && !e->any_fired && !e->is("swrite") && !e->is("sread")) v.push_back({"error", evs(*e) + " failed: " + e->what});
    bool w = e->is("swrite"); if ((!w && !e->is("sread")) || (e->done && e->out == -1)) continue;
    if (prev && end(*prev) > e->inv) overlap = true; prev = e.get();
    long idx = e->op->a[1], n = w ? (long)e->op->s.size() : e->op->a[2]; bool fit = idx >= 0 && idx + n <= L; if (w) for (auto& s : e->op->s) if (s.size() > 1024) fit = false;
    if (!fit) { if (e->ok()) v.push_back({"accepted", evs(*e) + " does not fit but succeeded"}); else if (!w && e->done) for (auto& s : e->strs) if (s != "<prev>") { v.push_back({"touched", evs(*e) + " was refused but changed the caller's string"}); break; } continue; }
    if (!up[k] && e->ok()) { v.push_back({"accepted", evs(*e) + " succeeded on a handle which is not connected"}); continue; }
    if (e->done && e->out == 2) { v.push_back({"error", evs(*e) + " failed: " + e->what}); continue; }
    if (e->done && e->out == 0) {
      bool excuse = !up[k]; for (auto& x : run.ev) if (x.get() != e.get() && (!x->done || x->out != -1) && takes_lock(*x->op) && x->inv < e->ret && end(*x) > e->inv) excuse = true;
      if (!excuse) v.push_back({"spurious", evs(*e) + " returned false although nobody else used the tensor during the call"}); continue;
    }
    if (!e->done && !w) continue;
    LOp o; o.inv = e->inv; o.ret = e->ret; o.write = w; o.row = 0; o.col = (int)idx; o.r = 1; o.c = (int)n; o.pending = !e->done; o.label = evs(*e);
    for (auto& s : w ? e->op->s : e->strs) { if (!w && s == "<prev>") { v.push_back({"unwritten", evs(*e) + " succeeded but left the caller's string unchanged"}); break; } o.data.push_back(id(s)); }
    if ((long)o.data.size() == n) ops.push_back(o);
  }
  if (!v.empty()) { if (v.size() > 2) v.resize(2); return v; }
  if (!safe && overlap) return v;
  string why; if (!linearizable(1, L, vector<double>(L, 0.0), ops, why)) {
    for (auto& o : ops) if (!o.write) for (double d : o.data) { bool seen = d == 0; for (auto& q : ops) if (q.write) for (double x : q.data) if (x == d) seen = true; if (!seen) for (auto& i : ids) if (i.second == d) { string h; for (size_t q = 0; q < i.first.size() && q < 24; q++) h += fmt("%02x", (unsigned char)i.first[q]); v.push_back({"content", o.label + fmt(" returned a string of %zu bytes nobody wrote: ", i.first.size()) + h}); return v; } }
    v.push_back({"content", why + " (strings are numbered in order of appearance, 0 is the empty one)"});
  }
  return v;
}

// ---------------------------------------------------------------- P19
Plan gen19(Rng& r) {
  Plan p; p.world = "P19"; Shape s = rnd_shape(r, false); long tag = 1; int nc = (int)r.range(0, 3); p.procs.resize(1 + nc); bool safe = r.chance(0.85);
  p.par = {{"rows", s.rows}, {"cols", s.cols}, {"horizon_ms", 12000}};
  auto& S = p.procs[0].ops; S.push_back(srv(0, s, r.chance(0.3), safe, "t", "ns", verb(r)));
  auto some = [&](bool stopped) { int n = (int)r.range(0, 3); for (int j = 0; j < n; j++) { double u = r.unit(); S.push_back(u < 0.35 ? wr(r, 0, s, tag) : u < 0.7 ? rd(r, 0, s) : u < 0.8 ? op("nclients", {0}) : u < 0.9 ? op("isrun", {0}) : op("sleep", {r.logu(1000, 3000000)})); } (void)stopped; };
  if (r.chance(0.5)) some(true); S.push_back(op("run", {0})); int cyc = (int)(r.chance(0.01) ? r.range(6, 40) : r.range(1, 5));
  for (int c = 0; c < cyc; c++) { some(false); S.push_back(op("stop", {0})); if (r.chance(0.1)) S.push_back(op("stop", {0})); some(true); sleepy(r, S, 0.4); S.push_back(op("run", {0})); if (r.chance(0.1)) S.push_back(op("run", {0})); }
  some(false); if (r.chance(0.3)) S.push_back(op("isrun", {0}));
  long last = (long)S.size(); S.push_back(op("awaitall2", {1, 1 + nc})); S.push_back(op("nclients", {0})); S.push_back(rdw(0, s)); S.push_back(op("write", {0, 0, 0, 0, s.rows, s.cols, tag++})); S.push_back(rdw(0, s));
  if (r.chance(0.35)) { if (r.chance(0.5)) S.push_back(op("stop", {0})); S.push_back(op("close", {0})); int n = (int)r.range(1, 4); for (int j = 0; j < n; j++) { double u = r.unit(); S.push_back(u < 0.3 ? wr(r, 0, s, tag) : u < 0.6 ? rd(r, 0, s) : u < 0.75 ? op("isrun", {0}) : u < 0.82 ? op("stop", {0}) : u < 0.9 ? op("run", {0}) : op("close", {0})); } }
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; sleepy(r, o, 0.3); o.push_back(cli(0, s, true, "t", "ns", verb(r))); o.push_back(op("attach", {0})); bool att = true; int n = (int)r.range(2, 8);
    for (int j = 0; j < n; j++) { sleepy(r, o, 0.3); double u = r.unit(); if (u < 0.4) o.push_back(wr(r, 0, s, tag)); else if (u < 0.75) o.push_back(rd(r, 0, s)); else if (u < 0.85) o.push_back(op("nrows", {0})); else { o.push_back(op(att ? "detach" : "attach", {0})); att = !att; } }
    if (!att) o.push_back(op("attach", {0})); if (r.chance(0.6)) { o.push_back(op("await", {0, last})); o.push_back(rd(r, 0, s)); o.push_back(wr(r, 0, s, tag)); } if (r.chance(0.3)) o.push_back(op(r.chance(0.5) ? "detach" : "close", {0}));
  }
  if (!safe) for (int i = 1; i <= nc; i++) { auto& o = p.procs[i].ops; o.erase(std::remove_if(o.begin(), o.end(), [](const Op& x) { return x.k == "write"; }), o.end()); }
  sprinkle_stalls(r, p, r.chance(0.5) ? 0.12 : 0);
  return p;
}
vector<Viol> chk19(Run& run) {
  auto v = basics(run, false); if (!v.empty()) return v;
  auto l = lives(run); auto at = atts(run); if (l.size() != 1) return v;
  const SrvLife& s = l[0]; auto in = busy(run);
  auto running = [&](uint64_t a, uint64_t b) { for (auto& q : s.runs) if (q.ret < a && q.einv > b) return true; return false; };
  for (auto& e : run.ev) {
    if (!e->done || e->out == -1) continue;
    bool x = e->is("read") || e->is("write"), mine = e->proc == s.proc;
    if (mine && e->is("run") && e->inv > s.einv) { if (e->out != 2) v.push_back({"reopened", evs(*e) + " started a closed server"}); continue; }
    if (e->out == 2) { v.push_back({"error", evs(*e) + " failed: " + e->what}); continue; }
    if (e->frame_bad) v.push_back({"effect", evs(*e) + " changed memory around the caller's block"});
    if (mine && e->is("isrun") && e->val != running(e->inv, e->ret)) v.push_back({"state", evs(*e) + fmt(" gives %ld", e->val)});
    if (e->is("nrows") && att_of(at, *e) && e->val != s.sh.rows) v.push_back({"state", evs(*e) + fmt(" gives %ld", e->val)});
    if (e->is("nclients")) { long lo, hi; count_bounds(at, s.key, s.create->inv, ~0ull, e->inv, e->ret, lo, hi); if (e->val < lo || e->val > hi) v.push_back({"count", evs(*e) + fmt(" gives %ld, but %ld to %ld clients are attached", e->val, lo, hi)}); }
    if (!x) continue;
    if (mine && e->ok() && !running(e->inv, e->ret)) v.push_back({"not-refused", evs(*e) + " succeeded on a server which does not run"});
    if (e->out == 0) {
      if (e->touched) v.push_back({"effect", evs(*e) + " was refused but changed the caller's buffer"});
      bool excuse = !running(e->inv, e->ret) || (!mine && !att_of(at, *e)) || !fits(*e->op, s.sh.rows, s.sh.cols);
      for (auto& i : in) if (i.e != e.get() && i.a < e->ret && e->inv < i.b && i.e->proc != e->proc) excuse = true;
      if (!excuse) v.push_back({"broken", evs(*e) + " failed although the server runs and nobody else uses the tensor"});
    }
  }
  if (v.empty()) { bool par = false; if (!s.safe) for (auto& a : run.ev) for (auto& b : run.ev) if (a->proc == 0 && b->proc && a->is("write") && b->is("read") && a->inv < b->ret && b->inv < a->ret) par = true; if (!par) session_content(run, l, at, s, v, "content"); }
  if (v.size() > 2) v.resize(2);
  return v;
}

// ---------------------------------------------------------------- P20
struct Key { string n, ns; bool operator==(const Key& o) const { return n == o.n && ns == o.ns; } };
Key rnd_key(Rng& r) {
  static const char* N[] = {"a", "b", "ab", "ba", "t", "t1", "1t", "T", "t_", "t_dataSem", "t_isSrvrRunning", "tAck", "tTrigger", "tCondVar", "1_1_t", "tensor", "t-1", "t.1", "t 1", "t:1", "Tensor", "t_1"};
  static const char* S[] = {"", "a", "b", "ab", "t", "1", "1_1_", "ns", "ns_", "NS", "n-s", "n.s"};
  Key k{N[r.below(22)], S[r.below(12)]};
  if (r.chance(0.12)) { string w; long n = r.range(8, 130); for (long i = 0; i < n; i++) w += (char)("abcxyzAZ019_"[r.below(12)]); double u = r.unit(); if (u < 0.5) k.n = w + k.n; else if (u < 0.8) k.ns = w + k.ns; else { k.n = w.substr(n / 2) + k.n; k.ns = w.substr(0, n / 2); } }
  return k;
}
Key other_key(Rng& r, const Key& k) {
  for (;;) {
    Key o = rnd_key(r); double u = r.unit();
    if (r.chance(0.2)) { // one character looks alike: case, punctuation
      o = k; string& t = !o.ns.empty() && r.chance(0.4) ? o.ns : o.n; char& c = t[r.below(t.size())]; const string pun = "_-.: ";
      if (isalpha((unsigned char)c)) c = isupper((unsigned char)c) ? tolower(c) : toupper(c); else if (pun.find(c) != string::npos) c = pun[r.below(pun.size())]; else c = c == '0' ? 'O' : '0'; u = 1; } else
    if (k.n.size() + k.ns.size() > 12 && r.chance(0.8)) { o = k; string& t = o.n.size() > o.ns.size() || (!o.n.empty() && r.chance(0.2)) ? o.n : o.ns; double w = r.unit(); if (w < 0.4) t += r.chance(0.5) ? "a" : "b"; else if (w < 0.6) t.pop_back(); else t[r.chance(0.3) ? t.size() - 1 : r.below(t.size())] = 'q'; if (o.n.empty()) o.n = "t"; u = 1; } else
    if (u < 0.35) o.n = k.n; else if (u < 0.55) o.ns = k.ns;
    else if (u < 0.75) { string s = k.ns + k.n; size_t c = r.below(s.size()); o = {s.substr(c), s.substr(0, c)}; }
    else if (u < 0.85) { o = k; o.n += r.chance(0.5) ? "_" : "1"; }
    // the names a channel derives for its own tensors are reserved
    bool res = false; for (auto& x : {std::make_pair(k, o), std::make_pair(o, k)}) if (x.first.ns == x.second.ns) for (auto* suf : {"Trigger", "Ack", "TriggerCond", "AckCond"}) if (x.first.n + suf == x.second.n) res = true;
    if (!(o == k) && !res) return o;
  }
}
Plan gen20(Rng& r) {
  Plan p; p.world = "P20"; p.par = {{"horizon_ms", 4000}}; int ng = r.chance(0.7) ? 1 : 2, na = ng == 2 && r.chance(0.5) ? 0 : (int)r.range(1, 3); vector<Key> keys; keys.push_back(rnd_key(r)); long tag = 1;
  while ((int)keys.size() < ng + (na > 0)) { Key k = other_key(r, keys[r.below(keys.size())]); bool ok = true; for (auto& x : keys) { Key q = k; if (x == k) ok = false; for (auto* suf : {"Trigger", "Ack", "TriggerCond", "AckCond"}) if (x.ns == q.ns && (x.n + suf == q.n || q.n + suf == x.n)) ok = false; } if (ok) keys.push_back(k); }
  for (int g = 0; g < ng; g++) {
    Key k = keys[g]; int kind = (int)r.below(3); int base = (int)p.procs.size(), nc = kind == 2 ? (int)r.range(1, 2) : (int)r.range(1, 2); p.procs.resize(base + 1 + nc); int lp = -1; 
    auto step = [&](int q, Op o) { auto& ops = p.procs[base + q].ops; if (lp >= 0 && lp != q) ops.push_back(op("await", {base + lp, (long)p.procs[base + lp].ops.size()})); ops.push_back(o); lp = q; };
    auto nap = [&](int q) { sleepy(r, p.procs[base + q].ops, 0.4, 5000000); };
    if (kind == 0) {
      Shape s = rnd_shape(r, false); bool force = r.chance(0.4); vector<bool> att(nc + 1, false);
      step(0, srv(0, s, force, true, k.n, k.ns, verb(r))); step(0, op("run", {0})); for (int i = 1; i <= nc; i++) { step(i, cli(0, s, true, k.n, k.ns, verb(r))); step(i, op("attach", {0})); att[i] = true; }
      int n = (int)r.range(4, 14);
      for (int j = 0; j < n; j++) {
        double u = r.unit(); int q = (int)r.range(0, nc); nap(q);
        if (u < 0.3) step(q, wr(r, 0, s, tag)); else if (u < 0.6) step(q, rd(r, 0, s)); else if (u < 0.72) step(0, op("nclients", {0})); else if (u < 0.8) { step(0, op("stop", {0})); nap(0); step(0, op("run", {0})); }
        else if (u < 0.85) { step(q, op("lock", {0, 1})); nap(q); step(q, op("unlock", {0, 1})); }
        else if (u < 0.95) { if (q) { step(q, op(att[q] ? "detach" : "attach", {0})); att[q] = !att[q]; } else step(0, op("isrun", {0})); }
        else { for (int i = 1; i <= nc; i++) if (att[i]) step(i, op("detach", {0})), att[i] = false; step(0, op("del", {0})); nap(0); step(0, srv(0, s, r.chance(0.4), true, k.n, k.ns)); step(0, op("run", {0})); for (int i = 1; i <= nc; i++) step(i, op("attach", {0})), att[i] = true; }
      }
      step(0, rdw(0, s)); step(0, op("nclients", {0}));
    } else if (kind == 1) {
      int L = (int)r.range(1, 4); step(0, op("ssrv", {0, L, r.chance(0.4), 1, verb(r)}, {k.n, k.ns})); step(0, op("run", {0})); for (int i = 1; i <= nc; i++) { step(i, op("scli", {0, 1, verb(r)}, {k.n, k.ns})); step(i, op("attach", {0})); }
      int n = (int)r.range(4, 10); for (int j = 0; j < n; j++) { int q = (int)r.range(0, nc); nap(q); if (r.chance(0.5)) { Op o = op("swrite", {0, r.range(0, L - 1), (long)r.below(2)}); o.s = {rnd_string(r, 0)}; step(q, o); } else step(q, op("sread", {0, 0, L, 1})); }
    } else {
      step(0, op("prod", {0, r.chance(0.4), verb(r)}, {k.n, k.ns})); step(0, op("run", {0})); for (int i = 1; i <= nc; i++) { step(i, op("cons", {0, verb(r)}, {k.n, k.ns})); step(i, op("attach", {0})); }
      int n = (int)r.range(1, 5);
      for (int j = 0; j < n; j++) {
        nap(0); if (r.chance(0.3)) step((int)r.range(1, nc), op("wait", {0, r.range(1, 8)})); step(0, op("trigger", {0}));
        for (int i = 1; i <= nc; i++) { nap(i); step(i, op("wait", {0, (long)(r.chance(0.5) ? 0 : r.range(5, 50))})); if (r.chance(0.3)) step(i, op("wait", {0, r.range(1, 8)})); step(i, op("ack", {0})); }
        nap(0); if (r.chance(0.3)) step(0, op("wack", {0, nc + 1, r.range(1, 8)})); step(0, op("wack", {0, nc, (long)(r.chance(0.5) ? 0 : r.range(5, 50))}));
      }
    }
  }
  p.par["calm"] = (long)p.procs.size();
  for (int a = 0; a < na; a++) {   // anything goes, on another name
    p.procs.emplace_back(); auto& o = p.procs.back().ops; Key k = keys.back(); int n = (int)r.range(3, 12); Shape s = rnd_shape(r, false); string c = "XX"; int slot = 0;
    auto bad = [&](Op x) { double u = r.unit(); if (u < 0.12) with(x, "kill", r.logu(1, 200)); else if (u < 0.17) with(x, "hang", r.logu(1, 200)); else if (u < 0.27) with(x, "sys", r.range(1, 12), r.chance(0.5) ? ENOSPC : ENOMEM); else if (u < 0.32) with(x, "alloc", r.range(1, 6)); else if (u < 0.4) with(x, "eintr", 1, 0); o.push_back(x); };
    if (r.chance(0.5)) o.push_back(op("sleep", {r.logu(1000, 20000000)}));
    for (int j = 0; j < n; j++) {
      sleepy(r, o, 0.4, 5000000); double u = r.unit(); long h = slot ? r.below(slot) : 0;
      if (u < 0.2) bad(srv(slot++, s, r.chance(0.7), r.chance(0.8), k.n, k.ns, verb(r))), o.push_back(op("run", {slot - 1}));
      else if (u < 0.32) bad(cli(slot++, s, true, k.n, k.ns, verb(r))), bad(op("attach", {slot - 1}));
      else if (u < 0.44) bad(op("prod", {slot++, r.chance(0.7), verb(r)}, {k.n, k.ns})), bad(op("run", {slot - 1}));
      else if (u < 0.52) bad(op("cons", {slot++, verb(r)}, {k.n, k.ns})), bad(op("attach", {slot - 1}));
      else if (u < 0.58) bad(op("ssrv", {slot++, r.range(1, 4), r.chance(0.7), 1, verb(r)}, {k.n, k.ns})), bad(op("run", {slot - 1}));
      else if (u < 0.66) bad(op("close", {h})); else if (u < 0.72) bad(op("del", {h})); else if (u < 0.78) bad(wr(r, h, s, tag)); else if (u < 0.82) bad(op("stop", {h})); else if (u < 0.86) bad(op("trigger", {h})); else if (u < 0.9) bad(op("ack", {h})); else if (u < 0.94) bad(op("lock", {h})); else bad(op("detach", {h}));
    }
    // calls a handle of that kind does not have are skipped by name
    std::map<long, string> kd; vector<Op> q; for (auto& x : o) { if (x.k == "srv" || x.k == "cli" || x.k == "prod" || x.k == "cons" || x.k == "ssrv") kd[x.a[0]] = x.k; else if (x.k != "sleep") { string d = kd.count(x.a[0]) ? kd[x.a[0]] : ""; 
      bool ok = x.k == "close" || x.k == "del" || ((x.k == "attach") && (d == "cli" || d == "cons")) || (x.k == "run" && (d == "srv" || d == "prod" || d == "ssrv")) || ((x.k == "write" || x.k == "lock") && (d == "srv" || d == "cli")) || (x.k == "detach" && d == "cli") || (x.k == "stop" && d == "srv") || (x.k == "trigger" && d == "prod") || (x.k == "ack" && d == "cons"); if (!ok) continue; }
      q.push_back(x); }
    o = q;
  }
  sprinkle_stalls(r, p, r.chance(0.3) ? 0.08 : 0);
  return p;
}
// each undisturbed group takes turns, so a sequential model predicts every result
vector<Viol> chk20(Run& run) {
  vector<Viol> v; int calm = (int)run.plan->get("calm");
  auto aux = [](const Ev& e) { return e.is("await") || e.is("sleep") || e.is("awaitall") || e.is("awaitall2"); };
  for (int p = 0; p < calm && p < sim::nprocs(); p++) if (sim::pstate(p) == sim::PS_DEAD) v.push_back({"crash", fmt("P%d died: %s", p, sim::death(p).c_str())});
  if (run.q.k == sim::Quiescence::StepCap || !v.empty()) return v;
  std::map<string, vector<const Ev*>> grp; std::map<int, string> pk;
  for (auto& e : run.ev) { if (e->proc >= calm || aux(*e)) continue; if (!e->op->s.empty() && !e->is("swrite")) { string k = okey(*e->op); if (pk.count(e->proc) && pk[e->proc] != k) return v; pk[e->proc] = k; } if (!pk.count(e->proc)) continue; grp[pk[e->proc]].push_back(e.get()); }
  for (auto& g : grp) {
    bool exists = false, runs = false; Shape sh{}; int L = 0; vector<double> T; vector<string> St; std::map<int, bool> att, made; std::map<int, long> got; long trig = 0, acks = 0, used = 0, trig0 = 0; std::map<int, long> miss; const Ev* prev = nullptr; int locker = -1; char kind = 0; bool stale = false;
    auto bad = [&](const Ev& e, const string& w) { string n = g.first; for (auto& c : n) if (c == '\n') c = '/'; v.push_back({"disturbed", evs(e) + " " + w + " (name " + n + ", no other session of that name)"}); };
    for (auto* e : g.second) {
      if (prev && (!prev->done || prev->ret > e->inv)) break;   // the minimiser has cut the turns
      prev = e; int q = e->proc; bool blocks = false; string want;
      if (e->done && e->out == -1 && !e->is("lock") && !e->is("unlock")) continue;
      if (e->is("srv") || e->is("ssrv") || e->is("prod")) { if (exists) break; kind = e->is("srv") ? 's' : e->is("ssrv") ? 'S' : 'P'; if (e->done && e->out == 2) { bad(*e, "failed: " + e->what); break; } exists = true; runs = false; stale = false; for (auto& a : att) if (a.second) stale = true; if (stale) break; if (kind == 's') { sh = oshape(*e->op); T.assign((size_t)sh.rows * sh.cols, 0); } if (kind == 'S') { L = (int)e->op->a[1]; St.assign(L, ""); } trig = acks = used = 0; }
      else if (e->is("cli") || e->is("scli") || e->is("cons")) { made[q] = true; if (e->out == 2) bad(*e, "failed: " + e->what); }
      else if (e->is("run")) { if (!exists) break; if (e->out == 2 || !e->done) { bad(*e, e->done ? "failed: " + e->what : "never finishes"); break; } runs = true; }
      else if (e->is("stop")) { if (e->out == 2 || !e->done) { bad(*e, "failed"); break; } runs = false; }
      else if (e->is("del") || e->is("close")) { if (locker >= 0) break; if (!e->done || e->out == 2) { bad(*e, e->done ? "failed: " + e->what : "never finishes"); break; } if (made.count(q)) { att[q] = false; if (e->is("del")) made.erase(q); } else { exists = runs = false; for (auto& a : att) if (a.second) stale = true; if (stale) break; } }
      else if (e->is("attach")) { if (!made[q]) break; if (!runs) { if (e->done && e->out == 1 && !att[q]) bad(*e, "succeeded without a server"); break; } if (locker >= 0) break; if (!e->done || e->out != 1) { bad(*e, e->done ? "failed: " + e->what : "never finishes"); break; } if (!att[q]) { att[q] = true; got[q] = trig; if (kind == 'P' && trig) break; } }
      else if (e->is("detach")) { if (locker >= 0) break; if (!e->done || e->out != 1) { bad(*e, "failed"); break; } att[q] = false; }
      else if (e->is("nclients")) { if (locker >= 0) break; long n = 0; for (auto& a : att) n += a.second; if (!e->done || e->out != 1 || e->val != n) bad(*e, e->done ? fmt("gives %ld, %ld clients are attached", e->val, n) : "never finishes"); }
      else if (e->is("isrun")) { bool w = made.count(q) ? (bool)att[q] : runs; if (e->out != 1 || e->val != w) bad(*e, fmt("gives %ld", e->val)); }
      else if (e->is("lock")) { bool can = made.count(q) ? (bool)att[q] : runs; if (!can || locker >= 0) break; if (!e->done || e->out != 1) { bad(*e, e->done ? "failed: " + e->what : "never finishes"); break; } locker = q; }
      else if (e->is("unlock")) { if (locker != q) break; locker = -1; }
      else if (e->is("write") || e->is("read")) {
        bool can = (made.count(q) ? (bool)att[q] : runs) && locker < 0 && fits(*e->op, sh.rows, sh.cols); if (!e->done || e->out != (can ? 1 : 0)) { bad(*e, !e->done ? "never finishes" : can ? "failed" : "succeeded"); break; }
        if (!can) continue; size_t x = 0; for (int i = 0; i < e->op->a[4]; i++) for (int j = 0; j < e->op->a[5]; j++, x++) { double& t = T[(e->op->a[2] + i) * sh.cols + e->op->a[3] + j]; if (e->is("write")) t = e->data[x]; else if (t != e->data[x]) { bad(*e, fmt("found %g instead of %g", e->data[x], t)); i = j = 1 << 20; } }
      } else if (e->is("swrite") || e->is("sread")) {
        bool w = e->is("swrite"); long idx = e->op->a[1], n = w ? (long)e->op->s.size() : e->op->a[2]; bool can = (made.count(q) ? (bool)att[q] : runs) && idx >= 0 && idx + n <= L; if (w) for (auto& s : e->op->s) if (s.size() > 1024) can = false;
        if (!e->done || e->out != (can ? 1 : 0)) { bad(*e, !e->done ? "never finishes" : can ? "failed" : "succeeded"); break; }
        if (can) for (long i = 0; i < n; i++) if (w) St[idx + i] = e->op->s[i]; else if (St[idx + i] != e->strs[i]) { bad(*e, "found another string"); break; }
      } else if (e->is("trigger")) { if (!runs) break; if (e->out != 1) { bad(*e, e->done ? "failed: " + e->what : "never finishes"); break; } trig++; }
      else if (e->is("wait")) { if (!att[q]) break; long ms = e->op->a[1]; if (trig > got[q] + 1) break; bool w = trig > got[q]; blocks = !w && ms <= 0; if (blocks) { if (e->done) bad(*e, "returned without a trigger"); break; } if (!e->done || e->out != w) { bad(*e, !e->done ? "never finishes" : e->out == 2 ? "failed: " + e->what : w ? "missed the trigger" : "received a trigger which was never given"); break; } if (w) got[q]++; }
      else if (e->is("ack")) { if (!att[q]) break; if (e->out != 1) { bad(*e, e->done ? "failed: " + e->what : "never finishes"); break; } acks++; }
      else if (e->is("wack")) { if (!runs) break; long n = e->op->a[1], ms = e->op->a[2]; bool w = acks - used >= n; if (!w && ms <= 0) { if (e->done) bad(*e, "returned without the acknowledgements"); break; } if (!e->done || e->out != w) { bad(*e, !e->done ? "never finishes" : e->out == 2 ? "failed: " + e->what : w ? "missed acknowledgements" : "received acknowledgements which were never given"); break; } if (w) used = acks; }
      if (!v.empty()) break;
    }
    (void)trig0; (void)miss; if (!v.empty()) break;
  }
  return v;
}

// ---------------------------------------------------------------- P21
Plan gen21(Rng& r) {
  Plan p; p.world = "P21"; Shape s = rnd_shape(r, false); long tag = 1; int nc = (int)r.range(1, 3); p.procs.resize(nc + 2); p.par = {{"horizon_ms", 12000}};
  double pf = 0.5; bool stops = r.chance(0.3);
  auto sig = [&](Op o) { if (r.chance(pf)) { int n = r.chance(0.6) ? 1 : (int)r.range(2, 4); for (int i = 1; i <= n; i++) with(o, "eintr", r.chance(0.7) ? i : r.range(1, 8), r.chance(0.3) ? 0 : r.logu(10, 2000000)); } return o; };
  auto locked = [&](vector<Op>& o, long h) { int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) o.push_back(sig(op("lock", {h, 1}))); if (r.chance(0.7)) o.push_back(op("lock", {h, 1})); if (r.chance(0.7)) o.push_back(op("sleep", {r.logu(1000, 5000000)})); o.push_back(op("unlock", {h, 1})); };
  auto& S = p.procs[0].ops; S.push_back(sig(srv(0, s, r.chance(0.3), true, "t", "ns", verb(r)))); S.push_back(srv(0, s, false, true)); S.back().k = "resrv"; S.push_back(sig(op("run", {0}))); S.push_back(op("run", {0}));
  int n = (int)r.range(2, 7);
  for (int j = 0; j < n; j++) { double u = r.unit(); sleepy(r, S, 0.3); if (u < 0.4) { S.push_back(sig(op("nclients", {0}))); if (r.chance(0.5)) S.push_back(op("nclients", {0})); } else if (u < 0.65) locked(S, 0); else if (u < 0.75 && stops) { S.push_back(op("stop", {0})); S.push_back(sig(op("run", {0}))); S.push_back(op("run", {0})); } else S.push_back(r.chance(0.5) ? wr(r, 0, s, tag) : rd(r, 0, s)); }
  for (int i = 1; i <= nc; i++) {
    auto& o = p.procs[i].ops; int m = (int)r.range(1, 3); sleepy(r, o, 0.3);
    for (int h = 0; h < m; h++) {
      o.push_back(cli(h, s, true, "t", "ns", verb(r))); o.push_back(sig(op("attach", {h}))); if (r.chance(0.8)) o.push_back(op("attach", {h}));
      int k = (int)r.range(0, 4); for (int q = 0; q < k; q++) { sleepy(r, o, 0.2); if (r.chance(0.5)) locked(o, h); else o.push_back(r.chance(0.5) ? wr(r, h, s, tag) : rd(r, h, s)); }
      double d = r.unit(); if (d < 0.4) { o.push_back(sig(op("detach", {h}))); if (r.chance(0.7)) o.push_back(op("detach", {h})); if (r.chance(0.3)) o.push_back(sig(op("attach", {h}))); } else if (d < 0.6) o.push_back(sig(op("close", {h}))); else if (d < 0.9) o.push_back(sig(op("del", {h})));
    }
  }
  S.push_back(op("awaitall2", {1, 1 + nc})); S.push_back(op("nclients", {0}));
  sprinkle_stalls(r, p, r.chance(0.5) ? 0.1 : 0);
  p.procs[nc + 1].ops = {op("awaitall", {nc + 1, 10000000000l}), cli(0, s, true), op("attach", {0}), wr(r, 0, s, tag), rd(r, 0, s), op("detach", {0})};
  return p;
}
vector<Viol> chk21(Run& run) {
  auto v = basics(run, true); if (!v.empty()) return v; auto l = lives(run); auto at = atts(run); int n = (int)run.plan->procs.size() - 1;
  struct I { uint64_t a, b; const Ev* e; }; vector<I> in; std::map<std::pair<int, long>, I> open; bool kept = false;
  for (auto& e : run.ev) {
    auto k = std::make_pair(e->proc, e->hdl());
    if (e->is("lock") && e->ok()) { if (open.count(k)) kept = true; open[k] = {e->ret, ~0ull, e.get()}; }
    else if (e->is("unlock") && open.count(k)) { I i = open[k]; i.b = e->inv; in.push_back(i); open.erase(k); }
    else if ((e->is("detach") || e->is("close") || e->is("del") || e->is("attach") || e->is("nclients") || e->is("stop")) && open.count(k)) kept = true;   // its own lock is in the way
    if (e->out == 2 && e->done && !e->any_fired) { bool first = true; for (auto& x : run.ev) if (x.get() != e.get() && x->inv < e->inv && x->proc == e->proc && x->hdl() == e->hdl() && x->any_fired && x->out == 2) first = false; v.push_back({first ? "error" : "not-repeatable", evs(*e) + " failed: " + e->what}); }
    if (e->is("del") && e->done && e->out == 2) v.push_back({"error", evs(*e) + " failed: " + e->what});
  }
  if (!open.empty()) kept = true; for (auto& o : open) in.push_back(o.second);
  if (!v.empty()) { v.resize(1); return v; }
  for (auto& a : in) for (auto& b : in) if (a.a < b.a && b.a < a.b) { v.push_back({"exclusion", evs(*b.e) + " got the lock while " + evs(*a.e) + " held it"}); return v; }
  for (auto& a : in) for (auto& e : run.ev) if ((e->is("read") || e->is("write")) && e->ok() && e->inv > a.a && e->ret < a.b && e->proc != a.e->proc) { v.push_back({"exclusion", evs(*e) + " succeeded while " + evs(*a.e) + " held the lock"}); return v; }
  if (l.empty() || kept) return v;
  const SrvLife& s = l.back(); bool up = s.ok && !s.runs.empty() && s.runs.back().einv == ~0ull && s.runs.back().run->done;
  int alive = 0; for (auto& x : l) alive += x.ok; if (alive > 1) return v;
  for (auto& e : run.ev) if (e->is("nclients") && e->ok()) { long lo, hi; count_bounds(at, s.key, s.create->inv, ~0ull, e->inv, e->ret, lo, hi); if (e->val < lo || e->val > hi) v.push_back({"count", evs(*e) + fmt(" gives %ld, but %ld to %ld clients are attached", e->val, lo, hi)}); }
  if (v.empty()) session_content(run, l, at, s, v, "content");
  if (v.empty() && up) for (auto& e : run.ev) if (!e->done && !e->is("awaitall") && !e->is("awaitall2") && !e->is("await") && sim::pstate(e->proc) != sim::PS_DEAD && sim::pstate(e->proc) != sim::PS_DONE) { v.push_back({"stuck", evs(*e) + " never finishes, it waits for " + sim::waiting_on(e->proc)}); break; }
  if (v.empty() && up) for (auto& x : run.ev) if (x->proc == n && !x->is("awaitall") && x->done && x->out != 1 && x->out != -1) { bool alone = true; for (auto& y : run.ev) if (y->proc != n && y->ret > x->inv && takes_lock(*y->op) && (!y->done || y->out != -1)) alone = false; if (alone) { v.push_back({"locked", evs(*x) + " failed after all calls had returned"}); break; } }
  if (v.size() > 2) v.resize(2);
  return v;
}
}  // namespace

const vector<Prop>& props_e() { static vector<Prop> v = {{"P18", gen18, chk18}, {"P19", gen19, chk19}, {"P20", gen20, chk20}, {"P21", gen21, chk21}}; return v; }
