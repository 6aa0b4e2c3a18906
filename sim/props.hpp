#pragma once
#include "world.hpp"
#include <algorithm>
#include <cstdarg>
#include <climits>

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
struct Shape { int type, layout, rows, cols; };
Shape rnd_shape(Rng& r, bool big = true);
struct Blk { int row, col, r, c; };
Blk rnd_block(Rng& r, int rows, int cols);
Op rd(Rng& r, long h, const Shape& s);
Op wr(Rng& r, long h, const Shape& s, long& tag);
Op rdw(long h, const Shape& s);                   // whole tensor, plain
Op srv(long h, const Shape& s, bool force, bool safe, const std::string& n = "t", const std::string& ns = "ns", int verb = 0);
Op cli(long h, const Shape& s, bool safe, const std::string& n = "t", const std::string& ns = "ns", int verb = 0);
Op& with(Op& o, const char* kind, long at, long arg = 0);
int verb(Rng& r);
void sprinkle_stalls(Rng& r, Plan& p, double prob);
bool takes_lock(const Op& o);                     // calls that take the data lock on their own
bool fits(const Op& o, int rows, int cols);
std::vector<Viol> basics(Run& run, bool stuck_ok);
bool crashed(const char* kind);
inline uint64_t fired(const char* k) { auto& f = sim::stats().faults; auto i = f.find(k); return i == f.end() ? 0 : i->second; }
std::vector<LOp> lops(const std::vector<const Ev*>& ev, bool include_pending = true);
std::string evs(const Ev& e);

// life of one server handle: creation, running intervals, end
struct SrvLife {
  int proc; long h; std::string key; Shape sh; bool force = false, safe = true; const Ev* create = nullptr; bool ok = false;
  struct R { const Ev* run; uint64_t inv, ret, einv, eret; int64_t t1; bool died = false; }; std::vector<R> runs;  // run call, first and last moment of its end
  uint64_t einv = ~0ull, eret = ~0ull; bool died = false;   // close, destruction or death
  uint64_t first_run() const { return runs.empty() ? ~0ull : runs[0].inv; }
};
// one attachment of one client handle
struct Att { int proc; long h; std::string key; Shape sh; bool safe; const Ev* att; uint64_t inv, ret, dinv, dret; bool sure = true; };
std::vector<SrvLife> lives(Run& run);
std::vector<Att> atts(Run& run);             // successful ones; unfinished ones with sure = false
std::string okey(const Op& o);               // name and namespace
Shape oshape(const Op& o);
// bounds of the number of attachments to one session at some moment in [a,b]
void count_bounds(const std::vector<Att>& at, const std::string& key, uint64_t session_lo, uint64_t session_hi, uint64_t a, uint64_t b, long& lo, long& hi);
const Att* att_of(const std::vector<Att>& at, const Ev& e);   // the attachment e works on
const SrvLife* life_of(const std::vector<SrvLife>& l, const Ev& e);
bool server_up(const std::vector<SrvLife>& l, const std::string& key);   // somebody runs at the end
std::string okey_of(Run& run, const Ev& e);  // name and namespace of the handle e works on

// content of one session from zero; attachments which may belong to another one contribute optional writes
void session_content(Run& run, const std::vector<SrvLife>& l, const std::vector<Att>& at, const SrvLife& s, std::vector<Viol>& v, const char* kind);
bool surely_in(const Att& a, const SrvLife& s, const std::vector<SrvLife>& l);
bool maybe_in(const Att& a, const SrvLife& s, const std::vector<SrvLife>& l);
void sleepy(Rng& r, std::vector<Op>& o, double p, long max = 3000000);
// moments during which somebody may hold the lock of a tensor because of calls of the library
struct Busy { uint64_t a, b; const Ev* e; };
std::vector<Busy> busy(Run& run);
