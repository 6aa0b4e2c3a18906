#include <cstring>
#include <functional>
#include <memory>
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Client.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/CondVar.hpp>
#include <EigenIPC/Helpers.hpp>
#include "adapters.hpp"
#include "sim.hpp"

namespace ad {
using namespace EigenIPC;
using VL = Journal::VLevel;
static VL vl(int v) { return v <= 0 ? VL::V0 : v == 1 ? VL::V1 : v == 2 ? VL::V2 : VL::V3; }

template <class F> static void guard(Out& o, F f) {
  sim::Lib lib;
  try { f(); }
  catch (const std::exception& e) { o.code = 2; strncpy(o.what, e.what(), sizeof o.what - 1); }
  catch (...) { o.code = 2; strncpy(o.what, "unknown exception", sizeof o.what - 1); }
}
struct NoInject { NoInject() { sim::no_inject(1); } ~NoInject() { sim::no_inject(-1); } };

template <class S> struct Sentinel { static S v() { return (S)-77; } };
template <> struct Sentinel<bool> { static bool v() { return true; } };

struct TensorObj : Obj {
  virtual void act(Act, Out&) = 0;
  virtual void write(Out&, Xfer&) = 0;
  virtual void read(Out&, Xfer&) = 0;
};

template <class S, int L, class T> struct TBase : TensorObj {
  std::unique_ptr<T> t;
  using Mat = Tensor<S, L>;
  using View = TensorView<S, L>;
  // position of element (i,j) in a buffer with the given strides
  static size_t at(int i, int j, size_t outer, size_t inner) { return L == EigenIPC::RowMajor ? i * outer + j * inner : j * outer + i * inner; }

  void xfer(Out& o, Xfer& x, bool wr) {
    int r = x.r, c = x.c;
    int big_r = r, big_c = c, ro = 0, co = 0; size_t inner = 1, outer, n, base = 0;
    if (x.mode == 1 || x.mode == 2) { big_r = r + 3; big_c = c + 2; ro = 1; co = 1; }
    std::unique_ptr<Mat> mat; S* buf = nullptr; std::unique_ptr<char[]> snap;
    {
      NoInject ni;
      int in_dim = L == EigenIPC::RowMajor ? big_c : big_r, out_dim = L == EigenIPC::RowMajor ? big_r : big_c;
      if (x.mode == 3) { inner = 2; outer = (size_t)in_dim * 2 + 3; n = outer * out_dim; }
      else { outer = in_dim; n = outer * out_dim; }
      if (x.mode == 2) { mat.reset(new Mat(big_r, big_c)); buf = mat->data(); }
      else buf = (S*)malloc(n * sizeof(S) ? n * sizeof(S) : 1);
      base = at(ro, co, outer, inner);
      memset((void*)buf, 0x5B, n * sizeof(S));
      if (std::is_same<S, bool>::value) memset((void*)buf, 1, n * sizeof(S));
      if (wr) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) buf[base + at(i, j, outer, inner)] = (S)x.in[i * c + j];
      snap.reset(new char[n * sizeof(S) + 1]);
      memcpy(snap.get(), buf, n * sizeof(S));
    }
    bool ok = false;
    auto strided = [&]() { return View(buf + base, r, c, DStrides((Eigen::Index)outer, (Eigen::Index)inner)); };
    try {
      if (x.mode == 0) {
        Eigen::Map<Mat> m(buf, r, c); TRef<S, L> ref(m);
        ok = wr ? t->write(ref, x.row, x.col) : t->read(ref, x.row, x.col);
      } else if (x.mode == 1) {
        Eigen::Map<Mat> m(buf, big_r, big_c); TRef<S, L> ref(m.block(ro, co, r, c));
        ok = wr ? t->write(ref, x.row, x.col) : t->read(ref, x.row, x.col);
      } else if (x.mode == 2) {
        View v = [&]() { NoInject ni; return helpers::createViewFrom<S, L>(*mat, ro, co, r, c); }();
        ok = wr ? t->write(v, x.row, x.col) : t->read(v, x.row, x.col);
      } else {
        View v = strided();
        ok = wr ? t->write(v, x.row, x.col) : t->read(v, x.row, x.col);
      }
      o.code = ok ? 1 : 0;
    } catch (const std::exception& e) { o.code = 2; strncpy(o.what, e.what(), sizeof o.what - 1); }
    // what happened to the caller's buffer
    NoInject ni;
    std::unique_ptr<char[]> now(new char[n * sizeof(S) + 1]); memcpy(now.get(), buf, n * sizeof(S));
    std::unique_ptr<bool[]> inside(new bool[n + 1]); memset(inside.get(), 0, n + 1);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) inside[base + at(i, j, outer, inner)] = true;
    for (size_t k = 0; k < n; k++) {
      bool diff = memcmp(now.get() + k * sizeof(S), snap.get() + k * sizeof(S), sizeof(S)) != 0;
      if (!diff) continue;
      if (inside[k] && !wr) x.touched = true; else x.frame_bad = true;
    }
    if (!wr && x.out) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
      S v = buf[base + at(i, j, outer, inner)]; x.out[i * c + j] = (double)v;
      if (std::is_same<S, bool>::value) { unsigned char b; memcpy(&b, (char*)(buf + base + at(i, j, outer, inner)), 1); x.out[i * c + j] = b; }
    }
    if (x.mode != 2) free(buf);
  }
  void write(Out& o, Xfer& x) override { xfer(o, x, true); }
  void read(Out& o, Xfer& x) override { xfer(o, x, false); }
};

template <class S, int L> struct SrvObj : TBase<S, L, Server<S, L>> {
  SrvObj(int rows, int cols, const Cfg& c) { this->t.reset(new Server<S, L>(rows, cols, c.name, c.ns, c.verbose, vl(c.vlevel), c.force, c.safe)); }
  void act(Act a, Out& o) override {
    auto& t = *this->t; o.code = 1;
    switch (a) {
      case RUN: t.run(); break; case STOP: t.stop(); break; case CLOSE: t.close(); break;
      case NCLIENTS: o.val = t.getNClients(); break; case NROWS: o.val = t.getNRows(); break; case NCOLS: o.val = t.getNCols(); break;
      case ISRUN: o.val = t.isRunning(); break; case LOCK: t.dataSemAcquire(); break; case UNLOCK: t.dataSemRelease(); break;
      case SCALAR: o.val = (long)t.getScalarType(); break; case LAYOUT: o.val = t.getMemLayout(); break;
      default: o.code = 2; strcpy(o.what, "bad action");
    }
  }
};
template <class S, int L> struct CliObj : TBase<S, L, Client<S, L>> {
  CliObj(const Cfg& c) { this->t.reset(new Client<S, L>(c.name, c.ns, c.verbose, vl(c.vlevel), c.safe)); }
  void act(Act a, Out& o) override {
    auto& t = *this->t; o.code = 1;
    switch (a) {
      case ATTACH: t.attach(); break; case DETACH: t.detach(); break; case CLOSE: t.close(); break;
      case NROWS: o.val = t.getNRows(); break; case NCOLS: o.val = t.getNCols(); break;
      case ISRUN: o.val = t.isAttached(); break; case LOCK: t.dataSemAcquire(); break; case UNLOCK: t.dataSemRelease(); break;
      case SCALAR: o.val = (long)t.getScalarType(); break; case LAYOUT: o.val = t.getMemLayout(); break;
      default: o.code = 2; strcpy(o.what, "bad action");
    }
  }
};
struct StrObj : Obj {
  virtual void act(Act, Out&) = 0;
  virtual bool w(const std::string&, int) = 0; virtual bool wv(const std::vector<std::string>&, int) = 0;
  virtual bool r(std::string&, int) = 0; virtual bool rv(std::vector<std::string>&, int) = 0;
};
template <class ST> struct StrT : StrObj {
  std::unique_ptr<StringTensor<ST>> t;
  void act(Act a, Out& o) override {
    o.code = 1;
    switch (a) {
      case RUN: case ATTACH: t->run(); break; case CLOSE: t->close(); break; case LEN: o.val = t->getLength(); break;
      case ISRUN: o.val = t->isRunning(); break; case NCLIENTS: o.val = t->getNClients(); break;
      default: o.code = 2; strcpy(o.what, "bad action");
    }
  }
  bool w(const std::string& s, int i) override { return t->write(s, i); }
  bool wv(const std::vector<std::string>& s, int i) override { return t->write(s, i); }
  bool r(std::string& s, int i) override { return t->read(s, i); }
  bool rv(std::vector<std::string>& s, int i) override { return t->read(s, i); }
};
struct ProdObj : Obj { std::unique_ptr<Producer> t; };
struct ConsObj : Obj { std::unique_ptr<Consumer> t; };
struct CvObj : Obj { std::unique_ptr<ConditionVariable> t; std::unique_ptr<ConditionVariable::ScopedLock> l; };

template <class F> static Obj* make(Out& o, F f) { Obj* r = nullptr; guard(o, [&] { r = f(); o.code = 1; }); return r; }

#define SWITCH_TL(EXPR) \
  switch (type * 2 + layout) { \
    case 0: { using S = float; constexpr int L = EigenIPC::RowMajor; return EXPR; } case 1: { using S = float; constexpr int L = EigenIPC::ColMajor; return EXPR; } \
    case 2: { using S = double; constexpr int L = EigenIPC::RowMajor; return EXPR; } case 3: { using S = double; constexpr int L = EigenIPC::ColMajor; return EXPR; } \
    case 4: { using S = int; constexpr int L = EigenIPC::RowMajor; return EXPR; } case 5: { using S = int; constexpr int L = EigenIPC::ColMajor; return EXPR; } \
    case 6: { using S = bool; constexpr int L = EigenIPC::RowMajor; return EXPR; } default: { using S = bool; constexpr int L = EigenIPC::ColMajor; return EXPR; } }

Obj* make_server(Out& o, int type, int layout, int rows, int cols, const Cfg& c) {
  return make(o, [&]() -> Obj* { SWITCH_TL((static_cast<Obj*>(new SrvObj<S, L>(rows, cols, c)))) });
}
Obj* make_client(Out& o, int type, int layout, const Cfg& c) {
  return make(o, [&]() -> Obj* { SWITCH_TL((static_cast<Obj*>(new CliObj<S, L>(c)))) });
}
Obj* make_strserver(Out& o, int length, const Cfg& c) {
  return make(o, [&]() -> Obj* { std::unique_ptr<StrT<StrServer>> p(new StrT<StrServer>); p->t.reset(new StringTensor<StrServer>(length, c.name, c.ns, c.verbose, vl(c.vlevel), c.force, c.safe)); return p.release(); });
}
Obj* make_strclient(Out& o, const Cfg& c) {
  return make(o, [&]() -> Obj* { std::unique_ptr<StrT<StrClient>> p(new StrT<StrClient>); p->t.reset(new StringTensor<StrClient>(c.name, c.ns, c.verbose, vl(c.vlevel), c.safe)); return p.release(); });
}
Obj* make_producer(Out& o, const Cfg& c) {
  return make(o, [&]() -> Obj* { std::unique_ptr<ProdObj> p(new ProdObj); p->t.reset(new Producer(c.name, c.ns, c.verbose, vl(c.vlevel), c.force)); return p.release(); });
}
Obj* make_consumer(Out& o, const Cfg& c) {
  return make(o, [&]() -> Obj* { std::unique_ptr<ConsObj> p(new ConsObj); p->t.reset(new Consumer(c.name, c.ns, c.verbose, vl(c.vlevel))); return p.release(); });
}
Obj* make_cv(Out& o, bool server, const Cfg& c) {
  return make(o, [&]() -> Obj* { std::unique_ptr<CvObj> p(new CvObj); p->t.reset(new ConditionVariable(server, c.name, c.ns, c.verbose, vl(c.vlevel), c.force)); return p.release(); });
}
void destroy(Obj* p, Out& o) { guard(o, [&] { delete p; o.code = 1; }); }
void act(Obj* p, Act a, Out& o, long x, long y) {
  guard(o, [&] {
    if (auto* t = dynamic_cast<TensorObj*>(p)) t->act(a, o);
    else if (auto* s = dynamic_cast<StrObj*>(p)) s->act(a, o);
    else if (auto* q = dynamic_cast<ProdObj*>(p)) {
      o.code = 1;
      switch (a) { case RUN: q->t->run(); break; case CLOSE: q->t->close(); break; case TRIGGER: q->t->trigger(); break;
        case WACK: o.code = q->t->wait_ack_from((int)x, (int)y) ? 1 : 0; break; default: o.code = 2; strcpy(o.what, "bad action"); }
    } else if (auto* c = dynamic_cast<ConsObj*>(p)) {
      o.code = 1;
      switch (a) { case RUN: case ATTACH: c->t->run(); break; case CLOSE: c->t->close(); break; case WAIT: o.code = c->t->wait((int)y) ? 1 : 0; break;
        case ACK: o.code = c->t->ack() ? 1 : 0; break; case WAITACK: { bool pre = x != 0; Out* po = &o; o.code = c->t->wait_and_ack([pre, po]() { po->val = 1; return pre; }, (int)y) ? 1 : 0; break; }
        default: o.code = 2; strcpy(o.what, "bad action"); }
    } else if (auto* v = dynamic_cast<CvObj*>(p)) { o.code = 1; if (a == CLOSE) v->t->close(); }
  });
}
void write(Obj* p, Out& o, Xfer& x) { guard(o, [&] { static_cast<TensorObj*>(p)->write(o, x); }); }
void read(Obj* p, Out& o, Xfer& x) { guard(o, [&] { static_cast<TensorObj*>(p)->read(o, x); }); }
void swrite(Obj* p, Out& o, const std::vector<std::string>& v, int idx, bool list) {
  guard(o, [&] {
    sim::no_inject(1);
    std::vector<std::string> c; for (auto& s : v) c.emplace_back(s.data(), s.size());
    sim::no_inject(-1);
    auto* t = static_cast<StrObj*>(p);
    o.code = (list ? t->wv(c, idx) : t->w(c[0], idx)) ? 1 : 0;
  });
}
void sread(Obj* p, Out& o, std::vector<std::string>& v, int idx, bool list) {
  std::vector<std::string>* got = nullptr;
  guard(o, [&] {
    std::vector<std::string> c; for (auto& s : v) c.emplace_back(s.data(), s.size());
    auto* t = static_cast<StrObj*>(p);
    bool ok = list ? t->rv(c, idx) : t->r(c[0], idx);
    int d = sim::lib_depth(0);           // copy the result with the harness heap
    for (size_t i = 0; i < v.size(); i++) v[i] = i < c.size() ? std::string(c[i].data(), c[i].size()) : std::string("<missing>");
    if (c.size() != v.size()) v.push_back("<size changed>");
    sim::lib_depth(d);
    o.code = ok ? 1 : 0;
  });
  (void)got;
}
void cv(Obj* p, Out& o, const char* what, long ms, std::function<bool()> pred) {
  auto* v = static_cast<CvObj*>(p);
  auto pr = [&]() { int d = sim::lib_depth(0); bool r = pred ? pred() : true; sim::lib_depth(d); return r; };
  guard(o, [&] {
    o.code = 1; std::string w(what);
    if (w == "lock") v->l.reset(new ConditionVariable::ScopedLock(v->t->lock()));
    else if (w == "unlock") { if (v->l) { v->t->unlock(*v->l); v->l.reset(); } }
    else if (w == "wait") v->t->wait(*v->l);
    else if (w == "wait_for") v->t->wait_for(*v->l, pr);
    else if (w == "timedwait") o.code = v->t->timedwait(*v->l, (unsigned)ms) ? 1 : 0;
    else if (w == "timedwait_for") o.code = v->t->timedwait_for(*v->l, (unsigned)ms, pr) ? 1 : 0;
    else if (w == "one") v->t->notify_one();
    else if (w == "all") v->t->notify_all();
    else { o.code = 2; strcpy(o.what, "bad action"); }
  });
}
}  // namespace ad
