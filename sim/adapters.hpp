// Type-erased access to the library under test. Only plain data crosses this boundary, so that the
// harness never shares a C++ object with the (instrumented) library side.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ad {

struct Out { int code = 0; char what[200] = {0}; long val = 0; };  // code: 0 returned false, 1 done, 2 threw
struct Cfg { const char* name = ""; const char* ns = ""; bool force = false, safe = true, verbose = false; int vlevel = 0; };
// element types: 0 float 1 double 2 int 3 bool; layouts: 0 RowMajor 1 ColMajor
struct Xfer {                      // one transfer
  int mode = 0;                    // 0 whole matrix, 1 block of a larger one, 2 createViewFrom, 3 strided view
  int row = 0, col = 0, r = 1, c = 1;
  const double* in = nullptr;      // write: r*c values, row major
  double* out = nullptr;           // read: r*c values, row major
  bool frame_bad = false;          // bytes of the caller's buffer outside the block changed
  bool touched = false;            // bytes of the block changed (for refused reads)
};

struct Obj { virtual ~Obj() {} };
enum Act { RUN, STOP, CLOSE, ATTACH, DETACH, NCLIENTS, NROWS, NCOLS, ISRUN, LOCK, UNLOCK, SCALAR, LAYOUT, TRIGGER, WACK, WAIT, ACK, WAITACK, LEN };

Obj* make_server(Out&, int type, int layout, int rows, int cols, const Cfg&);
Obj* make_client(Out&, int type, int layout, const Cfg&);
Obj* make_strserver(Out&, int length, const Cfg&);
Obj* make_strclient(Out&, const Cfg&);
Obj* make_producer(Out&, const Cfg&);
Obj* make_consumer(Out&, const Cfg&);
Obj* make_cv(Out&, bool server, const Cfg&);
void destroy(Obj*, Out&);
void act(Obj*, Act, Out&, long a = 0, long b = 0);
void write(Obj*, Out&, Xfer&);
void read(Obj*, Out&, Xfer&);
// strings
void swrite(Obj*, Out&, const std::vector<std::string>& v, int idx, bool list);
void sread(Obj*, Out&, std::vector<std::string>& v, int idx, bool list);
// condition variable: what = lock unlock wait wait_for timedwait timedwait_for one all
void cv(Obj*, Out&, const char* what, long ms, std::function<bool()> pred = nullptr);
}  // namespace ad
