#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <sys/mman.h>
#include <unistd.h>
#include "pyhost.hpp"
#include "sim.hpp"

namespace py = pybind11;
extern "C" PyObject* PyInit_PyEigenIPC();
PyHost* py_host = nullptr;

namespace {
PyThreadState* g_main = nullptr; PyObject* g_mod = nullptr; PyObject* g_call = nullptr;
struct St { PyThreadState* ts = nullptr; void* life = nullptr; bool in = false; };
std::vector<St> g_st; St g_out;

Py_tss_t* life_key() { return &py::detail::get_internals().loader_life_support_tls_key; }
void use(PyThreadState* t) { PyThreadState_Swap(t); PyThread_tss_set(&py::detail::get_internals().tstate, t); }
void go_out() {
  int p = sim::self(); if (p < 0 || p >= (int)g_st.size() || !g_st[p].in) return;
  St& s = g_st[p]; s.life = PyThread_tss_get(life_key()); PyThread_tss_set(life_key(), g_out.life); s.ts = PyThreadState_Get(); use(g_main);
}
void go_in() {
  int p = sim::self(); if (p < 0 || p >= (int)g_st.size() || !g_st[p].in) return;
  St& s = g_st[p]; use(s.ts); PyThread_tss_set(life_key(), s.life);
}
void need(void* p, const char* w) { if (p) return; fprintf(stderr, "python: %s\n", w); PyErr_Print(); _exit(76); }
void start() {
  if (g_main) return;
  PyImport_AppendInittab("PyEigenIPC", &PyInit_PyEigenIPC);
  PyConfig c; PyConfig_InitPythonConfig(&c); c.install_signal_handlers = 0; c.write_bytecode = 0; c.use_hash_seed = 1; c.hash_seed = 0; c.site_import = 1; c.parse_argv = 0;
  PyConfig_SetBytesString(&c, &c.program_name, "python3");
  PyStatus st = Py_InitializeFromConfig(&c); PyConfig_Clear(&c); if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg ? st.err_msg : "?"); _exit(76); }
  g_main = PyThreadState_Get();
  PyObject* path = PySys_GetObject("path"); PyObject* d = PyUnicode_FromString(PYHERE); PyList_Insert(path, 0, d); Py_DECREF(d);
  g_mod = PyImport_ImportModule("pyworld"); need(g_mod, "pyworld does not load");
  { py::module_ m = py::reinterpret_borrow<py::module_>(g_mod); m.attr("gone") = py::cpp_function([](int p) { return sim::gone_seq(p) != ~0ull; }); }
  PyObject* r = PyObject_CallMethod(g_mod, "setup", "s", PYBIND_DIR); need(r, "setup fails"); Py_DECREF(r);
  g_call = PyObject_GetAttrString(g_mod, "call"); need(g_call, "no call");
  (void)py::detail::get_internals(); g_out.life = PyThread_tss_get(life_key());
  sim::switch_out = go_out; sim::switch_in = go_in; sim::auto_lib = true;
}
void begin(int n) { start(); g_st.assign(n, St{}); PyObject* r = PyObject_CallMethod(g_mod, "begin", "i", n); need(r, "begin"); Py_DECREF(r); }
void end() {
  for (auto& s : g_st) if (s.ts && s.in) {   // a process that never came to its end: its frames stay where they are
    _PyStackChunk* c = s.ts->datastack_chunk; s.ts->datastack_chunk = nullptr; s.ts->datastack_top = s.ts->datastack_limit = nullptr;
    while (c) { _PyStackChunk* q = c->previous; munmap(c, c->size); c = q; }
    s.ts->root_cframe.current_frame = nullptr; s.ts->cframe = &s.ts->root_cframe; s.ts->c_tracefunc = nullptr;   // who walks the frames of all threads finds none here
  }
  g_st.clear(); PyObject* r = PyObject_CallMethod(g_mod, "end", nullptr); need(r, "end"); Py_DECREF(r);
}
void enter(int id) { St& s = g_st[id]; s.ts = PyThreadState_New(PyInterpreterState_Main()); s.ts->gilstate_counter = 1; use(s.ts); PyThread_tss_set(life_key(), nullptr); s.in = true; }
void leave(int id) {
  St& s = g_st[id]; s.in = false; PyThreadState_Clear(s.ts); PyThread_tss_set(life_key(), g_out.life); use(g_main); PyThreadState_Delete(s.ts); s.ts = nullptr;
}
void call(int id, const std::string& kind, const std::vector<long>& a, const std::vector<std::string>& s, const std::vector<double>& in, PyRes& out) {
  py::tuple r;
  {
    py::list la, ls, ld; for (long v : a) la.append(v); for (auto& x : s) ls.append(py::bytes(x)); for (double v : in) ld.append(v);
    PyObject* o = PyObject_CallFunction(g_call, "isOOO", id, kind.c_str(), la.ptr(), ls.ptr(), ld.ptr()); need(o, "call fails");
    r = py::reinterpret_steal<py::tuple>(o);
  }
  if (sim::auto_depth()) { fprintf(stderr, "python: library depth %d after %s\n", sim::auto_depth(), kind.c_str()); _exit(76); }
  out.code = r[0].cast<int>(); out.what = r[1].cast<std::string>(); out.val = r[2].cast<long>();
  for (auto v : r[3].cast<py::list>()) out.data.push_back(v.cast<double>());
  for (auto v : r[4].cast<py::list>()) out.strs.push_back(v.cast<py::bytes>());
  out.touched = r[5].cast<int>() != 0; out.frame = r[6].cast<int>() != 0;
}
PyHost host = {begin, end, enter, leave, call};
struct Reg { Reg() { py_host = &host; } } reg;
}
