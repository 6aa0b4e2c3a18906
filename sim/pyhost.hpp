// Bridge between worlds and an embedded Python interpreter that runs the real bindings and wrappers.
#pragma once
#include <string>
#include <vector>
struct PyRes { int code = -1; std::string what; long val = 0; std::vector<double> data; std::vector<std::string> strs; bool touched = false, frame = false; };
struct PyHost {
  void (*begin)(int nprocs);                 // before a run (starts the interpreter the first time)
  void (*end)();                             // after it
  void (*enter)(int id); void (*leave)(int id);   // first and last thing of a simulated process
  void (*call)(int id, const std::string& kind, const std::vector<long>& a, const std::vector<std::string>& s, const std::vector<double>& in, PyRes& r);
};
extern PyHost* py_host;                      // null in builds without Python
