// Language host: runs the real gateway functions of the toolbox.
#pragma once
#include <string>
#include <vector>
#include "core.h"
struct Val {
  enum K { MAT, STR, NONE } k = NONE;
  bool single = false;        // single precision matrix
  int alt = 0;                // Octave: 1 logical, 2 int32, 3 complex, 4 cell array, 5 range, 6 struct; Python: see host_py.cc
  long r = 0, c = 0, p = 0;   // p > 0: three dimensional, p pages
  std::vector<double> d;
  std::string s;
  static Val mat(long r, long c, std::vector<double> v) { Val x; x.k = MAT; x.r = r; x.c = c; x.d = std::move(v); return x; }
  static Val mat(long r, long c) { return mat(r, c, std::vector<double>((size_t)(r * c), 0.0)); }
  static Val num(double v) { return mat(1, 1, {v}); }
  static Val row(std::vector<double> v) { long n = (long)v.size(); return mat(1, n, std::move(v)); }
  static Val col(std::vector<double> v) { long n = (long)v.size(); return mat(n, 1, std::move(v)); }
  static Val str(std::string t) { Val x; x.k = STR; x.s = std::move(t); return x; }
};
struct Res {
  bool ok = false;            // returned normally
  bool typerr = false;        // Python: the arguments did not fit the function
  bool foreign = false;       // a C++ exception that the host does not translate escaped
  std::string err;            // error message
  std::vector<Val> out;
  std::vector<Val> args;      // arguments after the call
  std::string text;           // printed text
  long steps = 0, leak_bytes = 0, leak_blocks = 0;
  long sig_step = -1, done_step = -1, handled = 0;
  bool sig_default[65];
  long workers_left = 0; long ref_leak = 0; long fired[sim::F_NKINDS] = {}; bool faulted = false; bool signal_ignored = false; long allocs = 0, wallocs = 0, syncs = 0, creates = 0, first_create = -1, plans = 0, cls = 0, peak = 0, wmost = 0, wsum = 0;
};
struct Call {
  std::string fn;
  std::vector<Val> args;
  int nout = 1;
  int layout = 0;             // Python: memory layout of the arguments, see host_py.cc
  std::vector<char> scalar;   // Python: arguments passed as plain numbers
  std::vector<char> vec;      // Python: arguments that are vectors of either orientation
};
namespace host {
void init(int argc, char **argv);
bool load(const std::string &fn);       // load the instrumented module providing fn
Res call(const Call &c, const sim::CallFaults &f);
const char *name();
extern std::string build_dir;
}
namespace clsim {                         // simulated OpenCL device (clstub.cc)
void init(const std::string &kernel_dir);
long live();                              // OpenCL objects that were not released
long launches();
long pending();
}
