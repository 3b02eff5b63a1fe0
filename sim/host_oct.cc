#include "host.h"
#include <octave/oct.h>
#include <octave/interpreter.h>
#include <octave/quit.h>
#include <octave/error.h>
#include <octave/ov.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <map>
#include <cstring>
#include <iostream>
namespace host {
std::string build_dir;
static octave::interpreter *interp;
typedef octave_value_list (*gw_t)(const octave_value_list &, int);
static std::map<std::string, gw_t> gws;
const char *name() { return "octave"; }
static void do_int() { octave_interrupt_state = 1; octave_signal_caught = 1; }
void init(int, char **) {
  interp = new octave::interpreter();
  interp->initialize_history(false);
  interp->initialize();
  octave_signal_hook = nullptr;      // the interpreter's own handlers are not installed here
  sim::host_interrupt = do_int;
}
bool load(const std::string &fn) {
  if (gws.count(fn)) return true;
  std::string p = build_dir + "/oct/" + fn + ".oct";
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); return false; }
  std::string sym = "_Z" + std::to_string(fn.size() + 1) + "F" + fn + "RK17octave_value_listi";
  gw_t g = (gw_t)dlsym(h, sym.c_str());
  if (!g) { fprintf(stderr, "no gateway %s\n", sym.c_str()); return false; }
  gws[fn] = g;
  sim::add_module_range(p.c_str());
  return true;
}
static octave_value to_ov(const Val &v) {
  if (v.k == Val::STR) return octave_value(v.s);
  if (v.alt && v.p == 0) {
    long n = v.r * v.c;
    if (v.alt == 1) { boolMatrix m(v.r, v.c); for (long i = 0; i < n; i++) m.fortran_vec()[i] = v.d[i] != 0; return octave_value(m); }
    if (v.alt == 2) { int32NDArray m(dim_vector(v.r, v.c)); for (long i = 0; i < n; i++) m.fortran_vec()[i] = octave_int32(v.d[i]); return octave_value(m); }
    if (v.alt == 3) { ComplexMatrix m(v.r, v.c); for (long i = 0; i < n; i++) m.fortran_vec()[i] = Complex(v.d[i], 1); return octave_value(m); }
    if (v.alt == 4) { Cell c(v.r, v.c); for (long i = 0; i < n; i++) c.fortran_vec()[i] = octave_value(v.d[i]); return octave_value(c); }
    if (v.alt == 5) return octave_value(octave::range<double>(n ? v.d[0] : 0, 1, n ? v.d[0] + (double)n - 1 : -1));
    octave_scalar_map m; m.setfield("a", octave_value(1.0)); return octave_value(m);
  }
  if (v.single) {
    if (v.r == 1 && v.c == 1) return octave_value((float)v.d[0]);
    FloatMatrix m(v.r, v.c);
    for (long i = 0; i < v.r * v.c; i++) m.fortran_vec()[i] = (float)v.d[i];
    return octave_value(m);
  }
  if (v.p > 0) {
    NDArray m(dim_vector(v.r, v.c, v.p));
    memcpy(m.fortran_vec(), v.d.data(), sizeof(double) * v.d.size());
    return octave_value(m);
  }
  if (v.r == 1 && v.c == 1) return octave_value(v.d[0]);
  Matrix m(v.r, v.c);
  if (v.r * v.c) memcpy(m.fortran_vec(), v.d.data(), sizeof(double) * v.r * v.c);
  return octave_value(m);
}
static Val from_ov(const octave_value &o) {
  Val v;
  if (o.is_string()) { v = Val::str(o.string_value()); return v; }
  if (!o.is_defined() || o.iscomplex()) return v;
  if (o.isnumeric() || o.islogical()) {
    if (o.is_single_type()) {
      const FloatMatrix m = o.float_matrix_value();
      v = Val::mat(m.rows(), m.cols()); v.single = true;
      for (long i = 0; i < v.r * v.c; i++) v.d[i] = m.data()[i];
    } else if (o.ndims() > 2) {
      const NDArray m = o.array_value();
      v = Val::mat(m.dims()(0), m.dims()(1)); v.p = m.dims()(2);
      v.d.assign(m.data(), m.data() + m.numel());
    } else {
      const Matrix m = o.matrix_value();
      v = Val::mat(m.rows(), m.cols());
      if (v.r * v.c) memcpy(v.d.data(), m.data(), sizeof(double) * v.r * v.c);
    }
  }
  return v;
}
static std::string read_text() {
  fflush(stdout); std::cout.flush(); std::cerr.flush();
  std::string s;
  off_t n = lseek(1, 0, SEEK_END);
  if (n > 0 && n < (1 << 22)) { s.resize(n); if (pread(1, &s[0], n, 0) < 0) s.clear(); }
  if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
  return s;
}
Res call(const Call &c, const sim::CallFaults &f) {   // runs in Harness scope
  Res r;
  gw_t g = gws[c.fn];
  static bool warm = false;
  if (!warm) { warm = true; std::string s(4000, 0x20); octave_stdout << s; octave_stdout.flush(); std::cout << s; printf("%s", s.c_str()); read_text(); }   // the buffers of the output streams are the runtime's
  sim::Stats before = sim::live();
  {
    sim::Guest guest;
    octave_value_list args;
    for (size_t i = 0; i < c.args.size(); i++) args(i) = to_ov(c.args[i]);
    octave_value_list out;
    std::string msg; bool ok = false, foreign = false;
    sim::call_begin(f);
    try {
      out = g(args, c.nout);
      ok = true;
    } catch (octave::execution_exception &e) {
      msg = e.message();
    } catch (octave::interrupt_exception &) {
      msg = "interrupt";
    } catch (std::bad_alloc &) {
      msg = "out of memory or dimension too large for Octave's index type";
    } catch (std::exception &e) {
      msg = std::string("uncaught C++ exception: ") + e.what(); foreign = true;
    } catch (...) {
      msg = "uncaught C++ exception"; foreign = true;
    }
    sim::call_end();
    octave_interrupt_state = 0; octave_signal_caught = 0;
    sim::Harness h;
    r.ok = ok; r.foreign = foreign; r.err = msg.c_str();
    r.workers_left = sim::runnable_workers();
    r.steps = sim::call_steps(); r.allocs = sim::alloc_count(); r.wallocs = sim::walloc_count(); r.syncs = sim::sync_count(); r.creates = sim::create_count(); r.first_create = r.creates ? sim::first_create_step() : -1; r.plans = sim::plan_count(); r.cls = sim::cl_count(); r.peak = sim::peak_workers(); sim::worker_steps(&r.wmost, &r.wsum);
    r.sig_step = sim::signal_step(); r.done_step = sim::alive_done_step(); r.handled = sim::handled_signals();
    for (int s = 1; s < 65; s++) r.sig_default[s] = sim::is_default(s);
    for (int i = 0; i < out.length(); i++) r.out.push_back(from_ov(out(i)));
    for (int i = 0; i < args.length(); i++) r.args.push_back(from_ov(args(i)));
  }
  if (r.workers_left) sim::drain(20000000);
  sim::Stats after = sim::live();
  r.leak_bytes = after.live_bytes - before.live_bytes; r.leak_blocks = after.live_blocks - before.live_blocks;
  r.text = read_text();
  return r;
}
} // namespace host
