// Host for the Julia (CxxWrap) gateways: implements the part of the Julia runtime that they use.
#include "host.h"
#include "jlcxx/jlcxx.hpp"
#include <dlfcn.h>
#include <unistd.h>
#include <map>
#include <set>
static jl_datatype_t f64 = {64}, f32 = {32};
static std::set<jl_array_t *> *arrays;      // what the collector would release after the call
static jl_array_t *make(bool single, size_t r, size_t c, int nd) {
  jl_array_t *a = new jl_array_t{nullptr, r * c, (uint16_t)(single ? 4 : 8), r, c, nd};
  a->data = malloc(a->length * a->elsize ? a->length * a->elsize : 1);
  if (!a->data) { delete a; throw std::runtime_error("OutOfMemoryError()"); }
  { sim::Harness h; arrays->insert(a); }
  return a;
}
extern "C" {
jl_datatype_t *jl_float64_type = &f64, *jl_float32_type = &f32;
jl_value_t *jl_apply_array_type(jl_value_t *t, size_t) { return t; }
jl_array_t *jl_alloc_array_2d(jl_value_t *t, size_t r, size_t c) { return make(t == &f32, r, c, 2); }
jl_array_t *jl_alloc_array_1d(jl_value_t *t, size_t r) { return make(t == &f32, r, 1, 1); }
}
namespace host {
std::string build_dir;
const char *name() { return "julia"; }
static std::map<std::string, std::pair<jlcxx::Dims, jlcxx::Method>> fns;
void init(int, char **) { arrays = new std::set<jl_array_t *>; sim::host_interrupt = nullptr; }
bool load(const std::string &fn) {
  if (fns.count(fn)) return true;
  std::string p = build_dir + "/julia/" + fn + (fn == "das" || fn == "das_f" ? "" : ".so");
  if (access(p.c_str(), R_OK)) p = build_dir + "/julia/" + fn + ".so";
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); return false; }
  auto d = (void (*)(jlcxx::Module &))dlsym(h, "define_julia_module");
  if (!d) { fprintf(stderr, "no define_julia_module in %s\n", p.c_str()); return false; }
  jlcxx::Module m; d(m);
  for (auto &x : m.methods) if (x.first == (fn == "das_f" ? "das" : fn)) fns[fn] = x.second;
  if (!fns.count(fn)) { fprintf(stderr, "%s defines no method %s\n", p.c_str(), fn.c_str()); return false; }
  sim::add_module_range(p.c_str());
  return true;
}
static jlcxx::Any to_jl(const Val &v, int nd) {
  jlcxx::Any r;
  if (v.k == Val::STR) { r.str = true; r.s = v.s; return r; }
  if (nd == 0 && v.d.size() == 1) { r.num = true; r.x = v.single ? (float)v.d[0] : v.d[0]; return r; }
  r.a = nd == 1 ? make(v.single, (size_t)v.r * v.c, 1, 1) : make(v.single, v.r, v.c, nd ? nd : 2);
  for (size_t i = 0; i < v.d.size(); i++) if (v.single) ((float *)r.a->data)[i] = (float)v.d[i]; else ((double *)r.a->data)[i] = v.d[i];
  return r;
}
static Val from_jl(const jlcxx::Any &a) {
  if (a.str) return Val::str(a.s);
  if (a.num) return Val::num(a.x);
  Val v; if (!a.a) return v;
  v.k = Val::MAT; v.single = a.a->elsize == 4; v.r = a.a->nrows; v.c = a.a->ncols; v.d.resize(a.a->length);
  for (size_t i = 0; i < v.d.size(); i++) v.d[i] = v.single ? ((float *)a.a->data)[i] : ((double *)a.a->data)[i];
  return v;
}
static std::string read_text() {
  fflush(stdout); std::cout.flush(); std::cerr.flush();
  std::string s;
  off_t n = lseek(1, 0, SEEK_END);
  if (n > 0 && n < (1 << 22)) { s.resize(n); if (pread(1, &s[0], n, 0) < 0) s.clear(); }
  if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
  return s;
}
Res call(const Call &c, const sim::CallFaults &f) {   // runs in Harness scope
  Res r;
  std::string fn = c.fn;
  if (fn == "das" && !c.args.empty() && c.args[0].single) fn = "das_f";
  auto &g = fns[fn];
  static bool warm = false;
  if (!warm) { warm = true; std::string s(4000, 0x20); std::cout << s; printf("%s", s.c_str()); read_text(); }
  sim::Stats before = sim::live();
  {
    sim::Guest guest;
    {
      std::vector<jlcxx::Any> in; for (size_t i = 0; i < c.args.size(); i++) in.push_back(to_jl(c.args[i], i < g.first.nd.size() ? g.first.nd[i] : 2));
      jlcxx::Any out; std::string msg; bool ok = false, foreign = false;
      sim::call_begin(f);
      try { out = g.second(in); ok = true; }
      catch (std::exception &e) { msg = e.what(); if (msg.empty()) msg = "error"; }
      catch (...) { msg = "uncaught C++ exception"; foreign = true; }
      sim::call_end();
      sim::Harness h;
      r.ok = ok; r.foreign = foreign; r.err = msg.c_str();
      r.workers_left = sim::runnable_workers();
      r.steps = sim::call_steps(); r.allocs = sim::alloc_count(); r.wallocs = sim::walloc_count(); r.syncs = sim::sync_count(); r.creates = sim::create_count(); r.first_create = r.creates ? sim::first_create_step() : -1; r.plans = sim::plan_count(); r.cls = sim::cl_count(); r.peak = sim::peak_workers(); sim::worker_steps(&r.wmost, &r.wsum);
      r.sig_step = sim::signal_step(); r.done_step = sim::alive_done_step(); r.handled = sim::handled_signals();
      for (int s = 1; s < 65; s++) r.sig_default[s] = sim::is_default(s);
      if (ok) r.out.push_back(from_jl(out));
      for (size_t i = 0; i < in.size(); i++) {
        Val v = from_jl(in[i]);
        if (c.args[i].k == Val::MAT) { v.r = c.args[i].r; v.c = c.args[i].c; v.single = c.args[i].single; }
        r.args.push_back(v);
      }
      sim::Guest g2; in = std::vector<jlcxx::Any>(); out = jlcxx::Any(); msg = std::string();
    }
    std::vector<jl_array_t *> as; { sim::Harness h; as.assign(arrays->begin(), arrays->end()); arrays->clear(); }
    for (auto a : as) { free(a->data); delete a; }
    { std::vector<jl_array_t *> x; x.swap(as); }
  }
  if (r.workers_left) sim::drain(20000000);
  sim::Stats after = sim::live();
  r.leak_bytes = after.live_bytes - before.live_bytes; r.leak_blocks = after.live_blocks - before.live_blocks;
  r.text = read_text();
  if (!r.ok) r.err += "\n" + r.text;
  return r;
}
} // namespace host
