// Host for the Matlab (MEX) gateways: implements the part of the C matrix interface that they use.
#include "host.h"
#include "mex.h"
#include <dlfcn.h>
#include <unistd.h>
#include <map>
#include <set>
#include <cstring>
#include <cstdarg>
#include <iostream>
struct mxArray_tag { mxClassID cls; std::vector<size_t> dims; void *data; bool cplx; size_t count() const { size_t n = 1; for (size_t d : dims) n *= d; return n; } };
static size_t elsize(mxClassID c) { return c == mxSINGLE_CLASS ? 4 : c == mxCHAR_CLASS ? 2 : c == mxLOGICAL_CLASS ? 1 : 8; }
namespace { struct MexError { std::string msg; }; }
// what a call has created and Matlab would release when the call ends
static std::set<mxArray *> *arrays; static std::set<void *> *blocks; static bool in_call;
static mxArray *make(mxClassID c, std::vector<size_t> dims, bool cplx) {
  mxArray *a = new mxArray_tag{c, std::move(dims), nullptr, cplx};
  size_t n = a->count() * elsize(c) * (cplx ? 2 : 1);
  a->data = n ? calloc(1, n) : nullptr;
  if (n && !a->data) { delete a; throw MexError{"Out of memory."}; }
  if (in_call) { sim::Harness h; arrays->insert(a); }
  return a;
}
static void drop(mxArray *a) { free(a->data); delete a; }
extern "C" {
size_t mxGetM(const mxArray *a) { return a->dims[0]; }
size_t mxGetN(const mxArray *a) { size_t n = 1; for (size_t i = 1; i < a->dims.size(); i++) n *= a->dims[i]; return n; }
double *mxGetPr(const mxArray *a) { return (double *)a->data; }
void *mxGetData(const mxArray *a) { return a->data; }
mxDouble *mxGetDoubles(const mxArray *a) { return a->cls == mxDOUBLE_CLASS && !a->cplx ? (double *)a->data : nullptr; }
mxComplexDouble *mxGetComplexDoubles(const mxArray *a) { return a->cls == mxDOUBLE_CLASS && a->cplx ? (mxComplexDouble *)a->data : nullptr; }
double mxGetScalar(const mxArray *a) {
  if (!a->count()) return 0;
  switch (a->cls) {
    case mxSINGLE_CLASS: return *(float *)a->data;
    case mxCHAR_CLASS: return *(char16_t *)a->data;
    case mxLOGICAL_CLASS: return *(char *)a->data;
    default: return *(double *)a->data;
  }
}
size_t mxGetNumberOfDimensions(const mxArray *a) { return a->dims.size(); }
const mwSize *mxGetDimensions(const mxArray *a) { return a->dims.data(); }
size_t mxGetNumberOfElements(const mxArray *a) { return a->count(); }
bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray *a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsComplex(const mxArray *a) { return a->cplx; }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { return make(c, {m, n}, x == mxCOMPLEX); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return make(mxDOUBLE_CLASS, {m, n}, x == mxCOMPLEX); }
mxArray *mxCreateString(const char *s) {
  size_t n = strlen(s); mxArray *a = make(mxCHAR_CLASS, {n ? 1u : 0u, n}, false);
  for (size_t i = 0; i < n; i++) ((char16_t *)a->data)[i] = (unsigned char)s[i];
  return a;
}
void mxDestroyArray(mxArray *a) { if (!a) return; { sim::Harness h; if (arrays) arrays->erase(a); } drop(a); }
void mxFree(void *p) { { sim::Harness h; if (blocks) blocks->erase(p); } free(p); }
char *mxArrayToString(const mxArray *a) {
  if (a->cls != mxCHAR_CLASS) return nullptr;
  size_t n = a->count(); char *s = (char *)malloc(n + 1);
  for (size_t i = 0; i < n; i++) s[i] = (char)((char16_t *)a->data)[i];
  s[n] = 0;
  if (in_call) { sim::Harness h; blocks->insert(s); }
  return s;
}
int mxGetString(const mxArray *a, char *s, mwSize len) {
  if (a->cls != mxCHAR_CLASS || !len) return 1;
  size_t n = a->count(), k = std::min(n, len - 1);
  for (size_t i = 0; i < k; i++) s[i] = (char)((char16_t *)a->data)[i];
  s[k] = 0;
  return k < n;
}
bool mxIsEmpty(const mxArray *a) { return !a->count(); }
bool mxIsNumeric(const mxArray *a) { return a->cls == mxDOUBLE_CLASS || a->cls == mxSINGLE_CLASS; }
bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
size_t mxGetElementSize(const mxArray *a) { return elsize(a->cls) * (a->cplx ? 2 : 1); }
float *mxGetSingles(const mxArray *a) { return a->cls == mxSINGLE_CLASS && !a->cplx ? (float *)a->data : nullptr; }
mxArray *mxCreateDoubleScalar(double x) { mxArray *a = make(mxDOUBLE_CLASS, {1, 1}, false); *(double *)a->data = x; return a; }
mxArray *mxDuplicateArray(const mxArray *a) { mxArray *b = make(a->cls, a->dims, a->cplx); if (b->data) memcpy(b->data, a->data, b->count() * mxGetElementSize(b)); return b; }
static void *block(void *p) { if (!p) throw MexError{"Out of memory."}; if (in_call) { sim::Harness h; blocks->insert(p); } return p; }
void *mxMalloc(size_t n) { return block(malloc(n ? n : 1)); }
void *mxCalloc(size_t n, size_t m) { return block(calloc(n ? n : 1, m ? m : 1)); }
void mexErrMsgIdAndTxt(const char *, const char *f, ...) { char t[512]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); throw MexError{t}; }
void mexWarnMsgTxt(const char *m) { fprintf(stderr, "%s\n", m); }
void mexErrMsgTxt(const char *m) { throw MexError{m}; }
int mexPrintf(const char *f, ...) { va_list ap; va_start(ap, f); int n = vprintf(f, ap); va_end(ap); return n; }
}
namespace host {
std::string build_dir;
typedef void (*gw_t)(int, mxArray **, int, const mxArray **);
static std::map<std::string, gw_t> gws;
const char *name() { return "matlab"; }
void init(int, char **) { arrays = new std::set<mxArray *>; blocks = new std::set<void *>; sim::host_interrupt = nullptr; }
bool load(const std::string &fn) {
  if (gws.count(fn)) return true;
  std::string p = build_dir + "/mex/" + fn + ".mexa64";
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); return false; }
  gw_t g = (gw_t)dlsym(h, "mexFunction");
  if (!g) { fprintf(stderr, "no mexFunction in %s\n", p.c_str()); return false; }
  gws[fn] = g;
  sim::add_module_range(p.c_str());
  return true;
}
static mxArray *to_mx(const Val &v) {
  if (v.k == Val::STR) return mxCreateString(v.s.c_str());
  std::vector<size_t> d = {(size_t)v.r, (size_t)v.c}; if (v.p > 0) d.push_back(v.p);
  mxArray *a = make(v.single ? mxSINGLE_CLASS : mxDOUBLE_CLASS, d, false);
  for (size_t i = 0; i < v.d.size(); i++) if (v.single) ((float *)a->data)[i] = (float)v.d[i]; else ((double *)a->data)[i] = v.d[i];
  return a;
}
static Val from_mx(const mxArray *a) {
  Val v; if (!a || a->cplx) return v;
  size_t n = a->count();
  if (a->cls == mxCHAR_CLASS) { std::string s; for (size_t i = 0; i < n; i++) s += (char)((char16_t *)a->data)[i]; return Val::str(s); }
  v.k = Val::MAT; v.single = a->cls == mxSINGLE_CLASS; v.r = a->dims[0]; v.c = a->dims[1]; if (a->dims.size() > 2) v.p = a->dims[2];
  v.d.resize(n);
  for (size_t i = 0; i < n; i++) v.d[i] = v.single ? ((float *)a->data)[i] : ((double *)a->data)[i];
  return v;
}
static std::string read_text() {
  fflush(stdout); std::cout.flush(); std::cerr.flush();
  std::string s;
  off_t n = lseek(1, 0, SEEK_END);
  if (n > 0 && n < (1 << 22)) { s.resize(n); if (pread(1, &s[0], n, 0) < 0) s.clear(); }
  if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
  return s;
}
Res call(const Call &c, const sim::CallFaults &f) {   // runs in Harness scope
  Res r;
  gw_t g = gws[c.fn];
  static bool warm = false;
  if (!warm) { warm = true; std::string s(4000, 0x20); std::cout << s; printf("%s", s.c_str()); read_text(); }
  sim::Stats before = sim::live();
  {
    sim::Guest guest;
    std::vector<mxArray *> in; for (auto &a : c.args) in.push_back(to_mx(a));
    std::vector<mxArray *> out(std::max(c.nout, 1) + 1, nullptr);
    std::string msg; bool ok = false, foreign = false;
    in_call = true;
    sim::call_begin(f);
    try {
      g(c.nout, out.data(), (int)in.size(), (const mxArray **)in.data());
      ok = true;
    } catch (MexError &e) {
      msg = e.msg; if (msg.empty()) msg = "error";
    } catch (std::exception &e) {
      msg = std::string("Unexpected Standard exception from MEX file. ") + e.what();   // Matlab turns these into an error
    } catch (...) {
      msg = "uncaught C++ exception"; foreign = true;
    }
    sim::call_end();
    in_call = false;
    {
      sim::Harness h;
      r.ok = ok; r.foreign = foreign; r.err = msg.c_str();
      r.workers_left = sim::runnable_workers();
      r.steps = sim::call_steps(); r.allocs = sim::alloc_count(); r.wallocs = sim::walloc_count(); r.syncs = sim::sync_count(); r.creates = sim::create_count(); r.first_create = r.creates ? sim::first_create_step() : -1; r.plans = sim::plan_count(); r.cls = sim::cl_count(); r.peak = sim::peak_workers(); sim::worker_steps(&r.wmost, &r.wsum);
      r.sig_step = sim::signal_step(); r.done_step = sim::alive_done_step(); r.handled = sim::handled_signals();
      for (int s = 1; s < 65; s++) r.sig_default[s] = sim::is_default(s);
      if (ok) for (auto a : out) { if (!a) break; r.out.push_back(from_mx(a)); }
      for (auto a : in) r.args.push_back(from_mx(a));
    }
    for (auto a : in) drop(a);
    std::vector<mxArray *> as; std::vector<void *> bs;
    { sim::Harness h; std::set<mxArray *> ca = *arrays; std::set<void *> cb = *blocks; arrays->clear(); blocks->clear(); as.assign(ca.begin(), ca.end()); bs.assign(cb.begin(), cb.end()); }
    for (auto a : as) drop(a);
    for (auto b : bs) free(b);
  }
  if (r.workers_left) sim::drain(20000000);
  sim::Stats after = sim::live();
  r.leak_bytes = after.live_bytes - before.live_bytes; r.leak_blocks = after.live_blocks - before.live_blocks;
  r.text = read_text();
  return r;
}
} // namespace host
