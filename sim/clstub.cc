// Simulated OpenCL 1.2 platform: one device whose kernels are the toolbox's own
// OpenCL sources compiled to native code. Work-items run in a seeded order and
// interleaving, commands complete when the queue says so, and any call can fail.
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include "core.h"
#include <dlfcn.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <set>
#include <algorithm>
using namespace sim;
extern "C" void *sim_memcpy(void *, const void *, size_t);
extern "C" void *sim_memset(void *, int, size_t);

namespace {
enum { K_CTX = 1, K_QUEUE, K_PROG, K_KERN, K_MEM, K_EVENT };
const char *kname[] = {"", "context", "command queue", "program", "kernel", "buffer", "event"};
struct KFn { std::string sig; void (*fn)(uint64_t *); };
struct Lib { bool ok = false; std::string log; std::map<std::string, KFn> k; };
struct Obj {
  void *dispatch = nullptr; int kind; int ref = 1, in = 0; Obj *up = nullptr;
  // program
  std::string src; Lib *lib = nullptr; bool built = false; std::string log;
  // kernel
  KFn k; std::string name; std::vector<uint64_t> arg; std::vector<Obj *> mem; std::vector<char> set;
  // buffer
  char *p = nullptr; size_t n = 0; cl_mem_flags flags = 0;
};
struct Cmd { int t; Obj *kern = nullptr; std::vector<uint64_t> arg; std::vector<Obj *> mem; KFn k; size_t gs = 0, ls = 0, off = 0; Obj *m = nullptr; size_t o = 0, n = 0; void *h = nullptr; };
struct Plat { void *dispatch = nullptr; int x = 1; } plat; struct Dev { void *dispatch = nullptr; int x = 2; } dev;
std::set<Obj *> *objs; std::vector<Cmd> *queue_; std::map<std::string, Lib *> *libs;
std::string *dir_;
Rng *crng;
long n_launch = 0;
Rng &cr() { if (!crng) crng = new Rng(mix(run_seed(), 0x0c1)); return *crng; }
const size_t MAX_ALLOC = 1ull << 28, MAX_WG = 256;

std::string fnv(const std::string &s) { uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; char b[32]; snprintf(b, sizeof b, "%016lx", (unsigned long)h); return b; }
Lib *open_lib(const std::string &h) {
  std::string b = *dir_ + "/" + h; struct stat st;
  if (!stat((b + ".err").c_str(), &st)) { Lib *l = new Lib; std::ifstream f(b + ".err"); std::stringstream ss; ss << f.rdbuf(); l->log = ss.str(); return l; }
  if (stat((b + ".so").c_str(), &st)) return nullptr;
  void *so = dlopen((b + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!so) { fprintf(stderr, "cannot load kernels: %s\n", dlerror()); return nullptr; }
  Lib *l = new Lib; l->ok = true;
  std::ifstream f(b + ".txt"); std::string line;
  while (std::getline(f, line)) { std::istringstream is(line); std::string n, s; is >> n >> s; KFn k; k.sig = s; k.fn = (void (*)(uint64_t *))dlsym(so, ("simk_" + n).c_str()); if (k.fn) l->k[n] = k; }
  add_module_range((b + ".so").c_str());
  return l;
}
Lib *find_lib(std::string src) {
  while (!src.empty() && !src.back()) src.pop_back();
  std::string h = fnv(src);
  if (libs->count(h)) return (*libs)[h];
  Lib *l = open_lib(h);
  if (!l) { // a source text that was not known when the simulator was built
    mkdir(dir_->c_str(), 0777);
    std::string f = *dir_ + "/tmp" + std::to_string(getpid()) + ".src";
    { std::ofstream o(f, std::ios::binary); o << src; }
    pid_t c = fork();
    if (!c) { std::string s = *dir_ + "/../../sim/clk.py"; const char *e = getenv("SIM_CLK"); execlp("python3", "python3", e ? e : s.c_str(), dir_->c_str(), f.c_str(), (char *)0); _exit(127); }
    int stt; while (waitpid(c, &stt, 0) < 0 && errno == EINTR) {}
    unlink(f.c_str());
    l = open_lib(h);
    if (!l) { fprintf(stderr, "simulator error: cannot build a kernel\n"); _exit(2); }
  }
  (*libs)[h] = l; return l;
}
Obj *mk(int kind, Obj *up) { Obj *o = new Obj; o->kind = kind; o->up = up; if (up) up->in++; objs->insert(o); return o; }
void drop(Obj *o) {
  if (o->ref > 0 || o->in > 0) return;
  objs->erase(o);
  if (o->kind == K_MEM) { Guest g; free(o->p); }
  Obj *u = o->up; int kind = o->kind; o->kind = -kind;   // the handle stays recognisable
  if (u) { u->in--; drop(u); }
}
template <class H> Obj *get(H h, int kind, const char *fn) {
  Obj *o = (Obj *)h;
  if (!o) return nullptr;
  if (!objs->count(o)) violation("opencl-misuse", "%s was called with a handle that is no longer valid or never was", fn);
  if (o->kind != kind) violation("opencl-misuse", "%s was called with a %s instead of a %s", fn, kname[o->kind], kname[kind]);
  if (o->ref <= 0 && o->in <= 0) violation("opencl-misuse", "%s was called with a released %s", fn, kname[kind]);
  return o;
}
cl_int code(std::initializer_list<cl_int> l) { return l.begin()[cr().below(l.size())]; }

// ---------------------------------------------------------------- work-items
struct Lane { ucontext_t c; long item = -1; bool live = false; char *stk = nullptr; };
const int NL = 8; const size_t LSTK = 256 << 10;
Lane *lanes; ucontext_t lmain; int lcur = -1, nlanes = 0; size_t lnext, ltotal; std::vector<size_t> *lorder; uint64_t *larg; void (*lfn)(uint64_t *);
long lcount = 0; const Cmd *lcmd; size_t lsz = 1; Rng lr(1); uint64_t lsig = 0;
void lane_pick() { // switch to another live lane (or main when none)
  int me = lcur, l[NL], n = 0;
  for (int i = 0; i < nlanes; i++) if (lanes[i].live) l[n++] = i;
  if (!n) { lcur = -1; if (me >= 0) setcontext(&lmain); return; }
  int to = l[lr.below(n)];
  if (to == me) return;
  lsig = mix(lsig, (uint64_t)to * 131 + (uint64_t)lanes[to].item + 1);
  lcur = to;
  if (me >= 0) swapcontext(&lanes[me].c, &lanes[to].c); else swapcontext(&lmain, &lanes[to].c);
}
void lane_main() {
  while (lnext < ltotal) { lanes[lcur].item = (long)(*lorder)[lnext++]; lfn(larg); }
  lanes[lcur].live = false;
  lane_pick();
  _exit(3);
}
void lane_tick() {
  if (lcur < 0 || --lcount > 0) return;
  lcount = 1 + (long)lr.below(40);
  if (nlanes > 1) lane_pick();
}
void run_kernel(Cmd &c) {
  lr = Rng(mix(run_seed(), 0x1a9e + n_launch++));
  if (!lanes) { lanes = new Lane[NL]; for (int i = 0; i < NL; i++) lanes[i].stk = (char *)mmap(nullptr, LSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  if (!lorder) lorder = new std::vector<size_t>;
  lorder->clear(); for (size_t i = 0; i < c.gs; i++) lorder->push_back(c.off + i);
  int ord = (int)lr.below(3);
  if (ord == 1) std::reverse(lorder->begin(), lorder->end());
  if (ord == 2) for (size_t i = c.gs; i > 1; i--) std::swap((*lorder)[i - 1], (*lorder)[lr.below(i)]);
  lcmd = &c; lsz = c.ls; larg = c.arg.data(); lfn = c.k.fn; lnext = 0; ltotal = c.gs; lcount = 1;
  nlanes = (int)std::min<size_t>(c.gs, 1 + lr.below(NL));
  for (size_t i = 0; i < c.mem.size(); i++) if (c.mem[i]) c.arg[i] = (uint64_t)c.mem[i]->p;
  for (int i = 0; i < nlanes; i++) {
    getcontext(&lanes[i].c); lanes[i].c.uc_stack.ss_sp = lanes[i].stk; lanes[i].c.uc_stack.ss_size = LSTK; lanes[i].c.uc_link = &lmain;
    makecontext(&lanes[i].c, lane_main, 0); lanes[i].live = true;
  }
  lane_hook = lane_tick;
  { Guest g; lane_pick(); }
  lane_hook = nullptr; lcur = -1;
  note(0xC2000000ull + c.gs);
  interleaved(lsig, nlanes);
}
void exec(Cmd &c) {
  if (c.t == 0) run_kernel(c);
  else { Guest g; if (c.t == 1) sim_memcpy(c.m->p + c.o, c.h, c.n); else sim_memcpy(c.h, c.m->p + c.o, c.n); }
  for (Obj *o : c.mem) if (o) { o->in--; drop(o); }
  if (c.m) { c.m->in--; drop(c.m); }
  if (c.kern) { c.kern->in--; drop(c.kern); }
}
void flush_queue() { while (!queue_->empty()) { Cmd c = (*queue_)[0]; queue_->erase(queue_->begin()); exec(c); } }
void submit(Cmd &c) {
  for (Obj *o : c.mem) if (o) o->in++;
  if (c.m) c.m->in++;
  if (c.kern) c.kern->in++;
  queue_->push_back(c);
  if (cr().p(0.3)) flush_queue();
}
void setup() { if (!objs) { objs = new std::set<Obj *>; queue_ = new std::vector<Cmd>; } if (!libs) libs = new std::map<std::string, Lib *>; if (!dir_) dir_ = new std::string("."); }
struct Api { Harness h; Api(const char *fn) { setup(); for (const char *p = fn; *p; p++) note((uint64_t)*p); } };
template <class T> cl_int info(T v, size_t n, void *p, size_t *r) { if (r) *r = sizeof v; if (p) { if (n < sizeof v) return CL_INVALID_VALUE; memcpy(p, &v, sizeof v); } return CL_SUCCESS; }
cl_int infos(const std::string &v, size_t n, void *p, size_t *r) { if (r) *r = v.size() + 1; if (p) { if (n < v.size() + 1) return CL_INVALID_VALUE; memcpy(p, v.c_str(), v.size() + 1); } return CL_SUCCESS; }
cl_int release(void *h, int kind, const char *fn) {
  Api a(fn); Obj *o = get(h, kind, fn);
  static const cl_int bad[] = {0, CL_INVALID_CONTEXT, CL_INVALID_COMMAND_QUEUE, CL_INVALID_PROGRAM, CL_INVALID_KERNEL, CL_INVALID_MEM_OBJECT, CL_INVALID_EVENT};
  if (!o) return bad[kind];
  if (o->ref <= 0) violation("opencl-misuse", "%s was called with a released %s", fn, kname[kind]);
  if (kind == K_QUEUE && o->ref == 1) flush_queue();
  o->ref--; drop(o); return CL_SUCCESS;
}
cl_int retain(void *h, int kind, const char *fn) { Api a(fn); Obj *o = get(h, kind, fn); if (!o) return CL_INVALID_VALUE; o->ref++; return CL_SUCCESS; }
template <class T> T err(cl_int *e, cl_int c) { if (e) *e = c; return nullptr; }
cl_event mkev(cl_event *e) { if (e) *e = (cl_event)mk(K_EVENT, nullptr); return nullptr; }
} // namespace

namespace clsim {
void init(const std::string &d) {
  setup(); *dir_ = d;
  if (DIR *q = opendir(d.c_str())) { while (dirent *e = readdir(q)) { std::string n = e->d_name; if (n.size() == 19 && n.substr(16) == ".so") { std::string h = n.substr(0, 16); if (Lib *l = open_lib(h)) (*libs)[h] = l; } } closedir(q); }
}
long live() { setup(); Harness h; long n = 0; for (Obj *o : *objs) { (void)o; n++; } return n; }
long launches() { return n_launch; }
long pending() { return queue_ ? (long)queue_->size() : 0; }
}
#define E extern "C" __attribute__((visibility("default")))
#define FAILS cl_should_fail()
#define YIELD sync_yield(40)
// ---------------------------------------------------------------- platform, device
E cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *np) {
  YIELD; Api a(__func__);
  if ((n == 0 && p) || (!p && !np)) return CL_INVALID_VALUE;
  if (FAILS) { if (cr().p(0.5)) return -1001; if (np) *np = 0; return cr().p(0.5) ? CL_SUCCESS : CL_OUT_OF_HOST_MEMORY; }
  if (p) p[0] = (cl_platform_id)&plat;
  if (np) *np = 1;
  return CL_SUCCESS;
}
E cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); if ((void *)p != &plat) return CL_INVALID_PLATFORM; if (FAILS) return CL_OUT_OF_HOST_MEMORY;
  switch (w) { case CL_PLATFORM_PROFILE: return infos("FULL_PROFILE", n, v, r); case CL_PLATFORM_VERSION: return infos("OpenCL 1.2 sim", n, v, r); case CL_PLATFORM_NAME: case CL_PLATFORM_VENDOR: return infos("simulated", n, v, r); case CL_PLATFORM_EXTENSIONS: return infos("", n, v, r); }
  return CL_INVALID_VALUE;
}
E cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *nd) {
  YIELD; Api a(__func__);
  if ((void *)p != &plat) return CL_INVALID_PLATFORM;
  if ((n == 0 && d) || (!d && !nd)) return CL_INVALID_VALUE;
  if (FAILS) return code({CL_DEVICE_NOT_FOUND, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  if (!(t & (CL_DEVICE_TYPE_GPU | CL_DEVICE_TYPE_DEFAULT))) return CL_DEVICE_NOT_FOUND;
  if (d) d[0] = (cl_device_id)&dev;
  if (nd) *nd = 1;
  return CL_SUCCESS;
}
E cl_int clGetDeviceInfo(cl_device_id d, cl_device_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); if ((void *)d != &dev) return CL_INVALID_DEVICE; if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  switch (w) {
    case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: case CL_DRIVER_VERSION: case CL_DEVICE_PROFILE: return infos("simulated", n, v, r);
    case CL_DEVICE_VERSION: return infos("OpenCL 1.2 sim", n, v, r); case CL_DEVICE_OPENCL_C_VERSION: return infos("OpenCL C 1.2 sim", n, v, r);
    case CL_DEVICE_EXTENSIONS: return infos("cl_khr_fp64", n, v, r);
    case CL_DEVICE_TYPE: return info<cl_device_type>(CL_DEVICE_TYPE_GPU, n, v, r);
    case CL_DEVICE_MAX_COMPUTE_UNITS: return info<cl_uint>(8, n, v, r); case CL_DEVICE_MAX_CLOCK_FREQUENCY: return info<cl_uint>(1000, n, v, r);
    case CL_DEVICE_GLOBAL_MEM_SIZE: return info<cl_ulong>(1ull << 30, n, v, r); case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return info<cl_ulong>(MAX_ALLOC, n, v, r);
    case CL_DEVICE_LOCAL_MEM_SIZE: return info<cl_ulong>(32768, n, v, r); case CL_DEVICE_AVAILABLE: case CL_DEVICE_COMPILER_AVAILABLE: return info<cl_bool>(CL_TRUE, n, v, r);
    case CL_DEVICE_MAX_WORK_GROUP_SIZE: return info<size_t>(MAX_WG, n, v, r); case CL_DEVICE_DOUBLE_FP_CONFIG: return info<cl_device_fp_config>(63, n, v, r);
    case CL_DEVICE_PLATFORM: return info<cl_platform_id>((cl_platform_id)&plat, n, v, r); case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: return info<cl_uint>(3, n, v, r);
    case CL_DEVICE_MAX_WORK_ITEM_SIZES: { struct { size_t x[3]; } z = {{MAX_WG, MAX_WG, MAX_WG}}; return info(z, n, v, r); }
  }
  return CL_INVALID_VALUE;
}
E cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
E cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
// ---------------------------------------------------------------- context, queue
E cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void(CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *e) {
  YIELD; Api a(__func__);
  if (!d || !n) return err<cl_context>(e, CL_INVALID_VALUE);
  for (cl_uint i = 0; i < n; i++) if ((void *)d[i] != &dev) return err<cl_context>(e, CL_INVALID_DEVICE);
  if (FAILS) return err<cl_context>(e, code({CL_DEVICE_NOT_AVAILABLE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}));
  if (e) *e = CL_SUCCESS;
  return (cl_context)mk(K_CTX, nullptr);
}
E cl_context clCreateContextFromType(const cl_context_properties *pr, cl_device_type t, void(CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *e) {
  YIELD; Api a(__func__);
  if (pr) for (; *pr; pr += 2) if (*pr == CL_CONTEXT_PLATFORM && (void *)pr[1] != &plat) return err<cl_context>(e, CL_INVALID_PLATFORM);
  if (!(t & (CL_DEVICE_TYPE_GPU | CL_DEVICE_TYPE_DEFAULT))) return err<cl_context>(e, CL_DEVICE_NOT_FOUND);
  if (FAILS) return err<cl_context>(e, code({CL_DEVICE_NOT_FOUND, CL_DEVICE_NOT_AVAILABLE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}));
  if (e) *e = CL_SUCCESS;
  return (cl_context)mk(K_CTX, nullptr);
}
E cl_int clGetContextInfo(cl_context c, cl_context_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); Obj *o = get(c, K_CTX, __func__); if (!o) return CL_INVALID_CONTEXT; if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  switch (w) { case CL_CONTEXT_DEVICES: return info<cl_device_id>((cl_device_id)&dev, n, v, r); case CL_CONTEXT_NUM_DEVICES: return info<cl_uint>(1, n, v, r); case CL_CONTEXT_REFERENCE_COUNT: return info<cl_uint>(o->ref, n, v, r); }
  return CL_INVALID_VALUE;
}
E cl_int clRetainContext(cl_context c) { return retain(c, K_CTX, __func__); }
E cl_int clReleaseContext(cl_context c) { return release(c, K_CTX, __func__); }
E cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties, cl_int *e) {
  YIELD; Api a(__func__); Obj *o = get(c, K_CTX, __func__);
  if (!o) return err<cl_command_queue>(e, CL_INVALID_CONTEXT);
  if ((void *)d != &dev) return err<cl_command_queue>(e, CL_INVALID_DEVICE);
  if (FAILS) return err<cl_command_queue>(e, code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}));
  if (e) *e = CL_SUCCESS;
  return (cl_command_queue)mk(K_QUEUE, o);
}
E cl_int clRetainCommandQueue(cl_command_queue c) { return retain(c, K_QUEUE, __func__); }
E cl_int clReleaseCommandQueue(cl_command_queue c) { return release(c, K_QUEUE, __func__); }
E cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); Obj *o = get(q, K_QUEUE, __func__); if (!o) return CL_INVALID_COMMAND_QUEUE; if (FAILS) return CL_OUT_OF_RESOURCES;
  switch (w) { case CL_QUEUE_CONTEXT: return info<cl_context>((cl_context)o->up, n, v, r); case CL_QUEUE_DEVICE: return info<cl_device_id>((cl_device_id)&dev, n, v, r); case CL_QUEUE_REFERENCE_COUNT: return info<cl_uint>(o->ref, n, v, r); case CL_QUEUE_PROPERTIES: return info<cl_command_queue_properties>(0, n, v, r); }
  return CL_INVALID_VALUE;
}
E cl_int clFlush(cl_command_queue q) { YIELD; Api a(__func__); if (!get(q, K_QUEUE, __func__)) return CL_INVALID_COMMAND_QUEUE; if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); if (cr().p(0.5)) flush_queue(); return CL_SUCCESS; }
E cl_int clFinish(cl_command_queue q) { YIELD; Api a(__func__); if (!get(q, K_QUEUE, __func__)) return CL_INVALID_COMMAND_QUEUE; flush_queue(); if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); return CL_SUCCESS; }
// ---------------------------------------------------------------- program, kernel
E cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *l, cl_int *e) {
  YIELD; Api a(__func__); Obj *o = get(c, K_CTX, __func__);
  if (!o) return err<cl_program>(e, CL_INVALID_CONTEXT);
  if (!n || !s) return err<cl_program>(e, CL_INVALID_VALUE);
  for (cl_uint i = 0; i < n; i++) if (!s[i]) return err<cl_program>(e, CL_INVALID_VALUE);
  if (FAILS) return err<cl_program>(e, code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}));
  Obj *p = mk(K_PROG, o);
  for (cl_uint i = 0; i < n; i++) p->src += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]);
  if (e) *e = CL_SUCCESS;
  return (cl_program)p;
}
E cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id *, const char *, void(CL_CALLBACK *)(cl_program, void *), void *) {
  YIELD; Api a(__func__); Obj *o = get(p, K_PROG, __func__); if (!o) return CL_INVALID_PROGRAM;
  if (FAILS) { o->log = "simulated build failure"; return code({CL_BUILD_PROGRAM_FAILURE, CL_BUILD_PROGRAM_FAILURE, CL_COMPILER_NOT_AVAILABLE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); }
  o->lib = find_lib(o->src);
  if (!o->lib->ok) { o->log = o->lib->log; return CL_BUILD_PROGRAM_FAILURE; }
  o->built = true; return CL_SUCCESS;
}
E cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); Obj *o = get(p, K_PROG, __func__); if (!o) return CL_INVALID_PROGRAM; if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  switch (w) { case CL_PROGRAM_BUILD_LOG: return infos(o->log, n, v, r); case CL_PROGRAM_BUILD_OPTIONS: return infos("", n, v, r); case CL_PROGRAM_BUILD_STATUS: return info<cl_build_status>(o->built ? CL_BUILD_SUCCESS : o->log.empty() ? CL_BUILD_NONE : CL_BUILD_ERROR, n, v, r); }
  return CL_INVALID_VALUE;
}
E cl_int clGetProgramInfo(cl_program p, cl_program_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); Obj *o = get(p, K_PROG, __func__); if (!o) return CL_INVALID_PROGRAM; if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  switch (w) { case CL_PROGRAM_NUM_DEVICES: return info<cl_uint>(1, n, v, r); case CL_PROGRAM_DEVICES: return info<cl_device_id>((cl_device_id)&dev, n, v, r); case CL_PROGRAM_CONTEXT: return info<cl_context>((cl_context)o->up, n, v, r); case CL_PROGRAM_SOURCE: return infos(o->src, n, v, r); case CL_PROGRAM_REFERENCE_COUNT: return info<cl_uint>(o->ref, n, v, r); }
  return CL_INVALID_VALUE;
}
E cl_int clRetainProgram(cl_program p) { return retain(p, K_PROG, __func__); }
E cl_int clReleaseProgram(cl_program p) { return release(p, K_PROG, __func__); }
E cl_kernel clCreateKernel(cl_program p, const char *nm, cl_int *e) {
  YIELD; Api a(__func__); Obj *o = get(p, K_PROG, __func__);
  if (!o) return err<cl_kernel>(e, CL_INVALID_PROGRAM);
  if (!o->built) return err<cl_kernel>(e, CL_INVALID_PROGRAM_EXECUTABLE);
  if (!nm) return err<cl_kernel>(e, CL_INVALID_VALUE);
  if (!o->lib->k.count(nm)) return err<cl_kernel>(e, CL_INVALID_KERNEL_NAME);
  if (FAILS) return err<cl_kernel>(e, code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}));
  Obj *k = mk(K_KERN, o); k->k = o->lib->k[nm]; k->name = nm; size_t n = k->k.sig.size(); k->arg.assign(n, 0); k->mem.assign(n, nullptr); k->set.assign(n, 0);
  if (e) *e = CL_SUCCESS;
  return (cl_kernel)k;
}
E cl_int clRetainKernel(cl_kernel k) { return retain(k, K_KERN, __func__); }
E cl_int clReleaseKernel(cl_kernel k) { return release(k, K_KERN, __func__); }
E cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v) {
  YIELD; Api a(__func__); Obj *o = get(k, K_KERN, __func__); if (!o) return CL_INVALID_KERNEL;
  if (i >= o->k.sig.size()) return CL_INVALID_ARG_INDEX;
  char s = o->k.sig[i];
  if (s == 'l') return v ? CL_INVALID_ARG_VALUE : CL_OUT_OF_RESOURCES;
  if (s == 'p') {
    if (n != sizeof(cl_mem)) return CL_INVALID_ARG_SIZE;
    Obj *m = v ? *(Obj **)v : nullptr;
    if (m && !objs->count(m)) return CL_INVALID_MEM_OBJECT;
    if (m && m->kind != K_MEM) return CL_INVALID_MEM_OBJECT;
    if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
    o->mem[i] = m; o->arg[i] = 0; o->set[i] = 1; return CL_SUCCESS;
  }
  if (!v) return CL_INVALID_ARG_VALUE;
  if (n != (size_t)(s - '0')) return CL_INVALID_ARG_SIZE;
  if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  o->arg[i] = 0; memcpy(&o->arg[i], v, n); o->set[i] = 1; return CL_SUCCESS;
}
E cl_int clGetKernelWorkGroupInfo(cl_kernel k, cl_device_id, cl_kernel_work_group_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); if (!get(k, K_KERN, __func__)) return CL_INVALID_KERNEL; if (FAILS) return CL_OUT_OF_RESOURCES;
  switch (w) { case CL_KERNEL_WORK_GROUP_SIZE: return info<size_t>(MAX_WG, n, v, r); case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE: return info<size_t>(64, n, v, r); case CL_KERNEL_LOCAL_MEM_SIZE: case CL_KERNEL_PRIVATE_MEM_SIZE: return info<cl_ulong>(0, n, v, r); }
  return CL_INVALID_VALUE;
}
E cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); Obj *o = get(k, K_KERN, __func__); if (!o) return CL_INVALID_KERNEL; if (FAILS) return CL_OUT_OF_RESOURCES;
  switch (w) { case CL_KERNEL_FUNCTION_NAME: return infos(o->name, n, v, r); case CL_KERNEL_NUM_ARGS: return info<cl_uint>(o->k.sig.size(), n, v, r); case CL_KERNEL_REFERENCE_COUNT: return info<cl_uint>(o->ref, n, v, r); case CL_KERNEL_CONTEXT: return info<cl_context>((cl_context)o->up->up, n, v, r); case CL_KERNEL_PROGRAM: return info<cl_program>((cl_program)o->up, n, v, r); }
  return CL_INVALID_VALUE;
}
// ---------------------------------------------------------------- buffers
E cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *h, cl_int *e) {
  YIELD; Api a(__func__); Obj *o = get(c, K_CTX, __func__);
  if (!o) return err<cl_mem>(e, CL_INVALID_CONTEXT);
  if (n == 0 || n > MAX_ALLOC) return err<cl_mem>(e, CL_INVALID_BUFFER_SIZE);
  if (!!h != !!(f & (CL_MEM_USE_HOST_PTR | CL_MEM_COPY_HOST_PTR))) return err<cl_mem>(e, CL_INVALID_HOST_PTR);
  if (FAILS) return err<cl_mem>(e, code({CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}));
  Obj *m = mk(K_MEM, o); m->n = n; m->flags = f;
  { Guest g; m->p = (char *)malloc(n); memset(m->p, 0xff, n); if (h) sim_memcpy(m->p, h, n); }
  if (e) *e = CL_SUCCESS;
  return (cl_mem)m;
}
E cl_int clRetainMemObject(cl_mem m) { return retain(m, K_MEM, __func__); }
E cl_int clReleaseMemObject(cl_mem m) { return release(m, K_MEM, __func__); }
E cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info w, size_t n, void *v, size_t *r) {
  YIELD; Api a(__func__); Obj *o = get(m, K_MEM, __func__); if (!o) return CL_INVALID_MEM_OBJECT; if (FAILS) return CL_OUT_OF_RESOURCES;
  switch (w) { case CL_MEM_SIZE: return info<size_t>(o->n, n, v, r); case CL_MEM_REFERENCE_COUNT: return info<cl_uint>(o->ref, n, v, r); case CL_MEM_FLAGS: return info<cl_mem_flags>(o->flags, n, v, r); case CL_MEM_CONTEXT: return info<cl_context>((cl_context)o->up, n, v, r); }
  return CL_INVALID_VALUE;
}
static cl_int xfer(int t, cl_command_queue q, cl_mem m, cl_bool block, size_t o, size_t n, void *h, cl_event *ev, const char *fn) {
  Obj *qq = get(q, K_QUEUE, fn), *b = get(m, K_MEM, fn);
  if (!qq) return CL_INVALID_COMMAND_QUEUE;
  if (!b) return CL_INVALID_MEM_OBJECT;
  if (!h || n == 0 || o + n > b->n) return CL_INVALID_VALUE;
  if (qq->up != b->up) return CL_INVALID_CONTEXT;
  if (FAILS) {
    if (block) flush_queue();
    if (cr().p(0.5)) { Guest g; if (t == 1) sim_memcpy(b->p + o, h, n / 2); else sim_memcpy(h, b->p + o, n / 2); }   // a transfer may stop half way
    return code({CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
  }
  Cmd c; c.t = t; c.m = b; c.o = o; c.n = n; c.h = h;
  if (!block && t == 2) { Guest g; memset(h, 0xff, n); }
  submit(c);
  if (block) flush_queue();
  mkev(ev); return CL_SUCCESS;
}
E cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, const void *h, cl_uint, const cl_event *, cl_event *ev) { YIELD; Api a(__func__); return xfer(1, q, m, b, o, n, (void *)h, ev, __func__); }
E cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, void *h, cl_uint, const cl_event *, cl_event *ev) { YIELD; Api a(__func__); return xfer(2, q, m, b, o, n, h, ev, __func__); }
E cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *g, const size_t *l, cl_uint, const cl_event *, cl_event *ev) {
  YIELD; Api a(__func__); Obj *qq = get(q, K_QUEUE, __func__), *o = get(k, K_KERN, __func__);
  if (!qq) return CL_INVALID_COMMAND_QUEUE;
  if (!o) return CL_INVALID_KERNEL;
  for (char s : o->set) if (!s) return CL_INVALID_KERNEL_ARGS;
  for (size_t i = 0; i < o->k.sig.size(); i++) if (o->k.sig[i] == 'p' && o->mem[i] && (!objs->count(o->mem[i]) || o->mem[i]->up != qq->up)) return CL_INVALID_KERNEL_ARGS;
  if (dim != 1) return CL_INVALID_WORK_DIMENSION;     // the simulated device runs one dimension
  if (!g || !g[0]) return CL_INVALID_GLOBAL_WORK_SIZE;
  if (l && (!l[0] || g[0] % l[0])) return CL_INVALID_WORK_GROUP_SIZE;
  if (l && l[0] > MAX_WG) return CL_INVALID_WORK_GROUP_SIZE;
  if (FAILS) return code({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_MEM_OBJECT_ALLOCATION_FAILURE});
  Cmd c; c.t = 0; c.kern = o; c.k = o->k; c.arg = o->arg; c.mem = o->mem; c.gs = g[0]; c.off = off ? off[0] : 0; c.ls = l ? l[0] : 1;
  submit(c); mkev(ev); return CL_SUCCESS;
}
E cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, cl_uint n, const cl_event *w, cl_event *ev) { size_t one = 1; return clEnqueueNDRangeKernel(q, k, 1, nullptr, &one, &one, n, w, ev); }
E cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void *pat, size_t pn, size_t o, size_t n, cl_uint, const cl_event *, cl_event *ev) {
  YIELD; Api a(__func__); Obj *b = get(m, K_MEM, __func__);
  if (!get(q, K_QUEUE, __func__)) return CL_INVALID_COMMAND_QUEUE;
  if (!b) return CL_INVALID_MEM_OBJECT;
  if (!pat || !pn || o % pn || n % pn || o + n > b->n) return CL_INVALID_VALUE;
  if (FAILS) return CL_OUT_OF_RESOURCES;
  flush_queue(); for (size_t i = 0; i < n; i += pn) memcpy(b->p + o + i, pat, pn);
  mkev(ev); return CL_SUCCESS;
}
E cl_int clWaitForEvents(cl_uint n, const cl_event *) { YIELD; Api a(__func__); if (!n) return CL_INVALID_VALUE; flush_queue(); return FAILS ? CL_OUT_OF_RESOURCES : CL_SUCCESS; }
E cl_int clRetainEvent(cl_event e) { return retain(e, K_EVENT, __func__); }
E cl_int clReleaseEvent(cl_event e) { return release(e, K_EVENT, __func__); }
E cl_int clGetEventInfo(cl_event e, cl_event_info w, size_t n, void *v, size_t *r) { YIELD; Api a(__func__); if (!get(e, K_EVENT, __func__)) return CL_INVALID_EVENT; flush_queue(); if (w == CL_EVENT_COMMAND_EXECUTION_STATUS) return info<cl_int>(CL_COMPLETE, n, v, r); return CL_INVALID_VALUE; }

// ---------------------------------------------------------------- OpenCL C built-in functions
#define B __attribute__((visibility("default")))
B size_t get_global_id(unsigned d) { return d ? 0 : (size_t)lanes[lcur].item; }
B size_t get_global_size(unsigned d) { return d ? 1 : lcmd->gs; }
B size_t get_global_offset(unsigned d) { return d ? 0 : lcmd->off; }
B size_t get_local_size(unsigned d) { return d ? 1 : lsz; }
B size_t get_local_id(unsigned d) { return d ? 0 : ((size_t)lanes[lcur].item - lcmd->off) % lsz; }
B size_t get_group_id(unsigned d) { return d ? 0 : ((size_t)lanes[lcur].item - lcmd->off) / lsz; }
B size_t get_num_groups(unsigned d) { return d ? 1 : lcmd->gs / lsz; }
B unsigned get_work_dim() { return 1; }
#define F1(n, ex) B float n(float x) { return (float)(ex); } B double n(double x) { return ex; }
#define N1(n, ex) B float n(float x) { return (float)(ex); }
F1(rsqrt, 1 / std::sqrt(x)) F1(degrees, x * 180 / M_PI) F1(radians, x * M_PI / 180) F1(sign, x > 0 ? 1 : x < 0 ? -1 : x) F1(acospi, std::acos(x) / M_PI) F1(asinpi, std::asin(x) / M_PI) F1(atanpi, std::atan(x) / M_PI) F1(cospi, std::cos(x * M_PI)) F1(sinpi, std::sin(x * M_PI)) F1(tanpi, std::tan(x * M_PI)) F1(exp10, std::pow(10.0, x))
N1(native_sqrt, std::sqrt(x)) N1(native_rsqrt, 1 / std::sqrt(x)) N1(native_recip, 1 / x) N1(native_sin, std::sin(x)) N1(native_cos, std::cos(x)) N1(native_tan, std::tan(x)) N1(native_exp, std::exp(x)) N1(native_log, std::log(x)) N1(native_log2, std::log2(x)) N1(native_log10, std::log10(x)) N1(native_exp2, std::exp2(x))
N1(half_sqrt, std::sqrt(x)) N1(half_rsqrt, 1 / std::sqrt(x)) N1(half_recip, 1 / x) N1(half_sin, std::sin(x)) N1(half_cos, std::cos(x)) N1(half_exp, std::exp(x)) N1(half_log, std::log(x))
B float native_divide(float x, float y) { return x / y; }
B float native_powr(float x, float y) { return std::pow(x, y); }
#define F2(n, ex) B float n(float x, float y) { return (float)(ex); } B double n(double x, double y) { return ex; }
F2(max, x < y ? y : x) F2(min, y < x ? y : x) F2(maxmag, std::fabs(x) > std::fabs(y) ? x : std::fabs(x) < std::fabs(y) ? y : std::fmax(x, y)) F2(powr, std::pow(x, y)) F2(step, y < x ? 0 : 1) F2(atan2pi, std::atan2(x, y) / M_PI)
B float mad(float x, float y, float z) { return x * y + z; }
B double mad(double x, double y, double z) { return x * y + z; }
B float clamp(float x, float y, float z) { return std::fmin(std::fmax(x, y), z); }
B double clamp(double x, double y, double z) { return std::fmin(std::fmax(x, y), z); }
B float mix(float x, float y, float z) { return x + (y - x) * z; }
B double mix(double x, double y, double z) { return x + (y - x) * z; }
B double pown(double x, int n) { return std::pow(x, n); }
B float pown(float x, int n) { return std::pow(x, n); }
#define I2(T) B T max(T x, T y) { return x < y ? y : x; } B T min(T x, T y) { return y < x ? y : x; } B T clamp(T x, T y, T z) { return x < y ? y : x > z ? z : x; } B T mul24(T x, T y) { return x * y; } B T mad24(T x, T y, T z) { return x * y + z; }
I2(int) I2(unsigned) I2(long) I2(unsigned long)
B unsigned abs(unsigned x) { return x; }
B void barrier(unsigned) { fprintf(stderr, "simulator error: kernels with barriers are not supported\n"); _exit(2); }
B void mem_fence(unsigned) {}
E void *__tsan_memset(void *d, int c, size_t n) { return sim_memset(d, c, n); }
E void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
E void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
