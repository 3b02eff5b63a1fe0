// Python host: the real CPython interpreter and numpy, calling the real pybind11 modules.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include "host.h"
#include <unistd.h>
#include <cstring>
#include <iostream>
#include <map>
namespace host {
std::string build_dir;
static std::map<std::string, PyObject *> fns;
static PyObject *np;
const char *name() { return "python"; }
static void do_int() { PyErr_SetInterrupt(); }
void init(int, char **) {
  PyConfig cfg;
  PyConfig_InitIsolatedConfig(&cfg);
  cfg.install_signal_handlers = 0; cfg.use_hash_seed = 1; cfg.hash_seed = 0; cfg.site_import = 1; cfg.write_bytecode = 0;
  PyStatus st = Py_InitializeFromConfig(&cfg);
  PyConfig_Clear(&cfg);
  if (PyStatus_Exception(st)) { fprintf(stderr, "python does not start: %s\n", st.err_msg ? st.err_msg : ""); _exit(2); }
  if (_import_array() < 0) { PyErr_Print(); fprintf(stderr, "numpy is not available\n"); _exit(2); }
  np = PyImport_ImportModule("numpy");
  PyObject *gc = PyImport_ImportModule("gc");
  PyObject *r = PyObject_CallMethod(gc, "disable", nullptr); Py_XDECREF(r); Py_XDECREF(gc);
  sim::host_interrupt = do_int;
}
bool load(const std::string &fn) {
  if (fns.count(fn)) return true;
  char rp[4096]; std::string dir = std::string(realpath(build_dir.c_str(), rp) ? rp : build_dir.c_str()) + "/python", p = dir + "/" + fn + ".so";
  PyObject *sp = PySys_GetObject("path");
  PyObject *d = PyUnicode_FromString(dir.c_str());
  if (PySequence_Contains(sp, d) != 1) PyList_Insert(sp, 0, d);
  Py_DECREF(d);
  PyObject *m = PyImport_ImportModule(fn.c_str());
  if (!m) { PyErr_Print(); fprintf(stderr, "cannot import %s\n", p.c_str()); return false; }
  PyObject *file = PyObject_GetAttrString(m, "__file__");
  if (!file || p != PyUnicode_AsUTF8(file)) { fprintf(stderr, "the wrong %s was imported\n", fn.c_str()); return false; }
  PyObject *f = PyObject_GetAttrString(m, fn == "das_f" ? "das" : fn.c_str());
  if (!f) { PyErr_Print(); return false; }
  fns[fn] = f;
  sim::add_module_range(p.c_str());
  return true;
}
// layouts: 0 column major, 1 row major, 2 every other element of a larger array, 3 read only column major,
// 4 vectors are one dimensional, 5 vectors are transposed
static PyObject *take(PyObject *o) { if (!o) { PyErr_Print(); _exit(2); } return o; }
static PyObject *to_py(const Val &v, int lay, bool isvec);
// other things than arrays and strings: 1 None, 2 nested list, 3 swapped byte order, 4 reversed view, 5 view that is not aligned, 6 matrix object,
// 7 integers, 8 booleans, 9 other precision, 10 complex, 11 objects, 12 without dimensions, 13 dictionary, 14 repeated by zero strides, 15 bytes
static PyObject *other_py(Val v, int lay, bool isvec) {
  int alt = v.alt; v.alt = 0;
  if (alt == 1) { Py_INCREF(Py_None); return Py_None; }
  if (alt == 13) return take(PyDict_New());
  if (alt == 15) return take(PyBytes_FromString("ab"));
  PyObject *a = to_py(v, lay, isvec), *r = nullptr;
  auto as = [&](const char *t) { return PyObject_CallMethod(a, "astype", "s", t); };
  switch (alt) {
    case 2: r = PyObject_CallMethod(a, "tolist", nullptr); break;
    case 3: r = as(v.single ? ">f4" : ">f8"); break;
    case 4: { PyObject *f = PyObject_CallMethod(np, "flip", "O", a), *c = PyObject_CallMethod(take(f), "copy", nullptr); r = PyObject_CallMethod(np, "flip", "O", take(c)); Py_DECREF(f); Py_DECREF(c); break; }
    case 5: { // the field of a packed record
      PyObject *t = Py_BuildValue("[(ss)(ss)]", "p", "i1", "v", v.single ? "f4" : "f8"), *sh = PyObject_GetAttrString(a, "shape"), *z = PyObject_CallMethod(np, "zeros", "OO", sh, t);
      PyObject *k = PyUnicode_FromString("v"); r = PyObject_GetItem(take(z), k);
      if (r && PyArray_CopyInto((PyArrayObject *)r, (PyArrayObject *)a) < 0) { PyErr_Print(); _exit(2); }
      Py_DECREF(k); Py_DECREF(z); Py_DECREF(sh); Py_DECREF(t); break;
    }
    case 6: { int nd = PyArray_NDIM((PyArrayObject *)a); if (nd == 2) r = PyObject_CallMethod(np, "asmatrix", "O", a); else { Py_INCREF(a); r = a; } break; }
    case 7: r = as("i8"); break;
    case 8: r = as("?"); break;
    case 9: r = as(v.single ? "f8" : "f4"); break;
    case 10: r = as("c16"); break;
    case 11: r = as("O"); break;
    case 12: r = PyObject_CallMethod(np, "asarray", "d", v.d.empty() ? 1.0 : v.d[0]); break;
    case 14: { PyObject *sh = PyObject_GetAttrString(a, "shape"), *o = PyFloat_FromDouble(v.d.empty() ? 1.0 : v.d[0]); r = PyObject_CallMethod(np, "broadcast_to", "OO", o, sh); Py_DECREF(o); Py_DECREF(sh); break; }
  }
  Py_DECREF(a);
  return take(r);
}
static PyObject *to_py(const Val &v, int lay, bool isvec) {
  if (v.alt) return other_py(v, lay, isvec);
  if (v.k == Val::STR) return take(PyUnicode_DecodeUTF8(v.s.data(), (Py_ssize_t)v.s.size(), "surrogateescape"));
  npy_intp dim[3] = {v.r, v.c, v.p};
  bool vec = isvec && v.p == 0 && (v.r == 1 || v.c == 1);
  int nd = v.p > 0 ? 3 : 2;
  if (vec && lay == 4) { nd = 1; dim[0] = v.r * v.c; }
  if (vec && lay == 5) { dim[0] = v.c; dim[1] = v.r; }
  int type = v.single ? NPY_FLOAT : NPY_DOUBLE;
  PyArrayObject *a;
  if (lay == 2 && nd == 2) {
    npy_intp big[2] = {2 * dim[0] + 1, 2 * dim[1] + 1};
    PyObject *b = PyArray_ZEROS(2, big, type, 1);
    PyObject *s0 = PyLong_FromLong(0), *s2 = PyLong_FromLong(2), *e0 = PyLong_FromLong(2 * dim[0]), *e1 = PyLong_FromLong(2 * dim[1]);
    PyObject *k = PyTuple_Pack(2, PySlice_New(s0, e0, s2), PySlice_New(s0, e1, s2));
    a = (PyArrayObject *)PyObject_GetItem(b, k);
    Py_DECREF(k); Py_DECREF(s0); Py_DECREF(s2); Py_DECREF(e0); Py_DECREF(e1); Py_DECREF(b);
  } else a = (PyArrayObject *)PyArray_EMPTY(nd, dim, type, lay != 1);
  if (!a) { PyErr_Print(); _exit(2); }
  long n = (long)v.d.size();
  for (long i = 0; i < n; i++) {
    char *p;
    if (nd == 1) p = (char *)PyArray_GETPTR1(a, i);
    else if (nd == 2) p = (char *)PyArray_GETPTR2(a, i % dim[0], i / dim[0]);
    else p = (char *)PyArray_GETPTR3(a, i % dim[0], (i / dim[0]) % dim[1], i / (dim[0] * dim[1]));
    if (v.single) *(float *)p = (float)v.d[i]; else *(double *)p = v.d[i];
  }
  if (lay == 3) PyArray_CLEARFLAGS(a, NPY_ARRAY_WRITEABLE);
  return (PyObject *)a;
}
static Val from_py(PyObject *o) {
  Val v;
  if (PyUnicode_Check(o)) { const char *t = PyUnicode_AsUTF8(o); if (!t) PyErr_Clear(); return t ? Val::str(t) : v; }
  if (PyFloat_Check(o)) return Val::num(PyFloat_AsDouble(o));
  if (!PyArray_Check(o)) return v;
  PyArrayObject *a = (PyArrayObject *)o;
  int nd = PyArray_NDIM(a);
  if (nd > 3 || (PyArray_TYPE(a) != NPY_DOUBLE && PyArray_TYPE(a) != NPY_FLOAT)) return v;
  long r = nd > 0 ? PyArray_DIM(a, 0) : 1, c = nd > 1 ? PyArray_DIM(a, 1) : 1, p = nd > 2 ? PyArray_DIM(a, 2) : 0;
  v = Val::mat(r, c); v.p = p; v.d.resize(r * c * (p ? p : 1)); v.single = PyArray_TYPE(a) == NPY_FLOAT;
  for (long i = 0; i < (long)v.d.size(); i++) {
    char *q = nd == 0 ? (char *)PyArray_DATA(a) : nd == 1 ? (char *)PyArray_GETPTR1(a, i) : nd == 2 ? (char *)PyArray_GETPTR2(a, i % r, i / r) : (char *)PyArray_GETPTR3(a, i % r, (i / r) % c, i / (r * c));
    v.d[i] = v.single ? *(float *)q : *(double *)q;
  }
  return v;
}
static std::string read_text() {
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
  std::string s;
  off_t n = lseek(1, 0, SEEK_END);
  if (n > 0 && n < (1 << 22)) { s.resize(n); if (pread(1, &s[0], n, 0) < 0) s.clear(); }
  if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
  return s;
}
Res call(const Call &c, const sim::CallFaults &f) {   // runs in Harness scope
  Res r;
  std::string fn = c.fn;
  if (fn == "das" && !c.args.empty() && c.args[0].single) fn = "das_f";
  PyObject *g = fns[fn];
  sim::Stats before = sim::live();
  {
    sim::Guest guest;
    PyObject *args = PyTuple_New((Py_ssize_t)c.args.size());
    for (size_t i = 0; i < c.args.size(); i++) {
      const Val &v = c.args[i];
      bool scalar = i < c.scalar.size() && c.scalar[i] && v.k == Val::MAT && v.d.size() == 1 && !v.alt;
      PyTuple_SET_ITEM(args, (Py_ssize_t)i, scalar ? PyFloat_FromDouble(v.d[0]) : to_py(v, c.layout, i < c.vec.size() && c.vec[i]));
    }
    std::vector<long> refs; for (size_t i = 0; i < c.args.size(); i++) refs.push_back(Py_REFCNT(PyTuple_GET_ITEM(args, (Py_ssize_t)i)));
    PyObject *out = nullptr; bool foreign = false; std::string msg;
    sim::call_begin(f);
    try { out = PyObject_Call(g, args, nullptr); }
    catch (std::exception &e) { foreign = true; msg = std::string("uncaught C++ exception: ") + e.what(); }
    catch (...) { foreign = true; msg = "uncaught C++ exception"; }
    sim::call_end();
    sim::Harness h;
    r.ok = out != nullptr && !PyErr_Occurred(); r.foreign = foreign;
    if (PyErr_Occurred()) {
      PyObject *t, *v, *tb; PyErr_Fetch(&t, &v, &tb); PyErr_NormalizeException(&t, &v, &tb);
      PyObject *s = PyObject_Str(v), *q = PyObject_Str(t);
      msg = std::string(q ? PyUnicode_AsUTF8(q) : "?") + ": " + (s ? PyUnicode_AsUTF8(s) : "");
      if (PyErr_GivenExceptionMatches(v, PyExc_TypeError)) r.foreign = r.typerr = true;   // the arguments did not fit the function
      Py_XDECREF(s); Py_XDECREF(q); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
    } else if (!out) { foreign = r.foreign = true; }
    r.err = msg;
    r.workers_left = sim::runnable_workers();
    r.steps = sim::call_steps(); r.allocs = sim::alloc_count(); r.wallocs = sim::walloc_count(); r.syncs = sim::sync_count(); r.creates = sim::create_count(); r.first_create = r.creates ? sim::first_create_step() : -1; r.plans = sim::plan_count(); r.cls = sim::cl_count(); r.peak = sim::peak_workers(); sim::worker_steps(&r.wmost, &r.wsum);
    r.sig_step = sim::signal_step(); r.done_step = sim::alive_done_step(); r.handled = sim::handled_signals();
    for (int s = 1; s < 65; s++) r.sig_default[s] = sim::is_default(s);
    if (out) { r.out.push_back(from_py(out)); sim::Guest g2; Py_DECREF(out); }
    for (size_t i = 0; i < c.args.size(); i++) {
      PyObject *a = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
      Val v = from_py(a);
      if (c.args[i].k == Val::MAT) { v.r = c.args[i].r; v.c = c.args[i].c; }
      r.args.push_back(v);
      if (Py_REFCNT(a) != refs[i] && PyArray_Check(a)) r.ref_leak = (long)i + 1;
    }
    { sim::Guest g2; Py_DECREF(args); }
  }
  if (r.workers_left) sim::drain(20000000);
  sim::Stats after = sim::live();
  r.leak_bytes = after.live_bytes - before.live_bytes; r.leak_blocks = after.live_blocks - before.live_blocks;
  r.text = read_text();
  if (!r.ok) r.err += "\n" + r.text;
  return r;
}
} // namespace host
