// Properties: scenario generators and oracles.
#include "prop.h"
#include <fftw3.h>
#include <set>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <algorithm>
#include <functional>
#include <memory>
using namespace sim;
const char *probe_names[32] = {"two_or_more_workers", "call_returned_error", "call_returned_ok", "out_of_bounds_case", "interrupt_seen_by_handler", "interrupted_call_reported", "result_complete_despite_fault", "fault_reported_as_error", "call_after_failed_call"};

// ------------------------------------------------------------------ helpers
static long pickl(Rng &r, std::initializer_list<long> l) { return l.begin()[r.below(l.size())]; }
static void gen_sched(Rng &r, Scenario &s, long horizon = 20000) {
  int pol = (int)pickl(r, {0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4});
  s.sim.set("policy", pol);
  s.sim.set("ppre", pickl(r, {0, 100, 1000, 1000, 5000, 20000}));
  s.sim.set("phot", pickl(r, {0, 20000, 100000, 300000}));
  s.sim.set("psync", pickl(r, {0, 10, 50, 90}));
  s.sim.set("depth", r.range(1, 6));
  s.sim.set("horizon", pickl(r, {horizon / 10, horizon, horizon * 5}));
  s.sim.set("ncpu", pickl(r, {1, 2, 3, 4, 4, 6, 8, 12, 32}));
}
static CallFaults faults_of(const Op &o) {
  CallFaults f; const Params &p = o.p;
  if (p.has("sig")) {
    int s = (int)p.get("sig"); long at = p.get("sigat");
    long w = p.get("sigw");
    (w == 0 ? f.sig_g : w == 1 ? f.sig_sync : f.sig_hot).push_back({s, at});
    if (p.has("sigat2")) (w == 0 ? f.sig_g : w == 1 ? f.sig_sync : f.sig_hot).push_back({s, p.get("sigat2")});
  }
  for (const char *k : {"fc", "fc2"}) if (p.has(k)) f.fail_create.push_back(p.get(k));
  f.create_from = p.get("fcall", -1);
  for (const char *k : {"fa", "fa2"}) if (p.has(k)) f.fail_alloc.push_back(p.get(k));
  for (const char *k : {"faw", "faw2"}) if (p.has(k)) f.fail_walloc.push_back(p.get(k));
  for (const char *k : {"fp", "fp2"}) if (p.has(k)) f.fail_plan.push_back(p.get(k));
  for (const char *k : {"fw"}) if (p.has(k)) f.fail_wisdom.push_back(p.get(k));
  for (const char *k : {"fcl", "fcl2"}) if (p.has(k)) f.fail_cl.push_back(p.get(k));
  return f;
}
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static std::string call_note;
static Res do_call(const Call &c, const Op &o) {
  long t = o.p.get("thr");
  if (const char *kd = getenv("SIM_CLDIR")) { // where the kernels are: right, unset, wrong
    if (o.p.get("kd") == 1) unsetenv("DREAM_CL_KERNELS"); else setenv("DREAM_CL_KERNELS", o.p.get("kd") == 2 ? "/nonexistent" : o.p.get("kd") == 3 ? "/proc" : kd, 1);
  }
  if (t > 0) setenv("DREAM_NUM_THREADS", std::to_string(t).c_str(), 1); else unsetenv("DREAM_NUM_THREADS");
  static const char *ENVS[] = {"", "abc", "-1", "0", "99999999999999999999999", " 3", "2x", "-", "-9223372036854775809", "1e9"};   // not a number of threads
  if (o.p.has("env")) { setenv("DREAM_NUM_THREADS", ENVS[o.p.get("env") % 10], 1); sh->faults[F_BADENV]++; }
  long before[F_NKINDS]; memcpy(before, sh->faults, sizeof before);
  snprintf(sh->cur, sizeof sh->cur, "%s%s%s", o.fn.c_str(), call_note.empty() ? "" : " with ", call_note.c_str());
  Res r = host::call(c, faults_of(o));
  sh->cur[0] = 0;
  for (int i = 0; i < F_NKINDS; i++) { r.fired[i] = sh->faults[i] - before[i]; if (i != F_STALL && r.fired[i]) r.faulted = true; }
  if (r.handled) probe(4);
  note(r.ok); for (char ch : r.err) note(ch);
  for (auto &v : r.out) for (double d : v.d) note(bits(d));
  probe(r.ok ? 2 : 1);
  return r;
}
static void expect_ok(const Res &r, const Op &o) {
  if (r.foreign) fail("escaped-exception", "%s: %s", o.fn.c_str(), r.err.c_str());
  if (!r.ok) fail("spurious-error", "%s failed: %s", o.fn.c_str(), r.err.c_str());
}
static void cmp_mat(const char *cls, const std::string &what, const Val &v, long rows, long cols, const V &want, double tol) {
  if (v.r != rows || v.c != cols || v.d.size() != want.size()) fail("wrong-size", "%s is a %ldx%ld matrix, expected %ldx%ld", what.c_str(), v.r, v.c, rows, cols);
  double d = maxdiff(v.d, want);
  if (!(d <= tol)) {
    size_t i = 0; while (i < want.size() && std::fabs(v.d[i] - want[i]) <= tol) i++;
    fail(cls, "%s: element %zu (row %ld, column %ld) is %.17g, the reference gives %.17g", what.c_str(), i, rows ? (long)(i % rows) : 0, rows ? (long)(i / rows) : 0, v.d[i], want[i]);
  }
}
static void expect_mat(const Res &r, const Op &o, size_t k, long rows, long cols, const V &want, double tol) {
  if (r.out.size() <= k || r.out[k].k != Val::MAT) fail("missing-output", "%s returned no output %zu: %s", o.fn.c_str(), k, r.text.substr(0, 200).c_str());
  cmp_mat("wrong-value", o.fn + " output", r.out[k], rows, cols, want, tol);
}
static void expect_ana(const Res &r, const Op &o, const AnaOut &m, long nt, long No, double tol) {
  V near = m.H; // the reference, moved to the value returned where that lies between the bounds
  if (!r.out.empty() && r.out[0].k == Val::MAT && r.out[0].d.size() == near.size())
    for (size_t i = 0; i < near.size(); i++) if (!std::isnan(r.out[0].d[i])) near[i] = std::min(std::max(r.out[0].d[i], m.lo[i]), m.hi[i]);
  expect_mat(r, o, 0, nt, No, near, tol);
}
static double errout(const Res &r) { return r.out.size() > 1 && r.out[1].d.size() == 1 ? r.out[1].d[0] : -1; }
static std::vector<std::string> cat(std::vector<std::string> a, const std::vector<std::string> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static const std::vector<std::string> SINGLE = {"dreamline", "dreamrect", "dreamcirc", "dreamsphere", "dreamcylind", "dreamrect_f", "dreamcirc_f"};
static const std::vector<std::string> ARRAYS = {"dream_arr_rect", "dream_arr_circ", "dream_arr_cylind", "dream_arr_annu"};
static const std::vector<std::string> CONVS = {"conv_p", "fftconv_p", "fftconv_ola", "sum_fftconv"};
static const std::vector<std::string> FFTS = {"fftconv_p", "fftconv_ola", "sum_fftconv"};
static const std::vector<std::string> COPIES = {"copy_p", "add_p"};
static const std::vector<std::string> ANALYTIC = {"rect_sir", "circ_sir", "scirc_sir"};
static const std::vector<std::string> DASF = {"das"};
static const std::vector<std::string> AUX = {"dream_att", "dream_apodwin"};   // functions without threads
static const std::vector<std::string> THRF = cat(cat(cat(SINGLE, ARRAYS), cat(CONVS, COPIES)), cat(ANALYTIC, DASF));
static const std::vector<std::string> ALLF = cat(THRF, AUX);
static bool in(const std::vector<std::string> &v, const std::string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static bool has_sir(const std::string &f) { return in(SINGLE, f) || in(ARRAYS, f); }

// ------------------------------------------------------------------ one call with its expected outcome
struct Prep {
  Call c;
  bool want_err = false; std::string errsub; // the call must end with an error containing errsub
  bool may_err = false;                      // the call may also end with an error
  int mut = -1;                              // argument the call is meant to change
  std::vector<size_t> rows;                  // arguments with one row per observation point
  std::function<void(const Res &)> verify;   // checks the results of a call that returned normally
};
static std::string wisdom;                   // transform wisdom obtained from an earlier call of this run
static void set_rows(Prep &P, size_t ro, const V &delay) {
  P.rows = {ro};
  for (size_t i = 0; delay.size() > 1 && i < P.c.args.size(); i++) if (P.c.args[i].k == Val::MAT && P.c.args[i].c == 1 && P.c.args[i].d == delay) P.rows.push_back(i);
}
// the device (and, for das, the report) that follows the error level: 1 'cpu' 2 'gpu', which a build without OpenCL computes on the CPU, 3 'cpu', 'verbose' 4 'gpu', 'off'
static void add_device(Prep &P, const Op &o) {
  long dv = o.p.get("dv"); if (!dv) return;
  if (getenv("SIM_CLDIR") && dv % 2 == 0) dv--;     // the GPU has its own operations
  if (has_sir(o.fn) && P.c.args.size() == 5) P.c.args.push_back(Val::str("stop"));
  if (o.fn == "das" && P.c.args.size() == 8) P.c.args.push_back(Val::str("stop"));
  P.c.args.push_back(Val::str(dv % 2 ? "cpu" : "gpu"));
  if (o.fn == "das" && dv > 2) P.c.args.push_back(Val::str(dv == 3 ? "verbose" : "off"));
}
static void das_alias(Prep &P, const Op &o) { if (o.p.get("rca") && P.c.args.size() > 7 && P.c.args[7].s == "rca_coltx") P.c.args[7].s = "rca"; }
static Prep prep_sir(const Op &o) {
  Prep P;
  SirCase c = sir_case(o.fn, o.p);
  auto m = std::make_shared<SirOut>(); sir_model(c, *m);
  P.c = c.call((int)o.p.get("nout", 2)); set_rows(P, 0, c.delay); add_device(P, o);
  bool any = false; for (char b : m->oob) any |= b;
  if (any) probe(3);
  bool stop = c.err.empty() || c.err == "stop";
  if (any && stop) { P.want_err = true; P.errsub = "out-of-bounds"; }
  long status = !any ? 0 : c.err == "warn" ? 2 : 1;
  P.verify = [=](const Res &r) {
    double tol = (c.alpha > 0 ? 1e-8 : 1e-10) * m->scale + 1e-300;
    if (any) tol += 1e-10;
    expect_mat(r, o, 0, c.nt, c.No, m->H, tol);
    if (P.c.nout >= 2 && errout(r) != status) fail("wrong-status", "%s reported status %g, expected %ld", o.fn.c_str(), errout(r), status);
    bool warned = r.text.find("Warning: SIR out-of-bounds") != std::string::npos;
    if (warned != (status == 2)) fail("wrong-warning", "%s %s an out-of-bounds warning", o.fn.c_str(), warned ? "printed" : "did not print");
  };
  return P;
}
static Prep prep_das(const Op &o) {
  Prep P;
  DasCase c = das_case(o.p); auto m = std::make_shared<DasOut>(); das_model(c, *m);
  P.c = c.call(); P.c.nout = (int)o.p.get("nout", 2); set_rows(P, 3, c.delay); das_alias(P, o); add_device(P, o);
  bool any = false; for (char b : m->oob) any |= b;
  if (any) probe(3);
  if (any && (c.err.empty() || c.err == "stop")) { P.want_err = true; P.errsub = "out-of-bounds"; }
  long status = !any ? 0 : c.err == "warn" ? 2 : 1;
  P.verify = [=](const Res &r) {
    expect_mat(r, o, 0, c.No, 1, m->Im, (c.single ? 1e-4 : 1e-9) * m->scale);
    if (r.out[0].single != c.single) fail("wrong-class", "das returned %s precision data for %s precision arguments", r.out[0].single ? "single" : "double", c.single ? "single" : "double");
    if (P.c.nout >= 2 && errout(r) != status) fail("wrong-status", "das reported status %g, expected %ld", errout(r), status);
    bool warned = r.text.find("Warning: DAS out-of-bounds") != std::string::npos;
    if (warned != (status == 2)) fail("wrong-warning", "das %s an out-of-bounds warning", warned ? "printed" : "did not print");
  };
  return P;
}
static const char *CM[] = {"", "", "=", "+=", "-="};
// structured signals: A and B hold columns of am and bm samples
static void conv_style(Rng &r, const Params &p, V &A, long am, V &B, long bm) {
  long sty = p.get("sty");
  auto cols = [&](V &v, long m, auto f) { for (size_t k = 0; k + (size_t)m <= v.size(); k += (size_t)m) f(&v[k], k); };
  if (sty & 1) for (V *v : {&A, &B}) for (double &x : *v) x = std::nearbyint(3 * x);
  if (sty & 2) { double a = r.uni(-1, 1), b = r.uni(-1, 1); cols(A, am, [&](double *x, size_t) { x[0] = a; x[am - 1] = b; }); cols(B, bm, [&](double *x, size_t) { x[0] = a; x[bm - 1] = b; }); }
  if (sty & 4) for (V *v : {&A, &B}) { long m = v == &A ? am : bm; cols(*v, m, [&](double *x, size_t) { long z = r.below(m); if (r.p(0.5)) std::fill(x, x + z, 0.0); else if (r.p(0.3)) std::fill(x, x + m, 0.0); else std::fill(x + m - z, x + m, 0.0); }); }
  if (sty & 8) for (V *v : {&A, &B}) { long m = v == &A ? am : bm; cols(*v, m, [&](double *x, size_t k) { if (k && r.p(0.5)) std::copy(&(*v)[0], &(*v)[(size_t)m], x); }); }
  if (sty & 16) for (size_t i = 0; i < B.size() && i < A.size(); i++) B[i] = A[i];
  if (sty & 32) for (V *v : {&A, &B}) { long m = v == &A ? am : bm; cols(*v, m, [&](double *x, size_t) { for (long i = 0; i < m / 2; i++) x[m - 1 - i] = x[i]; }); }
}
// params: am an bm bv(0 matrix 1 column 2 row) mode(0 normal 1 in-place default 2 = 3 += 4 -=) wis nout2 blk L
static Prep prep_conv(const Op &o) {
  Prep P; const Params &p = o.p; Rng r(mix((uint64_t)p.get("ds"), 31));
  long am = p.get("am"), an = p.get("an"), bm = p.get("bm"), bv = p.get("bv"), mode = p.get("mode"), L = p.get("L", 1);
  bool sum = o.fn == "sum_fftconv";
  long n = am + bm - 1;
  V A = rnd(r, sum ? am * an * L : am * an), B = rnd(r, sum ? bm * L : bv ? bm : bm * an), Y = rnd(r, n * an), Z((size_t)(n * an), 0.0);
  conv_style(r, p, A, am, B, bm);
  if (p.has("vf")) { Rng q(mix((uint64_t)p.get("vs"), 33)); V &v = p.get("vf") % 3 == 0 ? Y : p.get("vf") % 3 == 1 ? B : A; v[q.below(v.size())] += q.uni(0.3, 1); }
  for (long k = 0; k < an; k++) {
    if (sum) {
      for (long l = 0; l < L; l++) { V z = conv_model(V(A.begin() + (l * an + k) * am, A.begin() + (l * an + k + 1) * am), V(B.begin() + l * bm, B.begin() + (l + 1) * bm)); for (long i = 0; i < n; i++) Z[k * n + i] += z[i] / (double)n; }
    } else {
      V b = bv ? B : V(B.begin() + k * bm, B.begin() + (k + 1) * bm);
      V z = conv_model(V(A.begin() + k * am, A.begin() + (k + 1) * am), b);
      std::copy(z.begin(), z.end(), Z.begin() + k * n);
    }
  }
  P.c.fn = o.fn;
  if (sum) { Val a = Val::mat(am, an, A); a.p = L; P.c.args.push_back(a); P.c.args.push_back(Val::mat(bm, L, B)); }
  else { P.c.args.push_back(Val::mat(am, an, A)); P.c.args.push_back(bv == 2 ? Val::mat(1, bm, B) : Val::mat(bm, bv ? 1 : an, B)); }
  if (o.fn == "fftconv_ola") P.c.args.push_back(Val::num((double)p.get("blk", 1)));
  bool inplace = mode > 0;
  if (inplace) { P.mut = (int)P.c.args.size(); P.c.args.push_back(Val::mat(n, an, Y)); }
  if (mode > 1 && !sum) P.c.args.push_back(Val::str(CM[mode]));
  if (p.get("wis") && o.fn != "conv_p" && wisdom.empty()) { char *w = fftw_export_wisdom_to_string(); if (w) { wisdom = w; free(w); } }
  if (p.get("wis") && o.fn != "conv_p" && !wisdom.empty()) P.c.args.push_back(Val::str(wisdom));
  P.c.nout = inplace ? 0 : p.get("nout2") && o.fn != "conv_p" ? 2 : 1;
  V want = Z;
  if (inplace) for (size_t i = 0; i < want.size(); i++) want[i] = sum || mode == 3 ? Y[i] + Z[i] : mode == 4 ? Y[i] - Z[i] : Z[i];
  double tol = 1e-12 * (maxabs(A) * maxabs(B) * (double)(am + bm) * (sum ? L : 1) + 1);
  int mut = P.mut; bool two = P.c.nout == 2;
  P.verify = [=](const Res &r) {
    if (!inplace) expect_mat(r, o, 0, n, an, want, tol);
    else cmp_mat("wrong-value", o.fn + " in-place result", r.args[mut], n, an, want, tol);
    if (two) {
      if (r.out.size() < 2 || r.out[1].k != Val::STR || r.out[1].s.find("fftw") == std::string::npos) fail("wrong-wisdom", "%s returned no transform wisdom", o.fn.c_str());
      wisdom = r.out[1].s;
    }
  };
  return P;
}
// params: am an r0 rl k0 (bn extra rows of B)
static Prep prep_copy(const Op &o) {
  Prep P; const Params &p = o.p; Rng r(mix((uint64_t)p.get("ds"), 37));
  long am = p.get("am"), an = p.get("an"), r0 = p.get("r0") % am, k0 = p.get("k0") % an;
  long rl = 1 + p.get("rl") % (am - r0), kl = 1 + p.get("kl") % (an - k0), bm = rl + p.get("bx");
  V A = rnd(r, am * an), B = rnd(r, bm * kl);
  if (p.get("sty") & 1) for (double &x : B) if (r.p(0.4)) x = r.p(0.5) ? 0 : A[0];
  if (p.get("sty") & 2) for (double &x : A) if (r.p(0.4)) x = r.p(0.5) ? 0 : 1;
  if (p.has("vf")) { Rng q(mix((uint64_t)p.get("vs"), 33)); V &v = p.get("vf") % 2 ? B : A; v[q.below(v.size())] += q.uni(0.3, 1); }
  V want = A;
  for (long k = 0; k < kl; k++) for (long i = 0; i < rl; i++) { double &w = want[(k0 + k) * am + r0 + i]; w = (o.fn == "add_p" ? w : 0) + B[k * bm + i]; }
  P.c.fn = o.fn; P.c.nout = 0; P.mut = 0;
  P.c.args = {Val::mat(am, an, A), Val::row({(double)(r0 + 1), (double)(r0 + rl)}), Val::row({(double)(k0 + 1), (double)(k0 + kl)}), Val::mat(bm, kl, B)};
  P.verify = [=](const Res &r) { cmp_mat("wrong-value", o.fn + " target", r.args[0], am, an, want, 1e-15); };
  return P;
}
static Prep prep_ana(const Op &o) {
  Prep P; AnaCase c = ana_case(o.fn, o.p); auto m = std::make_shared<AnaOut>(); ana_model(c, *m);
  P.c = c.call(); set_rows(P, 0, c.delay); add_device(P, o);
  P.verify = [=](const Res &r) { expect_ana(r, o, *m, c.nt, c.No, (o.fn == "scirc_sir" ? 1e-6 : 1e-8) * (m->scale + c.v * c.cp)); };
  return P;
}
static Prep prep_aux(const Op &o) {
  Prep P;
  if (o.fn == "dream_att") {
    AttCase c = att_case(o.p); double m; auto H = std::make_shared<V>(att_model(c, &m));
    P.c = c.call(); set_rows(P, 0, c.delay);
    P.verify = [=](const Res &r) { expect_mat(r, o, 0, c.nt, c.No, *H, 1e-9 * maxabs(*H)); };
  } else {
    WinCase c = win_case(o.p); auto w = std::make_shared<V>(win_model(c));
    P.c = c.call();
    P.verify = [=](const Res &r) { expect_mat(r, o, 0, c.n, 1, *w, 1e-12 * (1 + maxabs(*w))); };
  }
  return P;
}
static Prep py_adapt(Prep P, const Op &o);
static Prep prep_any(const Op &o);
static std::string arg_kinds(const std::string &fn, const Call &c);
static Prep prep(const Op &o) {
  Prep P = prep_any(o);
  if (!strcmp(host::name(), "python") || !strcmp(host::name(), "julia")) P = py_adapt(P, o);
  if (o.fn == "das" && o.p.get("mxd")) P.c.args[4].single = P.c.args[6].single = false;   // scalars of another class than the arrays
  if (o.fn == "das" && o.p.get("fewy") && P.c.args[0].c > 1) { Val &y = P.c.args[0]; y.c--; y.d.resize((size_t)(y.r * y.c)); P.want_err = true; P.errsub = ""; }
  if (!strcmp(host::name(), "python") || !strcmp(host::name(), "julia")) return P;
  if (o.p.get("tv")) {   // vector arguments may be rows or columns
    std::string k = arg_kinds(o.fn, P.c);
    for (size_t i = 0; i < k.size(); i++) { Val &v = P.c.args[i]; if (v.k == Val::MAT && v.p == 0 && (v.r == 1 || v.c == 1) && strchr("VDFAR", k[i]) && (o.p.get("tv") >> i & 1)) std::swap(v.r, v.c); }
  }
  return P;
}
static Prep prep_gpu(const Op &o);
static Prep prep_any(const Op &o) {
  if (o.p.get("gpu")) return prep_gpu(o);
  if (has_sir(o.fn)) return prep_sir(o);
  if (o.fn == "das") return prep_das(o);
  if (in(CONVS, o.fn)) return prep_conv(o);
  if (in(COPIES, o.fn)) return prep_copy(o);
  if (in(ANALYTIC, o.fn)) return prep_ana(o);
  if (in(AUX, o.fn)) return prep_aux(o);
  fail("harness", "unknown function %s", o.fn.c_str());
}
// calls with the compute device 'gpu' and das_uni, which always uses it. The device code leaves out what lies outside the window
static Prep prep_gpu(const Op &o) {
  Prep P; const Params &p = o.p; bool status = true;
  if (o.fn == "das_uni") {
    auto m = std::make_shared<DasOut>(); DasCase c = das_uni_case(p, P.c); das_model(c, *m); das_alias(P, o);
    P.verify = [=](const Res &r) {
      expect_mat(r, o, 0, c.No, 1, m->Im, (c.single ? 1e-4 : 1e-9) * m->scale);
      if (r.out[0].single != c.single) fail("wrong-class", "das_uni returned %s precision data for %s precision arguments", r.out[0].single ? "single" : "double", c.single ? "single" : "double");
    };
  } else if (o.fn == "das") {
    auto m = std::make_shared<DasOut>(); DasCase c = das_case(p); das_model(c, *m);
    for (char b : m->oob) if (b) { status = false; c.err = "ignore"; }
    if (c.err.empty()) c.err = "stop";
    P.c = c.call(); P.c.args.push_back(Val::str("gpu")); P.c.nout = (int)p.get("nout", 2); das_alias(P, o);
    if (p.get("dv") > 2) P.c.args.push_back(Val::str(p.get("dv") == 3 ? "verbose" : "off"));
    P.verify = [=](const Res &r) {
      expect_mat(r, o, 0, c.No, 1, m->Im, (c.single ? 1e-4 : 1e-9) * m->scale);
      if (r.out[0].single != c.single) fail("wrong-class", "das returned %s precision data for %s precision arguments", r.out[0].single ? "single" : "double", c.single ? "single" : "double");
      if (status && P.c.nout >= 2 && errout(r) != 0) fail("wrong-status", "das reported status %g", errout(r));
    };
  } else if (o.fn == "rect_sir") {
    auto m = std::make_shared<AnaOut>(); AnaCase c = ana_case(o.fn, p); ana_model(c, *m);
    P.c = c.call(); P.c.args.push_back(Val::str("gpu"));
    P.verify = [=](const Res &r) { expect_ana(r, o, *m, c.nt, c.No, 1e-8 * (m->scale + c.v * c.cp)); };
  } else {
    auto m = std::make_shared<SirOut>(); SirCase c = sir_case(o.fn, p); sir_model(c, *m);
    for (char b : m->oob) if (b) { status = false; c.err = "ignore"; }
    if (c.err.empty()) c.err = "stop";
    P.c = c.call((int)p.get("nout", 2)); P.c.args.push_back(Val::str("gpu"));
    P.verify = [=](const Res &r) {
      expect_mat(r, o, 0, c.nt, c.No, m->H, (c.alpha > 0 ? 1e-8 : 1e-10) * m->scale + 1e-10);
      if (status && P.c.nout >= 2 && errout(r) != 0) fail("wrong-status", "%s reported status %g", o.fn.c_str(), errout(r));
    };
  }
  if (p.get("short") && P.c.args[0].c > 1) { // too few A-scans
    Val &y = P.c.args[0]; y.c--; y.d.resize((size_t)(y.r * y.c)); P.want_err = true; P.errsub = "";
  }
  if (p.get("kd") && o.fn.compare(0, 3, "das") && !p.get("att")) P.may_err = true;
  return P;
}
// the Python functions take all arguments, the same order except for beamforming, and return the response only
static Prep py_adapt(Prep P, const Op &o) {
  Call &c = P.c; c.layout = (int)o.p.get("lay");
  if (o.fn == "das") {
    std::vector<Val> a = c.args; std::string err = a.size() > 8 ? a[8].s : "stop";
    if (a[2].r == 0) a[2] = a[1];       // not used by SAFT
    c.args = {a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], Val::str(err), a.size() > 9 ? a[9] : Val::str("cpu"), a.size() > 10 ? a[10] : Val::str("off")};
    c.scalar.assign(11, 0); c.scalar[4] = c.scalar[6] = 1;
    c.vec.assign(11, 0); c.vec[5] = 1;
  } else if (has_sir(o.fn)) {
    if (o.p.get("dv") && c.args.size() > 6 && (o.fn == "dreamrect" || o.fn == "dreamcirc")) c.args.pop_back();   // no device there
    static const std::vector<std::string> LV = {"stop", "warn", "ignore"};
    if (c.args.empty() || c.args.back().k != Val::STR || !in(LV, c.args.back().s)) c.args.push_back(Val::str("stop"));
    c.scalar.assign(c.args.size(), 0);
    if (in(ARRAYS, o.fn)) c.scalar[c.args.size() - 2] = 1;
    c.vec.assign(c.args.size(), 1); c.vec[0] = 0;
    if (in(ARRAYS, o.fn) && o.fn != "dream_arr_annu") c.vec[2] = 0;   // element positions
  }
  c.nout = 1;
  return P;
}
static void check_inputs(const Op &o, const Prep &P, const Res &r) {
  for (size_t i = 0; i < P.c.args.size() && i < r.args.size(); i++) {
    if ((int)i == P.mut || P.c.args[i].k == Val::NONE) continue;
    const Val &a = P.c.args[i], &b = r.args[i];
    bool same = a.k == b.k && a.s == b.s && a.d.size() == b.d.size() && (a.d.empty() || !memcmp(a.d.data(), b.d.data(), a.d.size() * sizeof(double)));
    if (!same) fail("input-changed", "%s changed its argument %zu", o.fn.c_str(), i + 1);
  }
}
// outcome of a call during which nothing was injected
static void check_clean(const Op &o, const Prep &P, const Res &r) {
  if (P.want_err) {
    if (r.foreign) fail("escaped-exception", "%s: %s", o.fn.c_str(), r.err.c_str());
    if (r.ok) fail("missing-error", "%s returned normally although a contribution lies outside the time window and the error level is 'stop'", o.fn.c_str());
    if (r.err.find(P.errsub) == std::string::npos) fail("wrong-error", "%s failed with '%s', expected '%s'", o.fn.c_str(), r.err.c_str(), P.errsub.c_str());
  } else if (!r.ok && P.may_err) {
    if (r.foreign) fail("escaped-exception", "%s: %s", o.fn.c_str(), r.err.c_str());
  } else { expect_ok(r, o); P.verify(r); }
  check_inputs(o, P, r);
}
static void run_clean(Scenario &s) {
  for (auto &o : s.ops) { Prep P = prep(o); Res r = do_call(P.c, o); check_clean(o, P, r); }
}

// ------------------------------------------------------------------ generators of calls
static void gen_sir_op(Rng &r, Op &o, bool att) {
  o.p.set("ds", (long)(r.next() >> 2));
  o.p.set("No", r.range(1, att ? 7 : 12)); o.p.set("nt", att ? r.range(15, 48) : r.range(20, 150));
  o.p.set("thr", pickl(r, {0, 0, 1, 2, 3, 4, 5, 7}));
  o.p.set("dl", r.p(0.4)); o.p.set("er", pickl(r, {0, 1, 2, 3}));
  o.p.set("grid", att ? r.range(2, 4) : r.range(2, 6));
  bool arr = o.fn.compare(0, 9, "dream_arr") == 0;
  if (arr) { o.p.set("ne", r.range(1, att ? 4 : 8)); o.p.set("foc", r.below(6)); o.p.set("steer", r.below(4)); o.p.set("apod", r.below(9)); }
  else if (o.fn == "dreamrect_f" || o.fn == "dreamcirc_f") o.p.set("foc", r.below(5));
  if (arr && o.fn != "dream_arr_annu" && o.p.get("ne") < 2) { long a = o.p.get("apod"); if (a != 0 && a != 8) o.p.set("apod", 0); }
  if (o.fn == "dream_arr_annu" && o.p.get("ne") < 3 && o.p.get("apod") != 8) o.p.set("apod", 0);
  if (att) o.p.set("att", 1);
  o.p.set("nout", r.p(0.8) ? 2 : 1);
  if (r.p(0.06)) switch (r.below(4)) {   // larger in one respect
    case 0: o.p.set("No", r.range(13, att ? 20 : 90)); if (!att) o.p.set("grid", r.range(2, 3)); break;
    case 1: o.p.set("nt", att ? r.range(49, 160) : r.range(151, 1100)); break;
    case 2: o.p.set("thr", r.range(8, 33)); break;
    case 3: if (arr && !att && o.p.get("ne") > 2) { o.p.set("ne", r.range(9, 40)); o.p.set("grid", 2); } else if (!att) o.p.set("grid", r.range(7, 20)); break;
  }
}
static void gen_das_op(Rng &r, Op &o) {
  o.p.set("ds", (long)(r.next() >> 2)); o.p.set("meth", r.below(4)); o.p.set("flt", r.p(0.4));
  o.p.set("Nt", r.range(1, 6)); o.p.set("Nr", r.range(1, 6)); o.p.set("No", r.range(1, 14)); o.p.set("len", r.range(40, 160));
  if (o.p.get("meth") >= 2) { o.p.set("Nt", r.range(2, 6)); o.p.set("Nr", r.range(2, 6)); }
  o.p.set("dl", r.p(0.4)); o.p.set("er", r.below(4)); o.p.set("thr", pickl(r, {0, 0, 1, 2, 3, 4, 5, 7})); o.p.set("nout", r.p(0.8) ? 2 : 1);
  if (r.p(0.06)) switch (r.below(4)) {
    case 0: o.p.set("No", r.range(15, 120)); break;
    case 1: o.p.set("len", r.range(161, 1200)); break;
    case 2: o.p.set("thr", r.range(8, 33)); break;
    case 3: o.p.set("Nt", r.range(7, 20)); o.p.set("Nr", r.range(7, 20)); break;
  }
}
static void gen_conv_op(Rng &r, Op &o, bool inplace) {
  o.p.set("ds", (long)(r.next() >> 2));
  bool one = r.p(0.06);
  o.p.set("am", one ? 1 : r.range(1, 40)); o.p.set("an", r.range(1, 11)); o.p.set("bm", r.p(0.06) ? 1 : r.range(2, 30));
  long bv = pickl(r, {0, 0, 1, 2});
  if (o.p.get("bm") == 1 && bv == 0) bv = 1;   // a 1 x N matrix is a vector
  o.p.set("bv", bv);
  o.p.set("mode", inplace ? r.range(1, 4) : 0);
  // a 1 x 1 target is a scalar in Octave, which has no storage that a call could write to
  if (inplace && o.p.get("an") == 1 && o.p.get("am") + o.p.get("bm") < 3) o.p.set("am", 2);
  if (o.fn != "conv_p") { o.p.set("wis", r.p(0.4)); o.p.set("nout2", r.p(0.3)); }
  if (o.fn == "fftconv_ola") o.p.set("blk", r.range(1, o.p.get("am")));
  if (o.fn == "sum_fftconv") { o.p.set("L", r.range(2, 4)); if (inplace && !r.p(0.5)) o.p.set("wis", 1); if (inplace && wisdom.empty()) {} }
  o.p.set("thr", pickl(r, {0, 0, 1, 2, 3, 4, 5, 7}));
  if (r.p(0.06)) switch (r.below(3)) {
    case 0: o.p.set("an", r.range(12, 90)); break;
    case 1: if (o.p.get("am") > 1 && o.p.get("bm") > 1) { o.p.set("am", r.range(41, 300)); if (o.fn == "fftconv_ola") o.p.set("blk", r.range(1, o.p.get("am"))); } break;
    case 2: o.p.set("thr", r.range(8, 33)); break;
  }
}
static void gen_copy_op(Rng &r, Op &o) {
  o.p.set("ds", (long)(r.next() >> 2));
  o.p.set("am", r.range(1, 30)); o.p.set("an", r.range(1, 14)); if (o.p.get("am") * o.p.get("an") == 1) o.p.set("am", 2); o.p.set("r0", r.p(0.4) ? 0 : r.below(30)); o.p.set("rl", r.p(0.3) ? 0 : r.below(30));
  o.p.set("k0", r.p(0.4) ? 0 : r.below(14)); o.p.set("kl", r.below(14)); o.p.set("bx", r.p(0.2) ? r.range(1, 4) : 0); o.p.set("thr", pickl(r, {0, 0, 1, 2, 3, 4, 5, 7}));
  if (r.p(0.06)) switch (r.below(2)) { case 0: o.p.set("an", r.range(15, 90)); o.p.set("kl", r.below(90)); break; case 1: o.p.set("thr", r.range(8, 33)); break; }
}
static void gen_ana_op(Rng &r, Op &o) {
  o.p.set("ds", (long)(r.next() >> 2)); o.p.set("No", r.range(1, 12)); o.p.set("nt", r.range(10, 120)); o.p.set("dl", r.p(0.4)); o.p.set("quad", r.below(r.p(0.3) ? 5 : 4)); if (r.p(0.15)) o.p.set("eda", 1);
  o.p.set("il", r.range(1, 8)); o.p.set("thr", pickl(r, {0, 0, 1, 2, 3, 4, 5, 7}));
  if (r.p(0.06)) switch (r.below(3)) { case 0: o.p.set("No", r.range(13, 90)); break; case 1: o.p.set("nt", r.range(121, 1100)); break; case 2: o.p.set("thr", r.range(8, 33)); break; }
}
static void gen_aux_op(Rng &r, Op &o) {
  o.p.set("ds", (long)(r.next() >> 2)); o.p.set("No", r.p(0.1) ? r.range(13, 60) : r.range(1, 12)); o.p.set("nt", r.range(1, 60)); o.p.set("dl", r.p(0.4)); o.p.set("apod", r.below(9));
}
static void gen_op(Rng &r, Op &o) {
  if (in(AUX, o.fn)) gen_aux_op(r, o);
  else if (has_sir(o.fn)) gen_sir_op(r, o, r.p(0.25));
  else if (o.fn == "das") gen_das_op(r, o);
  else if (in(CONVS, o.fn)) gen_conv_op(r, o, r.p(0.4));
  else if (in(COPIES, o.fn)) gen_copy_op(r, o);
  else gen_ana_op(r, o);
  if (r.p(0.25)) o.p.set("tv", r.range(1, 16383));
}
static void gen_style(Rng &r, Op &o) {
  if (r.p(0.12) && (o.fn == "das" || o.fn == "dreamrect" || o.fn == "dreamcirc" || o.fn == "rect_sir")) o.p.set("dv", r.range(1, 4));
  if (r.p(0.3) && o.p.get("meth") == 2) o.p.set("rca", 1);
  if (!o.p.has("sty") && r.p(0.3)) { long s = 1L << r.below(9); if (r.p(0.4)) s |= 1L << r.below(9); o.p.set("sty", s); } }
static long horizon_of(const std::string &fn) { return has_sir(fn) ? 6000 : 2500; }
// a call like an earlier one: the same shape with other values, so that anything kept from the earlier call shows
static void like_earlier(Rng &r, Scenario &s, Op &o) {
  for (size_t k = s.ops.size(); k-- > 0;) {
    const Op &b = s.ops[k];
    if (b.fn != o.fn) continue;
    long thr = o.p.get("thr"), er = o.p.get("er"); bool her = o.p.has("er");
    Op q; q.fn = o.fn;
    for (auto &x : o.p.v) if ((x.first[0] == 'f' && x.first != "foc" && x.first != "flt") || x.first.compare(0, 3, "sig") == 0) q.p.set(x.first.c_str(), x.second);
    for (auto &x : b.p.v) if (!((x.first[0] == 'f' && x.first != "foc" && x.first != "flt") || x.first.compare(0, 3, "sig") == 0)) q.p.set(x.first.c_str(), x.second);
    auto swp = [&](const char *a, const char *b) { long x = q.p.get(a), y = q.p.get(b); q.p.set(a, y); q.p.set(b, x); };
    auto inc = [&](const char *a, long lo) { if (q.p.has(a)) q.p.set(a, std::max(lo, q.p.get(a) + (r.p(0.5) ? 1 : -1))); };
    double u = r.u();
    if (u < 0.45) q.p.set("ds", (long)(r.next() >> 2));
    else if (u < 0.8) { q.p.set("vf", r.below(204)); q.p.set("vs", (long)(r.next() >> 2)); }   // the same but for one field
    else if (u < 0.93) {   // another shape, alike in its products and sums
      q.p.drop("vf");
      if (in(CONVS, o.fn)) { if (r.p(0.6) && q.p.get("am") > 1 && q.p.get("bm") > 1) swp("am", "bm"); else { inc("am", 2); inc("bm", 2); } if (q.p.has("blk")) q.p.set("blk", r.range(1, q.p.get("am"))); }
      else if (in(COPIES, o.fn)) { if (r.p(0.5)) swp("r0", "k0"); else inc("rl", 0); }
      else if (o.fn == "das" && r.p(0.3)) swp("Nt", "Nr");
      else if (o.fn == "das" && r.p(0.6)) inc(r.p(0.5) ? "Nt" : "Nr", q.p.get("meth") >= 2 ? 2 : 1);
      else if (q.p.has("ne") && r.p(0.3)) inc("ne", o.fn == "dream_arr_annu" ? 3 : 2);
      else if (q.p.has("grid") && r.p(0.2)) inc("grid", 2);
      else if (r.p(0.5)) inc("No", 1); else inc(o.fn == "das" ? "len" : "nt", o.fn == "das" ? 40 : 15);
    }
    if (r.p(0.5)) { q.p.set("thr", thr); if (her) q.p.set("er", er); }
    o = q; return;
  }
}
static void gen_list(Rng &r, Scenario &s, const std::vector<std::string> &fns, long idx, int nmax, std::function<void(Rng &, Op &)> g) {
  gen_sched(r, s, horizon_of(fns[idx % fns.size()]));
  int n = (int)r.range(1, nmax);
  for (int i = 0; i < n; i++) { 
    Op o; bool like = i > 0 && r.p(0.4);
    o.fn = i == 0 ? fns[idx % fns.size()] : like ? s.ops[r.below(s.ops.size())].fn : fns[r.below(fns.size())];
    g(r, o); gen_style(r, o); if (like) like_earlier(r, s, o);
    if (!o.p.has("tv") && r.p(0.2)) o.p.set("tv", r.range(1, 16383));
    s.ops.push_back(o);
  }
}
static void gen_C01(Rng &r, Scenario &s, long i) { gen_list(r, s, SINGLE, i, 3, [](Rng &r, Op &o) { gen_sir_op(r, o, false); }); }
static void gen_C02(Rng &r, Scenario &s, long i) { gen_list(r, s, ARRAYS, i, 3, [](Rng &r, Op &o) { gen_sir_op(r, o, false); }); }
static void gen_C03(Rng &r, Scenario &s, long i) { gen_list(r, s, cat(SINGLE, ARRAYS), i, 3, [](Rng &r, Op &o) { gen_sir_op(r, o, true); }); }
static void gen_C04(Rng &r, Scenario &s, long i) { gen_list(r, s, DASF, i, 3, gen_das_op); }
static void gen_C05(Rng &r, Scenario &s, long i) { gen_list(r, s, {"conv_p", "fftconv_p", "sum_fftconv"}, i, 4, [](Rng &r, Op &o) { gen_conv_op(r, o, false); }); }
static void gen_C06(Rng &r, Scenario &s, long i) { gen_list(r, s, CONVS, i, 4, [](Rng &r, Op &o) { gen_conv_op(r, o, r.p(0.85)); }); }
static void gen_C07(Rng &r, Scenario &s, long i) { gen_list(r, s, {"fftconv_ola"}, i, 4, [](Rng &r, Op &o) { gen_conv_op(r, o, r.p(0.4)); }); }
static void gen_C08(Rng &r, Scenario &s, long i) { gen_list(r, s, COPIES, i, 4, gen_copy_op); }
static void gen_C09(Rng &r, Scenario &s, long i) { gen_list(r, s, ANALYTIC, i, 3, gen_ana_op); }
// C10: error levels. Some calls have contributions outside the window, in different places
static void gen_C10(Rng &r, Scenario &s, long i) {
  gen_list(r, s, cat(cat(SINGLE, ARRAYS), DASF), i, 4, [](Rng &r, Op &o) {
    if (o.fn == "das") gen_das_op(r, o); else gen_sir_op(r, o, r.p(0.2));
    if (r.p(0.75)) { o.p.set("oob", r.range(1, 2)); o.p.set("oobn", r.below(12)); if (r.p(0.7)) o.p.set("dl", 1); }
  });
}


// ------------------------------------------------------------------ calls with faults
static bool interrupt_text(const std::string &e) { return e.find("CTRL-C") != std::string::npos || e.find("interrupt") != std::string::npos; }
// a call during which a fault was injected must end with an error or with the complete result
static void check_faulted(const Op &o, const Prep &P, const Res &r) {
  if (!r.faulted) { check_clean(o, P, r); return; }
  if (r.foreign) fail("escaped-exception", "%s: %s", o.fn.c_str(), r.err.c_str());
  bool sig = r.fired[F_SIGINT] || r.fired[F_SIGTERM] || r.fired[F_SIGABRT] || r.fired[F_HOSTINT];
  bool mem = r.fired[F_ALLOC] || r.fired[F_FFTW_PLAN] || r.fired[F_WISDOM] || r.fired[F_CLAPI];
  if (r.ok) {
    probe(6);
    if (P.want_err) fail("missing-error", "%s returned normally although a contribution lies outside the time window and the error level is 'stop'", o.fn.c_str());
    P.verify(r);
  } else {
    probe(7);
    bool legit = (sig && interrupt_text(r.err)) || (P.want_err && r.err.find(P.errsub) != std::string::npos) || (mem && !interrupt_text(r.err)) || (P.may_err && !interrupt_text(r.err));
    if (!legit) fail("wrong-error", "%s failed with '%s'", o.fn.c_str(), r.err.c_str());
  }
  check_inputs(o, P, r);
}
static long units(const Op &o, const Prep &P) {
  if (has_sir(o.fn) || o.fn == "das" || in(ANALYTIC, o.fn)) return o.p.get("No");
  if (in(COPIES, o.fn)) return P.c.args[3].c;
  return o.p.get("an");
}
// make the fault position of an operation relative to the measured length of an undisturbed run of the same call
static void place_fault(Op &o, const Res &clean) {
  long span = o.p.get("sigs") ? clean.syncs : clean.steps;   // a share of all steps, or of the calls to the system, the threads and FFTW
  if (o.p.has("sigpm")) { o.p.set("sigat", std::max(1L, span * o.p.get("sigpm") / 1000)); o.p.set("sigw", o.p.get("sigs") != 0); if (o.p.get("sigs") > 1) o.p.set("sigat", o.p.get("sigs") - 1); }
  if (o.p.has("sigpm2")) o.p.set("sigat2", std::max(1L, span * o.p.get("sigpm2") / 1000));
  if (o.p.has("fapm")) o.p.set("fa", clean.allocs * o.p.get("fapm") / 1000);
  if (o.p.has("fapm2")) o.p.set("fa2", clean.allocs * o.p.get("fapm2") / 1000);
  for (auto k : {std::pair<const char *, const char *>{"fawpm", "faw"}, {"fawpm2", "faw2"}}) if (o.p.has(k.first)) {
    if (clean.wallocs) o.p.set(k.second, clean.wallocs * o.p.get(k.first) / 1000);
    else o.p.set(k.second[3] ? "fa2" : "fa", clean.allocs * o.p.get(k.first) / 1000);   // computed on the calling thread
  }
  if (o.p.has("fppm")) o.p.set("fp", clean.plans * o.p.get("fppm") / 1000);
  if (o.p.has("fcl1")) o.p.set("fcl", clean.cls * o.p.get("fcl1") / 1000);
}
static bool wants_fault(const Op &o) { for (const char *k : {"sigpm", "fapm", "fawpm", "fppm", "fcl1", "fc", "fw", "sig"}) if (o.p.has(k)) return true; return false; }
// C11
static void run_interrupt(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o);
    Op q = o; q.p.drop("sig");
    Res clean = do_call(P.c, q);
    check_clean(o, P, clean);
    place_fault(o, clean);
    Res r = do_call(P.c, o);
    check_faulted(o, P, r);
    if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
    if (!r.ok && interrupt_text(r.err)) probe(5);
    if (!r.faulted || r.signal_ignored) continue;
    long n = units(o, P), w = std::max(1L, std::min({n, clean.creates ? clean.creates : 1L}));
    if (n < 6 * w || r.sig_step < 0) continue;
    double unit = clean.steps / (double)n * 1.4;
    auto bound_of = [&]() { return (2.0 * w + 1) * unit + 400; };
    double bound = bound_of();
    if ((double)(r.steps - r.sig_step) > bound && !P.rows.empty()) {   // the points may cost differently: measure each alone
      for (long k = 0; k < n; k++) {
        Call c1 = P.c;
        for (size_t a : P.rows) { Val &v = c1.args[a]; if (v.r == 1) { v.r = v.c; v.c = 1; } Val x = Val::mat(1, v.c); x.single = v.single; for (long j = 0; j < v.c; j++) x.d[j] = v.d[j * v.r + k]; v = x; }
        Op q1 = q; q1.p.set("thr", 1);
        unit = std::max(unit, 1.1 * (double)do_call(c1, q1).steps);
      }
      bound = bound_of();
    }
    if (r.ok || (double)(r.steps - r.sig_step) > bound) {   // did it come while the call was still being set up?
      long first = clean.first_create;
      if (first < 0) { Op q1 = q; q1.p.set("thr", 2); first = do_call(P.c, q1).first_create; }
      if (first < 0 && r.sig_step < clean.steps * 3 / 10) continue;
      if (r.ok && r.sig_step < first) fail("lost-interrupt", "%s computed all of its %ld columns or points on %ld threads although the interrupt had come before the first thread was started", o.fn.c_str(), n, w);
      if (first > r.sig_step) bound += first - r.sig_step;
    }
    if ((double)(r.steps - r.sig_step) > bound) fail("late-stop", "%s went on for %ld steps after the interrupt; %ld threads, %ld columns or points and %ld steps in all allow %.0f", o.fn.c_str(), r.steps - r.sig_step, w, n, clean.steps, bound);
  }
}
static void gen_big(Rng &r, Op &o) {
  gen_op(r, o);
  if (has_sir(o.fn)) { o.p.set("No", r.range(12, 36)); o.p.set("grid", 3); o.p.set("nt", std::min(60L, o.p.get("nt"))); }
  else if (o.fn == "das" || in(ANALYTIC, o.fn)) o.p.set("No", r.range(12, 40));
  else if (in(COPIES, o.fn)) { o.p.set("an", r.range(14, 40)); o.p.set("am", r.range(5, 30)); o.p.set("k0", 0); o.p.set("kl", o.p.get("an") - 1); o.p.set("rl", r.range(5, 29)); o.p.set("r0", 0); }
  else { o.p.set("an", r.range(14, 40)); o.p.set("am", r.range(4, 16)); o.p.set("bm", r.range(4, 12)); if (o.fn == "fftconv_ola") o.p.set("blk", r.range(2, o.p.get("am"))); }
  o.p.set("thr", pickl(r, {1, 1, 2, 2, 3, 4, 7}));
}
static int pick_sig(Rng &r, const std::string &fn) {
  if (in(CONVS, fn) || in(COPIES, fn) || fn == "circ_sir" || fn == "scirc_sir") return (int)pickl(r, {SIGINT, SIGINT, SIGTERM, SIGABRT});
  // these do not poll the interpreter's own interrupt flag for each point; SIGINT is all they have to react to
  if (fn == "rect_sir" || fn == "das" || fn == "dreamline") return SIGINT;
  return (int)pickl(r, {SIGINT, SIGINT, SIGINT, -1});
}
static void gen_C11(Rng &r, Scenario &s, long i) {
  gen_list(r, s, THRF, i, 1, [](Rng &r, Op &o) {
    gen_big(r, o);
    o.p.set("sig", pick_sig(r, o.fn)); o.p.set("sigpm", r.range(1, 999)); if (r.p(0.3)) o.p.set("sigs", r.p(0.5) ? 1 : r.range(2, 11));
    if (r.p(0.3)) o.p.set("sigpm2", r.range(1, 999));
    if (r.p(0.1) && (has_sir(o.fn) || o.fn == "das")) { o.p.set("oob", r.range(1, 2)); o.p.set("oobn", r.below(12)); }
  });
}
// C12: what one call did must not show in the next
static void add_fault(Rng &r, Op &o, int kind) {
  if (in(AUX, o.fn)) kind = kind == 4 && o.fn == "dream_att" ? 4 : 1;   // no threads, signal handlers or status
  switch (kind) {
    case 0: o.p.set("sig", pick_sig(r, o.fn)); o.p.set("sigpm", r.range(1, 999)); if (r.p(0.3)) o.p.set("sigs", r.p(0.5) ? 1 : r.range(2, 11)); break;
    case 1: {
      bool w = (in(FFTS, o.fn) || o.p.get("att") || o.fn == "dream_arr_annu") && r.p(0.5);   // in a worker thread
      o.p.set(w ? "fawpm" : "fapm", r.range(0, 999)); if (r.p(0.2)) o.p.set(w && r.p(0.5) ? "fawpm2" : "fapm2", r.range(0, 999)); break;
    }
    case 2: if (r.p(0.2)) { o.p.set("fcall", r.below(4)); break; } o.p.set("fc", r.below(6)); if (r.p(0.5)) o.p.set("fc2", r.below(6)); break;
    case 3: if (has_sir(o.fn) || o.fn == "das") { o.p.set("oob", r.range(1, 2)); o.p.set("oobn", r.below(12)); } break;
    case 4: o.p.set("fppm", r.range(0, 999)); break;
    case 5: o.p.set("fw", 0); break;
  }
}
static void run_history(Scenario &s) {
  std::map<std::string, Res> len; bool failed = false;
  for (auto &o : s.ops) {
    Prep P = prep(o);
    if (o.p.has("sigpm") || o.p.has("fapm") || o.p.has("fawpm") || o.p.has("fppm")) {
      Op q; q.fn = o.fn; for (auto &x : o.p.v) if (x.first != "sig" && x.first[0] != 'f') q.p.set(x.first.c_str(), x.second);
      q.p.set("foc", o.p.get("foc")); q.p.set("flt", o.p.get("flt"));
      Res clean = do_call(P.c, q); check_clean(q, P, clean);
      place_fault(o, clean);
    }
    Res r = do_call(P.c, o);
    if (failed && !wants_fault(o)) probe(8);
    check_faulted(o, P, r);
    if (!r.ok) failed = true;
  }
}
// C24: the number of threads
static void run_threads(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o); long n = units(o, P); Res first; bool have = false;
    for (int k = 0; k < 3; k++) {
      Op q = o;
      if (k) { q.p.set("thr", o.p.get(k == 1 ? "thr1" : "thr2")); q.p.set("nc", o.p.get(k == 1 ? "nc1" : "nc2")); if (o.p.get("envk") == k) q.p.set("env", o.p.get("envn")); }
      if (k != o.p.get("fck")) { q.p.drop("fc"); q.p.drop("fcall"); }
      long nc = q.p.get("nc", 4); set_ncpu((int)nc);
      Res r = do_call(P.c, q);
      if (q.p.has("fc") || q.p.has("fcall")) check_faulted(q, P, r); else check_clean(q, P, r);
      long limit = std::min(n, nc); bool known = !q.p.has("env");
      if (known && q.p.get("thr") > 0) limit = std::min(limit, q.p.get("thr"));
      limit = std::max(limit, 1L);
      if (r.peak > limit) fail("too-many-threads", "%s ran %ld threads at once; %ld cores, DREAM_NUM_THREADS %s and %ld columns or points allow %ld", o.fn.c_str(), r.peak, nc, !known ? "not a number" : q.p.get("thr") > 0 ? std::to_string(q.p.get("thr")).c_str() : "not set", n, limit);
      if (!r.ok || r.fired[F_THREAD_CREATE]) continue;
      if (known && limit >= 2) {
        if (r.creates == 0 || r.creates < limit - 1) fail("not-shared", "%s started %ld threads for its %ld columns or points although %ld are allowed", o.fn.c_str(), r.creates, n, limit);
        if (n >= 4 && r.creates >= 2 && r.wsum > 2000 && r.wmost > 0.95 * r.wsum) fail("not-shared", "%s did %ld of the %ld steps of its %ld threads on one of them, for %ld columns or points", o.fn.c_str(), r.wmost, r.wsum, r.creates, n);
      }
      if (!have) { first = r; have = true; continue; }
      auto same = [&](const Val &a, const Val &b, const char *what, size_t i) {
        if (a.r != b.r || a.c != b.c || a.d.size() != b.d.size()) fail("thread-dependent", "%s %s %zu is a %ldx%ld matrix or a %ldx%ld matrix, depending on the number of threads", o.fn.c_str(), what, i + 1, a.r, a.c, b.r, b.c);
        double m = 0; for (double d : a.d) if (std::isfinite(d)) m = std::max(m, std::fabs(d));
        for (size_t j = 0; j < a.d.size(); j++) if (!(a.d[j] == b.d[j]) && !(std::isnan(a.d[j]) && std::isnan(b.d[j])) && !(std::fabs(a.d[j] - b.d[j]) <= (a.single ? 1e-6 : 1e-13) * m))
          fail("thread-dependent", "%s %s %zu: element %zu is %.17g or %.17g, depending on the number of threads", o.fn.c_str(), what, i + 1, j, a.d[j], b.d[j]);
      };
      for (size_t i = 0; i < first.out.size() && i < r.out.size(); i++) if (first.out[i].k == Val::MAT && r.out[i].k == Val::MAT) same(first.out[i], r.out[i], "result", i);
      if (P.mut >= 0 && (size_t)P.mut < r.args.size()) same(first.args[P.mut], r.args[P.mut], "argument", (size_t)P.mut);
    }
  }
}
static void gen_C24(Rng &r, Scenario &s, long i) {
  gen_list(r, s, THRF, i, 2, [](Rng &r, Op &o) {
    if (r.p(0.5)) gen_big(r, o); else gen_op(r, o);
    for (const char *k : {"thr", "thr1", "thr2"}) o.p.set(k, pickl(r, {0, 1, 2, 2, 3, 4, 5, 7, 9, 16, 300}));
    for (const char *k : {"nc", "nc1", "nc2"}) o.p.set(k, pickl(r, {1, 2, 2, 3, 4, 4, 6, 8, 12, 32}));
    if (r.p(0.2)) { o.p.set("envk", r.range(1, 2)); o.p.set("envn", r.below(10)); }
    if (r.p(0.2)) { o.p.set("fck", r.below(3)); if (r.p(0.3)) o.p.set("fcall", r.below(4)); else o.p.set("fc", r.below(6)); } else o.p.set("fck", 9);
  });
}
// C21: functions without threads
static void gen_C21(Rng &r, Scenario &s, long i) {
  gen_list(r, s, AUX, i, 6, [](Rng &r, Op &o) { gen_op(r, o); if (r.p(0.4)) add_fault(r, o, (int)r.below(5)); });
}
// C22: malformed arguments. Kinds of arguments: O matrix with three columns, V vector of fixed length, D delay, S option, F focusing parameter,
// A apodization weights, W scalar, R radii, Y any matrix, B matrix or vector that must match an earlier argument, Z in-place target
static std::string arg_kinds(const std::string &fn, const Call &c) {
  std::string k;
  if (in(ARRAYS, fn)) k = fn == "dream_arr_annu" ? "ORVDVSFSAWS" : "OVOVDVSFSVSAWS";
  else if (fn == "dreamrect_f" || fn == "dreamcirc_f") k = "OVVDVSFS";
  else if (has_sir(fn)) k = "OVVDVST";
  else if (fn == "das") k = c.args[7].s == "saft" ? "YOYOVDVSSTT" : "YOOOVDVSSTT";
  else if (in(ANALYTIC, fn)) k = fn == "scirc_sir" ? "OVVDVW" : "OVVDVT";
  else if (fn == "das_uni") k = c.args[7].s == "saft" ? "YVYOVDVS" : "YVVOVDVS";
  else if (fn == "dream_att") k = "OVDV";
  else if (fn == "dream_apodwin") k = "SAW";
  else if (in(COPIES, fn)) k = "YVVB";
  else { k = "YB"; if (fn == "fftconv_ola") k += "W"; while (k.size() < c.args.size()) k += c.args[k.size()].k == Val::STR ? 's' : 'Z'; }
  if (k.size() > c.args.size()) k.resize(c.args.size());
  return k;
}
static size_t min_args(const std::string &fn, const std::string &k) {
  if (in(ARRAYS, fn)) return k.size() - (fn == "dream_arr_annu" ? k.size() > 10 : k.size() > 13);
  if (fn == "dreamrect_f" || fn == "dreamcirc_f") return 7;
  if (has_sir(fn)) return 5;
  if (fn == "das") return 8;
  if (in(CONVS, fn)) return fn == "fftconv_ola" ? 3 : 2;
  if (in(ANALYTIC, fn)) return fn == "scirc_sir" ? 6 : 5;
  return k.size();
}
static Val resized(const Val &v, long r, long c) {
  Val x = Val::mat(r, c); x.single = v.single;
  for (long j = 0; j < c; j++) for (long i = 0; i < r; i++) x.d[j * r + i] = v.d.empty() ? 1 : v.d[(size_t)((j < v.c ? j : v.c - 1) * v.r + (i < v.r ? i : v.r - 1))];
  return x;
}
enum { MAY_FAIL = 1, MUST_FAIL = 2 };
static int malform(Prep &P, const Op &o) {
  Rng r(mix((uint64_t)o.p.get("mf"), 77)); Call &c = P.c; std::string k = arg_kinds(o.fn, c);
  if (r.p(0.1)) {
    size_t n = min_args(o.fn, k);
    if (r.p(0.4)) { c.args.resize(r.below(n)); return MUST_FAIL; }
    if (r.p(0.3)) { c.nout += 9; return MUST_FAIL; }
    for (int i = 0; i < 9; i++) c.args.push_back(Val::num(1));
    return MUST_FAIL;
  }
  if (has_sir(o.fn) && o.fn.find("cylind") != std::string::npos && r.p(0.06)) {   // wider than the cylinder
    Val &g = c.args[1]; g.d[1] = std::fabs(g.d[2]) * (r.p(0.5) ? r.uni(2.0001, 2.05) : r.uni(2.05, 9)); return MUST_FAIL;
  }
  if (in(CONVS, o.fn) && r.p(0.2)) {
    static const char *MODES[] = {"==", "=+", "+", "-", " =", "+= ", "*=", "=\n", "wisdom"};
    bool mode = P.mut >= 0 && (size_t)P.mut + 1 < c.args.size() && c.args[P.mut + 1].s.size() < 3;
    if (mode && r.p(0.7)) { c.args[P.mut + 1].s = MODES[r.below(9)]; return MUST_FAIL; }
    if (P.mut >= 0 && (size_t)P.mut + 1 == c.args.size() && r.p(0.5)) { c.nout = (int)r.range(1, 2); return MUST_FAIL; }   // in place and a result
    c.args.push_back(r.p(0.3) ? Val::num(3) : Val::str(MODES[r.below(9)]));
    return MUST_FAIL;
  }
  size_t a = r.below(c.args.size()); Val &v = c.args[a]; char t = k[a];
  if (v.k == Val::STR) {
    bool opt = t == 'S' || t == 's';
    switch (r.below(3)) {
      case 0: v = Val::str("nonsense"); break;
      case 1: v = Val::str(""); break;
      default: v = Val::num(3); return opt || t == 'T' || o.fn == "conv_p" ? MUST_FAIL : MAY_FAIL;
    }
    return opt ? MUST_FAIL : MAY_FAIL;
  }
  bool vec = v.r == 1 || v.c == 1; long n = v.r * v.c;
  long No = o.fn == "das_uni" ? o.p.get("Nx") * o.p.get("Ny") * o.p.get("Nz") : o.p.get("No");
  if (v.p > 0) { v = resized(Val::mat(2, 2, {1, 2, 3, 4}), r.range(0, 3), r.range(0, 3)); return MAY_FAIL; }
  bool ud = t == 'A' && a > 0 && o.fn != "dream_apodwin" && c.args[a - 1].s == "ud";
  bool strict = strchr("OVFWRD", t) || ud;
  switch (r.below(8)) {
    case 0: v = resized(v, 0, r.p(0.5) ? 0 : t == 'O' ? 3 : 1); return strict && !(t == 'O' && v.c == 3) && !(o.fn == "das" && a == 2) ? MUST_FAIL : MAY_FAIL;
    case 1: // one column or element less
      if (t == 'D' && n - 1 == 1) return 0;
      if (t == 'R') { if (n < 2) return 0; v = resized(v, v.r == 1 ? 1 : n - 1, v.r == 1 ? n - 1 : 1); return MUST_FAIL; }
      if (n == 0) return 0;
      if (t == 'O' || !vec) { v = resized(v, v.r, v.c - 1); return t == 'O' || (t == 'B' && in(CONVS, o.fn) && v.c > 1 && v.r > 1) ? MUST_FAIL : MAY_FAIL; }
      v = resized(v, v.r == 1 ? 1 : n - 1, v.r == 1 ? n - 1 : 1); return strict ? MUST_FAIL : MAY_FAIL;
    case 2: // one more
      if (t == 'D' && n + 1 == No) return 0;
      if (t == 'O' || !vec) { v = resized(v, v.r, v.c + 1); return t == 'O' || (t == 'B' && in(CONVS, o.fn) && v.r > 1) ? MUST_FAIL : MAY_FAIL; }
      v = resized(v, v.r == 1 ? 1 : n + 1, v.r == 1 ? n + 1 : 1); return strict ? MUST_FAIL : MAY_FAIL;
    case 3: // a matrix for a vector, and the reverse
      if (vec && n > 3 && n % 2 == 0 && r.p(0.4)) { if (r.p(0.5)) { v.r = 2; v.c = n / 2; } else { v.r = n / 2; v.c = 2; } return t == 'V' ? MUST_FAIL : MAY_FAIL; }
      if (vec && t != 'O') { v = resized(v, 2, n > 1 ? n : 2); return (strict && t != 'D') || (t == 'D' && 2 * (n > 1 ? n : 2) != No) ? MUST_FAIL : MAY_FAIL; }
      v = resized(v, 1, 1); return t == 'O' ? MUST_FAIL : MAY_FAIL;
    case 4: v = r.p(0.5) ? Val::str("abc") : Val::str(""); return MAY_FAIL;
    case 5: v.alt = (int)r.range(1, 6); v.single = false; return (v.alt == 6 || v.alt == 4) && !strchr("FAW", t) ? MUST_FAIL : MAY_FAIL;
    case 6: { Val x = v; x.p = 2; x.d.insert(x.d.end(), v.d.begin(), v.d.end()); v = x; return MAY_FAIL; }
    default: { // values
      static const double B[] = {NAN, INFINITY, -INFINITY, -1, 0, 0.5, -1e18, 1e18, 1e300};
      double b = B[r.below(9)];
      if (n == 0) return 0;
      size_t e = r.below((uint64_t)n);
      bool sampling = t == 'V' && has_sir(o.fn) && a == (in(ARRAYS, o.fn) && o.fn != "dream_arr_annu" ? 3 : 2);
      bool big = !(std::fabs(b) < 1e6);
      if (sampling && e < 3 && !(b > 0)) { v.d[e] = b; return MUST_FAIL; }
      if (has_sir(o.fn) && (a == 1 || t == 'R')) { if (!(b <= 1)) return 0; }   // size of the aperture
      if (big && ((sampling && e >= 2) || t == 'V' || t == 'W' || (o.fn == "dream_apodwin" && a == 1))) return 0;   // sizes that only exhaust the memory or the time
      v.d[e] = v.single ? (double)(float)b : b; return MAY_FAIL;
    }
  }
}
// the same for Python: the number of arguments is fixed, and arguments can be other objects than arrays
static const int PY_SAME = 6;      // kinds of objects up to this one hold the values of the array
static int malform_py(Prep &P, const Op &o, bool &same) {
  Rng r(mix((uint64_t)o.p.get("mf"), 77)); Call &c = P.c; same = false;
  std::string k = o.fn == "das" ? c.args[7].s == "saft" ? "YOYOWDWSSSs" : "YOOOWDWSSSs" : o.fn == "fftconv_p" ? "YB" : arg_kinds(o.fn, c);
  if (r.p(0.05)) {
    if (r.p(0.5)) { c.args.resize(r.below(c.args.size())); return MUST_FAIL; }
    c.args.push_back(Val::num(1)); return MUST_FAIL;
  }
  if (o.fn == "dreamcylind" && r.p(0.05)) { Val &g = c.args[1]; g.d[1] = std::fabs(g.d[2]) * (r.p(0.5) ? r.uni(2.0001, 2.05) : r.uni(2.05, 9)); return MUST_FAIL; }
  size_t a = r.below(c.args.size()); Val &v = c.args[a]; char t = k[a];
  if (v.k == Val::STR) {
    int how = t == 'S' ? MUST_FAIL : MAY_FAIL;
    switch (r.below(6)) {
      case 0: v = Val::str("nonsense"); return how;
      case 1: v = Val::str(""); return how;
      case 2: v = Val::str("o\xffff"); return how;
      case 3: v = Val::str(std::string(5000, 'x')); return how;
      case 4: v = Val::num(3); return MUST_FAIL;
      default: { int alts[] = {1, 13, 15}; v = Val::num(3); v.alt = alts[r.below(3)]; return v.alt == 15 ? MAY_FAIL : MUST_FAIL; }
    }
  }
  long n = (long)v.d.size(), No = o.p.get("No"); bool vec = v.r == 1 || v.c == 1;
  if (r.p(0.4)) {
    v.alt = (int)r.range(1, 15); same = v.alt > 1 && v.alt <= PY_SAME && t != 'W';
    if (t == 'Y' || t == 'B') return v.alt == 13 ? MUST_FAIL : MAY_FAIL;
    return v.alt == 13 && !(t == 'A' || t == 'F') ? MUST_FAIL : MAY_FAIL;
  }
  if (t == 'W') {
    static const double B[] = {NAN, INFINITY, -1, 0, 1e300};
    if (r.p(0.5)) { v = r.p(0.5) ? Val::str("1") : Val::mat(2, 2, {1, 2, 3, 4}); return MAY_FAIL; }
    v = Val::num(B[r.below(5)]); return MAY_FAIL;
  }
  bool ud = t == 'A' && c.args[a - 1].s == "ud", strict = strchr("OVFRD", t) || ud;
  switch (r.below(6)) {
    case 0: v = resized(v, 0, r.p(0.5) ? 0 : t == 'O' ? 3 : 1); return strict && !(t == 'O' && v.c == 3) ? MUST_FAIL : MAY_FAIL;
    case 1:
      if (n == 0 || (t == 'D' && n - 1 == 1) || (t == 'R' && n < 2)) return 0;
      if (t == 'O' || !vec) { v = resized(v, v.r, v.c - 1); return t == 'O' || (t == 'B' && v.c > 1 && v.r > 1) ? MUST_FAIL : MAY_FAIL; }
      v = resized(v, v.r == 1 ? 1 : n - 1, v.r == 1 ? n - 1 : 1); return strict ? MUST_FAIL : MAY_FAIL;
    case 2:
      if (t == 'D' && n + 1 == No) return 0;
      if (t == 'O' || !vec) { v = resized(v, v.r, v.c + 1); return t == 'O' || (t == 'B' && v.r > 1) ? MUST_FAIL : MAY_FAIL; }
      v = resized(v, v.r == 1 ? 1 : n + 1, v.r == 1 ? n + 1 : 1); return strict ? MUST_FAIL : MAY_FAIL;
    case 3:
      if (vec && n > 3 && n % 2 == 0 && r.p(0.4)) { if (r.p(0.5)) { v.r = 2; v.c = n / 2; } else { v.r = n / 2; v.c = 2; } return t == 'V' ? MUST_FAIL : MAY_FAIL; }
      if (vec && t != 'O') { v = resized(v, 2, n > 1 ? n : 2); return (strict && t != 'D') || (t == 'D' && 2 * (n > 1 ? n : 2) != No) ? MUST_FAIL : MAY_FAIL; }
      v = resized(v, 1, 1); return t == 'O' ? MUST_FAIL : MAY_FAIL;
    case 4: { Val x = v; x.p = 2; x.d.insert(x.d.end(), v.d.begin(), v.d.end()); v = x; return MAY_FAIL; }
    default: {
      static const double B[] = {NAN, INFINITY, -INFINITY, -1, 0, 0.5, -1e18, 1e18, 1e300};
      double b = B[r.below(9)];
      if (n == 0) return 0;
      size_t e = r.below((uint64_t)n);
      bool sampling = t == 'V' && has_sir(o.fn) && a == (in(ARRAYS, o.fn) && o.fn != "dream_arr_annu" ? 3 : 2);
      bool big = !(std::fabs(b) < 1e6);
      if (sampling && e < 3 && !(b > 0)) { v.d[e] = b; return MUST_FAIL; }
      if (has_sir(o.fn) && (a == 1 || t == 'R')) { if (!(b <= 1)) return 0; }
      if (big && ((sampling && e >= 2) || t == 'V')) return 0;
      v.d[e] = v.single ? (double)(float)b : b; return MAY_FAIL;
    }
  }
}
static std::string differing(const Call &a, const Call &b) {
  if (a.nout != b.nout) return std::to_string(b.nout) + " results";
  if (a.args.size() != b.args.size()) return std::to_string(b.args.size()) + " arguments";
  for (size_t i = 0; i < a.args.size(); i++) {
    const Val &x = a.args[i], &y = b.args[i]; char t[200];
    if (x.k == y.k && x.s == y.s && x.r == y.r && x.c == y.c && x.p == y.p && x.alt == y.alt && !memcmp(x.d.data(), y.d.data(), x.d.size() * sizeof(double))) continue;
    std::string f = y.k == Val::STR ? "'" + y.s + "'" : std::to_string(y.r) + "x" + std::to_string(y.c) + (y.p ? "x" + std::to_string(y.p) : "");
    size_t e = 0; while (e < y.d.size() && e < x.d.size() && x.d[e] == y.d[e]) e++;
    snprintf(t, sizeof t, "argument %zu as %s%s (was %ldx%ld), type %d, element %zu %g", i + 1, f.substr(0, 60).c_str(), y.k == Val::STR ? " string" : "", x.r, x.c, y.alt, e, e < y.d.size() ? y.d[e] : 0);
    return t;
  }
  return "the same arguments";
}
static void malformed_call(const Op &o, bool &failed) {
  Prep P = prep(o); int how = 0; Call good = P.c;
  bool py = !strcmp(host::name(), "python"), same = false;
  if (o.p.has("mf")) how = py ? malform_py(P, o, same) : malform(P, o);
  std::string what = how ? differing(good, P.c) : "";
  call_note = what;
  Res r = do_call(P.c, o);
  call_note.clear();
  if (r.foreign && !(r.typerr && how)) fail("escaped-exception", "%s: %s %s", o.fn.c_str(), r.err.c_str(), what.c_str());
  if (r.ref_leak) fail("reference-leak", "%s kept a reference to its argument %ld, %s", o.fn.c_str(), r.ref_leak, what.c_str());
  for (int k = 1; k < 65; k++) if (!r.sig_default[k]) fail("handler-left", "after %s, signal %d has another handler than before", o.fn.c_str(), k);
  if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
  if (!how) { if (failed) probe(8); check_clean(o, P, r); return; }
  if (same && r.ok) { P.verify(r); }
  if (how == MUST_FAIL && r.ok) fail("missing-error", "%s accepted %s", o.fn.c_str(), what.c_str());
  if (r.ok && P.c.nout > 0 && (r.out.empty() || r.out[0].k == Val::NONE)) fail("missing-error", "%s returned neither a result nor an error for %s", o.fn.c_str(), what.c_str());
  if (!r.ok) { failed = true; if (r.err.empty()) fail("missing-error", "%s failed without a message for %s", o.fn.c_str(), what.c_str()); }
  sh->faults[F_BADARG]++;
  for (auto &x : P.c.args) if (x.alt || x.p || x.s.find('\xff') != std::string::npos) x.k = Val::NONE;
  check_inputs(o, P, r);
}
static void run_malformed(Scenario &s) {
  bool failed = false;
  for (auto &o : s.ops) malformed_call(o, failed);
}
static void gen_C22(Rng &r, Scenario &s, long i) {
  gen_list(r, s, ALLF, i, 5, [](Rng &r, Op &o) { gen_op(r, o); if (r.p(0.7)) o.p.set("mf", (long)(r.next() >> 2)); if (r.p(0.2)) o.p.set("env", r.below(10)); });
}
static const std::vector<std::string> PYF = cat(cat(SINGLE, ARRAYS), {"das", "das", "das", "fftconv_p", "fftconv_p"});
static void gen_py_op(Rng &r, Op &o) {
  gen_op(r, o); o.p.set("nout", 1);
  if (o.fn == "fftconv_p") { o.p.set("mode", 0); o.p.set("wis", 0); o.p.set("nout2", 0); }
  o.p.set("lay", r.below(6));
}
static void gen_C23(Rng &r, Scenario &s, long i) {
  gen_list(r, s, PYF, i, 5, [](Rng &r, Op &o) { gen_py_op(r, o); if (r.p(0.7)) o.p.set("mf", (long)(r.next() >> 2)); if (r.p(0.2)) o.p.set("env", r.below(10)); });
}
static void gen_C12(Rng &r, Scenario &s, long i) {
  // a pool of one to three functions, so that the same function follows its own failure often
  std::vector<std::string> pool{ALLF[i % ALLF.size()]};
  for (long k = r.below(3); k > 0; k--) pool.push_back(ALLF[r.below(ALLF.size())]);
  gen_sched(r, s, horizon_of(pool[0]));
  int n = (int)r.range(3, 6);
  for (int k = 0; k < n; k++) {
    Op o; o.fn = pool[r.below(pool.size())]; gen_op(r, o); gen_style(r, o);
    if (r.p(0.4)) like_earlier(r, s, o);
    if (k + 1 < n && r.p(0.55)) add_fault(r, o, (int)pickl(r, {0, 0, 0, 1, 2, 3, 3, 4}));
    s.ops.push_back(o);
  }
}
// C13
static void run_signals(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o);
    Op q = o;
    if (o.p.has("sigpm") || o.p.has("fapm") || o.p.has("fawpm") || o.p.has("fppm")) {
      q.p.v.clear(); for (auto &x : o.p.v) if (x.first != "sig" && (x.first[0] != 'f' || x.first == "foc" || x.first == "flt")) q.p.set(x.first.c_str(), x.second);
      Res clean = do_call(P.c, q); place_fault(o, clean);
    }
    Res r = do_call(P.c, o);
    for (int k = 1; k < 65; k++) if (!r.sig_default[k]) fail("handler-left", "after %s %s, signal %d still has the handler of the toolbox instead of the one that was installed before the call", o.fn.c_str(), r.ok ? "returned" : "failed", k);
  }
}
static void gen_C13(Rng &r, Scenario &s, long i) {
  gen_list(r, s, ALLF, i, 3, [](Rng &r, Op &o) { gen_op(r, o); if (r.p(0.75)) add_fault(r, o, (int)pickl(r, {0, 0, 1, 1, 2, 3, 4})); });
}
// C14
static void run_nothread(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o); Res r = do_call(P.c, o);
    check_clean(o, P, r);
    if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
  }
}
static void gen_C14(Rng &r, Scenario &s, long i) {
  gen_list(r, s, THRF, i, 3, [](Rng &r, Op &o) {
    gen_op(r, o); o.p.set("thr", pickl(r, {0, 2, 3, 4, 5, 7}));
    long m = r.below(4);
    if (m == 0) o.p.set("fc", 0); else if (m == 1) { o.p.set("fc", r.below(4)); o.p.set("fc2", r.below(6)); } else if (m == 2) o.p.set("fcall", r.below(3)); else o.p.set("fc", r.below(7));
  });
}
// C15
static void gen_C15(Rng &r, Scenario &s, long i) {
  gen_list(r, s, ALLF, i, 2, [](Rng &r, Op &o) { gen_op(r, o); add_fault(r, o, r.p(0.85) || !(in(FFTS, o.fn) || o.p.get("att")) ? 1 : 4); });
  // the same function must work again afterwards
  Op o = s.ops[0]; Op q; q.fn = o.fn; gen_op(r, q); s.ops.push_back(q);
}
// C16
static void run_confined(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o);
    if (o.p.has("sigpm")) { Op q = o; q.p.v.clear(); for (auto &x : o.p.v) if (x.first != "sig") q.p.set(x.first.c_str(), x.second); Res c = do_call(P.c, q); place_fault(o, c); }
    Res r = do_call(P.c, o);
    if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
    check_inputs(o, P, r);
  }
}
static void gen_C16(Rng &r, Scenario &s, long i) {
  gen_list(r, s, ALLF, i, 3, [](Rng &r, Op &o) { gen_op(r, o); if (r.p(0.6)) add_fault(r, o, (int)pickl(r, {0, 2, 3, 3, 3})); });
}
// C17
static void run_resources(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o);
    Op q; q.fn = o.fn; for (auto &x : o.p.v) if (x.first != "sig" && (x.first[0] != 'f' || x.first == "foc" || x.first == "flt")) q.p.set(x.first.c_str(), x.second);
    Res w = do_call(P.c, q);            // caches of the runtime and of FFTW are filled here
    place_fault(o, w);
    std::set<std::string> seen;         // what the runtime keeps of an outcome (the last error) is kept when it first happens
    for (int k = 0; k < 4; k++) {
      long pl = plans_live();
      Res r = do_call(P.c, o);
      if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
      if (threads_unjoined()) fail("thread-leak", "%s returned without joining %d of its threads", o.fn.c_str(), threads_unjoined());
      if (plans_live() != pl) fail("plan-leak", "%s left %ld FFT plans behind", o.fn.c_str(), plans_live() - pl);
      bool again = !seen.insert(r.ok ? "" : r.err).second;
      if (again && r.leak_blocks > 0) fail("memory-leak", "%s (%s) left %ld bytes in %ld blocks allocated", o.fn.c_str(), r.ok ? "normal return" : r.err.c_str(), r.leak_bytes, r.leak_blocks);
      if (again && k) break;
    }
  }
}
static void gen_C17(Rng &r, Scenario &s, long i) {
  gen_list(r, s, ALLF, i, 2, [](Rng &r, Op &o) { gen_op(r, o); if (r.p(0.7)) add_fault(r, o, (int)pickl(r, {0, 1, 1, 2, 3, 4})); });
}
// C20
static void run_planner(Scenario &s) {
  for (auto &o : s.ops) {
    Prep P = prep(o);
    if (o.p.has("badwis")) {  // a string that is not wisdom of this library, or damaged wisdom
      if (P.c.args.empty()) continue;
      std::string w = o.p.get("badwis") == 0 || wisdom.size() < 60 ? std::string("(fftw-3.3.10 fftw_wisdom #x0 #x0)") : wisdom.substr(0, wisdom.size() - 20 - (size_t)o.p.get("badwis") % 30);
      if (P.c.args.back().k == Val::STR && P.c.args.back().s.size() > 2) P.c.args.back().s = w; else if (P.mut < 0 || P.c.args.back().k == Val::STR || o.fn != "fftconv_p") P.c.args.push_back(Val::str(w));
      if (o.p.get("badwis") == 1) P.c.args.back().s = "no wisdom at all";
      Res r = do_call(P.c, o);
      if (r.foreign) fail("escaped-exception", "%s: %s", o.fn.c_str(), r.err.c_str());
      if (r.ok && (!r.out.empty() && r.out[0].k == Val::MAT)) P.verify(r);
      check_inputs(o, P, r);
      continue;
    }
    if (o.p.has("fppm")) { Op q = o; q.p.drop("fppm"); Res c = do_call(P.c, q); check_clean(q, P, c); place_fault(o, c); }
    Res r = do_call(P.c, o);
    check_faulted(o, P, r);
    if (planner_reentered()) fail("planner-reentered", "%s entered the FFT planner from two threads at once", o.fn.c_str());
  }
}
static void gen_C20(Rng &r, Scenario &s, long i) {
  std::vector<std::string> pool = cat(cat(FFTS, FFTS), cat(cat(SINGLE, ARRAYS), {"dream_att"}));
  gen_list(r, s, pool, i, 4, [](Rng &r, Op &o) {
    if (has_sir(o.fn)) gen_sir_op(r, o, true); else if (o.fn == "dream_att") gen_aux_op(r, o); else gen_conv_op(r, o, r.p(0.35));
    if (in(FFTS, o.fn)) o.p.set("nout2", r.p(0.5));
    double u = r.u();
    if (u < 0.35) o.p.set("fppm", r.range(0, 999));
    else if (u < 0.5 && in(FFTS, o.fn)) o.p.set("fw", 0);
    else if (u < 0.65 && in(FFTS, o.fn)) o.p.set("badwis", r.below(40));
  });
}
// C19: the Python bindings
static void run_python(Scenario &s) {
  bool failed = false;
  for (auto &o : s.ops) {
    Prep P = prep(o);
    if (o.p.has("sigpm") || o.p.has("fapm") || o.p.has("fawpm") || o.p.has("fppm")) {
      Op q; q.fn = o.fn; for (auto &x : o.p.v) if (x.first != "sig" && (x.first[0] != 'f' || x.first == "foc" || x.first == "flt")) q.p.set(x.first.c_str(), x.second);
      Res clean = do_call(P.c, q); check_clean(q, P, clean); place_fault(o, clean); o.p.drop("fa"); o.p.drop("fa2");
    }
    Res r = do_call(P.c, o);
    if (failed && !wants_fault(o)) probe(8);
    check_faulted(o, P, r);
    if (!r.ok) failed = true;
    if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
    for (int k = 1; k < 65; k++) if (!r.sig_default[k]) fail("handler-left", "after %s, signal %d has another handler than before", o.fn.c_str(), k);
    if (r.ref_leak) fail("reference-leak", "%s kept a reference to its argument %ld", o.fn.c_str(), r.ref_leak);
  }
}
static void gen_C19(Rng &r, Scenario &s, long i) {
  gen_list(r, s, PYF, i, 4, [](Rng &r, Op &o) {
    gen_py_op(r, o);
    if (r.p(0.5)) add_fault(r, o, (int)pickl(r, {0, 0, 1, 2, 3, 3, 4}));
    // allocations of the calling thread are not failed: the argument conversion of pybind11 would not be exception safe
    o.p.drop("fapm"); o.p.drop("fapm2");
  });
}
// C18: computations on a device
static const std::vector<std::string> GPUF = {"dreamrect", "dreamcirc", "rect_sir", "das", "das_uni"};
static void run_gpu(Scenario &s) {
  bool failed = false;
  for (auto &o : s.ops) {
    if (o.p.has("mf")) {
      malformed_call(o, failed);
      if (clsim::pending()) fail("device-busy", "%s returned while %ld commands of its queue had not been executed", o.fn.c_str(), clsim::pending());
      continue;
    }
    Prep P = prep(o);
    bool rep = o.p.has("sigpm") || o.p.has("fapm") || o.p.has("fawpm") || o.p.has("fcl1");
    auto other = [&]() {   // a call with another setup, so that the next one has to set the device up again
      if (!o.p.get("oset")) return;
      Op x; x.fn = o.fn; for (auto &y : o.p.v) if (in({"ds", "meth", "flt", "Nt", "Nr", "No", "Nx", "Ny", "Nz", "len", "thr", "gpu", "nout", "lay"}, y.first)) x.p.set(y.first.c_str(), y.second);
      x.p.set("len", o.p.get("len") + 1); Prep X = prep(x); check_clean(x, X, do_call(X.c, x));
    };
    Op q; q.fn = o.fn; for (auto &x : o.p.v) if (x.first != "sig" && (x.first[0] != 'f' || x.first == "foc" || x.first == "flt")) q.p.set(x.first.c_str(), x.second);
    long live = 0, text = 0;
    auto clean = [&](const char *when) {
      Res c = do_call(P.c, q);
      if (c.foreign || (!c.ok && !P.want_err && !P.may_err && failed)) fail(c.foreign ? "escaped-exception" : "spurious-error", "%s %s failed: %s", o.fn.c_str(), when, c.err.c_str());
      check_clean(q, P, c);
      return c;
    };
    (void)text;
    if (rep) { other(); Res c = clean("call"); place_fault(o, c); live = clsim::live(); other(); }
    Res r = do_call(P.c, o);
    if (failed && !wants_fault(o)) probe(8);
    check_faulted(o, P, r);
    if (!r.ok) failed = true;
    if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
    if (clsim::pending()) fail("device-busy", "%s returned while %ld commands of its queue had not been executed", o.fn.c_str(), clsim::pending());
    for (int k = 1; k < 65; k++) if (!r.sig_default[k]) fail("handler-left", "after %s, signal %d has another handler than before", o.fn.c_str(), k);
    if (r.ref_leak) fail("reference-leak", "%s kept a reference to its argument %ld", o.fn.c_str(), r.ref_leak);
    if (!rep) live = clsim::live();
    if (rep || o.p.get("twice")) {
      clean("call after a failed call");
      if (clsim::live() > live) fail("device-leak", "%s (%s) left %ld device objects behind", o.fn.c_str(), r.ok ? "normal return" : r.err.c_str(), clsim::live() - live);
    }
  }
}
static void gen_C18(Rng &r, Scenario &s, long i) {
  gen_list(r, s, GPUF, i, 4, [](Rng &r, Op &o) {
    bool gpu = o.fn == "das_uni" || r.p(0.85);
    if (o.fn == "das_uni") { gen_das_op(r, o); o.p.set("Nx", r.range(1, 4)); o.p.set("Ny", r.range(1, 4)); o.p.set("Nz", r.range(1, 4)); }
    else if (o.fn == "das") gen_das_op(r, o);
    else if (o.fn == "rect_sir") gen_ana_op(r, o);
    else { gen_sir_op(r, o, r.p(0.1)); if (!gpu) {} else if (r.p(0.1)) { o.p.set("oob", r.range(1, 2)); o.p.set("oobn", r.below(12)); } }
    if (o.p.get("No") > 40) o.p.set("No", 40);
    if (r.p(0.15) && o.fn != "das_uni") { o.p.set("No", pickl(r, {63, 64, 65, 128})); if (o.p.has("grid")) o.p.set("grid", 2); if (o.p.has("Nt")) { o.p.set("Nt", 2); o.p.set("Nr", 2); } }
    if (o.fn == "das_uni" && r.p(0.1)) { o.p.set("Nx", 4); o.p.set("Ny", 4); o.p.set("Nz", r.range(4, 5)); }
    if (!gpu) return;
    o.p.set("gpu", 1);
    if (o.p.get("att")) o.p.drop("oob");
    double u = r.u();
    if (u < 0.45) { o.p.set("fcl1", r.range(0, 999)); if (o.fn.compare(0, 3, "das") == 0 && r.p(0.4)) o.p.set("oset", 1); }
    else if (u < 0.52) { o.p.set("sig", SIGINT); o.p.set("sigpm", r.range(1, 999)); if (r.p(0.3)) o.p.set("sigs", r.p(0.5) ? 1 : r.range(2, 11)); }
    else if (u < 0.58) o.p.set("fapm", r.range(0, 999));
    else if (u < 0.63) o.p.set("kd", r.range(1, 3));
    else if (u < 0.66 && o.fn.compare(0, 3, "das") == 0) o.p.set("short", 1);
    else if (u < 0.78) o.p.set("twice", 1);
    else if (u < 0.88) o.p.set("mf", (long)(r.next() >> 2));
  });
}
// C25: the same from Python
static void gen_C25(Rng &r, Scenario &s, long i) {
  gen_C18(r, s, 3);
  for (auto &o : s.ops) {
    if (o.fn != "das") { Op n; n.fn = "das"; gen_das_op(r, n); if (n.p.get("No") > 40) n.p.set("No", 40); for (const char *k : {"gpu", "fcl1", "sig", "sigpm", "sigs", "kd", "twice", "mf"}) if (o.p.has(k)) n.p.set(k, o.p.get(k)); o = n; }
    o.p.drop("fapm"); o.p.set("nout", 1); o.p.set("lay", r.below(6));
  }
}
// C26: the functions called through the Matlab gateways
static const std::vector<std::string> MEXF = cat(cat(cat(SINGLE, ARRAYS), cat(CONVS, {"copy_p"})), cat(cat(ANALYTIC, DASF), AUX));
static void run_mex(Scenario &s) {
  bool failed = false;
  for (auto &o : s.ops) {
    Prep P = prep(o);
    if (o.p.has("sigpm") || o.p.has("fppm")) {
      Op q; q.fn = o.fn; for (auto &x : o.p.v) if (x.first != "sig" && (x.first[0] != 'f' || x.first == "foc" || x.first == "flt" || x.first == "fewy")) q.p.set(x.first.c_str(), x.second);
      Res clean = do_call(P.c, q); check_clean(q, P, clean); place_fault(o, clean);
    }
    Res r = do_call(P.c, o);
    if (failed && !wants_fault(o)) probe(8);
    check_faulted(o, P, r);
    if (!r.ok) failed = true;
    if (r.workers_left) fail("left-running", "%s returned while %ld of its threads were still running", o.fn.c_str(), r.workers_left);
    for (int k = 1; k < 65; k++) if (!r.sig_default[k]) fail("handler-left", "after %s, signal %d has another handler than before", o.fn.c_str(), k);
  }
}
static void gen_C26(Rng &r, Scenario &s, long i) {
  gen_list(r, s, MEXF, i, 4, [](Rng &r, Op &o) {
    gen_op(r, o); if (o.fn == "sum_fftconv") o.p.set("mode", 0);   // no in-place mode there
    if ((has_sir(o.fn) || o.fn == "das") && r.p(0.3)) { o.p.set("oob", r.range(1, 2)); o.p.set("oobn", r.below(12)); if (r.p(0.7)) o.p.set("dl", 1); }
    if (o.fn == "das") { if (r.p(0.4)) o.p.set("mxd", 1); if (r.p(0.1)) o.p.set("fewy", 1); }
    if (!in(AUX, o.fn) && r.p(0.4)) add_fault(r, o, (int)pickl(r, {0, 0, 2, 4}));
    if (o.p.get("sig") < 0) o.p.set("sig", 2);   // the host has no interrupt flag of its own
  });
}
// C27: the Julia gateways take the arguments of the Python functions
static const std::vector<std::string> JLF = cat(cat(SINGLE, ARRAYS), {"das", "das_f", "conv_p", "fftconv_p"});
static void gen_C27(Rng &r, Scenario &s, long i) {
  gen_list(r, s, cat(cat(SINGLE, ARRAYS), {"das", "conv_p", "fftconv_p"}), i, 4, [](Rng &r, Op &o) {
    gen_op(r, o); o.p.set("nout", 1);
    if (in(CONVS, o.fn)) { o.p.set("mode", 0); o.p.set("wis", 0); o.p.set("nout2", 0); }
    if ((has_sir(o.fn) || o.fn == "das") && r.p(0.3)) { o.p.set("oob", r.range(1, 2)); o.p.set("oobn", r.below(12)); if (r.p(0.7)) o.p.set("dl", 1); }
    if (o.fn == "das" && r.p(0.1)) o.p.set("fewy", 1);
    if (r.p(0.4)) add_fault(r, o, (int)pickl(r, {0, 0, 2, 4}));
    if (o.p.get("sig") < 0) o.p.set("sig", 2);   // the host has no interrupt flag of its own
  });
}
#define REALC {"toolbox gateway and compute code (instrumented build)", "real"}, {"Octave interpreter values and errors", "real"}, {"FFTW library", "real, planner effort forced to estimate"}
#define STUBC {"thread scheduling", "simulated"}, {"heap", "checked arena"}, {"signals", "virtual disposition table"}, {"processor count and environment", "simulated"}
std::vector<Prop> props = {
  {"C01", "sim_oct", "cpu", SINGLE, gen_C01, run_clean, false,
   "seeded scenario = 1-3 calls of single-element response functions x sampled geometry, window, delays, thread count, schedule policy; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C02", "sim_oct", "cpu", ARRAYS, gen_C02, run_clean, false, "seeded scenario = 1-3 array response calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C03", "sim_oct", "cpu", cat(SINGLE, ARRAYS), gen_C03, run_clean, false, "seeded scenario = 1-3 lossy response calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C04", "sim_oct", "cpu", DASF, gen_C04, run_clean, false, "seeded scenario = 1-3 delay-and-sum calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C05", "sim_oct", "cpu", {"conv_p", "fftconv_p", "sum_fftconv"}, gen_C05, run_clean, false, "seeded scenario = 1-4 convolution calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C06", "sim_oct", "cpu", CONVS, gen_C06, run_clean, false, "seeded scenario = 1-4 in-place convolution calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C07", "sim_oct", "cpu", {"fftconv_ola"}, gen_C07, run_clean, false, "seeded scenario = 1-4 overlap-add calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C08", "sim_oct", "cpu", COPIES, gen_C08, run_clean, false, "seeded scenario = 1-4 copy_p/add_p calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C09", "sim_oct", "cpu", ANALYTIC, gen_C09, run_clean, false, "seeded scenario = 1-3 analytic response calls; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C10", "sim_oct", "cpu", cat(cat(SINGLE, ARRAYS), DASF), gen_C10, run_clean, false, "seeded scenario = 1-4 response or beamforming calls of which most have contributions outside the time window; non-trivial: at least two live workers; distinct by call shape and switch sequence", {REALC, STUBC}},
  {"C11", "sim_oct", "cpu", THRF, gen_C11, run_interrupt, false, "seeded scenario = one call of any function, undisturbed and then with one or two interrupts at sampled steps on sampled threads; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C12", "sim_oct", "cpu", ALLF, gen_C12, run_history, false, "seeded scenario = 3-6 calls of up to three functions with interrupts, failed allocations, failed thread creation, failed planning and out-of-window stops in between; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C13", "sim_oct", "cpu", ALLF, gen_C13, run_signals, false, "seeded scenario = 1-3 calls with sampled faults, all 64 signal dispositions compared after each; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C14", "sim_oct", "cpu", THRF, gen_C14, run_nothread, false, "seeded scenario = 1-3 calls in which one, some or all worker threads cannot be created; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C15", "sim_oct", "cpu", ALLF, gen_C15, run_history, false, "seeded scenario = 1-2 calls with one or two failed allocations at sampled positions on the calling thread or on the workers, then an undisturbed call; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C16", "sim_oct", "cpu", ALLF, gen_C16, run_confined, true, "seeded scenario = 1-3 calls with sampled sizes, windows and faults, every access checked; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C17", "sim_oct", "cpu", ALLF, gen_C17, run_resources, false, "seeded scenario = 1-2 calls repeated three times with the same fault, memory, plans and threads counted; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C18", "sim_oct", "cl", GPUF, gen_C18, run_gpu, true, "seeded scenario = 1-4 calls of the functions that can use a device, most with device 'gpu', with failing device calls, interrupts, failed allocations, missing kernel files; non-trivial: at least two interleaved work-items or an injected fault; distinct by call shape, faults and interleaving",
    {{"toolbox gateway and host code (instrumented build with OpenCL)", "real"}, {"OpenCL kernels", "real source, compiled to native code by clang"}, {"OpenCL platform, device and queue", "simulated"}, {"Octave interpreter values and errors", "real"}, STUBC}},
  {"C24", "sim_oct", "cpu", THRF, gen_C24, run_threads, false, "seeded scenario = 1-2 calls of any function, each made three times with other thread settings and processor counts, some with an invalid setting or refused threads; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C25", "sim_py", "cl", {"das", "das_f"}, gen_C25, run_gpu, true, "seeded scenario = 1-4 Python das calls, most with device 'gpu', with failing device calls, interrupts, missing kernel files and malformed arguments; non-trivial: at least two interleaved work-items or an injected fault; distinct by call shape, faults and interleaving",
    {{"toolbox Python modules and host code (instrumented build with OpenCL)", "real"}, {"OpenCL kernels", "real source, compiled to native code by clang"}, {"OpenCL platform, device and queue", "simulated"}, {"CPython interpreter and numpy", "real"}, STUBC}},
  {"C26", "sim_mex", "mex", MEXF, gen_C26, run_mex, true, "seeded scenario = 1-4 calls of the functions through the Matlab gateways with contributions outside the time window, interrupts, refused threads and failing planning; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence",
    {{"toolbox Matlab gateways and computations (instrumented build)", "real"}, {"Matlab's C matrix interface", "simulated"}, {"FFTW library", "real, planner effort forced to estimate"}, STUBC}},
  {"C27", "sim_jl", "jl", JLF, gen_C27, run_mex, true, "seeded scenario = 1-4 calls of the functions through the Julia gateways with contributions outside the time window, interrupts, refused threads and failing planning; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence",
    {{"toolbox Julia gateways and computations (instrumented build)", "real"}, {"CxxWrap and the Julia runtime", "simulated"}, {"FFTW library", "real, planner effort forced to estimate"}, STUBC}},
  {"C21", "sim_oct", "cpu", AUX, gen_C21, run_history, true, "seeded scenario = 1-6 calls of dream_att and dream_apodwin with failing allocations and plans; non-trivial: an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C22", "sim_oct", "cpu", ALLF, gen_C22, run_malformed, true, "seeded scenario = 1-5 calls, most with one malformed argument, the others undisturbed; non-trivial: at least two live workers or a malformed argument; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C23", "sim_py", "cpu", cat(cat(SINGLE, ARRAYS), {"das", "das_f", "fftconv_p"}), gen_C23, run_malformed, true, "seeded scenario = 1-5 calls of the Python functions, most with one malformed argument, the others undisturbed; non-trivial: at least two live workers or a malformed argument; distinct by call shape, faults and switch sequence",
    {{"toolbox Python modules (instrumented build)", "real"}, {"CPython interpreter and numpy", "real"}, {"FFTW library", "real, planner effort forced to estimate"}, STUBC}},
  {"C20", "sim_oct", "cpu", cat(cat(FFTS, {"dream_att"}), cat(SINGLE, ARRAYS)), gen_C20, run_planner, false, "seeded scenario = 1-4 calls using transforms with failing planning, failing or damaged wisdom; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence", {REALC, STUBC}},
  {"C19", "sim_py", "cpu", cat(cat(SINGLE, ARRAYS), {"das", "das_f", "fftconv_p"}), gen_C19, run_python, true, "seeded scenario = 1-4 calls of the Python functions with sampled array layouts, interrupts, refused threads, failing planning and out-of-window contributions; non-trivial: at least two live workers or an injected fault; distinct by call shape, faults and switch sequence",
    {{"toolbox Python modules (instrumented build)", "real"}, {"CPython interpreter and numpy", "real"}, {"FFTW library", "real, planner effort forced to estimate"}, STUBC}},
};
