#include "models.h"
#include <cmath>
#include <cstring>
#include <algorithm>
using sim::Rng;
V rnd(Rng &r, long n, double lo, double hi) { V v((size_t)n); for (auto &x : v) x = r.uni(lo, hi); return v; }
double maxabs(const V &a) { double m = 0; for (double x : a) { if (!(std::fabs(x) <= m)) m = std::fabs(x); } return m; }
double maxdiff(const V &a, const V &b) {
  if (a.size() != b.size()) return INFINITY;
  double m = 0;
  for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) m = std::isnan(d) ? INFINITY : d; }
  return m;
}
// ------------------------------------------------------------------ transducer responses
Call SirCase::call(int nout) const {
  Call c; c.fn = fn; c.nout = nout;
  auto &A = c.args;
  A.push_back(Val::mat(No, 3, Ro));
  Val sp = Val::row({dx, dy, dt, (double)nt}), mp = Val::row({v, cp, alpha});
  Val dl = delay.size() == 1 ? Val::num(delay[0]) : Val::col(delay);
  if (fn == "dream_arr_annu") {
    A.push_back(Val::col(G)); A.push_back(sp); A.push_back(dl); A.push_back(mp);
    A.push_back(Val::str(foc)); A.push_back(Val::row(focal));
    A.push_back(Val::str(apod)); A.push_back(Val::row(apodv)); A.push_back(Val::num(wpar));
  } else if (is_array()) {
    A.push_back(geom.size() == 1 ? Val::num(geom[0]) : Val::row(geom)); A.push_back(Val::mat(ne, 3, G));
    A.push_back(sp); A.push_back(dl); A.push_back(mp);
    A.push_back(Val::str(foc)); A.push_back(Val::row(focal)); A.push_back(Val::str(steer)); A.push_back(Val::row({theta, phi}));
    A.push_back(Val::str(apod)); A.push_back(Val::row(apodv)); A.push_back(Val::num(wpar));
  } else {
    A.push_back(geom.size() == 1 ? Val::num(geom[0]) : Val::row(geom)); A.push_back(sp); A.push_back(dl); A.push_back(mp);
    if (fn == "dreamrect_f" || fn == "dreamcirc_f") { A.push_back(Val::str(foc)); A.push_back(Val::num(focal[0])); }
  }
  if (!err.empty()) A.push_back(Val::str(err));
  return c;
}
namespace {
// one contribution: travel time (us, focusing/steering included), distance, amplitude coefficient (to be divided by dt), ring, sign
typedef std::function<void(double t, double r, double amp, int ring)> Cb;
double foc_single(const std::string &m, double f, double xs, double ys, double xm, double ym, double rm, double cp) {
  double d = 0;
  if (m == "x") d = std::sqrt(xm * xm + f * f) - std::sqrt(xs * xs + f * f);
  else if (m == "y") d = std::sqrt(ym * ym + f * f) - std::sqrt(ys * ys + f * f);
  else if (m == "xy" || m == "on") d = std::sqrt(rm * rm + f * f) - std::sqrt(xs * xs + ys * ys + f * f);
  else if (m == "x+y") d = std::sqrt(rm * rm + f * f) - (std::sqrt(xs * xs + f * f) + std::sqrt(ys * ys + f * f));
  return d * 1000.0 / cp;
}
struct Enum {
  const SirCase &c; double *margin;
  void lim(double s, double mx, double d) { double m = std::fabs(s - mx) / d; if (m < *margin) *margin = m; }
  void point(double xs, double ys, double zs, double ds, double xo, double yo, double zo, double off, double w, int ring, const Cb &cb) {
    double rx = xo - xs, ry = yo - ys, rz = zo - zs;
    double r = std::sqrt(rx * rx + ry * ry + rz * rz);
    cb(r * 1000.0 / c.cp + off, r, w * c.v * ds / (2 * M_PI * r) * 1000.0, ring);
  }
  void line(double a, double xo, double yo, double zo, double off, double w, const Cb &cb) {
    for (long i = 0;; i++) { double xs = -a / 2 + c.dx / 2 + i * c.dx; lim(xs, a / 2, c.dx); if (xs > a / 2) break; point(xs, 0, 0, c.dx * c.dy, xo, yo, zo, off, w, 0, cb); }
  }
  void rect(double a, double b, double xo, double yo, double zo, double off, double w, const Cb &cb, bool f = false) {
    for (long j = 0;; j++) {
      double ys = -b / 2 + c.dy / 2 + j * c.dy; lim(ys, b / 2, c.dy); if (ys > b / 2) break;
      for (long i = 0;; i++) {
        double xs = -a / 2 + c.dx / 2 + i * c.dx; lim(xs, a / 2, c.dx); if (xs > a / 2) break;
        double o = off; if (f) o += foc_single(c.foc, c.focal[0], xs, ys, a, b, std::sqrt(a * a + b * b), c.cp);
        point(xs, ys, 0, c.dx * c.dy, xo, yo, zo, o, w, 0, cb);
      }
    }
  }
  void circ(double R, double xo, double yo, double zo, double off, double w, int ring, const Cb &cb, bool f = false, int sph = 0, double Rc = 0) {
    for (long j = 0;; j++) {
      double ys = -R + c.dy / 2 + j * c.dy; lim(ys, R, c.dy); if (ys > R) break;
      double l = std::sqrt(R * R - ys * ys);
      for (long i = 0;; i++) {
        double xs = -l + c.dx / 2 + i * c.dx; lim(xs, l, c.dx); if (xs > l) break;
        double o = off; if (f) o += foc_single(c.foc, c.focal[0], xs, ys, R, R, R, c.cp);
        double zs = 0; if (sph) zs = Rc >= 0 ? Rc - std::sqrt(Rc * Rc - xs * xs - ys * ys) : -(-Rc - std::sqrt(Rc * Rc - xs * xs - ys * ys));
        point(xs, ys, zs, c.dx * c.dy, xo, yo, zo, o, w, ring, cb);
      }
    }
  }
  void cylind(double a, double b, double Rc, double xo, double yo, double zo, double off, double w, const Cb &cb) {
    double h = b / 2, A = std::fabs(Rc), zR = A - std::sqrt(Rc * Rc - h * h);
    double phi = 2 * std::atan(h / (A - zR)), dphi = std::asin(c.dy / A), ds = A * c.dx * dphi;
    for (long j = 0;; j++) {
      double p = -phi / 2 + dphi / 2 + j * dphi; lim(p, phi / 2, dphi); if (p > phi / 2) break;
      double ys = A * std::sin(p);
      for (long i = 0;; i++) {
        double xs = -a / 2 + c.dx / 2 + i * c.dx; lim(xs, a / 2, c.dx); if (xs > a / 2) break;
        double zs = Rc >= 0 ? Rc - std::sqrt(Rc * Rc - ys * ys) : -(-Rc - std::sqrt(Rc * Rc - ys * ys));
        point(xs, ys, zs, ds, xo, yo, zo, off, w, 0, cb);
      }
    }
  }
};
double apod_w(const std::string &m, const V &ud, long n, double r, double rm, double p, bool annu) {
  if (m == "ud") return ud[n];
  if (m == "triangle") return 1 - r / rm;
  if (m == "gauss") return std::exp(-p * r * r / (rm * rm));
  if (m == "raised") return p + std::cos(r * M_PI / rm);
  if (m == "simply") return 1 - r * r / (rm * rm);
  if (m == "clamped") { double q = 1 - r * r / (rm * rm); return q * q; }
  if (annu) return 1;
  if (m == "hann") return 0.5 * (1 - std::cos((r + rm) * M_PI / rm));
  if (m == "hamming") { double a0 = 25.0 / 46.0; return a0 - (1 - a0) * std::cos((r + rm) * M_PI / rm); }
  return 1;
}
void contributions(const SirCase &c, long n, double *margin, const Cb &cb) {
  double xo = c.Ro[n], yo = c.Ro[n + c.No], zo = c.Ro[n + 2 * c.No];
  Enum e{c, margin};
  const V &g = c.geom;
  if (c.fn == "dreamline") e.line(g[0], xo, yo, zo, 0, 1, cb);
  else if (c.fn == "dreamrect") e.rect(g[0], g[1], xo, yo, zo, 0, 1, cb);
  else if (c.fn == "dreamrect_f") e.rect(g[0], g[1], xo, yo, zo, 0, 1, cb, true);
  else if (c.fn == "dreamcirc") e.circ(g[0], xo, yo, zo, 0, 1, 0, cb);
  else if (c.fn == "dreamcirc_f") e.circ(g[0], xo, yo, zo, 0, 1, 0, cb, true);
  else if (c.fn == "dreamsphere") e.circ(g[0], xo, yo, zo, 0, 1, 0, cb, false, 1, g[1]);
  else if (c.fn == "dreamcylind") e.cylind(g[0], g[1], g[2], xo, yo, zo, 0, 1, cb);
  else if (c.fn == "dream_arr_annu") {
    for (size_t k = 0; k < c.G.size(); k++) {
      if (k == 0 && c.G[0] <= 1e-15) continue;
      // disc k is the outer edge of ring k/2 (even) or the inner edge of ring (k+1)/2 (odd)
      int ring = (int)((k + 1) / 2); double s = (k % 2) ? -1 : 1;
      if (ring >= (int)((c.G.size() + 1) / 2)) ring = -1;   // outermost disc closes no ring
      e.circ(c.G[k], xo, yo, zo, 0, s, ring, cb);
    }
  } else {
    double xm = 0, ym = 0;
    for (long k = 0; k < c.ne; k++) { xm = std::max(xm, std::fabs(c.G[k])); ym = std::max(ym, std::fabs(c.G[k + c.ne])); }
    double rm = std::sqrt(xm * xm + ym * ym), d2r = M_PI / 180;
    for (long k = 0; k < c.ne; k++) {
      double gx = c.G[k], gy = c.G[k + c.ne], gz = c.G[k + 2 * c.ne];
      double fd = c.foc == "ud" ? c.focal[k] : foc_single(c.foc, c.focal[0], gx, gy, xm, ym, rm, c.cp);
      double sd = 0;
      if (c.steer == "x" || c.steer == "xy") sd += (xm + gx) * std::sin(c.theta * d2r) * 1e3 / c.cp;
      if (c.steer == "y" || c.steer == "xy") sd += (ym + gy) * std::sin(c.phi * d2r) * 1e3 / c.cp;
      double w = c.apod == "off" ? 1 : apod_w(c.apod, c.apodv, k, std::sqrt(gx * gx + gy * gy), rm, c.wpar, false);
      double x = xo - gx, y = yo - gy, z = zo - gz, off = fd + sd;
      if (c.fn == "dream_arr_rect") e.rect(g[0], g[1], x, y, z, off, w, cb);
      else if (c.fn == "dream_arr_circ") e.circ(g[0], x, y, z, off, w, 0, cb);
      else e.cylind(g[0], g[1], g[2], x, y, z, off, w, cb);
    }
  }
}
void green(V &x, const SirCase &c, double r, long it) { // band limited attenuation response at sample `it`
  long N = c.nt;
  double al = c.alpha / (8.686 * 10000.0), dts = c.dt * 1e-6;
  double t = it * dts; r *= 1e-3;
  V re(N / 2 + 1), im(N / 2 + 1);
  re[0] = 1; im[0] = 0;
  for (long k = 1; k <= N / 2; k++) {
    double w = 2 * M_PI * k / N / dts, m = std::exp(-r * al * w / (2 * M_PI)), b = std::log(1 / (dts * 0.95 / M_PI * w));
    double ph = -w * r * al / (M_PI * M_PI) * b - t * w;
    re[k] = m * std::cos(ph); im[k] = m * std::sin(ph);
  }
  static thread_local V ct, st; static thread_local long cn = 0;
  if (cn != N) { ct.resize(N); st.resize(N); for (long i = 0; i < N; i++) { ct[i] = std::cos(2 * M_PI * i / N); st[i] = std::sin(2 * M_PI * i / N); } cn = N; }
  x.assign(N, 0);
  for (long i = 0; i < N; i++) {
    double s = re[0];
    for (long k = 1; k <= N / 2; k++) {
      long q = (k * i) % N;
      double f = (2 * k == N) ? 1 : 2;
      s += f * (re[k] * ct[q] - im[k] * st[q]);
    }
    x[i] = s / N;
  }
}
} // namespace
void sir_model(const SirCase &c, SirOut &o) {
  o.H.assign((size_t)(c.nt * c.No), 0.0); o.oob.assign(c.No, 0); o.margin = 1;
  bool annu = c.fn == "dream_arr_annu";
  long nr = annu ? (long)(c.G.size() + 1) / 2 : 1;
  V ringr(nr, 0.0);
  if (annu) for (long k = 1; k < nr; k++) ringr[k] = (c.G[2 * k] + c.G[2 * k - 1]) / 2;
  V x;
  for (long n = 0; n < c.No; n++) {
    double dl = c.delay.size() == 1 ? c.delay[0] : c.delay[n];
    V h((size_t)(nr * c.nt), 0.0);
    contributions(c, n, &o.margin, [&](double t, double r, double amp, int ring) {
      double q = (t - dl) / c.dt; double it = std::floor(q + 0.5);
      o.margin = std::min(o.margin, std::fabs(q - (it - 0.5))); o.margin = std::min(o.margin, std::fabs(it + 0.5 - q));
      if (it < 0 || it >= c.nt) { o.oob[n] = 1; return; }
      if (ring < 0) return;
      if (c.alpha > 2.3e-16) { green(x, c, r, (long)it); for (long i = 0; i < c.nt; i++) h[ring * c.nt + i] += amp / c.dt * x[i]; }
      else h[ring * c.nt + (long)it] += amp / c.dt;
    });
    double *H = &o.H[(size_t)(n * c.nt)];
    if (!annu) { for (long i = 0; i < c.nt; i++) H[i] = h[i]; }
    else {
      double rm = ringr[nr - 1];
      for (long k = 0; k < nr; k++) {
        double fd = 0;
        if (c.foc == "ud") fd = c.focal[k];
        else if (c.foc != "off") fd = (std::sqrt(rm * rm + c.focal[0] * c.focal[0]) - std::sqrt(ringr[k] * ringr[k] + c.focal[0] * c.focal[0])) * 1000 / c.cp;
        double w = c.apod == "off" ? 1 : apod_w(c.apod, c.apodv, k, ringr[k], rm, c.wpar, true);
        double q = fd / c.dt; long sh = (long)std::floor(q + 0.5) + 1;
        o.margin = std::min(o.margin, std::fabs(q - (sh - 1.5))); o.margin = std::min(o.margin, std::fabs(sh - 0.5 - q));
        if (sh >= c.nt) continue;
        for (long i = 0; i < c.nt; i++) { long d = i + sh; if (d >= 0 && d < c.nt) H[d] += w * h[k * c.nt + i]; }
      }
    }
  }
  o.scale = maxabs(o.H);
}
// Structured inputs (parameter sty, a bit set) and calls that differ from another one in a single field (parameters vf and vs).
static void style_points(Rng &q, V &Ro, long No, long sty) {
  if (sty & 1) for (long n = 1; n < No; n++) if (q.p(0.5)) { long k = q.below(n); for (long j = 0; j < 3; j++) Ro[n + j * No] = Ro[k + j * No]; }   // repeated points
  if (sty & 2) for (long n = 0; n < No; n++) switch (q.below(5)) {   // on the axes, mirrored
    case 0: Ro[n] = 0; break;
    case 1: Ro[n + No] = 0; break;
    case 2: Ro[n] = Ro[n + No] = 0; break;
    case 3: if (n) for (long j = 0; j < 3; j++) Ro[n + j * No] = (j < 2 && q.p(0.5) ? -1 : 1) * Ro[n - 1 + j * No]; break;
    default: break;
  }
}
static void vary_v(Rng &q, V &v, double d) { if (!v.empty()) v[q.below(v.size())] += d * q.uni(0.2, 1) * (q.p(0.5) ? 1 : -1); }
static void vary_points(Rng &q, V &Ro, long No) {
  switch (q.below(4)) {
    case 0: vary_v(q, Ro, 0.2); break;                                   // one coordinate of one point
    case 1: { long n = q.below(No); for (long j = 0; j < 3; j++) Ro[n + j * No] += q.uni(-0.1, 0.1); break; }
    case 2: { long a = q.below(No), b = q.below(No); for (long j = 0; j < 3; j++) std::swap(Ro[a + j * No], Ro[b + j * No]); break; }
    default: for (double &x : Ro) x += q.uni(-0.1, 0.1);
  }
}
// returns base, or a variation of it that is well conditioned
template <class C, class F, class G> static C varied(const Params &p, const C &base, F change, G good) {
  if (!p.has("vf")) return base;
  for (long k = 0; k < 40; k++) { Rng q(sim::mix((uint64_t)p.get("vs"), 4000 + k)); C c = base; change(q, c, (long)p.get("vf")); if (good(c)) return c; }
  return base;
}
static const char *FOC[] = {"off", "x", "y", "xy", "x+y", "ud"};
static const char *STEER[] = {"off", "x", "y", "xy"};
static const char *APOD[] = {"off", "triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped", "ud"};
static const char *ERRL[] = {"", "ignore", "warn", "stop"};
SirCase sir_case(const std::string &fn, const Params &p) {
  for (long bump = 0;; bump++) {
    Rng r(sim::mix((uint64_t)p.get("ds"), 1000 + bump));
    SirCase c; c.fn = fn;
    c.No = p.get("No", 1); c.nt = p.get("nt", 64); c.ne = p.get("ne", 4);
    c.v = r.uni(0.5, 2); c.cp = r.uni(900, 1800);
    c.alpha = p.get("att") ? r.uni(1, 8) : 0;
    double size = r.uni(0.6, 2.0); long grid = p.get("grid", 5);
    c.dx = size / grid * r.uni(0.8, 1.2); c.dy = size / grid * r.uni(0.8, 1.2);
    bool arr = c.is_array();
    if (fn == "dreamline") c.geom = {size};
    else if (fn == "dreamrect" || fn == "dreamrect_f" || fn == "dream_arr_rect") c.geom = {size * r.uni(0.8, 1.2), size * r.uni(0.8, 1.2)};
    else if (fn == "dreamcirc" || fn == "dreamcirc_f" || fn == "dream_arr_circ") c.geom = {size * 0.55};
    else if (fn == "dreamsphere") c.geom = {size * 0.55, (r.p(0.5) ? 1 : -1) * size * r.uni(0.7, 4)};
    else if (fn == "dreamcylind" || fn == "dream_arr_cylind") c.geom = {size * r.uni(0.8, 1.2), size, (r.p(0.5) ? 1 : -1) * size * r.uni(0.7, 4)};
    if (fn == "dream_arr_annu") {
      c.ne = 2 * ((c.ne + 1) / 2) - 1 ; // odd number of radii
      double R = r.p(0.3) ? 0.0 : r.uni(0.2, 0.4);
      for (long k = 0; k < c.ne; k++) { c.G.push_back(R); R += r.uni(0.15, 0.35); }
      c.dx = c.dy = 1.0 / grid * r.uni(0.5, 0.8) ; c.dy *= r.uni(0.9, 1.1);
    } else if (arr) {
      c.G.assign(c.ne * 3, 0.0);
      for (long k = 0; k < c.ne; k++) { c.G[k] = r.uni(-4, 4); c.G[k + c.ne] = r.uni(-4, 4); c.G[k + 2 * c.ne] = r.uni(-0.5, 0.5); }
    }
    c.Ro.resize(c.No * 3);
    for (long n = 0; n < c.No; n++) { c.Ro[n] = r.uni(-6, 6); c.Ro[n + c.No] = r.uni(-6, 6); c.Ro[n + 2 * c.No] = r.uni(4, 20); }
    long sty = bump < 40 ? p.get("sty") : 0; Rng st(sim::mix((uint64_t)p.get("ds"), 3000 + bump));
    style_points(st, c.Ro, c.No, sty);
    if ((sty & 4) && fn != "dream_arr_annu") { double a = st.uni(0.4, 2.5), b = st.uni(0.4, 2.5); c.dx *= a; c.dy *= b; while (c.dx * c.dy * 150 < size * size) { c.dx *= 1.2; c.dy *= 1.2; } }
    if ((sty & 8) && c.geom.size() > 1 && fn != "dreamsphere") { c.geom[0] *= st.uni(0.25, 1.5); if (c.geom.size() == 2) c.geom[1] *= st.uni(0.25, 1.5); }
    if ((sty & 16) && arr && fn != "dream_arr_annu" && c.ne > 1) {   // regular and not centred
      double pitch = st.uni(0.5, 1.5), x0 = st.p(0.5) ? -(double)(c.ne - 1) / 2 * pitch : st.uni(-4, 4); long cols = st.range(1, c.ne);
      for (long k = 0; k < c.ne; k++) { c.G[k] = x0 + (double)(k % cols) * pitch; c.G[k + c.ne] = (double)(k / cols) * pitch; c.G[k + 2 * c.ne] = 0; }
      if (cols == 1 && x0 == 0) c.G[0] = 0.25;
    }
    if (sty & 64) { c.v = 1; c.cp = 1500; c.dy = c.dx; }
    if (sty & 128) for (long n = 0; n < c.No; n++) c.Ro[n + 2 * c.No] = st.p(0.5) ? st.uni(1, 3) : -c.Ro[n + 2 * c.No];
    if (sty && fn.find("cylind") != std::string::npos) c.dy = std::min(c.dy, 0.6 * size);
    c.foc = FOC[p.get("foc") % 6]; if (c.foc == "ud" && !arr) c.foc = "xy";
    c.steer = STEER[p.get("steer") % 4]; c.apod = APOD[p.get("apod") % 9];
    if (fn == "dream_arr_annu") c.steer = "off";
    if (!arr && fn != "dreamrect_f" && fn != "dreamcirc_f") c.foc = "off";
    if (!arr) { c.steer = c.apod = "off"; }
    long nfe = fn == "dream_arr_annu" ? (c.ne + 1) / 2 : c.ne;
    if (c.foc == "ud") { c.focal = rnd(r, nfe, 0, 1.5); } else c.focal = {r.uni(5, 30)};
    if (c.apod == "ud") c.apodv = rnd(r, nfe, -1, 1.5); else c.apodv = {1.0};
    c.theta = r.uni(-40, 40); c.phi = r.uni(-40, 40); c.wpar = r.uni(0.2, 2);
    if (sty & 32) {
      switch (st.below(3)) { case 0: c.theta = 0; break; case 1: c.phi = 0; break; default: c.phi = c.theta; }
      if (c.foc == "ud") { for (double &x : c.focal) if (st.p(0.4)) x = st.p(0.5) ? 0 : c.focal[0]; } else c.focal[0] = st.p(0.5) ? st.uni(0.5, 3) : 1e4;
      if (c.apod == "ud") for (double &x : c.apodv) if (st.p(0.4)) x = st.p(0.5) ? 0 : 1;
    }
    c.err = ERRL[p.get("er") % 4];
    // time window
    double gmin = 1e300, gmax = -1e300, mg = 1; V tmin(c.No, 1e300), tmax(c.No, -1e300);
    for (long n = 0; n < c.No; n++)
      contributions(c, n, &mg, [&](double t, double, double, int) { tmin[n] = std::min(tmin[n], t); tmax[n] = std::max(tmax[n], t); });
    for (long n = 0; n < c.No; n++) { gmin = std::min(gmin, tmin[n]); gmax = std::max(gmax, tmax[n]); }
    double usable = std::max<double>(2.0, c.nt * 0.8);
    bool one = (sty & 256) || !p.get("dl");  // one start time, or the same one for all points
    if (!one) { // one start time per observation point
      double w = 0; for (long n = 0; n < c.No; n++) w = std::max(w, tmax[n] - tmin[n]);
      c.dt = std::max(w, 1e-3) / usable;
      c.delay.resize(c.No);
      for (long n = 0; n < c.No; n++) c.delay[n] = tmin[n] - c.dt * r.uni(0.6, std::max(0.7, c.nt * 0.15));
    } else {
      c.dt = std::max(gmax - gmin, 1e-3) / usable;
      c.delay = {gmin - c.dt * r.uni(0.6, std::max(0.7, c.nt * 0.15))};
      if (p.get("dl")) c.delay.assign((size_t)c.No, c.delay[0]);
    }
    long oob = p.get("oob");
    if (oob) { // push some contributions out of the window: 1 late, 2 early, 3 one chosen point only
      long k = p.get("oobn", 0) % c.No;
      if (c.delay.size() > 1) {
        double w = (tmax[k] - tmin[k]);
        if (oob == 2) c.delay[k] = tmin[k] + w * r.uni(0.2, 0.8) + c.dt;
        else c.delay[k] = tmin[k] - c.dt * c.nt + w * r.uni(0.2, 0.8);
      } else {
        double w = gmax - gmin;
        if (oob == 2) c.delay[0] = gmin + w * r.uni(0.1, 0.5) + c.dt;
        else c.delay[0] = gmin - c.dt * c.nt + w * r.uni(0.5, 0.9);
      }
    }
    if (bump > 60) return c;
    auto good = [&](const SirCase &c) {
      SirOut o; SirCase q = c; q.alpha = 0;
      sir_model(q, o);
      if (o.margin < 1e-6) return false;
      if (!oob) for (char b : o.oob) if (b) return false;
      return true;
    };
    if (!good(c)) continue;
    return varied(p, c, [&](Rng &q, SirCase &c, long f) {
      for (;; f++) switch (f % 17) {   // the first field from f on that this function has
        case 0: c.v *= q.uni(1.1, 2); return;
        case 1: if (c.alpha > 0) { c.alpha *= q.uni(1.2, 2); return; } break;
        case 2: vary_points(q, c.Ro, c.No); return;
        case 3: c.dt *= q.uni(1.01, 1.3); return;
        case 4: c.cp *= q.uni(0.97, 1.03); return;
        case 5: if (c.foc != "off") { if (c.foc == "ud") vary_v(q, c.focal, 0.3); else c.focal[0] *= q.uni(0.7, 1.4); return; } break;
        case 6: if (c.steer != "off") { (q.p(0.5) ? c.theta : c.phi) += q.uni(-4, 4); return; } break;
        case 7: if (c.apod != "off") { if (c.apod == "ud") vary_v(q, c.apodv, 0.5); else c.wpar *= q.uni(1.1, 1.5); return; } break;
        case 8: vary_v(q, c.delay, c.dt); return;
        case 9: c.dx *= q.uni(0.9, 1.1); return;
        case 10: c.dy *= q.uni(0.9, 1.1); return;
        case 11: if (!c.geom.empty()) { c.geom[0] *= q.uni(0.93, 1); return; } break;
        case 12: if (c.geom.size() > 2) { c.geom[2] *= q.p(0.5) ? -1 : q.uni(1.05, 1.3); return; } if (c.geom.size() > 1) { c.geom[1] *= fn == "dreamsphere" ? (q.p(0.5) ? -1 : q.uni(1.05, 1.3)) : q.uni(0.93, 1); return; } break;
        case 13: if (fn == "dream_arr_annu") { if (!c.G.empty()) { c.G.back() += q.uni(0.01, 0.1); return; } } else if (!c.G.empty()) { c.G[q.below(c.G.size())] += q.uni(-0.1, 0.1); return; } break;
        case 14: c.nt += q.range(1, 5); return;
        case 15: if (c.foc != "off" && c.foc != "ud" && fn != "dream_arr_annu") { c.foc = FOC[1 + q.below(4)]; return; } break;
        case 16: if (c.steer != "off") { c.steer = STEER[q.below(4)]; return; } break;
      }
    }, good);
  }
}
// ------------------------------------------------------------------ attenuation responses and windows
Call AttCase::call() const {
  Call c; c.fn = "dream_att"; c.nout = 1;
  c.args = {Val::mat(No, 3, Ro), Val::row({dt, (double)nt}), delay.size() == 1 ? Val::num(delay[0]) : Val::col(delay), Val::row({cp, alpha})};
  return c;
}
V att_model(const AttCase &c, double *margin) {
  V H((size_t)(c.nt * c.No)), x; *margin = 1;
  SirCase s; s.nt = c.nt; s.dt = c.dt; s.cp = c.cp; s.alpha = c.alpha;
  for (long n = 0; n < c.No; n++) {
    double a = c.Ro[n], b = c.Ro[n + c.No], d = c.Ro[n + 2 * c.No], r = std::sqrt(a * a + b * b + d * d);
    double q = (r * 1e3 / c.cp - (c.delay.size() == 1 ? c.delay[0] : c.delay[n])) / c.dt + 1;
    *margin = std::min(*margin, std::fabs(q - std::nearbyint(q)));
    green(x, s, r, (long)std::trunc(q));
    std::copy(x.begin(), x.end(), H.begin() + n * c.nt);
  }
  return H;
}
AttCase att_case(const Params &p) {
  for (long bump = 0;; bump++) {
    Rng r(sim::mix((uint64_t)p.get("ds"), 9000 + bump));
    AttCase c; c.No = p.get("No", 1); c.nt = p.get("nt", 32); c.dt = r.uni(0.02, 0.2); c.cp = r.uni(900, 1800); c.alpha = r.p(0.1) ? 0 : r.uni(0.5, 8);
    c.Ro.resize(c.No * 3);
    for (long n = 0; n < c.No; n++) { c.Ro[n] = r.uni(-6, 6); c.Ro[n + c.No] = r.uni(-6, 6); c.Ro[n + 2 * c.No] = r.uni(4, 20); }
    Rng st(sim::mix((uint64_t)p.get("ds"), 3000 + bump)); style_points(st, c.Ro, c.No, p.get("sty"));
    auto start = [&](long n) { double a = c.Ro[n], b = c.Ro[n + c.No], d = c.Ro[n + 2 * c.No]; return std::sqrt(a * a + b * b + d * d) * 1e3 / c.cp - c.dt * r.uni(-3, (double)c.nt + 3); };
    if (p.get("dl")) for (long n = 0; n < c.No; n++) c.delay.push_back(start(n)); else c.delay = {start(0)};
    double m; att_model(c, &m);
    if (m > 1e-6) return varied(p, c, [&](Rng &q, AttCase &c, long f) {
      switch (f % 6) {
        case 0: vary_points(q, c.Ro, c.No); break;
        case 1: c.dt *= q.uni(0.9, 1.1); break;
        case 2: c.cp *= q.uni(0.97, 1.03); break;
        case 3: if (c.alpha > 0) c.alpha *= q.uni(0.7, 1.4); else c.alpha = 2; break;
        case 4: vary_v(q, c.delay, 2 * c.dt); break;
        case 5: c.nt += q.range(1, 3); break;
      }
    }, [](const AttCase &c) { double m; att_model(c, &m); return m > 1e-6; });
    if (bump > 60) return c;
  }
}
Call WinCase::call() const {
  Call c; c.fn = "dream_apodwin"; c.nout = 1;
  c.args = {Val::str(met), met == "ud" ? Val::col(apod) : Val::num((double)n), Val::num(par)};
  return c;
}
WinCase win_case(const Params &p) {
  Rng r(sim::mix((uint64_t)p.get("ds"), 9100));
  WinCase c; c.met = APOD[p.get("apod") % 9]; c.n = p.get("No", 1); c.par = r.uni(0.2, 2);
  if (c.met == "ud") c.apod = rnd(r, c.n, -1, 1.5);
  return varied(p, c, [](Rng &q, WinCase &c, long f) {
    if (f % 3 == 0) c.par *= q.uni(1.1, 1.5);
    else if (f % 3 == 1 && c.met == "ud") vary_v(q, c.apod, 0.5);
    else if (c.met != "ud") c.met = APOD[q.below(8)];
  }, [](const WinCase &) { return true; });
}
V win_model(const WinCase &c) {
  V w((size_t)c.n, 1.0);
  if (c.met != "off") for (long k = 0; k < c.n; k++) w[k] = apod_w(c.met, c.apod, k, std::fabs(1 - 2.0 * k / c.n), 1, c.par, false);
  return w;
}
// ------------------------------------------------------------------ delay-and-sum
Call DasCase::call(const char *fn) const {
  Call c; c.fn = fn; c.nout = 1;
  auto mk = [&](long r, long k, const V &v) { Val x = Val::mat(r, k, v); x.single = single; return x; };
  c.args.push_back(mk(len, nA, Y)); c.args.push_back(mk(Nt, 3, Gt)); c.args.push_back(mk(Nr, Nr ? 3 : 0, Gr)); c.args.push_back(mk(No, 3, Ro));
  c.args.push_back(mk(1, 1, {dt}));
  c.args.push_back(delay.size() == 1 ? mk(1, 1, delay) : mk((long)delay.size(), 1, delay));
  c.args.push_back(mk(1, 1, {cp}));
  c.args.push_back(Val::str(method));
  if (!err.empty()) c.args.push_back(Val::str(err));
  return c;
}
static const char *DM[] = {"saft", "tfm", "rca_coltx", "rca_rowtx"};
void das_model(const DasCase &c, DasOut &o) {
  o.Im.assign(c.No, 0); o.oob.assign(c.No, 0); o.margin = 1;
  double Fs = 1000.0 / c.dt, eps = c.single ? std::max<double>(c.len, 100) * 2e-6 : 1e-7;
  for (long n = 0; n < c.No; n++) {
    double x = c.Ro[n], y = c.Ro[n + c.No], z = c.Ro[n + 2 * c.No];
    double dl = (c.delay.size() == 1 ? c.delay[0] : c.delay[n]) / 1000.0;
    auto add = [&](double t, long col) {
      double q = t * Fs; double k = std::trunc(q);
      double fr = std::fabs(q - std::nearbyint(q));
      if (fr / eps < o.margin) o.margin = std::min(o.margin, fr / eps * 1e-7);
      if (k < 0 || k >= c.len) { o.oob[n] = 1; return; }
      o.Im[n] += c.Y[(size_t)(col * c.len + (long)k)];
    };
    auto d3 = [](double a, double b, double d) { return std::sqrt(a * a + b * b + d * d); };
    if (c.method == "saft") {
      for (long k = 0; k < c.Nt; k++) add(2 * (d3(c.Gt[k] - x, c.Gt[k + c.Nt] - y, c.Gt[k + 2 * c.Nt] - z) / c.cp + dl), k);
    } else if (c.method == "tfm") {
      for (long k = 0; k < c.Nt; k++) for (long l = 0; l < c.Nr; l++)
        add(d3(c.Gt[k] - x, c.Gt[k + c.Nt] - y, c.Gt[k + 2 * c.Nt] - z) / c.cp + dl + d3(c.Gr[l] - x, c.Gr[l + c.Nr] - y, c.Gr[l + 2 * c.Nr] - z) / c.cp, k * c.Nr + l);
    } else {
      // columns: elements Gt extending in y over the span of the row elements; rows: elements Gr extending in x over the span of the columns
      auto edge = [](double p, double lo, double hi) { if (lo > hi) std::swap(lo, hi); return p < lo ? lo - p : p > hi ? p - hi : 0.0; };
      double y0 = c.Gr[0 + c.Nr], y1 = c.Gr[c.Nr - 1 + c.Nr], x0 = c.Gt[0], x1 = c.Gt[c.Nt - 1];
      auto col = [&](long k) { return d3(c.Gt[k] - x, edge(y, y0, y1), c.Gt[k + 2 * c.Nt] - z); };
      auto row = [&](long l) { return d3(edge(x, x0, x1), c.Gr[l + c.Nr] - y, c.Gr[l + 2 * c.Nr] - z); };
      if (c.method == "rca_coltx") { for (long k = 0; k < c.Nt; k++) for (long l = 0; l < c.Nr; l++) add(col(k) / c.cp + dl + row(l) / c.cp, k * c.Nr + l); }
      else { for (long l = 0; l < c.Nr; l++) for (long k = 0; k < c.Nt; k++) add(row(l) / c.cp + dl + col(k) / c.cp, l * c.Nt + k); }
    }
  }
  o.scale = std::max(1.0, maxabs(o.Im));
}
static double flt(double x) { return (double)(float)x; }
DasCase das_case(const Params &p) {
  for (long bump = 0;; bump++) {
    Rng r(sim::mix((uint64_t)p.get("ds"), 5000 + bump));
    DasCase c; c.single = p.get("flt") && bump < 80;   // too many samples near a boundary of single precision
    c.method = DM[p.get("meth") % 4];
    c.Nt = p.get("Nt", 3); c.Nr = c.method == "saft" ? 0 : p.get("Nr", 3); c.No = p.get("No", 4); c.len = p.get("len", 100);
    c.nA = c.method == "saft" ? c.Nt : c.Nt * c.Nr;
    c.Gt.assign(c.Nt * 3, 0.0); c.Gr.assign(c.Nr * 3, 0.0);
    if (c.method[0] == 'r') {
      double x = r.uni(-5, -1); for (long k = 0; k < c.Nt; k++) { c.Gt[k] = x; x += r.uni(0.3, 1); }
      double y = r.uni(-5, -1); for (long k = 0; k < c.Nr; k++) { c.Gr[k + c.Nr] = y; y += r.uni(0.3, 1); }
    } else {
      for (long k = 0; k < c.Nt; k++) { c.Gt[k] = r.uni(-6, 6); c.Gt[k + c.Nt] = r.uni(-6, 6); c.Gt[k + 2 * c.Nt] = r.uni(-0.5, 0.5); }
      for (long k = 0; k < c.Nr; k++) { c.Gr[k] = r.uni(-6, 6); c.Gr[k + c.Nr] = r.uni(-6, 6); c.Gr[k + 2 * c.Nr] = r.uni(-0.5, 0.5); }
    }
    c.Ro.resize(c.No * 3);
    for (long n = 0; n < c.No; n++) { c.Ro[n] = r.uni(-8, 8); c.Ro[n + c.No] = r.uni(-8, 8); c.Ro[n + 2 * c.No] = r.uni(2, 20); }
    c.cp = r.uni(1000, 1800);
    long sty = bump < 80 ? p.get("sty") : 0; Rng st(sim::mix((uint64_t)p.get("ds"), 3000 + bump));
    style_points(st, c.Ro, c.No, sty);
    if ((sty & 16) && c.method[0] != 'r') for (V *g : {&c.Gt, &c.Gr}) {   // linear arrays; the receivers are the transmitters
      long n = (long)g->size() / 3; double x0 = st.uni(-4, -1), d = st.uni(0.3, 1);
      for (long k = 0; k < n; k++) { (*g)[k] = x0 + (double)k * d; (*g)[k + n] = (*g)[k + 2 * n] = 0; }
      if (g == &c.Gr && n == c.Nt) *g = c.Gt;
    }
    if (sty & 64) c.cp = 1500;
    // window covers every path: longest one-way 30 mm
    double tmax = 2 * 32.0 / c.cp; // ms
    c.dt = tmax * 1000 / (c.len * 0.85);
    double slack = c.dt * c.len * 0.02;
    c.delay = p.get("dl") ? rnd(r, c.No, 0, slack) : V{r.uni(0, slack)};
    long oob = p.get("oob"), k = p.get("oobn", 0) % c.No;
    if (oob) { double d = oob == 2 ? -c.dt * c.len * 0.7 : c.dt * c.len * (c.method == "saft" ? 0.45 : 0.8); if (c.delay.size() > 1) c.delay[k] = d; else c.delay[0] = d; }
    if (sty & 256) c.delay.assign(c.delay.size(), c.delay[0]);
    c.Y = rnd(r, c.len * c.nA);
    auto narrow = [](DasCase &c) { if (!c.single) return;
      for (V *v : {&c.Y, &c.Gt, &c.Gr, &c.Ro, &c.delay}) for (double &x : *v) x = flt(x);
      c.dt = flt(c.dt); c.cp = flt(c.cp);
    };
    narrow(c);
    c.err = ERRL[p.get("er") % 4];
    if (bump > 200) return c;
    auto good = [&](const DasCase &c) {
      DasOut o; das_model(c, o);
      if (o.margin < 1e-7) return false;
      if (!oob) for (char b : o.oob) if (b) return false;
      return true;
    };
    if (!good(c)) continue;
    return varied(p, c, [&](Rng &q, DasCase &c, long f) {
      bool rca = c.method[0] == 'r';
      switch (f % 8) {
        case 0: vary_v(q, c.Y, 1); break;
        case 1: if (rca) { for (long k = 0; k < c.Nt; k++) c.Gt[k] += 0.1; } else vary_v(q, c.Gt, 0.3); break;
        case 2: if (rca) { for (long k = 0; k < c.Nr; k++) c.Gr[k + c.Nr] += 0.1; } else vary_v(q, c.Nr ? c.Gr : c.Gt, 0.3); break;
        case 3: vary_points(q, c.Ro, c.No); break;
        case 4: c.dt *= q.uni(1.01, 1.2); break;
        case 5: c.cp *= q.uni(1.005, 1.05); break;
        case 6: vary_v(q, c.delay, c.dt * 2); break;
        case 7: if (rca) c.method = DM[1 + q.below(3)]; else c.single = false; break;
      }
      narrow(c);
    }, good);
  }
}
// uniform grids: elements along x (columns) and y (rows), image points with y running fastest, then z, then x
DasCase das_uni_case(const Params &p, Call &call) {
  for (long bump = 0;; bump++) {
    Rng r(sim::mix((uint64_t)p.get("ds"), 5500 + bump));
    DasCase c; c.single = p.get("flt") && bump < 80;
    c.method = DM[p.get("meth") % 4]; bool rca = c.method[0] == 'r', saft = c.method == "saft";
    c.Nt = p.get("Nt", 3); c.Nr = saft ? 0 : p.get("Nr", 3); c.len = p.get("len", 100); c.nA = saft ? c.Nt : c.Nt * c.Nr;
    auto q16 = [&](double a, double b) { return std::floor(r.uni(a, b) * 16) / 16; };
    struct G { double lo, d, hi; long n; double at(long k) const { return lo + (double)k * d; } };
    auto grid = [&](double a, double b, long n, double d, bool exact) { G g; g.n = n; g.d = d; g.lo = q16(a, b); g.hi = g.lo + (double)(n - 1) * d + (exact || r.p(0.5) ? 0.0 : d / 2); return g; };
    G t = grid(-6, -2, c.Nt, q16(0.25, 1) + 0.0625, rca), q = grid(-6, -2, c.Nr, q16(0.25, 1) + 0.0625, rca);
    G x = grid(-6, 2, p.get("Nx", 2), q16(0.25, 3) + 0.0625, false), y = grid(-6, 2, p.get("Ny", 2), q16(0.25, 3) + 0.0625, false), z = grid(2, 10, p.get("Nz", 2), q16(0.25, 2) + 0.0625, false);
    c.No = x.n * y.n * z.n;
    c.Gt.assign(c.Nt * 3, 0.0); c.Gr.assign(c.Nr * 3, 0.0);
    for (long k = 0; k < c.Nt; k++) c.Gt[k] = t.at(k);
    for (long k = 0; k < c.Nr; k++) c.Gr[k + (rca ? c.Nr : 0)] = q.at(k);
    c.Ro.resize(c.No * 3); long n = 0; double far = 0;
    for (long i = 0; i < x.n; i++) for (long k = 0; k < z.n; k++) for (long j = 0; j < y.n; j++, n++) {
      c.Ro[n] = x.at(i); c.Ro[n + c.No] = y.at(j); c.Ro[n + 2 * c.No] = z.at(k);
      far = std::max(far, std::sqrt(std::pow(std::fabs(x.at(i)) + 30, 2) + std::pow(std::fabs(y.at(j)) + 30, 2) + z.at(k) * z.at(k)));
    }
    c.cp = r.uni(1000, 1800); c.dt = 2 * far / c.cp * 1000 / (c.len * r.uni(0.85, 1.6));
    double slack = c.dt * c.len * 0.02;
    c.delay = p.get("dl") ? rnd(r, c.No, -slack, slack) : V{r.uni(-slack, slack)};
    c.Y = rnd(r, c.len * c.nA);
    if (c.single) { for (V *v : {&c.Y, &c.delay}) for (double &e : *v) e = flt(e); c.dt = flt(c.dt); c.cp = flt(c.cp); }
    DasOut o; das_model(c, o);
    if (bump < 200 && o.margin < 1e-7) continue;
    auto fine = [](const DasCase &c) { DasOut o; das_model(c, o); return !(o.margin < 1e-7); };
    if (bump < 200) c = varied(p, c, [](Rng &q, DasCase &c, long f) {
      switch (f % 4) {
        case 0: vary_v(q, c.Y, 1); break;
        case 1: c.dt *= q.uni(1.01, 1.2); break;
        case 2: c.cp *= q.uni(1.005, 1.05); break;
        case 3: vary_v(q, c.delay, c.dt * 2); break;
      }
      if (c.single) { for (V *v : {&c.Y, &c.delay}) for (double &e : *v) e = flt(e); c.dt = flt(c.dt); c.cp = flt(c.cp); }
    }, fine);
    call = Call(); call.fn = "das_uni"; call.nout = 1;
    auto mk = [&](long a, long b, const V &v) { Val w = Val::mat(a, b, v); w.single = c.single; return w; };
    call.args = {mk(c.len, c.nA, c.Y), mk(1, 3, {t.lo, t.d, t.hi}), saft ? mk(0, 0, {}) : mk(1, 3, {q.lo, q.d, q.hi}), mk(3, 3, {x.lo, y.lo, z.lo, x.d, y.d, z.d, x.hi, y.hi, z.hi}),
      mk(1, 1, {c.dt}), c.delay.size() == 1 ? mk(1, 1, c.delay) : mk((long)c.delay.size(), 1, c.delay), mk(1, 1, {c.cp}), Val::str(c.method)};
    return c;
  }
}
V conv_model(const V &a, const V &b) {
  V z(a.size() + b.size() - 1, 0.0);
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) z[i + j] += a[i] * b[j];
  return z;
}

// ------------------------------------------------------------------ analytic responses
Call AnaCase::call() const {
  Call c; c.fn = fn; c.nout = 1;
  c.args.push_back(Val::mat(No, 3, Ro));
  c.args.push_back(geom.size() == 1 ? Val::num(geom[0]) : Val::row(geom));
  c.args.push_back(Val::row({dt, (double)nt}));
  c.args.push_back(delay.size() == 1 ? Val::num(delay[0]) : Val::col(delay));
  c.args.push_back(Val::row({v, cp}));
  if (fn == "scirc_sir") c.args.push_back(Val::num((double)int_len));
  return c;
}
namespace {
// angle (radians) of the part of the circle with radius rho around (x,y) that lies inside the rectangle |.|<=a, |.|<=b
double arc_in_rect(double x, double y, double rho, double a, double b) {
  if (rho <= 0) return (std::fabs(x) < a && std::fabs(y) < b) ? 2 * M_PI : 0;
  V an{0, 2 * M_PI};
  auto add = [&](double t) { t = std::fmod(t, 2 * M_PI); if (t < 0) t += 2 * M_PI; an.push_back(t); };
  for (double e : {-a, a}) { double q = (e - x) / rho; if (std::fabs(q) <= 1) { add(std::acos(q)); add(-std::acos(q)); } }
  for (double e : {-b, b}) { double q = (e - y) / rho; if (std::fabs(q) <= 1) { add(std::asin(q)); add(M_PI - std::asin(q)); } }
  std::sort(an.begin(), an.end());
  double s = 0;
  for (size_t i = 0; i + 1 < an.size(); i++) {
    double m = (an[i] + an[i + 1]) / 2;
    if (std::fabs(x + rho * std::cos(m)) < a && std::fabs(y + rho * std::sin(m)) < b) s += an[i + 1] - an[i];
  }
  return s;
}
thread_local double rim = M_PI / 2;
double arc_half(double ct, double z, double rc, double r) { // half angle of the circle around the projection that lies in the disc
  double q = ct * ct - z * z; if (std::fabs(rc - r) < 1e-9 * r && q < 1e-9 * z * z) return rim; // straight below the rim, at the first arrival
  double c = q > 0 ? (q + rc * rc - r * r) / (2 * rc * std::sqrt(q)) : (rc < r ? -1 : 1);
  return c >= 1 ? 0 : c <= -1 ? M_PI : std::acos(c);
}
}
static void ana_at(const AnaCase &c, AnaOut &o, double sh) { // sh: all sample times are a factor 1+sh later
  o.H.assign((size_t)(c.nt * c.No), 0.0); o.margin = 1;
  for (long n = 0; n < c.No; n++) {
    double x = c.Ro[n] / 1e3, y = c.Ro[n + c.No] / 1e3, z = c.Ro[n + 2 * c.No] / 1e3, dl = c.delay.size() == 1 ? c.delay[0] : c.delay[n];
    double *h = &o.H[n * c.nt];
    if (c.fn == "rect_sir") {
      double a = c.geom[0] / 2e3, b = c.geom[1] / 2e3;
      V ev; // edge and corner arrival times
      double X = std::fabs(x), Y = std::fabs(y);
      if (std::fabs(X - a) < 1e-6 * a || std::fabs(Y - b) < 1e-6 * b) o.margin = std::min(o.margin, 0.0);
      ev.push_back(z);
      for (double u : {0.0, a - X, a + X}) for (double w : {0.0, b - Y, b + Y}) ev.push_back(std::sqrt(z * z + u * u + w * w));
      for (long k = 0; k < c.nt; k++) {
        double ct = (k * c.dt + dl) * 1e-6 * c.cp * (1 + sh);
        for (double e : ev) o.margin = std::min(o.margin, std::fabs(ct - e) / (c.dt * 1e-6 * c.cp));
        if (ct < z) continue;
        h[k] = c.v * c.cp / (2 * M_PI) * arc_in_rect(x, y, std::sqrt(ct * ct - z * z), a, b);
      }
      continue;
    }
    double r = c.geom[0] / 1e3, rc = std::sqrt(x * x + y * y), Rp = std::sqrt(z * z + (r - rc) * (r - rc)), R = std::sqrt(z * z + (r + rc) * (r + rc));
      double dr = std::fabs(r - rc) / r;
    if (dr < 1e-9) o.margin = std::min(o.margin, 0.0); else if (dr < 1e-2 && c.fn == "scirc_sir") o.margin = -1; // ill conditioned next to the rim
    for (long k = 0; k < c.nt; k++) {
      double t = (k * c.dt + dl) * (1 + sh);
      if (c.fn == "circ_sir") {
        double ct = t * 1e-6 * c.cp;
        for (double e : {z, Rp, R}) o.margin = std::min(o.margin, std::fabs(ct - e) / (c.dt * 1e-6 * c.cp));
        if (ct < z || ct >= R) continue;
        if (ct < Rp) h[k] = rc < r ? c.v * c.cp : 0; else h[k] = c.v * c.cp / M_PI * arc_half(ct, z, rc, r);
      } else { // mean over the sampling interval
        double t1 = std::max(0.0, t - c.dt / 2) * 1e-6, t2 = (t + c.dt / 2) * 1e-6, s = 0;
        if (rc < r) { double lo = std::max(t1, z / c.cp), hi = std::min(t2, Rp / c.cp); if (hi > lo) s += (hi - lo) * M_PI; }
        double lo = std::max(t1, Rp / c.cp), hi = std::min(t2, R / c.cp);
        if (hi > lo && R > Rp) {
          double d = (hi - lo) / c.int_len;
          for (long i = 0; i < c.int_len; i++) s += d / 2 * (arc_half((lo + i * d) * c.cp, z, rc, r) + arc_half((lo + (i + 1) * d) * c.cp, z, rc, r));
        }
        h[k] = c.v * c.cp / M_PI * s / (c.dt * 1e-6);
      }
    }
  }
  o.scale = maxabs(o.H);
}
void ana_model(const AnaCase &c, AnaOut &o) {
  ana_at(c, o, 0); o.lo = o.hi = o.H;
  if (o.margin >= 1e-6) return;
  // at an arrival time, or on an edge: everything within rounding of the time and of the size of the aperture is right
  for (double sh : {-1e-9, 0.0, 1e-9}) for (double w : {0.0, M_PI / 2, M_PI}) {
    AnaOut a; rim = w; ana_at(c, a, sh); rim = M_PI / 2;
    for (size_t i = 0; i < o.H.size(); i++) { o.lo[i] = std::min(o.lo[i], a.H[i]); o.hi[i] = std::max(o.hi[i], a.H[i]); }
  }
  for (long n = 0; c.fn != "scirc_sir" && n < c.No; n++) {
    double z = c.Ro[n + 2 * c.No] / 1e3, x = std::fabs(c.Ro[n]), y = std::fabs(c.Ro[n + c.No]), dl = c.delay.size() == 1 ? c.delay[0] : c.delay[n], s = c.geom[0], b = c.geom.back();
    bool on = c.geom.size() == 1 ? std::fabs(std::hypot(x, y) - s) < 1e-9 * s : (std::fabs(x - s / 2) < 1e-9 * s && y < b / 2 * (1 + 1e-9)) || (std::fabs(y - b / 2) < 1e-9 * b && x < s / 2 * (1 + 1e-9));
    for (long k = 0; on && k < c.nt; k++) if (std::fabs((k * c.dt + dl) * 1e-6 * c.cp - z) < 1e-9 * z) { o.lo[n * c.nt + k] = 0; o.hi[n * c.nt + k] = c.v * c.cp; }
  }
}
AnaCase ana_case(const std::string &fn, const Params &p) {
  for (long bump = 0;; bump++) {
    Rng r(sim::mix((uint64_t)p.get("ds"), 9000 + bump));
    AnaCase c; c.fn = fn; c.No = p.get("No", 4); c.nt = p.get("nt", 60);
    c.v = r.uni(0.5, 2); c.cp = r.uni(900, 1800); c.int_len = p.get("il", 5);
    c.geom = fn == "rect_sir" ? V{r.uni(1, 6), r.uni(1, 6)} : V{r.uni(1, 5)};
    double s = c.geom[0];
    c.Ro.resize(c.No * 3);
    double tmin = 1e300, tmax = 0; V t0(c.No);
    long quad = p.get("quad");                  // where the points lie: 0 anywhere, 1 inside, 2 outside, 3 on axis
    for (long n = 0; n < c.No; n++) {
      double e = quad == 1 ? 0.3 * s : quad == 2 ? 2.5 * s : 1.1 * s;
      c.Ro[n] = quad == 2 ? (r.p(0.5) ? 1 : -1) * r.uni(1.1 * s, e) : r.uni(-e, e); c.Ro[n + c.No] = r.uni(-e, e); c.Ro[n + 2 * c.No] = r.uni(1, 12);
      if (quad == 3) c.Ro[n] = c.Ro[n + c.No] = 0;
      if (quad == 4) { // on an edge, a corner or the rim
        double sg = r.p(0.5) ? 1 : -1; long w = r.below(4);
        if (c.geom.size() == 1) { double th = r.uni(0, 6.28); c.Ro[n] = w == 0 ? sg * s : w == 1 ? 0 : w == 2 ? s * 0.6 : s * std::cos(th); c.Ro[n + c.No] = w == 0 ? 0 : w == 1 ? sg * s : w == 2 ? sg * s * 0.8 : s * std::sin(th); }
        else { if (w != 1) c.Ro[n] = sg * s / 2; if (w == 1 || w == 2) c.Ro[n + c.No] = (r.p(0.5) ? 1 : -1) * c.geom[1] / 2; }
      }
      double z = c.Ro[n + 2 * c.No], f = std::hypot(c.Ro[n], c.Ro[n + c.No]) + 1.5 * std::max(s, c.geom.back());
      if (n && (p.get("sty") & 1) && r.p(0.4)) for (long j = 0; j < 3; j++) c.Ro[n + j * c.No] = ((p.get("sty") & 2) && j < 2 && r.p(0.5) ? -1 : 1) * c.Ro[n - 1 + j * c.No];
      z = c.Ro[n + 2 * c.No]; f = std::hypot(c.Ro[n], c.Ro[n + c.No]) + 1.5 * std::max(s, c.geom.back());
      t0[n] = z / c.cp * 1e3; tmin = std::min(tmin, t0[n]); tmax = std::max(tmax, std::sqrt(z * z + f * f) / c.cp * 1e3);
    }
    c.dt = std::max(0.01, (tmax - tmin)) / (c.nt * r.uni(0.4, 1.2));
    if (p.get("dl")) { c.delay.resize(c.No); for (long n = 0; n < c.No; n++) c.delay[n] = t0[n] - c.dt * r.uni(-2, c.nt * 0.3); }
    else c.delay = {tmin - c.dt * r.uni(-1, c.nt * 0.2)};
    bool eda = p.get("eda");
    if (eda) for (size_t n = 0; n < c.delay.size(); n++) { // a sample at exactly the arrival of an edge, a corner or of the plane wave
      double x = std::fabs(c.Ro[n]) / 1e3, y = std::fabs(c.Ro[n + c.No]) / 1e3, z = c.Ro[n + 2 * c.No] / 1e3, u = 0, w = 0;
      if (c.geom.size() == 2) {
        long e = r.below(9); double a = c.geom[0] / 2e3, b = c.geom[1] / 2e3;
        u = e % 3 == 0 ? 0 : e % 3 == 1 ? a - x : a + x; w = e / 3 == 0 ? 0 : e / 3 == 1 ? b - y : b + y;
      } else { long e = r.below(3); double rc = std::sqrt(x * x + y * y), q = c.geom[0] / 1e3; u = e == 0 ? 0 : e == 1 ? q - rc : q + rc; }
      long k = r.below(c.nt);
      if (r.p(0.5)) c.dt = std::ldexp(std::max(1.0, std::rint(std::ldexp(c.dt, 20))), -20);
      c.delay[n] = std::sqrt(z * z + u * u + w * w) / c.cp * 1e6 - k * c.dt;
    }
    if (bump > 60) return c;
    auto good = [eda, quad](const AnaCase &c) { AnaOut o; ana_model(c, o); return o.margin >= 0 && (eda || quad == 4 || o.margin >= 1e-6); };
    if (!good(c)) continue;
    return varied(p, c, [](Rng &q, AnaCase &c, long f) {
      switch (f % 8) {
        case 0: vary_points(q, c.Ro, c.No); break;
        case 1: vary_v(q, c.geom, c.geom[0] * 0.2); break;
        case 2: c.dt *= q.uni(0.9, 1.1); break;
        case 3: c.cp *= q.uni(0.95, 1.05); break;
        case 4: c.v *= q.uni(1.1, 2); break;
        case 5: vary_v(q, c.delay, c.dt * 2); break;
        case 6: c.int_len += c.fn == "scirc_sir"; break;
        case 7: c.nt += q.range(1, 4); break;
      }
    }, good);
  }
}
