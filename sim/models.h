// Small executable reference models (sequential, single pass, no sharing).
#pragma once
#include <string>
#include <vector>
#include <functional>
#include "host.h"
typedef std::vector<double> V;
struct SirCase {
  std::string fn;
  V geom;                       // as passed
  V G;                          // ne x 3 column major (arrays) or ring radii (annular)
  long ne = 0;
  V Ro; long No = 0;            // No x 3 column major
  double dx = 1, dy = 1, dt = 1; long nt = 0;
  V delay;                      // 1 or No
  double v = 1, cp = 1500, alpha = 0;
  std::string foc = "off", steer = "off", apod = "off";
  V focal{1e3}; double theta = 0, phi = 0; V apodv{1}; double wpar = 1;
  std::string err;              // "" = argument not given
  bool is_array() const { return fn.compare(0, 9, "dream_arr") == 0; }
  Call call(int nout = 2) const;
};
struct SirOut {
  V H;                          // nt x No, every contribution outside the window skipped
  std::vector<char> oob;        // per observation point
  double margin = 1;            // distance of any index decision from its rounding boundary
  double scale = 0;
};
// params: ds nt No ne dl foc steer apod er att oob
struct Params { std::vector<std::pair<std::string, long>> v;
  long get(const char *k, long def = 0) const { for (auto &x : v) if (x.first == k) return x.second; return def; }
  void set(const char *k, long x) { for (auto &y : v) if (y.first == k) { y.second = x; return; } v.push_back({k, x}); }
  bool has(const char *k) const { for (auto &x : v) if (x.first == k) return true; return false; }
  void drop(const char *k) { for (size_t i = v.size(); i--;) if (v[i].first == k) v.erase(v.begin() + (long)i); }
};
SirCase sir_case(const std::string &fn, const Params &p);
void sir_model(const SirCase &c, SirOut &o);

struct DasCase { V Y; long len = 0, nA = 0; V Gt, Gr, Ro; long Nt = 0, Nr = 0, No = 0; double dt = 0; V delay; double cp = 0; std::string method, err; bool single = false;
  Call call(const char *fn = "das") const; };
struct DasOut { V Im; std::vector<char> oob; double margin = 1, scale = 0; };
DasCase das_case(const Params &p);
DasCase das_uni_case(const Params &p, Call &call);   // uniform grids
void das_model(const DasCase &c, DasOut &o);

V conv_model(const V &a, const V &b);
V rnd(sim::Rng &r, long n, double lo = -1, double hi = 1);

// analytic responses
struct AnaCase { std::string fn; V geom; V Ro; long No = 0; double dt = 0; long nt = 0; V delay; double v = 1, cp = 1500; long int_len = 0; Call call() const; };
AnaCase ana_case(const std::string &fn, const Params &p);
struct AnaOut { V H, lo, hi; double margin = 1, scale = 0; }; // lo, hi: bounds of the response within rounding of the sample time
void ana_model(const AnaCase &c, AnaOut &o);
// attenuation impulse responses and apodization windows
struct AttCase { V Ro; long No = 0; double dt = 0; long nt = 0; V delay; double cp = 1500, alpha = 0; Call call() const; };
AttCase att_case(const Params &p);
V att_model(const AttCase &c, double *margin);
struct WinCase { std::string met; V apod; long n = 0; double par = 1; Call call() const; };
WinCase win_case(const Params &p);
V win_model(const WinCase &c);
double maxabs(const V &a);
double maxdiff(const V &a, const V &b);
