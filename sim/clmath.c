// OpenCL C built-in functions that have a C library counterpart, under their OpenCL names
#include <math.h>
#include <stdlib.h>
#define D(n, m1, m2) \
  __attribute__((visibility("default"))) double m1(double x) { return n(x); } \
  __attribute__((visibility("default"))) float m2(float x) __asm__(#m2); float m2(float x) { return n##f(x); }
#define D2(n, m1, m2) \
  __attribute__((visibility("default"))) double m1(double x, double y) { return n(x, y); } \
  __attribute__((visibility("default"))) float m2(float x, float y) { return n##f(x, y); }
D(sqrt, _Z4sqrtd, _Z4sqrtf) D(cbrt, _Z4cbrtd, _Z4cbrtf) D(fabs, _Z4fabsd, _Z4fabsf) D(rint, _Z4rintd, _Z4rintf) D(round, _Z5roundd, _Z5roundf) D(floor, _Z5floord, _Z5floorf) D(ceil, _Z4ceild, _Z4ceilf) D(trunc, _Z5truncd, _Z5truncf)
D(sin, _Z3sind, _Z3sinf) D(cos, _Z3cosd, _Z3cosf) D(tan, _Z3tand, _Z3tanf) D(asin, _Z4asind, _Z4asinf) D(acos, _Z4acosd, _Z4acosf) D(atan, _Z4atand, _Z4atanf) D(sinh, _Z4sinhd, _Z4sinhf) D(cosh, _Z4coshd, _Z4coshf) D(tanh, _Z4tanhd, _Z4tanhf)
D(exp, _Z3expd, _Z3expf) D(exp2, _Z4exp2d, _Z4exp2f) D(expm1, _Z5expm1d, _Z5expm1f) D(log, _Z3logd, _Z3logf) D(log2, _Z4log2d, _Z4log2f) D(log10, _Z5log10d, _Z5log10f) D(log1p, _Z5log1pd, _Z5log1pf)
D2(pow, _Z3powdd, _Z3powff) D2(fmin, _Z4fmindd, _Z4fminff) D2(fmax, _Z4fmaxdd, _Z4fmaxff) D2(fmod, _Z4fmoddd, _Z4fmodff) D2(hypot, _Z5hypotdd, _Z5hypotff) D2(atan2, _Z5atan2dd, _Z5atan2ff) D2(fdim, _Z4fdimdd, _Z4fdimff) D2(copysign, _Z8copysigndd, _Z8copysignff) D2(remainder, _Z9remainderdd, _Z9remainderff)
__attribute__((visibility("default"))) double _Z3fmaddd(double x, double y, double z) { return fma(x, y, z); }
__attribute__((visibility("default"))) float _Z3fmafff(float x, float y, float z) { return fmaf(x, y, z); }
__attribute__((visibility("default"))) unsigned _Z3absi(int x) { return (unsigned)abs(x); }
__attribute__((visibility("default"))) int _Z5isnand(double x) { return isnan(x); }
__attribute__((visibility("default"))) int _Z5isnanf(float x) { return isnan(x); }
