From 8833c8b2b594da99cf10b623a2c5b04df377492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 01/59] fix: keep converted argument data alive while the
 argument parser hands out pointers to it

---
 include/arg_parser.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..7455fec 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -28,6 +28,7 @@
 #include <cstring>
 #include <cstdarg>
 #include <memory>
+#include <vector>
 
 #include "dream.h"
 #include "dream_error.h"
@@ -603,8 +604,11 @@ public:
     return args(arg_num).matrix_value().cols();
   };
 
+  // The matrix must outlive the returned pointer: matrix_value() is a temporary copy
+  // for scalars, ranges, and single precision/integer/bool arguments.
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
+    m_arg_data.push_back(args(arg_num).matrix_value());
+    const Matrix &tmp_mat = m_arg_data.back();
     return (double*) tmp_mat.data();
   };
 
@@ -620,6 +624,10 @@ public:
     return args(arg_num).string_value();
   };
 
+private:
+
+  std::vector<Matrix> m_arg_data;
+
 #endif
 
 #ifdef DREAM_MATLAB
-- 
2.43.0


From 8ab3dd732aa3a5784110eac327170d18a7384da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 02/59] fix: keep the out-of-bounds status of every array
 element

---
 src/dream_arr_annu.cc   | 16 ++++++++++++++--
 src/dream_arr_circ.cc   | 16 ++++++++++++++--
 src/dream_arr_cylind.cc | 16 ++++++++++++++--
 src/dream_arr_rect.cc   | 16 ++++++++++++++--
 4 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..862dad1 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -194,6 +194,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
   verbose_err_messages = false;
 
   // NB. The first ring have no inner radius (it is a normal
@@ -234,6 +235,11 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                              delay,
                              v, cp, &h_disc[n*nt], err_level);
 
+      // An in-range element must not hide an out-of-bounds one.
+      if (err != SIRError::none) {
+        arr_err = err;
+      }
+
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
       }
@@ -265,7 +271,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -280,6 +286,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
 
   // NB. The first ring have no inner radius (it is a normal
   // circular disc).
@@ -318,6 +325,11 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                              delay,
                              v, cp, &h_disc[n*nt], err_level);
 
+      // An in-range element must not hide an out-of-bounds one.
+      if (err != SIRError::none) {
+        arr_err = err;
+      }
+
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
       }
@@ -349,7 +361,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..0d71c19 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -200,6 +200,7 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -232,13 +233,18 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                            err_level,
                            weight);
 
+    // An in-range element must not hide an out-of-bounds one.
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -253,6 +259,7 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -289,13 +296,18 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                            h,
                            err_level,
                            weight);
+    // An in-range element must not hide an out-of-bounds one.
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..cbce3c1 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -209,6 +209,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -240,13 +241,18 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                              h,
                              err_level,
                              weight);
+    // An in-range element must not hide an out-of-bounds one.
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
@@ -263,6 +269,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
 
   double r_max, x_max, y_max;
   max_dim_arr(&x_max, &y_max, &r_max, gx, gy, gz, num_elements);
@@ -295,13 +302,18 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                              err_level,
                              weight);
 
+    // An in-range element must not hide an out-of-bounds one.
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..2f45665 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -201,6 +201,7 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -234,13 +235,18 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                            weight);
 
 
+    // An in-range element must not hide an out-of-bounds one.
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -255,6 +261,7 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Status of the whole array.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -292,13 +299,18 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                            err_level,
                            weight);
 
+    // An in-range element must not hide an out-of-bounds one.
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
-- 
2.43.0


From 990d77d18408b1b8ddcececb5dc5960d918aeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 03/59] fix: report the computation status when a single thread
 is used

---
 extra_src/das.cc        | 1 +
 src/dream_arr_annu.cc   | 1 +
 src/dream_arr_circ.cc   | 1 +
 src/dream_arr_cylind.cc | 1 +
 src/dream_arr_rect.cc   | 1 +
 src/dreamcirc.cc        | 1 +
 src/dreamcirc_f.cc      | 1 +
 src/dreamcylind.cc      | 1 +
 src/dreamline.cc        | 1 +
 src/dreamrect.cc        | 1 +
 src/dreamrect_f.cc      | 1 +
 src/dreamsphere.cc      | 1 +
 12 files changed, 12 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..ad0cc05 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -273,6 +273,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_das(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 862dad1..78a9928 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -616,6 +616,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_annu(&D[0]);
+      err = D[0].err;
     }
 
   }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 0d71c19..da5d17d 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -416,6 +416,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_circ(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index cbce3c1..0e701cd 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -424,6 +424,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_cylind(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 2f45665..7e2be50 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -420,6 +420,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_rect(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..35609a0 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -250,6 +250,7 @@ SIRError Circ::dreamcirc(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_circ(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..82d1130 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -251,6 +251,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_circ_f(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..949fbec 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -248,6 +248,7 @@ SIRError Cylind::dreamcylind(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_cylind(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..b718316 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -235,6 +235,7 @@ SIRError Line::dreamline(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_line(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..e292ed3 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -247,6 +247,7 @@ SIRError Rect::dreamrect(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_rect(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..23bcd48 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -251,6 +251,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_rect_f(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..bbb9d00 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -246,6 +246,7 @@ SIRError Sphere::dreamsphere(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_sphere(&D[0]);
+      err = D[0].err;
     }
   }
 
-- 
2.43.0


From f5b1f31caf633796a81711f536f25aa9a4b92341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/59] fix: release the worker threads and their data when a
 call ends

---
 extra_src/das.cc             | 12 +++++-------
 extra_src/fftconv_p.cc       | 12 +++++-------
 extra_src/oct_add_p.cc       | 10 +++++-----
 extra_src/oct_circ_sir.cc    | 10 +++++-----
 extra_src/oct_conv_p.cc      | 12 +++++-------
 extra_src/oct_copy_p.cc      | 10 +++++-----
 extra_src/oct_fftconv_ola.cc | 11 +++++------
 extra_src/oct_fftconv_p.cc   | 12 +++++-------
 extra_src/oct_scirc_sir.cc   | 10 +++++-----
 extra_src/oct_sum_fftconv.cc | 12 +++++-------
 extra_src/rect_sir.cc        | 12 +++++-------
 src/dream_arr_annu.cc        | 12 +++++-------
 src/dream_arr_circ.cc        | 10 +++++-----
 src/dream_arr_cylind.cc      | 12 +++++-------
 src/dream_arr_rect.cc        | 12 +++++-------
 src/dreamcirc.cc             | 12 +++++-------
 src/dreamcirc_f.cc           | 12 +++++-------
 src/dreamcylind.cc           | 12 +++++-------
 src/dreamline.cc             | 12 +++++-------
 src/dreamrect.cc             | 12 +++++-------
 src/dreamrect_f.cc           | 12 +++++-------
 src/dreamsphere.cc           | 12 +++++-------
 22 files changed, 110 insertions(+), 143 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index ad0cc05..de2a1f9 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -21,6 +21,7 @@
  *
  ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 #include <mutex>
@@ -237,10 +238,12 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
   }
 
   // Allocate local data.
-  DATA<T> *D = (DATA<T>*) malloc(nthreads*sizeof(DATA<T>));
+  std::unique_ptr<DATA<T>[]> D_buf(new DATA<T>[nthreads]);
+  DATA<T> *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -290,11 +293,6 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 63603d8..fc87094 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -341,13 +342,15 @@ ErrorLevel FFTConvP::run(double *Y,
   running_conv = true;
 
   // Allocate local data.
-  DATA *D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  DATA *D = D_buf.get();
   if (!D) {
     throw std::runtime_error("Failed to allocate memory for thread data!");
   }
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
   if (!threads) {
     throw std::runtime_error("Failed to allocate memory for threads!");
   }
@@ -386,11 +389,6 @@ ErrorLevel FFTConvP::run(double *Y,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   // FIXME: Return the FFTW Wisdom so that the plans can be re-used.
   /*
   if (return_wisdom) {
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..870db0d 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <iostream>
 #include <csignal>
 #include <thread>
@@ -296,14 +297,16 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
   if (!D) {
     error("Failed to allocate memory for thread data!");
     return oct_retval;
   }
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
     return oct_retval;
@@ -336,9 +339,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   for (thread_n = 0; thread_n < nthreads; thread_n++)
     threads[thread_n].join();
 
-  // Free memory.
-  free((void*) D);
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d39561..3a9a737 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <iostream>
 #include <csignal>
 #include <thread>
@@ -361,10 +362,12 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -401,9 +404,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   for (thread_n = 0; thread_n < nthreads; thread_n++)
     threads[thread_n].join();
 
-  // Free memory.
-  free((void*) D);
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..8412b2f 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <csignal>
 #include <thread>
 
@@ -332,14 +333,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
   if (!D) {
     dream_err_msg("Failed to allocate memory for thread data!");
     return oct_retval;
   }
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
   if (!threads) {
     dream_err_msg("Failed to allocate memory for threads!");
     return oct_retval;
@@ -378,11 +381,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..a647f36 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <iostream>
 #include <csignal>
 #include <thread>
@@ -294,14 +295,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
   if (!D) {
     error("Failed to allocate memory for thread data!");
     return oct_retval;
   }
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
     return oct_retval;
@@ -334,9 +337,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   for (thread_n = 0; thread_n < nthreads; thread_n++)
     threads[thread_n].join();
 
-  // Free memory.
-  free((void*) D);
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..2ee2cee 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -624,14 +625,16 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   }
 
   // Init thread data.
-  threads = new std::thread[nthreads];
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]);
+  threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
     return oct_retval;
   }
 
   // Allocate thread data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
   if (!D) {
     error("Failed to allocate memory for thread data!");
     return oct_retval;
@@ -677,10 +680,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     }
   }
 
-  if (D) {
-    free((void*) D);
-  }
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..51d8faf 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -508,14 +509,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
   if (!D) {
     error("Failed to allocate memory for thread data!");
     return oct_retval;
   }
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
     return oct_retval;
@@ -564,11 +567,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 82a6aaf..9496e07 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <thread>
 #include <mutex>
 
@@ -376,10 +377,12 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -418,9 +421,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   for (thread_n = 0; thread_n < nthreads; thread_n++)
     threads[thread_n].join();
 
-  // Free memory.
-  free((void*) D);
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..664aae9 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -496,14 +497,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   running = true;
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
   if (!D) {
     dream_err_msg("Failed to allocate memory for thread data!");
     return oct_retval;
   }
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
   if (!threads) {
     dream_err_msg("Failed to allocate memory for threads!");
     return oct_retval;
@@ -543,11 +546,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..1de2303 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 #include <iostream>
@@ -175,10 +176,12 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   }
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -218,11 +221,6 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return m_out_err;
 }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 78a9928..9d9cfc3 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -574,10 +575,12 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
   }
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -634,10 +637,5 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index da5d17d..6dbe54a 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -370,10 +371,12 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   }
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -433,8 +436,5 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
     }
   }
 
-  // Free memory.
-  free((void*) D);
-
   return err;
 }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 0e701cd..f00b9e7 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -376,10 +377,12 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
   }
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -441,10 +444,5 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return  err;
 }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 7e2be50..903cb23 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -373,10 +374,12 @@ SIRError ArrRect::dream_arr_rect(double alpha,
   }
 
   // Allocate local data.
-  D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -437,10 +440,5 @@ SIRError ArrRect::dream_arr_rect(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 35609a0..579c978 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -21,6 +21,7 @@
  *
  ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -215,10 +216,12 @@ SIRError Circ::dreamcirc(double alpha,
   }
 
   // Allocate local data.
-  D = (DATA_CIRC*) malloc(nthreads*sizeof(DATA_CIRC));
+  std::unique_ptr<DATA_CIRC[]> D_buf(new DATA_CIRC[nthreads]);
+  D = D_buf.get();
 
   // Allocate mem for the threads.
-  threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -267,11 +270,6 @@ SIRError Circ::dreamcirc(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index 82d1130..807025b 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -21,6 +21,7 @@
  *
  ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -214,10 +215,12 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   }
 
   // Allocate local data.
-  DATA *D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -268,11 +271,6 @@ SIRError Circ_f::dreamcirc_f(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 949fbec..c9f8009 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -211,10 +212,12 @@ SIRError Cylind::dreamcylind(double alpha,
     att_ptr = &att;
   }
   // Allocate local data.
-  DATA_CYLIND *D = (DATA_CYLIND*) malloc(nthreads*sizeof(DATA_CYLIND));
+  std::unique_ptr<DATA_CYLIND[]> D_buf(new DATA_CYLIND[nthreads]);
+  DATA_CYLIND *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -265,11 +268,6 @@ SIRError Cylind::dreamcylind(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index b718316..8b9fbda 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -200,10 +201,12 @@ SIRError Line::dreamline(double alpha,
   }
 
   // Allocate local data.
-  DATA *D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -252,11 +255,6 @@ SIRError Line::dreamline(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index e292ed3..48dcba9 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -21,6 +21,7 @@
  *
  ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -211,10 +212,12 @@ SIRError Rect::dreamrect(double alpha,
   }
 
   // Allocate local data.
-  DATA_RECT *D = (DATA_RECT*) malloc(nthreads*sizeof(DATA_RECT));
+  std::unique_ptr<DATA_RECT[]> D_buf(new DATA_RECT[nthreads]);
+  DATA_RECT *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -264,11 +267,6 @@ SIRError Rect::dreamrect(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 23bcd48..77c51f0 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -213,10 +214,12 @@ SIRError Rect_f::dreamrect_f(double alpha,
   }
 
   // Allocate local data.
-  DATA *D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -268,11 +271,6 @@ SIRError Rect_f::dreamrect_f(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index bbb9d00..6e38d54 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <memory>
 #include <cmath>
 #include <atomic>
 
@@ -210,10 +211,12 @@ SIRError Sphere::dreamsphere(double alpha,
   }
 
   // Allocate local data.
-  DATA *D = (DATA*) malloc(nthreads*sizeof(DATA));
+  std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
+  DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::thread *threads = new std::thread[nthreads]; // Init thread data.
+  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
@@ -263,11 +266,6 @@ SIRError Sphere::dreamsphere(double alpha,
     }
   }
 
-  // Free memory.
-  if (D) {
-    free((void*) D);
-  }
-
   return err;
 }
 
-- 
2.43.0


From 5adf37812b7b407acf80bc0c7568fec3bf11882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 05/59] fix: compute on the calling thread when a worker thread
 cannot be started

---
 extra_src/das.cc             | 13 ++++++++++---
 extra_src/fftconv_p.cc       | 13 ++++++++++---
 extra_src/oct_add_p.cc       | 13 ++++++++++---
 extra_src/oct_circ_sir.cc    | 13 ++++++++++---
 extra_src/oct_conv_p.cc      | 13 ++++++++++---
 extra_src/oct_copy_p.cc      | 13 ++++++++++---
 extra_src/oct_fftconv_ola.cc | 11 +++++++++--
 extra_src/oct_fftconv_p.cc   | 13 ++++++++++---
 extra_src/oct_scirc_sir.cc   | 11 +++++++++--
 extra_src/oct_sum_fftconv.cc | 11 +++++++++--
 extra_src/rect_sir.cc        | 13 ++++++++++---
 src/dream_arr_annu.cc        | 13 ++++++++++---
 src/dream_arr_circ.cc        | 13 ++++++++++---
 src/dream_arr_cylind.cc      | 13 ++++++++++---
 src/dream_arr_rect.cc        | 13 ++++++++++---
 src/dreamcirc.cc             | 13 ++++++++++---
 src/dreamcirc_f.cc           | 13 ++++++++++---
 src/dreamcylind.cc           | 13 ++++++++++---
 src/dreamline.cc             | 13 ++++++++++---
 src/dreamrect.cc             | 13 ++++++++++---
 src/dreamrect_f.cc           | 13 ++++++++++---
 src/dreamsphere.cc           | 13 ++++++++++---
 22 files changed, 217 insertions(+), 63 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index de2a1f9..86b1f76 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -22,6 +22,7 @@
  ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 #include <mutex>
@@ -272,8 +273,12 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = das_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = das_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_das(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_das(&D[0]);
       err = D[0].err;
@@ -283,7 +288,9 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index fc87094..a80ecf7 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -375,8 +376,12 @@ ErrorLevel FFTConvP::run(double *Y,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] =  conv_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = conv_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_fftconv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_fftconv(&D[0]);
     }
@@ -385,7 +390,9 @@ ErrorLevel FFTConvP::run(double *Y,
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 870db0d..37d237d 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <iostream>
 #include <csignal>
 #include <thread>
@@ -331,13 +332,19 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     D[thread_n].len = (octave_idx_type) (r[1]-r[0]+1);
 
     // Start the threads.
-    threads[thread_n] = std::thread(smp_dream_add_p, &D[thread_n]);
-    set_dream_thread_affinity(thread_n, nthreads, threads);
+    try {
+      threads[thread_n] = std::thread(smp_dream_add_p, &D[thread_n]);
+      set_dream_thread_affinity(thread_n, nthreads, threads);
+    } catch (const std::exception&) {
+      smp_dream_add_p(&D[thread_n]); // Could not start a thread so do the work here.
+    }
   }
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   //
   // Restore old signal handlers.
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 3a9a737..2910ea7 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <iostream>
 #include <csignal>
 #include <thread>
@@ -396,13 +397,19 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     //D[thread_n].err_level = err_level;
 
     // Start the threads.
-    threads[thread_n] = std::thread(smp_dream_circ_sir, &D[thread_n]);
-    set_dream_thread_affinity(thread_n, nthreads, threads);
+    try {
+      threads[thread_n] = std::thread(smp_dream_circ_sir, &D[thread_n]);
+      set_dream_thread_affinity(thread_n, nthreads, threads);
+    } catch (const std::exception&) {
+      smp_dream_circ_sir(&D[thread_n]); // Could not start a thread so do the work here.
+    }
   }
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   //
   // Restore old signal handlers.
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 8412b2f..72cf1d0 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <csignal>
 #include <thread>
 
@@ -367,8 +368,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_conv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_conv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_conv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_conv(&D[0]);
     }
@@ -377,7 +382,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (octave_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index a647f36..bf6830c 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <iostream>
 #include <csignal>
 #include <thread>
@@ -329,13 +330,19 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     D[thread_n].len = (octave_idx_type) (r[1]-r[0]+1);
 
     // Start the threads.
-    threads[thread_n] = std::thread(smp_dream_copy_p, &D[thread_n]);
-    set_dream_thread_affinity(thread_n, nthreads, threads);
+    try {
+      threads[thread_n] = std::thread(smp_dream_copy_p, &D[thread_n]);
+      set_dream_thread_affinity(thread_n, nthreads, threads);
+    } catch (const std::exception&) {
+      smp_dream_copy_p(&D[thread_n]); // Could not start a thread so do the work here.
+    }
   }
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   //
   // Restore old signal handlers.
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 2ee2cee..bcd559f 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -663,7 +664,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_fftconv_ola, &D[thread_n]);
+      try {
+        threads[thread_n] = std::thread(smp_dream_fftconv_ola, &D[thread_n]);
+      } catch (const std::exception&) {
+        smp_dream_fftconv_ola(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_fftconv_ola(&D[0]);
     }
@@ -676,7 +681,9 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   if (nthreads > 1) {
     for (dream_idx_type thread_n=0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 51d8faf..bb5b75f 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -553,8 +554,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 #endif
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_fftconv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_fftconv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_fftconv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_fftconv(&D[0]);
     }
@@ -563,7 +568,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 9496e07..06d875c 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <thread>
 #include <mutex>
 
@@ -413,13 +414,19 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     //D[thread_n].err_level = err_level;
 
     // Starts the threads.
-    threads[thread_n] = std::thread(smp_dream_scirc_sir, &D[thread_n]); // Start the threads.
+    try {
+      threads[thread_n] = std::thread(smp_dream_scirc_sir, &D[thread_n]); // Start the threads.
+    } catch (const std::exception&) {
+      smp_dream_scirc_sir(&D[thread_n]); // Could not start a thread so do the work here.
+    }
 
   } // for (thread_n = 0; thread_n < nthreads; thread_n++)
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   //
   // Restore old signal handlers.
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 664aae9..0598734 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -533,7 +534,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_sum_fftconv, &D[thread_n]);
+      try {
+        threads[thread_n] = std::thread(smp_dream_sum_fftconv, &D[thread_n]);
+      } catch (const std::exception&) {
+        smp_dream_sum_fftconv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_sum_fftconv(&D[0]);
     }
@@ -542,7 +547,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 1de2303..65cbdaf 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 #include <iostream>
@@ -207,8 +208,12 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = rect_sir_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = rect_sir_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_rect_sir(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_rect_sir(&D[0]);
     }
@@ -217,7 +222,9 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 9d9cfc3..529bc49 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -615,8 +616,12 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = arr_annu_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = arr_annu_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_arr_annu(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_arr_annu(&D[0]);
       err = D[0].err;
@@ -627,7 +632,9 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
   // Wait for all threads to finish.
   if (nthreads > 1) {
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 6dbe54a..0cc0087 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -415,8 +416,12 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = arr_circ_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = arr_circ_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_arr_circ(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_arr_circ(&D[0]);
       err = D[0].err;
@@ -426,7 +431,9 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   // Wait for all threads to finish.
   if (nthreads > 1) {
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index f00b9e7..c524e00 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -423,8 +424,12 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = arr_cylind_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = arr_cylind_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_arr_cylind(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_arr_cylind(&D[0]);
       err = D[0].err;
@@ -434,7 +439,9 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
   // Wait for all threads to finish.
   if (nthreads > 1) {
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 903cb23..084e2d8 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -419,8 +420,12 @@ SIRError ArrRect::dream_arr_rect(double alpha,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = arr_rect_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = arr_rect_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_arr_rect(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_arr_rect(&D[0]);
       err = D[0].err;
@@ -430,7 +435,9 @@ SIRError ArrRect::dream_arr_rect(double alpha,
   // Wait for all threads to finish.
   if (nthreads > 1) {
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 579c978..e236c37 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -22,6 +22,7 @@
  ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -249,8 +250,12 @@ SIRError Circ::dreamcirc(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = circ_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = circ_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_circ(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_circ(&D[0]);
       err = D[0].err;
@@ -260,7 +265,9 @@ SIRError Circ::dreamcirc(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
      // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index 807025b..b0abf46 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -22,6 +22,7 @@
  ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -250,8 +251,12 @@ SIRError Circ_f::dreamcirc_f(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = circ_f_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = circ_f_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_circ_f(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_circ_f(&D[0]);
       err = D[0].err;
@@ -261,7 +266,9 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index c9f8009..29af867 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -247,8 +248,12 @@ SIRError Cylind::dreamcylind(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = cylind_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = cylind_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_cylind(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_cylind(&D[0]);
       err = D[0].err;
@@ -258,7 +263,9 @@ SIRError Cylind::dreamcylind(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 8b9fbda..11ecce6 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -234,8 +235,12 @@ SIRError Line::dreamline(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = line_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = line_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_line(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_line(&D[0]);
       err = D[0].err;
@@ -245,7 +250,9 @@ SIRError Line::dreamline(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 48dcba9..f244dc8 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -22,6 +22,7 @@
  ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -246,8 +247,12 @@ SIRError Rect::dreamrect(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = rect_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = rect_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_rect(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_rect(&D[0]);
       err = D[0].err;
@@ -257,7 +262,9 @@ SIRError Rect::dreamrect(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 77c51f0..58879b1 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -250,8 +251,12 @@ SIRError Rect_f::dreamrect_f(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = rect_f_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = rect_f_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_rect_f(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_rect_f(&D[0]);
       err = D[0].err;
@@ -261,7 +266,9 @@ SIRError Rect_f::dreamrect_f(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if one of the threads had an out-of-bounds event.
       if (D[thread_n].err != SIRError::none) {
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 6e38d54..34d6656 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <memory>
+#include <exception>
 #include <cmath>
 #include <atomic>
 
@@ -245,8 +246,12 @@ SIRError Sphere::dreamsphere(double alpha,
 
     if (nthreads>1) {
       // Start the threads.
-      threads[thread_n] = sphere_thread(&D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = sphere_thread(&D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_sphere(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_sphere(&D[0]);
       err = D[0].err;
@@ -256,7 +261,9 @@ SIRError Sphere::dreamsphere(double alpha,
   // Wait for all threads to finish.
   if (nthreads>1) {
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
 
       // Check if the current thread or a previous had an out-of-bounds error.
       if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-- 
2.43.0


From 0760756d8cb930c2e03ae07b75fbe6710c61a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 06/59] fix: restore the signal handlers on every exit and let
 CTRL-C reach das and rect_sir

---
 extra_src/oct_add_p.cc            | 30 ++-------------
 extra_src/oct_circ_sir.cc         | 30 ++-------------
 extra_src/oct_conv_p.cc           | 30 ++-------------
 extra_src/oct_copy_p.cc           | 30 ++-------------
 extra_src/oct_das.cc              | 10 ++---
 extra_src/oct_fftconv_ola.cc      | 30 ++-------------
 extra_src/oct_fftconv_p.cc        | 30 ++-------------
 extra_src/oct_rect_sir.cc         |  3 +-
 extra_src/oct_scirc_sir.cc        | 30 ++-------------
 extra_src/oct_sum_fftconv.cc      | 30 ++-------------
 include/signal_guard.h            | 62 +++++++++++++++++++++++++++++++
 oct/oct_dream_arr_circ.cc         |  3 +-
 oct/oct_dream_arr_cylind.cc       |  3 +-
 oct/oct_dream_arr_rect.cc         |  3 +-
 oct/oct_dreamcirc.cc              |  3 +-
 oct/oct_dreamcirc_f.cc            |  3 +-
 oct/oct_dreamcylind.cc            |  3 +-
 oct/oct_dreamline.cc              |  3 +-
 oct/oct_dreamrect.cc              |  3 +-
 oct/oct_dreamrect_f.cc            |  3 +-
 oct/oct_dreamsphere.cc            |  3 +-
 python/include/py_das.hpp         |  3 +-
 python/src/py_dream_arr_annu.cc   |  3 +-
 python/src/py_dream_arr_circ.cc   |  3 +-
 python/src/py_dream_arr_cylind.cc |  3 +-
 python/src/py_dream_arr_rect.cc   |  3 +-
 python/src/py_dreamcirc.cc        |  3 +-
 python/src/py_dreamcirc_f.cc      |  3 +-
 python/src/py_dreamcylind.cc      |  3 +-
 python/src/py_dreamline.cc        |  3 +-
 python/src/py_dreamrect.cc        |  3 +-
 python/src/py_dreamrect_f.cc      |  3 +-
 python/src/py_dreamsphere.cc      |  3 +-
 33 files changed, 144 insertions(+), 237 deletions(-)
 create mode 100644 include/signal_guard.h

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 37d237d..7cb97d4 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -34,6 +34,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "affinity.h"
 
 /***
@@ -164,7 +165,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
   octave_idx_type r_M, r_N, k_M, k_N;
   double         *r, *k;
@@ -279,17 +279,11 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   //
   // Call the add subroutine.
@@ -346,22 +340,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
       threads[thread_n].join();
     }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 2910ea7..0b34466 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -29,6 +29,7 @@
 #include <mutex>
 
 #include "affinity.h"
+#include "signal_guard.h"
 #include "circ_sir.h"
 #include "arg_parser.h"
 
@@ -227,7 +228,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   octave_idx_type start, stop;
   std::thread *threads;
   unsigned int thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -343,17 +343,11 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   //
   // Call the analytic SIR subroutine.
@@ -411,22 +405,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
       threads[thread_n].join();
     }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 72cf1d0..fa1159d 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -29,6 +29,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "affinity.h"
 #include "conv.h"
 
@@ -160,7 +161,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double *A = nullptr, *B = nullptr, *Y = nullptr;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
   bool is_set = false;
   DATA *D = nullptr;
@@ -283,17 +283,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   if (nrhs == 2) { // Test for in-place/normal mode.
 
@@ -388,22 +382,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index bf6830c..a63b756 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -34,6 +34,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "affinity.h"
 
 /***
@@ -162,7 +163,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type line_start, line_stop, A_M, A_N, B_M, B_N;
   octave_idx_type r_M, r_N, k_M, k_N;
   double         *r=nullptr, *k=nullptr;
@@ -277,17 +277,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   //
   // Call the mem_copy subroutine.
@@ -344,22 +338,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       threads[thread_n].join();
     }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..02a237b 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -24,6 +24,7 @@
 #include<csignal>
 
 #include "das.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -466,9 +467,6 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
     das_d->set_running();
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -502,11 +500,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
 
     das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
   }
 
+  // Register signal handler.
+  SignalGuard sig_guard(SIGINT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index bcd559f..1fdbc4a 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -30,6 +30,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 //#include "affinity.h"
 #include "fftconv.h"
 
@@ -339,7 +340,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 @seealso {conv_p, fftconv_p, fftconv, conv, fftw_wisdom}\n\
 @end deftypefn")
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   std::thread *threads;
   double *Y = nullptr;
   DATA  *D = nullptr;
@@ -563,17 +563,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   // ********************************************
   //
@@ -687,22 +681,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     }
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index bb5b75f..4ee4bb7 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -30,6 +30,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "affinity.h"
 #include "fftconv.h"
 
@@ -243,7 +244,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double *A=nullptr,*B=nullptr, *Y=nullptr;
-  sighandler_t    old_handler, old_handler_abrt, old_handler_keyint;
   std::thread     *threads;
   dream_idx_type  thread_n, nthreads;
   dream_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
@@ -445,17 +445,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   //
   // Init the FFTW plans.
@@ -574,22 +568,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..f5d915b 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "rect_sir.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -224,7 +225,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   RectSir rect_sir;
 
   // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  SignalGuard sig_guard(SIGINT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 06d875c..df31d7e 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -27,6 +27,7 @@
 #include <mutex>
 
 #include "scirc_sir.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -232,7 +233,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   octave_idx_type start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -358,17 +358,11 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGTERM signal handler.\n");
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if (( old_handler_abrt=signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGABRT signal handler.\n");
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if (( old_handler_keyint=signal(SIGINT, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGINT signal handler.\n");
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   //
   // Call the sampled analytic SIR subroutine.
@@ -428,22 +422,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
       threads[thread_n].join();
     }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (signal(SIGTERM, old_handler) == SIG_ERR) {
-    printf("Couldn't register old SIGTERM signal handler.\n");
-  }
-
-  if (signal(SIGABRT,  old_handler_abrt) == SIG_ERR) {
-    printf("Couldn't register old SIGABRT signal handler.\n");
-  }
-
-  if (signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    printf("Couldn't register old SIGINT signal handler.\n");
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 0598734..2f25a48 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -30,6 +30,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "affinity.h"
 #include "fftconv.h"
 
@@ -261,7 +262,6 @@ sum_fftconv is a part of the DREAM Toolbox available at\n\
 Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @seealso {conv, conv_p, fftconv, fftconv_p, fftw_wisdom}")
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   dream_idx_type col_start, col_stop, H_M, H_N, H_L, U_M, U_N;
   double *Y = nullptr;
   std::thread *threads;
@@ -430,17 +430,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigterm(SIGTERM, &sighandler);
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigabrt(SIGABRT, &sighandler);
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sig_guard_sigint(SIGINT, &sighandler);
 
   //
   // Init the FFTW plans.
@@ -553,22 +547,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/include/signal_guard.h b/include/signal_guard.h
new file mode 100644
index 0000000..f7b72de
--- /dev/null
+++ b/include/signal_guard.h
@@ -0,0 +1,62 @@
+/***
+*
+* Copyright (C) 2026 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+
+#pragma once
+
+#include <csignal>
+#include <iostream>
+
+/***
+ *
+ * Registers a signal handler and puts the old one back when leaving the scope.
+ *
+ ***/
+
+class SignalGuard
+{
+ public:
+
+  SignalGuard(int signum, void (*handler)(int))
+    : m_signum(signum)
+    , m_old_handler(std::signal(signum, handler))
+  {
+    if (m_old_handler == SIG_ERR) {
+      std::cerr << "Couldn't register signal handler for signal " << signum << "!" << std::endl;
+    }
+  }
+
+  ~SignalGuard()
+  {
+    if (m_old_handler != SIG_ERR) {
+      std::signal(m_signum, m_old_handler);
+    }
+  }
+
+  SignalGuard(const SignalGuard&) = delete;
+  SignalGuard& operator=(const SignalGuard&) = delete;
+
+ private:
+
+  int m_signum;
+  void (*m_old_handler)(int);
+};
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index 453128e..a93b9cc 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_circ.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -334,7 +335,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  SignalGuard sig_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index dc47b8f..a7e5944 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_cylind.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -338,7 +339,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  SignalGuard sig_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 6df3e5f..350aa7c 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_rect.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -336,7 +337,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  SignalGuard sig_guard(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 4e5d165..df85c07 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamcirc.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -221,7 +222,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  SignalGuard sig_guard(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index 21774ac..d5ab980 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamcirc_f.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -227,7 +228,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  SignalGuard sig_guard(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 1bf8104..17e6f64 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamcylind.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -213,7 +214,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  SignalGuard sig_guard(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 1e46c26..54fbb87 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -25,6 +25,7 @@
 #include <atomic>
 
 #include "dreamline.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -192,7 +193,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  SignalGuard sig_guard(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5851f8..a5df641 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamrect.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -224,7 +225,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  SignalGuard sig_guard(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index 3161f94..a44425b 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamrect_f.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -230,7 +231,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  SignalGuard sig_guard(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index cf8d5fc..65145da 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamsphere.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -205,7 +206,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  SignalGuard sig_guard(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..81e0e91 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_python.h"
+#include "signal_guard.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -206,7 +207,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  SignalGuard sig_guard(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..1b104fd 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_annu.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -165,7 +166,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  SignalGuard sig_guard(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..346646a 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_circ.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -189,7 +190,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  SignalGuard sig_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..ba4ed45 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_cylind.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -189,7 +190,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  SignalGuard sig_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..14d6572 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_rect.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -189,7 +190,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  SignalGuard sig_guard(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 6cc4009..058dcee 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamcirc.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -127,7 +128,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  SignalGuard sig_guard(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index ac66b1f..69dfd35 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamcirc_f.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -142,7 +143,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  SignalGuard sig_guard(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 1e8b19f..c68367c 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamcylind.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -127,7 +128,7 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  SignalGuard sig_guard(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f0d8591..f3eb25f 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamline.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -129,7 +130,7 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  SignalGuard sig_guard(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index be1e020..c074d6e 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamrect.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -129,7 +130,7 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  SignalGuard sig_guard(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 5e4223e..3051e14 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamrect_f.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -142,7 +143,7 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  SignalGuard sig_guard(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index c3bee38..e74c80d 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamsphere.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -127,7 +128,7 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  SignalGuard sig_guard(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
-- 
2.43.0


From 710295ee1b3e2951d362d24de8a78fc50f410746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 07/59] fix: report an interrupted computation as an error
 instead of returning a partial result

---
 extra_src/oct_circ_sir.cc    | 2 +-
 extra_src/oct_conv_p.cc      | 2 +-
 extra_src/oct_rect_sir.cc    | 2 +-
 extra_src/oct_scirc_sir.cc   | 2 +-
 extra_src/oct_sum_fftconv.cc | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 0b34466..e3fa7c3 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -406,7 +406,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     }
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
   }
 
   oct_retval.append(h_mat);
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index fa1159d..f84b400 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -383,7 +383,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
   }
 
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index f5d915b..deac9c0 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -248,7 +248,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
                                        h);
 
     if (!rect_sir.is_running()) {
-      dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+      error("CTRL-C pressed!\n"); // Bail out.
     }
 
     //
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index df31d7e..303d353 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -423,7 +423,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     }
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
   }
 
   oct_retval.append(h_mat);
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 2f25a48..1bbcc2c 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -548,7 +548,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
   }
 
-- 
2.43.0


From 575aa67a1404e42ac86e076a1ccc619df3b6af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 08/59] fix: keep converted das arguments alive while their
 data is used

---
 extra_src/oct_das.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 02a237b..b3d112b 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -202,14 +202,18 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   dream_idx_type a_scan_len = mxGetM(0); // A-scan length
 
+  // The converted arguments must live as long as the pointers to their data are used.
+  FloatMatrix tmp0f, tmp1f, tmp2f, tmp3f, tmp5f;
+  Matrix tmp0d, tmp1d, tmp2d, tmp3d, tmp5d;
+
   float *Yf = nullptr;
   double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -228,10 +232,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Gt_d=nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -253,10 +257,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -278,10 +282,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Ro_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -324,10 +328,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -465,7 +469,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
   } else {
 
-- 
2.43.0


From 266f5e32a05787f4c4ceeae9484314850bc2dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 09/59] fix: use the row and column counts of the array that is
 indexed in RCA beamforming

---
 extra_src/das.cc     | 16 ++++++++--------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 86b1f76..f17c60e 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -463,14 +463,14 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the x-dimension (transmit with columns)
   //   and the receive elements are distributed along the y-dimension (rows),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -559,14 +559,14 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the y-dimension (transmit with rows)
   //   and the receive elements are distributed along the x-dimension (cols),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From 2a49664170d912c8ced787df93c15cf9d51026ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 10/59] fix: honour the das device, verbose and initialisation
 failure in every call form

---
 extra_src/oct_das.cc      | 10 +++++-----
 python/include/py_das.hpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index b3d112b..63fce2e 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -388,7 +388,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
@@ -407,7 +407,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   if (nrhs == 11) {
 
     if (!mxIsChar(10)) {
-      error("Argument 10 must be a string");
+      error("Argument 11 must be a string");
       return oct_retval;
     }
 
@@ -464,7 +464,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
 
       catch (std::runtime_error &std_err) {
-        std::cout << std_err.what();
+        error("%s", std_err.what());
         return oct_retval;
       }
     }
@@ -494,11 +494,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
 
       try {
-        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu);
+        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
       catch (std::runtime_error &std_err) {
-        std::cout << std_err.what();
+        error("%s", std_err.what());
         return oct_retval;
       }
     }
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 81e0e91..a2c5902 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -144,7 +144,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From 6168bf5023854fbd85b0aa166f39db8c369be489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 11/59] fix: reject das data with too few A-scans instead of
 reading past its end

---
 extra_src/oct_das.cc      | 11 +++++++++++
 python/include/py_das.hpp | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 63fce2e..451e4f6 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -368,6 +368,17 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // There must be one A-scan for each element (SAFT) or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements > 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if ((dream_idx_type) mxGetN(0) < num_a_scans) {
+    error("Argument 1 has too few columns (A-scans)!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index a2c5902..97e98ff 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -92,6 +92,16 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // There must be one A-scan for each element (SAFT) or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements > 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if ((dream_idx_type) ap.get_n(py_Y) < num_a_scans) {
+    throw std::runtime_error("Argument 1 has too few columns (A-scans)!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From be9867b264e4c307a1443609f476dff9712c7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 12/59] fix: release FFT plans and wisdom strings and report a
 failed transform setup

---
 include/fft.h | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/fft.h b/include/fft.h
index 6d99259..2971936 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -25,8 +25,11 @@
 
 #include <complex> // Must be included before fftw3.h
 #include <mutex>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <memory>
+#include <new>
 
 #include "dream.h"
 
@@ -42,6 +45,9 @@ class FFTVec
   {
     m_len = len;
     m_v = (double*) fftw_malloc(sizeof(double)*m_len);
+    if (!m_v) {
+      throw std::bad_alloc();
+    }
     m_is_allocated = true;
   };
 
@@ -77,6 +83,9 @@ class FFTCVec
   {
     m_len = len;
     m_vc = reinterpret_cast<std::complex<double>*>(fftw_malloc(sizeof(fftw_complex)*len));
+    if (!m_vc) {
+      throw std::bad_alloc();
+    }
     m_is_allocated = true;
   };
 
@@ -112,6 +121,9 @@ class FFT
     m_fft_len = fft_len;
     m_fft_mutex = fft_mutex;
 
+    // The plans are shared by all copies of this object and are destroyed with the last one.
+    m_plans = std::make_shared<Plans>();
+
     // FFTW's plan functions is not thread safe so (optionally) protect them with a mutex
 
     FFTVec x(fft_len);
@@ -151,6 +163,13 @@ class FFT
       m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
       m_p_backward = fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
     }
+
+    m_plans->m_p_forward = m_p_forward;
+    m_plans->m_p_backward = m_p_backward;
+
+    if (!m_p_forward || !m_p_backward) {
+      throw std::bad_alloc();
+    }
   };
 
   ~FFT() = default;
@@ -173,20 +192,36 @@ class FFT
   bool import_wisdom(char *str) {return fftw_import_wisdom_from_string(str);}
   bool import_wisdom(std::string str) {return fftw_import_wisdom_from_string(str.c_str());}
   void forget_wisdom() {fftw_forget_wisdom();}
-  bool is_wisdom(char *str) {return std::strcmp("fftw_wisdom",str);}
-  bool is_wisdom(std::string str) {return std::strcmp("fftw_wisdom",str.c_str());}
+  bool is_wisdom(char *str) {return std::strstr(str,"fftw_wisdom") != nullptr;}
+  bool is_wisdom(std::string str) {return std::strstr(str.c_str(),"fftw_wisdom") != nullptr;}
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
+    if (!str) {
+      throw std::bad_alloc();
+    }
+    std::unique_ptr<char, decltype(&std::free)> str_buf(str, &std::free);
     std::string w_str(str);
     return w_str;
   }
 
  private:
 
+  struct Plans
+  {
+    ~Plans() {
+      fftw_destroy_plan(m_p_forward);
+      fftw_destroy_plan(m_p_backward);
+    };
+
+    fftw_plan m_p_forward = nullptr;
+    fftw_plan m_p_backward = nullptr;
+  };
+
   dream_idx_type m_fft_len;
   std::mutex *m_fft_mutex;
   fftw_plan m_p_forward;
   fftw_plan m_p_backward;
+  std::shared_ptr<Plans> m_plans;
 };
 
 #endif
-- 
2.43.0


From d1555459396b1ad2fa16c91a73f622d9261dc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 13/59] fix: split copy_p and add_p over the columns that are
 copied and check index ranges

---
 extra_src/oct_add_p.cc  | 18 +++++++++---------
 extra_src/oct_copy_p.cc | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 7cb97d4..d7ca2c7 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -213,8 +213,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1 || (octave_idx_type) r[1] < (octave_idx_type) r[0]) {
+    error("1st element of argument 2 must be >= 1 and not larger than the 2nd!");
     return oct_retval;
   }
 
@@ -229,8 +229,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1 || (octave_idx_type) k[1] < (octave_idx_type) k[0]) {
+    error("1st element of argument 3 must be >= 1 and not larger than the 2nd!");
     return oct_retval;
   }
 
@@ -266,9 +266,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -309,8 +309,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index a63b756..2dd983e 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -211,8 +211,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1 || (octave_idx_type) r[1] < (octave_idx_type) r[0]) {
+    error("1st element of argument 2 must be >= 1 and not larger than the 2nd!");
     return oct_retval;
   }
 
@@ -227,8 +227,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1 || (octave_idx_type) k[1] < (octave_idx_type) k[0]) {
+    error("1st element of argument 3 must be >= 1 and not larger than the 2nd!");
     return oct_retval;
   }
 
@@ -264,9 +264,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -307,8 +307,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From 74453c1afd7dc624cc308873fc7a5336a7792f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 14/59] fix: overlap-add convolution with a vector, with
 in-place modes and with an empty block

---
 extra_src/oct_fftconv_ola.cc | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 1fdbc4a..0c2fc81 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -113,6 +113,9 @@ void* smp_dream_fftconv_ola(void *arg)
   FFTVec a_block_v(fft_len);
   double *a_block = a_block_v.get();
 
+  // The sign of the block contributions.
+  double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
+
   //
   // Do the convolution.
   //
@@ -125,6 +128,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // In '=' mode the old contents of the output column is replaced.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -140,7 +148,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -158,7 +166,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -169,11 +177,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -197,6 +205,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // In '=' mode the old contents of the output column is replaced.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -209,7 +222,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -227,7 +240,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -236,11 +249,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -253,8 +266,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
@@ -416,7 +427,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From 5103e3f54c32b446abb6393b6b148d8a78a476ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 15/59] fix: honour the in-place mode when a wisdom string is
 given too

---
 extra_src/oct_fftconv_ola.cc | 29 +++++++++++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 29 +++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 0c2fc81..729872e 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -520,6 +520,35 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   case 6: // In-place mode if 6 input args.
     if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
 
+      if (!args(4).is_string()) { // The in-place mode ('=','+=', or '-=').
+        error("Argument 5 is not a valid string format!");
+        return oct_retval;
+      }
+
+      std::string ip_mode = args(4).string_value();
+
+      is_set = false;
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+
+      if (is_set == false) {
+        error("Non-valid string in arg 5!");
+        return oct_retval;
+      }
+
       // Read the wisdom string.
       wisdom_str = args(5).string_value();
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 4ee4bb7..dcbd13d 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -395,6 +395,35 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   case 5: // In-place mode if input 5 args.
     if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
 
+      if (!args(3).is_string()) { // The in-place mode ('=','+=', or '-=').
+        error("Argument 4 is not a valid string format!");
+        return oct_retval;
+      }
+
+      std::string ip_mode = args(3).string_value();
+
+      is_set = false;
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+
+      if (is_set == false) {
+        error("Non-valid string in arg 4!");
+        return oct_retval;
+      }
+
       // Read the wisdom string.
       wisdom_str = args(4).string_value();
 
-- 
2.43.0


From 0d6009bbc234142e71f0ddd8a48381e4390a9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 16/59] fix: keep the in-place output alive while the
 convolution threads write to it

---
 extra_src/oct_conv_p.cc      | 3 ++-
 extra_src/oct_fftconv_ola.cc | 3 ++-
 extra_src/oct_fftconv_p.cc   | 5 +++--
 extra_src/oct_sum_fftconv.cc | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index f84b400..4a10faa 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -167,6 +167,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   ConvMode conv_mode = ConvMode::equ;
 
   octave_value_list oct_retval;
+  Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length ();
 
@@ -316,7 +317,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value();
+    Ytmp = args(2).matrix_value();
 
     Y = (double*) Ytmp.data();
   }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 729872e..77d94f5 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -362,6 +362,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   ConvMode conv_mode=ConvMode::equ;
 
   octave_value_list oct_retval;
+  Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length ();
 
@@ -655,7 +656,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(3).matrix_value();
+    Ytmp = args(3).matrix_value();
     Y = (double*) Ytmp.data();
   }
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dcbd13d..0f6cdd3 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -254,6 +254,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   bool is_set = false;
   ConvMode conv_mode=ConvMode::equ;
   octave_value_list oct_retval;
+  Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length ();
 
@@ -522,8 +523,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ymat = args(2).matrix_value();
-    Y = (double*) Ymat.data(); // NB. Do  not clear data here!
+    Ytmp = args(2).matrix_value();
+    Y = (double*) Ytmp.data(); // NB. Do  not clear data here!
   }
 
   //
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 1bbcc2c..75b368a 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -273,6 +273,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   ConvMode conv_mode=ConvMode::equ;
 
   octave_value_list oct_retval;
+  Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length();
 
@@ -481,7 +482,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value(); // This will make it stay in scope.
+    Ytmp = args(2).matrix_value();
     Y = (double*) Ytmp.data();
   }
 
-- 
2.43.0


From 7fe07e26a0452cf12311cd687ad516efff085fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 17/59] fix: sum_fftconv with one-sample inputs, and release
 its work array on every exit

---
 extra_src/oct_sum_fftconv.cc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 75b368a..9865c4f 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -321,7 +321,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   H_L = dv(2);
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::unique_ptr<double*[]> H_buf(new double*[H_L]);
+  double **H = H_buf.get();
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = (double*) &(tmp0.data()[H_M*H_N*k]);
   }
@@ -336,11 +337,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
@@ -553,10 +549,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (H) {
-    free(H);
-  }
-
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From a4834fa7c89d02de2d7a50d53d1c1226c346bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 18/59] fix: annular arrays with negative user defined focusing
 delays wrote before a buffer

---
 src/dream_arr_annu.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 529bc49..d035979 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -474,14 +474,14 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
 void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
                       double weight, double foc_delay, dream_idx_type n, double dt)
 {
-  double *buf = (double*) malloc(2*nt*sizeof(double));
+  std::unique_ptr<double[]> buf = std::make_unique<double[]>(2*nt);
   for (dream_idx_type i=0; i<2*nt; i++) {
     buf[i] = 0.0;
   }
 
   dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
   for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
+    if (delay_idx < nt && i + delay_idx >= 0) { // User defined delays can be negative.
       buf[i + delay_idx] = h_ring[i + n*nt];
     }
   }
@@ -490,8 +490,6 @@ void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
     h[i] += weight * buf[i];
   }
 
-  free(buf);
-
   return;
 }
 
-- 
2.43.0


From 70ac8b0d9d073cc36540a8382c0f0edfba7f00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 19/59] fix: use the far edge for the fourth sub-rectangle in
 rect_sir inside the aperture

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 65cbdaf..1095453 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -293,7 +293,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..fa79299 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
-- 
2.43.0


From 59c083d180987ae7e335744bf3117551d63084cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 20/59] fix: scale the rect_sir response with the normal
 velocity

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 1095453..4b1519e 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -420,7 +420,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index fa79299..2353149 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From 21bebf61b072e8c92e918066edc22ae0c875e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 21/59] fix: keep the analytic responses finite when a sample
 falls on an edge arrival time

---
 extra_src/circ_sir.cc | 4 ++--
 extra_src/rect_sir.cc | 4 ++--
 opencl/rect_sir.cl    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extra_src/circ_sir.cc b/extra_src/circ_sir.cc
index cee1694..258b08c 100644
--- a/extra_src/circ_sir.cc
+++ b/extra_src/circ_sir.cc
@@ -77,7 +77,7 @@ void circ_sir(double xo_i,
         h[it] = v * cp;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * std::acos( std::fmax(-1.0, std::fmin(1.0, (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)))));
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
@@ -90,7 +90,7 @@ void circ_sir(double xo_i,
         h[it] = 0.0;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * std::acos( std::fmax(-1.0, std::fmin(1.0, (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)))));
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 4b1519e..694b313 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -415,10 +415,10 @@ void RectSir::rect_sir_serial(double xo_i,
         a_k += cp/4;
 
       if ( (t >= tau_2) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( s_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * std::acos( std::fmin(1.0, s_k / (cp * std::sqrt(t*t - t_z*t_z))));
 
       if ( (t >= tau_3) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * std::acos( std::fmin(1.0, l_k / (cp * std::sqrt(t*t - t_z*t_z))));
 
       h[it] += v * g_k * a_k;
 
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 2353149..0c4de03 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -181,11 +181,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( s_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos( fmin(1.0, s_k / (cp * native_sqrt(t*t - t_z*t_z))));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( l_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos( fmin(1.0, l_k / (cp * native_sqrt(t*t - t_z*t_z))));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From bd6351c40345e96c0c001ba74320cf9520fddb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 22/59] fix: return the computed value when the convolution
 output is a single element

---
 extra_src/oct_conv_p.cc      | 12 +++++++++---
 extra_src/oct_fftconv_ola.cc | 12 +++++++++---
 extra_src/oct_fftconv_p.cc   | 12 +++++++++---
 extra_src/oct_sum_fftconv.cc | 12 +++++++++---
 4 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 4a10faa..45972dc 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -167,6 +167,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   ConvMode conv_mode = ConvMode::equ;
 
   octave_value_list oct_retval;
+  Matrix Ymat; // Output in normal mode.
+  bool normal_mode = false;
   Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length ();
@@ -296,11 +298,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     // Normal (non in-place) mode.
     //
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    normal_mode = true;
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
-    oct_retval.append(Ymat);
-
   } else {
 
     //
@@ -388,5 +389,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // A 1 x 1 matrix is copied when it is converted to an Octave value so do it when the data is there.
+  if (normal_mode) {
+    oct_retval.append(Ymat);
+  }
+
   return oct_retval;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 77d94f5..61a9850 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -362,6 +362,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   ConvMode conv_mode=ConvMode::equ;
 
   octave_value_list oct_retval;
+  Matrix Ymat; // Output in normal mode.
+  bool normal_mode = false;
   Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length ();
@@ -631,13 +633,12 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
 
     // Allocate mamory for the output matrix.
-    Matrix Ymat(A_M+B_M-1, A_N);
+    normal_mode = true;
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -727,6 +728,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // A 1 x 1 matrix is copied when it is converted to an Octave value so do it when the data is there.
+  if (normal_mode) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 0f6cdd3..cfc6f2a 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -254,6 +254,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   bool is_set = false;
   ConvMode conv_mode=ConvMode::equ;
   octave_value_list oct_retval;
+  Matrix Ymat; // Output in normal mode.
+  bool normal_mode = false;
   Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length ();
@@ -498,13 +500,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    normal_mode = true;
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -603,6 +604,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // A 1 x 1 matrix is copied when it is converted to an Octave value so do it when the data is there.
+  if (normal_mode) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 9865c4f..b5fc080 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -273,6 +273,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   ConvMode conv_mode=ConvMode::equ;
 
   octave_value_list oct_retval;
+  Matrix Ymat; // Output in normal mode.
+  bool normal_mode = false;
   Matrix Ytmp; // Keeps the in-place output data alive until the threads are done.
 
   int nrhs = args.length();
@@ -450,14 +452,13 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
 
-    Matrix Ymat(fft_len, H_N);
+    normal_mode = true;
+    Ymat = Matrix(fft_len, H_N);
     Y = (double*) Ymat.data();
 
     // Clear output in normal mode
     SIRData ymat(Y, fft_len, H_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -549,6 +550,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // A 1 x 1 matrix is copied when it is converted to an Octave value so do it when the data is there.
+  if (normal_mode) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From 0d830d45850cfab9e39cc0798a89b19f4246f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 23/59] fix: report an ignored or warned out-of-bounds event of
 a multi-threaded dreamsphere call

---
 src/dreamsphere.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 34d6656..0232ab2 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -265,11 +265,10 @@ SIRError Sphere::dreamsphere(double alpha,
         threads[thread_n].join();
       }
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
+      // Check if the thread had an out-of-bounds error.
+      if (D[thread_n].err != SIRError::none) {
+        err = D[thread_n].err;
       }
-
     }
   }
 
-- 
2.43.0


From 5a19f6df9c28e5852227b4d4a63e348857a41cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 24/59] fix: wait for started threads when an exception leaves
 the computation

---
 extra_src/das.cc             |  3 +-
 extra_src/fftconv_p.cc       |  3 +-
 extra_src/oct_add_p.cc       |  3 +-
 extra_src/oct_circ_sir.cc    |  3 +-
 extra_src/oct_conv_p.cc      |  3 +-
 extra_src/oct_copy_p.cc      |  3 +-
 extra_src/oct_fftconv_ola.cc |  3 +-
 extra_src/oct_fftconv_p.cc   |  3 +-
 extra_src/oct_scirc_sir.cc   |  3 +-
 extra_src/oct_sum_fftconv.cc |  3 +-
 extra_src/rect_sir.cc        |  3 +-
 include/joining_threads.h    | 63 ++++++++++++++++++++++++++++++++++++
 src/dream_arr_annu.cc        |  3 +-
 src/dream_arr_circ.cc        |  3 +-
 src/dream_arr_cylind.cc      |  3 +-
 src/dream_arr_rect.cc        |  3 +-
 src/dreamcirc.cc             |  3 +-
 src/dreamcirc_f.cc           |  3 +-
 src/dreamcylind.cc           |  3 +-
 src/dreamline.cc             |  3 +-
 src/dreamrect.cc             |  3 +-
 src/dreamrect_f.cc           |  3 +-
 src/dreamsphere.cc           |  3 +-
 23 files changed, 107 insertions(+), 22 deletions(-)
 create mode 100644 include/joining_threads.h

diff --git a/extra_src/das.cc b/extra_src/das.cc
index f17c60e..8ee9281 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -30,6 +30,7 @@
 
 #include "das.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 std::mutex err_mutex;
 std::atomic<bool> running;
@@ -243,7 +244,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
   DATA<T> *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index a80ecf7..2ed1977 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -29,6 +29,7 @@
 #include <atomic>
 
 #include "affinity.h"
+#include "joining_threads.h"
 #include "fftconv.h"
 #include "fftconv_p.h"
 
@@ -350,7 +351,7 @@ ErrorLevel FFTConvP::run(double *Y,
   }
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
   if (!threads) {
     throw std::runtime_error("Failed to allocate memory for threads!");
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index d7ca2c7..865d6ad 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -36,6 +36,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 /***
  *
@@ -300,7 +301,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index e3fa7c3..a6c58e8 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -29,6 +29,7 @@
 #include <mutex>
 
 #include "affinity.h"
+#include "joining_threads.h"
 #include "signal_guard.h"
 #include "circ_sir.h"
 #include "arg_parser.h"
@@ -361,7 +362,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 45972dc..2b5ca6e 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -31,6 +31,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 #include "affinity.h"
+#include "joining_threads.h"
 #include "conv.h"
 
 /***
@@ -338,7 +339,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
   if (!threads) {
     dream_err_msg("Failed to allocate memory for threads!");
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 2dd983e..3ffb03b 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -36,6 +36,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 /***
  *
@@ -298,7 +299,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 61a9850..89e793f 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -32,6 +32,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 //#include "affinity.h"
+#include "joining_threads.h"
 #include "fftconv.h"
 
 /***
@@ -662,7 +663,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   }
 
   // Init thread data.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]);
+  JoiningThreads threads_buf(nthreads);
   threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index cfc6f2a..28a8045 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -32,6 +32,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 #include "affinity.h"
+#include "joining_threads.h"
 #include "fftconv.h"
 
 #ifdef DEBUG
@@ -543,7 +544,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
   if (!threads) {
     error("Failed to allocate memory for threads!");
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 303d353..26963f9 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -27,6 +27,7 @@
 #include <mutex>
 
 #include "scirc_sir.h"
+#include "joining_threads.h"
 #include "signal_guard.h"
 #include "arg_parser.h"
 
@@ -376,7 +377,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index b5fc080..53c364b 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -32,6 +32,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 #include "affinity.h"
+#include "joining_threads.h"
 #include "fftconv.h"
 
 /***
@@ -498,7 +499,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
   if (!threads) {
     dream_err_msg("Failed to allocate memory for threads!");
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 694b313..5278a31 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -30,6 +30,7 @@
 
 #include "rect_sir.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 //std::mutex err_mutex;
 std::atomic<bool> running;
@@ -181,7 +182,7 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/include/joining_threads.h b/include/joining_threads.h
new file mode 100644
index 0000000..675563c
--- /dev/null
+++ b/include/joining_threads.h
@@ -0,0 +1,63 @@
+/***
+*
+* Copyright (C) 2026 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+
+#pragma once
+
+#include <memory>
+#include <thread>
+
+/***
+ *
+ * The threads of a parallel computation. Threads that are still running when leaving
+ * the scope (because of an exception) are waited for; they use data of that scope.
+ *
+ ***/
+
+class JoiningThreads
+{
+ public:
+
+  explicit JoiningThreads(size_t nthreads)
+    : m_nthreads(nthreads)
+    , m_threads(new std::thread[nthreads])
+  {;}
+
+  ~JoiningThreads()
+  {
+    for (size_t n=0; n<m_nthreads; n++) {
+      if (m_threads[n].joinable()) {
+        m_threads[n].join();
+      }
+    }
+  }
+
+  JoiningThreads(const JoiningThreads&) = delete;
+  JoiningThreads& operator=(const JoiningThreads&) = delete;
+
+  std::thread* get() { return m_threads.get(); }
+
+ private:
+
+  size_t m_nthreads;
+  std::unique_ptr<std::thread[]> m_threads;
+};
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index d035979..cc5a0c8 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -29,6 +29,7 @@
 #include "dream_arr_annu.h"
 #include "dreamcirc.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -578,7 +579,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 0cc0087..2ee3e62 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -30,6 +30,7 @@
 #include "dreamcirc.h"
 #include "arr_functions.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -376,7 +377,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index c524e00..61d6143 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -29,6 +29,7 @@
 #include "dream_arr_cylind.h"
 #include "arr_functions.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -382,7 +383,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 084e2d8..2dafde2 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -30,6 +30,7 @@
 #include "dreamrect.h"
 #include "arr_functions.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -379,7 +380,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e236c37..57c6ae4 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -29,6 +29,7 @@
 #include "dreamcirc.h"
 #include "attenuation.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -221,7 +222,7 @@ SIRError Circ::dreamcirc(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index b0abf46..895db1a 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -28,6 +28,7 @@
 
 #include "dreamcirc_f.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -220,7 +221,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 29af867..a07afaa 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -29,6 +29,7 @@
 #include "dreamcylind.h"
 #include "attenuation.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -217,7 +218,7 @@ SIRError Cylind::dreamcylind(double alpha,
   DATA_CYLIND *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 11ecce6..7af1964 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -29,6 +29,7 @@
 #include "dreamline.h"
 #include "attenuation.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -206,7 +207,7 @@ SIRError Line::dreamline(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index f244dc8..5ab9a0c 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -29,6 +29,7 @@
 #include "dreamrect.h"
 #include "attenuation.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -217,7 +218,7 @@ SIRError Rect::dreamrect(double alpha,
   DATA_RECT *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 58879b1..30b85d2 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -28,6 +28,7 @@
 
 #include "dreamrect_f.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -219,7 +220,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 0232ab2..9c53d36 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -29,6 +29,7 @@
 #include "dreamsphere.h"
 #include "attenuation.h"
 #include "affinity.h"
+#include "joining_threads.h"
 
 #ifdef OCTAVE
 #include <octave/oct.h>
@@ -216,7 +217,7 @@ SIRError Sphere::dreamsphere(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
-  std::unique_ptr<std::thread[]> threads_buf(new std::thread[nthreads]); // Init thread data.
+  JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
   for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-- 
2.43.0


From a3d9c35c1cd6b0eb3fa2198a08304a6a6b667508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 25/59] fix: keep the run flag and the signal handler of each
 convolution and sir module to itself

---
 extra_src/oct_add_p.cc       | 7 ++++---
 extra_src/oct_circ_sir.cc    | 5 +++--
 extra_src/oct_conv_p.cc      | 7 ++++---
 extra_src/oct_copy_p.cc      | 7 ++++---
 extra_src/oct_fftconv_ola.cc | 7 ++++---
 extra_src/oct_fftconv_p.cc   | 7 ++++---
 extra_src/oct_scirc_sir.cc   | 5 +++--
 extra_src/oct_sum_fftconv.cc | 7 ++++---
 8 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 865d6ad..9c6232e 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -25,6 +25,7 @@
 #include <exception>
 #include <iostream>
 #include <csignal>
+#include <atomic>
 #include <thread>
 
 //
@@ -48,7 +49,7 @@
 // Globals
 //
 
-volatile int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -76,7 +77,7 @@ typedef void (*sighandler_t)(int);
 //
 
 void* smp_dream_add_p(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -115,7 +116,7 @@ void* smp_dream_add_p(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index a6c58e8..6f4a401 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -25,6 +25,7 @@
 #include <exception>
 #include <iostream>
 #include <csignal>
+#include <atomic>
 #include <thread>
 #include <mutex>
 
@@ -46,7 +47,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -147,7 +148,7 @@ void* smp_dream_circ_sir(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 2b5ca6e..32d1c00 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -24,6 +24,7 @@
 #include <memory>
 #include <exception>
 #include <csignal>
+#include <atomic>
 #include <thread>
 
 #include <octave/oct.h>
@@ -44,7 +45,7 @@
 // Globals
 //
 
-volatile int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -71,7 +72,7 @@ typedef void (*sighandler_t)(int);
 //
 
 void* smp_dream_conv_p(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -114,7 +115,7 @@ void* smp_dream_conv(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 3ffb03b..f275304 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -25,6 +25,7 @@
 #include <exception>
 #include <iostream>
 #include <csignal>
+#include <atomic>
 #include <thread>
 
 //
@@ -48,7 +49,7 @@
 // Globals
 //
 
-volatile int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -76,7 +77,7 @@ typedef void (*sighandler_t)(int);
 //
 
 void* smp_dream_copy_p(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -113,7 +114,7 @@ void* smp_dream_copy_p(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 89e793f..1b96197 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -24,6 +24,7 @@
 #include <memory>
 #include <exception>
 #include <csignal>
+#include <atomic>
 #include <thread>
 #include <complex>
 
@@ -45,7 +46,7 @@
 // Globals
 //
 
-volatile int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -74,7 +75,7 @@ typedef void (*sighandler_t)(int);
 //
 
 void* smp_dream_fftconv_ola(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -279,7 +280,7 @@ void* smp_dream_fftconv_ola(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 28a8045..e794435 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -24,6 +24,7 @@
 #include <memory>
 #include <exception>
 #include <csignal>
+#include <atomic>
 #include <thread>
 #include <complex>
 
@@ -50,7 +51,7 @@ std::mutex print_mutex;         // Debug print mutex (C++11)
 // Globals
 //
 
-volatile int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -78,7 +79,7 @@ typedef void (*sighandler_t)(int);
 //
 
 void* smp_dream_fftconv(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -174,7 +175,7 @@ void* smp_dream_fftconv(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 26963f9..efa34b4 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -23,6 +23,7 @@
 
 #include <memory>
 #include <exception>
+#include <atomic>
 #include <thread>
 #include <mutex>
 
@@ -43,7 +44,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -145,7 +146,7 @@ void* smp_dream_scirc_sir(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 53c364b..3b3d441 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -24,6 +24,7 @@
 #include <memory>
 #include <exception>
 #include <csignal>
+#include <atomic>
 #include <thread>
 #include <complex>
 
@@ -45,7 +46,7 @@
 // Globals
 //
 
-volatile int running;
+static std::atomic<bool> running;
 
 //
 // typedef:s
@@ -74,7 +75,7 @@ typedef void (*sighandler_t)(int);
 //
 
 void* smp_dream_sum_fftconv(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -139,7 +140,7 @@ void* smp_dream_sum_fftconv(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
-- 
2.43.0


From 0f2fe660301dda11e8186d85c9277da74815b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 26/59] fix: report transform wisdom that sum_fftconv cannot
 use as an error

---
 extra_src/oct_sum_fftconv.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 3b3d441..f2684b9 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -364,7 +364,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       //
 
       if (!fft.is_wisdom(wisdom_str)) {
-        dream_err_msg("The string in arg 3 do not seem to be in a FFTW wisdom format!");
+        error("The string in arg 3 do not seem to be in a FFTW wisdom format!");
         return oct_retval;
       }
       else {
@@ -385,7 +385,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       wisdom_str = args(3).string_value();
 
       if (!fft.is_wisdom(wisdom_str)) {
-        dream_err_msg("The string in arg 4 do not seem to be in fftw wisdom format!");
+        error("The string in arg 4 do not seem to be in fftw wisdom format!");
         return oct_retval;
       }
       else {
@@ -393,7 +393,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       }
     }
     else { // 4th arg not a string
-      dream_err_msg("Argument 4 do not seem to be in fftw wisdom string format!");
+      error("Argument 4 do not seem to be in fftw wisdom string format!");
       return oct_retval;
     }
     break;
@@ -443,7 +443,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if(load_wisdom) {
     if (!fft.import_wisdom(wisdom_str)) {
-      dream_err_msg("Failed to load FFTW wisdom!");
+      error("Failed to load FFTW wisdom!");
       return oct_retval;
     }
   }
-- 
2.43.0


From 44011f1c6cce83ac17ecad66c5f2acf4f74806cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 27/59] fix: accept one-dimensional numpy arrays without
 reading past their shape

---
 include/arg_parser_python.h       | 15 +++++----------
 python/src/py_dream_arr_annu.cc   |  4 +---
 python/src/py_dream_arr_circ.cc   |  4 +---
 python/src/py_dream_arr_cylind.cc |  4 +---
 python/src/py_dream_arr_rect.cc   |  4 +---
 python/src/py_dreamcirc.cc        |  4 +---
 python/src/py_dreamcirc_f.cc      |  4 +---
 python/src/py_dreamcylind.cc      |  4 +---
 python/src/py_dreamline.cc        |  4 +---
 python/src/py_dreamrect.cc        |  4 +---
 python/src/py_dreamrect_f.cc      |  4 +---
 python/src/py_dreamsphere.cc      |  4 +---
 12 files changed, 16 insertions(+), 43 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..03b2e39 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -84,8 +84,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info ro_info = py_ro->request();
-    auto ro_n = ro_info.shape[1];
+    auto ro_n = get_n(py_ro);
 
     if (ro_n != 3) {
       s << func_name <<  " requires that observation point arg must be a (number of observation points) x 3 matrix!";
@@ -100,8 +99,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info G_info = py_G->request();
-    auto G_n = G_info.shape[1];
+    auto G_n = get_n(py_G);
 
     if ( G_n != 3 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
@@ -592,24 +590,21 @@ public:
 
   dream_idx_type get_m(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto m = py_arg_info.shape[0];
+    auto m = py_arg_info.ndim > 0 ? py_arg_info.shape[0] : 1;
 
     return (dream_idx_type) m;
   };
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = py_arg_info.shape[1];
+    auto n = py_arg_info.ndim > 1 ? py_arg_info.shape[1] : 1; // One-dimensional arrays are column vectors.
 
     return (dream_idx_type) n;
   };
 
   // Assume vector here. We do not care it is a row or column vector.
   dream_idx_type get_len(const py::array_t<T,py::array::f_style> *py_arg) {
-    py::buffer_info py_arg_info = py_arg->request();
-    auto len = py_arg_info.shape[0] * py_arg_info.shape[1];
-
-    return (dream_idx_type) len;
+    return get_m(py_arg) * get_n(py_arg);
   };
 
   T* get_data(const py::array_t<T,py::array::f_style> *py_arg) {
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 1b104fd..05c32d3 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -100,12 +100,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 346646a..d38147e 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -113,12 +113,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index ba4ed45..ff763e8 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -113,12 +113,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 14d6572..2cb74ba 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -113,12 +113,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 058dcee..ddd45ac 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -91,12 +91,10 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index 69dfd35..950c49e 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -93,12 +93,10 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index c68367c..a7aeb19 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -91,12 +91,10 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f3eb25f..c963119 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -91,12 +91,10 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index c074d6e..8d763b8 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -91,12 +91,10 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 3051e14..64b62cd 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -93,12 +93,10 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index e74c80d..ae202a7 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -91,12 +91,10 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
-- 
2.43.0


From 118ea4dd39f074699334a20edbd6c7c41a0c2c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 28/59] fix: use the apodization window parameter in the Python
 array functions

---
 python/src/py_dream_arr_annu.cc   | 2 +-
 python/src/py_dream_arr_circ.cc   | 2 +-
 python/src/py_dream_arr_cylind.cc | 2 +-
 python/src/py_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 05c32d3..a3e3784 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -139,7 +139,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par = win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index d38147e..21b9c90 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -163,7 +163,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par = win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index ff763e8..9343498 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -163,7 +163,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par = win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 2cb74ba..f2692c6 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -163,7 +163,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par = win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From 5e346489e53463f93a4ccf82ee2fd0baf2494740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 29/59] fix: count the annular array elements from the radii in
 the Python function

---
 python/src/py_dream_arr_annu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index a3e3784..96d916b 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -76,10 +76,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = ap.get_len(py_G);
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -177,7 +177,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From a2fac728a162eb5e7da73ad9f500075243947d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 30/59] fix: raise an error when an OpenCL call of dreamrect,
 dreamcirc or rect_sir fails

The failures were only printed and the (cleared or undefined) output was
returned as if it were the result; objects were not released, a missing
kernel file was not noticed, and a missing DREAM_CL_KERNELS variable ended
in an uncaught exception.
---
 extra_src/oct_rect_sir.cc |   9 ++-
 include/cl_object.h       |  84 +++++++++++++++++++++++++++
 oct/oct_dreamcirc.cc      |   9 ++-
 oct/oct_dreamrect.cc      |   9 ++-
 opencl/cl_dreamcirc.cc    | 116 ++++++++++++++-----------------------
 opencl/cl_dreamrect.cc    | 117 ++++++++++++++------------------------
 opencl/cl_rect_sir.cc     | 113 ++++++++++++++----------------------
 7 files changed, 237 insertions(+), 220 deletions(-)
 create mode 100644 include/cl_object.h

diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index deac9c0..e1b4395 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -235,7 +235,14 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
   if (device == "gpu") {
-    rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+    try {
+      rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+    }
+
+    catch (const std::runtime_error &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/include/cl_object.h b/include/cl_object.h
new file mode 100644
index 0000000..9833e3e
--- /dev/null
+++ b/include/cl_object.h
@@ -0,0 +1,84 @@
+/***
+ *
+ * Copyright (C) 2023,2024 Fredrik Lingvall
+ *
+ * This file is part of the DREAM Toolbox.
+ *
+ * The DREAM Toolbox is free software; you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by the
+ * Free Software Foundation; either version 2, or (at your option) any
+ * later version.
+ *
+ * The DREAM Toolbox is distributed in the hope that it will be useful, but
+ * WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+ * FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+ * for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+ * Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+ * 02110-1301, USA.
+ *
+ ***/
+
+#pragma once
+
+// Helpers for the code that uses the OpenCL C API directly.
+
+#include <fstream>
+#include <iterator>
+#include <stdexcept>
+#include <string>
+
+#define CL_TARGET_OPENCL_VERSION 120
+#include <CL/cl.h>
+
+// Throws if an OpenCL call did not succeed.
+static inline void cl_check(cl_int ret, const char *what)
+{
+  if (ret != CL_SUCCESS) {
+    throw std::runtime_error(std::string("OpenCL error - ") + what + " failed: " + std::to_string(ret) + "\n");
+  }
+}
+
+// Reads a kernel file into a string.
+static inline std::string cl_read_kernel(const std::string &file_name)
+{
+  std::ifstream f_kernel(file_name);
+  std::string kernel_str((std::istreambuf_iterator<char>(f_kernel)), std::istreambuf_iterator<char>());
+  if (!f_kernel || kernel_str.empty()) {
+    throw std::runtime_error("OpenCL error - failed to read the kernel file " + file_name + "\n");
+  }
+
+  return kernel_str;
+}
+
+// Owns an OpenCL object and releases it at the end of the scope.
+template <class H>
+class CLObject
+{
+public:
+
+  CLObject(H obj, cl_int (CL_API_CALL *release)(H))
+    : m_obj(obj)
+    , m_release(release)
+  {;}
+
+  ~CLObject()
+  {
+    if (m_obj) {
+      m_release(m_obj);
+    }
+  }
+
+  CLObject(const CLObject&) = delete;
+  CLObject& operator=(const CLObject&) = delete;
+
+  operator H() const { return m_obj; }
+  const H* operator&() const { return &m_obj; }
+
+private:
+
+  H m_obj;
+  cl_int (CL_API_CALL *m_release)(H);
+};
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index df85c07..c0b2797 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -235,7 +235,14 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    try {
+      circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    }
+
+    catch (const std::runtime_error &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5df641..aa42259 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -237,7 +237,14 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   // Check if we should use the GPU
   if (device == "gpu") {
-    rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+    try {
+      rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+    }
+
+    catch (const std::runtime_error &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index f656dad..9ad9f31 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -24,15 +24,10 @@
 
 #include <math.h>
 #include <iostream>
-#include <fstream>
-#include <streambuf>
 
 #include "dreamcirc.h"
 #include "dream_error.h"
-
-#define CL_TARGET_OPENCL_VERSION 120
-#include <CL/cl.h>
-
+#include "cl_object.h"
 
 /***
  *
@@ -52,8 +47,6 @@ int Circ::cl_dreamcirc(const double *Ro,
                        double cp,
                        double *H)
 {
-  std::string kernel_str;
-
   //
   // Load the kernel from a file into a string.
   //
@@ -67,12 +60,7 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   std::string dreamcirc_kernel = dream_cl_kernel;
   dreamcirc_kernel += "/dreamcirc.cl";
-  std::ifstream f_kernel(dreamcirc_kernel);
-  f_kernel.seekg(0, std::ios::end);
-  kernel_str.reserve(f_kernel.tellg());
-  f_kernel.seekg(0, std::ios::beg);
-  kernel_str.assign((std::istreambuf_iterator<char>(f_kernel)),
-             std::istreambuf_iterator<char>());
+  std::string kernel_str = cl_read_kernel(dreamcirc_kernel);
 
   //std::cout << "CL Kernel: " <<  kernel_str.c_str() << std::endl;
 
@@ -88,18 +76,19 @@ int Circ::cl_dreamcirc(const double *Ro,
   cl_uint ret_num_platforms;
 
   cl_int ret = clGetPlatformIDs(1, &platform_id, &ret_num_platforms);
+  cl_check(ret, "getting the platform");
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  cl_check(ret, "getting the GPU device");
 
   // Create an OpenCL context
-  cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  CLObject<cl_context> context(clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret), clReleaseContext);
+  cl_check(ret, "creating the context");
 
   // Create a command queue
-  cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  CLObject<cl_command_queue> command_queue(clCreateCommandQueue(context, device_id, 0, &ret), clReleaseCommandQueue);
+  cl_check(ret, "creating the command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -107,8 +96,8 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   // Read
 
-  cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  CLObject<cl_mem> Ro_mo(clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the Ro buffer");
   cl_int No_mo = No;
 
   cl_double r_mo = r;
@@ -122,81 +111,79 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   // Write
 
-  cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  CLObject<cl_mem> H_mo(clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the H buffer");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  cl_check(ret, "writing Ro to the device");
 
   //
   // Create a program from the kernel source
   //
 
   const char *k_c_str = kernel_str.c_str();
-  cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  CLObject<cl_program> program(clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret), clReleaseProgram);
+  cl_check(ret, "creating the program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
-
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
-    size_t log_size;
-    clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, 0, NULL, &log_size);
-
-    // Allocate memory for the log
-    char *log = (char *) malloc(log_size);
-
-    // Get the log
-    clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, log_size, log, NULL);
-
-    // Print the log
-    printf("%s\n", log);
-
-    free(log);
+    size_t log_size = 0;
+    if (clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, 0, NULL, &log_size) == CL_SUCCESS) {
+
+      // Get the log
+      std::string log(log_size, '\0');
+      if (log_size > 0 &&
+          clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, log_size, &log[0], NULL) == CL_SUCCESS) {
+        std::cout << log.c_str() << std::endl;
+      }
+    }
   }
 
+  cl_check(ret, "building the program");
+
   // Create the OpenCL kernel
-  cl_kernel kernel = clCreateKernel(program, "dreamcirc", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  CLObject<cl_kernel> kernel(clCreateKernel(program, "dreamcirc", &ret), clReleaseKernel);
+  cl_check(ret, "creating the kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &r_mo);
-  if (ret < 0) std::cout << "cl kernel arg r ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg r");
 
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &dx_mo);
-  if (ret < 0) std::cout << "cl kernel arg dx ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dx");
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dy_mo);
-  if (ret < 0) std::cout << "cl kernel arg dy ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dy");
   ret = clSetKernelArg(kernel, 5, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dt");
 
   ret = clSetKernelArg(kernel, 6, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg nt");
 
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg delay");
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg v");
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg cp");
 
   ret = clSetKernelArg(kernel, 10, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -205,31 +192,14 @@ int Circ::cl_dreamcirc(const double *Ro,
   size_t global_item_size = No; // Process the entire number of observation points
   size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  cl_check(ret, "running the kernel");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), H, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
-
-  //
-  // Clean up
-  //
-
-  ret = clFlush(command_queue);
-  ret = clFinish(command_queue);
-  ret = clReleaseKernel(kernel);
-  ret = clReleaseProgram(program);
-
-  ret = clReleaseMemObject(Ro_mo);
-  ret = clReleaseMemObject(H_mo);
-
-  ret = clReleaseCommandQueue(command_queue);
-  ret = clReleaseContext(context);
-
-  int err = ret;
+  cl_check(ret, "reading H from the device");
 
-  return err;
+  return CL_SUCCESS;
 }
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1fd85a5..97873fb 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -24,14 +24,10 @@
 
 #include <math.h>
 #include <iostream>
-#include <fstream>
-#include <streambuf>
 
 #include "dreamrect.h"
 #include "dream_error.h"
-
-#define CL_TARGET_OPENCL_VERSION 120
-#include <CL/cl.h>
+#include "cl_object.h"
 
 /***
  *
@@ -52,8 +48,6 @@ int Rect::cl_dreamrect(const double *Ro,
                        double cp,
                        double *H)
 {
-  std::string kernel_str;
-
   //
   // Load the kernel from a file into a string.
   //
@@ -67,12 +61,7 @@ int Rect::cl_dreamrect(const double *Ro,
 
   std::string dreamrect_kernel = dream_cl_kernel;
   dreamrect_kernel += "/dreamrect.cl";
-  std::ifstream f_kernel(dreamrect_kernel);
-  f_kernel.seekg(0, std::ios::end);
-  kernel_str.reserve(f_kernel.tellg());
-  f_kernel.seekg(0, std::ios::beg);
-  kernel_str.assign((std::istreambuf_iterator<char>(f_kernel)),
-             std::istreambuf_iterator<char>());
+  std::string kernel_str = cl_read_kernel(dreamrect_kernel);
 
   //std::cout << "CL Kernel: " <<  kernel_str.c_str() << std::endl;
 
@@ -88,18 +77,19 @@ int Rect::cl_dreamrect(const double *Ro,
   cl_uint ret_num_platforms;
 
   cl_int ret = clGetPlatformIDs(1, &platform_id, &ret_num_platforms);
+  cl_check(ret, "getting the platform");
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  cl_check(ret, "getting the GPU device");
 
   // Create an OpenCL context
-  cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  CLObject<cl_context> context(clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret), clReleaseContext);
+  cl_check(ret, "creating the context");
 
   // Create a command queue
-  cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  CLObject<cl_command_queue> command_queue(clCreateCommandQueue(context, device_id, 0, &ret), clReleaseCommandQueue);
+  cl_check(ret, "creating the command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -107,8 +97,8 @@ int Rect::cl_dreamrect(const double *Ro,
 
   // Read
 
-  cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  CLObject<cl_mem> Ro_mo(clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the Ro buffer");
   cl_int No_mo = No;
 
   cl_double a_mo = a;
@@ -123,83 +113,81 @@ int Rect::cl_dreamrect(const double *Ro,
 
   // Write
 
-  cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  CLObject<cl_mem> H_mo(clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the H buffer");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  cl_check(ret, "writing Ro to the device");
 
   //
   // Create a program from the kernel source
   //
 
   const char *k_c_str = kernel_str.c_str();
-  cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  CLObject<cl_program> program(clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret), clReleaseProgram);
+  cl_check(ret, "creating the program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
-
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
-    size_t log_size;
-    clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, 0, NULL, &log_size);
-
-    // Allocate memory for the log
-    char *log = (char *) malloc(log_size);
-
-    // Get the log
-    clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, log_size, log, NULL);
-
-    // Print the log
-    printf("%s\n", log);
-
-    free(log);
+    size_t log_size = 0;
+    if (clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, 0, NULL, &log_size) == CL_SUCCESS) {
+
+      // Get the log
+      std::string log(log_size, '\0');
+      if (log_size > 0 &&
+          clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, log_size, &log[0], NULL) == CL_SUCCESS) {
+        std::cout << log.c_str() << std::endl;
+      }
+    }
   }
 
+  cl_check(ret, "building the program");
+
   // Create the OpenCL kernel
-  cl_kernel kernel = clCreateKernel(program, "dreamrect", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  CLObject<cl_kernel> kernel(clCreateKernel(program, "dreamrect", &ret), clReleaseKernel);
+  cl_check(ret, "creating the kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &a_mo);
-  if (ret < 0) std::cout << "cl kernel arg a ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg a");
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &b_mo);
-  if (ret < 0) std::cout << "cl kernel arg b ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg b");
 
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dx_mo);
-  if (ret < 0) std::cout << "cl kernel arg dx ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dx");
   ret = clSetKernelArg(kernel, 5, sizeof(cl_double), (void *) &dy_mo);
-  if (ret < 0) std::cout << "cl kernel arg dy ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dy");
   ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dt");
 
   ret = clSetKernelArg(kernel, 7, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg nt");
 
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg delay");
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg v");
   ret = clSetKernelArg(kernel, 10, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg cp");
 
   ret = clSetKernelArg(kernel, 11, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -208,31 +196,14 @@ int Rect::cl_dreamrect(const double *Ro,
   size_t global_item_size = No; // Process the entire number of observation points
   size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  cl_check(ret, "running the kernel");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), H, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
-
-  //
-  // Clean up
-  //
-
-  ret = clFlush(command_queue);
-  ret = clFinish(command_queue);
-  ret = clReleaseKernel(kernel);
-  ret = clReleaseProgram(program);
-
-  ret = clReleaseMemObject(Ro_mo);
-  ret = clReleaseMemObject(H_mo);
-
-  ret = clReleaseCommandQueue(command_queue);
-  ret = clReleaseContext(context);
-
-  int err = ret;
+  cl_check(ret, "reading H from the device");
 
-  return err;
+  return CL_SUCCESS;
 }
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8d6b0a4..8048d7a 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -24,13 +24,9 @@
 
 #include <math.h>
 #include <iostream>
-#include <fstream>
-#include <streambuf>
 
 #include "rect_sir.h"
-
-#define CL_TARGET_OPENCL_VERSION 120
-#include <CL/cl.h>
+#include "cl_object.h"
 
 /***
  *
@@ -49,8 +45,6 @@ int RectSir::cl_rect_sir(const double *Ro,
                          double cp,
                          double *h)
 {
-  std::string kernel_str;
-
     std::string dream_cl_kernel = "";
   if(const char* env_p = std::getenv("DREAM_CL_KERNELS")) {
     dream_cl_kernel += env_p;
@@ -60,12 +54,7 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   std::string rect_sir_kernel = dream_cl_kernel;
   rect_sir_kernel += "/rect_sir.cl";
-  std::ifstream f_kernel(rect_sir_kernel);
-  f_kernel.seekg(0, std::ios::end);
-  kernel_str.reserve(f_kernel.tellg());
-  f_kernel.seekg(0, std::ios::beg);
-  kernel_str.assign((std::istreambuf_iterator<char>(f_kernel)),
-             std::istreambuf_iterator<char>());
+  std::string kernel_str = cl_read_kernel(rect_sir_kernel);
 
   //std::cout << "CL Kernel: " <<  kernel_str.c_str() << std::endl;
 
@@ -81,18 +70,19 @@ int RectSir::cl_rect_sir(const double *Ro,
   cl_uint ret_num_platforms;
 
   cl_int ret = clGetPlatformIDs(1, &platform_id, &ret_num_platforms);
+  cl_check(ret, "getting the platform");
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  cl_check(ret, "getting the GPU device");
 
   // Create an OpenCL context
-  cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  CLObject<cl_context> context(clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret), clReleaseContext);
+  cl_check(ret, "creating the context");
 
   // Create a command queue
-  cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  CLObject<cl_command_queue> command_queue(clCreateCommandQueue(context, device_id, 0, &ret), clReleaseCommandQueue);
+  cl_check(ret, "creating the command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -100,8 +90,8 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   // Read
 
-  cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  CLObject<cl_mem> Ro_mo(clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the Ro buffer");
   cl_int No_mo = No;
 
   cl_double a_mo = a;
@@ -114,79 +104,77 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   // Write
 
-  cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  CLObject<cl_mem> H_mo(clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the H buffer");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  cl_check(ret, "writing Ro to the device");
 
   //
   // Create a program from the kernel source
   //
 
   const char *k_c_str = kernel_str.c_str();
-  cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  CLObject<cl_program> program(clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret), clReleaseProgram);
+  cl_check(ret, "creating the program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
-
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
-    size_t log_size;
-    clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, 0, NULL, &log_size);
-
-    // Allocate memory for the log
-    char *log = (char *) malloc(log_size);
-
-    // Get the log
-    clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, log_size, log, NULL);
-
-    // Print the log
-    printf("%s\n", log);
-
-    free(log);
+    size_t log_size = 0;
+    if (clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, 0, NULL, &log_size) == CL_SUCCESS) {
+
+      // Get the log
+      std::string log(log_size, '\0');
+      if (log_size > 0 &&
+          clGetProgramBuildInfo(program, device_id, CL_PROGRAM_BUILD_LOG, log_size, &log[0], NULL) == CL_SUCCESS) {
+        std::cout << log.c_str() << std::endl;
+      }
+    }
   }
 
+  cl_check(ret, "building the program");
+
   // Create the OpenCL kernel
-  cl_kernel kernel = clCreateKernel(program, "rect_sir", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  CLObject<cl_kernel> kernel(clCreateKernel(program, "rect_sir", &ret), clReleaseKernel);
+  cl_check(ret, "creating the kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &a_mo);
-  if (ret < 0) std::cout << "cl kernel arg a ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg a");
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &b_mo);
-  if (ret < 0) std::cout << "cl kernel arg b ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg b");
 
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg dt");
 
   ret = clSetKernelArg(kernel, 5, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg nt");
 
   ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg delay");
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg v");
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg cp");
 
   ret = clSetKernelArg(kernel, 9, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  cl_check(ret, "setting kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -195,31 +183,14 @@ int RectSir::cl_rect_sir(const double *Ro,
   size_t global_item_size = No; // Process the entire number of observation points
   size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  cl_check(ret, "running the kernel");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), h, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
-
-  //
-  // Clean up
-  //
-
-  ret = clFlush(command_queue);
-  ret = clFinish(command_queue);
-  ret = clReleaseKernel(kernel);
-  ret = clReleaseProgram(program);
-
-  ret = clReleaseMemObject(Ro_mo);
-  ret = clReleaseMemObject(H_mo);
-
-  ret = clReleaseCommandQueue(command_queue);
-  ret = clReleaseContext(context);
-
-  int err = ret;
+  cl_check(ret, "reading H from the device");
 
-  return err;
+  return CL_SUCCESS;
 }
-- 
2.43.0


From dcbda974236b2ac566536e7d34cc116965c8a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 31/59] fix: raise an error when an OpenCL call of das or
 das_uni fails

A failed kernel run or read-back was only printed and the undefined image
was returned; other failures (transfers, kernel arguments) ended in an
uncaught cl::Error.
---
 extra_src/mex_das.cc     | 15 +++++++++----
 extra_src/mex_das_uni.cc | 47 +++++++++++++++++++++++-----------------
 extra_src/oct_das.cc     | 15 +++++++++----
 extra_src/oct_das_uni.cc | 47 +++++++++++++++++++++++-----------------
 include/das.h            |  6 +++--
 include/das_uni.h        |  6 +++--
 opencl/cl_das.cc         | 13 ++++++++---
 opencl/cl_das_uni.cc     | 13 ++++++++---
 8 files changed, 104 insertions(+), 58 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 014c312..c8705b8 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -370,10 +370,17 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
-    } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+    try {
+      if (use_float) { // Single precision
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      } else { // Double precision
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      }
+    }
+
+    catch (const std::runtime_error &std_err) {
+      dream_err_msg(std_err.what());
+      return;
     }
 
   } else { // Otherwise use the cpu
diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 17ac7e7..2011713 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -344,26 +344,33 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
     }
   }
 
-  if (use_float) { // Single precision
-    das_uni_f->cl_das_uni(Yf,
-                          min_t_f, pitch_t_f, max_t_f,
-                          min_r_f, pitch_r_f, max_r_f,
-                          min_Rx_f, dx_f, max_Rx_f,
-                          min_Ry_f, dy_f, max_Ry_f,
-                          min_Rz_f, dz_f, max_Rz_f,
-                          dt_f,
-                          delay_f[0], cp_f,
-                          Im_f);
-  } else { // Double precision
-    das_uni_d->cl_das_uni(Yd,
-                          min_t_d, pitch_t_d, max_t_d,
-                          min_r_d, pitch_r_d, max_r_d,
-                          min_Rx_d, dx_d, max_Rx_d,
-                          min_Ry_d, dy_d, max_Ry_d,
-                          min_Rz_d, dz_d, max_Rz_d,
-                          dt_d,
-                          delay_d[0], cp_d,
-                          Im_d);
+  try {
+    if (use_float) { // Single precision
+      das_uni_f->cl_das_uni(Yf,
+                            min_t_f, pitch_t_f, max_t_f,
+                            min_r_f, pitch_r_f, max_r_f,
+                            min_Rx_f, dx_f, max_Rx_f,
+                            min_Ry_f, dy_f, max_Ry_f,
+                            min_Rz_f, dz_f, max_Rz_f,
+                            dt_f,
+                            delay_f[0], cp_f,
+                            Im_f);
+    } else { // Double precision
+      das_uni_d->cl_das_uni(Yd,
+                            min_t_d, pitch_t_d, max_t_d,
+                            min_r_d, pitch_r_d, max_r_d,
+                            min_Rx_d, dx_d, max_Rx_d,
+                            min_Ry_d, dy_d, max_Ry_d,
+                            min_Rz_d, dz_d, max_Rz_d,
+                            dt_d,
+                            delay_d[0], cp_d,
+                            Im_d);
+    }
+  }
+
+  catch (const std::runtime_error &std_err) {
+    dream_err_msg(std_err.what());
+    return;
   }
 
   return;
diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 451e4f6..88805fe 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -527,10 +527,17 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
-    } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+    try {
+      if (use_float) { // Single precision
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      } else { // Double precision
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      }
+    }
+
+    catch (const std::runtime_error &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
     }
 
   } else { // Otherwise use the cpu
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index f851617..8b219c2 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -463,26 +463,33 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     }
   }
 
-  if (use_float) { // Single precision
-    das_uni_f->cl_das_uni(Yf,
-                          min_t_f, pitch_t_f, max_t_f,
-                          min_r_f, pitch_r_f, max_r_f,
-                          min_Rx_f, dx_f, max_Rx_f,
-                          min_Ry_f, dy_f, max_Ry_f,
-                          min_Rz_f, dz_f, max_Rz_f,
-                          dt_f,
-                          delay_f[0], cp_f,
-                          Im_f);
-  } else { // Double precision
-    das_uni_d->cl_das_uni(Yd,
-                          min_t_d, pitch_t_d, max_t_d,
-                          min_r_d, pitch_r_d, max_r_d,
-                          min_Rx_d, dx_d, max_Rx_d,
-                          min_Ry_d, dy_d, max_Ry_d,
-                          min_Rz_d, dz_d, max_Rz_d,
-                          dt_d,
-                          delay_d[0], cp_d,
-                          Im_d);
+  try {
+    if (use_float) { // Single precision
+      das_uni_f->cl_das_uni(Yf,
+                            min_t_f, pitch_t_f, max_t_f,
+                            min_r_f, pitch_r_f, max_r_f,
+                            min_Rx_f, dx_f, max_Rx_f,
+                            min_Ry_f, dy_f, max_Ry_f,
+                            min_Rz_f, dz_f, max_Rz_f,
+                            dt_f,
+                            delay_f[0], cp_f,
+                            Im_f);
+    } else { // Double precision
+      das_uni_d->cl_das_uni(Yd,
+                            min_t_d, pitch_t_d, max_t_d,
+                            min_r_d, pitch_r_d, max_r_d,
+                            min_Rx_d, dx_d, max_Rx_d,
+                            min_Ry_d, dy_d, max_Ry_d,
+                            min_Rz_d, dz_d, max_Rz_d,
+                            dt_d,
+                            delay_d[0], cp_d,
+                            Im_d);
+    }
+  }
+
+  catch (const std::runtime_error &std_err) {
+    error("%s", std_err.what());
+    return oct_retval;
   }
 
   if (use_float) {
diff --git a/include/das.h b/include/das.h
index c79ad2d..55e273b 100644
--- a/include/das.h
+++ b/include/das.h
@@ -136,6 +136,9 @@ public:
         das_kernel += "/das_double.cl";
       }
       std::ifstream f_kernel(das_kernel);
+      if (!f_kernel) {
+        throw std::runtime_error("Error in das - failed to read the kernel file " + das_kernel + "\n");
+      }
       f_kernel.seekg(0, std::ios::end);
       kernel_str.reserve(f_kernel.tellg());
       f_kernel.seekg(0, std::ios::beg);
@@ -292,8 +295,7 @@ public:
     }
 
     catch (const cl::Error &err) {
-      std::string the_err = "";
-      std::cerr << "Error in das - OpenCL error - Kernel: " << kernel_name << " creation failed: " << err.what();
+      std::string the_err = "Error in das - OpenCL error - Kernel: " + kernel_name + " creation failed: ";
       the_err += err.what();
       the_err += "\n";
       throw std::runtime_error(the_err);
diff --git a/include/das_uni.h b/include/das_uni.h
index 7191f42..612cc7f 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -118,6 +118,9 @@ class DAS_UNI
         das_kernel += "/das_uni_double.cl";
       }
       std::ifstream f_kernel(das_kernel);
+      if (!f_kernel) {
+        throw std::runtime_error("Error in das_uni - failed to read the kernel file " + das_kernel + "\n");
+      }
       f_kernel.seekg(0, std::ios::end);
       kernel_str.reserve(f_kernel.tellg());
       f_kernel.seekg(0, std::ios::beg);
@@ -270,8 +273,7 @@ class DAS_UNI
   }
 
   catch (const cl::Error &err) {
-    std::string the_err = "";
-    std::cerr << "Error in das_uni - OpenCL error - Kernel: " << kernel_name << " creation failed: " << err.what();
+    std::string the_err = "Error in das_uni - OpenCL error - Kernel: " + kernel_name + " creation failed: ";
     the_err += err.what();
     the_err += "\n";
     throw std::runtime_error(the_err);
diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b9d0197..89885b0 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -35,6 +35,7 @@ DAS<T>::DAS(DASType das_type,
             dream_idx_type num_r_elements, // SAFT if num_r_elements = 0;
             bool use_gpu,
             bool verbose)
+try
   : m_das_type(das_type)
   , m_a_scan_len(a_scan_len)
   , m_No(No)
@@ -50,6 +51,9 @@ DAS<T>::DAS(DASType das_type,
     }
   }
 }
+catch (const cl::Error &err) {
+  throw std::runtime_error(std::string("Error in das - OpenCL error: ") + err.what() + "\n");
+}
 
 /***
  *
@@ -67,7 +71,7 @@ int DAS<T>::cl_das(const T *Y, // Data
                    T delay,
                    T cp,
                    T *Im)
-{
+try {
 
   //
   // Transfer input vector/matrix args to their respective memory buffers
@@ -138,7 +142,7 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "OpenCL kernel run failed: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das - OpenCL kernel run failed: ") + err.what() + "\n");
   }
 
   //
@@ -150,13 +154,16 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "Failed to get results buffer from GPU: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das - Failed to get results buffer from GPU: ") + err.what() + "\n");
   }
 
   int retval = 0;
 
   return retval;
 }
+catch (const cl::Error &err) {
+  throw std::runtime_error(std::string("Error in das - OpenCL error: ") + err.what() + "\n");
+}
 
 // https://bytefreaks.net/programming-2/c/c-undefined-reference-to-templated-class-function
 
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 1074874..2dc2953 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -38,6 +38,7 @@ DAS_UNI<T>::DAS_UNI(DASType das_type,
                     T min_Rz, T dz, T max_Rz,
                     unsigned char *cl_kernel_str,
                     unsigned int cl_kernel_str_len)
+try
   : m_das_type(das_type)
   , m_a_scan_len(a_scan_len)
   , m_out_err(ErrorLevel::none)
@@ -58,6 +59,9 @@ DAS_UNI<T>::DAS_UNI(DASType das_type,
                 __das_uni_double_cl, __das_uni_double_cl_len);
   }
 }
+catch (const cl::Error &err) {
+  throw std::runtime_error(std::string("Error in das_uni - OpenCL error: ") + err.what() + "\n");
+}
 
 /***
  *
@@ -77,7 +81,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
                            T delay,
                            T cp,
                            T *Im)
-{
+try {
 
   //
   // Transfer input data to the memory buffer
@@ -165,7 +169,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "OpenCL kernel run failed: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das_uni - OpenCL kernel run failed: ") + err.what() + "\n");
   }
 
   //
@@ -177,13 +181,16 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "Failed to get results buffer from GPU: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das_uni - Failed to get results buffer from GPU: ") + err.what() + "\n");
   }
 
   int retval = 0;
 
   return retval;
 }
+catch (const cl::Error &err) {
+  throw std::runtime_error(std::string("Error in das_uni - OpenCL error: ") + err.what() + "\n");
+}
 
 // Support doubles and floats
 template class DAS_UNI<double>;
-- 
2.43.0


From a3795a12cce51be0fb9e4f7331cd6219c92654e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 32/59] fix: run the OpenCL kernels for any number of
 observation points

The fixed work-group size of 64 made OpenCL 1.2 devices reject every number
of observation points that is not a multiple of 64.
---
 opencl/cl_das.cc       | 4 ++--
 opencl/cl_das_uni.cc   | 4 ++--
 opencl/cl_dreamcirc.cc | 4 ++--
 opencl/cl_dreamrect.cc | 4 ++--
 opencl/cl_rect_sir.cc  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index 89885b0..a85a3d6 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -136,9 +136,9 @@ try {
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
   try {
-    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
+    // Let OpenCL select the work group size (a fixed one must divide m_No).
+    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, cl::NullRange);
   }
 
   catch (const cl::Error &err) {
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 2dc2953..de9aa80 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -163,9 +163,9 @@ try {
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
   try {
-    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
+    // Let OpenCL select the work group size (a fixed one must divide m_No).
+    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, cl::NullRange);
   }
 
   catch (const cl::Error &err) {
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index 9ad9f31..ac01e6b 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -190,8 +190,8 @@ int Circ::cl_dreamcirc(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  // Let OpenCL select the work group size (a fixed one must divide No).
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   cl_check(ret, "running the kernel");
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 97873fb..ae6bef6 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -194,8 +194,8 @@ int Rect::cl_dreamrect(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  // Let OpenCL select the work group size (a fixed one must divide No).
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   cl_check(ret, "running the kernel");
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8048d7a..2e67665 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -181,8 +181,8 @@ int RectSir::cl_rect_sir(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  // Let OpenCL select the work group size (a fixed one must divide No).
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   cl_check(ret, "running the kernel");
 
   //
-- 
2.43.0


From f3462466990753be737dc7c89469b672d9a2aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 33/59] fix: double precision square roots in the double
 precision OpenCL kernels

native_sqrt is only defined for single precision, so the travel times lost
their double precision (and have an implementation defined accuracy).
---
 opencl/das_double.cl     | 14 +++++++-------
 opencl/das_uni_double.cl | 18 +++++++++---------
 opencl/rect_sir.cl       | 10 +++++-----
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index b7daf59..907c968 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -34,7 +34,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
     DAS_DATATYPE gx_tr = G[n_tr] - xo;
     DAS_DATATYPE gy_tr = G[n_tr + 1*num_elements] - yo;
     DAS_DATATYPE gz_tr = G[n_tr + 2*num_elements] - zo;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -81,7 +81,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
     DAS_DATATYPE gx_t = Gt[n_t] - xo;
     DAS_DATATYPE gy_t = Gt[n_t + 1*num_t_elements] - yo;
     DAS_DATATYPE gz_t = Gt[n_t + 2*num_t_elements] - zo;
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -90,7 +90,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
       DAS_DATATYPE gx_r = Gr[n_r] - xo;
       DAS_DATATYPE gy_r = Gr[n_r + 1*num_r_elements] - yo;
       DAS_DATATYPE gz_r = Gr[n_r + 2*num_r_elements] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -152,7 +152,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
     }
     DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
     t_c += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_rows; n_r++) {
@@ -170,7 +170,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
       DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
       DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -232,7 +232,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
     }
     DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
     DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
     for (int n_c=0; n_c<num_cols; n_c++) {
 
@@ -249,7 +249,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
         }
       }
       DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
       t_c += delay_ms;            // Compensate for pulse system delay.
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 91d622e..99cf192 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -59,7 +59,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     DAS_DATATYPE gx_tr = x_tr - xo;
     //DAS_DATATYPE gy_tr = yo; // Assume y_tr = 0.0;
     //DAS_DATATYPE gz_tr = zo; // Assume z_tr = 0.0;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -136,8 +136,8 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     DAS_DATATYPE gx_t = xt - xo;
     //DAS_DATATYPE gy_t = yo; // Assume yt = 0.0;
     //DAS_DATATYPE gz_t = zo; // Assume zt = 0.0;
-    //DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + yo*yo + zo*zo) * one_over_cp; // [ms].
+    //DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + yo*yo + zo*zo) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -147,8 +147,8 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
       DAS_DATATYPE gx_r = xr - xo;
       //DAS_DATATYPE gy_r = yo;  // Assume yr = 0.0;
       //DAS_DATATYPE gz_r = zo;  // Assume zt = 0.0;
-      //DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + yo*yo + zo*zo) * one_over_cp; // [ms].
+      //DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + yo*yo + zo*zo) * one_over_cp; // [ms].
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -242,7 +242,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
     }
 
     //DAS_DATATYPE gz_c = zo; // Assume zc = 0.0;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
 
     t_c += delay_ms;            // Compensate for pulse system delay.
 
@@ -262,7 +262,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
       DAS_DATATYPE yr = min_r + ((DAS_DATATYPE) n_r)*pitch_r;
       DAS_DATATYPE gy_r = yr - yo;
       //DAS_DATATYPE gz_r = zo; // Assume zr = 0.0;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -355,7 +355,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
     DAS_DATATYPE yr = min_r + ((DAS_DATATYPE) n_r)*pitch_r;
     DAS_DATATYPE gy_r = yr - yo;
     //DAS_DATATYPE gz_r = zo; // Assume zr = 0.0;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
 
     t_r += delay_ms;            // Compensate for pulse system delay.
 
@@ -376,7 +376,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
       }
 
       //DAS_DATATYPE gz_c = zo; // Assume zc = 0.0;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 0c4de03..ae535a4 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -167,9 +167,9 @@ __kernel void rect_sir(__global const double *Ro,
     t_z = zo / cp;
 
     tau_1 = t_z;
-    tau_2 = native_sqrt(zo*zo + s_k*s_k) / cp;
-    tau_3 = native_sqrt(zo*zo + l_k*l_k) / cp;
-    tau_4 = native_sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
+    tau_2 = sqrt(zo*zo + s_k*s_k) / cp;
+    tau_3 = sqrt(zo*zo + l_k*l_k) / cp;
+    tau_4 = sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
 
     for (it=0; it<nt; it++) {
 
@@ -181,11 +181,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( fmin(1.0, s_k / (cp * native_sqrt(t*t - t_z*t_z))));
+        a_k -= cp_2pi * acos( fmin(1.0, s_k / (cp * sqrt(t*t - t_z*t_z))));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( fmin(1.0, l_k / (cp * native_sqrt(t*t - t_z*t_z))));
+        a_k -= cp_2pi * acos( fmin(1.0, l_k / (cp * sqrt(t*t - t_z*t_z))));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From 6c4c6fa263350af7d3f70d5519137e7becb5077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 34/59] fix: dreamrect and dreamcirc do not ignore the
 attenuation on the GPU

The OpenCL kernels have no attenuation; use the CPU when it is asked for.
---
 oct/oct_dreamcirc.cc | 8 ++++++++
 oct/oct_dreamrect.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index c0b2797..7494378 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <limits>
 
 #include "dreamcirc.h"
 #include "signal_guard.h"
@@ -232,6 +233,13 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
+  // The OpenCL kernel does not support attenuation.
+  if (device == "gpu" && alpha > std::numeric_limits<double>::epsilon()) {
+    std::cout << "Warning: Attenuation is not supported on the GPU!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
+
   // Check if we should use the GPU
   if (device == "gpu") {
 
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index aa42259..c3e44cc 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <limits>
 
 #include "dreamrect.h"
 #include "signal_guard.h"
@@ -235,6 +236,13 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
+  // The OpenCL kernel does not support attenuation.
+  if (device == "gpu" && alpha > std::numeric_limits<double>::epsilon()) {
+    std::cout << "Warning: Attenuation is not supported on the GPU!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
+
   // Check if we should use the GPU
   if (device == "gpu") {
     try {
-- 
2.43.0


From d7c826be43a8d380cce1b25d0cc8fbf35ee47071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 35/59] fix: use each observation point's own delay on the GPU

With one delay per observation point the OpenCL versions used the first
delay for all points.
---
 extra_src/mex_das.cc      |  4 ++--
 extra_src/mex_das_uni.cc  |  4 ++--
 extra_src/oct_das.cc      |  4 ++--
 extra_src/oct_das_uni.cc  |  4 ++--
 extra_src/oct_rect_sir.cc |  2 +-
 include/das.h             |  2 +-
 include/das_uni.h         |  2 +-
 include/dreamcirc.h       |  3 ++-
 include/dreamrect.h       |  3 ++-
 include/rect_sir.h        |  3 ++-
 julia/include/jl_das.hpp  |  2 +-
 oct/oct_dreamcirc.cc      |  2 +-
 oct/oct_dreamrect.cc      |  2 +-
 opencl/cl_das.cc          | 10 ++++++++--
 opencl/cl_das_uni.cc      | 10 ++++++++--
 opencl/cl_dreamcirc.cc    | 20 ++++++++++++++------
 opencl/cl_dreamrect.cc    | 20 ++++++++++++++------
 opencl/cl_rect_sir.cc     | 20 ++++++++++++++------
 opencl/das_double.cl      | 16 ++++++++--------
 opencl/das_float.cl       | 16 ++++++++--------
 opencl/das_uni_double.cl  | 16 ++++++++--------
 opencl/das_uni_float.cl   | 16 ++++++++--------
 opencl/dreamcirc.cl       |  4 +++-
 opencl/dreamrect.cl       |  4 +++-
 opencl/rect_sir.cl        |  4 +++-
 python/include/py_das.hpp |  2 +-
 26 files changed, 120 insertions(+), 75 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index c8705b8..220eabd 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -372,9 +372,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     try {
       if (use_float) { // Single precision
-        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f, delay_type == DelayType::multiple ? No : 1, cp_f, Im_f);
       } else { // Double precision
-        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d, delay_type == DelayType::multiple ? No : 1, cp_d, Im_d);
       }
     }
 
diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 2011713..f39d19c 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -353,7 +353,7 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
                             min_Ry_f, dy_f, max_Ry_f,
                             min_Rz_f, dz_f, max_Rz_f,
                             dt_f,
-                            delay_f[0], cp_f,
+                            delay_f, (dream_idx_type) (mxGetM(prhs[5])*mxGetN(prhs[5])), cp_f,
                             Im_f);
     } else { // Double precision
       das_uni_d->cl_das_uni(Yd,
@@ -363,7 +363,7 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
                             min_Ry_d, dy_d, max_Ry_d,
                             min_Rz_d, dz_d, max_Rz_d,
                             dt_d,
-                            delay_d[0], cp_d,
+                            delay_d, (dream_idx_type) (mxGetM(prhs[5])*mxGetN(prhs[5])), cp_d,
                             Im_d);
     }
   }
diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 88805fe..3200a36 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -529,9 +529,9 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
     try {
       if (use_float) { // Single precision
-        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f, delay_type == DelayType::multiple ? No : 1, cp_f, Im_f);
       } else { // Double precision
-        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d, delay_type == DelayType::multiple ? No : 1, cp_d, Im_d);
       }
     }
 
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 8b219c2..444327a 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -472,7 +472,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                             min_Ry_f, dy_f, max_Ry_f,
                             min_Rz_f, dz_f, max_Rz_f,
                             dt_f,
-                            delay_f[0], cp_f,
+                            delay_f, (dream_idx_type) mxGetM(5)*mxGetN(5), cp_f,
                             Im_f);
     } else { // Double precision
       das_uni_d->cl_das_uni(Yd,
@@ -482,7 +482,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                             min_Ry_d, dy_d, max_Ry_d,
                             min_Rz_d, dz_d, max_Rz_d,
                             dt_d,
-                            delay_d[0], cp_d,
+                            delay_d, (dream_idx_type) mxGetM(5)*mxGetN(5), cp_d,
                             Im_d);
     }
   }
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index e1b4395..1476e05 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -236,7 +236,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 #ifdef USE_OPENCL
   if (device == "gpu") {
     try {
-      rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+      rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay, delay_type == DelayType::multiple ? (int) No : 1, v, cp, h);
     }
 
     catch (const std::runtime_error &std_err) {
diff --git a/include/das.h b/include/das.h
index 55e273b..44ccf93 100644
--- a/include/das.h
+++ b/include/das.h
@@ -390,7 +390,7 @@ public:
              const T *gt,
              const T *gr,
              T dt,
-             T delay,
+             const T *delay, dream_idx_type num_delays,
              T cp,
              T *Im);
 #endif
diff --git a/include/das_uni.h b/include/das_uni.h
index 612cc7f..f3097e3 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -361,7 +361,7 @@ class DAS_UNI
                  T min_Ry, T dy, T max_Ry,
                  T min_Rz, T dz, T max_Rz,
                  T dt,
-                 T delay,
+                 const T *delay, dream_idx_type num_delays,
                  T cp,
                  T *Im);
 
diff --git a/include/dreamcirc.h b/include/dreamcirc.h
index e6f2a07..80eda4a 100644
--- a/include/dreamcirc.h
+++ b/include/dreamcirc.h
@@ -49,7 +49,8 @@ class Circ
                    double R,
                    double dx, double dy, double dt,
                    int nt,
-                   double delay,
+                   const double *delay,
+                   int num_delays,
                    double v, double cp,
                    double *H);
 #endif
diff --git a/include/dreamrect.h b/include/dreamrect.h
index bcc5ad2..39493c9 100644
--- a/include/dreamrect.h
+++ b/include/dreamrect.h
@@ -53,7 +53,8 @@ class Rect
                    double dy,
                    double dt,
                    int nt,
-                   double delay,
+                   const double *delay,
+                   int num_delays,
                    double v,
                    double cp,
                    double *h);
diff --git a/include/rect_sir.h b/include/rect_sir.h
index 34f9758..514da4c 100644
--- a/include/rect_sir.h
+++ b/include/rect_sir.h
@@ -53,7 +53,8 @@ ErrorLevel rect_sir(double *Ro, dream_idx_type No,
                   double b,
                   double dt,
                   int nt,
-                  double delay,
+                  const double *delay,
+                  int num_delays,
                   double v,
                   double cp,
                   double *h);
diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index ad474ae..25852f3 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -218,7 +218,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // Check if we should use the GPU
   if (device_str == "gpu") {
 
-    das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
+    das->cl_das(Y, Ro, Gt, Gr, dt, delay, delay_type == DelayType::multiple ? No : 1, cp, Im);
 
   } else { // Otherwise use the cpu
 
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 7494378..cd42d0e 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -244,7 +244,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   if (device == "gpu") {
 
     try {
-      circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+      circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay, delay_type == DelayType::multiple ? (int) No : 1, v, cp, h);
     }
 
     catch (const std::runtime_error &std_err) {
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index c3e44cc..2bd7007 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -246,7 +246,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
     try {
-      rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+      rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay, delay_type == DelayType::multiple ? (int) No : 1, v, cp, h);
     }
 
     catch (const std::runtime_error &std_err) {
diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index a85a3d6..8e69b4a 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -68,7 +68,7 @@ int DAS<T>::cl_das(const T *Y, // Data
                    const T *gt,
                    const T *gr,
                    T dt,
-                   T delay,
+                   const T *delay, dream_idx_type num_delays,
                    T cp,
                    T *Im)
 try {
@@ -84,6 +84,10 @@ try {
   }
   m_queue.enqueueWriteBuffer(m_cl_buf_Ro, CL_TRUE, 0, m_buflen_Ro, Ro);
 
+  // Scalar delay or one delay for each observation point (checked by the kernels).
+  cl::Buffer cl_buf_delay(m_queue.getInfo<CL_QUEUE_CONTEXT>(), CL_MEM_READ_ONLY, num_delays*sizeof(T));
+  m_queue.enqueueWriteBuffer(cl_buf_delay, CL_TRUE, 0, num_delays*sizeof(T), delay);
+
   //
   // Set the arguments of the kernel
   //
@@ -121,7 +125,9 @@ try {
 
   // delay
   arg_idx++;
-  m_kernel.setArg(arg_idx, delay);
+  m_kernel.setArg(arg_idx, cl_buf_delay);
+  arg_idx++;
+  m_kernel.setArg(arg_idx, (int) num_delays);
 
   // cp
   arg_idx++;
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index de9aa80..405bf98 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -78,7 +78,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
                            T min_Ry, T dy, T max_Ry,
                            T min_Rz, T dz, T max_Rz,
                            T dt,
-                           T delay,
+                           const T *delay, dream_idx_type num_delays,
                            T cp,
                            T *Im)
 try {
@@ -89,6 +89,10 @@ try {
 
   m_queue.enqueueWriteBuffer(m_cl_buf_Y, CL_TRUE, 0, m_buflen_Y, Y);
 
+  // Scalar delay or one delay for each observation point (checked by the kernels).
+  cl::Buffer cl_buf_delay(m_queue.getInfo<CL_QUEUE_CONTEXT>(), CL_MEM_READ_ONLY, num_delays*sizeof(T));
+  m_queue.enqueueWriteBuffer(cl_buf_delay, CL_TRUE, 0, num_delays*sizeof(T), delay);
+
   //
   // Set the arguments of the kernel
   //
@@ -148,7 +152,9 @@ try {
 
   // delay
   arg_idx++;
-  m_kernel.setArg(arg_idx, delay);
+  m_kernel.setArg(arg_idx, cl_buf_delay);
+  arg_idx++;
+  m_kernel.setArg(arg_idx, (int) num_delays);
 
   // cp
   arg_idx++;
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index ac01e6b..2cb110c 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -42,7 +42,8 @@ int Circ::cl_dreamcirc(const double *Ro,
                        double dy,
                        double dt,
                        int nt,
-                       double delay,
+                       const double *delay,
+                       int num_delays,
                        double v,
                        double cp,
                        double *H)
@@ -105,7 +106,9 @@ int Circ::cl_dreamcirc(const double *Ro,
   cl_double dy_mo = dy;
   cl_double dt_mo = dt;
   cl_int nt_mo = nt;
-  cl_double delay_mo = delay;
+  CLObject<cl_mem> delay_mo(clCreateBuffer(context, CL_MEM_READ_ONLY, num_delays*sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the delay buffer");
+  cl_int num_delays_mo = num_delays;
   cl_double v_mo = v;
   cl_double cp_mo = cp;
 
@@ -121,6 +124,9 @@ int Circ::cl_dreamcirc(const double *Ro,
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
   cl_check(ret, "writing Ro to the device");
 
+  ret = clEnqueueWriteBuffer(command_queue, delay_mo, CL_TRUE, 0, num_delays*sizeof(double), delay,  0, NULL, NULL);
+  cl_check(ret, "writing delay to the device");
+
   //
   // Create a program from the kernel source
   //
@@ -175,14 +181,16 @@ int Circ::cl_dreamcirc(const double *Ro,
   ret = clSetKernelArg(kernel, 6, sizeof(cl_int), (void *) &nt_mo);
   cl_check(ret, "setting kernel arg nt");
 
-  ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &delay_mo);
+  ret = clSetKernelArg(kernel, 7, sizeof(cl_mem), (void *) &delay_mo);
   cl_check(ret, "setting kernel arg delay");
-  ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &v_mo);
+  ret = clSetKernelArg(kernel, 8, sizeof(cl_int), (void *) &num_delays_mo);
+  cl_check(ret, "setting kernel arg num_delays");
+  ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &v_mo);
   cl_check(ret, "setting kernel arg v");
-  ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &cp_mo);
+  ret = clSetKernelArg(kernel, 10, sizeof(cl_double), (void *) &cp_mo);
   cl_check(ret, "setting kernel arg cp");
 
-  ret = clSetKernelArg(kernel, 10, sizeof(cl_mem), (void *) &H_mo);
+  ret = clSetKernelArg(kernel, 11, sizeof(cl_mem), (void *) &H_mo);
   cl_check(ret, "setting kernel arg H");
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index ae6bef6..b2ee907 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -43,7 +43,8 @@ int Rect::cl_dreamrect(const double *Ro,
                        double dy,
                        double dt,
                        int nt,
-                       double delay,
+                       const double *delay,
+                       int num_delays,
                        double v,
                        double cp,
                        double *H)
@@ -107,7 +108,9 @@ int Rect::cl_dreamrect(const double *Ro,
   cl_double dy_mo = dy;
   cl_double dt_mo = dt;
   cl_int nt_mo = nt;
-  cl_double delay_mo = delay;
+  CLObject<cl_mem> delay_mo(clCreateBuffer(context, CL_MEM_READ_ONLY, num_delays*sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the delay buffer");
+  cl_int num_delays_mo = num_delays;
   cl_double v_mo = v;
   cl_double cp_mo = cp;
 
@@ -123,6 +126,9 @@ int Rect::cl_dreamrect(const double *Ro,
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
   cl_check(ret, "writing Ro to the device");
 
+  ret = clEnqueueWriteBuffer(command_queue, delay_mo, CL_TRUE, 0, num_delays*sizeof(double), delay,  0, NULL, NULL);
+  cl_check(ret, "writing delay to the device");
+
   //
   // Create a program from the kernel source
   //
@@ -179,14 +185,16 @@ int Rect::cl_dreamrect(const double *Ro,
   ret = clSetKernelArg(kernel, 7, sizeof(cl_int), (void *) &nt_mo);
   cl_check(ret, "setting kernel arg nt");
 
-  ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &delay_mo);
+  ret = clSetKernelArg(kernel, 8, sizeof(cl_mem), (void *) &delay_mo);
   cl_check(ret, "setting kernel arg delay");
-  ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &v_mo);
+  ret = clSetKernelArg(kernel, 9, sizeof(cl_int), (void *) &num_delays_mo);
+  cl_check(ret, "setting kernel arg num_delays");
+  ret = clSetKernelArg(kernel, 10, sizeof(cl_double), (void *) &v_mo);
   cl_check(ret, "setting kernel arg v");
-  ret = clSetKernelArg(kernel, 10, sizeof(cl_double), (void *) &cp_mo);
+  ret = clSetKernelArg(kernel, 11, sizeof(cl_double), (void *) &cp_mo);
   cl_check(ret, "setting kernel arg cp");
 
-  ret = clSetKernelArg(kernel, 11, sizeof(cl_mem), (void *) &H_mo);
+  ret = clSetKernelArg(kernel, 12, sizeof(cl_mem), (void *) &H_mo);
   cl_check(ret, "setting kernel arg H");
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 2e67665..7afc577 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -40,7 +40,8 @@ int RectSir::cl_rect_sir(const double *Ro,
                          double b,
                          double dt,
                          int nt,
-                         double delay,
+                         const double *delay,
+                         int num_delays,
                          double v,
                          double cp,
                          double *h)
@@ -98,7 +99,9 @@ int RectSir::cl_rect_sir(const double *Ro,
   cl_double b_mo = b;
   cl_double dt_mo = dt;
   cl_int nt_mo = nt;
-  cl_double delay_mo = delay;
+  CLObject<cl_mem> delay_mo(clCreateBuffer(context, CL_MEM_READ_ONLY, num_delays*sizeof(double), NULL, &ret), clReleaseMemObject);
+  cl_check(ret, "allocating the delay buffer");
+  cl_int num_delays_mo = num_delays;
   cl_double v_mo = v;
   cl_double cp_mo = cp;
 
@@ -114,6 +117,9 @@ int RectSir::cl_rect_sir(const double *Ro,
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
   cl_check(ret, "writing Ro to the device");
 
+  ret = clEnqueueWriteBuffer(command_queue, delay_mo, CL_TRUE, 0, num_delays*sizeof(double), delay,  0, NULL, NULL);
+  cl_check(ret, "writing delay to the device");
+
   //
   // Create a program from the kernel source
   //
@@ -166,14 +172,16 @@ int RectSir::cl_rect_sir(const double *Ro,
   ret = clSetKernelArg(kernel, 5, sizeof(cl_int), (void *) &nt_mo);
   cl_check(ret, "setting kernel arg nt");
 
-  ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &delay_mo);
+  ret = clSetKernelArg(kernel, 6, sizeof(cl_mem), (void *) &delay_mo);
   cl_check(ret, "setting kernel arg delay");
-  ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &v_mo);
+  ret = clSetKernelArg(kernel, 7, sizeof(cl_int), (void *) &num_delays_mo);
+  cl_check(ret, "setting kernel arg num_delays");
+  ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &v_mo);
   cl_check(ret, "setting kernel arg v");
-  ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &cp_mo);
+  ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &cp_mo);
   cl_check(ret, "setting kernel arg cp");
 
-  ret = clSetKernelArg(kernel, 9, sizeof(cl_mem), (void *) &H_mo);
+  ret = clSetKernelArg(kernel, 10, sizeof(cl_mem), (void *) &H_mo);
   cl_check(ret, "setting kernel arg H");
 
   //
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 907c968..02010c5 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -10,7 +10,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
                        __global const DAS_DATATYPE *G, const int num_elements, // Size: num_elements x 3
                        __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                        const DAS_DATATYPE dt,
-                       const DAS_DATATYPE delay,
+                       __global const DAS_DATATYPE *delay, const int num_delays,
                        const DAS_DATATYPE cp,
                        __global DAS_DATATYPE *Im)
 {
@@ -21,7 +21,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
 
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -57,7 +57,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
                       __global const DAS_DATATYPE *Gr, const int num_r_elements, // Size: num_r_elements x 3
                       __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                       const DAS_DATATYPE dt,
-                      const DAS_DATATYPE delay,
+                      __global const DAS_DATATYPE *delay, const int num_delays,
                       const DAS_DATATYPE cp,
                       __global DAS_DATATYPE *Im)
 {
@@ -68,7 +68,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
 
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0; // For double
@@ -113,7 +113,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, const int num_delays,
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -124,7 +124,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
@@ -193,7 +193,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, const int num_delays,
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -204,7 +204,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index 3fc582c..c509890 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -11,7 +11,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
                        __global const DAS_DATATYPE *G, const int num_elements, // Size: num_elements x 3
                        __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                        const DAS_DATATYPE dt,
-                       const DAS_DATATYPE delay,
+                       __global const DAS_DATATYPE *delay, const int num_delays,
                        const DAS_DATATYPE cp,
                        __global DAS_DATATYPE *Im)
 {
@@ -22,7 +22,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
 
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -58,7 +58,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
                       __global const DAS_DATATYPE *Gr, const int num_r_elements, // Size: num_r_elements x 3
                       __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                       const DAS_DATATYPE dt,
-                      const DAS_DATATYPE delay,
+                      __global const DAS_DATATYPE *delay, const int num_delays,
                       const DAS_DATATYPE cp,
                       __global DAS_DATATYPE *Im)
 {
@@ -69,7 +69,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
 
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -114,7 +114,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, const int num_delays,
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -125,7 +125,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
@@ -194,7 +194,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, const int num_delays,
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -205,7 +205,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 99cf192..71f3e6a 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -13,7 +13,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                            DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                            DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                            const DAS_DATATYPE dt,
-                           const DAS_DATATYPE delay,
+                           __global const DAS_DATATYPE *delay, const int num_delays,
                            const DAS_DATATYPE cp,
                            __global DAS_DATATYPE *Im)
 {
@@ -45,7 +45,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -84,7 +84,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                           DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                           DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                           const DAS_DATATYPE dt,
-                          const DAS_DATATYPE delay,
+                          __global const DAS_DATATYPE *delay, const int num_delays,
                           const DAS_DATATYPE cp,
                           __global DAS_DATATYPE *Im)
 {
@@ -122,7 +122,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -174,7 +174,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, const int num_delays,
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -218,7 +218,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -288,7 +288,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, const int num_delays,
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -332,7 +332,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = 1.0/dt*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_uni_float.cl b/opencl/das_uni_float.cl
index 66ad315..afd3775 100644
--- a/opencl/das_uni_float.cl
+++ b/opencl/das_uni_float.cl
@@ -14,7 +14,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                            DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                            DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                            const DAS_DATATYPE dt,
-                           const DAS_DATATYPE delay,
+                           __global const DAS_DATATYPE *delay, const int num_delays,
                            const DAS_DATATYPE cp,
                            __global DAS_DATATYPE *Im)
 {
@@ -46,7 +46,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -85,7 +85,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                           DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                           DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                           const DAS_DATATYPE dt,
-                          const DAS_DATATYPE delay,
+                          __global const DAS_DATATYPE *delay, const int num_delays,
                           const DAS_DATATYPE cp,
                           __global DAS_DATATYPE *Im)
 {
@@ -123,7 +123,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -175,7 +175,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, const int num_delays,
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -219,7 +219,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -289,7 +289,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, const int num_delays,
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -333,7 +333,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[num_delays > 1 ? no : 0]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
diff --git a/opencl/dreamcirc.cl b/opencl/dreamcirc.cl
index 2192bef..c3c8298 100644
--- a/opencl/dreamcirc.cl
+++ b/opencl/dreamcirc.cl
@@ -5,12 +5,14 @@ __kernel void dreamcirc(__global const double *Ro,
                         double dy,
                         double dt,
                         int nt,
-                        double delay,
+                        __global const double *delays,
+                        int num_delays,
                         double v,
                         double cp,
                         __global double *H)
 {
   int no = get_global_id(0);
+  double delay = delays[num_delays > 1 ? no : 0]; // Scalar delay or one per observation point.
   double xo = Ro[no];
   double yo = Ro[no + No*1];
   double zo = Ro[no + No*2];
diff --git a/opencl/dreamrect.cl b/opencl/dreamrect.cl
index 8d311f4..509d263 100644
--- a/opencl/dreamrect.cl
+++ b/opencl/dreamrect.cl
@@ -6,12 +6,14 @@ __kernel void dreamrect(__global const double *Ro,
                         double dy,
                         double dt,
                         int nt,
-                        double delay,
+                        __global const double *delays,
+                        int num_delays,
                         double v,
                         double cp,
                         __global double *H)
 {
   int no = get_global_id(0);
+  double delay = delays[num_delays > 1 ? no : 0]; // Scalar delay or one per observation point.
   double xo = Ro[no];
   double yo = Ro[no + No*1];
   double zo = Ro[no + No*2];
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index ae535a4..800c10f 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -4,12 +4,14 @@ __kernel void rect_sir(__global const double *Ro,
                        double b_i,
                        double dt,
                        int nt,
-                       double delay,
+                       __global const double *delays,
+                       int num_delays,
                        double v,
                        double cp,
                        __global double *H)
 {
   int no = get_global_id(0);
+  double delay = delays[num_delays > 1 ? no : 0]; // Scalar delay or one per observation point.
   double xo = Ro[no];
   double yo = Ro[no + No*1];
   double zo = Ro[no + No*2];
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 97e98ff..eabda90 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -224,7 +224,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Check if we should use the GPU
   if (device_str == "gpu") {
 
-    das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
+    das->cl_das(Y, Ro, Gt, Gr, dt, delay, delay_type == DelayType::multiple ? No : 1, cp, Im);
 
   } else { // Otherwise use the cpu
 
-- 
2.43.0


From be5ce98db79a772269326de816a77b8d3b8b8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 36/59] fix: das_uni keeps its input data alive and checks it

The A-scans and delays were read from matrices that had already been
released, too few A-scans made the transfer to the GPU read past the end of
the data, and a failed initialisation returned nothing instead of an error.
---
 extra_src/oct_das_uni.cc | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 444327a..5324867 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -179,14 +179,18 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
 
   dream_idx_type a_scan_len = mxGetM(0); // A-scan length
 
+  // NB. The matrices must live as long as the data pointers are used.
+  FloatMatrix tmp0f, tmp5f;
+  Matrix tmp0d, tmp5d;
+
   const float *Yf = nullptr;
   const double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -326,10 +330,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -367,6 +371,25 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // There must be one A-scan for each element (SAFT) or for each pair of elements.
+  dream_idx_type num_a_scans = 0;
+  if (use_float) {
+    num_a_scans = (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.0);
+    if (das_type != DASType::saft) {
+      num_a_scans *= (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.0);
+    }
+  } else {
+    num_a_scans = (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.0);
+    if (das_type != DASType::saft) {
+      num_a_scans *= (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.0);
+    }
+  }
+
+  if ((dream_idx_type) mxGetN(0) < num_a_scans) {
+    error("Argument 1 has too few columns (A-scans)!");
+    return oct_retval;
+  }
+
   //
   // Init DAS_UNI and output arg.
   //
@@ -415,7 +438,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
       }
 
       catch (std::runtime_error &err) {
-        std::cout << err.what();
+        error("%s", err.what());
         return oct_retval;
       }
     }
@@ -457,7 +480,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
       }
 
       catch (std::runtime_error &err) {
-        std::cout << err.what();
+        error("%s", err.what());
         return oct_retval;
       }
     }
-- 
2.43.0


From a9dec44ea1d64a6241ca349bf4edfb10ed3829d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 37/59] fix: the Octave functions raise an error for arguments
 they reject

dream_err_msg only printed the message, so the functions returned nothing
without an error. The check of the curvature is moved out of the threads.
---
 julia/src/jl_dream_arr_cylind.cc  |  4 ++++
 julia/src/jl_dreamcylind.cc       |  4 ++++
 mex/mex_dream_arr_cylind.cc       |  4 ++++
 mex/mex_dreamcylind.cc            |  4 ++++
 oct/oct_dream_arr_cylind.cc       |  5 +++++
 oct/oct_dreamcylind.cc            |  5 +++++
 python/src/py_dream_arr_cylind.cc |  4 ++++
 python/src/py_dreamcylind.cc      |  4 ++++
 src/dream_arr_cylind.cc           |  2 +-
 src/dream_error.cc                | 10 +++++++++-
 src/dreamcylind.cc                | 10 +---------
 11 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index 7887996..e9a7ba9 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -73,6 +73,10 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Geometry par error in dream_arr_cylind!");
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    throw std::runtime_error("Error in dream_arr_cylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Grid function (position vectors of the elements).
   //
diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index d64b43e..ca94211 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -65,6 +65,10 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Geometry par error in dreamcylind!");
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    throw std::runtime_error("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Temporal and spatial sampling parameters.
   //
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index 6d3b818..d3f6f60 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -60,6 +60,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double a=0.0, b=0.0, Rcurv=0.0;
   ap.parse_geometry("dream_arr_cylind", prhs, 1, 3, a, b, Rcurv);
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    dream_err_msg("Error in dream_arr_cylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Grid function (position vectors of the elements).
   //
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index 9795813..c04ac02 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -60,6 +60,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double a=0.0, b=0.0, Rcurv=0.0;
   ap.parse_geometry("dreamcylind", prhs, 1, 3, a, b, Rcurv);
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    dream_err_msg("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Temporal and spatial sampling parameters.
   //
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index a7e5944..0da8da4 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -216,6 +216,11 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    dream_err_msg("Error in dream_arr_cylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+    return oct_retval;
+  }
+
   //
   // Grid function (position vectors of the elements).
   //
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 17e6f64..35d0ce9 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -155,6 +155,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    dream_err_msg("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+    return oct_retval;
+  }
+
   //
   // Temporal and spatial sampling parameters.
   //
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 9343498..161f62a 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -80,6 +80,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
     throw std::runtime_error("Error in dream_arr_cylind!");
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    throw std::runtime_error("Error in dream_arr_cylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Grid function (position vectors of the elements).
   //
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index a7aeb19..9f05dca 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -72,6 +72,10 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
     throw std::runtime_error("Error in dreamcylind!");
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    throw std::runtime_error("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Temporal and spatial sampling parameters.
   //
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6143..2259170 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -356,7 +356,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_error.cc b/src/dream_error.cc
index 2eeade6..def37df 100644
--- a/src/dream_error.cc
+++ b/src/dream_error.cc
@@ -27,6 +27,10 @@
 #include <iostream>
 //#endif
 
+#ifdef DREAM_OCTAVE
+#include <octave/oct.h>
+#endif
+
 #ifdef DREAM_MATLAB
 #include "mex.h"
 #endif
@@ -77,10 +81,14 @@ SIRError dream_out_of_bounds_err(const char *msg, dream_idx_type idx, ErrorLevel
 
 void dream_err_msg(const char *msg)
 {
-#if defined(DREAM_OCTAVE) || defined(DREAM_PYTHON) || defined(DREAM_JULIA)
+#if defined(DREAM_PYTHON) || defined(DREAM_JULIA)
   std::cout << msg << std::endl;
 #endif
 
+#ifdef DREAM_OCTAVE
+  error("%s", msg);
+#endif
+
 #ifdef DREAM_MATLAB
   mexErrMsgTxt(msg);
 #endif
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index a07afaa..95acee9 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -192,7 +192,7 @@ SIRError Cylind::dreamcylind(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
@@ -292,10 +292,6 @@ SIRError Cylind::dreamcylind_serial(double xo, double yo, double zo,
   double t, xsmin, xsmax, ai, du, r;
   double phi, phi_min, phi_max;
 
-  if (b > 2.0*std::fabs(Rcurv)) {
-    dream_err_msg("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!\n");
-  }
-
   b /= 2.0;
   double z_Rcurv = std::fabs(Rcurv) - std::sqrt(Rcurv*Rcurv - b*b);
 
@@ -374,10 +370,6 @@ SIRError Cylind::dreamcylind_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x
   double t, xsmin, xsmax, ai, du, r;
   double phi, phi_min, phi_max;
 
-  if (b > 2.0*std::fabs(Rcurv)) {
-    dream_err_msg("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!\n");
-  }
-
   b /= 2.0;
   double z_Rcurv = std::fabs(Rcurv) - std::sqrt(Rcurv*Rcurv - b*b);
 
-- 
2.43.0


From 3174a64ff75edf64507b9466ee13b1e07b212288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 38/59] fix: argument checks that never reported a bad argument

The delay, annular grid, and user defined focusing and apodization checks,
arrays without elements, and non-positive discretization sizes (which never
return).
---
 include/arg_parser.h        | 21 +++++++++++++--------
 include/arg_parser_julia.h  | 12 +++++++++---
 include/arg_parser_python.h | 24 ++++++++++++++----------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 7455fec..068a3d0 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -98,7 +98,7 @@ public:
   bool check_array(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( get_n(args, arg_num) != 3 ) {
+    if ( (get_n(args, arg_num) != 3) || (get_m(args, arg_num) < 1) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -110,7 +110,7 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    if ( ((get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1)) || (get_m(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -196,6 +196,12 @@ public:
       dy = get_data(args, arg_num)[1]; // Spatial y-direction discretization size.
       dt = get_data(args, arg_num)[2]; // Temporal discretization size (= 1/sampling freq).
       nt = (dream_idx_type) get_data(args, arg_num)[3]; // Length of SIR.
+
+      if ( !(dx > 0 && dy > 0 && dt > 0) ) {
+        s << func_name <<  " requires that the discretization sizes (dx, dy, and dt) are positive!";
+        dream_err_msg(s.str().c_str());
+        retval=false;
+      }
     }
 
     return retval;
@@ -239,12 +245,9 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
-        s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    if ( (delay_len != 1) && (delay_len != No) ) { // Not a scalar and a vector with wrong length.
+      s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
@@ -513,6 +516,7 @@ public:
         // Vector of apodization weights.
         if (get_m(args, arg_num+1) * get_n(args, arg_num+1) != num_elements) {
           s << func_name <<  " the length of argument arg " << arg_num+1 << " (apodization vector) must be the same as the number of array elements!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         } else { // Copy the user defined apodization weights.
           double *tmp_apod = get_data(args, arg_num+1);
@@ -520,6 +524,7 @@ public:
             std::memcpy(apod, tmp_apod, num_elements*sizeof(double));
           } else {
             s << func_name << " apodization vector not initialzed!";
+            dream_err_msg(s.str().c_str());
             retval=false;
           }
         }
diff --git a/include/arg_parser_julia.h b/include/arg_parser_julia.h
index fe026ff..e94fd4e 100644
--- a/include/arg_parser_julia.h
+++ b/include/arg_parser_julia.h
@@ -102,7 +102,7 @@ public:
 
     auto G_n = get_n(jl_G);
 
-    if ( G_n != 3 ) {
+    if ( G_n != 3 || get_m(jl_G) < 1 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -216,6 +216,12 @@ public:
       dy = get_data(jl_s_par)[1]; // Spatial y-direction discretization size.
       dt = get_data(jl_s_par)[2]; // Temporal discretization size (= 1/sampling freq).
       nt = (dream_idx_type) get_data(jl_s_par)[3]; // Length of SIR.
+
+      if ( !(dx > 0 && dy > 0 && dt > 0) ) {
+        s << func_name <<  " requires that the discretization sizes (dx, dy, and dt) are positive!";
+        dream_err_msg(s.str().c_str());
+        retval=false;
+      }
     }
 
     return retval;
@@ -267,8 +273,8 @@ public:
 
     //dream_idx_type delay_len = get_m(jl_focal)*get_n(jl_focal);
     dream_idx_type delay_len = get_len(jl_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-      s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
+    if ( (delay_len != 1) && (delay_len != No) ) { // Not a scalar and a vector with wrong length.
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
       s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 03b2e39..50800fb 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -101,7 +101,7 @@ public:
 
     auto G_n = get_n(py_G);
 
-    if ( G_n != 3 ) {
+    if ( G_n != 3 || get_m(py_G) < 1 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -114,8 +114,8 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    if ( ((get_m(py_G) != 1) && (get_n(py_G) != 1)) ||
+         (get_m(py_G)*get_n(py_G) % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -210,6 +210,12 @@ public:
       dy = get_data(py_s_par)[1]; // Spatial y-direction discretization size.
       dt = get_data(py_s_par)[2]; // Temporal discretization size (= 1/sampling freq).
       nt = (dream_idx_type) get_data(py_s_par)[3]; // Length of SIR.
+
+      if ( !(dx > 0 && dy > 0 && dt > 0) ) {
+        s << func_name <<  " requires that the discretization sizes (dx, dy, and dt) are positive!";
+        dream_err_msg(s.str().c_str());
+        retval=false;
+      }
     }
 
     return retval;
@@ -257,13 +263,9 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
-            (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-        s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    if ( (delay_len != 1) && (delay_len != No) ) { // Not a scalar and a vector with wrong length.
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
@@ -352,6 +354,7 @@ public:
       if (get_m(py_focal) * get_n(py_focal) != num_elements) {
         s << func_name <<  " the time delay vector arg for user defined ('ud') focusing\n!";
         s << "delays must have the same length as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_focal = get_data(py_focal);
@@ -504,6 +507,7 @@ public:
       // Vector of apodization weights.
       if (get_m(py_apod) * get_n(py_apod) != num_elements) {
         s << func_name <<  " the length of apodization vector argument must be the same as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_apod = get_data(py_apod);
-- 
2.43.0


From 90244567c1a91678fe54e2f00dc5490226322759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 39/59] fix: dream_apodwin with the 'off' and 'ud' methods

'off' returned uninitialized data and 'ud' used the first weight as the length.
---
 mex/mex_dream_apodwin.cc | 17 +++++++++++++----
 oct/oct_dream_apodwin.cc | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/mex/mex_dream_apodwin.cc b/mex/mex_dream_apodwin.cc
index d501d2b..fb02db6 100644
--- a/mex/mex_dream_apodwin.cc
+++ b/mex/mex_dream_apodwin.cc
@@ -44,7 +44,16 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ap.check_arg_in("dream_apodwin", nrhs, 3, 3);
   ap.check_arg_out("dream_apodwin", nlhs, 0, 1);
 
-  dream_idx_type num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  dream_idx_type num_elements = 0;
+  if (ap.is_string(prhs, 0) && ap.get_string_arg(prhs, 0) == "ud") {
+    num_elements = mxGetNumberOfElements(prhs[1]); // Arg 2 holds the user defined apodization weights.
+  } else if (mxGetNumberOfElements(prhs[1]) > 0) {
+    num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  }
+
+  if (num_elements < 1) {
+    dream_err_msg("dream_apodwin requires that arg 2 must be a positive window length or a non-empty vector of apodization weights!");
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -60,11 +69,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double weight=1.0;
   double ramax = 1.0;
   double ys = 0.0;
-  if (do_apod) {
-    for (dream_idx_type n=0; n<num_elements; n++) {
+  for (dream_idx_type n=0; n<num_elements; n++) {
+    if (do_apod) {
       double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
-      h[n] = weight;
     }
+    h[n] = weight;
   }
 }
diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..dc77d36 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -108,7 +108,17 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   //
 
   const Matrix tmp1 = args(1).matrix_value();
-  dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  dream_idx_type num_elements = 0;
+  if (args(0).is_string() && args(0).string_value() == "ud") {
+    num_elements = tmp1.numel(); // Arg 2 holds the user defined apodization weights.
+  } else if (tmp1.numel() > 0) {
+    num_elements = (dream_idx_type) tmp1.data()[0];
+  }
+
+  if (num_elements < 1) {
+    dream_err_msg("dream_apodwin requires that arg 2 must be a positive window length or a non-empty vector of apodization weights!");
+    return oct_retval;
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -126,12 +136,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   double weight = 1.0;
   double ramax = 1.0;
   double ys = 0.0;
-  if (do_apod) {
-    for (dream_idx_type n=0; n<num_elements; n++) {
+  for (dream_idx_type n=0; n<num_elements; n++) {
+    if (do_apod) {
       double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
-      h[n] = weight;
     }
+    h[n] = weight;
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From 1a58a3383f9a803430eca7c67dab1603b6f44985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 40/59] fix: a DREAM_NUM_THREADS that is not a number does not
 end the program

---
 extra_src/das.cc             | 2 +-
 extra_src/fftconv_p.cc       | 2 +-
 extra_src/mex_circ_sir.cc    | 2 +-
 extra_src/mex_conv_p.cc      | 2 +-
 extra_src/mex_copy_p.cc      | 2 +-
 extra_src/mex_fftconv_ola.cc | 2 +-
 extra_src/mex_fftconv_p.cc   | 2 +-
 extra_src/mex_scirc_sir.cc   | 2 +-
 extra_src/mex_sum_fftconv.cc | 2 +-
 extra_src/oct_add_p.cc       | 2 +-
 extra_src/oct_circ_sir.cc    | 2 +-
 extra_src/oct_conv_p.cc      | 2 +-
 extra_src/oct_copy_p.cc      | 2 +-
 extra_src/oct_fftconv_ola.cc | 2 +-
 extra_src/oct_fftconv_p.cc   | 2 +-
 extra_src/oct_sum_fftconv.cc | 2 +-
 extra_src/rect_sir.cc        | 2 +-
 julia/src/jl_conv_p.cc       | 2 +-
 julia/src/jl_fftconv_p.cc    | 2 +-
 src/dream_arr_annu.cc        | 2 +-
 src/dream_arr_circ.cc        | 2 +-
 src/dream_arr_rect.cc        | 2 +-
 src/dreamcirc.cc             | 2 +-
 src/dreamcirc_f.cc           | 2 +-
 src/dreamline.cc             | 2 +-
 src/dreamrect.cc             | 2 +-
 src/dreamrect_f.cc           | 2 +-
 src/dreamsphere.cc           | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 8ee9281..3490fd9 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -224,7 +224,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 2ed1977..050065f 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -310,7 +310,7 @@ ErrorLevel FFTConvP::run(double *Y,
 
   // Read DREAM_NUM_THREADS env var
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index 9bd827c..ccd44c0 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -228,7 +228,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 756ce4b..d9ce749 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -229,7 +229,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 11b260a..9724a5b 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -202,7 +202,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 7e0a712..1492a69 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -475,7 +475,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index e982699..6d9c7b3 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -365,7 +365,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index d22b974..cbe9921 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -243,7 +243,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 8280b76..c77a5e0 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -303,7 +303,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   nthreads = std::thread::hardware_concurrency();
 
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 9c6232e..f33c4dc 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -262,7 +262,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 6f4a401..1d3d7b6 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -316,7 +316,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 32d1c00..e2286a1 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -269,7 +269,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index f275304..5106abf 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -260,7 +260,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 1b96197..cbc041f 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -586,7 +586,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index e794435..f10f478 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -460,7 +460,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index f2684b9..0a9ba7d 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -412,7 +412,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   nthreads = std::thread::hardware_concurrency();
 
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5278a31..bf35ede 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -162,7 +162,7 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index bffd5d1..fc0e117 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -168,7 +168,7 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index dc17fc9..cd54643 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -218,7 +218,7 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index cc5a0c8..6336f66 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -552,7 +552,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 2ee3e62..d6c8fe6 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -350,7 +350,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 2dafde2..cd910c8 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -353,7 +353,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 57c6ae4..9a5c535 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -195,7 +195,7 @@ SIRError Circ::dreamcirc(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index 895db1a..e381039 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -194,7 +194,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 7af1964..d130ce9 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -180,7 +180,7 @@ SIRError Line::dreamline(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 5ab9a0c..8b4b9e4 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -191,7 +191,7 @@ SIRError Rect::dreamrect(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 30b85d2..2f56c79 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -193,7 +193,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 9c53d36..5cc7a5c 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -190,7 +190,7 @@ SIRError Sphere::dreamsphere(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
-- 
2.43.0


From 5519180ec639be57d69a5d9470ba99beb6f27e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 41/59] fix: empty operands and unchecked arguments

fftconv_p, fftconv_ola, and sum_fftconv wrote outside their buffers and das
read outside its arguments when an operand was empty. conv_p ignored a 4th
argument of the wrong type and requested outputs.
---
 extra_src/mex_conv_p.cc         | 10 ++++++++++
 extra_src/mex_das.cc            |  2 +-
 extra_src/mex_fftconv_ola.cc    |  4 ++++
 extra_src/mex_fftconv_p.cc      |  4 ++++
 extra_src/mex_sum_fftconv.cc    |  4 ++++
 extra_src/oct_conv_p.cc         | 13 +++++++++++++
 extra_src/oct_das.cc            |  2 +-
 extra_src/oct_fftconv_ola.cc    |  5 +++++
 extra_src/oct_fftconv_p.cc      |  5 +++++
 extra_src/oct_sum_fftconv.cc    |  5 +++++
 julia/src/jl_conv_p.cc          |  4 ++++
 julia/src/jl_fftconv_p.cc       |  4 ++++
 python/include/py_das.hpp       |  2 +-
 python/include/py_fftconv_p.hpp |  4 ++++
 14 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index d9ce749..329740e 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -164,6 +164,10 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
 
   case 4:
+    if (nlhs > 0) {
+      dream_err_msg("No output arguments required for conv_p in in-place operating mode!");
+    }
+
     if (mxIsChar(prhs[3])) { // 4th arg is a mode string.
 
       char *str = mxArrayToString(prhs[3]);
@@ -195,6 +199,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       if (is_set == false) {
         dream_err_msg("Non-valid string in arg 4!");
       }
+    } else {
+      dream_err_msg("Argument 4 must be a string!");
     }
     break;
 
@@ -220,6 +226,10 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    dream_err_msg("Arguments 1 and 2 must have at least one row!");
+  }
+
   //
   // Number of threads.
   //
diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 220eabd..ec6da45 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -98,7 +98,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Transmit array
   //
 
-  if (mxGetN(prhs[1]) != 3) {
+  if (mxGetN(prhs[1]) != 3 || mxGetM(prhs[1]) < 1) {
     dream_err_msg("Argument 2 must be a (num transmit elements) x 3 matrix!");
   }
 
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 1492a69..da76f3b 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -345,6 +345,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    dream_err_msg("Arguments 1 and 2 must have at least one row!");
+  }
+
   // The segment length (block length).
 
   if (mxGetM(prhs[2])*mxGetN(prhs[2]) != 1) {
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index 6d9c7b3..8ace0bc 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -252,6 +252,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    dream_err_msg("Arguments 1 and 2 must have at least one row!");
+  }
+
   fft_len = A_M+B_M-1;
 
   // NB We call the FFTW planners only from the main thread once
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index c77a5e0..6915489 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -228,6 +228,10 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("3rd dimension of arg 1 must match the number of columns in arg 2\n");
   }
 
+  if (H_M < 1 || U_M < 1) {
+    dream_err_msg("Arguments 1 and 2 must have at least one row!");
+  }
+
   if (U_M == 1 || U_N == 1 ) { // U is a vector.
     U_M = U_M*U_N;
     U_N = 1;
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index e2286a1..54107a4 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -200,6 +200,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 4:
+    if (nlhs > 0) {
+      dream_err_msg("No output arguments required for conv_p in in-place operating mode!");
+      return oct_retval;
+    }
+
     if ( args(3).is_string() ) { // 4:th arg is a string '=', '+=', or '-='.
 
       std::string ip_mode = args(3).string_value();
@@ -230,6 +235,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         dream_err_msg("Non-valid string in arg 4!");
         return oct_retval;
       }
+    } else {
+      dream_err_msg("Argument 4 must be a string!");
+      return oct_retval;
     }
     break;
 
@@ -260,6 +268,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Arguments 1 and 2 must have at least one row!");
+    return oct_retval;
+  }
+
   //
   // Number of threads.
   //
diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 3200a36..c87f17b 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -221,7 +221,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Transmit array
   //
 
-  if (mxGetN(1) != 3) {
+  if (mxGetN(1) != 3 || mxGetM(1) < 1) {
     error("Argument 2 must be a (num transmit elements) x 3 matrix!");
     return oct_retval;
   }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index cbc041f..b74ac7a 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -422,6 +422,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Arguments 1 and 2 must have at least one row!");
+    return oct_retval;
+  }
+
 
   // The segment length (block length).
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index f10f478..e293825 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -313,6 +313,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Arguments 1 and 2 must have at least one row!");
+    return oct_retval;
+  }
+
   fft_len = A_M+B_M-1;
 
   //std::mutex fft_mutex;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 0a9ba7d..083a0ee 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -341,6 +341,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (H_M < 1 || U_M < 1) {
+    dream_err_msg("Arguments 1 and 2 must have at least one row!");
+    return oct_retval;
+  }
+
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index fc0e117..f03f8b8 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -159,6 +159,10 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    throw std::runtime_error("Arguments 1 and 2 must have at least one row!");
+  }
+
   //
   // Number of threads.
   //
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index cd54643..5a1ef2f 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -209,6 +209,10 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    throw std::runtime_error("Arguments 1 and 2 must have at least one row!");
+  }
+
   //
   // Number of threads.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index eabda90..711031f 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -59,7 +59,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Transmit array
   //
 
-  if (ap.get_n(py_Gt) != 3) {
+  if (ap.get_n(py_Gt) != 3 || ap.get_m(py_Gt) < 1) {
     throw std::runtime_error("Argument 2 must be a (num transmit elements) x 3 matrix!");
   }
 
diff --git a/python/include/py_fftconv_p.hpp b/python/include/py_fftconv_p.hpp
index 7fe3cce..148051b 100644
--- a/python/include/py_fftconv_p.hpp
+++ b/python/include/py_fftconv_p.hpp
@@ -68,6 +68,10 @@ py::array_t<T,py::array::f_style> py_fftconv_p(py::array_t<T,py::array::f_style>
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    throw std::runtime_error("Arguments 1 and 2 must have at least one row!");
+  }
+
   FFTConvP fftconvp;
 
   //
-- 
2.43.0


From 7e25e15d8d35b2b8bf23a10092719c0b3024b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 42/59] fix: an allocation failure in a worker thread does not
 end the program

---
 extra_src/fftconv_p.cc       | 12 +++++++++++-
 extra_src/oct_fftconv_ola.cc | 12 +++++++++++-
 extra_src/oct_fftconv_p.cc   | 12 +++++++++++-
 extra_src/oct_sum_fftconv.cc | 12 +++++++++++-
 include/joining_threads.h    | 34 ++++++++++++++++++++++++++++++++++
 src/dream_arr_annu.cc        | 12 +++++++++++-
 src/dream_arr_circ.cc        | 12 +++++++++++-
 src/dream_arr_cylind.cc      | 12 +++++++++++-
 src/dream_arr_rect.cc        | 12 +++++++++++-
 src/dreamcirc.cc             | 12 +++++++++++-
 src/dreamcirc_f.cc           | 12 +++++++++++-
 src/dreamcylind.cc           | 12 +++++++++++-
 src/dreamline.cc             | 12 +++++++++++-
 src/dreamrect.cc             | 12 +++++++++++-
 src/dreamrect_f.cc           | 12 +++++++++++-
 src/dreamsphere.cc           | 12 +++++++++++-
 16 files changed, 199 insertions(+), 15 deletions(-)

diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 050065f..25bfb95 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -69,6 +69,7 @@ typedef struct
   double *Y;
   FFT *fft;
   ConvMode conv_mode;
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -78,7 +79,7 @@ typedef struct
  ***/
 
 void* FFTConvP::smp_dream_fftconv(void *arg)
-{
+try {
   DATA D = *(DATA*) arg;
   dream_idx_type col_start=D.col_start, col_stop=D.col_stop, n;
   const double *A = D.A, *B = D.B;
@@ -147,6 +148,11 @@ void* FFTConvP::smp_dream_fftconv(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running_conv = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -351,6 +357,7 @@ ErrorLevel FFTConvP::run(double *Y,
   }
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
   if (!threads) {
@@ -374,6 +381,7 @@ ErrorLevel FFTConvP::run(double *Y,
     D[thread_n].Y = Y;
     D[thread_n].fft = &fft;
     D[thread_n].conv_mode = conv_mode;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -397,6 +405,8 @@ ErrorLevel FFTConvP::run(double *Y,
     }
   }
 
+  exception.rethrow();
+
   // FIXME: Return the FFTW Wisdom so that the plans can be re-used.
   /*
   if (return_wisdom) {
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index b74ac7a..42f22df 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -66,6 +66,7 @@ typedef struct
   double *Y;
   FFT *fft;
   ConvMode conv_mode;
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 typedef void (*sighandler_t)(int);
@@ -86,7 +87,7 @@ void sig_keyint_handler(int signum);
  ***/
 
 void* smp_dream_fftconv_ola(void *arg)
-{
+try {
   DATA D = *(DATA *)arg;
   dream_idx_type col_start=D.col_start, col_stop=D.col_stop;
   double *A = D.A, *B = D.B;
@@ -273,6 +274,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -669,6 +675,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   }
 
   // Init thread data.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads);
   threads = threads_buf.get();
   if (!threads) {
@@ -704,6 +711,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     D[thread_n].Y = Y;
     D[thread_n].fft = &fft;
     D[thread_n].conv_mode = conv_mode;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -730,6 +738,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     }
   }
 
+  exception.rethrow();
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index e293825..5d799c1 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -70,6 +70,7 @@ typedef struct
   double *Y;
   FFT *fft;
   ConvMode conv_mode;
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 typedef void (*sighandler_t)(int);
@@ -90,7 +91,7 @@ void sig_keyint_handler(int signum);
  ***/
 
 void* smp_dream_fftconv(void *arg)
-{
+try {
   DATA D = *(DATA*) arg;
   dream_idx_type col_start=D.col_start, col_stop=D.col_stop, n;
   double *A = D.A, *B = D.B, *Y = D.Y;
@@ -168,6 +169,11 @@ void* smp_dream_fftconv(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -550,6 +556,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
   if (!threads) {
@@ -574,6 +581,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     D[thread_n].Y = Y;
     D[thread_n].fft = &fft;
     D[thread_n].conv_mode = conv_mode;
+    D[thread_n].exception = &exception;
 
 #ifdef DEBUG
     {
@@ -606,6 +614,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
+  exception.rethrow();
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 083a0ee..a3fb61b 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -66,6 +66,7 @@ typedef struct
   double *Y;
   FFT *fft;
   ConvMode conv_mode;
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 typedef void (*sighandler_t)(int);
@@ -86,7 +87,7 @@ void sig_keyint_handler(int signum);
  ***/
 
 void* smp_dream_sum_fftconv(void *arg)
-{
+try {
   DATA D = *(DATA *)arg;
   dream_idx_type col_start=D.col_start, col_stop=D.col_stop, n;
   double **H = D.H, *U = D.U, *Y = D.Y;
@@ -133,6 +134,11 @@ void* smp_dream_sum_fftconv(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -505,6 +511,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
   if (!threads) {
@@ -530,6 +537,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     D[thread_n].L = H_L;
     D[thread_n].fft = &fft;
     D[thread_n].conv_mode = conv_mode;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -552,6 +560,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
+  exception.rethrow();
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/include/joining_threads.h b/include/joining_threads.h
index 675563c..ffa925e 100644
--- a/include/joining_threads.h
+++ b/include/joining_threads.h
@@ -23,7 +23,9 @@
 
 #pragma once
 
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 /***
@@ -61,3 +63,35 @@ class JoiningThreads
   size_t m_nthreads;
   std::unique_ptr<std::thread[]> m_threads;
 };
+
+/***
+ *
+ * The first exception of the threads of a parallel computation. An exception must not leave a
+ * thread so keep it here (in a catch block) and throw it again when the threads are joined.
+ *
+ ***/
+
+class ThreadException
+{
+ public:
+
+  void keep()
+  {
+    std::lock_guard<std::mutex> lock(m_mutex);
+    if (!m_exception) {
+      m_exception = std::current_exception();
+    }
+  }
+
+  void rethrow()
+  {
+    if (m_exception) {
+      std::rethrow_exception(m_exception);
+    }
+  }
+
+ private:
+
+  std::mutex m_mutex;
+  std::exception_ptr m_exception;
+};
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 6336f66..cc4dac8 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -76,6 +76,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err;
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -85,7 +86,7 @@ typedef struct
  ***/
 
 void* ArrAnnu::smp_dream_arr_annu(void *arg)
-{
+try {
   DATA *D = (DATA *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -179,6 +180,11 @@ void* ArrAnnu::smp_dream_arr_annu(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -579,6 +585,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
@@ -612,6 +619,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -643,5 +651,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index d6c8fe6..5f80cfc 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -81,6 +81,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -90,7 +91,7 @@ typedef struct
  ***/
 
 void* ArrCirc::smp_dream_arr_circ(void *arg)
-{
+try {
   DATA *D = (DATA *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -191,6 +192,11 @@ void* ArrCirc::smp_dream_arr_circ(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                                         double R,
@@ -377,6 +383,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
@@ -414,6 +421,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -444,5 +452,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 2259170..84a2b31 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -82,6 +82,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -91,7 +92,7 @@ typedef struct
  ***/
 
 void* ArrCylind::smp_dream_arr_cylind(void *arg)
-{
+try {
   DATA *D = (DATA *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -197,6 +198,11 @@ void* ArrCylind::smp_dream_arr_cylind(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 
 SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
@@ -383,6 +389,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
@@ -422,6 +429,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -452,5 +460,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return  err;
 }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index cd910c8..e2420e5 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -82,6 +82,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -91,7 +92,7 @@ typedef struct
  ***/
 
 void* ArrRect::smp_dream_arr_rect(void *arg)
-{
+try {
   DATA *D = (DATA *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -191,6 +192,11 @@ void* ArrRect::smp_dream_arr_rect(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                                         double a, double b,
@@ -380,6 +386,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
@@ -418,6 +425,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads > 1) {
       // Start the threads.
@@ -448,5 +456,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 9a5c535..b8eec95 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -70,6 +70,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA_CIRC;
 
 /***
@@ -79,7 +80,7 @@ typedef struct
  ***/
 
 void* Circ::smp_dream_circ(void *arg)
-{
+try {
   DATA_CIRC *D = (DATA_CIRC *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -161,6 +162,11 @@ void* Circ::smp_dream_circ(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA_CIRC *) arg)->exception->keep();
+  running_circ = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -222,6 +228,7 @@ SIRError Circ::dreamcirc(double alpha,
   D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   threads = threads_buf.get();
 
@@ -248,6 +255,7 @@ SIRError Circ::dreamcirc(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -278,6 +286,8 @@ SIRError Circ::dreamcirc(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e381039..a547e4c 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -70,6 +70,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -79,7 +80,7 @@ typedef struct
  ***/
 
 void* Circ_f::smp_dream_circ_f(void *arg)
-{
+try {
   DATA *D = (DATA *)arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -164,6 +165,11 @@ void* Circ_f::smp_dream_circ_f(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -221,6 +227,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
@@ -249,6 +256,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -279,6 +287,8 @@ SIRError Circ_f::dreamcirc_f(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 95acee9..6933fc2 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -72,6 +72,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA_CYLIND;
 
 /***
@@ -81,7 +82,7 @@ typedef struct
  ***/
 
 void* Cylind::smp_dream_cylind(void *arg)
-{
+try {
   DATA_CYLIND *D = (DATA_CYLIND *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -163,6 +164,11 @@ void* Cylind::smp_dream_cylind(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA_CYLIND *) arg)->exception->keep();
+  running_cylind = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -218,6 +224,7 @@ SIRError Cylind::dreamcylind(double alpha,
   DATA_CYLIND *D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
@@ -246,6 +253,7 @@ SIRError Cylind::dreamcylind(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -276,6 +284,8 @@ SIRError Cylind::dreamcylind(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index d130ce9..3fe1a8e 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -69,6 +69,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -78,7 +79,7 @@ typedef struct
  ***/
 
 void* Line::smp_dream_line(void *arg)
-{
+try {
   DATA *D = (DATA *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -151,6 +152,11 @@ void* Line::smp_dream_line(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -207,6 +213,7 @@ SIRError Line::dreamline(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
@@ -233,6 +240,7 @@ SIRError Line::dreamline(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     //D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -263,6 +271,8 @@ SIRError Line::dreamline(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 8b4b9e4..2580356 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -71,6 +71,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA_RECT;
 
 /***
@@ -80,7 +81,7 @@ typedef struct
  ***/
 
 void* Rect::smp_dream_rect(void *arg)
-{
+try {
   DATA_RECT *D = (DATA_RECT *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -162,6 +163,11 @@ void* Rect::smp_dream_rect(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA_RECT *) arg)->exception->keep();
+  running_rect = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -218,6 +224,7 @@ SIRError Rect::dreamrect(double alpha,
   DATA_RECT *D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
@@ -245,6 +252,7 @@ SIRError Rect::dreamrect(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -275,6 +283,8 @@ SIRError Rect::dreamrect(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 2f56c79..22f5a00 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -71,6 +71,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -80,7 +81,7 @@ typedef struct
  ***/
 
 void* Rect_f::smp_dream_rect_f(void *arg)
-{
+try {
   DATA *D = (DATA *) arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -163,6 +164,11 @@ void* Rect_f::smp_dream_rect_f(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -220,6 +226,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
@@ -249,6 +256,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -279,6 +287,8 @@ SIRError Rect_f::dreamrect_f(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 5cc7a5c..ebfdbdd 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -70,6 +70,7 @@ typedef struct
   double *h;
   ErrorLevel err_level;
   SIRError err; // Output error.
+  ThreadException *exception; // Where a thread keeps its exception.
 } DATA;
 
 /***
@@ -79,7 +80,7 @@ typedef struct
  ***/
 
 void* Sphere::smp_dream_sphere(void *arg)
-{
+try {
   DATA *D = (DATA *)arg;
   double xo, yo, zo;
   double *h = D->h;
@@ -161,6 +162,11 @@ void* Sphere::smp_dream_sphere(void *arg)
 
   return(NULL);
 }
+catch (...) {
+  ((DATA *) arg)->exception->keep();
+  running = false; // Tell all threads to exit.
+  return(NULL);
+}
 
 /***
  *
@@ -217,6 +223,7 @@ SIRError Sphere::dreamsphere(double alpha,
   DATA *D = D_buf.get();
 
   // Allocate mem for the threads.
+  ThreadException exception;
   JoiningThreads threads_buf(nthreads); // Init thread data.
   std::thread *threads = threads_buf.get();
 
@@ -244,6 +251,7 @@ SIRError Sphere::dreamsphere(double alpha,
     D[thread_n].h = h;
     D[thread_n].err_level = err_level;
     D[thread_n].err = SIRError::none;
+    D[thread_n].exception = &exception;
 
     if (nthreads>1) {
       // Start the threads.
@@ -273,6 +281,8 @@ SIRError Sphere::dreamsphere(double alpha,
     }
   }
 
+  exception.rethrow();
+
   return err;
 }
 
-- 
2.43.0


From e270dfb03c15ec59a2b3e900e8c9f6fde94dca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:41 +0000
Subject: [PATCH 43/59] fix: an interrupt during planning or set-up of a
 convolution, copy or circ_sir call was forgotten

---
 extra_src/oct_add_p.cc       | 4 ++--
 extra_src/oct_circ_sir.cc    | 4 ++--
 extra_src/oct_conv_p.cc      | 4 ++--
 extra_src/oct_copy_p.cc      | 4 ++--
 extra_src/oct_fftconv_ola.cc | 4 ++--
 extra_src/oct_fftconv_p.cc   | 4 ++--
 extra_src/oct_scirc_sir.cc   | 4 ++--
 extra_src/oct_sum_fftconv.cc | 4 ++--
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index f33c4dc..4f610e9 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -277,6 +277,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -291,8 +293,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the add subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 1d3d7b6..429fed4 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -341,6 +341,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   SIRData hsir(h, nt, No);
   hsir.clear();
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -356,8 +358,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   //
 
   //out_err = ErrorLevel::none;
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 54107a4..c2e882f 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -297,6 +297,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -342,8 +344,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5106abf..3195b70 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -275,6 +275,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -289,8 +291,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the mem_copy subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 42f22df..6fecd7a 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -615,6 +615,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -691,8 +693,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  running = true;
-
   for (dream_idx_type thread_n=0; thread_n<nthreads; thread_n++) {
 
     dream_idx_type col_start = thread_n * A_N/nthreads;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 5d799c1..2ab755e 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -486,6 +486,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -545,8 +547,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index efa34b4..f2c41e2 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -356,6 +356,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   SIRData hsir(h, nt, No);
   hsir.clear();
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -371,8 +373,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   //
 
   //out_err = ErrorLevel::none;
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index a3fb61b..3ad1840 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -438,6 +438,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  running = true; // Before the handlers are in place so that no interrupt is forgotten.
+
   //
   // Register signal handlers.
   //
@@ -500,8 +502,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   std::unique_ptr<DATA[]> D_buf(new DATA[nthreads]);
   D = D_buf.get();
-- 
2.43.0


From 37d465d5a2e8349c797dbbdfc74326ab174aa022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:47 +0000
Subject: [PATCH 44/59] fix: an interrupt just before the computation starts
 was forgotten

---
 extra_src/mex_rect_sir.cc         | 2 ++
 extra_src/oct_rect_sir.cc         | 2 ++
 extra_src/rect_sir.cc             | 9 ++++++---
 include/dream_arr_annu.h          | 1 +
 include/dream_arr_circ.h          | 1 +
 include/dream_arr_cylind.h        | 1 +
 include/dream_arr_rect.h          | 1 +
 include/dreamcirc.h               | 1 +
 include/dreamcirc_f.h             | 1 +
 include/dreamcylind.h             | 1 +
 include/dreamline.h               | 1 +
 include/dreamrect.h               | 1 +
 include/dreamrect_f.h             | 1 +
 include/dreamsphere.h             | 1 +
 include/rect_sir.h                | 1 +
 julia/src/jl_dream_arr_annu.cc    | 2 ++
 julia/src/jl_dream_arr_circ.cc    | 2 ++
 julia/src/jl_dream_arr_cylind.cc  | 2 ++
 julia/src/jl_dream_arr_rect.cc    | 2 ++
 julia/src/jl_dreamcirc.cc         | 2 ++
 julia/src/jl_dreamcirc_f.cc       | 2 ++
 julia/src/jl_dreamcylind.cc       | 2 ++
 julia/src/jl_dreamline.cc         | 2 ++
 julia/src/jl_dreamrect.cc         | 2 ++
 julia/src/jl_dreamrect_f.cc       | 2 ++
 julia/src/jl_dreamsphere.cc       | 2 ++
 mex/mex_dream_arr_annu.cc         | 2 ++
 mex/mex_dream_arr_circ.cc         | 2 ++
 mex/mex_dream_arr_cylind.cc       | 2 ++
 mex/mex_dream_arr_rect.cc         | 2 ++
 mex/mex_dreamcirc.cc              | 2 ++
 mex/mex_dreamcirc_f.cc            | 2 ++
 mex/mex_dreamcylind.cc            | 2 ++
 mex/mex_dreamline.cc              | 2 ++
 mex/mex_dreamrect.cc              | 2 ++
 mex/mex_dreamrect_f.cc            | 2 ++
 mex/mex_dreamsphere.cc            | 2 ++
 oct/oct_dream_arr_annu.cc         | 2 ++
 oct/oct_dream_arr_circ.cc         | 2 ++
 oct/oct_dream_arr_cylind.cc       | 2 ++
 oct/oct_dream_arr_rect.cc         | 2 ++
 oct/oct_dreamcirc.cc              | 2 ++
 oct/oct_dreamcirc_f.cc            | 2 ++
 oct/oct_dreamcylind.cc            | 2 ++
 oct/oct_dreamline.cc              | 2 ++
 oct/oct_dreamrect.cc              | 2 ++
 oct/oct_dreamrect_f.cc            | 2 ++
 oct/oct_dreamsphere.cc            | 2 ++
 python/src/py_dream_arr_annu.cc   | 2 ++
 python/src/py_dream_arr_circ.cc   | 2 ++
 python/src/py_dream_arr_cylind.cc | 2 ++
 python/src/py_dream_arr_rect.cc   | 2 ++
 python/src/py_dreamcirc.cc        | 2 ++
 python/src/py_dreamcirc_f.cc      | 2 ++
 python/src/py_dreamcylind.cc      | 2 ++
 python/src/py_dreamline.cc        | 2 ++
 python/src/py_dreamrect.cc        | 2 ++
 python/src/py_dreamrect_f.cc      | 2 ++
 python/src/py_dreamsphere.cc      | 2 ++
 src/dream_arr_annu.cc             | 9 ++++++---
 src/dream_arr_circ.cc             | 9 ++++++---
 src/dream_arr_cylind.cc           | 9 ++++++---
 src/dream_arr_rect.cc             | 9 ++++++---
 src/dreamcirc.cc                  | 9 ++++++---
 src/dreamcirc_f.cc                | 9 ++++++---
 src/dreamcylind.cc                | 9 ++++++---
 src/dreamline.cc                  | 9 ++++++---
 src/dreamrect.cc                  | 9 ++++++---
 src/dreamrect_f.cc                | 9 ++++++---
 src/dreamsphere.cc                | 9 ++++++---
 70 files changed, 176 insertions(+), 36 deletions(-)

diff --git a/extra_src/mex_rect_sir.cc b/extra_src/mex_rect_sir.cc
index 737c51e..2b42deb 100644
--- a/extra_src/mex_rect_sir.cc
+++ b/extra_src/mex_rect_sir.cc
@@ -109,6 +109,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   RectSir rect_sir;
 
+  RectSir::set_running();
+
   // Register signal handler.
   std::signal(SIGABRT, RectSir::abort);
 
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 1476e05..ed9e079 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -224,6 +224,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   RectSir rect_sir;
 
+  RectSir::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, RectSir::abort);
 
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index bf35ede..4075101 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -33,7 +33,7 @@
 #include "joining_threads.h"
 
 //std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 
 void RectSir::abort(int signum)
 {
@@ -45,6 +45,11 @@ bool RectSir::is_running()
   return running;
 }
 
+void RectSir::set_running()
+{
+  running = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -151,8 +156,6 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   dream_idx_type start, stop;
   DATA *D;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/include/dream_arr_annu.h b/include/dream_arr_annu.h
index 4551ea1..f58c978 100644
--- a/include/dream_arr_annu.h
+++ b/include/dream_arr_annu.h
@@ -49,6 +49,7 @@ public:
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
  private:
 
diff --git a/include/dream_arr_circ.h b/include/dream_arr_circ.h
index d64d1c9..c4ae843 100644
--- a/include/dream_arr_circ.h
+++ b/include/dream_arr_circ.h
@@ -52,6 +52,7 @@ class ArrCirc
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
  private:
 
diff --git a/include/dream_arr_cylind.h b/include/dream_arr_cylind.h
index 07693ce..7a54c97 100644
--- a/include/dream_arr_cylind.h
+++ b/include/dream_arr_cylind.h
@@ -53,6 +53,7 @@ class ArrCylind
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
  private:
 
diff --git a/include/dream_arr_rect.h b/include/dream_arr_rect.h
index e34c3e5..f65b24a 100644
--- a/include/dream_arr_rect.h
+++ b/include/dream_arr_rect.h
@@ -52,6 +52,7 @@ class ArrRect
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
  private:
 
diff --git a/include/dreamcirc.h b/include/dreamcirc.h
index 80eda4a..3347c46 100644
--- a/include/dreamcirc.h
+++ b/include/dreamcirc.h
@@ -57,6 +57,7 @@ class Circ
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
 private:
 
diff --git a/include/dreamcirc_f.h b/include/dreamcirc_f.h
index 889251d..5958d67 100644
--- a/include/dreamcirc_f.h
+++ b/include/dreamcirc_f.h
@@ -47,6 +47,7 @@ class Circ_f
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
 private:
 
diff --git a/include/dreamcylind.h b/include/dreamcylind.h
index a0c1ab9..ba5e447 100644
--- a/include/dreamcylind.h
+++ b/include/dreamcylind.h
@@ -47,6 +47,7 @@ class Cylind
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
   // public since dream_arr_cylind uses these too.
   SIRError dreamcylind_serial(double xo, double yo, double zo,
diff --git a/include/dreamline.h b/include/dreamline.h
index c813c62..c7a6d00 100644
--- a/include/dreamline.h
+++ b/include/dreamline.h
@@ -46,6 +46,7 @@ class Line
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
  private:
 
diff --git a/include/dreamrect.h b/include/dreamrect.h
index 39493c9..aee28fd 100644
--- a/include/dreamrect.h
+++ b/include/dreamrect.h
@@ -63,6 +63,7 @@ class Rect
 
  static void abort(int signum);
  bool is_running();
+ static void set_running();
 
  private:
 
diff --git a/include/dreamrect_f.h b/include/dreamrect_f.h
index c8f27d4..f14ec49 100644
--- a/include/dreamrect_f.h
+++ b/include/dreamrect_f.h
@@ -48,6 +48,7 @@ public:
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
 private:
 
diff --git a/include/dreamsphere.h b/include/dreamsphere.h
index cf40593..bbc0603 100644
--- a/include/dreamsphere.h
+++ b/include/dreamsphere.h
@@ -46,6 +46,7 @@ class Sphere
 
   static void abort(int signum);
   bool is_running();
+  static void set_running();
 
 private:
 
diff --git a/include/rect_sir.h b/include/rect_sir.h
index 514da4c..0265412 100644
--- a/include/rect_sir.h
+++ b/include/rect_sir.h
@@ -62,6 +62,7 @@ ErrorLevel rect_sir(double *Ro, dream_idx_type No,
 
  static void abort(int signum);
  bool is_running();
+ static void set_running();
 
  private:
 
diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 18922ea..646addf 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -158,6 +158,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
 
   ArrAnnu arr_annu;
 
+  ArrAnnu::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrAnnu::abort);
 
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index 1a01b3e..54f1b15 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -181,6 +181,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
 
   ArrCirc arr_circ;
 
+  ArrCirc::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrCirc::abort);
 
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index e9a7ba9..d82aa19 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -185,6 +185,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
 
   ArrCylind arr_cylind;
 
+  ArrCylind::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrCylind::abort);
 
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 2fcac32..a4c426a 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -181,6 +181,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
 
   ArrRect arr_rect;
 
+  ArrRect::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrRect::abort);
 
diff --git a/julia/src/jl_dreamcirc.cc b/julia/src/jl_dreamcirc.cc
index 6a7559c..f3733c1 100644
--- a/julia/src/jl_dreamcirc.cc
+++ b/julia/src/jl_dreamcirc.cc
@@ -120,6 +120,8 @@ jl::ArrayRef<double, 2> jl_dreamcirc(jl::ArrayRef<double, 2> jl_ro,
 
   Circ circ;
 
+  Circ::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Circ::abort);
 
diff --git a/julia/src/jl_dreamcirc_f.cc b/julia/src/jl_dreamcirc_f.cc
index 2e9308d..6228fe4 100644
--- a/julia/src/jl_dreamcirc_f.cc
+++ b/julia/src/jl_dreamcirc_f.cc
@@ -133,6 +133,8 @@ jl::ArrayRef<double, 2> jl_dreamcirc_f(jl::ArrayRef<double, 2> jl_ro,
 
   Circ_f circ_f;
 
+  Circ_f::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Circ_f::abort);
 
diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index ca94211..a348384 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -124,6 +124,8 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
 
   Cylind cylind;
 
+  Cylind::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Cylind::abort);
 
diff --git a/julia/src/jl_dreamline.cc b/julia/src/jl_dreamline.cc
index 5283b4b..bf27857 100644
--- a/julia/src/jl_dreamline.cc
+++ b/julia/src/jl_dreamline.cc
@@ -120,6 +120,8 @@ jl::ArrayRef<double, 2> jl_dreamline(jl::ArrayRef<double, 2> jl_ro,
 
   Line line;
 
+  Line::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Line::abort);
 
diff --git a/julia/src/jl_dreamrect.cc b/julia/src/jl_dreamrect.cc
index f9af430..15af326 100644
--- a/julia/src/jl_dreamrect.cc
+++ b/julia/src/jl_dreamrect.cc
@@ -120,6 +120,8 @@ jl::ArrayRef<double, 2> jl_dreamrect(jl::ArrayRef<double, 2> jl_ro,
 
   Rect rect;
 
+  Rect::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Rect::abort);
 
diff --git a/julia/src/jl_dreamrect_f.cc b/julia/src/jl_dreamrect_f.cc
index 05d36b9..08b9c51 100644
--- a/julia/src/jl_dreamrect_f.cc
+++ b/julia/src/jl_dreamrect_f.cc
@@ -133,6 +133,8 @@ jl::ArrayRef<double, 2> jl_dreamrect_f(jl::ArrayRef<double, 2> jl_ro,
 
   Rect_f rect_f;
 
+  Rect_f::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Rect_f::abort);
 
diff --git a/julia/src/jl_dreamsphere.cc b/julia/src/jl_dreamsphere.cc
index 58e6065..c00308e 100644
--- a/julia/src/jl_dreamsphere.cc
+++ b/julia/src/jl_dreamsphere.cc
@@ -120,6 +120,8 @@ jl::ArrayRef<double, 2> jl_dreamsphere(jl::ArrayRef<double, 2> jl_ro,
 
   Sphere sphere;
 
+  Sphere::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Sphere::abort);
 
diff --git a/mex/mex_dream_arr_annu.cc b/mex/mex_dream_arr_annu.cc
index 2e14e04..9f319dd 100644
--- a/mex/mex_dream_arr_annu.cc
+++ b/mex/mex_dream_arr_annu.cc
@@ -140,6 +140,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrAnnu arr_annu;
 
+  ArrAnnu::set_running();
+
   //
   // Call the DREAM subroutine.
   //
diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index f3f3a95..8c509f4 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -164,6 +164,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCirc arr_circ;
 
+  ArrCirc::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrCirc::abort);
 
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index d3f6f60..cba40a7 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -169,6 +169,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCylind arr_cylind;
 
+  ArrCylind::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrCylind::abort);
 
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 229a81a..3d11ba9 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -165,6 +165,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrRect arr_rect;
 
+  ArrRect::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, ArrRect::abort);
 
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index 8487182..7bc00af 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -108,6 +108,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ circ;
 
+  Circ::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Circ::abort);
 
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index ad92e8b..8ccaf5a 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -121,6 +121,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ_f circ_f;
 
+  Circ_f::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Circ_f::abort);
 
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index c04ac02..c0d0259 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -112,6 +112,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Cylind cylind;
 
+  Cylind::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Cylind::abort);
 
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index 585fb1a..df69643 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -108,6 +108,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Line line;
 
+  Line::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Line::abort);
 
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 6757227..32a25fb 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -108,6 +108,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect rect;
 
+  Rect::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Rect::abort);
 
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index 91ab2f6..8ca1849 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -121,6 +121,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect_f rect_f;
 
+  Rect_f::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Rect_f::abort);
 
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index 3bf1b8a..df01af8 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -108,6 +108,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Sphere sphere;
 
+  Sphere::set_running();
+
   // Register signal handler.
   std::signal(SIGINT, Sphere::abort);
 
diff --git a/oct/oct_dream_arr_annu.cc b/oct/oct_dream_arr_annu.cc
index 991a3af..1f08584 100644
--- a/oct/oct_dream_arr_annu.cc
+++ b/oct/oct_dream_arr_annu.cc
@@ -293,6 +293,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrAnnu arr_annu;
 
+  ArrAnnu::set_running();
+
   //
   // Call the DREAM subroutine.
   //
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index a93b9cc..bc1a204 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -334,6 +334,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrCirc arr_circ;
 
+  ArrCirc::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrCirc::abort);
 
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index 0da8da4..73d9a60 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -343,6 +343,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrCylind arr_cylind;
 
+  ArrCylind::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrCylind::abort);
 
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 350aa7c..d091a66 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -336,6 +336,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrRect arr_rect;
 
+  ArrRect::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrRect::abort);
 
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index cd42d0e..9b67206 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -222,6 +222,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Circ circ;
 
+  Circ::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Circ::abort);
 
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index d5ab980..4be5d36 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -227,6 +227,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Circ_f circ_f;
 
+  Circ_f::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Circ_f::abort);
 
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 35d0ce9..94bc7f6 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -218,6 +218,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   Cylind cylind;
 
+  Cylind::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Cylind::abort);
 
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 54fbb87..c6e930b 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -192,6 +192,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Line line;
 
+  Line::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Line::abort);
 
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index 2bd7007..48e98ea 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -225,6 +225,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Rect rect;
 
+  Rect::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Rect::abort);
 
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index a44425b..735cdc4 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -230,6 +230,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Rect_f rect_f;
 
+  Rect_f::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Rect_f::abort);
 
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index 65145da..688575c 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -205,6 +205,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   Sphere sphere;
 
+  Sphere::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Sphere::abort);
 
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 96d916b..27bfd52 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -163,6 +163,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  ArrAnnu::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrAnnu::abort);
 
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 21b9c90..2e7a64c 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -187,6 +187,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  ArrCirc::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrCirc::abort);
 
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 161f62a..42fd96d 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -191,6 +191,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  ArrCylind::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrCylind::abort);
 
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index f2692c6..cbbcd88 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -187,6 +187,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  ArrRect::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, ArrRect::abort);
 
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index ddd45ac..60ed0e7 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -125,6 +125,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  Circ::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Circ::abort);
 
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index 950c49e..8592db1 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -140,6 +140,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
 
   Circ_f circ_f;
 
+  Circ_f::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Circ_f::abort);
 
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 9f05dca..a2de45c 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -129,6 +129,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  Cylind::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Cylind::abort);
 
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index c963119..d54e636 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -127,6 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
 
   Line line;
 
+  Line::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Line::abort);
 
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index 8d763b8..f16c3aa 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -127,6 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
 
   Rect rect;
 
+  Rect::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Rect::abort);
 
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 64b62cd..3944eaa 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -140,6 +140,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
 
   Rect_f rect_f;
 
+  Rect_f::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Rect_f::abort);
 
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index ae202a7..7ea3a2d 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -125,6 +125,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   SIRData hsir(h, nt, no);
   hsir.clear();
 
+  Sphere::set_running();
+
   // Register signal handler.
   SignalGuard sig_guard(SIGINT, Sphere::abort);
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index cc4dac8..56ac2e3 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -36,7 +36,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void ArrAnnu::abort(int signum)
@@ -49,6 +49,11 @@ bool ArrAnnu::is_running()
   return running;
 }
 
+void ArrAnnu::set_running()
+{
+  running = true;
+}
+
 // Thread data
 typedef struct
 {
@@ -547,8 +552,6 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
 
   SIRError err = SIRError::none;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 5f80cfc..aa99150 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -37,7 +37,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void ArrCirc::abort(int signum)
@@ -50,6 +50,11 @@ bool ArrCirc::is_running()
   return running;
 }
 
+void ArrCirc::set_running()
+{
+  running = true;
+}
+
 // Thread data
 typedef struct
 {
@@ -345,8 +350,6 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
 
   SIRError err = SIRError::none;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 84a2b31..19982df 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -36,7 +36,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void ArrCylind::abort(int signum)
@@ -49,6 +49,11 @@ bool ArrCylind::is_running()
   return running;
 }
 
+void ArrCylind::set_running()
+{
+  running = true;
+}
+
 // Thread data
 typedef struct
 {
@@ -351,8 +356,6 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
 
   SIRError err = SIRError::none;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index e2420e5..603554c 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -37,7 +37,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void ArrRect::abort(int signum)
@@ -50,6 +50,11 @@ bool ArrRect::is_running()
   return running;
 }
 
+void ArrRect::set_running()
+{
+  running = true;
+}
+
 // Thread data
 typedef struct
 {
@@ -348,8 +353,6 @@ SIRError ArrRect::dream_arr_rect(double alpha,
 
   SIRError err = SIRError::none;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index b8eec95..0665f2c 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -37,7 +37,7 @@
 
 // NB. We link this one in dream_arr_circ so we need unique names.
 std::mutex err_mutex_circ;
-std::atomic<bool> running_circ;
+std::atomic<bool> running_circ(true);
 std::atomic<bool> verbose_err_msg_circ;
 
 void Circ::abort(int signum)
@@ -50,6 +50,11 @@ bool Circ::is_running()
   return running_circ;
 }
 
+void Circ::set_running()
+{
+  running_circ = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -190,8 +195,6 @@ SIRError Circ::dreamcirc(double alpha,
   SIRError err = SIRError::none;
   verbose_err_msg_circ = false;
 
-  running_circ = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index a547e4c..c19d11e 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -35,7 +35,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void Circ_f::abort(int signum)
@@ -48,6 +48,11 @@ bool Circ_f::is_running()
   return running;
 }
 
+void Circ_f::set_running()
+{
+  running = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -189,8 +194,6 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   SIRError err = SIRError::none;
   verbose_err_messages = false;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 6933fc2..fa01589 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -37,7 +37,7 @@
 
 // NB. We link this one in dream_arr_cylind so we need unique names.
 std::mutex err_mutex_cylind;
-std::atomic<bool> running_cylind;
+std::atomic<bool> running_cylind(true);
 std::atomic<bool> verbose_err_msg_cylind;
 
 void Cylind::abort(int signum)
@@ -50,6 +50,11 @@ bool Cylind::is_running()
   return running_cylind;
 }
 
+void Cylind::set_running()
+{
+  running_cylind = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -187,8 +192,6 @@ SIRError Cylind::dreamcylind(double alpha,
   SIRError err = SIRError::none;
   verbose_err_msg_cylind = false;
 
-  running_cylind = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3fe1a8e..8b5ebd4 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -36,7 +36,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void Line::abort(int signum)
@@ -49,6 +49,11 @@ bool Line::is_running()
   return running;
 }
 
+void Line::set_running()
+{
+  running = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -175,8 +180,6 @@ SIRError Line::dreamline(double alpha,
   SIRError err = SIRError::none;
   verbose_err_messages = false;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 2580356..313ea88 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -37,7 +37,7 @@
 
 // NB. We link this one in dream_arr_rect so we need unique names.
 std::mutex err_mutex_rect;
-std::atomic<bool> running_rect;
+std::atomic<bool> running_rect(true);
 std::atomic<bool> verbose_err_msg_rect;
 
 void Rect::abort(int signum)
@@ -50,6 +50,11 @@ bool Rect::is_running()
   return running_rect;
 }
 
+void Rect::set_running()
+{
+  running_rect = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -186,8 +191,6 @@ SIRError Rect::dreamrect(double alpha,
   SIRError err = SIRError::none;
   verbose_err_msg_rect = false;
 
-  running_rect = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 22f5a00..8c62e48 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -35,7 +35,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void Rect_f::abort(int signum)
@@ -48,6 +48,11 @@ bool Rect_f::is_running()
   return running;
 }
 
+void Rect_f::set_running()
+{
+  running = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -188,8 +193,6 @@ SIRError Rect_f::dreamrect_f(double alpha,
   SIRError err = SIRError::none;
   verbose_err_messages=false;
 
-  running = true;
-
   //
   // Number of threads.
   //
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index ebfdbdd..35f8adb 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -36,7 +36,7 @@
 #endif
 
 std::mutex err_mutex;
-std::atomic<bool> running;
+std::atomic<bool> running(true);
 std::atomic<bool> verbose_err_messages;
 
 void Sphere::abort(int signum)
@@ -49,6 +49,11 @@ bool Sphere::is_running()
   return running;
 }
 
+void Sphere::set_running()
+{
+  running = true;
+}
+
 // Thread data.
 typedef struct
 {
@@ -185,8 +190,6 @@ SIRError Sphere::dreamsphere(double alpha,
   SIRError err = SIRError::none;
   verbose_err_messages=false;
 
-  running = true;
-
   //
   // Number of threads.
   //
-- 
2.43.0


From 720ff26bd7893e2175e7ffade5c7c6041e49cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:24 +0000
Subject: [PATCH 45/59] fix: scirc_sir ignored DREAM_NUM_THREADS

---
 extra_src/oct_scirc_sir.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index f2c41e2..32de5a2 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <cstdlib>
 #include <memory>
 #include <exception>
 #include <atomic>
@@ -337,6 +338,14 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Get number of CPU cores (including hypethreading, C++11)
   nthreads = std::thread::hardware_concurrency();
 
+  // Read DREAM_NUM_THREADS env var
+  if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
+    if (dream_threads < nthreads) {
+      nthreads = dream_threads;
+    }
+  }
+
   // nthreads can't be larger then the number of observation points.
   if (nthreads > No) {
     nthreads = No;
-- 
2.43.0


From 8b8fbd27b467c4c54dae1a214b411bd853910e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 46/59] fix: the Matlab dreamrect and dreamcirc ignored the
 error level when a device is given

---
 mex/mex_dreamcirc.cc | 2 +-
 mex/mex_dreamrect.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index 7bc00af..658eed8 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -93,7 +93,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ErrorLevel err_level=ErrorLevel::stop;
 
-  if (nrhs == 6) {
+  if (nrhs >= 6) {
     ap.parse_error_arg("dreamcirc", prhs, 5, err_level);
   } else {
     err_level = ErrorLevel::stop; // Default.
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 32a25fb..455096a 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -93,7 +93,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ErrorLevel err_level=ErrorLevel::stop;
 
-  if (nrhs == 6) {
+  if (nrhs >= 6) {
     ap.parse_error_arg("dreamline", prhs, 5, err_level);
   } else {
     err_level = ErrorLevel::stop; // Default.
-- 
2.43.0


From 9d18b27aa454af3de74a3d981feed6f1cff3f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 47/59] fix: the Matlab dream_att with a delay after the
 arrival

---
 mex/mex_dream_att.cc | 4 ++--
 src/attenuation.cc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mex/mex_dream_att.cc b/mex/mex_dream_att.cc
index 88872f5..20dd746 100644
--- a/mex/mex_dream_att.cc
+++ b/mex/mex_dream_att.cc
@@ -109,7 +109,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       double zo = Ro[n+2*No];
 
       double r = std::sqrt(xo*xo + yo*yo + zo*zo);
-      dream_idx_type it = (dream_idx_type) ( (r * 1.0e3/cp - delay[0])/dt + 1);
+      dream_idx_type it = (dream_idx_type) (std::ptrdiff_t) ( (r * 1.0e3/cp - delay[0])/dt + 1);
       att.att(xc, x, r, it, &h[n*nt], 1.0);
     }
   } else {
@@ -119,7 +119,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       double zo = Ro[n+2*No];
 
       double r = std::sqrt(xo*xo + yo*yo + zo*zo);
-      dream_idx_type it = (dream_idx_type) ( (r * 1.0e3/cp - delay[n])/dt + 1);
+      dream_idx_type it = (dream_idx_type) (std::ptrdiff_t) ( (r * 1.0e3/cp - delay[n])/dt + 1);
       att.att(xc, x, r, it, &h[n*nt], 1.0);
     }
   }
diff --git a/src/attenuation.cc b/src/attenuation.cc
index 6ca7b1c..cdfee09 100644
--- a/src/attenuation.cc
+++ b/src/attenuation.cc
@@ -93,7 +93,7 @@ void Attenuation::att(FFTCVec &xc_vec, FFTVec &x_vec, double r, dream_idx_type i
   double dt = m_dt*1.0e-6;          // Sampling period [s].
   Fs  = 1/dt;                       // Sampling frequecy [Hz].
   dw  = 2.0 * M_PI / double(m_len); // Angular freq. sampling step [rad].
-  t   = double(it) * dt;            // [s]
+  t   = double((std::ptrdiff_t) it) * dt; // [s] (it can be negative)
   r *= 1.0e-3;                      // [m]
 
   // The 0.95 constant controls the phase only (causality). See:
-- 
2.43.0


From c716734d0bc5270a2837c607de3043ceb96325f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 48/59] fix: the Matlab fftconv_p and fftconv_ola in-place
 modes and overlap-add with a vector

---
 extra_src/mex_fftconv_ola.cc | 61 ++++++++++++++++++++++++++++++------
 extra_src/mex_fftconv_p.cc   | 29 +++++++++++++++++
 2 files changed, 80 insertions(+), 10 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index da76f3b..9e702bf 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -110,6 +110,9 @@ void* smp_dream_fftconv_ola(void *arg)
   FFTVec a_block_v(fft_len);
   double *a_block = a_block_v.get();
 
+  // The sign of the block contributions.
+  double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
+
   //
   // Do the convolution.
   //
@@ -122,6 +125,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // In '=' mode the old contents of the output column is replaced.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +145,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +163,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +174,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -194,6 +202,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // In '=' mode the old contents of the output column is replaced.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +219,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +237,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +246,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -250,7 +263,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
 
     } // for
   } // if
@@ -356,7 +368,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
   block_len = (dream_idx_type) mxGetPr(prhs[2])[0]; // Get scalar
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     dream_err_msg("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
   }
 
@@ -448,6 +460,35 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   case 6: // In-place mode if 6 input args.
     if ( mxIsChar(prhs[5]) ) { // 6:th arg is a string (fftw wisdom).
 
+      if (!mxIsChar(prhs[4])) { // The in-place mode ('=','+=', or '-=').
+        dream_err_msg("Argument 5 is not a valid string format!");
+      }
+
+      char *mode_str = mxArrayToString(prhs[4]);
+      std::string ip_mode(mode_str);
+      mxFree(mode_str);
+
+      is_set = false;
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+
+      if (is_set == false) {
+        dream_err_msg("Non-valid string in arg 5!");
+      }
+
       // Read the wisdom string.
       char *str = mxArrayToString(prhs[5]);
       wisdom_str += str;
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index 8ace0bc..8bf6ba1 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -340,6 +340,35 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   case 5: // In-place mode if input 5 args.
     if (mxIsChar(prhs[4])) { // 5:th arg is a string (FFTW wisdom).
 
+      if (!mxIsChar(prhs[3])) { // The in-place mode ('=','+=', or '-=').
+        dream_err_msg("Argument 4 is not a valid string format!");
+      }
+
+      char *mode_str = mxArrayToString(prhs[3]);
+      std::string ip_mode(mode_str);
+      mxFree(mode_str);
+
+      is_set = false;
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+
+      if (is_set == false) {
+        dream_err_msg("Non-valid string in arg 4!");
+      }
+
       char *str = mxArrayToString(prhs[4]);
       wisdom_str += str;
       mxFree(str);
-- 
2.43.0


From 2a1b81de51335373ef4b3d1407650bd849b94c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 49/59] fix: the Matlab sum_fftconv with one-sample inputs, and
 its work array on every exit

---
 extra_src/mex_sum_fftconv.cc | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 6915489..fabbb34 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -23,6 +23,7 @@
 
 #include <csignal>
 #include <thread>
+#include <vector>
 #include <complex>
 
 #include "mex.h"
@@ -214,7 +215,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   H_L = dv[2];
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::vector<double*> H_vec(H_L);
+  double **H = H_vec.data();
   double* tmp_p = mxGetPr(prhs[0]);
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = &(tmp_p[H_M*H_N*k]);
@@ -232,11 +234,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Arguments 1 and 2 must have at least one row!");
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
@@ -456,11 +453,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
 
-  if (H) {
-    free(H);
-  }
-
-
   // FIXME: Should we really return this here?
 
   // Return the FFTW Wisdom so that the plans can be re-used.
-- 
2.43.0


From ad748185dddb589fe99a0175d31bae7d0208255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 50/59] fix: the Matlab copy_p splits the columns that are
 copied and checks the index ranges

---
 extra_src/mex_copy_p.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 9724a5b..892b44d 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -169,7 +169,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( r_M * r_N !=2 )
     mexErrMsgTxt("Argument 2 must be a 2 element vector!");
 
-  if ( (size_t) r[1] < 1)
+  if ( r[0] < 1 || r[1] < r[0])
     mexErrMsgTxt("1st element of argument 2 must be > 1!");
 
   if (( (size_t) r[0] > A_M) || ( (size_t) r[1] > A_M))
@@ -179,7 +179,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( k_M * k_N !=2 )
     mexErrMsgTxt("Argument 3 must be a 2 element vector!");
 
-  if ( (size_t) k[1] < 1)
+  if ( k[0] < 1 || k[1] < k[0])
     mexErrMsgTxt("1st element of argument 3 must be > 1!");
 
   if (( (size_t) k[0] > A_N) || ( (size_t) k[1] > A_N))
@@ -208,9 +208,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -251,8 +251,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = thread_n * A_N/nthreads;
-    line_stop =  (thread_n+1) * A_N/nthreads;
+    line_start = thread_n * B_N/nthreads;
+    line_stop =  (thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From 1539a0e3112540419b5011fa1303acbc425d349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 51/59] fix: the Matlab das with single precision data, too few
 A-scans, and a device and verbose argument

---
 extra_src/mex_das.cc | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index ec6da45..941b7fe 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -169,13 +169,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   float dt_f = 0.0;
   double dt_d = 0.0;
 
-  if (use_float) {
-    float *s_par_f = (float*) mxGetData(prhs[4]);
-    dt_f = s_par_f[0];
-  } else {
-    double *s_par_d = mxGetPr(prhs[4]);
-    dt_d = s_par_d[0];
-  }
+  // This one can have another datatype than the arrays.
+  dt_d = mxGetScalar(prhs[4]);
+  dt_f = (float) dt_d;
 
   //
   // Start point of impulse response vector ([us]).
@@ -209,13 +205,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   float cp_f = 0.0;
   double cp_d = 0.0;
 
-  if (use_float) {
-    float *m_par_f = (float*) mxGetData(prhs[6]);
-    cp_f = m_par_f[0];
-  } else {
-    double *s_par_d = mxGetPr(prhs[6]);
-    cp_d = s_par_d[0];
-  }
+  // This one can have another datatype than the arrays.
+  cp_d = mxGetScalar(prhs[6]);
+  cp_f = (float) cp_d;
 
   //
   // DAS method
@@ -224,6 +216,16 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   DASType das_type;
   ap.parse_das_arg("das", prhs, 7, das_type);
 
+  // There must be one A-scan for each element (SAFT) or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements > 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if (mxGetN(prhs[0]) < num_a_scans) {
+    dream_err_msg("Argument 1 has too few columns (A-scans)!");
+  }
+
   //
   // Error reporting.
   //
@@ -242,7 +244,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(prhs[9])) {
       dream_err_msg("Argument 10 must be a string");
@@ -315,12 +317,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       }
 
       catch (std::runtime_error &err) {
-        std::cout << err.what();
+        dream_err_msg(err.what());
         return;
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
     std::signal(SIGABRT, DAS<float>::abort);
@@ -348,11 +350,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       }
 
       try {
-        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu);
+        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
       catch (std::runtime_error &err) {
-        std::cout << err.what();
+        dream_err_msg(err.what());
         return;
       }
     }
-- 
2.43.0


From 6814216189b721d1fbf1bcffa666392fd3bdd12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:46 +0000
Subject: [PATCH 52/59] fix: the Matlab convolution, copy and sir functions
 compute on the calling thread when a worker thread cannot be started

---
 extra_src/mex_circ_sir.cc    | 13 ++++++++++---
 extra_src/mex_conv_p.cc      | 14 +++++++++++---
 extra_src/mex_copy_p.cc      | 14 +++++++++++---
 extra_src/mex_fftconv_ola.cc | 12 ++++++++++--
 extra_src/mex_fftconv_p.cc   | 14 +++++++++++---
 extra_src/mex_scirc_sir.cc   | 13 ++++++++++---
 extra_src/mex_sum_fftconv.cc | 14 +++++++++++---
 7 files changed, 74 insertions(+), 20 deletions(-)

diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index ccd44c0..cf6ee8f 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -310,16 +310,23 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     //D[thread_n].err_level = err_level;
 
     // Start the threads.
-    threads[thread_n] = std::thread(smp_dream_circ_sir, &D[thread_n]); // Start the threads.
-    set_dream_thread_affinity(thread_n, nthreads, threads);
+    try {
+      threads[thread_n] = std::thread(smp_dream_circ_sir, &D[thread_n]);
+      set_dream_thread_affinity(thread_n, nthreads, threads);
+    } catch (const std::exception&) {
+      smp_dream_circ_sir(&D[thread_n]); // Could not start a thread so do the work here.
+    }
   }
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   //
   // Restore old signal handlers.
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 329740e..95c0cc8 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -330,8 +330,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_conv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_conv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_conv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_conv(&D[0]);
     }
@@ -340,7 +344,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
@@ -349,6 +355,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
+  delete[] threads;
+
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 892b44d..f71407a 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -268,19 +268,27 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     D[thread_n].len = (size_t) (r[1]-r[0]+1);
 
     // Start the threads.
-    threads[thread_n] = std::thread(smp_dream_copy_p, &D[thread_n]);
-    set_dream_thread_affinity(thread_n, nthreads, threads);
+    try {
+      threads[thread_n] = std::thread(smp_dream_copy_p, &D[thread_n]);
+      set_dream_thread_affinity(thread_n, nthreads, threads);
+    } catch (const std::exception&) {
+      smp_dream_copy_p(&D[thread_n]); // Could not start a thread so do the work here.
+    }
   }
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   // Free memory.
   if (D) {
     free((void*) D);
   }
 
+  delete[] threads;
+
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 9e702bf..e91fabc 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -632,7 +632,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_fftconv_ola, &D[thread_n]);
+      try {
+        threads[thread_n] = std::thread(smp_dream_fftconv_ola, &D[thread_n]);
+      } catch (const std::exception&) {
+        smp_dream_fftconv_ola(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_fftconv_ola(&D[0]);
     }
@@ -645,7 +649,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if (nthreads > 1) {
     for (dream_idx_type thread_n=0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
@@ -653,6 +659,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
+  delete[] threads;
+
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index 8bf6ba1..e6b7154 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -516,8 +516,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 #endif
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_fftconv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_fftconv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_fftconv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_fftconv(&D[0]);
     }
@@ -526,7 +530,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
@@ -535,6 +541,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
+  delete[] threads;
+
   //
   // Restore old signal handlers.
   //
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index cbe9921..15b47fd 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -326,16 +326,23 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     //D[thread_n].err_level = err_level;
 
     // Starts the threads.
-    threads[thread_n] = std::thread(smp_dream_scirc_sir, &D[thread_n]); // Start the threads.
-    set_dream_thread_affinity(thread_n, nthreads, threads);
+    try {
+      threads[thread_n] = std::thread(smp_dream_scirc_sir, &D[thread_n]);
+      set_dream_thread_affinity(thread_n, nthreads, threads);
+    } catch (const std::exception&) {
+      smp_dream_scirc_sir(&D[thread_n]); // Could not start a thread so do the work here.
+    }
   } // for (thread_n = 0; thread_n < nthreads; thread_n++)
 
   // Wait for all threads to finish.
   for (thread_n = 0; thread_n < nthreads; thread_n++)
-    threads[thread_n].join();
+    if (threads[thread_n].joinable()) {
+      threads[thread_n].join();
+    }
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   //
   // Restore old signal handlers.
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index fabbb34..aba7b6f 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -414,8 +414,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_sum_fftconv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_sum_fftconv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_sum_fftconv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_sum_fftconv(&D[0]);
     }
@@ -424,7 +428,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
@@ -433,6 +439,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
+  delete[] threads;
+
   //
   // Restore old signal handlers.
   //
-- 
2.43.0


From 2ad895e12cb29f9394b075e9c99d798cc556915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:06 +0000
Subject: [PATCH 53/59] fix: the Matlab functions put the signal handlers back
 on every exit and das and rect_sir notice CTRL-C

---
 extra_src/mex_circ_sir.cc    | 34 +++++-----------------------------
 extra_src/mex_conv_p.cc      | 34 +++++-----------------------------
 extra_src/mex_copy_p.cc      | 34 +++++-----------------------------
 extra_src/mex_das.cc         | 10 ++++------
 extra_src/mex_fftconv_ola.cc | 34 +++++-----------------------------
 extra_src/mex_fftconv_p.cc   | 34 +++++-----------------------------
 extra_src/mex_rect_sir.cc    |  5 +++--
 extra_src/mex_scirc_sir.cc   | 34 +++++-----------------------------
 extra_src/mex_sum_fftconv.cc | 34 +++++-----------------------------
 mex/mex_dream_arr_circ.cc    |  5 +++--
 mex/mex_dream_arr_cylind.cc  |  5 +++--
 mex/mex_dream_arr_rect.cc    |  5 +++--
 mex/mex_dreamcirc.cc         |  5 +++--
 mex/mex_dreamcirc_f.cc       |  5 +++--
 mex/mex_dreamcylind.cc       |  5 +++--
 mex/mex_dreamline.cc         |  5 +++--
 mex/mex_dreamrect.cc         |  5 +++--
 mex/mex_dreamrect_f.cc       |  5 +++--
 mex/mex_dreamsphere.cc       |  5 +++--
 19 files changed, 72 insertions(+), 231 deletions(-)

diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index cf6ee8f..2df25d7 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -31,6 +31,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 //
 // Globals
@@ -169,7 +170,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   size_t start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
 
   ArgParser ap;
 
@@ -257,25 +257,17 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the analytic SIR subroutine.
   //
 
   //out_err = ErrorLevel::none;
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
 
@@ -328,22 +320,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   free((void*) D);
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 95c0cc8..e9a58d1 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -29,6 +29,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "conv.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -131,7 +132,6 @@ void sig_keyint_handler(int signum) {
 void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
   double *A = nullptr,*B = nullptr, *Y = nullptr;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   size_t col_start, col_stop, A_M, A_N, B_M, B_N;
   bool is_set = false;
   DATA *D = nullptr;
@@ -282,24 +282,16 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
@@ -357,22 +349,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index f71407a..238d0e0 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -33,6 +33,7 @@
 #include "dream_error.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -132,7 +133,6 @@ extern void _main();
 void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   size_t line_start, line_stop, A_M, A_N, B_M, B_N;
   size_t r_M, r_N, k_M, k_N;
   double         *r, *k;
@@ -221,24 +221,16 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the mem_copy subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D)
@@ -289,22 +281,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     // This may kill Matlab 7 release 14 (bug in Matlab).
     mexErrMsgTxt("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 941b7fe..b2e2d6f 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 // Persistent smart pointer to DAS object.
 // This one is only cleared when we do a
@@ -324,9 +325,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     das_f->set_running();
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -360,11 +358,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
 
     das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
   }
 
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index e91fabc..bb064b8 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -30,6 +30,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "fftconv.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -299,7 +300,6 @@ extern void _main();
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   std::thread *threads;
   double *Y = nullptr;
   DATA *D = nullptr;
@@ -542,17 +542,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   // ********************************************
   //
@@ -609,8 +603,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Failed to allocate memory for thread data!");
   }
 
-  running = true;
-
   for (dream_idx_type thread_n=0; thread_n<nthreads; thread_n++) {
 
     dream_idx_type col_start = thread_n * A_N/nthreads;
@@ -661,22 +653,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index e6b7154..88f5a7e 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -30,6 +30,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "fftconv.h"
+#include "signal_guard.h"
 
 #ifdef DEBUG
 #include <mutex>
@@ -194,7 +195,6 @@ extern void _main();
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
   double *A=nullptr,*B=nullptr, *Y=nullptr;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   std::thread     *threads;
   dream_idx_type thread_n, nthreads;
   dream_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
@@ -417,17 +417,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Init the FFTW plans.
@@ -473,8 +467,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
@@ -543,22 +535,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_rect_sir.cc b/extra_src/mex_rect_sir.cc
index 2b42deb..690fa0a 100644
--- a/extra_src/mex_rect_sir.cc
+++ b/extra_src/mex_rect_sir.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -111,8 +112,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   RectSir::set_running();
 
-  // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, RectSir::abort);
 
   //
   // Call the analytic rect_sir subroutine.
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index 15b47fd..a58193a 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -31,6 +31,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 //
 // Globals
@@ -170,7 +171,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   size_t start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
 
   ArgParser ap;
 
@@ -272,25 +272,17 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the sampled analytic SIR subroutine.
   //
 
   //out_err = ErrorLevel::none;
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
 
@@ -344,22 +336,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   free((void*) D);
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index aba7b6f..caa9578 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -31,6 +31,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "fftconv.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -159,7 +160,6 @@ extern void _main();
 
 void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   dream_idx_type col_start, col_stop, H_M, H_N, H_L, U_M, U_N;
   double *Y = nullptr;
   std::thread *threads;
@@ -323,17 +323,11 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Init the FFTW plans.
@@ -379,8 +373,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
@@ -441,22 +433,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index 8c509f4..d04c1cb 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -166,8 +167,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCirc::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index cba40a7..80549f0 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -171,8 +172,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCylind::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 3d11ba9..3a61200 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -167,8 +168,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrRect::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index 658eed8..28bca11 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -110,8 +111,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index 8ccaf5a..216ba0e 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -123,8 +124,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ_f::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index c0d0259..c31cb75 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -114,8 +115,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Cylind::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index df69643..26fb9d1 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -110,8 +111,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Line::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 455096a..8db5ba1 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -110,8 +111,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index 8ca1849..2b43ab6 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -123,8 +124,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect_f::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index df01af8..48526fc 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -110,8 +111,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Sphere::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
-- 
2.43.0


From 55136a8fc2d90d583b2b4a813f4e19969b4cd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:27 +0000
Subject: [PATCH 54/59] fix: the Julia array functions ignored the window
 parameter

---
 julia/src/jl_dream_arr_annu.cc   | 2 +-
 julia/src/jl_dream_arr_circ.cc   | 2 +-
 julia/src/jl_dream_arr_cylind.cc | 2 +-
 julia/src/jl_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 646addf..5aa1c88 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -130,7 +130,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index 54f1b15..f9453fa 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index d82aa19..b8fba9b 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -158,7 +158,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index a4c426a..0e30bc2 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From 15d6444e393904ebdbaf64e83047948b1c7e3285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:27 +0000
Subject: [PATCH 55/59] fix: the Julia dream_arr_annu took the number of radii
 for the number of elements

---
 julia/src/jl_dream_arr_annu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 5aa1c88..2ef94f1 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -71,7 +71,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   auto G_m = ap.get_len(jl_G);
   double *G = ap.get_data(jl_G);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = ap.get_len(jl_G);
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -172,7 +173,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
                                          dx, dy,  dt, nt,
                                          delay_type, delay,
                                          v, cp,
-                                         num_elements, G,
+                                         num_radii, G,
                                          foc_met, focal.get(),
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
-- 
2.43.0


From 2eb9eceeddbbbd45ba66cc73d89c57449babbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:27 +0000
Subject: [PATCH 56/59] fix: the Julia dreamcylind did not warn of
 contributions outside the window

---
 julia/src/jl_dreamcylind.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index a348384..c7a92f3 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -152,6 +152,10 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
   }
 
   return jl_h_mat;
+  if (err == SIRError::warn_out_of_bounds) {
+    std::cout << "Warning: SIR out-of-bounds!" << std::endl;
+  }
+
 }
 
 /***
-- 
2.43.0


From e26a601e20bf94781d68f0d6d380c072814cee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:27 +0000
Subject: [PATCH 57/59] fix: the Julia das with too few A-scans or device 'gpu'

---
 julia/include/jl_das.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index 25852f3..005c5ed 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -89,6 +89,16 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   }
 
   //
+  // There must be one A-scan for each element (SAFT) or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements > 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if ((dream_idx_type) ap.get_n(jl_Y) < num_a_scans) {
+    throw std::runtime_error("Argument 1 has too few columns (A-scans)!");
+  }
+
   // Observation point.
   //
 
@@ -140,7 +150,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From 4bba4dc70b0a312c228c03bbd5ac6db26130d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:27 +0000
Subject: [PATCH 58/59] fix: the Julia convolution functions compute on the
 calling thread when a worker thread cannot be started

---
 julia/src/jl_conv_p.cc    | 24 ++++++++++--------------
 julia/src/jl_fftconv_p.cc | 24 ++++++++++--------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index f03f8b8..d58b30e 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -249,8 +249,12 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_conv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_conv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_conv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_conv(&D[0]);
     }
@@ -259,7 +263,9 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
@@ -268,17 +274,7 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
+  delete[] threads;
 
   if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
     std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index 5a1ef2f..45c2b81 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -312,8 +312,12 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
 
     if (nthreads > 1) {
       // Start the threads.
-      threads[thread_n] = std::thread(smp_dream_fftconv, &D[thread_n]);
-      set_dream_thread_affinity(thread_n, nthreads, threads);
+      try {
+        threads[thread_n] = std::thread(smp_dream_fftconv, &D[thread_n]);
+        set_dream_thread_affinity(thread_n, nthreads, threads);
+      } catch (const std::exception&) {
+        smp_dream_fftconv(&D[thread_n]); // Could not start a thread so do the work here.
+      }
     } else {
       smp_dream_fftconv(&D[0]);
     }
@@ -322,7 +326,9 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   if (nthreads > 1) {
     // Wait for all threads to finish.
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
-      threads[thread_n].join();
+      if (threads[thread_n].joinable()) {
+        threads[thread_n].join();
+      }
     }
   }
 
@@ -331,17 +337,7 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
+  delete[] threads;
 
   if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
     std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-- 
2.43.0


From e1b9754922109297a39e8e4a9166fbf70f5f3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:27 +0000
Subject: [PATCH 59/59] fix: the Julia functions put the signal handlers back
 on every exit and das and the convolutions notice CTRL-C

---
 julia/include/jl_das.hpp         |  7 ++++---
 julia/src/jl_conv_p.cc           | 22 +++++++---------------
 julia/src/jl_dream_arr_annu.cc   |  6 +++---
 julia/src/jl_dream_arr_circ.cc   |  5 +++--
 julia/src/jl_dream_arr_cylind.cc |  5 +++--
 julia/src/jl_dream_arr_rect.cc   |  5 +++--
 julia/src/jl_dreamcirc.cc        |  5 +++--
 julia/src/jl_dreamcirc_f.cc      |  5 +++--
 julia/src/jl_dreamcylind.cc      |  7 ++++---
 julia/src/jl_dreamline.cc        |  5 +++--
 julia/src/jl_dreamrect.cc        |  5 +++--
 julia/src/jl_dreamrect_f.cc      |  5 +++--
 julia/src/jl_dreamsphere.cc      |  5 +++--
 julia/src/jl_fftconv_p.cc        | 22 +++++++---------------
 14 files changed, 52 insertions(+), 57 deletions(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index 005c5ed..b1476f0 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -88,7 +89,6 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
     Gr = static_cast<T*>(ap.get_data(jl_Gr));
   }
 
-  //
   // There must be one A-scan for each element (SAFT) or for each pair of elements.
   dream_idx_type num_a_scans = num_t_elements;
   if (num_r_elements > 0) {
@@ -99,6 +99,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
     throw std::runtime_error("Argument 1 has too few columns (A-scans)!");
   }
 
+  //
   // Observation point.
   //
 
@@ -220,8 +221,8 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
 
   das->set_running();
 
-  // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index d58b30e..9b1c7d2 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -29,6 +29,7 @@
 #include "conv.h"
 
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -133,7 +134,6 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
                                   jl::ArrayRef<double, 2> jl_B)
 {
   ArgParser<double> ap;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   DATA *D = nullptr;
   ConvMode conv_mode = ConvMode::equ;
 
@@ -191,17 +191,11 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Create an output matrix
@@ -216,8 +210,6 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   // Call the CONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
@@ -276,8 +268,8 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
 
   delete[] threads;
 
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
+  if (!running) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
   }
 
   return jl_Y_mat;
diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 2ef94f1..73534c3 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_annu.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -68,7 +69,6 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Error in dream_arr_annu!");
   }
 
-  auto G_m = ap.get_len(jl_G);
   double *G = ap.get_data(jl_G);
 
   dream_idx_type num_radii = ap.get_len(jl_G);
@@ -161,8 +161,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
 
   ArrAnnu::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index f9453fa..46cdfcf 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_circ.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -183,8 +184,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
 
   ArrCirc::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index b8fba9b..bf64322 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_cylind.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -187,8 +188,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
 
   ArrCylind::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 0e30bc2..3acb494 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_rect.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -183,8 +184,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
 
   ArrRect::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcirc.cc b/julia/src/jl_dreamcirc.cc
index f3733c1..1a2897b 100644
--- a/julia/src/jl_dreamcirc.cc
+++ b/julia/src/jl_dreamcirc.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -122,8 +123,8 @@ jl::ArrayRef<double, 2> jl_dreamcirc(jl::ArrayRef<double, 2> jl_ro,
 
   Circ::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcirc_f.cc b/julia/src/jl_dreamcirc_f.cc
index 6228fe4..b8db9a3 100644
--- a/julia/src/jl_dreamcirc_f.cc
+++ b/julia/src/jl_dreamcirc_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc_f.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -135,8 +136,8 @@ jl::ArrayRef<double, 2> jl_dreamcirc_f(jl::ArrayRef<double, 2> jl_ro,
 
   Circ_f::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index c7a92f3..5ba0f5b 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcylind.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -126,8 +127,8 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
 
   Cylind::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
@@ -151,11 +152,11 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Error in dreamcylind!");
   }
 
-  return jl_h_mat;
   if (err == SIRError::warn_out_of_bounds) {
     std::cout << "Warning: SIR out-of-bounds!" << std::endl;
   }
 
+  return jl_h_mat;
 }
 
 /***
diff --git a/julia/src/jl_dreamline.cc b/julia/src/jl_dreamline.cc
index bf27857..d0dd258 100644
--- a/julia/src/jl_dreamline.cc
+++ b/julia/src/jl_dreamline.cc
@@ -26,6 +26,7 @@
 
 #include "dreamline.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -122,8 +123,8 @@ jl::ArrayRef<double, 2> jl_dreamline(jl::ArrayRef<double, 2> jl_ro,
 
   Line::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamrect.cc b/julia/src/jl_dreamrect.cc
index 15af326..1aa97e7 100644
--- a/julia/src/jl_dreamrect.cc
+++ b/julia/src/jl_dreamrect.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -122,8 +123,8 @@ jl::ArrayRef<double, 2> jl_dreamrect(jl::ArrayRef<double, 2> jl_ro,
 
   Rect::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamrect_f.cc b/julia/src/jl_dreamrect_f.cc
index 08b9c51..85f67fe 100644
--- a/julia/src/jl_dreamrect_f.cc
+++ b/julia/src/jl_dreamrect_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect_f.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -135,8 +136,8 @@ jl::ArrayRef<double, 2> jl_dreamrect_f(jl::ArrayRef<double, 2> jl_ro,
 
   Rect_f::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamsphere.cc b/julia/src/jl_dreamsphere.cc
index c00308e..9636b9a 100644
--- a/julia/src/jl_dreamsphere.cc
+++ b/julia/src/jl_dreamsphere.cc
@@ -26,6 +26,7 @@
 
 #include "dreamsphere.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -122,8 +123,8 @@ jl::ArrayRef<double, 2> jl_dreamsphere(jl::ArrayRef<double, 2> jl_ro,
 
   Sphere::set_running();
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (the old one is put back on every exit).
+  SignalGuard sig_guard(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index 45c2b81..32f7107 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -30,6 +30,7 @@
 #include "fftconv.h"
 
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -183,7 +184,6 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
                                   jl::ArrayRef<double, 2> jl_B)
 {
   ArgParser<double> ap;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   DATA *D = nullptr;
   ConvMode conv_mode = ConvMode::equ;
 
@@ -253,17 +253,11 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
+  running = true; // Set before the handlers are registered so that no interrupt is lost.
 
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Create an output matrix
@@ -278,8 +272,6 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   // Call the FFTCONV subroutine.
   //
 
-  running = true;
-
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
@@ -339,8 +331,8 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
 
   delete[] threads;
 
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
+  if (!running) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
   }
 
   return jl_Y_mat;
-- 
2.43.0

