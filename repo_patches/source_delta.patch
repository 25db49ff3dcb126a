From a42a0386044480e5a25ea706e1367a4f6f49d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 01/20] fix: side of the cut in Li3..Li6 when arg(z) underflows

For 0 < |Im z| << Re z the angle of z underflows to +-0, so its sign no
longer tells on which side of the cut z is: the arguments below the cut were
treated as being on it, and those above it were given the value from below.
Use the sign of the imaginary part.
---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 2 +-
 src/fortran/Li4.f90 | 2 +-
 src/fortran/Li5.f90 | 2 +-
 src/fortran/Li6.f90 | 2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..8695e2b 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -167,7 +167,7 @@ double _Complex cli3(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -pos_clog(1.0 - 1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -319,7 +319,7 @@ long double _Complex cli3l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0L ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -pos_clogl(1.0L - 1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..7d92b80 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -226,7 +226,7 @@ double _Complex cli4(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -pos_clog(1.0 - 1.0/z);
@@ -379,7 +379,7 @@ long double _Complex cli4l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -pos_clogl(1.0L - 1.0L/z);
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..462f0cb 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -86,7 +86,7 @@ double _Complex cli5(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -pos_clog(1.0 - 1.0/z);
@@ -238,7 +238,7 @@ long double _Complex cli5l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -pos_clogl(1.0L - 1.0L/z);
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..7183cec 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -88,7 +88,7 @@ double _Complex cli6(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -pos_clog(1.0 - 1.0/z);
@@ -249,7 +249,7 @@ long double _Complex cli6l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -pos_clogl(1.0L - 1.0L/z);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..c1c5cb0 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -175,7 +175,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -317,7 +317,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..6b89c36 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -224,7 +224,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -369,7 +369,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..c6c8a12 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -83,7 +83,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -228,7 +228,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..5f46090 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -86,7 +86,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -236,7 +236,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..b2a098f 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -168,7 +168,7 @@ double complex function cdli3(z)
       u = -pos_cdlog(1 - z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..04eac54 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -229,7 +229,7 @@ double complex function cdli4(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..3c63d6c 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -82,7 +82,7 @@ double complex function cdli5(z)
       u = -pos_cdlog(1 - z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..db0c261 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -83,7 +83,7 @@ double complex function cdli6(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
-- 
2.43.0


From 2b75ce2a8f04045aefd56807ba756b9667f3d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 02/20] fix: loss of relative accuracy of C and Fortran
 Li3..Li6 for small |z|

log(1 - z) has no accuracy left for |z| << 1, as has log(1 - 1/z) for
|z| >> 1; use the available log1p instead, as the C++ versions do.
---
 src/c/Li3.c         | 8 ++++----
 src/c/Li4.c         | 8 ++++----
 src/c/Li5.c         | 8 ++++----
 src/c/Li6.c         | 8 ++++----
 src/fortran/Li3.f90 | 6 +++---
 src/fortran/Li4.f90 | 6 +++---
 src/fortran/Li5.f90 | 6 +++---
 src/fortran/Li6.f90 | 6 +++---
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index 8695e2b..a3d67e6 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 7d92b80..ef0fd08 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 462f0cb..5b2d9eb 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 7183cec..c5f8b08 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index b2a098f..faac090 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0 .or. iz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 04eac54..e32ca32 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -164,7 +164,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -225,7 +225,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -235,7 +235,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 3c63d6c..7206533 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0 .or. iz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index db0c261..875a33a 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From 8cfe3e776fdbb6dc97ec643863967b48d6ea6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 03/20] fix: loss of relative accuracy of cli2f for small |z|

Use log1p in single precision, too, as the C++ version does.
---
 src/c/Li2.c |  8 ++++----
 src/c/log.c | 16 ++++++++++++++++
 src/c/log.h |  3 +++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..87e59fa 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
-- 
2.43.0


From a6e292aa28d2fc8bc64e0212b699741db74aaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 04/20] fix: Fortran dcl2..dcl6 and dli4 must not change their
 argument

The caller's variable was overwritten with the reduced angle or with 1/x.
---
 src/fortran/Cl2.f90 |  6 ++++--
 src/fortran/Cl3.f90 |  7 +++++--
 src/fortran/Cl4.f90 |  6 ++++--
 src/fortran/Cl5.f90 |  7 +++++--
 src/fortran/Cl6.f90 |  6 ++++--
 src/fortran/Li4.f90 | 21 +++++++++++----------
 6 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..4fe89fb 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_2(\theta) = \operatorname{Im}(\operatorname{Li}_2(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_2(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl2(x)
       9.5432542196310670D-6,                &
      -1.8184302880448247D-8                 /)
 
+  x = theta
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..1680fa7 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_3(\theta) = \operatorname{Re}(\operatorname{Li}_3(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_3(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..c3be462 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_4(\theta) = \operatorname{Im}(\operatorname{Li}_4(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_4(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl4(x)
       5.9283675098376635D-7,                &
       9.4127575773361230D-10                /)
 
+  x = theta
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..b1d0dbd 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_5(\theta) = \operatorname{Re}(\operatorname{Li}_5(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_5(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..c3ffe19 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_6(\theta) = \operatorname{Im}(\operatorname{Li}_6(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_6(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl6(x)
       3.5669441618295266D-8,                &
       2.5315391843409925D-10                /)
 
+  x = theta
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index e32ca32..d1c02a6 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -109,7 +109,7 @@ end function dli4_one
 !*********************************************************************
 double precision function dli4(x)
   implicit none
-  double precision :: x, app, rest, sgn, l, l2
+  double precision :: x, y, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
@@ -118,7 +118,7 @@ double precision function dli4(x)
   if (x .lt. -1) then
      l = log(-x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = -7.0D0/4*zeta4 + l2*(-0.5D0*zeta2 - 1.0D0/24*l2)
      sgn = -1
   elseif (x .eq. -1) then
@@ -128,6 +128,7 @@ double precision function dli4(x)
      dli4 = x
      return
   elseif (x .lt. 1) then
+     y = x
      rest = 0
      sgn = 1
   elseif (x .eq. 1) then
@@ -136,19 +137,19 @@ double precision function dli4(x)
   else ! x > 1
      l = log(x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = 2*zeta4 + l2*(zeta2 - 1.0D0/24*l2)
      sgn = -1
   endif
 
-  if (x .lt. 0) then
-     app = dli4_neg(x)
-  elseif (x .lt. 0.5D0) then
-     app = dli4_half(x)
-  elseif (x .lt. 0.8D0) then
-     app = dli4_mid(x)
+  if (y .lt. 0) then
+     app = dli4_neg(y)
+  elseif (y .lt. 0.5D0) then
+     app = dli4_half(y)
+  elseif (y .lt. 0.8D0) then
+     app = dli4_mid(y)
   else ! x <= 1
-     app = dli4_one(x)
+     app = dli4_one(y)
   endif
 
   dli4 = rest + sgn*app
-- 
2.43.0


From ed4c460e0a6adb741af0ce4d3ffa20acd90ad86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 05/20] fix: real Li2(-inf) is -inf, not NaN

log(1-x)/2 - log(-x) is inf - inf there; write log(-x) as log(1-x) + log(1-y)
with y = 1/(1-x).
---
 src/c/Li2.c         | 6 +++---
 src/cpp/Li2.cpp     | 6 +++---
 src/fortran/Li2.f90 | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 87e59fa..624d059 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -40,7 +40,7 @@ float li2f(float x)
    if (x < -1) {
       const float l = logf(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5f*l - logf(-x));
+      r = -PI*PI/6 - l*(0.5f*l + log1pf(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -117,7 +117,7 @@ double li2(double x)
    if (x < -1) {
       const double l = log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5*l - log(-x));
+      r = -PI*PI/6 - l*(0.5*l + log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -245,7 +245,7 @@ long double li2l(long double x)
    if (x < -1) {
       const long double l = logl(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5L*l - logl(-x));
+      r = -PI*PI/6 - l*(0.5L*l + log1pl(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..ba00693 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -35,7 +35,7 @@ float Li2(float x) noexcept
    if (x < -1) {
       const float l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5f*l - std::log(-x));
+      r = -PI*PI/6 - l*(0.5f*l + std::log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -112,7 +112,7 @@ double Li2(double x) noexcept
    if (x < -1) {
       const double l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5*l - std::log(-x));
+      r = -PI*PI/6 - l*(0.5*l + std::log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -239,7 +239,7 @@ long double Li2(long double x) noexcept
    if (x < -1) {
       const long double l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5L*l - std::log(-x));
+      r = -PI*PI/6 - l*(0.5L*l + std::log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..fb639e3 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -40,7 +40,7 @@ double precision function dli2(x)
    if (x .lt. -1) then
       l = log(1 - x)
       y = 1/(1 - x)
-      r = -PI**2/6 + l*(0.5D0*l - log(-x))
+      r = -PI**2/6 - l*(0.5D0*l + log(1 - y))
       s = 1
    elseif (x .eq. -1) then
       dli2 = -PI**2/12
-- 
2.43.0


From 867170898b2c014fe5d52871240f90ae39278d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 06/20] fix: Fortran cdli2(NaN + 0 i) returned an uninitialised
 value

---
 src/fortran/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index fb639e3..7627625 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), iz)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .gt. 1) then
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     else
+        cdli2 = dcmplx(dli2(rz), iz)
+     endif
      return
   endif
 
-- 
2.43.0


From 748875e4ed7e657f3436e86f914894b75591e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 07/20] fix: loss of relative accuracy of Li(1,z) for small |z|

---
 src/cpp/Li.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..ce8feba 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -13,6 +13,7 @@
 #include "eta.hpp"
 #include "factorial.hpp"
 #include "harmonic.hpp"
+#include "log.hpp"
 #include "zeta.hpp"
 #include <cmath>
 #include <complex>
@@ -207,6 +208,9 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
+      if (std::norm(z) < 0.25) {
+         return -log1p(-z);
+      }
       return -clog(1.0 - z);
    } else if (n == 2) {
       return Li2(z);
-- 
2.43.0


From 138282b719b669047d4ba97f37567fb48ca4acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 08/20] fix: NaN and infinite Li(n,z) for large n and large |z|

The power ln(-z)^(n-2k) overflows while 1/(n-2k)! underflows; build up
ln(-z)^j/j! instead.  Also make the convergence test effective: old_sum was
never set.
---
 src/cpp/Li.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index ce8feba..b09cd66 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -151,17 +151,18 @@ namespace {
       const std::complex<double> lnz2 = lnz*lnz;
       const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
       std::complex<double> p = is_even(n) ? 1.0 : lnz;
-      std::complex<double> sum(0.0, 0.0), old_sum;
+      std::complex<double> sum(0.0, 0.0);
 
+      // p = lnz^j/j! with j = n - 2*k
       for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
-         if (sum == old_sum) { break; }
+         const double j = n - 2*k;
+         const auto old_sum = sum;
+         sum += neg_eta(2*k)*p;
+         p *= lnz2/((j + 1)*(j + 2));
+         if (sum == old_sum && j > std::abs(lnz)) { return 2.0*sum; }
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0


From 289b6e402ef963d5c7e99bbe0b16c36fa705da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 09/20] fix: signed overflow and NaN of harmonic(INT64_MAX)

---
 src/cpp/harmonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/harmonic.cpp b/src/cpp/harmonic.cpp
index 84e3e0d..c408852 100644
--- a/src/cpp/harmonic.cpp
+++ b/src/cpp/harmonic.cpp
@@ -63,7 +63,7 @@ double harmonic(int64_t n) noexcept
       return sum;
    } else {
       const double eulergamma = 0.57721566490153286;
-      return eulergamma + digamma(n + 1);
+      return eulergamma + digamma(n) + 1.0/n;
    }
 }
 
-- 
2.43.0


From c48a63a4805408ea39386b64a542a5b6d0f35ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 10/20] fix: Li(n,z) did not return for huge |n|

The expansion around z = 1 summed O(n) terms that had long underflowed, and for
n close to INT64_MIN 1 - n, n - 1 and n - k overflowed and the sum was NaN, which never compares equal.
---
 src/cpp/Li.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index b09cd66..ddf0eef 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -73,6 +73,7 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         if (p == 0.0) { return sum; }
          sum += zeta(n - j)*p;
       }
 
@@ -119,7 +120,9 @@ namespace {
    {
       const std::complex<double> lnz = clog(z);
       const std::complex<double> lnz2 = lnz*lnz;
-      std::complex<double> sum = std::tgamma(1 - n)*stable_pow(-lnz, n - 1);
+      const double gamma = std::tgamma(1.0 - n);
+      if (std::isinf(gamma)) { return {nan, nan}; }
+      std::complex<double> sum = gamma*stable_pow(-lnz, n - 1);
       std::complex<double> lnzk, sum_old, term;
       int64_t k;
 
@@ -203,7 +206,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
          return Li_unity_neg(n, z);
       }
       const auto sqrtz = std::sqrt(z);
-      return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
+      return std::exp2(n - 1.0)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
       return z/((1.0 - z)*(1.0 - z));
    } else if (n == 0) {
-- 
2.43.0


From 94e0e11a0bc1991ecf2b0f1c5fc84a100860a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 11/20] fix: loss of accuracy of Li(n,z) for n < -1 away from
 the unit circle

The power series cancels for z away from the positive axis unless |z| is small
compared with 2^n, and the duplication formula cancels for large |z|.  Use the
series only where it does not cancel, reduce |z| > 1 by inversion, and do not
stop the expansion around z = 1 before its largest terms.  For n = -1 avoid the
overflow of (1-z)^2.
---
 src/cpp/Li.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index ddf0eef..3e9caf8 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -142,7 +142,7 @@ namespace {
          sum += term;
          lnzk *= lnz2;
          k += 2;
-      } while (sum != sum_old);
+      } while (sum != sum_old || k < -n); // terms grow up to k ~ -n
 
       return sum;
    }
@@ -199,16 +199,20 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (n < -1) {
       // arXiv:2010.09860
       const double nz = std::norm(z);
-      const double nl = std::norm(clog(z));
-      if (4*PI*PI*nz < nl) {
+      const auto lnz = clog(z);
+      const double nl = std::norm(lnz);
+      const double rl = std::real(lnz), il = std::imag(lnz);
+      if (4*PI*PI*nz < nl && (1.0 - n)*il*il < 4*rl*rl) {
          return Li_series(n, z);
       } else if (nl < 0.512*0.512*4*PI*PI) {
          return Li_unity_neg(n, z);
+      } else if (nz > 1) {
+         return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1.0)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
-      return z/((1.0 - z)*(1.0 - z));
+      return z/(1.0 - z)/(1.0 - z);
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-- 
2.43.0


From d51837d64117beccc9189e6e72e99eda67df3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 12/20] fix: side of the cut in Li3..Li6 next to the cut when
 arg(z) underflows near |z| = e

For Im(z) = denorm_min and 2 <= Re(z) < e, arg(z) underflows to 0 and the
expansion in log(z) took the value below the cut instead of above.
---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 1 +
 src/fortran/Li4.f90 | 1 +
 src/fortran/Li5.f90 | 1 +
 src/fortran/Li6.f90 | 1 +
 12 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index a3d67e6..299eaa7 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -140,7 +140,7 @@ double _Complex cli3(double _Complex z)
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
-      const double _Complex u  = lnz + pz*I; // clog(z)
+      const double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const double _Complex u2 = u*u;
       const double _Complex u4 = u2*u2;
       const double _Complex u8 = u4*u4;
@@ -272,7 +272,7 @@ long double _Complex cli3l(long double _Complex z)
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
-      const long double _Complex u  = lnz + pz*I; // clog(z)
+      const long double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const long double _Complex u2 = u*u;
       const long double _Complex c0 = zeta3 + u*(zeta2 - u2/12.0L);
       const long double _Complex c1 = 0.25L * (3.0L - 2.0L*pos_clogl(-u));
diff --git a/src/c/Li4.c b/src/c/Li4.c
index ef0fd08..fb63ad7 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -194,7 +194,7 @@ double _Complex cli4(double _Complex z)
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
-      const double _Complex u = lnz + pz*I; // clog(z)
+      const double _Complex u = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const double _Complex u2 = u*u;
       const double _Complex u4 = u2*u2;
       const double _Complex u8 = u4*u4;
@@ -332,7 +332,7 @@ long double _Complex cli4l(long double _Complex z)
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
-      const long double _Complex u = lnz + pz*I; // clog(z)
+      const long double _Complex u = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const long double _Complex u2 = u*u;
       const long double c1 = 1.20205690315959428539973816151144999L; // zeta(3)
       const long double c2 = 0.822467033424113218236207583323012595L;
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5b2d9eb..2f4a12f 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -55,7 +55,7 @@ double _Complex cli5(double _Complex z)
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
-      const double _Complex u  = lnz + pz*I; // clog(z)
+      const double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const double _Complex u2 = u*u;
       const double c0 = zeta5;
       const double c1 = 1.0823232337111382; // zeta(4)
@@ -190,7 +190,7 @@ long double _Complex cli5l(long double _Complex z)
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
-      const long double _Complex u  = lnz + pz*I; // clog(z)
+      const long double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const long double _Complex u2 = u*u;
       const long double c0 = zeta5;
       const long double c1 = 1.08232323371113819151600369654116790L; // zeta(4)
diff --git a/src/c/Li6.c b/src/c/Li6.c
index c5f8b08..e77b170 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -55,7 +55,7 @@ double _Complex cli6(double _Complex z)
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
-      const double _Complex u  = lnz + pz*I; // clog(z)
+      const double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const double _Complex u2 = u*u;
       const double c0 = zeta6;
       const double c1 = 1.0369277551433699; // zeta(5)
@@ -195,7 +195,7 @@ long double _Complex cli6l(long double _Complex z)
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
-      const long double _Complex u  = lnz + pz*I; // clog(z)
+      const long double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
       const long double _Complex u2 = u*u;
       const long double c0 = zeta6;
       const long double c1 = 1.03692775514336992633136548645703417L; // zeta(5)
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index c1c5cb0..01df2f7 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -148,7 +148,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<double> u(lnz, pz); // log(z)
+      const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const auto u2 = u*u;
       const auto u4 = u2*u2;
       const auto u8 = u4*u4;
@@ -279,7 +279,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<long double> u(lnz, pz); // log(z)
+      const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const auto u2 = u*u;
       const auto c0 = zeta3 + u*(zeta2 - u2/12.0L);
       const auto c1 = 0.25L * (3.0L - 2.0L*pos_log(-u));
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 6b89c36..fa32ed4 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -201,7 +201,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<double> u(lnz, pz); // log(z)
+      const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const double c1 = 1.2020569031595943; // zeta(3)
       const double c2 = 0.82246703342411322;
       const auto c3 = (11.0/6.0 - pos_log(-u))/6.0;
@@ -329,7 +329,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<long double> u(lnz, pz); // log(z)
+      const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const long double c1 = 1.20205690315959428539973816151144999L; // zeta(3)
       const long double c2 = 0.822467033424113218236207583323012595L;
       const auto c3 = (11.0L/6.0L - pos_log(-u))/6.0L;
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index c6c8a12..befcf49 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -58,7 +58,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<double> u(lnz, pz); // log(z)
+      const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const double c0 = zeta5;
       const double c1 = 1.0823232337111382; // zeta(4)
       const double c2 = 0.60102845157979714; // zeta(3)/2
@@ -186,7 +186,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<long double> u(lnz, pz); // log(z)
+      const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const long double c0 = zeta5;
       const long double c1 = 1.08232323371113819151600369654116790L; // zeta(4)
       const long double c2 = 0.601028451579797142699869080755724995L; // zeta(3)/2
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 5f46090..7abe8bc 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -58,7 +58,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<double> u(lnz, pz); // log(z)
+      const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const double c0 = zeta6;
       const double c1 = 1.0369277551433699; // zeta(5)
       const double c2 = 0.54116161685556910;
@@ -192,7 +192,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
-      const std::complex<long double> u(lnz, pz); // log(z)
+      const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
       const long double c0 = zeta6;
       const long double c1 = 1.03692775514336992633136548645703417L; // zeta(5)
       const long double c2 = 0.541161616855569095758001848270583951L;
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index faac090..4b97a0d 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -149,6 +149,7 @@ double complex function cdli3(z)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
+      if (pz .eq. 0) pz = iz   ! arg(z) underflows
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
       u4 = u2**2
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index d1c02a6..11a3ec1 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -209,6 +209,7 @@ double complex function cdli4(z)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
+      if (pz .eq. 0) pz = iz   ! arg(z) underflows
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
       u4 = u2**2
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 7206533..ab4cc7b 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -62,6 +62,7 @@ double complex function cdli5(z)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
+      if (pz .eq. 0) pz = iz   ! arg(z) underflows
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
       c4 = (25D0/12 - pos_cdlog(-u))/24
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 875a33a..2956d2a 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -63,6 +63,7 @@ double complex function cdli6(z)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
+      if (pz .eq. 0) pz = iz   ! arg(z) underflows
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
       c5 = (137D0/60 - pos_cdlog(-u))/120
-- 
2.43.0


From 3c892378afaddf44bc270271f37859cd9b9af851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 13/20] fix: NaN from complex Li3..Li6 when |z| overflows but z
 is finite

---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 1 +
 src/fortran/Li4.f90 | 1 +
 src/fortran/Li5.f90 | 1 +
 src/fortran/Li6.f90 | 1 +
 12 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index 299eaa7..d2489bc 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -137,7 +137,7 @@ double _Complex cli3(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
@@ -269,7 +269,7 @@ long double _Complex cli3l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
diff --git a/src/c/Li4.c b/src/c/Li4.c
index fb63ad7..b66e2e0 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -191,7 +191,7 @@ double _Complex cli4(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
@@ -329,7 +329,7 @@ long double _Complex cli4l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2f4a12f..941b060 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -52,7 +52,7 @@ double _Complex cli5(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
@@ -187,7 +187,7 @@ long double _Complex cli5l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
diff --git a/src/c/Li6.c b/src/c/Li6.c
index e77b170..f3e38e1 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -52,7 +52,7 @@ double _Complex cli6(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
@@ -192,7 +192,7 @@ long double _Complex cli6l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + (pz != 0 ? pz : iz)*I; // clog(z), arg(z) may underflow
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index 01df2f7..ef4143d 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -145,7 +145,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
@@ -276,7 +276,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index fa32ed4..44c492b 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -198,7 +198,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
@@ -326,7 +326,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index befcf49..1febd73 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
@@ -183,7 +183,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 7abe8bc..5742064 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
@@ -189,7 +189,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz != 0 ? pz : iz); // log(z), arg(z) may underflow
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 4b97a0d..a8153a0 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -147,6 +147,7 @@ double complex function cdli3(z)
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
    lnz = log(nz)
+   if (nz .gt. huge(nz)) lnz = real(log(z)) ! |z| overflows
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       if (pz .eq. 0) pz = iz   ! arg(z) underflows
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 11a3ec1..d46a562 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -207,6 +207,7 @@ double complex function cdli4(z)
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
    lnz = log(nz)
+   if (nz .gt. huge(nz)) lnz = real(log(z)) ! |z| overflows
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       if (pz .eq. 0) pz = iz   ! arg(z) underflows
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index ab4cc7b..9d0308e 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -60,6 +60,7 @@ double complex function cdli5(z)
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
    lnz = log(nz)
+   if (nz .gt. huge(nz)) lnz = real(log(z)) ! |z| overflows
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       if (pz .eq. 0) pz = iz   ! arg(z) underflows
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 2956d2a..719c343 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -61,6 +61,7 @@ double complex function cdli6(z)
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
    lnz = log(nz)
+   if (nz .gt. huge(nz)) lnz = real(log(z)) ! |z| overflows
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       if (pz .eq. 0) pz = iz   ! arg(z) underflows
-- 
2.43.0


From b468fbfe95a5a8dfb06bb6397a243adea5122339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 14/20] fix: wrong complex Li2 for Re(z) > max/2, where 2*Re(z)
 overflows

---
 src/c/Li2.c         | 6 +++---
 src/cpp/Li2.cpp     | 6 +++---
 src/fortran/Li2.f90 | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 624d059..1a00d30 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,7 +341,7 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) {
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
@@ -422,7 +422,7 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) {
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
@@ -527,7 +527,7 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) {
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index ba00693..9e2d18d 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,7 +334,7 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -413,7 +413,7 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -506,7 +506,7 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 7627625..dc65aaf 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -142,7 +142,7 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (nz/2 .le. rz) then
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
-- 
2.43.0


From 1fff27b4cd7f807b95cac27b3f0ef50188a9384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 15/20] fix: NaN from Cl(n,x), n = 7,8,9, for x = denorm_min

---
 src/cpp/Cl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Cl.cpp b/src/cpp/Cl.cpp
index 1605f18..a2b9df8 100644
--- a/src/cpp/Cl.cpp
+++ b/src/cpp/Cl.cpp
@@ -307,7 +307,7 @@ double Cl(int64_t n, double x)
       const double sign1 = is_even((n + 1)/2) ? 1.0 : -1.0;
 
       // first line in Eq.(2.13)
-      const double term1 = x == 0 ? 0
+      const double term1 = x/2 == 0 ? 0 // x may be 0 or the smallest number
          : sign1*std::pow(x, n - 1)*inverse_factorial[n - 1] *
            std::log(2*std::sin(x/2));
 
-- 
2.43.0


From 43227b599e539a23a00b6f6d2e1a55acca6f00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 16/20] fix: NaN or endless loop of Li(n,z) when |z| overflows
 but z is finite

---
 src/cpp/Li.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 3e9caf8..b356f77 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -42,7 +42,9 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
-      return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
+      const double nz = std::hypot(std::real(z), std::imag(z));
+      // |z| may overflow
+      return { std::isinf(nz) ? std::real(std::log(z)) : std::log(nz), std::arg(z) };
    }
 
    /// Series expansion of Li_n(z) in terms of powers of z.
-- 
2.43.0


From da635e489f15ebf371f196f1b086ff3886373f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 17/20] fix: signed overflow in zeta(n) and neg_eta(n) for n =
 -INT64_MAX

---
 src/cpp/eta.cpp  | 2 +-
 src/cpp/zeta.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..2a59d28 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even(-(1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..b4aab24 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even(-(1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From 102fa96e1149d73a040b3ca9a9307b49828ddc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 18/20] fix: endless loop of Li(n,z), n > 6, for subnormal real
 or imaginary part

---
 src/cpp/Li.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index b356f77..6194761 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -34,6 +34,13 @@ namespace {
       return std::isfinite(std::real(z)) && std::isfinite(std::imag(z));
    }
 
+   /// true, if |Re(z)| and |Im(z)| are smaller than the smallest normal number
+   bool is_subnormal(const std::complex<double>& z) noexcept
+   {
+      constexpr double min = std::numeric_limits<double>::min();
+      return std::abs(std::real(z)) < min && std::abs(std::imag(z)) < min;
+   }
+
    /// complex logarithm, converts -0.0 to 0.0
    std::complex<double> clog(const std::complex<double>& z) noexcept
    {
@@ -60,6 +67,8 @@ namespace {
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
          if (!is_finite(p)) { break; }
+         // subnormal terms are negligible, but may no longer decrease
+         if (n > -k && is_subnormal(p)) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
@@ -92,7 +101,7 @@ namespace {
          p *= lnz2/static_cast<double>((j - 1)*j);
          const auto old_sum = sum;
          sum += zeta(n - j)*p;
-         if (sum == old_sum) { break; }
+         if (sum == old_sum || is_subnormal(p)) { break; }
       }
 
       return sum;
-- 
2.43.0


From 8bd594de583af6262be6296a5f52fdcfb7c49d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 19/20] fix: Li(n,z) did not return in directed rounding modes
 for huge n > 0

---
 src/cpp/Li.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 6194761..492d9f9 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -84,8 +84,8 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
-         if (p == 0.0) { return sum; }
          sum += zeta(n - j)*p;
+         if (is_subnormal(p)) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
@@ -173,7 +173,7 @@ namespace {
          const auto old_sum = sum;
          sum += neg_eta(2*k)*p;
          p *= lnz2/((j + 1)*(j + 2));
-         if (sum == old_sum && j > std::abs(lnz)) { return 2.0*sum; }
+         if ((sum == old_sum || is_subnormal(p)) && j > std::abs(lnz)) { return 2.0*sum; }
       }
 
       return 2.0*sum - p;
-- 
2.43.0


From 509a50d66eb5f807d0288ec0953e8b0a7dbd2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:50 +0000
Subject: [PATCH 20/20] fix: Cl3 to Cl6 of long double on [pi/2,pi):
 coefficients of quadruple accuracy

The rational functions had been fitted to a truncated series beyond its
range (at pi + y instead of pi - y).  Where long double has quadruple precision
the error was up to 2e-26 next to pi/2; with 64 bits the high degree cost
accuracy by cancellation next to the roots of Cl3 and Cl5.
---
 src/c/Cl3.c     | 92 ++++++++++++++++++-------------------------------
 src/c/Cl4.c     | 50 +++++++++++++--------------
 src/c/Cl5.c     | 90 ++++++++++++++++++-----------------------------
 src/c/Cl6.c     | 92 ++++++++++++++++++-------------------------------
 src/cpp/Cl3.cpp | 92 ++++++++++++++++++-------------------------------
 src/cpp/Cl4.cpp | 50 +++++++++++++--------------
 src/cpp/Cl5.cpp | 90 ++++++++++++++++++-----------------------------
 src/cpp/Cl6.cpp | 92 ++++++++++++++++++-------------------------------
 8 files changed, 248 insertions(+), 400 deletions(-)

diff --git a/src/c/Cl3.c b/src/c/Cl3.c
index f99f588..1836db9 100644
--- a/src/c/Cl3.c
+++ b/src/c/Cl3.c
@@ -147,73 +147,47 @@ long double cl3l(long double x)
       h = zeta3 + y*(p/q + logl(x)/2);
    } else {
       const long double P[] = {
-         -4.901702464763497295023867883920487195585e-01L,
-          1.383627100551763417738051599449773818178e+00L,
-         -1.844002682148364621305380083013461847933e+00L,
-          1.563880808732850065996446127297492925273e+00L,
-         -9.527454451278452672142805742734474223237e-01L,
-          4.444304509117015442253289733308961077770e-01L,
-         -1.647875030685306314220378800538115071507e-01L,
-          4.967825071601030726970818647842992410835e-02L,
-         -1.233860796084952133261104412894436518532e-02L,
-          2.541279038266908987516674931803683131910e-03L,
-         -4.345955367166196341753615932772484893528e-04L,
-          6.151865219319515057283373610462827653393e-05L,
-         -7.156818018509654192384040775515653410043e-06L,
-          6.767889054848634496309672687089961659404e-07L,
-         -5.125309226510821380097226378219650957199e-08L,
-          3.048859537856972635577813264215347682070e-09L,
-         -1.389976271585941361238252210621219258086e-10L,
-          4.704164267289991379740337499442804533393e-12L,
-         -1.132342670092216676813702977101988168170e-13L,
-          1.824345098049373687569378456747139377638e-15L,
-         -1.791641454777807114948357142007867857930e-17L,
-          9.108765355959209109895175829397816299966e-20L,
-         -1.660401736402055166724718838052384514483e-22L
+        -4.901702464763497295023867883920487103473e-01L,
+         6.133802272140167006707103389738275548032e-01L,
+        -2.785984463081546286012195051358142242355e-01L,
+         6.717893894905843190289524236147975850143e-02L,
+        -9.903609647035477517317154947705977602570e-03L,
+         9.517341698621050731868975510815717014447e-04L,
+        -6.125956037558488802400189269495613640890e-05L,
+         2.649167526868877857614245582931630447450e-06L,
+        -7.560625482594899072362558333193401305437e-08L,
+         1.364953701184811812580997446890776952819e-09L,
+        -1.439630970908805900202180249497411245737e-11L,
+         7.617665679039563810322319654909821354974e-14L,
+        -1.413675691163620389619314826474649428669e-16L
       };
       const long double Q[] = {
-          1.000000000000000000000000000000000000000e+00L,
-         -2.169855465456334109398757427681231252557e+00L,
-          2.322591192513290976964726281913672818074e+00L,
-         -1.625275527588871360012554245669893880287e+00L,
-          8.307827568524387115453112563337808771609e-01L,
-         -3.283520342971423622595752570043633453066e-01L,
-          1.036112385177655663181226022787541960128e-01L,
-         -2.658049675854302301943410969110308213449e-02L,
-          5.594232916811019674312451829387056772971e-03L,
-         -9.682117420514440669170644446720530951119e-04L,
-          1.373775076479943342597652514135717056402e-04L,
-         -1.585377827830451443222728940538258932617e-05L,
-          1.469487119911154060364041910223012615302e-06L,
-         -1.075235400618754592467376790070172663512e-07L,
-          6.072406717259994215240055677751661462408e-09L,
-         -2.571318839166908430254322849495115672150e-10L,
-          7.860204435599274911316716981969539571217e-12L,
-         -1.647194263529074575838983448164465153777e-13L,
-          2.194513208755261829948257460166939183883e-15L,
-         -1.645669178927884807010050119309005828655e-17L,
-          5.496854459511181731052565995680338061501e-20L,
-         -4.060391001681163801807157030538815464753e-23L,
-         -1.500455700173452211389785169624351996026e-26L
+         1.000000000000000000000000000000000000000e+00L,
+        -5.984690362008602539991890985720218800995e-01L,
+         1.549447831613152528748822505551382487491e-01L,
+        -2.273781816984679823541304334107329742176e-02L,
+         2.081753446801929396961614832191547730465e-03L,
+        -1.233408039328238432751442744062178105285e-04L,
+         4.747257168793647582743453559992181507304e-06L,
+        -1.159982627959286116879720776150914579337e-07L,
+         1.703678649677512406097476858514989892361e-09L,
+        -1.352488786239862693070883063635679732449e-11L,
+         4.648396334544196841259407513088259422496e-14L,
+        -3.468517228156990596521452107536521607227e-17L,
+        -1.282397503496540562358176697799167778919e-20L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
       const long double z2 = z*z;
       const long double z4 = z2*z2;
       const long double z8 = z4*z4;
-      const long double z16 = z8*z8;
-      const long double p = P[0] + z*P[1] + z2*(P[2] + z*P[3]) +
-         z4*(P[4] + z*P[5] + z2*(P[6] + z*P[7])) +
-         z8*(P[8] + z*P[9] + z2*(P[10] + z*P[11]) +
-             z4*(P[12] + z*P[13] + z2*(P[14] + z*P[15]))) +
-         z16*(P[16] + z*P[17] + z2*(P[18] + z*P[19]) +
-              z4*(P[20] + z*P[21] + z2*P[22]));
-      const long double q = Q[0] + z*Q[1] + z2*(Q[2] + z*Q[3]) +
-         z4*(Q[4] + z*Q[5] + z2*(Q[6] + z*Q[7])) +
-         z8*(Q[8] + z*Q[9] + z2*(Q[10] + z*Q[11]) +
-             z4*(Q[12] + z*Q[13] + z2*(Q[14] + z*Q[15]))) +
-         z16*(Q[16] + z*Q[17] + z2*(Q[18] + z*Q[19]) +
-              z4*(Q[20] + z*Q[21] + z2*Q[22]));
+      const long double p = P[0] + z * P[1] + z2 * (P[2] + z * P[3]) +
+         z4 * (P[4] + z * P[5] + z2 * (P[6] + z * P[7])) +
+         z8 * (P[8] + z * P[9] + z2 * (P[10] + z * P[11]) + z4 * P[12]);
+      const long double q = Q[0] + z * Q[1] + z2 * (Q[2] + z * Q[3]) +
+         z4 * (Q[4] + z * Q[5] + z2 * (Q[6] + z * Q[7])) +
+         z8 * (Q[8] + z * Q[9] + z2 * (Q[10] + z * Q[11]) + z4 * Q[12]);
+
       h = p/q;
    }
 
diff --git a/src/c/Cl4.c b/src/c/Cl4.c
index 3026834..1d022dc 100644
--- a/src/c/Cl4.c
+++ b/src/c/Cl4.c
@@ -159,34 +159,34 @@ long double cl4l(long double x)
       h = x*(zeta3 + y*(p/q + logl(x)/6));
    } else {
       const long double P[] = {
-         7.622391168649133627869594744879702180493e-01L,
-        -1.010231891148264580184081150011868846220e+00L,
-         5.593311843617106683456367723756675040735e-01L,
-        -1.750142535337254911463918175625637736546e-01L,
-         3.444639642923636356477676643239523643873e-02L,
-        -4.467089630163625626375503936549208950240e-03L,
-         3.886778570388940085712534905298979385012e-04L,
-        -2.267243475184570369108265113505191140730e-05L,
-         8.702335438867849048873191203867941600263e-07L,
-        -2.109129915929703527128733018891419256495e-08L,
-         2.988467123764362417450870076317332442258e-10L,
-        -2.133050389878217363160872116919842900528e-12L,
-         5.379728143941033611125864127082270782090e-15L
+         7.622391168649133627869594744879702062940e-01L,
+        -5.455953599111435900848388394453482918008e-01L,
+         1.724623918686346622117209291134841282958e-01L,
+        -3.169368416453125961674819255724534428375e-02L,
+         3.751165462905962087984834035796745878335e-03L,
+        -2.992570356203765478402668561788186491760e-04L,
+         1.636422100469904061855162598783450014634e-05L,
+        -6.114367424302744817895867048553796932470e-07L,
+         1.527355234546312952810914141404118422252e-08L,
+        -2.438802107858731887700617683406698853887e-10L,
+         2.295391132420221330890677204857049041169e-12L,
+        -1.092566832661067475151022558124260436561e-14L,
+         1.837210888033937263553182999973257094090e-17L
       };
       const long double Q[] = {
          1.000000000000000000000000000000000000000e+00L,
-        -1.180687938097183154430487264715729257263e+00L,
-         5.601395009696004947928229952758353602894e-01L,
-        -1.452335710129900283499882062220239913044e-01L,
-         2.262139281960755856101092904992480836291e-02L,
-        -2.192073007443907755835491584063761368816e-03L,
-         1.329216132182395210305478468336390325445e-04L,
-        -4.948002266894020612513545634482271857510e-06L,
-         1.075239424448883617918347989934070034554e-07L,
-        -1.231942925472515536287130721129266117605e-09L,
-         5.987816416306400663411961902200439505519e-12L,
-        -6.217050327376472635914508068068185584426e-15L,
-        -3.160114789318241107017689802541627876077e-18L
+        -5.711199941845572772213197938939510414305e-01L,
+         1.407769194786550653152996801449669979009e-01L,
+        -1.961767815351945944505567487510564448486e-02L,
+         1.700681581624309140039477425001971772154e-03L,
+        -9.510441840165650906880038405303526205972e-05L,
+         3.442497479843583271960476544461291760939e-06L,
+        -7.878855093116147336842048623996426981295e-08L,
+         1.078976457040335719811419618920783294539e-09L,
+        -7.946893695976435586639945334718102715861e-12L,
+         2.520650468414411971987661546838829364413e-14L,
+        -1.725978700648193777911172316623680074810e-17L,
+        -5.820754438276653950915906167348165773078e-21L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
diff --git a/src/c/Cl5.c b/src/c/Cl5.c
index 0b2e32f..ffe8bb0 100644
--- a/src/c/Cl5.c
+++ b/src/c/Cl5.c
@@ -146,71 +146,47 @@ long double cl5l(long double x)
       h = p/q - 1.0L/24*y2*logl(x);
    } else {
       const long double P[] = {
-         -4.593011273578489831122037919180632756992e-01L,
-          1.401498550034362701805821755409735004849e+00L,
-         -1.982304363064711766557880680480142023754e+00L,
-          1.759256162035262108299985791199116650552e+00L,
-         -1.107291973389099556880709229657630417009e+00L,
-          5.268325404326907430154018183034221801285e-01L,
-         -1.965358651607522994714557697339746608190e-01L,
-          5.871957972979889275145683305566978199622e-02L,
-         -1.420949697005558567627555469736533751386e-02L,
-          2.796107583559495331461649354270877844625e-03L,
-         -4.465744740639093809792128449171996370363e-04L,
-          5.748894292163274399653883756491192329322e-05L,
-         -5.896839706071169994406762984593861583644e-06L,
-          4.744162040470895539630087398826359252082e-07L,
-         -2.935072474912184831415614463651445914914e-08L,
-          1.362917540308020844217793474829589045233e-09L,
-         -4.607334782488962303281676898176385641774e-11L,
-          1.088416571921417630560594614106156147693e-12L,
-         -1.693492466827010829186922354118958201170e-14L,
-          1.579743944918170026644416986681028224058e-16L,
-         -7.454416400034827845657507019398034188457e-19L,
-          1.198637161245584739862544324830094607612e-21L
+        -4.593011273578489831122037919180632895797e-01L,
+         6.169458652043094564806988551058452068186e-01L,
+        -2.748955422627659002855505192659259059756e-01L,
+         6.367198521706336522091524800478867040749e-02L,
+        -8.980044667086060383235295170792367337133e-03L,
+         8.286305287700399256187373063843871722579e-04L,
+        -5.167712193143949494608930034148837096659e-05L,
+         2.195939926957514946472964186534679948276e-06L,
+        -6.281411215259624792650363264307940085531e-08L,
+         1.168054061054941922416060262342200299715e-09L,
+        -1.318495193008524430953397103483450765707e-11L,
+         7.901415351349373476291698343603482852311e-14L,
+        -1.820515182916296264790546252504819442361e-16L
       };
       const long double Q[] = {
-           1.000000000000000000000000000000000000000e+00L,
-          -2.221590435607426981424381339809382952069e+00L,
-           2.412461871413914536986570795505245816684e+00L,
-          -1.694345897219170542301900522084726731706e+00L,
-           8.583400353918575152767736792978326398967e-01L,
-          -3.312119064957463423272973014087119757079e-01L,
-           1.002294898527499697641480925721728343179e-01L,
-          -2.413139952253300495006378204579804376275e-02L,
-           4.641991091392426345416434800383383313512e-03L,
-          -7.106571006177041202150584409076882380159e-04L,
-           8.561490223086549530320523664905653696096e-05L,
-          -7.967787445964202721461699361010303143885e-06L,
-           5.582421743796253821134150677212091680429e-07L,
-          -2.848005320309192458445894966140050403870e-08L,
-           1.014286757743366612938336036904920512828e-09L,
-          -2.385238633505776782528334863036613070815e-11L,
-           3.420301781310778564389954330829757801274e-13L,
-          -2.629398993349212252716804572483435975360e-15L,
-           8.429482185232205831230867081060289901658e-18L,
-          -5.246319511505491796737303878146128855864e-21L,
-          -7.761839321681147483054193372291436641588e-25L,
-           2.417533650811564066454166411668509913721e-27L
+         1.000000000000000000000000000000000000000e+00L,
+        -5.134459567483636102241582998266240697908e-01L,
+         1.124423670914678025623741924244676908862e-01L,
+        -1.371760887581370812228524580322475169412e-02L,
+         1.021624534113927412635948327190511209623e-03L,
+        -4.786617360029160346185189638167582591747e-05L,
+         1.401856398819586824338117544423897119156e-06L,
+        -2.464041404898036198517343176603770231875e-08L,
+         2.375861160023605792101359270375177263707e-10L,
+        -1.033002479574309338272542040382501215022e-12L,
+         1.072615524514459289784708227880001444392e-15L,
+         7.202337494593874605906511988109029932266e-19L,
+         7.140166794911504998232720036622298134831e-22L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
       const long double z2 = z*z;
       const long double z4 = z2*z2;
       const long double z8 = z4*z4;
-      const long double z16 = z8*z8;
-      const long double p = P[0] + z*P[1] + z2*(P[2] + z*P[3]) +
-         z4*(P[4] + z*P[5] + z2*(P[6] + z*P[7])) +
-         z8*(P[8] + z*P[9] + z2*(P[10] + z*P[11]) +
-             z4*(P[12] + z*P[13] + z2*(P[14] + z*P[15]))) +
-         z16*(P[16] + z*P[17] + z2*(P[18] + z*P[19]) +
-              z4*(P[20] + z*P[21]));
-      const long double q = Q[0] + z*Q[1] + z2*(Q[2] + z*Q[3]) +
-         z4*(Q[4] + z*Q[5] + z2*(Q[6] + z*Q[7])) +
-         z8*(Q[8] + z*Q[9] + z2*(Q[10] + z*Q[11]) +
-             z4*(Q[12] + z*Q[13] + z2*(Q[14] + z*Q[15]))) +
-         z16*(Q[16] + z*Q[17] + z2*(Q[18] + z*Q[19]) +
-              z4*(Q[20] + z*Q[21]));
+      const long double p = P[0] + z * P[1] + z2 * (P[2] + z * P[3]) +
+         z4 * (P[4] + z * P[5] + z2 * (P[6] + z * P[7])) +
+         z8 * (P[8] + z * P[9] + z2 * (P[10] + z * P[11]) + z4 * P[12]);
+      const long double q = Q[0] + z * Q[1] + z2 * (Q[2] + z * Q[3]) +
+         z4 * (Q[4] + z * Q[5] + z2 * (Q[6] + z * Q[7])) +
+         z8 * (Q[8] + z * Q[9] + z2 * (Q[10] + z * Q[11]) + z4 * Q[12]);
+
       h = p/q;
    }
 
diff --git a/src/c/Cl6.c b/src/c/Cl6.c
index ed5ceba..112beb8 100644
--- a/src/c/Cl6.c
+++ b/src/c/Cl6.c
@@ -152,73 +152,47 @@ long double cl6l(long double x)
       h = x*(p/q - 1.0L/120*y2*logl(x));
    } else {
       const long double P[] = {
-          7.954450457802705032518570844852029808415e-01L,
-         -1.979654488543484542796423982466857472184e+00L,
-          2.434867838946397357375315454192170616124e+00L,
-         -1.964425998279360367244413531701686788004e+00L,
-          1.163493279389496220127087149386609481819e+00L,
-         -5.364077005864988957572986042062186039135e-01L,
-          1.991451450604170643782194918551652235412e-01L,
-         -6.075285910357297275594322567072299864962e-02L,
-          1.540382986766113987053539678403427170024e-02L,
-         -3.262283827598416962628772540178344338003e-03L,
-          5.770138838748397202025797274794204575025e-04L,
-         -8.484414959829259817085085809443855753227e-05L,
-          1.028090385459798495867863677951863946204e-05L,
-         -1.013685169455150840547824060456243954836e-06L,
-          7.999945234418244274075829768407844359782e-08L,
-         -4.952891486250932501218801565751739529817e-09L,
-          2.348815233867171539009806063660356488830e-10L,
-         -8.290157415183592261669982284003187521338e-12L,
-          2.099356902503040843690329973355214193519e-13L,
-         -3.624780995036058134427748307780059725260e-15L,
-          3.942847910228622725482057878552182375210e-17L,
-         -2.345906560814244916985213074113978675514e-19L,
-          5.497397893599040802663932665275542828208e-22L
+         7.954450457802705032518570844852029914696e-01L,
+        -5.258764070941275400800550237211326564932e-01L,
+         1.535337865469949515652963457205767837629e-01L,
+        -2.610223851201290441236581754178116609744e-02L,
+         2.868841389298357977770587108627525912148e-03L,
+        -2.139478286553727425504722465775333390163e-04L,
+         1.105086686370383823312903657410555901016e-05L,
+        -3.959997969991008925864028170120219362589e-07L,
+         9.692029200662370945753202640364126881287e-09L,
+        -1.561728995048714147737939975646083063489e-10L,
+         1.545459436541175639449075362847165693457e-12L,
+        -8.208105247793226986576276637731591679166e-15L,
+         1.693207534840749227849767291090407009517e-17L
       };
       const long double Q[] = {
-          1.000000000000000000000000000000000000000e+00L,
-         -2.317470577719543024485753572740604958739e+00L,
-          2.657078821297694611895446031834996152906e+00L,
-         -1.998173132007341993679896448865948292346e+00L,
-          1.101652499108299120694677562656808297062e+00L,
-         -4.714605359562262375267465521671001054303e-01L,
-          1.617420872947402588595250105881596491551e-01L,
-         -4.529168129075646577813431788905728209674e-02L,
-          1.044157981053687467828669325295558925061e-02L,
-         -1.984415953027051010511439725524140293510e-03L,
-          3.093087663153734127422305801345643761966e-04L,
-         -3.908979880746900739955710393100816436543e-05L,
-          3.932920430793276196786510478170661211424e-06L,
-         -3.069947838220881985252402565106441299447e-07L,
-          1.796593245006812188327588557650112423621e-08L,
-         -7.547660787922061824124166989056610198020e-10L,
-          2.154298038494995924762486242481055338867e-11L,
-         -3.878728177963117873055418445714408964957e-13L,
-          3.933225726003866890018525083062372496392e-15L,
-         -1.816273280755794317176857308245737055922e-17L,
-          1.999376255104830360180352396370413061880e-20L,
-          1.409076511280851323909957285090860978867e-23L,
-          1.442619469440665628791395058095914522784e-26L
+         1.000000000000000000000000000000000000000e+00L,
+        -4.898420203962494353777126314756106292559e-01L,
+         1.020953983976711914880352685309400833133e-01L,
+        -1.182238841332013920398981725895970234282e-02L,
+         8.332292565708700553655916750309123110123e-04L,
+        -3.681933215390672976787044955720346566021e-05L,
+         1.013089181669141674305320420676605273452e-06L,
+        -1.665557830470870139395874164354366173440e-08L,
+         1.494365525388388725297536450898011661552e-10L,
+        -6.009400791677689804524459872814110106877e-13L,
+         5.731208986394494584407569394590686132573e-16L,
+         3.507333152231503508417579577829794570348e-19L,
+         3.142479674671639544039994882642462574656e-22L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
       const long double z2 = z*z;
       const long double z4 = z2*z2;
       const long double z8 = z4*z4;
-      const long double z16 = z8*z8;
-      const long double p = P[0] + z*P[1] + z2*(P[2] + z*P[3]) +
-         z4*(P[4] + z*P[5] + z2*(P[6] + z*P[7])) +
-         z8*(P[8] + z*P[9] + z2*(P[10] + z*P[11]) +
-             z4*(P[12] + z*P[13] + z2*(P[14] + z*P[15]))) +
-         z16*(P[16] + z*P[17] + z2*(P[18] + z*P[19]) +
-              z4*(P[20] + z*P[21] + z2*P[22]));
-      const long double q = Q[0] + z*Q[1] + z2*(Q[2] + z*Q[3]) +
-         z4*(Q[4] + z*Q[5] + z2*(Q[6] + z*Q[7])) +
-         z8*(Q[8] + z*Q[9] + z2*(Q[10] + z*Q[11]) +
-             z4*(Q[12] + z*Q[13] + z2*(Q[14] + z*Q[15]))) +
-         z16*(Q[16] + z*Q[17] + z2*(Q[18] + z*Q[19]) +
-              z4*(Q[20] + z*Q[21] + z2*Q[22]));
+      const long double p = P[0] + z * P[1] + z2 * (P[2] + z * P[3]) +
+         z4 * (P[4] + z * P[5] + z2 * (P[6] + z * P[7])) +
+         z8 * (P[8] + z * P[9] + z2 * (P[10] + z * P[11]) + z4 * P[12]);
+      const long double q = Q[0] + z * Q[1] + z2 * (Q[2] + z * Q[3]) +
+         z4 * (Q[4] + z * Q[5] + z2 * (Q[6] + z * Q[7])) +
+         z8 * (Q[8] + z * Q[9] + z2 * (Q[10] + z * Q[11]) + z4 * Q[12]);
+
       h = y*p/q;
    }
 
diff --git a/src/cpp/Cl3.cpp b/src/cpp/Cl3.cpp
index d559b50..228d41e 100644
--- a/src/cpp/Cl3.cpp
+++ b/src/cpp/Cl3.cpp
@@ -150,73 +150,47 @@ long double Cl3(long double x) noexcept
       h = zeta3 + y*(p/q + 0.5*std::log(x));
    } else {
       const long double P[] = {
-         -4.901702464763497295023867883920487195585e-01L,
-          1.383627100551763417738051599449773818178e+00L,
-         -1.844002682148364621305380083013461847933e+00L,
-          1.563880808732850065996446127297492925273e+00L,
-         -9.527454451278452672142805742734474223237e-01L,
-          4.444304509117015442253289733308961077770e-01L,
-         -1.647875030685306314220378800538115071507e-01L,
-          4.967825071601030726970818647842992410835e-02L,
-         -1.233860796084952133261104412894436518532e-02L,
-          2.541279038266908987516674931803683131910e-03L,
-         -4.345955367166196341753615932772484893528e-04L,
-          6.151865219319515057283373610462827653393e-05L,
-         -7.156818018509654192384040775515653410043e-06L,
-          6.767889054848634496309672687089961659404e-07L,
-         -5.125309226510821380097226378219650957199e-08L,
-          3.048859537856972635577813264215347682070e-09L,
-         -1.389976271585941361238252210621219258086e-10L,
-          4.704164267289991379740337499442804533393e-12L,
-         -1.132342670092216676813702977101988168170e-13L,
-          1.824345098049373687569378456747139377638e-15L,
-         -1.791641454777807114948357142007867857930e-17L,
-          9.108765355959209109895175829397816299966e-20L,
-         -1.660401736402055166724718838052384514483e-22L
+        -4.901702464763497295023867883920487103473e-01L,
+         6.133802272140167006707103389738275548032e-01L,
+        -2.785984463081546286012195051358142242355e-01L,
+         6.717893894905843190289524236147975850143e-02L,
+        -9.903609647035477517317154947705977602570e-03L,
+         9.517341698621050731868975510815717014447e-04L,
+        -6.125956037558488802400189269495613640890e-05L,
+         2.649167526868877857614245582931630447450e-06L,
+        -7.560625482594899072362558333193401305437e-08L,
+         1.364953701184811812580997446890776952819e-09L,
+        -1.439630970908805900202180249497411245737e-11L,
+         7.617665679039563810322319654909821354974e-14L,
+        -1.413675691163620389619314826474649428669e-16L
       };
       const long double Q[] = {
-          1.000000000000000000000000000000000000000e+00L,
-         -2.169855465456334109398757427681231252557e+00L,
-          2.322591192513290976964726281913672818074e+00L,
-         -1.625275527588871360012554245669893880287e+00L,
-          8.307827568524387115453112563337808771609e-01L,
-         -3.283520342971423622595752570043633453066e-01L,
-          1.036112385177655663181226022787541960128e-01L,
-         -2.658049675854302301943410969110308213449e-02L,
-          5.594232916811019674312451829387056772971e-03L,
-         -9.682117420514440669170644446720530951119e-04L,
-          1.373775076479943342597652514135717056402e-04L,
-         -1.585377827830451443222728940538258932617e-05L,
-          1.469487119911154060364041910223012615302e-06L,
-         -1.075235400618754592467376790070172663512e-07L,
-          6.072406717259994215240055677751661462408e-09L,
-         -2.571318839166908430254322849495115672150e-10L,
-          7.860204435599274911316716981969539571217e-12L,
-         -1.647194263529074575838983448164465153777e-13L,
-          2.194513208755261829948257460166939183883e-15L,
-         -1.645669178927884807010050119309005828655e-17L,
-          5.496854459511181731052565995680338061501e-20L,
-         -4.060391001681163801807157030538815464753e-23L,
-         -1.500455700173452211389785169624351996026e-26L
+         1.000000000000000000000000000000000000000e+00L,
+        -5.984690362008602539991890985720218800995e-01L,
+         1.549447831613152528748822505551382487491e-01L,
+        -2.273781816984679823541304334107329742176e-02L,
+         2.081753446801929396961614832191547730465e-03L,
+        -1.233408039328238432751442744062178105285e-04L,
+         4.747257168793647582743453559992181507304e-06L,
+        -1.159982627959286116879720776150914579337e-07L,
+         1.703678649677512406097476858514989892361e-09L,
+        -1.352488786239862693070883063635679732449e-11L,
+         4.648396334544196841259407513088259422496e-14L,
+        -3.468517228156990596521452107536521607227e-17L,
+        -1.282397503496540562358176697799167778919e-20L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
       const long double z2 = z*z;
       const long double z4 = z2*z2;
       const long double z8 = z4*z4;
-      const long double z16 = z8*z8;
-      const long double p = P[0] + z*P[1] + z2*(P[2] + z*P[3]) +
-         z4*(P[4] + z*P[5] + z2*(P[6] + z*P[7])) +
-         z8*(P[8] + z*P[9] + z2*(P[10] + z*P[11]) +
-             z4*(P[12] + z*P[13] + z2*(P[14] + z*P[15]))) +
-         z16*(P[16] + z*P[17] + z2*(P[18] + z*P[19]) +
-              z4*(P[20] + z*P[21] + z2*P[22]));
-      const long double q = Q[0] + z*Q[1] + z2*(Q[2] + z*Q[3]) +
-         z4*(Q[4] + z*Q[5] + z2*(Q[6] + z*Q[7])) +
-         z8*(Q[8] + z*Q[9] + z2*(Q[10] + z*Q[11]) +
-             z4*(Q[12] + z*Q[13] + z2*(Q[14] + z*Q[15]))) +
-         z16*(Q[16] + z*Q[17] + z2*(Q[18] + z*Q[19]) +
-              z4*(Q[20] + z*Q[21] + z2*Q[22]));
+      const long double p = P[0] + z * P[1] + z2 * (P[2] + z * P[3]) +
+         z4 * (P[4] + z * P[5] + z2 * (P[6] + z * P[7])) +
+         z8 * (P[8] + z * P[9] + z2 * (P[10] + z * P[11]) + z4 * P[12]);
+      const long double q = Q[0] + z * Q[1] + z2 * (Q[2] + z * Q[3]) +
+         z4 * (Q[4] + z * Q[5] + z2 * (Q[6] + z * Q[7])) +
+         z8 * (Q[8] + z * Q[9] + z2 * (Q[10] + z * Q[11]) + z4 * Q[12]);
+
       h = p/q;
    }
 
diff --git a/src/cpp/Cl4.cpp b/src/cpp/Cl4.cpp
index 2617271..7d2fb97 100644
--- a/src/cpp/Cl4.cpp
+++ b/src/cpp/Cl4.cpp
@@ -160,34 +160,34 @@ long double Cl4(long double x) noexcept
       h = x*(zeta3 + y*(p/q + 1.0L/6*std::log(x)));
    } else {
       const long double P[] = {
-         7.622391168649133627869594744879702180493e-01L,
-        -1.010231891148264580184081150011868846220e+00L,
-         5.593311843617106683456367723756675040735e-01L,
-        -1.750142535337254911463918175625637736546e-01L,
-         3.444639642923636356477676643239523643873e-02L,
-        -4.467089630163625626375503936549208950240e-03L,
-         3.886778570388940085712534905298979385012e-04L,
-        -2.267243475184570369108265113505191140730e-05L,
-         8.702335438867849048873191203867941600263e-07L,
-        -2.109129915929703527128733018891419256495e-08L,
-         2.988467123764362417450870076317332442258e-10L,
-        -2.133050389878217363160872116919842900528e-12L,
-         5.379728143941033611125864127082270782090e-15L
+         7.622391168649133627869594744879702062940e-01L,
+        -5.455953599111435900848388394453482918008e-01L,
+         1.724623918686346622117209291134841282958e-01L,
+        -3.169368416453125961674819255724534428375e-02L,
+         3.751165462905962087984834035796745878335e-03L,
+        -2.992570356203765478402668561788186491760e-04L,
+         1.636422100469904061855162598783450014634e-05L,
+        -6.114367424302744817895867048553796932470e-07L,
+         1.527355234546312952810914141404118422252e-08L,
+        -2.438802107858731887700617683406698853887e-10L,
+         2.295391132420221330890677204857049041169e-12L,
+        -1.092566832661067475151022558124260436561e-14L,
+         1.837210888033937263553182999973257094090e-17L
       };
       const long double Q[] = {
          1.000000000000000000000000000000000000000e+00L,
-        -1.180687938097183154430487264715729257263e+00L,
-         5.601395009696004947928229952758353602894e-01L,
-        -1.452335710129900283499882062220239913044e-01L,
-         2.262139281960755856101092904992480836291e-02L,
-        -2.192073007443907755835491584063761368816e-03L,
-         1.329216132182395210305478468336390325445e-04L,
-        -4.948002266894020612513545634482271857510e-06L,
-         1.075239424448883617918347989934070034554e-07L,
-        -1.231942925472515536287130721129266117605e-09L,
-         5.987816416306400663411961902200439505519e-12L,
-        -6.217050327376472635914508068068185584426e-15L,
-        -3.160114789318241107017689802541627876077e-18L
+        -5.711199941845572772213197938939510414305e-01L,
+         1.407769194786550653152996801449669979009e-01L,
+        -1.961767815351945944505567487510564448486e-02L,
+         1.700681581624309140039477425001971772154e-03L,
+        -9.510441840165650906880038405303526205972e-05L,
+         3.442497479843583271960476544461291760939e-06L,
+        -7.878855093116147336842048623996426981295e-08L,
+         1.078976457040335719811419618920783294539e-09L,
+        -7.946893695976435586639945334718102715861e-12L,
+         2.520650468414411971987661546838829364413e-14L,
+        -1.725978700648193777911172316623680074810e-17L,
+        -5.820754438276653950915906167348165773078e-21L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
diff --git a/src/cpp/Cl5.cpp b/src/cpp/Cl5.cpp
index a4bd8f1..10a3ed1 100644
--- a/src/cpp/Cl5.cpp
+++ b/src/cpp/Cl5.cpp
@@ -149,71 +149,47 @@ long double Cl5(long double x) noexcept
       h = p/q - 1.0L/24*y2*std::log(x);
    } else {
       const long double P[] = {
-         -4.593011273578489831122037919180632756992e-01L,
-          1.401498550034362701805821755409735004849e+00L,
-         -1.982304363064711766557880680480142023754e+00L,
-          1.759256162035262108299985791199116650552e+00L,
-         -1.107291973389099556880709229657630417009e+00L,
-          5.268325404326907430154018183034221801285e-01L,
-         -1.965358651607522994714557697339746608190e-01L,
-          5.871957972979889275145683305566978199622e-02L,
-         -1.420949697005558567627555469736533751386e-02L,
-          2.796107583559495331461649354270877844625e-03L,
-         -4.465744740639093809792128449171996370363e-04L,
-          5.748894292163274399653883756491192329322e-05L,
-         -5.896839706071169994406762984593861583644e-06L,
-          4.744162040470895539630087398826359252082e-07L,
-         -2.935072474912184831415614463651445914914e-08L,
-          1.362917540308020844217793474829589045233e-09L,
-         -4.607334782488962303281676898176385641774e-11L,
-          1.088416571921417630560594614106156147693e-12L,
-         -1.693492466827010829186922354118958201170e-14L,
-          1.579743944918170026644416986681028224058e-16L,
-         -7.454416400034827845657507019398034188457e-19L,
-          1.198637161245584739862544324830094607612e-21L
+        -4.593011273578489831122037919180632895797e-01L,
+         6.169458652043094564806988551058452068186e-01L,
+        -2.748955422627659002855505192659259059756e-01L,
+         6.367198521706336522091524800478867040749e-02L,
+        -8.980044667086060383235295170792367337133e-03L,
+         8.286305287700399256187373063843871722579e-04L,
+        -5.167712193143949494608930034148837096659e-05L,
+         2.195939926957514946472964186534679948276e-06L,
+        -6.281411215259624792650363264307940085531e-08L,
+         1.168054061054941922416060262342200299715e-09L,
+        -1.318495193008524430953397103483450765707e-11L,
+         7.901415351349373476291698343603482852311e-14L,
+        -1.820515182916296264790546252504819442361e-16L
       };
       const long double Q[] = {
-           1.000000000000000000000000000000000000000e+00L,
-          -2.221590435607426981424381339809382952069e+00L,
-           2.412461871413914536986570795505245816684e+00L,
-          -1.694345897219170542301900522084726731706e+00L,
-           8.583400353918575152767736792978326398967e-01L,
-          -3.312119064957463423272973014087119757079e-01L,
-           1.002294898527499697641480925721728343179e-01L,
-          -2.413139952253300495006378204579804376275e-02L,
-           4.641991091392426345416434800383383313512e-03L,
-          -7.106571006177041202150584409076882380159e-04L,
-           8.561490223086549530320523664905653696096e-05L,
-          -7.967787445964202721461699361010303143885e-06L,
-           5.582421743796253821134150677212091680429e-07L,
-          -2.848005320309192458445894966140050403870e-08L,
-           1.014286757743366612938336036904920512828e-09L,
-          -2.385238633505776782528334863036613070815e-11L,
-           3.420301781310778564389954330829757801274e-13L,
-          -2.629398993349212252716804572483435975360e-15L,
-           8.429482185232205831230867081060289901658e-18L,
-          -5.246319511505491796737303878146128855864e-21L,
-          -7.761839321681147483054193372291436641588e-25L,
-           2.417533650811564066454166411668509913721e-27L
+         1.000000000000000000000000000000000000000e+00L,
+        -5.134459567483636102241582998266240697908e-01L,
+         1.124423670914678025623741924244676908862e-01L,
+        -1.371760887581370812228524580322475169412e-02L,
+         1.021624534113927412635948327190511209623e-03L,
+        -4.786617360029160346185189638167582591747e-05L,
+         1.401856398819586824338117544423897119156e-06L,
+        -2.464041404898036198517343176603770231875e-08L,
+         2.375861160023605792101359270375177263707e-10L,
+        -1.033002479574309338272542040382501215022e-12L,
+         1.072615524514459289784708227880001444392e-15L,
+         7.202337494593874605906511988109029932266e-19L,
+         7.140166794911504998232720036622298134831e-22L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
       const long double z2 = z*z;
       const long double z4 = z2*z2;
       const long double z8 = z4*z4;
-      const long double z16 = z8*z8;
-      const long double p = P[0] + z*P[1] + z2*(P[2] + z*P[3]) +
-         z4*(P[4] + z*P[5] + z2*(P[6] + z*P[7])) +
-         z8*(P[8] + z*P[9] + z2*(P[10] + z*P[11]) +
-             z4*(P[12] + z*P[13] + z2*(P[14] + z*P[15]))) +
-         z16*(P[16] + z*P[17] + z2*(P[18] + z*P[19]) +
-              z4*(P[20] + z*P[21]));
-      const long double q = Q[0] + z*Q[1] + z2*(Q[2] + z*Q[3]) +
-         z4*(Q[4] + z*Q[5] + z2*(Q[6] + z*Q[7])) +
-         z8*(Q[8] + z*Q[9] + z2*(Q[10] + z*Q[11]) +
-             z4*(Q[12] + z*Q[13] + z2*(Q[14] + z*Q[15]))) +
-         z16*(Q[16] + z*Q[17] + z2*(Q[18] + z*Q[19]) +
-              z4*(Q[20] + z*Q[21]));
+      const long double p = P[0] + z * P[1] + z2 * (P[2] + z * P[3]) +
+         z4 * (P[4] + z * P[5] + z2 * (P[6] + z * P[7])) +
+         z8 * (P[8] + z * P[9] + z2 * (P[10] + z * P[11]) + z4 * P[12]);
+      const long double q = Q[0] + z * Q[1] + z2 * (Q[2] + z * Q[3]) +
+         z4 * (Q[4] + z * Q[5] + z2 * (Q[6] + z * Q[7])) +
+         z8 * (Q[8] + z * Q[9] + z2 * (Q[10] + z * Q[11]) + z4 * Q[12]);
+
       h = p/q;
    }
 
diff --git a/src/cpp/Cl6.cpp b/src/cpp/Cl6.cpp
index 40f6e67..6ad9feb 100644
--- a/src/cpp/Cl6.cpp
+++ b/src/cpp/Cl6.cpp
@@ -155,73 +155,47 @@ long double Cl6(long double x) noexcept
       h = x*(p/q - 1.0L/120*y2*std::log(x));
    } else {
       const long double P[] = {
-          7.954450457802705032518570844852029808415e-01L,
-         -1.979654488543484542796423982466857472184e+00L,
-          2.434867838946397357375315454192170616124e+00L,
-         -1.964425998279360367244413531701686788004e+00L,
-          1.163493279389496220127087149386609481819e+00L,
-         -5.364077005864988957572986042062186039135e-01L,
-          1.991451450604170643782194918551652235412e-01L,
-         -6.075285910357297275594322567072299864962e-02L,
-          1.540382986766113987053539678403427170024e-02L,
-         -3.262283827598416962628772540178344338003e-03L,
-          5.770138838748397202025797274794204575025e-04L,
-         -8.484414959829259817085085809443855753227e-05L,
-          1.028090385459798495867863677951863946204e-05L,
-         -1.013685169455150840547824060456243954836e-06L,
-          7.999945234418244274075829768407844359782e-08L,
-         -4.952891486250932501218801565751739529817e-09L,
-          2.348815233867171539009806063660356488830e-10L,
-         -8.290157415183592261669982284003187521338e-12L,
-          2.099356902503040843690329973355214193519e-13L,
-         -3.624780995036058134427748307780059725260e-15L,
-          3.942847910228622725482057878552182375210e-17L,
-         -2.345906560814244916985213074113978675514e-19L,
-          5.497397893599040802663932665275542828208e-22L
+         7.954450457802705032518570844852029914696e-01L,
+        -5.258764070941275400800550237211326564932e-01L,
+         1.535337865469949515652963457205767837629e-01L,
+        -2.610223851201290441236581754178116609744e-02L,
+         2.868841389298357977770587108627525912148e-03L,
+        -2.139478286553727425504722465775333390163e-04L,
+         1.105086686370383823312903657410555901016e-05L,
+        -3.959997969991008925864028170120219362589e-07L,
+         9.692029200662370945753202640364126881287e-09L,
+        -1.561728995048714147737939975646083063489e-10L,
+         1.545459436541175639449075362847165693457e-12L,
+        -8.208105247793226986576276637731591679166e-15L,
+         1.693207534840749227849767291090407009517e-17L
       };
       const long double Q[] = {
-          1.000000000000000000000000000000000000000e+00L,
-         -2.317470577719543024485753572740604958739e+00L,
-          2.657078821297694611895446031834996152906e+00L,
-         -1.998173132007341993679896448865948292346e+00L,
-          1.101652499108299120694677562656808297062e+00L,
-         -4.714605359562262375267465521671001054303e-01L,
-          1.617420872947402588595250105881596491551e-01L,
-         -4.529168129075646577813431788905728209674e-02L,
-          1.044157981053687467828669325295558925061e-02L,
-         -1.984415953027051010511439725524140293510e-03L,
-          3.093087663153734127422305801345643761966e-04L,
-         -3.908979880746900739955710393100816436543e-05L,
-          3.932920430793276196786510478170661211424e-06L,
-         -3.069947838220881985252402565106441299447e-07L,
-          1.796593245006812188327588557650112423621e-08L,
-         -7.547660787922061824124166989056610198020e-10L,
-          2.154298038494995924762486242481055338867e-11L,
-         -3.878728177963117873055418445714408964957e-13L,
-          3.933225726003866890018525083062372496392e-15L,
-         -1.816273280755794317176857308245737055922e-17L,
-          1.999376255104830360180352396370413061880e-20L,
-          1.409076511280851323909957285090860978867e-23L,
-          1.442619469440665628791395058095914522784e-26L
+         1.000000000000000000000000000000000000000e+00L,
+        -4.898420203962494353777126314756106292559e-01L,
+         1.020953983976711914880352685309400833133e-01L,
+        -1.182238841332013920398981725895970234282e-02L,
+         8.332292565708700553655916750309123110123e-04L,
+        -3.681933215390672976787044955720346566021e-05L,
+         1.013089181669141674305320420676605273452e-06L,
+        -1.665557830470870139395874164354366173440e-08L,
+         1.494365525388388725297536450898011661552e-10L,
+        -6.009400791677689804524459872814110106877e-13L,
+         5.731208986394494584407569394590686132573e-16L,
+         3.507333152231503508417579577829794570348e-19L,
+         3.142479674671639544039994882642462574656e-22L
       };
       const long double y = PI - x;
       const long double z = y*y - PI28;
       const long double z2 = z*z;
       const long double z4 = z2*z2;
       const long double z8 = z4*z4;
-      const long double z16 = z8*z8;
-      const long double p = P[0] + z*P[1] + z2*(P[2] + z*P[3]) +
-         z4*(P[4] + z*P[5] + z2*(P[6] + z*P[7])) +
-         z8*(P[8] + z*P[9] + z2*(P[10] + z*P[11]) +
-             z4*(P[12] + z*P[13] + z2*(P[14] + z*P[15]))) +
-         z16*(P[16] + z*P[17] + z2*(P[18] + z*P[19]) +
-              z4*(P[20] + z*P[21] + z2*P[22]));
-      const long double q = Q[0] + z*Q[1] + z2*(Q[2] + z*Q[3]) +
-         z4*(Q[4] + z*Q[5] + z2*(Q[6] + z*Q[7])) +
-         z8*(Q[8] + z*Q[9] + z2*(Q[10] + z*Q[11]) +
-             z4*(Q[12] + z*Q[13] + z2*(Q[14] + z*Q[15]))) +
-         z16*(Q[16] + z*Q[17] + z2*(Q[18] + z*Q[19]) +
-              z4*(Q[20] + z*Q[21] + z2*Q[22]));
+      const long double p = P[0] + z * P[1] + z2 * (P[2] + z * P[3]) +
+         z4 * (P[4] + z * P[5] + z2 * (P[6] + z * P[7])) +
+         z8 * (P[8] + z * P[9] + z2 * (P[10] + z * P[11]) + z4 * P[12]);
+      const long double q = Q[0] + z * Q[1] + z2 * (Q[2] + z * Q[3]) +
+         z4 * (Q[4] + z * Q[5] + z2 * (Q[6] + z * Q[7])) +
+         z8 * (Q[8] + z * Q[9] + z2 * (Q[10] + z * Q[11]) + z4 * Q[12]);
+
       h = y*p/q;
    }
 
-- 
2.43.0

