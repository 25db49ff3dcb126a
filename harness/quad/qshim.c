/* The library compiled with -mlong-double-128 calls logl, cabsl, ... with quadruple arguments; glibc's
   symbols of these names take the x87 format.  Here they are the quadruple functions of glibc. */
#define _GNU_SOURCE
#include <math.h>
#include <complex.h>
typedef _Float128 Q; typedef _Complex _Float128 C;
#define F1(f) Q f##l_(Q x) __asm__(#f "l"); Q f##l_(Q x) { return f##f128(x); }
#define F2(f) Q f##l_(Q x, Q y) __asm__(#f "l"); Q f##l_(Q x, Q y) { return f##f128(x, y); }
#define C1(f) C f##l_(C x) __asm__(#f "l"); C f##l_(C x) { return f##f128(x); }
#define CR(f) Q f##l_(C x) __asm__(#f "l"); Q f##l_(C x) { return f##f128(x); }
#define FI(f) Q f##l_(Q x, int i) __asm__(#f "l"); Q f##l_(Q x, int i) { return f##f128(x, i); }
F1(log) F1(log1p) F1(log2) F1(log10) F1(exp) F1(exp2) F1(expm1) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh)
F1(asinh) F1(acosh) F1(atanh) F1(sqrt) F1(cbrt) F1(floor) F1(ceil) F1(trunc) F1(round) F1(rint) F1(nearbyint) F1(fabs) F1(logb) F1(tgamma) F1(lgamma)
F2(atan2) F2(fmod) F2(hypot) F2(pow) F2(remainder) F2(fmax) F2(fmin) F2(fdim) F2(copysign) F2(nextafter)
FI(ldexp) FI(scalbn)
C1(clog) C1(csqrt) C1(cexp) C1(csin) C1(ccos) C1(ctan) C1(conj) C1(cproj) C1(cacos) C1(casin) C1(catan) C1(csinh) C1(ccosh) C1(ctanh)
CR(cabs) CR(carg) CR(creal) CR(cimag)
C cpowl_(C x, C y) __asm__("cpowl"); C cpowl_(C x, C y) { return cpowf128(x, y); }
Q fmal_(Q x, Q y, Q z) __asm__("fmal"); Q fmal_(Q x, Q y, Q z) { return fmaf128(x, y, z); }
Q frexpl_(Q x, int *e) __asm__("frexpl"); Q frexpl_(Q x, int *e) { return frexpf128(x, e); }
Q modfl_(Q x, Q *e) __asm__("modfl"); Q modfl_(Q x, Q *e) { return modff128(x, e); }
void sincosl_(Q x, Q *s, Q *c) __asm__("sincosl"); void sincosl_(Q x, Q *s, Q *c) { sincosf128(x, s, c); }
int ilogbl_(Q x) __asm__("ilogbl"); int ilogbl_(Q x) { return ilogbf128(x); }
