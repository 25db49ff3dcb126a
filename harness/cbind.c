/* Uniform entry points for the C library: arguments by pointer (the driver
   looks at the argument storage after the call), results by pointer. */
#include "Cl2.h"
#include "Cl3.h"
#include "Cl4.h"
#include "Cl5.h"
#include "Cl6.h"
#include "Li2.h"
#include "Li3.h"
#include "Li4.h"
#include "Li5.h"
#include "Li6.h"
#include <complex.h>

#define R(b, f, T) void b(T *x, T *r) { *r = f(*x); }
#define C(b, f, T, RE, IM, MK) void b(T *x, T *r) { const T _Complex y = f(MK(x[0], x[1])); r[0] = RE(y); r[1] = IM(y); }
#define CF(b, f) C(b, f, float, crealf, cimagf, CMPLXF)
#define CD(b, f) C(b, f, double, creal, cimag, CMPLX)
#define CL(b, f) C(b, f, long double, creall, cimagl, CMPLXL)

R(c_li2_f, li2f, float) R(c_li2_d, li2, double) R(c_li2_l, li2l, long double)
CF(c_cli2_f, cli2f) CD(c_cli2_d, cli2) CL(c_cli2_l, cli2l)
R(c_li3_d, li3, double) CD(c_cli3_d, cli3) CL(c_cli3_l, cli3l)
R(c_li4_d, li4, double) CD(c_cli4_d, cli4) CL(c_cli4_l, cli4l)
CD(c_cli5_d, cli5) CL(c_cli5_l, cli5l)
CD(c_cli6_d, cli6) CL(c_cli6_l, cli6l)
R(c_cl2_d, cl2, double) R(c_cl2_l, cl2l, long double)
R(c_cl3_d, cl3, double) R(c_cl3_l, cl3l, long double)
R(c_cl4_d, cl4, double) R(c_cl4_l, cl4l, long double)
R(c_cl5_d, cl5, double) R(c_cl5_l, cl5l, long double)
R(c_cl6_d, cl6, double) R(c_cl6_l, cl6l, long double)
