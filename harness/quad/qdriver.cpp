// Executes recorded calls against the library built with quadruple long double.
//   qdriver IN OUT      IN: array of { int64 fn; quad a, b }, OUT: array of { quad re, im }
// Ids: 120 + base id for C++, 160 + base id for C.
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include <cfloat>
#include <complex>
#include <cstdint>
#include <cstdio>

namespace pl = polylogarithm;
typedef long double Q;
static_assert(sizeof(Q) == 16 && LDBL_MANT_DIG == 113, "quadruple long double");

#define XR(b, f) static void b(Q* x, Q* r) { *r = f(*x); }
#define XC(b, f) static void b(Q* x, Q* r) { const std::complex<Q> y = f(std::complex<Q>(x[0], x[1])); r[0] = y.real(); r[1] = y.imag(); }
XR(x_li2_l, pl::Li2) XC(x_cli2_l, pl::Li2) XC(x_cli3_l, pl::Li3) XC(x_cli4_l, pl::Li4) XC(x_cli5_l, pl::Li5) XC(x_cli6_l, pl::Li6)
XR(x_cl2_l, pl::Cl2) XR(x_cl3_l, pl::Cl3) XR(x_cl4_l, pl::Cl4) XR(x_cl5_l, pl::Cl5) XR(x_cl6_l, pl::Cl6)

#define QAPI(X) X(3, li2_l) X(6, cli2_l) X(9, cli3_l) X(12, cli4_l) X(14, cli5_l) X(16, cli6_l) \
   X(19, cl2_l) X(21, cl3_l) X(23, cl4_l) X(25, cl5_l) X(27, cl6_l)
#define DECL(i, f) extern "C" void c_##f(Q*, Q*);
QAPI(DECL)

struct Req { int64_t fn; unsigned char a[16], b[16]; };

int main(int argc, char** argv)
{
   if (argc < 3) { return 2; }
   FILE* in = std::fopen(argv[1], "rb");
   FILE* out = std::fopen(argv[2], "wb");
   if (!in || !out) { return 2; }
   Req q;
   while (std::fread(&q, sizeof q, 1, in) == 1) {
      Q x[2], r[2] = { 0, 0 };
      __builtin_memcpy(&x[0], q.a, 16);
      __builtin_memcpy(&x[1], q.b, 16);
      switch (q.fn) {
#define CASE(i, f) case 120 + i: x_##f(x, r); break; case 160 + i: c_##f(x, r); break;
      QAPI(CASE)
      default: return 3;
      }
      std::fwrite(r, sizeof r, 1, out);
   }
   return std::fclose(out) == 0 ? 0 : 4;
}
