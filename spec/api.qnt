// The API catalogue and the wire format of recorded calls.
//
// The same ids are used by the driver (harness/api.h): base ids 1..34 are the
// C++ functions, +40 the C binding, +80 the Fortran binding; +120 and +160 the long double functions of
// C++ and C compiled for a platform where long double is IEEE quadruple.
module api {
  import fixed.* from "./fixed"

  // families
  pure val REAL_LI = 1      // real Li_k(x)
  pure val CPLX_LI = 2      // complex Li_k(z)
  pure val CLAUSEN = 3      // Cl_k(x)
  pure val ANY_LI = 4       // Li(n, z)
  pure val ANY_CL = 5       // Cl(n, x)
  pure val ANY_SL = 6       // Sl(n, x)
  pure val N_ZETA = 7
  pure val N_ETA = 8
  pure val N_IFAC = 9
  pure val N_HARM = 10

  // (family, order (0: given by the call), format 1 float 2 double 3 long double; 4 quadruple)
  pure val CATALOGUE: List[(int, int, int)] = [
    (0, 0, 0),
    (1, 2, 1), (1, 2, 2), (1, 2, 3), (2, 2, 1), (2, 2, 2), (2, 2, 3),
    (1, 3, 2), (2, 3, 2), (2, 3, 3), (1, 4, 2), (2, 4, 2), (2, 4, 3),
    (2, 5, 2), (2, 5, 3), (2, 6, 2), (2, 6, 3),
    (3, 1, 2), (3, 2, 2), (3, 2, 3), (3, 3, 2), (3, 3, 3), (3, 4, 2), (3, 4, 3),
    (3, 5, 2), (3, 5, 3), (3, 6, 2), (3, 6, 3),
    (4, 0, 2), (5, 0, 2), (6, 0, 2), (7, 0, 2), (8, 0, 2), (9, 0, 2), (10, 0, 2)
  ]
  pure def base(fn: int): int = fn % 40
  pure def family(fn: int): int = CATALOGUE[base(fn)]._1
  pure def order(fn: int, n: int): int = if (CATALOGUE[base(fn)]._2 == 0) n else CATALOGUE[base(fn)]._2
  pure def quad(fn: int): bool = fn >= 120
  pure def fmt(fn: int): int = if (quad(fn)) 4 else CATALOGUE[base(fn)]._3

  pure def precBits(f: int): int = if (f == 1) 24 else if (f == 2) 53 else if (f == 3) 64 else 113
  pure def minExp(f: int): int = if (f == 1) -149 else if (f == 2) -1074 else if (f == 3) -16445 else -16494   // denorm_min = 2^minExp
  pure def maxExp(f: int): int = if (f == 1) 128 else if (f == 2) 1024 else 16384      // largest number < 2^maxExp

  // A floating point datum: (class, sign, m, e), value (-1)^sign * m * 2^e.
  pure val ZERO = 0
  pure val FINITE = 1
  pure val INF = 2
  pure val NAN = 3
  type Num = (int, int, int, int)
  pure val VBITS = 83
  pure def unpackNum(v: int): Num =
    (v / 2^81 % 4, v / 2^80 % 2, v % 2^64, (v / 2^64) % 2^16 - 20000)

  pure def isNan(x: Num): bool = x._1 == NAN
  pure def isInf(x: Num): bool = x._1 == INF
  pure def isZero(x: Num): bool = x._1 == ZERO
  pure def isFin(x: Num): bool = x._1 <= FINITE
  // signed significand (0 for zero)
  pure def sig(x: Num): int = if (x._1 != FINITE) 0 else if (x._2 == 1) -x._3 else x._3
  // value on the scale 2^p, truncated
  pure def onScale(x: Num, p: int): int = shl(sig(x), x._4 + p)
  pure def sameZero(x: Num, y: Num): bool = isZero(x) and isZero(y) and x._2 == y._2
  // a quadruple result arrives as two data of the same sign, high and low bits: their exact sum
  pure def sum2(hi: Num, lo: Num): Num =
    if (hi._1 != FINITE or lo._1 != FINITE) hi else (FINITE, hi._2, shl(hi._3, hi._4 - lo._4) + lo._3, lo._4)
  // upper bound ex with |x| < 2^ex
  pure def topExp(x: Num): int = if (x._1 == FINITE) x._4 + 64 else -100000

  // A recorded call (pair): arguments a, b; result ra + i rb; second result sa + i sb;
  // st, st2: 8*flags + status
  type Event = { a: Num, b: Num, ra: Num, rb: Num, sa: Num, sb: Num, st: int, st2: int }
  pure val EBITS = 6 * 83 + 16
  pure def unpackEvent(v: int): Event = {
    a: unpackNum(v), b: unpackNum(v / 2^83), ra: unpackNum(v / 2^166), rb: unpackNum(v / 2^249),
    sa: unpackNum(v / 2^332), sb: unpackNum(v / 2^415), st: v / 2^498 % 256, st2: v / 2^506 % 256
  }
  // Segment header (128 bits): rel(8) fn(8) fn2(8) n(64, biased by 2^63) mask(8) count(16) -- count low
  type Head = { rel: int, fn: int, fn2: int, n: int, mask: int, count: int }
  pure val HBITS = 112
  pure def unpackHead(v: int): Head = {
    count: v % 2^16, mask: v / 2^16 % 256, n: v / 2^24 % 2^64 - 2^63,
    fn2: v / 2^88 % 256, fn: v / 2^96 % 256, rel: v / 2^104 % 256
  }

  pure val ST_OK = 1
  pure def status(st: int): int = st % 8
  pure def flags(st: int): int = st / 8
}
