// The contract: which results a call may return.
//
// judge(head, event) = (code, ratio): code 0 accepts; ratio is the observed error in
// 1/1000 of what is allowed (for calibration and evidence).
module contract {
  import fixed.* from "./fixed"
  import numbers.* from "./numbers"
  import polylog.* from "./polylog"
  import api.* from "./api"

  // aspects of the contract a check may decide (bit mask)
  pure val AS_VALUE = 1
  pure val AS_SIDE = 2      // which side of the cut; real values and signed zeros on the axis
  pure val AS_SPECIAL = 4   // non-finite, zero and pole arguments
  pure val AS_ENV = 8       // arguments and floating-point environment untouched
  pure val AS_RETURN = 16   // the call returns
  pure def wants(mask: int, bit: int): bool = mask / bit % 2 == 1

  // rejection codes
  pure val OK = 0
  pure val R_VALUE = 1
  pure val R_NONFINITE = 2      // finite value expected
  pure val R_EXPECT_NAN = 3
  pure val R_EXPECT_INF = 4
  pure val R_EXPECT_ZERO = 5    // zero argument not returned unchanged
  pure val R_SIDE = 6
  pure val R_AXIS = 7           // Im z = +-0, x <= 1: imaginary part not kept
  pure val R_RANGE = 8
  pure val R_STATUS = 9         // crash, hang, exception
  pure val R_ARG = 10           // caller's argument changed
  pure val R_ENV = 11           // floating-point environment changed
  pure val R_PAIR = 12          // two calls that must agree do not
  pure val R_PAIR_CLASS = 13    // one finite, the other not

  // ------------------------------------------------------------ tolerances
  // allowed error in rounding units 2^(1-prec) of the result's scale
  pure val TOL_FIX: List[int] = [0,
     16,  40,  24,        // li2 f d l
     24,  36,  24,        // cli2
     32,  40,  64,        // li3 d, cli3 d l
    320,  40,  48,        // li4 d, cli4 d l
     24, 120,             // cli5
     24,  64,             // cli6
     16,                  // cl1
     16,  16,  16,  16,  16,  16,  16,  16,  16,  16   // cl2..cl6 d l
  ]
  // quadruple precision, by base id
  pure val TOL_QUAD: List[int] = [0,
      0,   0, 120,   0,   0, 100,   0,   0,  40,   0,   0,  40,   0,  40,   0,  40,
      0,   0,  16,   0,  24,   0,  24,   0,  24,   0,  24
  ]
  // bits: number of bits of |ln|z|| (0 for |z| near 1)
  pure def tolOrder(fam: int, n: int, lz: int): int =
    if (fam == ANY_LI) {
      if (n == 0 or n == -1) 12
      else if (n < 0) (if (n >= -40) 24 - 2 * n else if (n >= -50) 240 else 1500)
      else if (n <= 6) 48
      else 60 + 4 * min(n, 2 * lz)
    }
    else if (fam == ANY_CL) (if (n <= 6) 16 else if (n == 7) 100 else if (n == 8) 40 else if (n == 9) 60
                             else if (n == 10) 400 else if (n <= 12) 60 else 24)
    else 40   // Sl

  // |ln|z|| / ln 2, rounded up, from exponents only
  pure def lnSize(a: Num, b: Num): int = max(0, abs(max(topExp(a), topExp(b))))
  pure val ID_LI4 = 10
  pure def f4(fn: int, n: int): bool = n == 4 and fmt(fn) == 2 and (family(fn) == CPLX_LI or family(fn) == ANY_LI)
  pure def tolUnits(fn: int, n: int, a: Num, b: Num): int =
    // the complex tetralogarithm uses the real one on the real axis
    if (quad(fn)) TOL_QUAD[base(fn)]
    else if (isZero(b) and f4(fn, n)) TOL_FIX[ID_LI4]
    else if (base(fn) < 28) TOL_FIX[base(fn)] else tolOrder(family(fn), n, lnSize(a, b))

  // ------------------------------------------------------------ references
  // what Li_n, Cl_n, Sl_n really are there: (re, im, p, scale): the error of re, im is measured against scale
  pure def refLi(n: int, a: Num, b: Num): (int, int, int, int) = {
    pure val v = polylog(n, sig(a), a._4, sig(b), b._4)
    if (n >= 0) (v._1, v._2, v._3, cmag((v._1, v._2)))
    else {
      // zeros on the negative axis: a rounding error of z moves Li_n by |Li_(n-1)(z)| eps
      pure val w = polylog(n - 1, sig(a), a._4, sig(b), b._4)
      pure val wm = shl(cmag((w._1, w._2)), v._3 - w._3)
      (v._1, v._2, v._3, cmag((v._1, v._2)) + wm)
    }
  }

  // Clausen-type functions: the angle reduced to (-pi, pi] and the two values
  // (Re, Im) of Li_n(e^{ix}), on the scale 2^p
  pure def refCircle(n: int, x: Num): (int, int, int, int) = {
    pure val ex = topExp(x)
    pure val p0 = PB + max(0, -ex) + 4
    pure val d0 = reduce2pi(sig(x), x._4, p0)
    pure val small = abs(d0) < 2^(p0 - 72)
    // the angle is exact up to 2^-p; close to a multiple of 2 pi it needs more bits
    pure val p = if (small) p0 + 80 else PB
    pure val d = if (small) reduce2pi(sig(x), x._4, p) else shl(d0, PB - p0)
    if (d == 0) (if (n == 1) 0 else zetaPos(n), 0, PB, 0) else {
      pure val v = liCircle(n, d, p)
      // slope bound |f'| on the scale PB
      pure val ad = abs(d)
      pure val slope =
        if (n == 1) shl(S, p) / ad
        else if (n == 2) abs(ln(ad, p)) + PI
        else zetaPos(n - 1)
      // |v| may be on a finer scale for the imaginary part
      if (small) (v._1, v._2, p, slope) else (v._1, v._2, PB, slope)
    }
  }

  // ------------------------------------------------------------ comparing
  pure def bad(c: int): (int, int) = (c, 1000000)
  pure def cap(r: int): int = min(r, 1000000)

  // error err against allowed tol (both integers on the same scale)
  pure def cmp(err: int, tol: int, code: int): (int, int) =
    if (err <= tol) (OK, if (tol == 0) 0 else err * 1000 / tol)
    else (code, if (tol == 0) 1000000 else cap(err * 1000 / tol))

  // one component: value v/2^p, tolerance t/2^p, observed r
  pure def cmpNum(r: Num, v: int, p: int, t: int, f: int, code: int): (int, int) =
    if (isFin(r)) cmp(abs(onScale(r, p) - v), t, code)
    else if (shl(abs(v) + t, 1 - maxExp(f) - p) >= 1) (OK, 0)   // at the edge of the format
    else bad(R_NONFINITE)

  pure def worse(x: (int, int), y: (int, int)): (int, int) =
    if (x._1 != OK) x else if (y._1 != OK) y else if (x._2 >= y._2) x else y

  // allowed error on the scale 2^p: units * scale * eps + a few of the smallest number
  pure def allow(units: int, scale: int, p: int, f: int): int =
    units * scale / 2^(precBits(f) - 1) + shl(4, minExp(f) + p) + 1

  // ------------------------------------------------------------ polylogarithms
  pure def isOne(a: Num, b: Num): bool = isFin(a) and isFin(b) and isZero(b) and a._1 == FINITE and a._2 == 0 and a._3 == 2^63 and a._4 == -63

  pure def aboveOne(a: Num): bool = a._1 == FINITE and a._2 == 0 and (a._4 > -63 or (a._4 == -63 and a._3 > 2^63))

  pure def judgeLi(fn: int, n: int, mask: int, a: Num, b: Num, r: Num, q: Num): (int, int) = {
    pure val fam = family(fn)
    pure val f = fmt(fn)
    pure val real = fam == REAL_LI
    pure val nan = isNan(r) or (not(real) and isNan(q))
    pure val nonfin = not(isFin(r)) or (not(real) and not(isFin(q)))
    if (isNan(a) or isNan(b)) {
      if (not(wants(mask, AS_SPECIAL)) or nan or (nonfin and (isInf(a) or isInf(b)))) (OK, 0) else bad(R_EXPECT_NAN)
    } else if (isInf(a) or isInf(b)) {
      if (not(wants(mask, AS_SPECIAL))) (OK, 0)
      else if (real) (if (isInf(r) and r._2 == 1) (OK, 0) else bad(R_EXPECT_INF))
      else if (n >= 1 or nonfin) (if (nonfin) (OK, 0) else bad(R_EXPECT_INF))
      else // finite limit at infinity: -1 for n = 0, else 0
        (if (isZero(q) and (if (n == 0) r._2 == 1 and r._3 == 2^63 and r._4 == -63 else isZero(r))) (OK, 0) else bad(R_EXPECT_INF))
    } else if (isZero(a) and isZero(b)) {
      if (not(wants(mask, AS_SPECIAL)) or (sameZero(a, r) and (real or sameZero(b, q)))) (OK, 0) else bad(R_EXPECT_ZERO)
    } else if (n <= 1 and isOne(a, b)) {
      if (not(wants(mask, AS_SPECIAL)) or nonfin) (OK, 0) else bad(R_EXPECT_INF)
    } else {
      pure val v = refLi(n, a, b)
      pure val t = allow(tolUnits(fn, n, a, b), v._4, v._3, f)
      pure val c1 = cmpNum(r, v._1, v._3, t, f, R_VALUE)
      pure val c2 = if (real) c1 else cmpNum(q, v._2, v._3, t, f, R_VALUE)
      pure val cv = if (wants(mask, AS_VALUE)) worse(c1, c2) else (OK, 0)
      // next to the cut the imaginary part has the sign of Im z (-: on the cut itself) wherever it is
      // not hidden by the rounding of the result: orders <= 6 keep it down to zero, higher ones up to the allowed error
      pure val hidden = isZero(q) or not(isFin(q)) or (n > 6 and abs(v._2) <= t)
      pure val cs =
        if (real or not(wants(mask, AS_SIDE)) or n < 1) (OK, 0)
        else if (aboveOne(a)) {
          pure val want = if (isZero(b)) 1 else b._2
          if (hidden or q._2 == want) (OK, 0) else bad(R_SIDE)
        }
        else if (isZero(b) and fam == CPLX_LI)
          // real values: the zero imaginary part stays zero; where the real function is used, with its sign
          (if (isZero(q) and (q._2 == b._2 or not(n == 2 or (n <= 4 and f == 2)))) (OK, 0) else bad(R_AXIS))
        else (OK, 0)
      worse(cv, cs)
    }
  }

  // ------------------------------------------------------------ Clausen-type
  // u rounding units of the angle within one turn, ANGLE_UNITS units of its size beyond, times the slope
  pure val ANGLE_UNITS = 2
  pure def angleEffect(u: int, x: Num, slope: int, p: int, f: int): int = {
    pure val eight = 2^63
    pure val one = if (topExp(x) <= 3) u * sig(x) else shl(u * eight, -60 - x._4)
    pure val more = if (topExp(x) <= 3) 0 else ANGLE_UNITS * sig(x)
    shl((abs(one) + abs(more)) * slope / S, x._4 + p + 1 - precBits(f)) + shl(2 * slope, minExp(f) + p - PB)
  }
  pure val CL2MAX = S * 10150 / 10000
  pure def judgeCl(fn: int, n: int, mask: int, x: Num, r: Num): (int, int) = {
    pure val fam = family(fn)
    pure val f = fmt(fn)
    pure val sl = fam == ANY_SL
    pure val wantRe = if (sl) n % 2 == 0 else n % 2 == 1      // the even functions of x
    if (n < 1 or isNan(x) or isInf(x)) {
      if (not(wants(mask, AS_SPECIAL)) or isNan(r)) (OK, 0) else bad(R_EXPECT_NAN)
    } else if (isZero(x) and not(wantRe)) {
      // the documented Sl_1(0) = 0 included
      if (not(wants(mask, AS_SPECIAL)) or sameZero(x, r)) (OK, 0) else bad(R_EXPECT_ZERO)
    } else if (isZero(x) and n == 1) {
      if (not(wants(mask, AS_SPECIAL)) or (isInf(r) and r._2 == 0)) (OK, 0) else bad(R_EXPECT_INF)
    } else if (not(wants(mask, AS_VALUE))) (OK, 0)
    else {
      pure val v = if (isZero(x)) (zetaPos(n), 0, PB, 0) else refCircle(n, x)
      pure val p = v._3
      // the real part is always on the scale PB
      pure val val0 = if (wantRe) v._1 else v._2
      pure val vp = if (wantRe) PB else p
      pure val u = tolUnits(fn, n, x, x)
      // effect of perturbing the angle by its own rounding unit (denormal angles: by the smallest number)
      pure val t = allow(u, abs(val0), vp, f) + angleEffect(u, x, v._4, vp, f) + (if (f == 4 and vp == PB) 256 else 0)
      if (not(isFin(r))) {
        // Cl_1 next to a multiple of 2 pi
        if (n == 1 and wantRe and isInf(r) and r._2 == 0 and t > S) (OK, 0) else bad(R_NONFINITE)
      } else {
        pure val z = if (n == 1) S else zetaPos(n)
        pure val ro = onScale(r, PB)
        pure val out =
          if (n == 1) (if (wantRe) ro < -LN2 - S / 256 else abs(ro) > PIH + S / 256)
          else if (wantRe) ro > z + z / 256 or ro < -etaPos(n) - z / 256
          else abs(ro) > (if (n == 2) CL2MAX else z + z / 256)
        if (out) bad(R_RANGE) else cmpNum(r, val0, vp, t, f, R_VALUE)
      }
    }
  }

  // ------------------------------------------------------------ number functions
  // Euler's constant from H_400
  pure def harmTail(n: int): int = S / (2 * n) - S / (12 * n * n) + S / (120 * n^4) - S / (252 * n^6) + S / (240 * n^8)
  pure val GAMMA = HARM[400] - ln(400 * S, PB) - harmTail(400)

  pure def judgeNum(fn: int, n: int, r: Num): (int, int) = {
    pure val fam = family(fn)
    // value num/den, or a verdict
    if (fam == N_IFAC) {
      if (n < 0) (if (isNan(r)) (OK, 0) else bad(R_EXPECT_NAN))
      else if (n > 300) (if (isZero(r) and r._2 == 0) (OK, 0) else bad(R_VALUE))
      else { pure val v = 2^2400 / FACT[n]
             cmpNum(r, v, 2400, 3 * v / 2^52 + 2^(2400 - 1074), 2, R_VALUE) }
    } else if (fam == N_HARM) {
      if (n <= 0) (if (isNan(r)) (OK, 0) else bad(R_EXPECT_NAN))
      else { pure val v = if (n <= 400) HARM[n] else ln(n * S, PB) + GAMMA + harmTail(n)
             cmpNum(r, v, PB, 6 * v / 2^52, 2, R_VALUE) }
    } else if (n < 0 and n % 2 == 0) (if (isZero(r)) (OK, 0) else bad(R_VALUE))
    else if (n < 0) {
      // zeta(1-2k) = -B_2k/(2k); eta(1-2k) = (1 - 4^k) zeta(1-2k); the library returns -eta
      pure val k = (1 - n) / 2
      pure val zsgn = if (k % 2 == 1) -1 else 1     // sign of zeta(1-2k)
      pure val s = zsgn
      if (k > 130) (if (isInf(r) and (r._2 == 1) == (s < 0)) (OK, 0) else bad(R_EXPECT_INF))
      else {
        pure val zn = -bernNum(k)
        pure val zd = bernDen(k) * 2 * k
        pure val num = if (fam == N_ETA) zn * (4^k - 1) else zn
        pure val v = num * 2^200 / zd
        pure val t = 4 * abs(v) / 2^52
        if (isFin(r)) cmp(abs(onScale(r, 200) - v), t, R_VALUE)
        else if (abs(v) + t >= 2^(1024 + 199) and isInf(r) and (r._2 == 1) == (v < 0)) (OK, 0)
        else bad(R_NONFINITE)
      }
    } else if (n == 0) cmpNum(r, -S / 2, PB, 0, 2, R_VALUE)
    else if (n == 1 and fam == N_ZETA) (if (isInf(r) and r._2 == 0) (OK, 0) else bad(R_EXPECT_INF))
    else {
      pure val v = if (fam == N_ZETA) zetaPos(n) else -etaPos(n)
      cmpNum(r, v, PB, 3 * abs(v) / 2^52, 2, R_VALUE)
    }
  }

  // ------------------------------------------------------------ one call
  pure def judgeCall(fn: int, n0: int, mask: int, a: Num, b: Num, r: Num, q: Num, st: int): (int, int) = {
    pure val fam = family(fn)
    pure val n = order(fn, n0)
    if (status(st) != ST_OK) bad(R_STATUS)
    else if (wants(mask, AS_ENV) and flags(st) % 2 == 1) bad(R_ARG)
    else if (wants(mask, AS_ENV) and flags(st) > 1) bad(R_ENV)
    else if (not(wants(mask, AS_VALUE) or wants(mask, AS_SIDE) or wants(mask, AS_SPECIAL))) (OK, 0)
    else if (fam >= N_ZETA) judgeNum(fn, n, r)
    else if (fam == CLAUSEN or fam == ANY_CL or fam == ANY_SL) judgeCl(fn, n, mask, a, r)
    else judgeLi(fn, n, mask, a, b, r, q)
  }
}
