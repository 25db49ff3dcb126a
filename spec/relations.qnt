// Relations between two calls that the contract implies.  They are judged from the
// observed results alone (plus the scale the errors are measured against), so they also decide
// inputs for which evaluating the reference would be expensive.
module relations {
  import fixed.* from "./fixed"
  import numbers.* from "./numbers"
  import polylog.* from "./polylog"
  import api.* from "./api"
  import contract.* from "./contract"

  pure val REL_VALUE = 0
  pure val REL_AGREE = 1     // same argument, two entry points for the same function
  pure val REL_CONJ = 2      // z and conj z
  pure val REL_PARITY = 3    // x and -x
  pure val REL_SAME = 4      // the same call twice: same bits
  pure val REL_CIRCLE = 5    // Li_n(e^{ix}) against Cl_n(x), Sl_n(x)
  pure val REL_AXIS = 6      // complex function on the real axis against the real one

  pure def eps(f: int, p: int): int = shl(1, p + 1 - precBits(f))

  // the order the two calls share; each side's units
  pure def pairUnits(fn: int, fn2: int, n: int, a: Num, b: Num): int =
    // in rounding units of the coarser format
    pure val f1 = fmt(fn)
    pure val f2 = fmt(fn2)
    pure val u1 = tolUnits(fn, n, a, b)
    pure val u2 = tolUnits(fn2, n, a, b)
    if (f1 == f2) u1 + u2 else if (f1 < f2) u1 + 1 else u2 + 1
  pure def coarse(fn: int, fn2: int): int = min(fmt(fn), fmt(fn2))

  // modulus that errors are measured against, on the scale 2^p
  pure def scaleLi(n: int, real: bool, a: Num, b: Num, r: Num, q: Num, p: int): int =
    if (n < 0) { pure val v = refLi(n, a, b) shl(v._4, p - v._3) }
    else {
      pure val m = max(abs(onScale(r, p)), abs(onScale(q, p)))
      if (real and aboveOne(a)) {
        // the imaginary part belongs to the modulus
        pure val l = ln(sig(a), -a._4)
        pure val lp = range(1, n).foldl(PI, (s, k) => s * l / S / k)
        max(m, shl(lp, p - PB))
      } else m
    }

  pure def slope(n: int, x: Num): int =
    if (n >= 3) zetaPos(n - 1) else if (isZero(x)) 0 else refCircle(n, x)._4
  pure def scaleCl(n: int, x: Num, r: Num, p: int): int =
    abs(onScale(r, p)) + shl(abs(sig(x)) * slope(n, x) / S, x._4 + p)

  // working scale fine enough for both results
  pure def finest(r: Num, q: Num): int = {
    pure val t = max(topExp(r), topExp(q))
    if (t < -90000) PB else PB + 20 - t
  }

  pure def near(x: Num, y: int, p: int, t: int): (int, int) = cmp(abs(onScale(x, p) - y), t, R_PAIR)

  pure def both(c: (int, int), d: (int, int)): (int, int) = worse(c, d)

  pure def huge(m: int, p: int, f: int): bool = shl(m, 2 - maxExp(f) - p) >= 1

  // r + iq (first call) against s + iw (second call), s, w already reflected by (sr, si) in {1,-1}
  pure def judgeTwo(fn: int, fn2: int, n: int, dim: int, a: Num, b: Num,
                    r: Num, q: Num, s: Num, w: Num, sr: int, si: int): (int, int) = {
    pure val fam = family(fn)
    pure val circ = fam == CLAUSEN or fam == ANY_CL or fam == ANY_SL
    pure val q1: Num = if (dim == 1) (ZERO, 0, 0, -20000) else q
    pure val w1: Num = if (dim == 1) (ZERO, 0, 0, -20000) else w
    pure val fin1 = isFin(r) and isFin(q1)
    pure val fin2 = isFin(s) and isFin(w1)
    pure val f = coarse(fn, fn2)
    if (not(fin1) and not(fin2)) (OK, 0)
    else {
      pure val x: (Num, Num) = if (fin1) (r, q1) else (s, w1)
      pure val p = finest(x._1, x._2)
      pure val m = if (circ) scaleCl(n, a, x._1, p)
                   else scaleLi(n, family(fn) == REAL_LI or family(fn2) == REAL_LI, a, b, x._1, x._2, p)
      if (not(fin1) or not(fin2)) (if (huge(m, p, f) or (circ and n == 1)) (OK, 0) else bad(R_PAIR_CLASS))
      else {
        pure val t = pairUnits(fn, fn2, n, a, b) * m / 2^(precBits(f) - 1) + shl(8, minExp(f) + p) + 1
        pure val c1 = near(r, sr * onScale(s, p), p, t)
        if (dim == 1) c1 else both(c1, near(q1, si * onScale(w1, p), p, t))
      }
    }
  }

  pure def judgeCircle(fn: int, n: int, x: Num, r: Num, q: Num, c: Num, s: Num): (int, int) =
    if (not(isFin(c)) or not(isFin(s)) or isZero(x)) (OK, 0)
    else if (not(isFin(r)) or not(isFin(q))) bad(R_PAIR_CLASS)
    else {
      pure val p = PB
      pure val d = slope(n, x)
      pure val m = max(S, abs(onScale(r, p))) + max(S, abs(onScale(q, p))) + d + shl(abs(sig(x)) * d / S, x._4 + p)
      // rounding of x -> e^{ix} moves Li_n by |Li_(n-1)| eps <= d eps
      pure val t = (tolUnits(fn, n, (FINITE, 0, 2^63, -63), (ZERO, 0, 0, -20000)) + tolOrder(ANY_CL, n, 0) + 40) * m / 2^52
      if (n % 2 == 0) both(near(r, onScale(s, p), p, t), near(q, onScale(c, p), p, t))
      else both(near(r, onScale(c, p), p, t), near(q, onScale(s, p), p, t))
    }

  pure def sameNum(x: Num, y: Num): bool = x == y or (isNan(x) and isNan(y))

  pure def judgePair(h: Head, e: Event): (int, int) = {
    pure val n = order(h.fn, h.n)
    pure val fam = family(h.fn)
    pure val odd = if (fam == ANY_SL) n % 2 == 1 else n % 2 == 0
    pure val dim = if (fam == CPLX_LI or fam == ANY_LI) 2 else 1
    if (h.rel != REL_SAME and (status(e.st) != ST_OK or status(e.st2) != ST_OK)) bad(R_STATUS)
    else if (h.rel == REL_SAME) (
      if (sameNum(e.ra, e.sa) and sameNum(e.rb, e.sb) and status(e.st) == status(e.st2)) (OK, 0) else bad(R_PAIR))
    else if (h.rel == REL_AGREE) judgeTwo(h.fn, h.fn2, n, dim, e.a, e.b, e.ra, e.rb, e.sa, e.sb, 1, 1)
    else if (h.rel == REL_CONJ) judgeTwo(h.fn, h.fn, n, 2, e.a, e.b, e.ra, e.rb, e.sa, e.sb, 1, -1)
    else if (h.rel == REL_PARITY) judgeTwo(h.fn, h.fn, n, 1, e.a, e.b, e.ra, e.rb, e.sa, e.sb, if (odd) -1 else 1, 1)
    else if (h.rel == REL_CIRCLE) judgeCircle(h.fn, n, e.a, e.ra, e.rb, e.sa, e.sb)
    else judgeTwo(h.fn, h.fn2, n, 1, e.a, e.b, e.ra, e.rb, e.sa, e.sb, 1, 1)
  }

  // the verdict on one recorded event
  pure def judge(h: Head, e: Event): (int, int) =
    if (h.rel == REL_VALUE and quad(h.fn))
      judgeCall(h.fn, h.n, h.mask, e.a, e.b, sum2(e.ra, e.sa), sum2(e.rb, e.sb), e.st)
    else if (h.rel == REL_VALUE) judgeCall(h.fn, h.n, h.mask, e.a, e.b, e.ra, e.rb, e.st)
    else judgePair(h, e)
}
