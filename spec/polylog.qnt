// What the functions mean: exact reference values of Li_n(z), Cl_n(x), Sl_n(x).
//
// Every reference returns (re, im, p): the value is (re + i im) / 2^p with an
// error far below 2^-(p-20) of its magnitude's scale.  p grows for tiny arguments, so the
// result keeps its relative precision.
module polylog {
  import fixed.* from "./fixed"
  import numbers.* from "./numbers"

  // ---------------------------------------------------------------- n >= 1

  pure val NMAX = 45   // orders with tabulated seam coefficients
  pure val MMAX = 76

  // COEF[n][m] = (-1)^m 2 zeta(2m) (n-1)! (2m-1)! / (2m+n-1)!   (m >= 1; entry 0 unused)
  pure val COEF: List[List[int]] = range(1, NMAX + 1).foldl([[]], (l, n) =>
    l.append(range(1, MMAX + 1).foldl([0], (c, m) =>
      c.append((if (m % 2 == 0) 2 else -2) * zetaPos(2 * m) * FACT[n - 1] * FACT[2 * m - 1] / FACT[2 * m + n - 1]))))

  // defining series: sum_k z^k / k^n, z scaled by 2^p, ex an upper bound of log2|z| (ex <= -2)
  pure def liSeries(n: int, re: int, im: int, p: int, ex: int): (int, int) = {
    pure val SP = 2^p
    pure val T = PB / (-ex) + 2
    pure val r = range(2, T + 1).foldl((re, im, re, im), (a, k) => {
      pure val t1 = (a._1 * re - a._2 * im) / SP
      pure val t2 = (a._1 * im + a._2 * re) / SP
      pure val q = k^min(n, 400)
      (t1, t2, a._3 + t1 / q, a._4 + t2 / q)
    })
    (r._3, r._4)
  }

  // Expansion in u = ln z around z = 1, |u| < 2 pi:
  //   sum_{k<n-1} zeta(n-k) u^k/k! + u^(n-1)/(n-1)! [ H_(n-1) - ln(-u) - u/(2n) + sum_m COEF[n][m] (u/2pi)^(2m) ]
  // lm = ln(-u) on the branch wanted.
  pure def liUnity(n: int, u: (int, int), lm: (int, int)): (int, int) = {
    pure val kmax = min(n - 2, 80)
    pure val hd = range(1, kmax + 1).foldl((S, 0, zetaPos(n), 0), (a, k) => {
      pure val t1 = (a._1 * u._1 - a._2 * u._2) / S / k
      pure val t2 = (a._1 * u._2 + a._2 * u._1) / S / k
      pure val z = zetaPos(n - k)
      (t1, t2, a._3 + t1 * z / S, a._4 + t2 * z / S)
    })
    if (n - 2 > 80) (hd._3, hd._4) else {
      pure val pw = cmul((hd._1, hd._2), u)
      pure val pr = pw._1 / (n - 1)
      pure val pi = pw._2 / (n - 1)
      pure val w1 = u._1 * S / PI2
      pure val w2 = u._2 * S / PI2
      pure val q1 = (w1 * w1 - w2 * w2) / S
      pure val q2 = 2 * w1 * w2 / S
      pure val m2 = u._1 * u._1 + u._2 * u._2
      pure val T = if (m2 < S * S / 4) 20 else if (m2 < S * S) 28 else if (m2 < 4 * S * S) 44 else MMAX
      pure val tl =
        if (n <= NMAX) {
          pure val cf = COEF[n]
          range(0, T).foldl((0, 0), (a, i) => {
            pure val b1 = a._1 + cf[T - i]
            ((b1 * q1 - a._2 * q2) / S, (b1 * q2 + a._2 * q1) / S)
          })
        } else (0, 0)
      pure val bb = (HARM[n - 1] - lm._1 - u._1 / (2 * n) + tl._1, -lm._2 - u._2 / (2 * n) + tl._2)
      (hd._3 + (pr * bb._1 - pi * bb._2) / S, hd._4 + (pr * bb._2 + pi * bb._1) / S)
    }
  }

  // Inversion remainder: -2 sum_{k=0}^{n/2} eta(2k) L^(n-2k)/(n-2k)!, L = ln(-z)
  pure def liRest(n: int, l: (int, int)): (int, int) = {
    pure val m = cmag(l) / S
    pure val T = min(n, if (m < 30) 170 else if (m < 110) 460 else 2300)
    pure val par = n % 2
    pure val r0 = if (par == 0) { pure val e = if (n > PB) S else etaPos(n) (e, 0) } else (0, 0)
    pure val r = range(1, T + 1).foldl((S, 0, r0._1, r0._2), (a, j) => {
      pure val t1 = (a._1 * l._1 - a._2 * l._2) / S / j
      pure val t2 = (a._1 * l._2 + a._2 * l._1) / S / j
      if (j % 2 == par) {
        pure val e = etaPos(n - j)
        (t1, t2, a._3 + t1 * e / S, a._4 + t2 * e / S)
      } else (t1, t2, a._3, a._4)
    })
    (-2 * r._3, -2 * r._4)
  }

  // ln(1 + w) for tiny w = (a + i b)/2^p, |w| <= 2^ex, ex <= -8; result on the scale 2^p
  pure def log1pTiny(a: int, b: int, p: int, ex: int): (int, int) = {
    pure val SP = 2^p
    pure val r = range(2, PB / (-ex) + 2).foldl((a, b, a, b), (t, k) => {
      pure val x = -(t._1 * a - t._2 * b) / SP
      pure val y = -(t._1 * b + t._2 * a) / SP
      (x, y, t._3 + x / k, t._4 + y / k)
    })
    (r._3, r._4)
  }

  // Li_n(z) for n >= 1 where z = sa*ma*2^ea + i*sb*mb*2^eb.
  //   a, b  signed integer significands, either 0 or 2^63 <= |.| < 2^64
  // On the cut (b = 0, re > 1) the value is the limit from below, Im < 0,
  // the convention of this library.
  pure def li(n: int, a: int, ea: int, b: int, eb: int): (int, int, int) = {
    pure val xa = if (a == 0) -100000 else ea + 64
    pure val xb = if (b == 0) -100000 else eb + 64
    pure val ex = max(xa, xb)                   // |re|,|im| < 2^ex
    if (ex <= -2) {
      pure val p = PB - ex
      pure val r = liSeries(n, shl(a, ea + p), shl(b, eb + p), p, ex + 1)
      (r._1, r._2, p)
    } else if (n == 1) {
      // -ln(1-z); next to z = 1 on a finer scale
      pure val fa = shl(a, ea + 1200)
      pure val d1 = 2^1200 - fa
      pure val d2 = shl(-b, eb + 1200)
      pure val im = if (b == 0 and d1 < 0) PI else if (b > 0 and d2 == 0 and d1 < 0) -PI else atan2(d2, d1)
      (-lnAbs(d1, d2, 1200), -im, PB)
    } else {
      pure val re = shl(a, ea + PB)
      pure val im = shl(b, eb + PB)
      pure val n2 = (re * re + im * im) / S
      if (n2 < 4 * S) {
        // u = ln z
        pure val w1 = re - S
        pure val near = abs(w1) < S / 2^10 and abs(im) < S / 2^10
        pure val u = if (near) log1pTiny(w1, im, PB, -9)
                     else (ln(re * re + im * im, 2 * PB) / 2, atan2(im, re))
        if (u == (0, 0)) (zetaPos(n), 0, PB) else {
          pure val lr = lnAbs(u._1, u._2, PB)
          // ln(-u): the side of the cut is decided by the sign of Im z even when u's
          // imaginary part is too small to be represented
          pure val la =
            if (u._2 == 0) {
              if (u._1 < 0) 0 else if (b > 0) -PI else PI
            } else atan2(-u._2, -u._1)
          pure val r = liUnity(n, u, (lr, la))
          (r._1, r._2, PB)
        }
      } else {
        // |z| >= 2 : 1/z on the scale PB + ex
        pure val p = PB + ex
        pure val re1 = shl(a, ea + PB - ex)     // z * 2^-ex on scale PB
        pure val im1 = shl(b, eb + PB - ex)
        pure val m2 = re1 * re1 + im1 * im1
        pure val ir = re1 * 2^(2 * PB) / m2     // (1/z) * 2^(PB+ex)
        pure val ii = -im1 * 2^(2 * PB) / m2
        pure val s0 = liSeries(n, ir, ii, p, -1)
        pure val s = (s0._1 / 2^ex, s0._2 / 2^ex)
        pure val lr = ln(m2, 2 * PB) / 2 + ex * LN2
        pure val la =
          if (b == 0) (if (a < 0) 0 else PI)
          else if (im1 == 0) (if (a < 0) 0 else if (b > 0) -PI else PI)
          else atan2(-im1, -re1)
        pure val r = liRest(n, (lr, la))
        if (n % 2 == 0) (r._1 - s._1, r._2 - s._2, PB) else (r._1 + s._1, r._2 + s._2, PB)
      }
    }
  }

  // ---------------------------------------------------------------- n <= 0

  pure val EMAX = 64
  // Eulerian numbers A(m, k)
  pure val EULER: List[List[int]] = range(1, EMAX + 1).foldl([[1]], (rows, m) => {
    pure val prev = rows[m - 1]
    rows.append(range(0, m).foldl([], (l, k) => l.append(
      (if (k < prev.length()) (k + 1) * prev[k] else 0) +
      (if (k > 0 and k - 1 < prev.length()) (m - k) * prev[k - 1] else 0))))
  })

  // (a + ib)^k with renormalisation to ~PB bits: returns (re, im, e) value (re+i im)*2^e
  pure def norm(a: int, b: int, e: int): (int, int, int) = {
    pure val k = ilog2(abs(a) + abs(b)) - PB
    if (k <= 0) (a, b, e) else (a / 2^k, b / 2^k, e + k)
  }
  pure def cpow(a: int, b: int, e: int, k: int): (int, int, int) = {
    // square and multiply over the bits of k, most significant first
    pure val bits = [512, 256, 128, 64, 32, 16, 8, 4, 2, 1].select(v => v <= k)
    toTriple(bits.foldl((1, 0, 0, k, false), (s, v) => {
      pure val q = if (s._5) norm(s._1 * s._1 - s._2 * s._2, 2 * s._1 * s._2, 2 * s._3) else (1, 0, 0)
      if (s._4 >= v) {
        pure val m = norm(q._1 * a - q._2 * b, q._1 * b + q._2 * a, q._3 + e)
        (m._1, m._2, m._3, s._4 - v, true)
      } else (q._1, q._2, q._3, s._4, true)
    }))
  }
  pure def toTriple(t: (int, int, int, int, bool)): (int, int, int) = (t._1, t._2, t._3)

  // Li_{-m}(z), |z| < 2 in max-norm, z on scale 2^p : z * sum_k A(m,k) z^k / (1-z)^(m+1)
  pure def liNegSmall(m: int, re: int, im: int, p: int): (int, int, int) = {
    pure val SP = 2^p
    pure val row = EULER[m]
    pure val num = range(0, row.length()).foldl((0, 0), (a, i) => {
      pure val c = row[row.length() - 1 - i] * SP
      ((a._1 * re - a._2 * im) / SP + c, (a._1 * im + a._2 * re) / SP)
    })
    pure val nr = (num._1 * re - num._2 * im) / SP
    pure val ni = (num._1 * im + num._2 * re) / SP
    pure val d = cpow(SP - re, -im, -p, m + 1)
    // divide
    pure val m2 = d._1 * d._1 + d._2 * d._2
    pure val xr = (nr * d._1 + ni * d._2) * 2^(2 * PB) / m2     // value * 2^(p + 2PB + e)
    pure val xi = (ni * d._1 - nr * d._2) * 2^(2 * PB) / m2
    (xr, xi, p + 2 * PB + d._3)
  }

  // Li_{-m}(z), m >= 0.
  pure def liNeg(m: int, a: int, ea: int, b: int, eb: int): (int, int, int) = {
    pure val xa = if (a == 0) -100000 else ea + 64
    pure val xb = if (b == 0) -100000 else eb + 64
    pure val ex = max(xa, xb)
    if (ex <= 0) {
      // guard for the cancellation in the numerator and next to z = 1
      pure val p = PB + 64 + 4 * m - (if (ex < 0) ex else 0) + (if (a == 0) 0 else min(1100, max(0, -xb)))
      liNegSmall(m, shl(a, ea + p), shl(b, eb + p), p)
    } else {
      pure val p = PB + 64 + 4 * m + ex
      pure val g = 2^p
      pure val re1 = shl(a, ea + p - ex)
      pure val im1 = shl(b, eb + p - ex)
      pure val m2 = re1 * re1 + im1 * im1
      // 1/z = conj(z)/|z|^2 with re1 = re * 2^(p-ex)
      pure val ir = re1 * g * 2^p / m2 / 2^ex
      pure val ii = -im1 * g * 2^p / m2 / 2^ex
      // exact 1 - z keeps the precision near z = 1, so only invert away from it
      if (ex <= 1) liNegSmall(m, shl(a, ea + p + 1100), shl(b, eb + p + 1100), p + 1100)
      else if (m == 0) {
        // z/(1-z) = -1/(1-1/z)
        pure val d1 = 2^p - ir
        pure val d2 = -ii
        pure val dd = d1 * d1 + d2 * d2
        (-d1 * 2^(2 * p) / dd, d2 * 2^(2 * p) / dd, p)
      } else {
        pure val r = liNegSmall(m, ir, ii, p)
        if (m % 2 == 1) r else (-r._1, -r._2, r._3)
      }
    }
  }

  // Any order.
  pure def polylog(n: int, a: int, ea: int, b: int, eb: int): (int, int, int) =
    if (n >= 1) li(n, a, ea, b, eb) else liNeg(-n, a, ea, b, eb)

  // ---------------------------------------------------------------- Clausen

  // x = m*2^e reduced to (-pi, pi], scaled by 2^p; |x| < 2^(e+64)
  pure def reduce2pi(m: int, e: int, p: int): int = {
    pure val ex = e + 64
    if (ex <= 1) shl(m, e + p) else {
      pure val pp = p + ex + 8
      pure val x = shl(m, e + pp)
      pure val tp = 2 * shl(PI_LONG, pp - PLONG)
      pure val k0 = (2 * abs(x) + tp) / (2 * tp)
      pure val r = x - sgn(x) * k0 * tp
      shl(r, p - pp)
    }
  }

  // Li_n(e^{i d}), d on the scale 2^p (p >= PB), d != 0, |d| <= pi
  pure def liCircle(n: int, d: int, p: int): (int, int) = {
    if (n == 1) {
      // -ln(1 - e^{id}) = -ln(2 sin(|d|/2)) + i (pi - |d|)/2 sgn d, through the same expansion
      pure val lr = ln(abs(d), p)
      pure val u = shl(d, PB - p)
      pure val w = u * S / PI2
      pure val q = -(w * w) / S
      pure val t = range(0, MMAX).foldl(0, (a, i) => (a + COEF[1][MMAX - i]) * q / S)
      (-lr + t, if (d > 0) shl(PIH, p - PB) - d / 2 else -shl(PIH, p - PB) - d / 2)
    } else if (p == PB) {
      liUnity(n, (0, d), (ln(abs(d), PB), if (d > 0) -PIH else PIH))
    } else {
      // tiny d: leading terms, imaginary part relative to d
      // Re = zeta(n) + O(d ln d), Im = d * (zeta(n-1) or 1 - ln d) + O(d^2)
      pure val dd = d                                // scale p
      pure val l = ln(abs(d), p)
      if (n == 2) (zetaPos(2), dd * (S - l) / S) else (zetaPos(n), dd * zetaPos(n - 1) / S)
    }
  }
}
