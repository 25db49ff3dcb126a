// Exact fixed-point arithmetic over unbounded integers.
//
// A real number x is held as the integer X ~ x * 2^PB.  Every operation below
// truncates, so each one is off by at most a few units of 2^-PB; PB leaves more
// than 70 guard bits below the finest tolerance that is ever checked
// (long double, 2^-63).
module fixed {
  pure val PB = 144
  pure val S = 2^PB

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def max(a: int, b: int): int = if (a < b) b else a
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0

  // x * 2^k, truncated towards zero
  pure def shl(x: int, k: int): int = if (k >= 0) x * 2^k else x / 2^(-k)

  pure val BITS = [16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
  pure val BITS_SMALL = [256, 128, 64, 32, 16, 8, 4, 2, 1]

  // floor(log2 x) for x > 0
  pure def ilog2(x: int): int = {
    pure val r = (if (x < 2^500) BITS_SMALL else BITS).foldl((x, 0), (a, b) =>
      if (a._1 >= 2^b) (a._1 / 2^b, a._2 + b) else a)
    r._2
  }

  // sum of t/k over odd k with ratio x2 : atanh-like series, sign s in {1,-1}
  pure def oddSeries(t: int, x2: int, s: int, terms: int): int =
    range(0, terms).foldl((t, 0), (a, i) => (a._1 * x2 / S * s, a._2 + a._1 / (2 * i + 1)))._2

  // ln(p/q), p and q positive and close (|p-q|/(p+q) <= 1/3)
  pure def lnRatio(p: int, q: int): int = {
    pure val t = (p - q) * S / (p + q)
    2 * oddSeries(t, t * t / S, 1, 50)
  }
  pure val LN2: int = lnRatio(2, 1)

  // ln of the table nodes 1 + (2j+1)/64
  pure val LN_NODE: List[int] = range(0, 32).foldl([], (l, j) => l.append(lnRatio(65 + 2 * j, 64)))

  pure def atanInv(q: int): int = {
    pure val t = S * 2^32 / q
    range(0, 75).foldl((t, 0), (a, i) => (-a._1 / (q * q), a._2 + a._1 / (2 * i + 1)))._2
  }
  // Machin
  pure val PI: int = (16 * atanInv(5) - 4 * atanInv(239)) / 2^32
  pure val PI2: int = 2 * PI
  pure val PIH: int = PI / 2

  // a longer pi (1200 bits) for argument reduction
  pure val PLONG = 1200
  pure def atanInvLong(q: int): int = {
    pure val t = 2^(PLONG + 32) / q
    range(0, 540).foldl((t, 0), (a, i) => (-a._1 / (q * q), a._2 + a._1 / (2 * i + 1)))._2
  }
  pure val PI_LONG: int = (16 * atanInvLong(5) - 4 * atanInvLong(239)) / 2^32

  // atan((2j+1)/64) by Euler's series
  pure def atanNode(x: int, y: int): int = {
    pure val d = x * x + y * y
    range(0, 170).foldl((x * y * S * 2^16 / d, 0), (a, i) =>
      (a._1 * (2 * (i + 1)) * x * x / ((2 * (i + 1) + 1) * d), a._2 + a._1))._2 / 2^16
  }
  pure val ATAN_NODE: List[int] = range(0, 32).foldl([], (l, j) => l.append(atanNode(2 * j + 1, 64)))

  // ln(x * 2^-p) for x > 0
  pure def ln(x: int, p: int): int = {
    pure val k = ilog2(x)
    pure val m = shl(x, PB - k)          // in [S, 2S)
    pure val j = (m - S) * 32 / S
    pure val c = 65 + 2 * j              // node c/64
    pure val t = (64 * m - c * S) * S / (64 * m + c * S)
    LN_NODE[j] + 2 * oddSeries(t, t * t / S, 1, 11) + (k - p) * LN2
  }

  // atan(n/d) for 0 <= n <= d, d > 0
  // (no node below 1/32, so a tiny n keeps its sign and a vanishing quotient gives 0)
  pure def atan01(n: int, d: int): int = if (32 * n < d) { pure val t = n * S / d oddSeries(t, t * t / S, -1, 16) } else {
    pure val j = min(31, 32 * n / d)
    pure val c = 2 * j + 1
    pure val t = (64 * n - c * d) * S / (64 * d + c * n)
    ATAN_NODE[j] + oddSeries(t, t * t / S, -1, 13)
  }

  // arg(a + i b) in (-pi, pi]; b = 0 counts as +0.  a, b on the same scale, not both 0.
  pure def atan2(b: int, a: int): int = {
    pure val ab = abs(b)
    pure val aa = abs(a)
    pure val t = if (ab <= aa) atan01(ab, aa) else PIH - atan01(aa, ab)
    pure val u = if (a < 0) PI - t else t
    if (b < 0) -u else u
  }

  // ln |a + i b| with a, b scaled by 2^p
  pure def lnAbs(a: int, b: int, p: int): int = ln(a * a + b * b, 2 * p) / 2

  pure def cmul(a: (int, int), b: (int, int)): (int, int) =
    ((a._1 * b._1 - a._2 * b._2) / S, (a._1 * b._2 + a._2 * b._1) / S)

  // magnitude estimate: max-norm
  pure def cmag(a: (int, int)): int = max(abs(a._1), abs(a._2))
}
