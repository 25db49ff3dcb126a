// Tests of the specification itself (quint test spec/tests.qnt): the reference functions against
// published constants, closed forms and functional equations that the references do not use,
// and the contract against results it must accept or reject.
module tests {
  import fixed.* from "./fixed"
  import numbers.* from "./numbers"
  import polylog.* from "./polylog"
  import api.* from "./api"
  import contract.* from "./contract"
  import relations.* from "./relations"

  // the only action: nothing changes
  var none: int
  action init = none' = 0
  action step = none' = none

  pure def near2(x: int, y: int, bits: int): bool = abs(x - y) <= 2^(PB - bits)
  // x / 2^p as d / 10^k, k digits
  pure def digits(x: int, p: int, d: int, k: int): bool = abs(x * 10^k - d * 2^p) <= 2 * 2^p

  // num/2^k (num != 0) as normalised significand and exponent
  pure def nrm(num: int, k: int): (int, int) =
    if (num == 0) (0, 0) else { pure val t = 63 - ilog2(abs(num)) (shl(num, t), -k - t) }
  // Li_n((x + iy)/2^k) on the scale 2^PB
  pure def L(n: int, x: int, y: int, k: int): (int, int) = {
    pure val a = nrm(x, k)
    pure val b = nrm(y, k)
    pure val v = polylog(n, a._1, a._2, b._1, b._2)
    (shl(v._1, PB - v._3), shl(v._2, PB - v._3))
  }
  pure def close(v: (int, int), w: (int, int), bits: int): bool = near2(v._1, w._1, bits) and near2(v._2, w._2, bits)
  // relative to the larger of the two
  pure def closeRel(v: (int, int), w: (int, int), bits: int): bool = {
    pure val m = max(S, max(cmag(v), cmag(w)))
    abs(v._1 - w._1) <= m / 2^bits and abs(v._2 - w._2) <= m / 2^bits
  }
  pure def re(v: (int, int), x: int, bits: int): bool = near2(v._1, x, bits) and v._2 == 0

  // ------------------------------------------------------------ constants
  run constantsTest = init.then(all {
    assert(digits(PI, PB, 3141592653589793238462643383279502884197, 39)),
    assert(digits(LN2, PB, 6931471805599453094172321214581765680755, 40)),
    assert(near2(PI_LONG / 2^(PLONG - PB), PI, 140)),
    assert(digits(PI_LONG, PLONG, 3141592653589793238462643383279502884197169399375105820974944592307816406286208998628034825342117067982148086513, 111)),
    assert(near2(zetaPos(2), PI * PI / S / 6, 136)),
    assert(near2(zetaPos(4), PI * PI / S * PI / S * PI / S / 90, 134)),
    assert(digits(zetaPos(3), PB, 1202056903159594285399738161511449990765, 39)),
    assert(digits(zetaPos(5), PB, 1036927755143369926331365486457034168057, 39)),
    assert(digits(GAMMA, PB, 577215664901532860606512, 24)),
    assert(etaPos(2) - PI * PI / S / 12 < 2^10),
    // B_2 = 1/6, B_4 = -1/30, B_12 = -691/2730, B_20 = -174611/330
    assert(6 * bernNum(1) == bernDen(1)),
    assert(-30 * bernNum(2) == bernDen(2)),
    assert(2730 * bernNum(6) == -691 * bernDen(6)),
    assert(330 * bernNum(10) == -174611 * bernDen(10)),
    none' = none,
  })

  // zeta(2k) = (2 pi)^2k |B_2k| / (2 (2k)!): Borwein's sums against the tangent numbers
  run zetaBernoulliTest = init.then(all {
    assert(2.to(60).forall(k => {
      pure val pk = range(0, 2 * k).foldl(S * 2^600, (p, i) => p * PI2 / S / (i + 1))
      near2(zetaPos(2 * k), pk * abs(bernNum(k)) / bernDen(k) / 2 / 2^600, 130)
    })),
    none' = none,
  })

  // ------------------------------------------------------------ closed forms
  run closedFormsTest = init.then(all {
    // Li_2(1/2), Li_3(1/2), Li_2(-1), Li_n(-1), Li_n(1), Li_2(2)
    assert(re(L(2, 1, 0, 1), PI * PI / S / 12 - LN2 * LN2 / S / 2, 130)),
    assert(re(L(3, 1, 0, 1), 7 * zetaPos(3) / 8 - PI * PI / S * LN2 / S / 12 + LN2 * LN2 / S * LN2 / S / 6, 128)),
    assert(2.to(60).forall(n => close(L(n, -1, 0, 0), (-etaPos(n), 0), 84))),
    assert(2.to(60).forall(n => re(L(n, 1, 0, 0), zetaPos(n), 130))),
    assert(close(L(2, 2, 0, 0), (PI * PI / S / 4, -PI * LN2 / S), 120)),
    // Li_2(i) = -pi^2/48 + i G
    assert(near2(L(2, 0, 1, 0)._1, -PI * PI / S / 48, 120)),
    assert(digits(L(2, 0, 1, 0)._2, PB, 915965594177219015054603514932384110774, 39)),
    // Li_3((1+i)/sqrt2)-free check: Li_3(i) = -3 zeta(3)/32 + i pi^3/32
    assert(close(L(3, 0, 1, 0), (-3 * zetaPos(3) / 32, PI * PI / S * PI / S / 32), 120)),
    // Li_1, Li_0, Li_-1, Li_-2 at 3, 1/2, -1, 1+i
    assert(close(L(1, -1, 0, 0), (-LN2, 0), 130)),
    assert(close(L(1, 1, 0, 1), (LN2, 0), 130)),
    assert(close(L(1, 3, 0, 0), (-LN2, -PI), 120)),
    assert(re(L(0, 3, 0, 0), -3 * S / 2, 120)),
    assert(re(L(-1, 3, 0, 0), 3 * S / 4, 120)),
    assert(re(L(-2, 3, 0, 0), -3 * S / 2, 120)),
    assert(re(L(-3, 3, 0, 0), 33 * S / 8, 120)),
    assert(close(L(-1, 1, 1, 0), (-S, -S), 120)),
    assert(re(L(-1, -1, 0, 0), -S / 4, 120)),
    none' = none,
  })

  // published values (Abramowitz-Stegun, NIST DLMF, computed independently with mpmath)
  run publishedTest = init.then(all {
    assert(digits(L(2, 3, 5, 3)._1, PB, 267478408750464721614626588699, 30) and digits(L(2, 3, 5, 3)._2, PB, 724403638477339121096726524685, 30)),
    assert(digits(L(2, -20, 7, 3)._1, PB, -1731287826320320896159411540477, 30) and digits(L(2, -20, 7, 3)._2, PB, 434515522589736512026741303358, 30)),
    assert(digits(L(3, 9, -1, 3)._1, PB, 1378158580608139835649597570391, 30) and digits(L(3, 9, -1, 3)._2, PB, -230645723632132775295323003850, 30)),
    assert(digits(L(3, -7, 2, 3)._1, PB, -802003082994047559102988728124, 30) and digits(L(3, -7, 2, 3)._2, PB, 209599925252819633125503696554, 30)),
    assert(digits(L(4, 15, 1, 3)._1, PB, 2213601272167325439585806526745, 30) and digits(L(4, 15, 1, 3)._2, PB, 300677854201222850957922367111, 30)),
    assert(digits(L(5, 1, 9, 3)._1, PB, 85510453772336361738079788249, 30) and digits(L(5, 1, 9, 3)._2, PB, 1128009272916810761207484491621, 30)),
    assert(digits(L(6, 17, -20, 3)._1, PB, 2045084357373954299690039933596, 30) and digits(L(6, 17, -20, 3)._2, PB, -2663404883717249769683888960276, 30)),
    assert(digits(L(7, 9, 2, 3)._1, PB, 1135035893954062651612809186455, 30) and digits(L(7, 9, 2, 3)._2, PB, 254941161573187256497706500972, 30)),
    assert(digits(L(7, -12, 1, 3)._1, PB, -1483824429006707367652210652764, 30) and digits(L(7, -12, 1, 3)._2, PB, 122380136998601701862386054147, 30)),
    assert(digits(L(10, 30, 40, 3)._1, PB, 3734915135115474669350779594964, 30) and digits(L(10, 30, 40, 3)._2, PB, 5036672078618918878004447092507, 30)),
    assert(digits(L(11, 8, 1, 3)._1, PB, 1000486268255100862909052119762, 30) and digits(L(11, 8, 1, 3)._2, PB, 125124308439867030204396958123, 30)),
    assert(digits(L(20, 7, 7, 3)._1, PB, 874999999613582580471681419954, 30) and digits(L(20, 7, 7, 3)._2, PB, 875001460698037897928166762024, 30)),
    assert(digits(L(45, 9, 3, 3)._1, PB, 1125000000000031974423430504305, 30) and digits(L(45, 9, 3, 3)._2, PB, 375000000000023980817796003975, 30)),
    assert(digits(L(46, 9, 3, 3)._1, PB, 1125000000000015987211661702149, 30) and digits(L(46, 9, 3, 3)._2, PB, 375000000000011990408820651761, 30)),
    assert(digits(L(60, -9, 5, 3)._1, PB, -1124999999999999999241058479263, 30) and digits(L(60, -9, 5, 3)._2, PB, 624999999999999998780272556004, 30)),
    assert(digits(L(1, 9, 4, 3)._1, PB, 662834869651727888126929055438, 30) and digits(L(1, 9, 4, 3)._2, PB, 1815774989921760773403404172851, 30)),
    assert(digits(L(-2, 5, 3, 3)._1, PB, -814814814814814814815, 20) and digits(L(-2, 5, 3, 3)._2, PB, 14814814814814814815, 20)),
    assert(digits(L(-5, 9, 7, 3)._1, PB, 66209463967744000000000, 20) and digits(L(-5, 9, 7, 3)._2, PB, -12689410449408000000000, 20)),
    assert(digits(L(-12, -3, 11, 3)._1, PB, -8585598076634839152609765, 20) and digits(L(-12, -3, 11, 3)._2, PB, -10957881651809253629130942, 20)),
    assert(digits(L(-20, 20, -3, 3)._1, PB, 888091691633443750079315507160191729418, 20) and digits(L(-20, 20, -3, 3)._2, PB, 181209569566856528796903776573149759931, 20)),
    assert(digits(L(2, 513, 1, 9)._1, PB, 1653801521358629205374708411482, 30) and digits(L(2, 513, 1, 9)._2, PB, 18038030259306198120766537021, 30)),
    assert(digits(L(3, 511, -1, 9)._1, PB, 1198847098639302450001749637509, 30) and digits(L(3, 511, -1, 9)._2, PB, -3190789191127095622773311118, 30)),
    assert(digits(L(6, 1, 513, 9)._1, PB, -13512976066177844932831975740, 30) and digits(L(6, 1, 513, 9)._2, PB, 1000690286366599313010100027557, 30)),
    assert(digits(L(4, 1000, -1, 3)._1, PB, 17822823463362882326073065499191, 30) and digits(L(4, 1000, -1, 3)._2, PB, -58933741891653015694519668537085, 30)),
    assert(digits(L(9, 8000, 1, 3)._1, PB, 800522706848917717994596896417629, 30) and digits(L(9, 8000, 1, 3)._2, PB, 404025445855182224574316351244161, 30)),
    none' = none,
  })

  // ------------------------------------------------------------ functional equations
  // points of a grid; squares are exact
  pure val GRID: List[(int, int)] = [
    (1, 0), (3, 1), (5, 2), (-3, 5), (-7, -1), (2, -7), (7, 1), (-8, 3), (8, 1), (9, -1), (-9, 2), (11, 3), (12, -5), (14, 1), (-15, 4), (3, 15),
    (0, 5), (0, -9), (0, 17), (20, 1), (-33, 7), (100, -3), (-5, 0), (6, 0), (11, 0), (40, 0), (-40, 0), (8, 8), (7, -4), (8, -2)]

  pure def duplication(n: int, x: int, y: int): bool = {
    // z = (x + iy)/8; on the negative imaginary axis z^2 + 0i is approached from the other side of nothing: no cut there
    pure val a = L(n, x, y, 3)
    pure val b = L(n, -x, -y, 3)
    pure val c = L(n, x * x - y * y, 2 * x * y, 6)
    // 2^(1-n) c
    pure val d = if (n >= 1) (c._1 / 2^(n - 1), c._2 / 2^(n - 1)) else (c._1 * 2^(1 - n), c._2 * 2^(1 - n))
    pure val s = (a._1 + b._1, a._2 + b._2)
    // the real axis: either argument may be on the cut, approached from below
    if (y == 0 and x < 0) true else closeRel(s, d, 84)
  }
  run duplicationLowTest = init.then(all { assert(GRID.indices().forall(i => 1.to(9).forall(n => duplication(n, GRID[i]._1, GRID[i]._2)))), none' = none })
  run duplicationHighTest = init.then(all { assert(GRID.indices().forall(i => Set(12, 17, 30, 44, 45, 46, 60, 82, 83, 100, 200).forall(n => duplication(n, GRID[i]._1, GRID[i]._2)))), none' = none })
  run duplicationNegativeTest = init.then(all { assert(GRID.indices().forall(i => Set(0, 1, 2, 3, 4, 5, 8, 13, 20).forall(m => duplication(-m, GRID[i]._1, GRID[i]._2)))), none' = none })

  // Euler: Li_2(z) + Li_2(1-z) = pi^2/6 - ln z ln(1-z), away from the cuts
  pure def euler(x: int, y: int): bool = {
    pure val u = (lnAbs(x * S, y * S, PB + 3), atan2(y, x))
    pure val v = (lnAbs((8 - x) * S, -y * S, PB + 3), atan2(-y, 8 - x))
    pure val a = L(2, x, y, 3)
    pure val b = L(2, 8 - x, -y, 3)
    pure val w = cmul(u, v)
    closeRel((a._1 + b._1, a._2 + b._2), (PI * PI / S / 6 - w._1, -w._2), 100)
  }
  run eulerTest = init.then(all { assert(GRID.indices().forall(i => GRID[i]._2 == 0 or euler(GRID[i]._1, GRID[i]._2))), none' = none })

  // Landen's trilogarithm: Li_3(z) + Li_3(1-z) + Li_3(1-1/z) = zeta(3) + ln^3 z/6 + pi^2/6 ln z - ln^2 z ln(1-z)/2
  // at z = 1/2, 2^-k ... where 1 - 1/z is a dyadic number
  run landenTest = init.then(all {
    assert(1.to(6).forall(k => {
      pure val l = -k * LN2
      pure val m = ln((2^k - 1) * S, PB + k)
      pure val s = L(3, 1, 0, k)._1 + L(3, 2^k - 1, 0, k)._1 + L(3, 1 - 2^k, 0, 0)._1
      near2(s, zetaPos(3) + l * l / S * l / S / 6 + PI * PI / S * l / S / 6 - l * l / S * m / S / 2, 110)
    })),
    none' = none,
  })

  // conjugation and the two sides of the cut: the jump is 2 pi i ln^(n-1) x / (n-1)!
  run cutTest = init.then(all {
    assert(GRID.indices().forall(i => Set(-3, 0, 1, 2, 3, 6, 7, 20).forall(n => {
      pure val v = L(n, GRID[i]._1, GRID[i]._2, 3)
      pure val w = L(n, GRID[i]._1, -GRID[i]._2, 3)
      GRID[i]._2 == 0 or close(v, (w._1, -w._2), 90)
    }))),
    assert(Set(9, 12, 16, 24, 100, 1000).forall(x => 2.to(12).forall(n => {
      pure val l = ln(x * S, PB + 3)
      pure val jump = range(1, n).foldl(PI, (p, k) => p * l / S / k)
      pure val on = L(n, x, 0, 3)
      pure val above = polylog(n, nrm(x, 3)._1, nrm(x, 3)._2, 2^63, -700)
      pure val below = polylog(n, nrm(x, 3)._1, nrm(x, 3)._2, -2^63, -700)
      and {
        near2(on._2, -jump, 84),
        near2(above._2, jump, 84), near2(below._2, -jump, 84),
        near2(above._1, on._1, 84), near2(below._1, on._1, 84),
      }
    }))),
    none' = none,
  })

  // the recurrence z d/dz Li_n = Li_(n-1) by central differences
  run derivativeTest = init.then(all {
    assert(Set((3, 1), (-5, 2), (7, 3), (12, -5), (-15, 4), (30, 11)).forall(g => Set(-4, 0, 1, 2, 3, 5, 9, 40).forall(n => {
      pure val h = 30
      pure val x = g._1 * 2^h
      pure val y = g._2 * 2^h
      pure val u = L(n, x + 1, y, 3 + h)
      pure val v = L(n, x - 1, y, 3 + h)
      pure val d = ((u._1 - v._1) * 2^(h + 2), (u._2 - v._2) * 2^(h + 2))
      pure val zd = ((d._1 * g._1 - d._2 * g._2) / 8, (d._1 * g._2 + d._2 * g._1) / 8)
      closeRel(zd, L(n - 1, g._1, g._2, 3), 40)
    }))),
    none' = none,
  })

  // neighbouring methods of the reference meet: series/unity at |z| = 1/4..1/2, unity/inversion at |z| = 2
  run seamsTest = init.then(all {
    assert(Set(2, 3, 4, 6, 9, 20, 45, 46).forall(n => Set((16, 15), (17, 17), (-31, 3), (-20, 25), (33, 1), (3, -33)).forall(g => {
      // z = g/64, just below and above the switch at 2^-2 (max-norm bound): both by the defining series
      pure val a = L(n, g._1, g._2, 6)
      pure val s = liSeries(n, g._1 * S / 64, g._2 * S / 64, PB, -1)
      closeRel(a, s, 100)
    }))),
    none' = none,
  })

  // ------------------------------------------------------------ Clausen functions
  pure def C(n: int, d: int): (int, int) = liCircle(n, d, PB)
  run clausenTest = init.then(all {
    // Cl_2(pi/2) = G, Cl_2(pi/3), Cl_3(pi) = -3/4 zeta(3), Cl_1(pi/3) = 0, Cl_1(pi) = -ln 2
    assert(digits(C(2, PIH)._2, PB, 915965594177219015054603514932384110774, 39)),
    assert(digits(C(2, PI / 3)._2, PB, 1014941606409653625021202554274520285942, 39)),
    assert(near2(C(3, PI)._1, -3 * zetaPos(3) / 4, 120)),
    assert(near2(C(1, PI / 3)._1, 0, 120)),
    assert(near2(C(1, PI)._1, -LN2, 120)),
    // Sl_1 = (pi - x)/2, Sl_2 = pi^2/6 - pi x/2 + x^2/4, Sl_3 = pi^2 x/6 - pi x^2/4 + x^3/12
    assert(1.to(40).forall(k => { pure val x = k * PI / 41 and {
      near2(C(1, x)._2, (PI - x) / 2, 120),
      near2(C(2, x)._1, PI * PI / S / 6 - PI * x / S / 2 + x * x / S / 4, 118),
      near2(C(3, x)._2, PI * PI / S * x / S / 6 - PI * x / S * x / S / 4 + x * x / S * x / S / 12, 116),
    }})),
    none' = none,
  })
  // f(x) + f(x - pi) = 2^(1-n) f(2x) for both parts
  run clausenDuplicationTest = init.then(all {
    assert(Set(1, 2, 3, 4, 5, 6, 7, 10, 20, 45).forall(n => 1.to(12).forall(k => {
      pure val x = k * PI2 / 53
      pure val a = C(n, x)
      pure val b = C(n, x - PI)
      pure val c = C(n, 2 * x)
      close((a._1 + b._1, a._2 + b._2), (c._1 / 2^(n - 1), c._2 / 2^(n - 1)), 84)
    }))),
    none' = none,
  })
  // exact reduction: doubling the datum doubles the reduced angle, modulo 2 pi
  run reductionTest = init.then(all {
    assert(Set(-60, -10, 0, 40, 300, 900).forall(e => Set(2^63, 2^63 + 2^40 + 1, 2^64 - 1, 3 * 2^62 + 12345).forall(m => {
      pure val r = reduce2pi(m, e, PB)
      pure val q = reduce2pi(m, e + 1, PB)
      pure val d = abs(2 * r - q)
      (abs(r) <= PI + 4 and (d < 2^4 or abs(d - PI2) < 2^4)) and reduce2pi(-m, e, PB) == -r
    }))),
    // 10^22 = 5^22 2^22: sin(10^22) = -0.85220084976718880177270589...
    assert({
      pure val m = nrm(10^22, 0)
      pure val r = reduce2pi(m._1, m._2, PB)
      pure val s = range(1, 40).foldl((r, r), (t, k) => { pure val u = -t._1 * r / S * r / S / (2 * k) / (2 * k + 1) (u, t._2 + u) })
      digits(s._2, PB, -85220084976718880177270589375302936826, 38)
    }),
    none' = none,
  })

  // ------------------------------------------------------------ the contract accepts and rejects
  pure def num(x: int, k: int): Num = {
    pure val v = nrm(x, k)
    if (x == 0) (ZERO, 0, 0, -20000) else (FINITE, if (x < 0) 1 else 0, abs(v._1), v._2)
  }
  // x/2^PB rounded to the format
  pure def toFormat(x: int, f: int): Num = if (x == 0) num(0, 0) else {
    pure val k = ilog2(abs(x)) + 1 - precBits(f)
    num(if (k <= 0) x else sgn(x) * ((abs(x) + 2^(k - 1)) / 2^k) * 2^k, PB)
  }
  // moved by u units of the last place
  pure def ulps(x: Num, u: int, f: int): Num =
    (x._1, x._2, x._3 + u * 2^(64 - precBits(f)), x._4)
  pure val NANV: Num = (NAN, 0, 0, 0)
  pure def INFV(s: int): Num = (INF, s, 0, 0)
  pure val Z0: Num = (ZERO, 0, 0, -20000)
  pure val ALL = 31
  pure def code(fn: int, n: int, a: Num, b: Num, r: Num, q: Num): int = judgeCall(fn, n, ALL, a, b, r, q, ST_OK)._1

  // real dilogarithm in the three formats: the rounded value and its neighbourhood are accepted, others not
  run acceptTest = init.then(all {
    assert(1.to(3).forall(fn => Set(-40, -9, -3, 1, 3, 5, 7, 8, 9, 15, 17, 80).forall(x => {
      pure val f = fmt(fn)
      pure val v = toFormat(L(2, x, 0, 3)._1, f)
      and {
        code(fn, 0, num(x, 3), Z0, v, Z0) == OK,
        code(fn, 0, num(x, 3), Z0, ulps(v, 2, f), Z0) == OK,
        code(fn, 0, num(x, 3), Z0, ulps(v, 400, f), Z0) == R_VALUE or x > 8,
        code(fn, 0, num(x, 3), Z0, (v._1, 1 - v._2, v._3, v._4), Z0) == R_VALUE,
        code(fn, 0, num(x, 3), Z0, (v._1, v._2, v._3, v._4 + 1), Z0) == R_VALUE,
        code(fn, 0, num(x, 3), Z0, NANV, Z0) == R_NONFINITE,
        code(fn, 0, num(x, 3), Z0, INFV(0), Z0) == R_NONFINITE,
      }
    }))),
    none' = none,
  })
  // complex functions on both sides of the cut
  run sideTest = init.then(all {
    assert(Set(5, 8, 11, 13, 15).forall(fn => Set(9, 12, 80).forall(x => Set(-1, 0, 1).forall(y => {
      pure val n = order(fn, 0)
      pure val b = if (y == 0) Z0 else num(y, 1000)
      pure val v = polylog(n, sig(num(x, 3)), num(x, 3)._4, sig(b), b._4)
      pure val r = toFormat(v._1, 2)
      pure val q = toFormat(v._2, 2)
      pure val minus = (q._1, 1 - q._2, q._3, q._4)
      and {
        code(fn, 0, num(x, 3), b, r, q) == OK,
        code(fn, 0, num(x, 3), b, r, minus) != OK,
        judgeCall(fn, 0, AS_SIDE, num(x, 3), b, r, minus, ST_OK)._1 == R_SIDE,
        (q._2 == 0) == (y == 1),
      }
    })))),
    // real values stay real
    assert(Set(5, 8, 11, 13, 15).forall(fn => {
      pure val v = toFormat(L(order(fn, 0), 3, 0, 2)._1, 2)
      and { code(fn, 0, num(3, 2), Z0, v, Z0) == OK, code(fn, 0, num(3, 2), Z0, v, num(1, 900)) == R_AXIS }
    })),
    none' = none,
  })
  run specialTest = init.then(all {
    assert(Set(1, 2, 3, 7, 10).forall(fn => and {
      code(fn, 0, NANV, Z0, NANV, Z0) == OK, code(fn, 0, NANV, Z0, num(1, 0), Z0) == R_EXPECT_NAN,
      code(fn, 0, INFV(0), Z0, INFV(1), Z0) == OK, code(fn, 0, INFV(1), Z0, INFV(1), Z0) == OK,
      code(fn, 0, INFV(1), Z0, INFV(0), Z0) == R_EXPECT_INF, code(fn, 0, INFV(1), Z0, NANV, Z0) == R_EXPECT_INF,
      code(fn, 0, Z0, Z0, Z0, Z0) == OK, code(fn, 0, Z0, Z0, (ZERO, 1, 0, -20000), Z0) == R_EXPECT_ZERO,
      code(fn, 0, (ZERO, 1, 0, -20000), Z0, (ZERO, 1, 0, -20000), Z0) == OK,
    })),
    // Clausen functions
    assert(17.to(27).forall(fn => and {
      code(fn, 0, NANV, Z0, NANV, Z0) == OK, code(fn, 0, INFV(0), Z0, NANV, Z0) == OK, code(fn, 0, INFV(1), Z0, num(0, 0), Z0) == R_EXPECT_NAN,
      order(fn, 0) % 2 == 1 or code(fn, 0, Z0, Z0, Z0, Z0) == OK and code(fn, 0, Z0, Z0, num(1, 1000), Z0) == R_EXPECT_ZERO,
    })),
    assert(and { code(17, 0, Z0, Z0, INFV(0), Z0) == OK, code(17, 0, Z0, Z0, INFV(1), Z0) == R_EXPECT_INF }),
    assert(Set(0, -1, -5).forall(n => Set(29, 30).forall(fn => and {
      code(fn, n, num(1, 0), Z0, NANV, Z0) == OK, code(fn, n, num(1, 0), Z0, num(1, 0), Z0) == R_EXPECT_NAN }))),
    // zeta, eta, factorials, harmonic numbers
    assert(and {
      code(31, 2, Z0, Z0, toFormat(PI * PI / S / 6, 2), Z0) == OK, code(31, 1, Z0, Z0, INFV(0), Z0) == OK, code(31, 0, Z0, Z0, num(-1, 1), Z0) == OK,
      code(31, -2, Z0, Z0, Z0, Z0) == OK, code(31, -1, Z0, Z0, toFormat(-S / 12, 2), Z0) == OK, code(31, -1, Z0, Z0, toFormat(S / 12, 2), Z0) == R_VALUE,
      code(32, 2, Z0, Z0, toFormat(-PI * PI / S / 12, 2), Z0) == OK, code(32, 0, Z0, Z0, num(-1, 1), Z0) == OK, code(32, -1, Z0, Z0, num(-1, 2), Z0) == OK,
      code(33, 5, Z0, Z0, toFormat(S / 120, 2), Z0) == OK, code(33, -1, Z0, Z0, NANV, Z0) == OK, code(33, 3, Z0, Z0, toFormat(S / 5, 2), Z0) == R_VALUE,
      code(34, 3, Z0, Z0, toFormat(11 * S / 6, 2), Z0) == OK, code(34, 0, Z0, Z0, NANV, Z0) == OK, code(34, 4, Z0, Z0, toFormat(2 * S, 2), Z0) == R_VALUE,
    }),
    none' = none,
  })
  // environment and status
  run environmentTest = init.then(all {
    assert(and {
      judgeCall(2, 0, AS_RETURN, num(1, 1), Z0, NANV, Z0, ST_OK)._1 == OK,
      Set(0, 2, 3, 4, 5, 6).forall(s => judgeCall(2, 0, AS_RETURN, num(1, 1), Z0, NANV, Z0, s)._1 == R_STATUS),
      judgeCall(2, 0, AS_ENV, num(1, 1), Z0, NANV, Z0, ST_OK + 8)._1 == R_ARG,
      judgeCall(2, 0, AS_ENV, num(1, 1), Z0, NANV, Z0, ST_OK + 16)._1 == R_ENV,
      judgeCall(2, 0, AS_ENV, num(1, 1), Z0, NANV, Z0, ST_OK)._1 == OK,
    }),
    none' = none,
  })
  // relations: agreement, conjugation, parity, circle, axis
  pure def pair(rel: int, fn: int, fn2: int, n: int, e: Event): int =
    judgePair({ rel: rel, fn: fn, fn2: fn2, n: n, mask: ALL, count: 1 }, e)._1
  pure def ev(a: Num, b: Num, r: Num, q: Num, s: Num, w: Num): Event = { a: a, b: b, ra: r, rb: q, sa: s, sb: w, st: ST_OK, st2: ST_OK }
  run relationsTest = init.then(all {
    assert({
      pure val a = num(3, 3)
      pure val b = num(5, 3)
      pure val v = L(3, 3, 5, 3)
      pure val r = toFormat(v._1, 2)
      pure val q = toFormat(v._2, 2)
      pure val m: Num = (q._1, 1 - q._2, q._3, q._4)
      and {
        pair(REL_AGREE, 8, 48, 3, ev(a, b, r, q, r, q)) == OK,
        pair(REL_AGREE, 8, 48, 3, ev(a, b, r, q, r, ulps(q, 1000, 2))) == R_PAIR,
        pair(REL_AGREE, 8, 48, 3, ev(a, b, r, q, NANV, q)) == R_PAIR_CLASS,
        pair(REL_CONJ, 8, 8, 3, ev(a, b, r, q, r, m)) == OK,
        pair(REL_CONJ, 8, 8, 3, ev(a, b, r, q, r, q)) == R_PAIR,
        pair(REL_SAME, 8, 8, 3, ev(a, b, r, q, r, q)) == OK,
        pair(REL_SAME, 8, 8, 3, ev(a, b, r, q, r, ulps(q, 1, 2))) == R_PAIR,
      }
    }),
    assert({
      pure val c = C(2, S)
      pure val r = toFormat(c._2, 2)
      pure val m: Num = (r._1, 1 - r._2, r._3, r._4)
      and {
        pair(REL_PARITY, 18, 18, 2, ev(num(1, 0), Z0, r, Z0, m, Z0)) == OK,
        pair(REL_PARITY, 18, 18, 2, ev(num(1, 0), Z0, r, Z0, r, Z0)) == R_PAIR,
        // even order: Cl is the imaginary part of Li(e^{ix}), Sl the real one
        pair(REL_CIRCLE, 28, 28, 2, ev(num(1, 0), Z0, toFormat(c._1, 2), r, r, toFormat(c._1, 2))) == OK,
        pair(REL_CIRCLE, 28, 28, 2, ev(num(1, 0), Z0, toFormat(c._1, 2), r, toFormat(c._1, 2), r)) == R_PAIR,
      }
    }),
    none' = none,
  })

  // ------------------------------------------------------------ quadruple results in two data
  pure def split(m: int, p: int): (Num, Num) = {
    pure val k = ilog2(m) - 63
    pure val rest = m % 2^k
    pure val j = ilog2(rest) - 63
    ((FINITE, 0, m / 2^k, k - p), (FINITE, 0, shl(rest, -j), j - p))
  }
  run quadTest = init.then(all {
    assert(sum2((FINITE, 1, 2^63, 1), (FINITE, 1, 2^63 + 1, -60)) == (FINITE, 1, 2^124 + 2^63 + 1, -60)),
    assert(sum2(num(3, 0), Z0) == num(3, 0)),
    assert(sum2((INF, 1, 0, -20000), Z0)._1 == INF),
    assert({
      pure val v = refLi(2, num(1, 1), Z0)
      pure val x = split(v._1, v._3)
      pure def q(fn: int, hi: Num, lo: Num): int =
        judge({ rel: REL_VALUE, fn: fn, fn2: 0, n: 0, mask: AS_VALUE, count: 1 },
              { a: num(1, 1), b: Z0, ra: hi, rb: Z0, sa: lo, sb: Z0, st: 1, st2: 1 })._1
      and {
        q(123, x._1, x._2) == OK, q(166, x._1, x._2) == OK,
        q(123, x._1, Z0) == R_VALUE,          // 64 bits are not enough there
        q(3, x._1, Z0) == OK,
        q(123, NANV, Z0) == R_NONFINITE,
      }
    }),
    assert({
      pure val v = refCircle(3, num(1, 0))
      pure val x = split(v._1, PB)
      pure def q(lo: Num): int =
        judge({ rel: REL_VALUE, fn: 141, fn2: 0, n: 0, mask: AS_VALUE, count: 1 },
              { a: num(1, 0), b: Z0, ra: x._1, rb: Z0, sa: lo, sb: Z0, st: 1, st2: 1 })._1
      and { q(x._2) == OK, q(Z0) == R_VALUE }
    }),
    none' = none,
  })

  // ------------------------------------------------------------ wire format
  pure def packNum(x: Num): int = x._1 * 2^81 + x._2 * 2^80 + (x._4 + 20000) * 2^64 + x._3
  run wireTest = init.then(all {
    assert(Set(num(1, 0), num(-7, 1074), (INF, 1, 0, 0), NANV, (ZERO, 1, 0, -20000), (FINITE, 1, 2^64 - 1, 16000)).forall(x => unpackNum(packNum(x)) == x)),
    assert({
      pure val e = unpackEvent(packNum(num(3, 1)) + packNum(num(-5, 2)) * 2^83 + packNum(num(7, 0)) * 2^332 + 9 * 2^498 + 3 * 2^506)
      and { e.a == num(3, 1), e.b == num(-5, 2), e.sa == num(7, 0), status(e.st) == 1, flags(e.st) == 1, status(e.st2) == 3 }
    }),
    none' = none,
  })
}
