// Special numbers the polylogarithms are built from, at 2^-PB resolution.
module numbers {
  import fixed.* from "./fixed"

  // Riemann zeta at integers 2..ZMAX, by Borwein's alternating acceleration.
  pure val ZMAX = 200
  pure val BN = 70
  // factorials up to 320
  pure val FACT: List[int] = range(1, 321).foldl([1], (l, k) => l.append(l[k - 1] * k))

  // d_k of Borwein's algorithm, k = 0..BN
  pure val BD: List[int] = range(0, BN + 1).foldl(([], 0), (a, i) => {
    pure val s = a._2 + BN * FACT[BN + i - 1] * 4^i / (FACT[BN - i] * FACT[2 * i])
    (a._1.append(s), s)
  })._1
  pure def zetaBorwein(s: int): int = {
    pure val e = range(0, BN).foldl(0, (a, k) =>
      a + (if (k % 2 == 0) 1 else -1) * ((BD[BN] - BD[k]) * S * 2^16) / (k + 1)^s)
    e / BD[BN] * 2^(s - 1) / (2^(s - 1) - 1) / 2^16
  }
  // ZETA[s] for s >= 2 (entries 0 and 1 are placeholders)
  pure val ZETA: List[int] = range(2, ZMAX + 1).foldl([0, 0], (l, s) =>
    l.append(if (s > PB + 2) S else zetaBorwein(s)))
  pure def zetaPos(s: int): int = if (s > ZMAX) S else ZETA[s]

  // Dirichlet eta at even arguments 2k (eta(0) = 1/2)
  pure def etaPos(s: int): int =
    if (s == 0) S / 2 else if (s == 1) LN2
    else if (s > PB) S else zetaPos(s) - 2 * zetaPos(s) / 2^s

  // harmonic numbers H_0..H_400
  pure val HARM: List[int] = range(1, 401).foldl([0], (l, k) => l.append(l[k - 1] + S / k))

  // tangent numbers -> exact Bernoulli numbers B_{2k} = BNUM[k]/BDEN[k]
  pure val BERN_MAX = 135
  pure val TAN: List[int] = {
    pure val t1 = range(2, BERN_MAX + 1).foldl([0, 1], (l, k) => l.append((k - 1) * l[k - 1]))
    range(2, BERN_MAX + 1).foldl(t1, (t, k) =>
      // rows below k stay; rows k.. are updated left to right
      range(k, BERN_MAX + 1).foldl(t.slice(0, k), (acc, j) =>
        acc.append((j - k) * acc[j - 1] + (j - k + 2) * t[j])))
  }
  // B_{2k} numerator/denominator (not reduced), k >= 1
  pure def bernNum(k: int): int = (if (k % 2 == 1) 1 else -1) * 2 * k * TAN[k]
  pure def bernDen(k: int): int = 4^k * (4^k - 1)
}
