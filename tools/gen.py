"""Input generators.  They choose arguments; they never decide anything about results."""
import math, os, random, re
from fractions import Fraction
import plv
from plv import PREC, MINE, MAXE, ZERO, NZERO, INF, NINF, NAN, make, num, neg, nextafter, flt

def frac(q, f):
    """nearest datum of a rational"""
    q = Fraction(q)
    s = 1 if q < 0 else 0
    q = abs(q)
    if q == 0: return ZERO
    sh = 80 + q.denominator.bit_length() - q.numerator.bit_length()
    sh = max(sh, 0)
    return make(s, (q.numerator << sh) // q.denominator, -sh, f)

def source_literals():
    """numeric literals in the library's comparisons: where the implementation may switch its method.
    A dictionary for the input generators; nothing is assumed about their meaning."""
    vals = set()
    num_re = re.compile(r"(?<![\w.])(\d+\.?\d*(?:[eEdD][-+]?\d+)?)(?:_\w+)?[fLl]?(?![\w.])")
    for root, _, files in os.walk(os.path.join(plv.REPO, "src")):
        for fn in sorted(files):
            if not fn.endswith((".cpp", ".hpp", ".c", ".h", ".f90", ".fh")): continue
            for line in open(os.path.join(root, fn), errors="replace"):
                cmp = re.search(r"\bif\b|\bwhile\b|\?|[<>]=|\.(lt|gt|le|ge)\.|==", line)
                if not (cmp or re.search(r"constexpr|const |parameter", line)) or line.count(",") > 4: continue
                ns = [x.replace("d", "e").replace("D", "e") for x in num_re.findall(line) if cmp or len(x) <= 8]
                for x in ns:
                    try: v = float(x)
                    except ValueError: continue
                    if 1e-30 < v < 1e30: vals.add(v)
                # simple products such as 0.75*0.75 or 4*PI*PI
                for m in re.findall(r"[\w.]+(?:\s*\*\s*[\w.]+)+", line) if cmp else ():
                    v = 1.0
                    for t in re.split(r"\s*\*\s*", m):
                        t = t.rstrip("fL")
                        if t == "PI": v *= math.pi
                        else:
                            try: v *= float(t)
                            except ValueError: v = 0
                    if 1e-30 < v < 1e30: vals.add(v)
    return sorted(vals)

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        lits = [v for v in source_literals()]
        small = [v for v in lits if 1e-3 <= v <= 1e3]
        base = [0.5, 1.0, 2.0, 0.25, 0.75, 1.4, 0.1, 3.0, 4.0, 0.5625, 1.96, 0.3, math.e, 1 / math.e, math.pi, 2 * math.pi, math.sqrt(2)]
        self.seams = sorted(set(base))
        self.lits = sorted(set(small) - set(base)) or [1.0]
        self.tiny = [v for v in lits if v < 1e-3] or [1e-10]

    # ---- scalars
    def seam(self): return self.r.choice(self.seams) if self.r.random() < 0.6 else self.r.choice(self.lits)
    def sgn(self): return self.r.choice((-1, 1))
    def delta(self):
        u = self.r.random()
        if u < 0.15: return 0.0
        if u < 0.5: return self.sgn() * 2.0 ** -self.r.uniform(0.5, 12)
        return self.sgn() * 2.0 ** -self.r.uniform(1, 53)
    def wide(self, x, f):
        """datum of a float; for long double the extra bits are filled at random"""
        v = num(x, f)
        if f == 3 and v[0] == 1 and self.r.random() < 0.7: v = (1, v[1], v[2] | self.r.getrandbits(11), v[3])
        return v
    def anym(self, f, lo, hi):
        """log-uniform magnitude 2^lo..2^hi, any sign"""
        e = self.r.uniform(lo, hi)
        k = math.floor(e)
        return make(self.r.getrandbits(1), int(2 ** (e - k) * 2**52) << 11 | self.r.getrandbits(11), k - 63, f)
    def near(self, c, f):
        """next to the rational or float c, at any distance down to the last place"""
        c = Fraction(c)
        if self.r.random() < 0.25:
            v = frac(c, f)
            return nextafter(v, f, self.r.randint(-4, 4)) if v[0] == 1 else v
        k = self.r.uniform(0, PREC[f] + 2)
        d = Fraction(int(2 ** (k % 1) * 2**30), 2**30) / 2 ** (int(k) + 1)
        return frac(c + self.sgn() * d, f)

    CONSTS = [math.pi, math.e, math.sqrt(.5), math.sqrt(.75), math.log(2), (math.sqrt(5) - 1) / 2, (math.sqrt(5) + 1) / 2, 1 / math.e, math.sqrt(2), math.sqrt(3), math.pi / 6]
    def round(self, f):
        """round numbers and their neighbours"""
        g, k = self.r, self.r.randrange(8)
        if k == 0: q = Fraction(g.randint(0, 40))
        elif k == 1: q = Fraction(g.randint(0, 256), 2 ** g.randint(0, 8))
        elif k == 2: q = Fraction(g.randint(0, 200), 10)
        elif k == 3: q = Fraction(g.randint(0, 1000), 100)
        elif k == 4: q = Fraction(2) ** g.randint(-40, 40)
        elif k == 5: q = Fraction(10) ** g.randint(-20, 20)
        elif k == 6: q = Fraction(g.choice(self.CONSTS)) * g.randint(1, 4) / g.randint(1, 4)
        else: q = PIQ * g.randint(0, 24) / g.randint(1, 12)
        v = frac(self.sgn() * q, f)
        return nextafter(v, f, g.randint(-3, 3)) if v[0] == 1 and g.random() < .25 else v if v[0] or g.random() < .5 else NZERO
    def roundz(self, f):
        a, b, k = self.round(f), self.round(f), self.r.randrange(8)
        if k == 0: b = a
        elif k == 1: b = neg(a)
        elif k == 2: b = self.r.choice([ZERO, NZERO])
        elif k == 3: a = self.r.choice([ZERO, NZERO])
        return a, b

    # ---- real polylogarithm arguments
    def real(self, f):
        u = self.r.random()
        if u < 0.06: return self.round(f)
        if u < 0.25: return self.wide(self.r.uniform(-3, 3), f)
        if u < 0.40: return self.near(self.r.choice([0, 1, -1, Fraction(1, 2), 2, Fraction(-1, 2), -2, Fraction(1, 4), 1, 1]), f)
        if u < 0.60: return self.wide(self.sgn() * self.seam() * (1 + self.delta()), f)
        if u < 0.80: return self.anym(f, -10, 10)
        if u < 0.90: return self.anym(f, MINE[f], MAXE[f])
        if u < 0.93: return self.anym(f, MAXE[f] - 3, MAXE[f])
        if u < 0.96: return self.anym(f, MINE[f], MINE[f] + PREC[f] + 6)
        return num(self.r.randint(-64, 64) / self.r.choice([8, 10, 16, 3, 1]), f)

    # ---- complex arguments: (a, b)
    def polar(self, f, lo, hi):
        r, t = 2 ** self.r.uniform(lo, hi), self.r.uniform(-math.pi, math.pi)
        return self.wide(r * math.cos(t), f), self.wide(r * math.sin(t), f)
    def xy(self, f, x, y): return self.wide(x, f), self.wide(y, f)
    def seampoint(self, f):
        c = self.seam() * (1 + self.delta())
        t = self.r.uniform(-math.pi, math.pi)
        if self.r.random() < 0.15: t = self.r.choice([0.5, 1, 1.5]) * math.pi + self.delta() * 0.1 if self.r.random() < 0.5 else self.delta()
        k = self.r.randrange(9)
        cs, sn = math.cos(t), math.sin(t)
        if k == 0: return self.xy(f, c * cs, c * sn)                                 # |z| = c
        if k == 1: return self.xy(f, math.sqrt(c) * cs, math.sqrt(c) * sn)           # |z|^2 = c
        if k == 2: return self.xy(f, 1 + c * cs, c * sn)                             # |z - 1| = c
        if k == 3: return self.xy(f, self.sgn() * c, c * math.tan(t / 2.0001) if abs(t) < 3 else t)  # Re z = c
        if k == 4: return self.xy(f, c * math.tan(t / 2.0001) if abs(t) < 3 else t, self.sgn() * c)  # Im z = c
        if k in (5, 6):                                                              # |log z| = c or |log z|^2 = c
            l = c if k == 5 else math.sqrt(c)
            for _ in range(8):
                if abs(l * sn) <= math.pi and abs(l * cs) < 80: break
                t = self.r.uniform(-math.pi, math.pi); cs, sn = math.cos(t), math.sin(t)
            if abs(l * cs) > 80: l = 1.0
            m = math.exp(l * cs)
            return self.xy(f, m * math.cos(l * sn), m * math.sin(l * sn))
        if k == 7:                                                                   # |z|^2 = 2c Re z (circle through 0)
            return self.xy(f, c * (1 + cs), c * sn)
        if c > math.pi: c = c % math.pi                                              # arg z = +-c
        m = 2 ** self.r.uniform(-3, 3)
        return self.xy(f, m * math.cos(c), self.sgn() * m * math.sin(c))
    def nearcut(self, f):
        """next to the real axis, every ratio of Im to Re"""
        u = self.r.random()
        if u < 0.5: a = self.wide(self.sgn() * 2 ** self.r.uniform(-4, 6), f)
        elif u < 0.8: a = self.near(self.r.choice([1, 1, 2, -1, Fraction(1, 2), 3]), f)
        else: a = self.anym(f, MINE[f], MAXE[f])
        return a, self.tinyim(f)
    def tinyim(self, f):
        u = self.r.random()
        if u < 0.35: return self.anym(f, MINE[f], 0)
        if u < 0.55: return self.anym(f, MINE[f], MINE[f] + 4)
        if u < 0.75: return self.anym(f, -PREC[f] - 20, 0)
        return self.anym(f, -12, 0)
    def axis(self, f):
        return self.real(f), self.r.choice([ZERO, NZERO])
    def cplx(self, f):
        u = self.r.random()
        if u < 0.06: return self.roundz(f)
        if u < 0.25: return self.polar(f, -4, 4)
        if u < 0.50: return self.seampoint(f)
        if u < 0.58: return self.nearcut(f)
        if u < 0.66:
            c = self.r.choice([(1, 0), (1, 0), (-1, 0), (0.5, 0), (2, 0), (0, 1), (0, -1), (0.5, 0.8660254037844386), (0.5, -0.8660254037844386),
                               (0, 0.5), (0.5, 0.5), (1, 1), (-0.5, 0)])
            m, t = 2.0 ** -self.r.uniform(0, PREC[f]), self.r.uniform(-math.pi, math.pi)
            return self.xy(f, c[0] + m * math.cos(t), c[1] + m * math.sin(t))
        if u < 0.74: return self.axis(f)
        if u < 0.79: return self.polar(f, -40, 40)
        if u < 0.84: return self.extreme(f)
        if u < 0.89:
            t = self.r.uniform(-math.pi, math.pi)
            return self.xy(f, math.cos(t), math.sin(t))
        if u < 0.92: return self.anym(f, MINE[f], 2), self.anym(f, -4, 4)              # near the imaginary axis
        if u < 0.94: return self.r.choice([ZERO, NZERO]), self.anym(f, -6, 6)         # on it
        if u < 0.97: return num(self.r.randint(-32, 32) / 8, f), num(self.r.randint(-32, 32) / 8, f)
        return self.xy(f, self.r.uniform(-3, 3), self.r.uniform(-3, 3))
    def mixed(self, f):
        """one component of order one, the other one subnormal or tiny"""
        lo = MINE[f]
        u, a = self.r.random(), self.anym(f, -4, 4) if self.r.random() < 0.5 else self.wide(self.sgn() * self.r.uniform(0.3, 2.5), f)
        b = self.anym(f, lo, lo + 3) if u < 0.25 else self.anym(f, lo, lo + PREC[f] + 2) if u < 0.75 else self.anym(f, lo, -PREC[f])
        return (a, b) if self.r.random() < 0.65 else (b, a)
    def extreme(self, f):
        u = self.r.random()
        lo, hi = MINE[f], MAXE[f]
        if self.r.random() < 0.12: return self.mixed(f)
        if u < 0.25: return self.anym(f, lo, hi), self.anym(f, lo, hi)
        if u < 0.45:
            e = self.r.uniform(lo, hi); return self.anym(f, max(lo, e - 2), min(hi, e + 2)), self.anym(f, max(lo, e - 2), min(hi, e + 2))
        if u < 0.60: return self.anym(f, hi - 3, hi), self.anym(f, hi - 3, hi)
        if u < 0.70: return self.anym(f, lo, lo + PREC[f] + 4), self.anym(f, lo, lo + PREC[f] + 4)
        if u < 0.80: e = self.sgn() * hi / 2; return self.anym(f, e - 3, e + 3), self.anym(f, e - 3, e + 3)
        if u < 0.90: return self.anym(f, -PREC[f] - 12, -8), self.anym(f, -PREC[f] - 12, -8)
        return self.anym(f, 8, PREC[f] + 12), self.anym(f, -4, PREC[f] + 12)

    # ---- angles
    def angle(self, f):
        u = self.r.random()
        if u < 0.06: return self.round(f)
        if u < 0.35: return self.wide(self.r.uniform(-2 * math.pi, 2 * math.pi), f)
        if u < 0.50:
            k, m = self.r.randint(-8, 8), self.r.choice([1, 1, 2, 3, 4, 6])
            x = k * math.pi / m
            return self.wide(x + (self.sgn() * 2.0 ** -self.r.uniform(0, 60)), f) if x == 0 or self.r.random() < 0.7 else \
                nextafter(frac(Fraction(k) * PIQ / m, f), f, self.r.randint(-3, 3))
        if u < 0.65: return self.wide(self.sgn() * self.seam() * (1 + self.delta()), f)
        if u < 0.72: return self.anym(f, -12, 4)
        if u < 0.80: return self.anym(f, MINE[f], 0)
        return self.turns(f)
    def turns(self, f):
        """many turns, also next to multiples of pi"""
        u = self.r.random()
        if u < 0.35: return self.wide(self.r.uniform(-60, 60), f)
        if u < 0.60: return self.anym(f, 2, 30)
        if u < 0.72:
            k = self.r.randint(1, 10 ** self.r.randint(1, 9))
            return nextafter(frac(self.sgn() * k * PIQ / self.r.choice([1, 2]), f), f, self.r.randint(-3, 3))
        if u < 0.85:
            k = self.r.randint(1, 50)
            return self.wide(self.sgn() * k * math.pi + self.sgn() * 2.0 ** -self.r.uniform(0, 45), f)
        if u < 0.95: return self.anym(f, 20, PREC[f] + 4)
        return self.anym(f, PREC[f], min(MAXE[f], 2000))
    def order(self, lo, hi):
        return self.r.randint(lo, hi)
    def alias(self):
        """large orders that look small when cut to fewer bits"""
        k = self.r.choice([8, 15, 16, 24, 31, 31, 32, 32, 32, 32, 33, 40, 48, 53, 62])
        return min(2**63 - 1, 2**k * self.r.choice([1, 1, 1, 1, 3, 5]) + self.r.randint(-3, 60))
    def bigorder(self):
        u = self.r.random()
        if u < 0.4: return self.r.randint(7, 60)
        if u < 0.55: return self.r.randint(60, 400)
        if u < 0.75: return self.alias()
        if u < 0.93: return int(2 ** self.r.uniform(6, 63)) - self.r.randint(0, 1)
        return self.r.choice([2**63 - 1, 2**63 - 2, 2**62, 2**53, 2**53 + 1, 2**31, 2**31 - 1, 2**32, 2**32 + 1, 1074, 1075, 1023, 1022, 170, 171])

PIQ = Fraction(int("314159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651"), 10**(len("314159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651") - 1))
