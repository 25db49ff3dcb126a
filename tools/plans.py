"""Which behaviours each property's check records.  Inputs only; every verdict comes from the specification."""
import math
from fractions import Fraction
import plv
from plv import *
from gen import Gen

# bindings: C++ ids are < 40, C = +40, Fortran = +80
XS = [i for i in API if i < 40]
CS = [i for i in API if 40 < i < 80]
QXS, QCS = [i for i in QAPI if i < 160], [i for i in QAPI if i > 160]
FS = [i for i in API if i > 80]
def fam(fn):
    b = fn % 40
    if b in (1, 2, 3, 7, 10): return "real"
    if b <= 16: return "cplx"
    if b <= 27: return "cl"
    return {28: "lin", 29: "cln", 30: "sln"}.get(b, "num")
def forder(fn):
    b = fn % 40
    return [0, 2, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 6, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 0, 0, 0, 0, 0, 0, 0][b]
REAL = [i for i in XS if fam(i) == "real"]
CPLX = [i for i in XS if fam(i) == "cplx"]
CLS = [i for i in XS if fam(i) == "cl"]
LIN, CLN, SLN = ID["x_lin_d"], ID["x_cln_d"], ID["x_sln_d"]
NUMS = [ID["x_zeta"], ID["x_neta"], ID["x_ifac"], ID["x_harm"]]
AS_ALL = AS_VALUE | AS_SIDE | AS_SPECIAL
MAXI = 2**63 - 1

def siblings(fn):
    """other entry points for the same function"""
    b, o = fn % 40, forder(fn)
    r = [i for i in API if i % 40 == b and i != fn]
    r += [i for i in API if i != fn and i % 40 != b and fam(i) == fam(fn) and forder(i) == o]
    return r
def best_sibling(fn):
    s = [i for i in siblings(fn) if fmt(i) == 3]
    return s[0] if s else None
def axis_partner(fn):
    """the most precise complex function of the order of a real one"""
    return {2: ID["x_cli2_l"], 3: ID["x_cli3_l"], 4: ID["x_cli4_l"]}[forder(fn)]

# --- what a selected argument is turned into
def mk_value(mask):
    return lambda j, a, b, k: [Event(VALUE, j.fn, j.n, a, b, mask=mask)]
def mk_pair(rel):
    return lambda j, a, b, k: [Event(rel, j.fn, j.n, a, b, j.fn2 if rel in (AGREE, AXIS) else 0)]
def mk_both(mask, rel):
    v, p = mk_value(mask), mk_pair(rel)
    return lambda j, a, b, k: v(j, a, b, k) + (p(j, a, b, k) if k == 0 else [])

class Ctx:
    def __init__(self, seed, tier, driver):
        self.seed, self.tier, self.driver = seed, tier, driver
        self.k = 2 if tier == "quick" else 20          # more recorded calls
        self.s = 4 if tier == "quick" else 100         # more scanned arguments
        self.g = Gen(seed)
        self.events, self.jobs = [], []
        self.js = seed * 1000003
    def add(self, *e): self.events.extend(e)
    def job(self, rel, fn, make, n=0, fn2=0, count=100000, topk=8, **kw):
        self.js += 1
        self.jobs.append(Job(rel, fn, n=n, fn2=fn2, count=int(count * self.s), topk=topk, seed=self.js * 0x9e3779b9, make=make, **kw))
    # ---- argument families
    def args(self, fn, count, kindof=None):
        g, f = self.g, fmt(fn)
        k = kindof or {"real": "real", "cplx": "cplx", "lin": "cplx", "cl": "angle", "cln": "angle", "sln": "angle"}[fam(fn)]
        fn_ = getattr(g, k)
        for _ in range(int(count)):
            v = fn_(f)
            yield v if len(v) == 2 else (v, ZERO)
    def values(self, fn, count, n=0, mask=AS_VALUE, kindof=None):
        for a, b in self.args(fn, count * self.k, kindof): self.add(Event(VALUE, fn, n, a, b, mask=mask))
    def pairs(self, rel, fn, count, fn2=0, n=0, n2=None, kindof=None):
        c = fn
        if fn2 and fmt(fn2) < fmt(fn): c = fn2
        g, f = self.g, min(fmt(fn), fmt(fn2) if fn2 else 9)
        k = kindof or {"real": "real", "cplx": "cplx", "lin": "cplx", "cl": "angle", "cln": "angle", "sln": "angle"}[fam(fn)]
        for _ in range(int(count * self.k)):
            v = getattr(g, k)(f)
            a, b = v if len(v) == 2 else (v, ZERO)
            self.add(Event(rel, fn, n, a, b, fn2, n2))
    def quads(self, fns, count, mask, kinds=(None,)):
        """the same functions where long double is quadruple"""
        for fn in fns:
            for k in kinds: self.values(fn, count, mask=mask, kindof=k)
    # ---- scans
    def scan_real(self, rel, fn, make, fn2=0, n=0, count=150000, topk=8):
        f = min(fmt(fn), fmt(fn2) if fn2 else 9)
        J = lambda c, t, **k: self.job(rel, fn, make, n=n, fn2=fn2, count=count * c, topk=t, **k)
        J(1, topk, mode=0, lo=-1.2, hi=2.2)
        J(.5, topk // 2, mode=0, lo=-30, hi=30)
        J(.5, topk // 2, mode=1, lo=-14, hi=14)
        J(.3, topk // 2, mode=1, lo=MINE[f], hi=MAXE[f])
        for c in (1, -1, 2, .5): J(.15, 2, mode=7, cx=c, lo=-PREC[f], hi=-3)
        J(.3, topk // 2, mode=8)
    def scan_cplx(self, rel, fn, make, fn2=0, n=0, count=100000, topk=6, wide=True):
        f = min(fmt(fn), fmt(fn2) if fn2 else 9)
        J = lambda c, t, **k: self.job(rel, fn, make, n=n, fn2=fn2, count=count * c, topk=t, **k)
        P = math.pi
        J(1, topk, mode=2, lo=-4, hi=4, tlo=-P, thi=P)
        J(1, topk, mode=2, lo=-1, hi=1, tlo=-P, thi=P)
        J(.3, 3, mode=8)
        J(.3, 3, mode=5, cx=1.0, lo=-30, hi=-1)                                    # |log z| = 1
        J(.3, 3, mode=6, cx=0.0, cy=1.0, lo=-40, hi=-2)                             # |z| = 1
        J(.3, 3, mode=6, cx=1.0, cy=1.0, lo=-40, hi=-2)                             # |z - 1| = 1
        J(.2, 2, mode=7, cx=0.5, lo=-40, hi=-2, tlo=-10, thi=6)                     # Re z = 1/2
        for c in (1, -1, 0): J(.2, 2, mode=3, cx=c, lo=-50, hi=-1, tlo=-P, thi=P)
        J(.3, 3, mode=2, lo=-5, hi=5, tlo=-1e-3, thi=1e-3)
        J(.2, 2, mode=2, lo=-5, hi=5, tlo=P - 1e-3, thi=P + 1e-3)
        J(.2, 2, mode=4, lo=-6, hi=6, tlo=-80, thi=0)
        if wide:
            J(.3, 3, mode=2, lo=-60, hi=60, tlo=-P, thi=P)
            J(.4, 4, mode=4, lo=MINE[f], hi=MAXE[f], tlo=MINE[f], thi=MAXE[f])
            J(.2, 2, mode=2, lo=MAXE[f] / 2 - 3, hi=MAXE[f] / 2 + 3, tlo=-P, thi=P)
            J(.2, 2, mode=4, lo=MAXE[f] - 4, hi=MAXE[f] - .01, tlo=MAXE[f] - 4, thi=MAXE[f] - .01)
            J(.2, 2, mode=4, lo=MINE[f], hi=MINE[f] + 60, tlo=MINE[f], thi=MINE[f] + 60)
            J(.1, 1, mode=4, lo=-4, hi=4, tlo=MINE[f], thi=MINE[f] + 55)
            J(.1, 1, mode=4, lo=MINE[f], hi=MINE[f] + 55, tlo=-4, thi=4)
    def scan_disk(self, fn, make, n=0, count=20000, topk=3):
        """against the defining series: modest, small and subnormal |z|"""
        f = fmt(fn)
        cx = fam(fn) in ("cplx", "lin")
        J = lambda c, t, **k: self.job(SERIES, fn, make, n=n, count=count * c, topk=t, **k)
        P = math.pi
        if cx:
            J(1, topk, mode=2, lo=-3, hi=math.log2(.92), tlo=-P, thi=P)
            J(1, topk, mode=2, lo=-PREC[f] - 8, hi=-3, tlo=-P, thi=P)
            J(.5, max(1, topk // 2), mode=2, lo=-5, hi=math.log2(.92), tlo=-1e-3, thi=1e-3)
            J(.5, max(1, topk // 2), mode=8)
            J(.5, max(1, topk // 2), mode=4, lo=-40, hi=-1, tlo=-40, thi=-1)
            J(.5, max(1, topk // 2), mode=4, lo=MINE[f], hi=-1, tlo=MINE[f], thi=-1)
            J(.2, 1, mode=4, lo=MINE[f], hi=MINE[f] + PREC[f] + 6, tlo=MINE[f], thi=MINE[f] + PREC[f] + 6)
        else:
            J(1, topk, mode=8)
            J(1, topk, mode=0, lo=-.92, hi=.92)
            J(1, topk, mode=1, lo=-PREC[f] - 8, hi=0)
            J(1, topk, mode=1, lo=MINE[f], hi=0)
    def scan_angle(self, rel, fn, make, fn2=0, n=0, count=100000, topk=6, wide=True):
        f = min(fmt(fn), fmt(fn2) if fn2 else 9)
        J = lambda c, t, **k: self.job(rel, fn, make, n=n, fn2=fn2, count=count * c, topk=t, **k)
        J(1, topk, mode=0, lo=-2 * math.pi, hi=2 * math.pi)
        J(.4, topk // 2, mode=1, lo=-12, hi=3)
        for k in (1, 2, 3): J(.15, 2, mode=7, cx=k * math.pi, lo=-50, hi=-2)
        J(.3, 3, mode=8)
        if wide:
            J(.4, topk // 2, mode=0, lo=-100, hi=100)
            J(.3, 2, mode=1, lo=3, hi=30)
            J(.2, 2, mode=1, lo=MINE[f], hi=0)

def small_grid(f, step, lim):
    """exact small rationals"""
    return [num(i / step, f) for i in range(-lim * step, lim * step + 1)]

# ================================================================= plans
Q_LI, Q_CL = [i for i in QXS if fam(i) == "cplx"], [i for i in QXS if fam(i) == "cl"]
def c01(c):
    c.quads([i for i in QXS if fam(i) == "real"], 900, AS_VALUE)
    for fn in REAL:
        c.values(fn, 3600)
        for v in small_grid(fmt(fn), 16, 6): c.add(Event(VALUE, fn, 0, v))
        mk = mk_value(AS_VALUE)
        for s in [x for x in siblings(fn) if fmt(x) >= fmt(fn)]: c.scan_real(AGREE, fn, mk, s)
        c.scan_real(AGREE, fn, mk, axis_partner(fn))
        c.scan_disk(fn, mk, n=forder(fn))

def c02(c):
    c.quads(Q_LI, 450, AS_VALUE)
    for fn in CPLX:
        c.values(fn, 1900)
        mk = mk_value(AS_VALUE)
        for s in [x for x in siblings(fn) if fmt(x) >= fmt(fn)]: c.scan_cplx(AGREE, fn, mk, s, count=60000, topk=4)
        c.scan_cplx(DUP, fn, mk, n=forder(fn), count=25000, topk=2)
        c.scan_disk(fn, mk, n=forder(fn), count=5000, topk=2)

def li_orders(c, lo_hi, per, mask=AS_VALUE, kindof=None):
    for n in lo_hi: c.values(LIN, per, n=n, mask=mask, kindof=kindof)

def c03(c):
    g = c.g
    li_orders(c, range(0, 7), 500)
    li_orders(c, range(7, 31), 330)
    li_orders(c, range(31, 81), 70)
    for _ in range(2500 * c.k):
        a, b = g.cplx(2)
        c.add(Event(VALUE, LIN, g.bigorder(), a, b))
    for _ in range(1500 * c.k):                                  # large n against large |z|: every branch of the inversion
        a, b = g.polar(2, 0, g.r.choice([2, 10, 40, 300]))
        c.add(Event(VALUE, LIN, g.r.randint(7, 700), a, b))
    mk = mk_value(AS_VALUE)
    for n in (2, 3, 4, 5, 6): c.scan_cplx(AGREE, LIN, mk, ID["x_cli%d_l" % n], n=n, count=25000, topk=2)
    for n in [0, 1] + list(range(7, 40)) + [g.bigorder() for _ in range(8)]: c.scan_cplx(DUP, LIN, mk, n=n, count=5000, topk=2)
    for n in list(range(40, 201)) + [g.bigorder() for _ in range(30)]: c.scan_cplx(DUP, LIN, mk, n=n, count=1500, topk=1)
    for n in list(range(0, 201)) + [g.bigorder() for _ in range(30)]: c.scan_disk(LIN, mk, n=n, count=800, topk=1)

def c04(c):
    g = c.g
    for n in range(-60, 0): c.values(LIN, 330 if n >= -40 else 200, n=n)
    mk = mk_value(AS_VALUE)
    for n in range(-60, 0):
        c.scan_cplx(DUP, LIN, mk, n=n, count=3000, topk=2)
        c.scan_disk(LIN, mk, n=n, count=800, topk=1)

def c05(c):
    c.quads(Q_CL, 500, AS_VALUE)
    mk = mk_value(AS_VALUE)
    for fn in CLS:
        c.values(fn, 2000)
        for k in range(-48, 49):
            v = num(k / 8, fmt(fn))
            c.add(Event(VALUE, fn, 0, v))
        for s in [x for x in siblings(fn) if fmt(x) >= fmt(fn)]: c.scan_angle(AGREE, fn, mk, s, n=forder(fn))
        c.scan_angle(DUP, fn, mk, n=forder(fn), count=60000)

def c06(c):
    g, mk = c.g, mk_value(AS_VALUE)
    for n in range(1, 7): c.values(CLN, 700, n=n)
    for n in range(7, 21): c.values(CLN, 700, n=n)
    for n in range(21, 81): c.values(CLN, 60, n=n)
    for _ in range(1500 * c.k): c.add(Event(VALUE, CLN, g.bigorder(), g.angle(2)))
    for n in range(1, 7): c.scan_angle(AGREE, CLN, mk, ID["x_cl%d_l" % n] if n > 1 else ID["x_cl1_d"], n=n)
    for n in list(range(1, 40)) + [g.bigorder() for _ in range(6)]: c.scan_angle(DUP, CLN, mk, n=n, count=20000, topk=4)
    for n in list(range(40, 301)) + [g.bigorder() for _ in range(30)]: c.scan_angle(DUP, CLN, mk, n=n, count=5000, topk=1)

def c07(c):
    g, mk = c.g, mk_value(AS_VALUE)
    for n in range(1, 41): c.values(SLN, 420, n=n)
    for n in range(41, 81): c.values(SLN, 60, n=n)
    for _ in range(1500 * c.k): c.add(Event(VALUE, SLN, g.bigorder(), g.angle(2)))
    for n in list(range(1, 50)) + [g.bigorder() for _ in range(8)]: c.scan_angle(DUP, SLN, mk, n=n, count=20000, topk=4)
    for n in list(range(50, 301)) + [g.bigorder() for _ in range(30)]: c.scan_angle(DUP, SLN, mk, n=n, count=5000, topk=1)

def cut_orders(g): return list(range(1, 31)) + [g.r.randint(31, 400) for _ in range(8)] + [g.bigorder() for _ in range(6)]
def c08(c):
    g = c.g
    m = AS_SIDE | AS_VALUE
    c.quads(Q_LI, 50, m, ("nearcut", "axis"))
    for fn in CPLX + [i for i in CS + FS if fam(i) == "cplx"]:
        c.values(fn, 330, mask=m, kindof="nearcut")
        c.values(fn, 130, mask=m, kindof="axis")
        mk = mk_value(m)
        f = fmt(fn)
        for lo, hi in ((0, 3), (-8, 0), (0, 60)):
            # conjugates next to the cut
            c.job(CONJ, fn, mk, mode=4, lo=lo, hi=hi, tlo=MINE[f], thi=-PREC[f], count=20000, topk=3)
            c.job(CONJ, fn, mk, mode=4, lo=lo, hi=hi, tlo=-PREC[f], thi=0, count=20000, topk=3)
        c.job(CONJ, fn, mk, mode=8, count=20000, topk=3)
    for n in cut_orders(g):
        c.values(LIN, 110, n=n, mask=m, kindof="nearcut")
        c.values(LIN, 45, n=n, mask=m, kindof="axis")
        c.job(CONJ, LIN, mk_value(m), n=n, mode=4, lo=-4, hi=20, tlo=MINE[2], thi=0, count=5000, topk=2)
    # higher orders: the cut shows where |z| is large
    for n in range(31, 201):
        c.values(LIN, 8, n=n, mask=m, kindof="nearcut"); c.values(LIN, 5, n=n, mask=m, kindof="axis")
        for _ in range(int(8 * c.k)):
            x = g.wide(2.0 ** g.r.uniform(0, g.r.choice([4, 40, 1000])), 2)
            c.add(Event(VALUE, LIN, n, x, g.r.choice([ZERO, NZERO, g.anym(2, MINE[2], 0)]), mask=m))
        c.job(CONJ, LIN, mk_value(m), n=n, mode=4, lo=0, hi=g.r.choice([4, 40, 1000]), tlo=MINE[2], thi=0, count=1500, topk=1)

def c09(c):
    g = c.g
    mk = mk_pair(CONJ)
    def offaxis(fn, n, count):
        for a, b in c.args(fn, count * c.k):
            if b[0] == 1: c.add(Event(CONJ, fn, n, a, b))
    for fn in CPLX + [i for i in CS + FS if fam(i) == "cplx"]:
        offaxis(fn, 0, 330)
        for a, b in c.args(fn, 120 * c.k, "nearcut"): c.add(Event(CONJ, fn, 0, a, b))
        c.scan_cplx(CONJ, fn, mk, count=20000, topk=2)
    for n in list(range(-60, 41)) + [g.bigorder() for _ in range(12)]:
        offaxis(LIN, n, 60)
        for a, b in c.args(LIN, 20 * c.k, "nearcut"): c.add(Event(CONJ, LIN, n, a, b))
        c.scan_cplx(CONJ, LIN, mk, n=n, count=1200 if n < 0 else 4000, topk=1)
    for n in range(41, 201):
        offaxis(LIN, n, 10)
        c.scan_cplx(CONJ, LIN, mk, n=n, count=600, topk=1)
    mk = mk_pair(PARITY)
    for n in range(41, 201):
        for fn in (CLN, SLN): c.pairs(PARITY, fn, 10, n=n); c.scan_angle(PARITY, fn, mk, fn2=(0 if n % 2 else 1) if fn == CLN else n % 2, n=n, count=1500, topk=1)
    for fn in CLS + [i for i in CS + FS if fam(i) == "cl"]:
        c.pairs(PARITY, fn, 140)
        c.scan_angle(PARITY, fn, mk, fn2=0 if forder(fn) % 2 else 1, n=forder(fn), count=20000, topk=2)
    for n in list(range(1, 41)) + [g.bigorder() for _ in range(12)]:
        c.pairs(PARITY, CLN, 60, n=n); c.pairs(PARITY, SLN, 60, n=n)
        c.scan_angle(PARITY, CLN, mk, fn2=0 if n % 2 else 1, n=n, count=4000, topk=1)
        c.scan_angle(PARITY, SLN, mk, fn2=n % 2, n=n, count=4000, topk=1)

def binding(c, fns, per, mask):
    for fn in fns:
        x = fn % 40
        mk = mk_both(mask, AGREE)
        k = fam(fn)
        c.values(fn, per, mask=mask)
        c.pairs(AGREE, fn, per // 2, x)
        if k == "cplx":
            c.values(fn, per // 5, mask=mask, kindof="nearcut")
            c.values(fn, per // 5, mask=mask, kindof="axis")
            c.values(fn, per // 5, mask=mask, kindof="extreme")
            c.pairs(AGREE, fn, per // 5, x, kindof="extreme")
        sp = specials(fmt(fn))
        for a in sp:
            for b in (sp if k == "cplx" else [ZERO]): c.add(Event(VALUE, fn, 0, a, b, mask=mask))
        sc = {"real": c.scan_real, "cplx": c.scan_cplx, "cl": c.scan_angle}[k]
        for s in [x] + [s for s in siblings(fn) if fmt(s) > fmt(fn) and s < 40]: sc(AGREE, fn, mk, s, n=forder(fn), count=60000, topk=4)
        if fmt(fn) == 3: sc(DUP, fn, mk_value(mask), n=forder(fn), count=15000, topk=2) if k != "real" else None

def c10(c):
    binding(c, CS, 420, AS_ALL | AS_ENV)
    c.quads(QCS, 300, AS_ALL)
    c.quads([i for i in QCS if fam(i) == "cplx"], 40, AS_ALL, ("nearcut", "axis", "extreme"))
    c.quads([i for i in QCS if fam(i) == "cl"], 40, AS_ALL, ("turns",))
def c11(c): binding(c, FS, 800, AS_ALL | AS_ENV)

def c12(c):
    for bind in (XS, CS):
        for fn in bind:
            if fam(fn) not in ("real", "cplx", "cl"): continue
            for s in bind:
                if fmt(s) > fmt(fn) and fam(s) == fam(fn) and forder(s) == forder(fn):
                    k = fam(fn)
                    c.pairs(AGREE, fn, 560, s)
                    if k == "cplx":
                        for kk in ("extreme", "nearcut", "axis"): c.pairs(AGREE, fn, 110, s, kindof=kk)
                    sc = {"real": c.scan_real, "cplx": c.scan_cplx, "cl": c.scan_angle}[k]
                    sc(AGREE, fn, mk_pair(AGREE), s, n=forder(fn), count=60000, topk=3)

def c13(c):
    g = c.g
    for n in range(2, 7):
        for s in [i for i in CPLX if forder(i) == n]:
            c.pairs(AGREE, LIN, 300, s, n=n)
            for kk in ("axis", "nearcut", "extreme"): c.pairs(AGREE, LIN, 60, s, n=n, kindof=kk)
            c.scan_cplx(AGREE, LIN, mk_pair(AGREE), s, n=n, count=20000, topk=2)
    for n in range(1, 7):
        for s in [i for i in CLS if forder(i) == n]:
            c.pairs(AGREE, CLN, 300, s, n=n)
            c.scan_angle(AGREE, CLN, mk_pair(AGREE), s, n=n, count=40000, topk=3)
    # real against complex on the axis
    for fn in REAL:
        for s in [i for i in CPLX + [LIN] if (forder(i) == forder(fn) or i == LIN) and fmt(i) == fmt(fn)] + ([axis_partner(fn)] if fmt(fn) < 3 else []):
            for k in range(int(260 * c.k)):
                c.add(Event(AXIS, fn, forder(fn), g.real(fmt(fn)), g.r.choice([ZERO, NZERO]), s, forder(fn)))
            c.scan_real(AGREE, fn, mk_pair(AXIS), s, n=forder(fn), count=30000, topk=3)
    # unit circle
    for n in list(range(1, 41)) + [g.bigorder() for _ in range(20)]:
        for _ in range(110 * c.k if n < 41 else 60 * c.k): c.add(Event(CIRCLE, LIN, n, g.wide(g.r.uniform(-3.1415, 3.1415), 2) if g.r.random() < .7 else g.angle(2)))
        c.job(CIRCLE, LIN, mk_pair(CIRCLE), n=n, mode=0, lo=-3.2, hi=3.2, count=8000, topk=3)
        c.job(CIRCLE, LIN, mk_pair(CIRCLE), n=n, mode=1, lo=-30, hi=1.5, count=3000, topk=2)
        c.job(CIRCLE, LIN, mk_pair(CIRCLE), n=n, mode=8, count=3000, topk=2)
    for n in range(41, 201):
        for _ in range(12 * c.k): c.add(Event(CIRCLE, LIN, n, g.wide(g.r.uniform(-3.1415, 3.1415), 2) if g.r.random() < .7 else g.angle(2)))
        c.job(CIRCLE, LIN, mk_pair(CIRCLE), n=n, mode=0, lo=-3.2, hi=3.2, count=2000, topk=1)
    for _ in range(1200 * c.k): c.add(Event(CIRCLE, LIN, g.bigorder(), g.wide(g.r.uniform(-3.1415, 3.1415), 2) if g.r.random() < .7 else g.angle(2)))

def specials(f):
    d = make(0, 1, MINE[f], f)
    mx = make(0, 2**PREC[f] - 1, MAXE[f] - PREC[f], f)
    one, h, two = num(1.0, f), num(.5, f), num(2.0, f)
    r = []
    for v in (ZERO, one, h, two, d, mx, INF): r += [v, neg(v)]
    return r + [NAN, nextafter(one, f, 1), nextafter(one, f, -1)]

ORDERS_SPECIAL = list(range(-40, 41)) + [-60, -61, -64, -65, -100, -169, -170, -171, -172, -1000, 60, 61, 64, 100, 170, 171, 172, 500, 1000, 1023, 1024, 1025, 1073, 1074, 1075, 1076,
                  2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**53, 2**53 + 1, 2**62, MAXI - 2, MAXI - 1, MAXI, -2**31, -2**31 - 1, -2**53, -2**62, -2**63, -2**63 + 1]
def c14(c):
    """the product of the special values with every function, exhaustively, and with the orders"""
    for fn in list(API) + list(QAPI):
        k = fam(fn)
        if k in ("real", "cl", "cplx"):
            sp = specials(fmt(fn))
            mask = AS_ALL
            for a in sp:
                for b in (sp if k == "cplx" else [ZERO]): c.add(Event(VALUE, fn, 0, a, b, mask=mask))
    sp = specials(2)
    bad = [v for v in sp if v[0] in (0, 2, 3)]
    one = [num(1.0), num(-1.0)]
    g = c.g
    for n in ORDERS_SPECIAL:
        for a in bad + one:
            for b in bad:
                if n >= -60 or not (a[0] == 1 and b[0] == 0): c.add(Event(VALUE, LIN, n, a, b, mask=AS_SPECIAL | AS_VALUE))
        for fn in (CLN, SLN):
            for a in bad: c.add(Event(VALUE, fn, n, a, mask=AS_SPECIAL | AS_VALUE))
            if n < 1:
                for a in sp: c.add(Event(VALUE, fn, n, a, mask=AS_SPECIAL))
    # NaN and infinity with any other component; any order; undefined orders
    for _ in range(1500 * c.k):
        n = g.r.choice([g.r.randint(-60, 60), g.bigorder(), -g.bigorder()])
        x, y = g.cplx(2)[0], g.r.choice(bad)
        if x[0] != 1: continue
        if y[0] in (2, 3):
            a, b = (x, y) if g.r.random() < .5 else (y, x)
            c.add(Event(VALUE, LIN, n, a, b, mask=AS_SPECIAL))
        c.add(Event(VALUE, g.r.choice([CLN, SLN]), g.r.choice([0, -n if n > 0 else n, -1, -2, -2**63]), g.angle(2), mask=AS_SPECIAL))
    for fn in [i for i in API if fam(i) == "cplx"]:
        for _ in range(60 * c.k):
            x, y = g.cplx(fmt(fn))[0], g.r.choice([NAN, INF, NINF])
            a, b = (x, y) if g.r.random() < .5 else (y, x)
            c.add(Event(VALUE, fn, 0, a, b, mask=AS_SPECIAL))
    # zeta(n) and -eta(n) at +-1 (both signs of zero), every order
    for n in list(range(-60, 260)) + [2**62, MAXI] + [g.bigorder() for _ in range(60)]:
        for a in one:
            for b in (ZERO, NZERO): c.add(Event(VALUE, LIN, n, a, b, mask=AS_SPECIAL | AS_VALUE))
    # zeros with their signs, every order
    for n in list(range(-260, 260)) + [g.r.choice([1, -1]) * g.bigorder() for _ in range(120)]:
        for a in (ZERO, NZERO):
            for b in (ZERO, NZERO): c.add(Event(VALUE, LIN, n, a, b, mask=AS_SPECIAL | AS_VALUE))
            for fn in (CLN, SLN): c.add(Event(VALUE, fn, n, a, mask=AS_SPECIAL | AS_VALUE))
    for n in range(41, 260):
        a, b = g.cplx(2)
        for e in ((NAN, b), (a, NAN), (INF, b), (a, NINF)): c.add(Event(VALUE, LIN, n, *e, mask=AS_SPECIAL))
        for fn in (CLN, SLN): c.add(Event(VALUE, fn, n, NAN, mask=AS_SPECIAL), Event(VALUE, fn, n, INF, mask=AS_SPECIAL))
    for n in list(range(-20, 40)) + [MAXI]:
        for fn in NUMS: c.add(Event(VALUE, fn, n, ZERO))

def c17(c):
    g = c.g
    c.quads(Q_LI, 60, AS_VALUE, ("extreme",))
    for fn in QXS:
        if fam(fn) != "cplx":
            for _ in range(60 * c.k): c.add(Event(VALUE, fn, 0, g.anym(3, MINE[3], MAXE[3] if fam(fn) == "real" else 2)))
    for fn in [i for i in API if fam(i) in ("real", "cplx", "cl")]:
        f, k = fmt(fn), fam(fn)
        if k == "cplx": c.values(fn, 240, kindof="extreme"); c.values(fn, 60, kindof="nearcut")
        else:
            lo, hi = (MINE[f], MAXE[f]) if k == "real" else (MINE[f], 2)
            for _ in range(110 * c.k):
                c.add(Event(VALUE, fn, 0, g.anym(f, lo, hi)))
                c.add(Event(VALUE, fn, 0, g.anym(f, -PREC[f] - 14, -2)))
            for _ in range(40 * c.k): c.add(Event(VALUE, fn, 0, g.anym(f, lo, lo + PREC[f] + 6)))
            if k == "real":
                for _ in range(60 * c.k): c.add(Event(VALUE, fn, 0, g.anym(f, hi - 4, hi))); c.add(Event(VALUE, fn, 0, g.anym(f, 2, PREC[f] + 14)))
        mk = mk_value(AS_VALUE)
        if k != "cl":
            c.scan_disk(fn, mk, n=forder(fn), count=3000, topk=2)
            for s in [s for s in siblings(fn) if fmt(s) > fmt(fn) and s < 40]:
                for kw in (dict(lo=MINE[f], hi=MAXE[f]), dict(lo=MINE[f], hi=MINE[f] + PREC[f] + 6), dict(lo=MAXE[f] - 8, hi=MAXE[f] - .001), dict(lo=MAXE[f] / 2 - 3, hi=MAXE[f] / 2 + 3)):
                    if k == "cplx": c.job(AGREE, fn, mk, n=forder(fn), fn2=s, mode=4, tlo=kw["lo"], thi=kw["hi"], count=20000, topk=3, **kw)
                    else: c.job(AGREE, fn, mk, n=forder(fn), fn2=s, mode=1, count=20000, topk=3, **kw)
        else:
            for s in [s for s in siblings(fn) if fmt(s) > fmt(fn) and s < 40]:
                for kw in (dict(lo=MINE[f], hi=2), dict(lo=MINE[f], hi=MINE[f] + PREC[f] + 6)): c.job(AGREE, fn, mk, n=forder(fn), fn2=s, mode=1, count=20000, topk=3, **kw)
    for n in list(range(-40, 31)) + [g.bigorder() for _ in range(40)]:
        c.values(LIN, 80, n=n, kindof="extreme")
        c.scan_disk(LIN, mk, n=n, count=800, topk=1)
    for n in range(31, 201): c.values(LIN, 8, n=n, kindof="extreme")
    for n in list(range(1, 21)) + [g.bigorder() for _ in range(8)] + list(range(21, 201)):
        for fn in (CLN, SLN):
            for _ in range(int((30 if n < 21 or n > 200 else 4) * c.k)):
                c.add(Event(VALUE, fn, n, g.anym(2, MINE[2], 2)), Event(VALUE, fn, n, g.anym(2, -66, -1)))

def c18(c):
    g = c.g
    for fn in NUMS:
        for n in range(-700, 1500): c.add(Event(VALUE, fn, n, ZERO))
        for _ in range(1200 * c.k): c.add(Event(VALUE, fn, g.sgn() * int(2 ** g.r.uniform(3, 63)), ZERO))
        for n in ORDERS_SPECIAL: c.add(Event(VALUE, fn, n, ZERO))
        for k in range(3, 64):
            for d in (-2, -1, 0, 1, 2):
                for s in (1, -1):
                    n = s * (2**k + d)
                    if -2**63 <= n <= MAXI: c.add(Event(VALUE, fn, n, ZERO))

def c19(c):
    g = c.g
    c.quads(Q_CL, 100, AS_VALUE, ("turns",))
    for fn in [i for i in API if fam(i) == "cl"]: c.values(fn, 330, kindof="turns")
    for n in list(range(1, 41)) + [g.bigorder() for _ in range(20)]:
        c.values(CLN, 110, n=n, kindof="turns"); c.values(SLN, 110, n=n, kindof="turns")
    for n in range(41, 201): c.values(CLN, 12, n=n, kindof="turns"); c.values(SLN, 12, n=n, kindof="turns")
    mk = mk_value(AS_VALUE)
    for fn in CLS + [i for i in CS + FS if fam(i) == "cl"]:
        s = best_sibling(fn)
        for m, lo, hi in ((0, -7, 7), (0, -300, 300), (1, 2, 24), (1, 20, 50)):
            if s: c.job(AGREE, fn, mk, n=forder(fn), fn2=s, mode=m, lo=lo, hi=hi, count=60000, topk=4)
            c.job(DUP, fn, mk, n=forder(fn), mode=m, lo=lo, hi=hi, count=20000, topk=3)
        for k in range(-4, 5):
            if k: c.job(DUP, fn, mk, n=forder(fn), mode=7, cx=k * math.pi, lo=-48, hi=-2, count=8000, topk=2)
    for n in range(1, 31):
        for fn in (CLN, SLN):
            for m, lo, hi in ((0, -7, 7), (0, -300, 300), (1, 2, 40)): c.job(DUP, fn, mk, n=n, mode=m, lo=lo, hi=hi, count=8000, topk=2)

def c15(c):
    """every function, every kind of argument, every order: only that the call returns is judged"""
    g = c.g
    extra = [num(1e-20), num(0.3), num(-0.7), num(0.9999999), num(1.3), num(-1.3), num(1e10), num(1e300), num(3.0), num(6.283185307179586), num(1e18)]
    for fn in API:
        k, f = fam(fn), fmt(fn)
        if k in ("real", "cl", "cplx"):
            sp = specials(f)
            for a in sp:
                for b in (sp if k == "cplx" else [ZERO]): c.add(Event(VALUE, fn, 0, a, b, mask=AS_RETURN))
            c.values(fn, 250, mask=AS_RETURN)
            if k == "cplx": c.values(fn, 100, mask=AS_RETURN, kindof="extreme"); c.values(fn, 80, mask=AS_RETURN, kindof="mixed")
    orders = sorted(set(ORDERS_SPECIAL + list(range(-200, 201)) + [s * 2**k + d for k in range(6, 63) for s in (1, -1) for d in (-1, 0, 1)]))
    sp = specials(2) + extra
    for n in orders:
        for fn in NUMS: c.add(Event(VALUE, fn, n, ZERO, mask=AS_RETURN))
        for fn in (CLN, SLN):
            for a in sp: c.add(Event(VALUE, fn, n, a, mask=AS_RETURN))
        for _ in range(40): c.add(Event(VALUE, LIN, n, g.r.choice(sp), g.r.choice(sp), mask=AS_RETURN))
        c.values(LIN, 24, n=n, mask=AS_RETURN)
        c.values(LIN, 6, n=n, mask=AS_RETURN, kindof="extreme")
        c.values(LIN, 8 if abs(n) < 100 else 3, n=n, mask=AS_RETURN, kindof="mixed")
        if -12 <= n <= 12: c.values(LIN, 150, n=n, mask=AS_RETURN, kindof="mixed")
    for _ in range(3000 * c.k):
        n = g.r.choice([1, -1]) * int(2 ** g.r.uniform(0, 63))
        a, b = g.cplx(2)
        c.add(Event(VALUE, LIN, n, a, b, mask=AS_RETURN))
        c.add(Event(VALUE, g.r.choice([CLN, SLN]), n, g.angle(2), mask=AS_RETURN))
    # many more calls without a record: the scan selects the argument of a call that does not return
    mk = mk_value(AS_RETURN)
    for n in list(range(-30, 41)) + [g.r.choice([1, -1]) * int(2 ** g.r.uniform(5, 13)) for _ in range(30)]:
        J = lambda k, **kw: c.job(2, LIN, mk, n=n, count=k, topk=1, **kw)
        J(2500, mode=4, lo=-4, hi=4, tlo=MINE[2], thi=MINE[2] + 55)
        J(2500, mode=4, lo=MINE[2], hi=MINE[2] + 55, tlo=-4, thi=4)
        J(2500, mode=4, lo=MINE[2], hi=MAXE[2], tlo=MINE[2], thi=MAXE[2])
        J(5000, mode=2, lo=-1, hi=1, tlo=-math.pi, thi=math.pi)
        J(2500, mode=8)
        J(2500, mode=6, cx=0.0, cy=1.0, lo=-50, hi=-2)
        J(2500, mode=3, cx=1, lo=-60, hi=0, tlo=-math.pi, thi=math.pi)
        if n > 0:
            for fn in (CLN, SLN):
                for kw in (dict(mode=0, lo=-10, hi=10), dict(mode=1, lo=MINE[2], hi=MAXE[2])): c.job(3, fn, mk, n=n, count=2500, topk=1, **kw)
    for fn in API:
        if fam(fn) == "cplx":
            f = fmt(fn)
            for kw in (dict(lo=-4, hi=4, tlo=MINE[f], thi=MINE[f] + 55), dict(lo=MINE[f], hi=MAXE[f], tlo=MINE[f], thi=MAXE[f])):
                c.job(2, fn, mk, count=40000, topk=1, mode=4, **kw)

PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C17": c17, "C18": c18, "C19": c19}
