"""Plumbing between the recorded library calls and the Quint specification.

Nothing in this file knows what the functions mean: it builds the driver from
/repo's working tree, generates inputs, records calls, writes them as Quint trace modules
(spec/conformance.qnt judges them), and reads the verdicts back.
"""
import json, math, os, re, shutil, struct, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLV_REPO", "/repo")
BUILD = os.environ.get("PLV_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("PLV_JOBS", "8"))

# ---------------------------------------------------------------- catalogue
class Catalogue(dict):
    """id -> (name, kind); the entries compiled for quadruple precision are found but not iterated over"""
    def __missing__(self, fn): return QAPI[fn]
API, QAPI = Catalogue(), {}
for m in re.finditer(r"X\(\s*(\d+),\s*(\w+),\s*(\w+)\)", open(os.path.join(VERIF, "harness/api.h")).read()):
    API[int(m.group(1))] = (m.group(2), m.group(3))
ID = {v[0]: k for k, v in API.items()}
QUAD = 120   # + id of a long double function of the C++ or C interface: the same, compiled with long double = IEEE quadruple
for i, (nm, k) in API.items():
    if k in ("RL", "CL"): QAPI[QUAD + i] = (nm[:-1] + "q", k)
def kind(fn): return API[fn][1]
def fmt(fn):
    k = kind(fn)
    return "fdl".index({"F": "f", "D": "d", "L": "l"}[k[1]]) + 1 if k[0] in "RC" else 2
def dim(fn): return 2 if kind(fn)[0] == "C" or kind(fn) == "NC" else 1
def has_order(fn): return kind(fn)[0] == "N"
PREC = {1: 24, 2: 53, 3: 64}
MINE = {1: -149, 2: -1074, 3: -16445}
MAXE = {1: 128, 2: 1024, 3: 16384}

# ---------------------------------------------------------------- numbers
# a datum is (class, sign, m, e): class 0 zero, 1 finite m*2^e with 2^63 <= m < 2^64, 2 inf, 3 nan
ZERO, NZERO = (0, 0, 0, -20000), (0, 1, 0, -20000)
INF, NINF, NAN = (2, 0, 0, -20000), (2, 1, 0, -20000), (3, 0, 0, -20000)

def make(sign, m, e, f=3):
    """nearest datum of format f to (-1)^sign * m * 2^e (m >= 0 integer)"""
    if m == 0: return (0, sign, 0, -20000)
    b = m.bit_length()
    keep = PREC[f]
    # subnormals keep fewer bits
    low = max(e + b - keep, MINE[f])
    sh = low - e
    if sh > 0:
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1): q += 1
        m, e = q, low
        if m == 0: return (0, sign, 0, -20000)
        b = m.bit_length()
    if e + b > MAXE[f]: return (2, sign, 0, -20000)
    if b > 64: m >>= b - 64; e += b - 64
    return (1, sign, m << (64 - b), e - (64 - b)) if b <= 64 else (1, sign, m, e)

def num(x, f=3):
    """datum of a Python float, rounded to format f"""
    x = float(x)
    if x != x: return NAN
    if x in (math.inf, -math.inf): return INF if x > 0 else NINF
    s = 1 if math.copysign(1.0, x) < 0 else 0
    m, e = math.frexp(abs(x))
    return make(s, int(m * 2**53), e - 53, f)

def neg(v): return (v[0], 1 - v[1], v[2], v[3])
def flt(v):
    if v[0] == 0: r = 0.0
    elif v[0] == 2: r = math.inf
    elif v[0] == 3: return math.nan
    else:
        try: r = math.ldexp(v[2], v[3])
        except OverflowError: r = math.inf
    return -r if v[1] else r

def show(v):
    if v[0] == 0: return "-0" if v[1] else "0"
    if v[0] == 2: return "-inf" if v[1] else "inf"
    if v[0] == 3: return "nan"
    x = flt(v)
    h = "%s0x%xp%d" % ("-" if v[1] else "", v[2], v[3])
    return "%.17g(%s)" % (x, h) if 1e-300 < abs(x) < 1e300 else h

def parse(s):
    if s in ("0", "-0", "inf", "-inf", "nan"): return {"0": ZERO, "-0": NZERO, "inf": INF, "-inf": NINF, "nan": NAN}[s]
    m = re.search(r"(-?)0x([0-9a-f]+)p(-?\d+)", s)
    return (1, 1 if m.group(1) else 0, int(m.group(2), 16), int(m.group(3)))

def to_x87(v):
    if v[0] == 0: return struct.pack("<QH6x", 0, v[1] << 15)
    if v[0] == 2: return struct.pack("<QH6x", 1 << 63, v[1] << 15 | 0x7fff)
    if v[0] == 3: return struct.pack("<QH6x", 3 << 62, v[1] << 15 | 0x7fff)
    be = v[3] + 63 + 16383
    m = v[2]
    if be <= 0: m >>= 1 - be; be = 0
    return struct.pack("<QH6x", m, v[1] << 15 | be)

def from_x87(b, o=0):
    m, se = struct.unpack_from("<QH", b, o)
    s, e = se >> 15, se & 0x7fff
    if e == 0x7fff: return (2, s, 0, -20000) if m << 1 & (1 << 64) - 1 == 0 else (3, s, 0, -20000)
    if m == 0: return (0, s, 0, -20000)
    e = max(e, 1) - 16383 - 63
    sh = 64 - m.bit_length()
    return (1, s, m << sh, e - sh)

def pack(v): return v[2] | (v[3] + 20000) << 64 | v[1] << 80 | v[0] << 81

def nextafter(v, f, k=1):
    """k ulps away from zero (k < 0: towards)"""
    if v[0] != 1: return v
    b = PREC[f]
    u = max(v[3] + 64 - b, MINE[f])
    m = (v[2] >> (u - v[3]) if u >= v[3] else v[2] << (v[3] - u)) + k
    return make(v[1], m, u, f) if m > 0 else (0, v[1], 0, -20000)

# ---------------------------------------------------------------- driver
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def build(kind="driver", extra=()):
    d = os.path.join(BUILD, kind)
    os.makedirs(d, exist_ok=True)
    for cmd in (["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", "-DREPO_DIR=" + REPO, *extra], ["ninja", "-C", d]):
        p = sh(cmd)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
            print("ERROR: cannot build the driver from", REPO)
            sys.exit(3)
    return os.path.join(d, "driver")

_quad = None
def quad_driver():
    """the driver of the quadruple build, None where this toolchain cannot make one"""
    global _quad
    if _quad is None: _quad = [_quad_build()]
    return _quad[0]

def _quad_build():
    d = os.path.join(BUILD, "quad")
    os.makedirs(d, exist_ok=True)
    for cmd in (["cmake", "-S", os.path.join(VERIF, "harness/quad"), "-B", d, "-G", "Ninja", "-DREPO_DIR=" + REPO], ["ninja", "-C", d, "qdriver"]):
        if sh(cmd).returncode != 0:
            print("note: no quadruple precision build"); return None
    # every mathematical function of long double must be one of the shim's: libm's take the other format
    try:
        q = lambda *c: subprocess.run(c, stdout=subprocess.PIPE, check=True).stdout.decode()
        libm = {x[:-4] + "l" for x in re.findall(r" (\w+f128)\b", q("nm", "-D", "--defined-only", q("gcc", "-print-file-name=libm.so.6").strip()))}
        left = {x.split("@")[0] for x in re.findall(r" U (\S+)", q("nm", "-u", d + "/qdriver"))} & libm
    except (OSError, subprocess.CalledProcessError): left = {"?"}
    if left: print("note: no quadruple precision build: %s" % " ".join(sorted(left))); return None
    return d + "/qdriver"

def to_quad(v):
    """binary128 of a datum (64 bits: always exact)"""
    if v[0] == 0: x = 0
    elif v[0] == 2: x = 0x7fff << 112
    elif v[0] == 3: x = 0xffff << 111
    else:
        be = v[3] + 63 + 16383
        x = be << 112 | (v[2] << 49) & (1 << 112) - 1 if be > 0 else v[2] << 48 >> -be
    return (x | v[1] << 127).to_bytes(16, "little")

def from_quad(b):
    """binary128 as an exact sum of two data, both of the same sign"""
    x = int.from_bytes(b, "little")
    s, e, m = x >> 127, x >> 112 & 0x7fff, x & (1 << 112) - 1
    if e == 0x7fff: return (NAN if m else (2, s, 0, -20000)), ZERO
    if e: m |= 1 << 112
    e = max(e, 1) - 16383 - 112
    k = max(0, m.bit_length() - 64)
    def norm(m, e):
        t = 64 - m.bit_length()
        return (1, s, m << t, e - t) if m else (0, s, 0, -20000)
    return norm(m >> k, e + k), norm(m & (1 << k) - 1, e)

def record_quad(calls):
    """[(status, (re hi, re lo), (im hi, im lo))]; status 0: no answer"""
    none = [(0, (ZERO, ZERO), (ZERO, ZERO))] * len(calls)
    drv = quad_driver() if calls else None
    if not drv: return none
    with tempfile.TemporaryDirectory() as d:
        open(d + "/in", "wb").write(b"".join(struct.pack("<q", c.fn) + to_quad(c.a) + to_quad(c.b) for c in calls))
        try: p = sh([drv, d + "/in", d + "/out"], timeout=120)
        except subprocess.TimeoutExpired: p = None
        if p is None or p.returncode != 0:
            print("note: the quadruple precision driver did not finish"); return none
        o = open(d + "/out", "rb").read()
    return [(1, from_quad(o[32 * i:32 * i + 16]), from_quad(o[32 * i + 16:32 * i + 32])) for i in range(len(calls))]

class Call:
    __slots__ = ("fn", "n", "a", "b")
    def __init__(self, fn, n, a, b=ZERO): self.fn, self.n, self.a, self.b = fn, n, a, b

def record(driver, calls, timeout_ms=10000, env=None, jobs=None, limit_s=None):
    if limit_s is None: limit_s = 1500 if os.environ.get("VERIF_TIER") == "thorough" else 150
    jobs = jobs or JOBS
    if not calls: return []
    per = max(1, -(-len(calls) // jobs))
    chunks = [calls[i:i + per] for i in range(0, len(calls), per)]
    def one(ch):
        with tempfile.TemporaryDirectory() as d:
            with open(d + "/in", "wb") as f:
                for c in ch:
                    f.write(struct.pack("<IIq", c.fn, 0, c.n) + to_x87(c.a) + to_x87(c.b))
            p = sh([driver, "run", d + "/in", d + "/out", str(timeout_ms), str(limit_s * 1000)], env=env)
            if p.returncode != 0: raise RuntimeError("driver: " + p.stdout.decode(errors="replace")[-2000:])
            o = open(d + "/out", "rb").read()
            r = []
            for i in range(len(ch)):
                st, fl, ns = struct.unpack_from("<IIQ", o, 48 * i)
                r.append(((st & 7) | ((fl & 7) << 3 if st == 1 else 0), from_x87(o, 48 * i + 16), from_x87(o, 48 * i + 32), ns))
            return r
    with ThreadPoolExecutor(jobs) as ex:
        return [x for r in ex.map(one, chunks) for x in r]

# ---------------------------------------------------------------- events
VALUE, AGREE, CONJ, PARITY, SAME, CIRCLE, AXIS = range(7)
RELNAME = ["value", "agree", "conjugate", "parity", "same", "circle", "axis"]
AS_VALUE, AS_SIDE, AS_SPECIAL, AS_ENV, AS_RETURN = 1, 2, 4, 8, 16
CODE = {0: "ok", 1: "wrong value", 2: "not finite", 3: "NaN expected", 4: "infinity expected", 5: "zero argument not returned",
        6: "wrong side of the cut", 7: "imaginary part on the real axis not kept", 8: "outside the range of the function",
        9: "did not return normally", 10: "argument changed", 11: "floating-point environment changed", 12: "calls disagree",
        13: "one call finite, the other not"}

class Event:
    """one judged item: rel, fn (and fn2), orders n (n2), argument, and the recorded results"""
    __slots__ = ("rel", "fn", "fn2", "n", "n2", "mask", "a", "b", "res", "res2", "code", "ratio", "why")
    def __init__(self, rel, fn, n, a, b=ZERO, fn2=0, n2=None, mask=AS_VALUE, why=""):
        self.rel, self.fn, self.n, self.a, self.b, self.fn2, self.mask, self.why = rel, fn, n, a, b, fn2, mask, why
        self.n2 = n if n2 is None else n2
        self.res = self.res2 = None
        self.code = None; self.ratio = 0
    def calls(self):
        if self.rel == VALUE: return [Call(self.fn, self.n, self.a, self.b)]
        if self.rel == CONJ: return [Call(self.fn, self.n, self.a, self.b), Call(self.fn, self.n, self.a, neg(self.b))]
        if self.rel == PARITY: return [Call(self.fn, self.n, self.a), Call(self.fn, self.n, neg(self.a))]
        if self.rel == CIRCLE:
            x = flt(self.a)
            return [Call(self.fn, self.n, num(math.cos(x)), num(math.sin(x))), Call(ID["x_cln_d"], self.n, self.a), Call(ID["x_sln_d"], self.n, self.a)]
        if self.rel == SAME: return [Call(self.fn, self.n, self.a, self.b)] * 2
        return [Call(self.fn, self.n, self.a, self.b), Call(self.fn2, self.n2, self.a, self.b if dim(self.fn2) == 2 else ZERO)]
    def take(self, rs):
        self.res = rs[0]
        if self.rel == CIRCLE:
            st = rs[1][0] if rs[1][0] != 1 else rs[2][0]
            self.res2 = (st, rs[1][1], rs[2][1], 0)
        else: self.res2 = rs[1] if len(rs) > 1 else (1, ZERO, ZERO, 0)
    def key(self): return (self.rel, self.fn, self.fn2, self.n, self.mask)
    def bits(self):
        r, s = self.res, self.res2
        return (pack(self.a) | pack(self.b) << 83 | pack(r[1]) << 166 | pack(r[2]) << 249 |
                pack(s[1]) << 332 | pack(s[2]) << 415 | r[0] << 498 | s[0] << 506)
    def text(self):
        t = "%s %s" % (RELNAME[self.rel], API[self.fn][0])
        if self.fn2: t += "/" + API[self.fn2][0]
        if has_order(self.fn) or self.n2 != self.n: t += " n=%d" % self.n
        t += " arg=" + show(self.a) + ("," + show(self.b) if dim(self.fn) == 2 and self.rel != CIRCLE else "")
        if self.res:
            t += " result=" + show(self.res[1]) + ("," + show(self.res[2]) if dim(self.fn) == 2 else "")
            if self.res[0] != 1: t += " status=%d" % self.res[0]
            if self.rel != VALUE: t += " other=" + show(self.res2[1]) + "," + show(self.res2[2])
        return t
    def json(self):
        return {"rel": self.rel, "fn": self.fn, "fn2": self.fn2, "n": self.n, "n2": self.n2, "mask": self.mask,
                "a": show(self.a), "b": show(self.b), "code": self.code, "why": CODE.get(self.code), "text": self.text()}

def from_json(j):
    return Event(j["rel"], j["fn"], j["n"], parse(j["a"]), parse(j["b"]), j["fn2"], j["n2"], j["mask"])

def execute(driver, events, timeout_ms=10000):
    quad = [e for e in events if e.fn > QUAD]
    for e, (st, x, y) in zip(quad, record_quad([e.calls()[0] for e in quad])):
        e.res, e.res2 = (st, x[0], y[0], 0), (1, x[1], y[1], 0)     # the second pair: the lower bits
    calls, idx = [], []
    events = [e for e in events if e.fn < QUAD]
    for e in events:
        c = e.calls(); idx.append((len(calls), len(c))); calls += c
    rs = record(driver, calls, timeout_ms)
    for e, (i, k) in zip(events, idx): e.take(rs[i:i + k])
    return len(calls) + len(quad)

# ---------------------------------------------------------------- the specification as judge
SEG = 24          # events per segment
LIT = 60          # segments per list literal
def quint_env():
    e = dict(os.environ)
    return e

def spec_dir():
    d = tempfile.mkdtemp(prefix="plv-spec-")
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".qnt"): shutil.copy(os.path.join(VERIF, "spec", f), d)
    return d

def trace_module(events):
    """segments of equal header; returns (source, [[event,...] per segment])"""
    groups = {}
    for e in events: groups.setdefault(e.key(), []).append(e)
    segs = []
    for k, es in groups.items():
        for i in range(0, len(es), SEG): segs.append(es[i:i + SEG])
    lits = []
    for s in segs:
        e = s[0]
        v = len(s) | e.mask << 16 | (e.n + 2**63) << 24 | e.fn2 << 88 | e.fn << 96 | e.rel << 104
        for i, x in enumerate(s): v |= x.bits() << (112 + 514 * i)
        lits.append("0x%x" % v)
    src = ["module trace {"]
    names = []
    for i in range(0, len(lits), LIT):
        names.append("D%d" % (i // LIT))
        src.append("  pure val %s: List[int] = [%s]" % (names[-1], ",\n".join(lits[i:i + LIT])))
    src.append("  pure val ALL: List[int] = " + ".concat(".join(names) + ")" * (len(names) - 1))
    src.append('  import conformance(SEGMENTS = ALL).* from "./conformance"\n}')
    return "\n".join(src), segs

def unbig(x):
    if isinstance(x, dict): return int(x["#bigint"])
    return int(x)

class SpecError(Exception): pass

def judge(events, workdir=None, timeout=800):
    """let the specification judge the recorded events; fills in code and ratio.  Returns the worst accepted (ratio, event)"""
    if not events: return (0, None), 0
    d = workdir or spec_dir()
    try:
        src, segs = trace_module(events)
        tag = hashlib.sha1(src.encode()).hexdigest()[:12]
        mod, out = os.path.join(d, "trace_%s.qnt" % tag), os.path.join(d, "out_%s.json" % tag)
        open(mod, "w").write(src)
        p = sh(["quint", "run", "--main=trace", "--max-samples=1", "--max-steps=%d" % len(segs), "--out-itf=" + out, "--verbosity=1", mod], cwd=d, timeout=timeout)
        if not os.path.exists(out): raise SpecError(p.stdout.decode(errors="replace")[-3000:])
        st = json.load(open(out))["states"][-1]
        os.unlink(mod); os.unlink(out)
    finally:
        if workdir is None: shutil.rmtree(d, ignore_errors=True)
    g = lambda n: next(v for k, v in st.items() if k.split("::")[-1] == n)
    if unbig(g("pos")) != len(segs): raise SpecError("trace not consumed: %s of %d segments" % (g("pos"), len(segs)))
    for s in segs:
        for e in s: e.code = 0
    rej = [tuple(unbig(x) for x in t["#tup"]) for t in g("rejected")]
    for seg, i, code, ratio in rej:
        segs[seg][i].code = code; segs[seg][i].ratio = ratio
    if unbig(g("accepted")) + len(rej) != len(events): raise SpecError("event count mismatch")
    w = [unbig(x) for x in g("worst")["#tup"]]
    return ((w[0], segs[w[1]][w[2]]) if w[0] else (0, None)), len(segs)

def judge_all(events, batch=1500, jobs=None, deadline=None):
    """parallel; returns (judged events, worst, states).  Stops handing out batches at the deadline"""
    jobs = jobs or JOBS
    d = spec_dir()
    bs = [events[i:i + batch] for i in range(0, len(events), batch)]
    done, worst, states = [], (0, None), 0
    def one(b):
        if deadline and time.time() > deadline: return b, None
        return b, judge(b, d)
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for b, r in ex.map(one, bs):
                if r is None: continue
                done += b; states += r[1] + 1
                if r[0][0] > worst[0]: worst = r[0]
    finally: shutil.rmtree(d, ignore_errors=True)
    return done, worst, states

# ---------------------------------------------------------------- input selection by the driver
class Job:
    """one scan: see harness/scan.inc"""
    def __init__(self, rel, fn, n=0, fn2=0, mode=0, lo=0., hi=0., tlo=0., thi=0., cx=0., cy=0., count=100000, topk=8, seed=1, make=None):
        self.__dict__.update(rel=rel, fn=fn, n=n, fn2=fn2, mode=mode, lo=lo, hi=hi, tlo=tlo, thi=thi, cx=cx, cy=cy, count=count, topk=topk, seed=seed)
        self.make = make      # (job, a, b) -> [Event]
DUP, SERIES = 4, 6

def scan(driver, jobs, timeout=300):
    """run the jobs; returns events for the selected arguments and the number of evaluations"""
    if not jobs: return [], 0
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/in", "wb") as f:
            for j in jobs:
                f.write(struct.pack("<IIIIqQQIIdddddd", j.rel, j.fn, j.fn2, j.mode, j.n, j.seed & (2**64 - 1), j.count, j.topk, 0,
                                    j.lo, j.hi, j.cx, j.cy, j.tlo, j.thi))
        try: p = sh([driver, "scan", d + "/in", d + "/out", str(JOBS), str(timeout)], timeout=timeout + 60)
        except subprocess.TimeoutExpired: return None, 0
        if p.returncode != 0: return None, p.returncode
        o = open(d + "/out", "rb").read()
    evs = []
    for i in range(0, len(o), 64):
        ns, ji, n, metric = struct.unpack_from("<IIqd", o, i)
        j = jobs[ji]
        for e in j.make(j, from_x87(o, i + 24), from_x87(o, i + 40), ns):
            e.why = "scan %.3g" % metric
            evs.append(e)
    return evs, int(p.stdout.split()[-2] if p.stdout.split()[-1] == b"stopped" else p.stdout.split()[-1])
