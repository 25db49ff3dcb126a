"""C16: sessions.  Records histories of the real library (sequential, concurrent, in several
processes, planned by behaviours of spec/session_model.qnt) and lets spec/session_trace.qnt judge every event."""
import itertools, math, json, os, random, struct, subprocess, sys, tempfile, time, shutil, hashlib, re
from concurrent.futures import ThreadPoolExecutor
import plv, gen, tlamodels
from plv import *
from gen import Gen

CALL, RETURN, FRESH, SETENV, NEWPROC, ATOMIC, OBSERVED, RACE = range(8)
KINDNAME = ["call", "return", "call in a fresh process", "set rounding mode", "new process", "call", "observed call", "data race"]
WHY = {9: "did not return normally", 10: "memory of the caller changed", 11: "floating-point environment changed",
       12: "result depends on the history", 14: "protocol", 15: "data race"}

class Op:
    __slots__ = ("fn", "n", "a", "b")
    def __init__(self, fn, n, a, b=ZERO): self.fn, self.n, self.a, self.b = fn, n, a, b
    def key(self): return (self.fn, self.n, self.a, self.b)
    def text(self):
        return API[self.fn][0] + ("(n=%d) " % self.n if has_order(self.fn) else " ") + show(self.a) + ("," + show(self.b) if dim(self.fn) == 2 else "")
    def json(self): return [self.fn, self.n, show(self.a), show(self.b)]
def op_json(j): return Op(j[0], j[1], parse(j[2]), parse(j[3]))

# ---------------------------------------------------------------- driver
def reqs(ops, envs=None):
    return b"".join(struct.pack("<IIq", o.fn, envs[i] if envs else 0, o.n) + to_x87(o.a) + to_x87(o.b) for i, o in enumerate(ops))

def log_of(path, remap=None):
    """[(kind, thread, op, env, flags, result bits)]"""
    o = open(path, "rb").read()
    out = []
    for i in range(0, len(o) - len(o) % 56, 56):
        k, t, op, env, fl, _ = struct.unpack_from("<IIIIII", o, i)
        a, b = from_x87(o, i + 24), from_x87(o, i + 40)
        a, b = [(3, 0, 0, -20000) if v[0] == 3 else v for v in (a, b)]
        res = pack(a) | pack(b) << 83 if k in (RETURN, FRESH, ATOMIC, OBSERVED) else 0
        out.append((k, t, op, env, min(fl, 255), res))
    return out

class RunError(Exception): pass

def drive(driver, mode, ops, extra=(), steps=None, envs=None, timeout=200, env=None):
    """one driver run; returns (log, stderr)"""
    with tempfile.TemporaryDirectory(prefix="plv-s-") as d:
        open(d + "/ops", "wb").write(reqs(ops, envs))
        cmd = [driver, mode, d + "/ops"]
        if steps is not None:
            open(d + "/plan", "wb").write(b"".join(struct.pack("<IIII", *s) for s in steps))
            cmd.append(d + "/plan")
        cmd += [d + "/out"] + [str(x) for x in extra]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        except subprocess.TimeoutExpired: return [(OBSERVED, 0, 0, 0, 24, 0)], "timeout"
        err = p.stderr.decode(errors="replace")
        if p.returncode < 0 or not os.path.exists(d + "/out"):
            if p.returncode >= 0: raise RunError("driver %s: rc=%d %s" % (mode, p.returncode, err[-500:]))
            return [(OBSERVED, 0, 0, 0, 16, 0)], err         # the process did not survive
        return log_of(d + "/out"), err

def baseline(driver, ops, jobs=JOBS, envs=None):
    per = max(1, -(-len(ops) // jobs))
    def one(i):
        log, _ = drive(driver, "fresh", ops[i:i + per], envs=envs[i:i + per] if envs else None)
        return [(k, t, o + i, e, f, r) for k, t, o, e, f, r in log]
    with ThreadPoolExecutor(jobs) as ex:
        return [x for l in ex.map(one, range(0, len(ops), per)) for x in l]

# ---------------------------------------------------------------- the specification as judge
SEGN = 40
COUNT = itertools.count()
def trace_source(log):
    lits = []
    for i in range(0, len(log), SEGN):
        s = log[i:i + SEGN]
        v = len(s)
        for j, (k, t, op, env, fl, res) in enumerate(s):
            v |= (k | t << 3 | env << 11 | op << 14 | fl << 38 | res << 46) << (16 + 212 * j)
        lits.append("0x%x" % v)
    src, names = ["module trace {"], []
    for i in range(0, len(lits), 60):
        names.append("D%d" % (i // 60))
        src.append("  pure val %s: List[int] = [%s]" % (names[-1], ",\n".join(lits[i:i + 60])))
    src.append("  pure val ALL: List[int] = " + ".concat(".join(names) + ")" * (len(names) - 1))
    src.append('  import session_trace(SEGMENTS = ALL).* from "./session_trace"\n}')
    return "\n".join(src), len(lits)

def judge_log(log, d):
    """-> (states, [(index, code)])"""
    if not log: return 0, []
    src, nseg = trace_source(log)
    tag = "%s_%d" % (hashlib.sha1(src.encode()).hexdigest()[:12], next(COUNT))
    mod, out = os.path.join(d, "t%s.qnt" % tag), os.path.join(d, "o%s.json" % tag)
    open(mod, "w").write(src)
    p = sh(["quint", "run", "--main=trace", "--max-samples=1", "--max-steps=%d" % nseg, "--out-itf=" + out, "--verbosity=1", mod], cwd=d, timeout=800)
    if not os.path.exists(out): raise SpecError(p.stdout.decode(errors="replace")[-3000:])
    st = json.load(open(out))["states"][-1]
    g = lambda n: next(v for k, v in st.items() if k.split("::")[-1] == n)
    if unbig(g("pos")) != nseg: raise SpecError("trace not consumed")
    rej = [tuple(unbig(x) for x in t["#tup"]) for t in g("rejected")]
    if unbig(g("accepted")) + len(rej) != len(log): raise SpecError("event count mismatch")
    os.unlink(mod); os.unlink(out)
    return nseg + 1, [(s * SEGN + i, c) for s, i, c in rej]

# ---------------------------------------------------------------- operations: clusters of related arguments
ORDERFN = ("x_lin_d", "x_cln_d", "x_sln_d")
def cluster(g, fn, size):
    """operations a wrong memory of earlier calls could confuse: neighbours, mirror images, equal parts"""
    k, f = kind(fn), fmt(fn)
    r = g.r
    name = API[fn][0]
    if k == "NI":
        n = r.choice([r.randint(-30, 30), r.randint(0, 200), g.bigorder() * r.choice([1, 1, -1])])
        ns = [n, n + 1, n - 1, -n, n + 2, n + 2**32 if n < 2**62 else n - 2**32, n + 256 if n < 2**62 else n - 256, 2, 0, 1, n + 64 if n < 2**62 else n - 64, r.randint(-200, 200)]
        return [Op(fn, clip(x), ZERO) for x in ns][:max(size, 8)]
    n = 0
    if k[0] == "N":
        n = {"x_lin_d": r.choice([r.randint(-12, 20), r.randint(2, 60), g.bigorder()]), "x_cln_d": r.choice([r.randint(1, 16), r.randint(1, 16), g.bigorder()]),
             "x_sln_d": r.choice([r.randint(1, 32), r.randint(1, 32), g.bigorder()])}[name]
    if dim(fn) == 2:
        a, b = g.cplx(f) if r.random() < 0.75 else g.extreme(f)
        c, d = g.cplx(f)
        pts = [(a, b), (a, neg(b)), (neg(a), b), (a, nextafter(b, f)), (nextafter(a, f), b), (b, a), (a, d), (c, b), (a, ZERO), (a, NZERO), (c, d),
               (ZERO, b), (NAN, b), (a, INF), (INF, b), (half(a), half(b))]
    else:
        a = g.angle(f) if "cl" in name or "sl" in name else g.real(f)
        c = g.angle(f) if "cl" in name or "sl" in name else g.real(f)
        pts = [(x, ZERO) for x in (a, neg(a), nextafter(a, f), nextafter(a, f, -1), c, half(a), NAN, INF, ZERO, NZERO, nextafter(c, f, 2), nextafter(a, f, 64))]
    r.shuffle(pts[2:])
    first = pts[:2]
    rest = pts[2:]
    r.shuffle(rest)
    pts = (first + rest)[:size]
    out = [Op(fn, n, x, y) for x, y in pts]
    if k[0] == "N":
        for m in (n + 1, n - 1, n + 2, -n, n + 2**32 if n < 2**62 else n - 2**32, n + 256 if n < 2**62 else n - 256, n + 64, r.randint(-8, 40)):
            if r.random() < 0.5: out.append(Op(fn, clip(m), *pts[0]))
    if "_d" in name and r.random() < 0.4:
        # the same argument asked of another function
        other = [x for x in API if kind(x) == k and x != fn]
        if other: out.append(Op(r.choice(other), n, *pts[0]))
    return out

def clip(n): return max(-2**63, min(2**63 - 1, n))
def half(v): return (1, v[1], v[2], v[3] - 1) if v[0] == 1 and v[3] > -900 else v

def uniq(ops):
    seen, out = set(), []
    for o in ops:
        if o.key() not in seen: seen.add(o.key()); out.append(o)
    return out

def tour(k):
    """a closed walk over 0..k-1 visiting every ordered pair (also equal ones) once"""
    adj = {i: list(range(k)) for i in range(k)}
    st, path = [0], []
    while st:
        v = st[-1]
        if adj[v]: st.append(adj[v].pop())
        else: path.append(st.pop())
    return path[::-1]

# ---------------------------------------------------------------- behaviours of the model
def model_plans(nsamples, steps, seed, main="model0"):
    """behaviours of spec/session_model.qnt, as lists of its events"""
    d = spec_dir()
    try:
        p = sh(["quint", "run", "--main=" + main, "--mbt", "--seed=%d" % seed, "--max-samples=%d" % nsamples, "--n-traces=%d" % nsamples, "--max-steps=%d" % steps,
                "--invariant=refines", "--out-itf=" + d + "/t_{seq}.itf.json", "--verbosity=1", d + "/session_model.qnt"], cwd=d, timeout=300)
        out, states = [], 0
        for f in sorted(os.listdir(d)):
            if not f.endswith(".itf.json"): continue
            st = json.load(open(os.path.join(d, f)))["states"]
            states += len(st)
            evs = []
            for s in st[1:]:
                e = next(v for k, v in s.items() if k.split("::")[-1] == "ev")
                evs.append(tuple(unbig(e[x]) for x in ("kind", "thread", "op", "env")))
            out.append([e for e in evs if e[0] in (CALL, RETURN, SETENV)])
        if not out: raise SpecError(p.stdout.decode(errors="replace")[-2000:])
        return out, states
    finally: shutil.rmtree(d, ignore_errors=True)

# which implementation models must be refuted, and which must not
MODELS = [("model0", True), ("model5", True), ("model1", False), ("model2", False), ("model3", False), ("model4", False), ("model6", False),
          ("model7", False), ("model8", False), ("model9", False), ("model11", False), ("model12", False), ("model13", False), ("small10", True), ("small13", True)]
def check_models(samples):
    """the specification against its own implementation models: (states explored, failures)"""
    d = spec_dir()
    def one(m):
        p = sh(["quint", "run", "--main=" + m[0], "--max-samples=%d" % samples, "--max-steps=40", "--seed=%d" % 7, "--invariant=refines and consistent",
                "--verbosity=1", d + "/session_model.qnt"], cwd=d, timeout=400)
        return m, p.returncode == 0
    try:
        with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, MODELS))
    finally: shutil.rmtree(d, ignore_errors=True)
    return [m for (m, want), got in [(x[0], x[1]) for x in res] if want != got]

# ---------------------------------------------------------------- scenarios
class Scenario:
    """operations plus how to run them; `log` is judged by the specification from the empty state"""
    def __init__(self, name, ops, steps=None, soak=None, envs=(0,), early=False):
        self.name, self.ops, self.steps, self.soak, self.envs, self.early = name, ops, steps, soak, envs, early
        self.log = None; self.bad = []; self.states = 0
    def record(self, driver, base=True):
        log = []
        if base:
            for m in self.envs:
                b = baseline(driver, self.ops, 1, [m] * len(self.ops))
                log += b
        if self.steps is not None: log += drive(driver, "plan", self.ops, steps=self.steps)[0]
        if self.soak is not None: log += drive(driver, "soak", self.ops, extra=self.soak)[0]
        if self.early: log += drive(driver, "early", self.ops)[0]
        self.log = log
    def json(self): return {"name": self.name, "ops": [o.json() for o in self.ops], "steps": self.steps, "soak": self.soak, "envs": list(self.envs), "early": self.early}

def sc_json(j): return Scenario(j["name"], [op_json(x) for x in j["ops"]], [tuple(s) for s in j["steps"]] if j["steps"] is not None else None, j["soak"], tuple(j["envs"]), j.get("early", False))

def modes_ok(o):
    """which operations are also judged in directed rounding modes: where Li_n overflows, n < -150, these modes replace
    infinity by the largest number, and the loops that stop at infinity need not stop"""
    return API[o.fn][0] != "x_lin_d" or o.n >= -150

def annulus(g, n):
    """an argument for which the order matters in every digit: next to the unit circle, or a general angle"""
    t, r = g.r.uniform(-math.pi, math.pi), g.r.choice([g.r.uniform(0.76, 1.39), g.r.uniform(0.76, 1.39), g.r.uniform(0.2, 0.7), g.r.uniform(1.5, 6)])
    return num(r * math.cos(t), 2), num(r * math.sin(t), 2)

def sweeps(g, big):
    """one argument with many orders (and one order with many arguments) in one process: memory keyed by a part or a hash of either"""
    r, out = g.r, []
    for fn in [x for x in API if has_order(x) or kind(x) == "NI"]:
        name = API[fn][0]
        for _ in range((2 if kind(fn) == "NI" else 5) * (4 if big else 1)):
            lo, hi = {"x_lin_d": r.choice([(7, 80), (7, 400), (-40, 20)]), "x_cln_d": r.choice([(7, 80), (1, 400)]), "x_sln_d": r.choice([(24, 90), (1, 400)])}.get(name, (-150, 180))
            ns = [r.randint(lo, hi) for _ in range(24)]
            for n in ns[:6]: ns += [n + d for d in r.sample([16, 32, 64, 100, 128, 256, 10, 50, 31, 37, 61, 97, 127, 1000, 1024], 5)]
            z = annulus(g, 0) if dim(fn) == 2 else (num(r.uniform(-7, 7), 2), ZERO)
            out.append(("orders", uniq([Op(fn, n, *(z if kind(fn) != "NI" else (ZERO, ZERO))) for n in ns])))
    for fn in [x for x in API if kind(x) != "NI"]:
        f = fmt(fn)
        n = 0
        if has_order(fn): n = r.randint(7, 60)
        pts = []
        for _ in range(14):
            if dim(fn) == 2: a, b = g.cplx(f)
            else: a, b = (g.angle(f) if "cl" in API[fn][0] or "sl" in API[fn][0] else g.real(f)), ZERO
            pts += [(a, b), (neg(a), b)] + ([(b, a)] if dim(fn) == 2 else [])
        out.append(("arguments", uniq([Op(fn, n, *p) for p in pts])))
    return out

def scenarios(tier, seed):
    g = Gen(seed * 1000003 + 16)
    r = g.r
    big = tier == "thorough"
    fns = [x for x in API]
    specialised = [x for x in fns if not has_order(x) and kind(x) != "NI"]
    ordered = [x for x in fns if x not in specialised]
    out = []
    # (1) every ordered pair of related operations, one process per cluster
    clusters = []
    for fn in fns:
        w = 6 if API[fn][0] in ORDERFN else 2
        for _ in range(w * (6 if big else 1)):
            clusters.append(uniq(cluster(g, fn, 6)))
    r.shuffle(clusters)
    for i in range(0, len(clusters), 12):
        ops, steps = [], []
        for c in clusters[i:i + 12]:
            o = len(ops); ops += c
            steps.append((NEWPROC, 0, o, 0))
            steps += [(ATOMIC, 0, o + k, 0) for k in tour(len(c))]
        out.append(Scenario("pairs", ops, steps))
    # (2) random histories across functions, several processes each: what the first calls leave behind
    for _ in range(24 if big else 6):
        ops = uniq([o for c in r.sample(clusters, min(16, len(clusters))) for o in r.sample(c, min(4, len(c)))])
        steps = []
        for _ in range(12):
            steps.append((NEWPROC, 0, 0, 0))
            steps += [(ATOMIC, r.randrange(3), r.randrange(len(ops)), 0) for _ in range(60)]
        out.append(Scenario("histories", ops, steps))
    # (2b) sweeps
    sw = sweeps(g, big)
    for i in range(0, len(sw), 4):
        ops, steps = [], []
        for _, c in sw[i:i + 4]:
            o = len(ops); ops += c
            for _ in range(2):                                   # two processes: who comes first differs
                steps.append((NEWPROC, 0, o, 0))
                walk = list(range(len(c))); r.shuffle(walk)
                steps += [(ATOMIC, 0, o + k, 0) for k in walk + walk[:len(walk) // 3]]
        out.append(Scenario("sweeps", ops, steps))
    # (3) rounding modes of the caller
    for _ in range(16 if big else 4):
        ops = []
        for fn in r.sample(specialised, min(14, len(specialised))): ops += cluster(g, fn, 3)[:3]
        for fn in ordered: ops += cluster(g, fn, 4)
        ops = uniq([o for o in ops if modes_ok(o)])
        steps = []
        for p in range(4):
            steps.append((NEWPROC, 0, 0, 0))
            m = [0] * 3
            for _ in range(90):
                t = r.randrange(3)
                if r.random() < 0.25: m[t] = r.randrange(4); steps.append((SETENV, t, 0, m[t]))
                else: steps.append((ATOMIC, t, r.randrange(len(ops)), m[t]))
        out.append(Scenario("rounding modes", ops, steps, envs=(0, 1, 2, 3)))
    # (3b) a process whose first calls of a function are made in another mode: what is computed once must not keep that mode
    for part in [fns[i::6] for i in range(6)]:
        ops, steps = [], []
        for fn in part:
            for rep in range((10 if fn in ordered else 2) * (1 if not big else 6)):
                c = cluster(g, fn, 5) + cluster(g, fn, 2)[:1]
                if API[fn][0] == "x_lin_d" and rep % 2:          # each of its methods, where rounding errors of what they share show
                    n, z = r.choice([r.randint(-60, -2), r.randint(7, 60)]), annulus(g, 0)
                    t, m = r.uniform(-3.1, 3.1), math.exp(r.uniform(-7, 0)) * 0.5
                    c = [Op(fn, n, num(m * math.cos(t), 2), num(m * math.sin(t), 2)), Op(fn, n, *z), Op(fn, n - r.randint(1, 9), num(m / 3, 2), num(m / 5, 2)), Op(fn, n - 1, num(m, 2), ZERO)] + c[:4]
                c = [o for o in uniq(c) if modes_ok(o)][:9]
                if not c: continue
                o, m = len(ops), r.choice([1, 2, 3]); ops += c
                steps += [(NEWPROC, 0, o, 0), (SETENV, 0, 0, m)] + [(ATOMIC, 0, o + k, m) for k in range(len(c))]
                steps += [(SETENV, 0, 0, 0)] + [(ATOMIC, 0, o + k, 0) for k in range(len(c))]
        # a process of its own for the same operations in both modes is the reference, so that every operation is there once
        seen, ref = {}, []
        for k, x in enumerate(ops):
            seen.setdefault(x.key(), k); ref.append(seen[x.key()])
        steps = [(kd, t, ref[o] if kd in (ATOMIC, NEWPROC) else o, e) for kd, t, o, e in steps]
        out.append(Scenario("first calls in another mode", ops, steps, envs=(0, 1, 2, 3)))
    # (4) behaviours of the specification's model, on real threads
    plans, mstates = model_plans(400 if big else 60, 60, seed)
    k = 10
    for i in range(0, len(plans), k):
        ops, steps = [], []
        for p in plans[i:i + k]:
            modes = any(e[0] == SETENV and e[3] for e in p)
            while True:
                c = uniq(cluster(g, r.choice(fns), 4))
                if modes: c = [o for o in c if modes_ok(o)]
                if len(c) >= 4: break
            o = len(ops); ops += c[:4]
            steps.append((NEWPROC, 0, o, 0))
            cur, busy = {}, {}
            for kd, t, op, env in p:
                if kd == SETENV: cur[t] = env
                if kd == CALL: busy[t] = op
                if kd == RETURN: busy.pop(t)
                steps.append((kd, t, o + op if kd != SETENV else 0, cur.get(t, 0)))
            for t, op in busy.items(): steps.append((RETURN, t, o + op, cur.get(t, 0)))
        out.append(Scenario("model", ops, steps, envs=(0, 1)))
    # (5) long concurrent histories
    allops = uniq([o for c in clusters for o in c])
    secs = 3 if not big else 8
    for i, nt in enumerate((1, 8, 3, 8) if not big else (1, 8, 8, 2, 8, 4, 8, 8)):
        part = allops if i % 2 == 0 else [o for c in r.sample(clusters, min(12, len(clusters))) for o in c]
        out.append(Scenario("soak", uniq(part), soak=(nt, (300000 if not big else 1500000) // max(1, nt // 2), seed * 7 + i)))
    # more distinct arguments of one function than a memory of bounded size holds
    for fn in ordered + r.sample(specialised, 6 if not big else len(specialised)):
        c = []
        while len(c) < (350 if fn in ordered else 250) * (3 if big else 1): c = uniq(c + cluster(g, fn, 4))
        out.append(Scenario("many arguments", c, soak=(1, 12 * len(c), seed + fn)))
    # more threads at once than processors, and more threads one after the other than a table of them would hold
    for i in range(2 if not big else 12):
        out.append(Scenario("many threads", uniq([o for fn in fns for o in r.sample(clusters, 1)[0][:1] + cluster(g, fn, 2)[:1]] + [o for fn in ordered for o in cluster(g, fn, 6)]),
                            soak=(64, 3000 if not big else 20000, seed + i)))
        out.append(Scenario("short threads", uniq([o for fn in fns for o in cluster(g, fn, 2)[:2]]), soak=(6, 40, seed + i, 150 if not big else 2500)))
    for fn in ordered + r.sample(specialised, 4 if not big else len(specialised)):
        c = uniq(cluster(g, fn, 6) + [Op(fn, n, *(annulus(g, n) if dim(fn) == 2 else (num(r.uniform(-9, 9), 2), ZERO) if kind(fn) != "NI" else (ZERO, ZERO)))
                                      for n in ([r.randint(7, 60) for _ in range(5)] if fn in ordered else [])])
        out.append(Scenario("many threads", c, soak=(72, 12000 if not big else 60000, seed + fn)))
    # calls made before the program has started: by initialisers of static variables
    for i in range(3 if not big else 12):
        c = [o for fn in fns for o in cluster(g, fn, 4)[:3]]
        if i == 0:
            for fn in ordered:
                if kind(fn) == "NI": c += [Op(fn, n, ZERO) for n in range(-40, 180)]
                else: c += [Op(fn, n, *(annulus(g, n) if dim(fn) == 2 else (num(r.uniform(-9, 9), 2), ZERO))) for n in range(-20 if dim(fn) == 2 else 1, 40)]
        r.shuffle(c)
        out.append(Scenario("before main", uniq(c), early=True))
    # the same operation hammered by all threads, and two related ones; more calls of every function than 16 bits count
    for fn in r.sample(fns, len(fns)):
        c = uniq(cluster(g, fn, 4))
        out.append(Scenario("hammer", c, soak=(6, 14000 if not big else 60000, seed + fn)))
    return out, len(plans), mstates

def race(driver, ops, seed):
    """under ThreadSanitizer: a RACE event when the recorder reports conflicting accesses; None if it cannot run here"""
    env = dict(os.environ, TSAN_OPTIONS="exitcode=0 halt_on_error=0 report_thread_leaks=0 report_signal_unsafe=0")
    m = []
    for nt, calls in ((4, 4000), (72, 400)):
        log, err = drive(driver, "soak", ops, extra=(nt, calls, seed), env=env, timeout=200)
        if "FATAL: ThreadSanitizer" in err or err == "timeout": return None, err[-300:]
        m += re.findall(r"WARNING: ThreadSanitizer: data race.*?(?=\n=====|\Z)", err, re.S)
    return [(RACE, 0, 0, 0, 0, 0)] * len(m), "\n".join(m)[:3000]

def describe(sc, i):
    k, t, op, env, fl, res = sc.log[i]
    o = sc.ops[op] if op < len(sc.ops) else None
    return "%s: %s thread %d%s" % (KINDNAME[k], o.text() if o else "?", t, " rounding mode %d" % env if env else "")

def tsan_build():
    fl = "-O1 -g -fsanitize=thread"
    return build("tsan", ["-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_FLAGS=" + fl, "-DCMAKE_CXX_FLAGS=" + fl, "-DCMAKE_Fortran_FLAGS=" + fl,
                          "-DCMAKE_EXE_LINKER_FLAGS=-fsanitize=thread"])

def main(tier, seed):
    t0 = time.time()
    driver = build()
    tsan = tsan_build()
    scs, nplans, mstates = scenarios(tier, seed)
    t1 = time.time()
    conc = [s for s in scs if s.name in ("model", "soak")]
    light = [s for s in scs if s not in conc]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda s: s.record(driver), light))
    with ThreadPoolExecutor(2) as ex: list(ex.map(lambda s: s.record(driver), conc))
    rnd = random.Random(seed)
    races, rnote = race(tsan, rnd.sample(scs[-1].ops, 0) + [o for s in scs if s.name == "hammer" for o in s.ops], seed)
    rsc = Scenario("race detection", [o for s in scs if s.name == "hammer" for o in s.ops], soak=(4, 4000, seed))
    rsc.log = races or []
    scs.append(rsc)
    t2 = time.time()
    wrong_models = check_models(100 if tier == "quick" else 5000)
    # every history of the models, not only those sampled
    names = tlamodels.HOLD + tlamodels.FAIL + (tlamodels.BIG if tier == "thorough" else [])
    exhausted = tlamodels.decide(names) if tlamodels.current() else {}
    for n, (ok, _) in exhausted.items():
        if ok is not None and ok != (n not in tlamodels.FAIL): wrong_models.append(n)
        if ok is None: print("note: TLC gave no answer on", n)
    if not exhausted: print("note: spec/tla is not the translation of spec/session_model.qnt (tools/tlamodels.py generate)")
    t3 = time.time()
    d = spec_dir()
    # small logs share a trace: their operations are numbered consecutively
    groups, size = [[]], 0
    for s in scs:
        if groups[-1] and (size + len(s.log) > 2500): groups.append([]); size = 0
        groups[-1].append(s); size += len(s.log)
    def one(ss):
        log, where, base = [], [], 0
        for s in ss:
            where += [(s, k) for k in range(len(s.log) + 1)]
            log += [(NEWPROC, 0, 0, 0, 0, 0)] + [(k, t, op + base, env, fl, res) for k, t, op, env, fl, res in s.log]
            base += len(s.ops)
        states, bad = judge_log(log, d)
        ss[0].states = states
        for i, c in bad: where[i][0].bad.append((where[i][1] - 1, c))
    try:
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, groups))
    finally: shutil.rmtree(d, ignore_errors=True)
    t4 = time.time()
    bad = [s for s in scs if s.bad]
    viol = 0
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for i, s in enumerate(bad[:5]):
        path = os.path.join(VERIF, "replay", "C16-%d.json" % i)
        json.dump({"property": "C16", **s.json(), "rejected": [[k, c, describe(s, k)] for k, c in s.bad[:20]], "log": s.log[:20000] if s.name != "soak" else [],
                   "note": rnote if s is rsc else ""}, open(path, "w"))
        k, c = s.bad[0]
        print("  %s (%s): %s (%d such events)" % (WHY.get(c, c), s.name, describe(s, k), len(s.bad)))
        if s is rsc: print("  " + rnote[:600].replace("\n", "\n  "))
        print("VIOLATION property=C16 replay=%s" % path)
    viol = len(bad)
    if wrong_models: print("ERROR: the specification does not decide its own models as expected:", wrong_models)
    nev = sum(len(s.log) for s in scs)
    ncalls = sum(len(s.soak and [0] * 0 or s.log) for s in scs)
    soaked = sum(s.soak[0] * s.soak[1] * (s.soak[3] if len(s.soak) > 3 else 1) for s in scs if s.soak and s is not rsc)
    print("C16 %s seed=%d: %d sessions, %d events judged in %d transitions (%d of them aggregate about %d concurrent calls); %d behaviours of the model replayed; races: %s; rejected sessions %d" % (
        tier, seed, len(scs), nev, sum(s.states for s in scs), sum(len(s.log) for s in scs if s.soak), soaked, nplans, "not available: " + rnote if races is None else len(races), viol))
    print("time: plan %.1f record %.1f models %.1f judge %.1f total %.1f" % (t1 - t0, t2 - t1, t3 - t2, t4 - t3, time.time() - t0))
    pairs = sum(1 for s in scs if s.name == "pairs" for e in s.log if e[0] == ATOMIC)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": "C16", "tier": tier, "seed": seed, "level": "exploration", "coverage": {
        "evaluations": nev + soaked,
        "distinct_nontrivial": len({(s.name,) + s.ops[e[2]].key() + (e[3],) for s in scs for e in s.log if e[0] in (ATOMIC, RETURN, OBSERVED) and e[2] < len(s.ops)}),
        "rule": "histories of calls (all ordered pairs of related operations, random histories in fresh processes, behaviours of spec/session_model.qnt on real threads, "
                "long concurrent histories) replayed as transitions of spec/session_trace.qnt; distinct operations and rounding modes counted",
        "samples": [describe(s, j) for s in scs[:6] for j in [len(s.log) - 1] if s.log],
        "sessions": len(scs), "events": nev, "transitions_of_the_specification": sum(s.states for s in scs), "consecutive_pairs_of_related_calls": pairs,
        "traces_validated_against_impl": nplans, "model_states_generated": mstates, "concurrent_calls_aggregated": soaked,
        "race_detection": races is not None, "implementation_models_decided": [m for m, _ in MODELS if m not in wrong_models],
        "model_states_exhausted_by_tlc": {n: k for n, (ok, k) in exhausted.items() if ok}, "models_refuted_by_tlc": [n for n, (ok, k) in exhausted.items() if ok is False]},
        "assumptions": ["a schedule-dependent defect is found only if one of the recorded schedules shows it or the race detector sees the conflicting accesses",
                        "the processor and the operating system preserve the register state of each thread"],
        "wall_s": round(time.time() - t0, 2), "violations": viol}, open(os.path.join(VERIF, "evidence", "C16.json"), "w"), indent=1)
    if viol: return 1
    return 3 if wrong_models else 0

def replay(path):
    j = json.load(open(path))
    s = sc_json(j)
    driver = build()
    n = 0
    for _ in range(5):
        if j["name"] == "race detection":
            races, note = race(tsan_build(), s.ops, j["soak"][2]); s.log = races or []; print(note[:1500])
        else: s.record(driver)
        d = spec_dir()
        try: s.states, s.bad = judge_log(s.log, d)
        finally: shutil.rmtree(d, ignore_errors=True)
        for k, c in s.bad[:10]: print("%s: %s" % (WHY.get(c, c), describe(s, k)))
        n += len(s.bad)
        if n: break
    return 1 if n else 0
