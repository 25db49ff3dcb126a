#!/usr/bin/env python3
"""check.py C01 ...: records behaviours of the library built from /repo and lets the Quint specification judge them.
check.py --replay FILE: repeats the calls of a reported violation."""
import json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plv
from plv import *
import plans

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
DEADLINE = 420 if TIER == "quick" else 3000

def known_findings():
    """lines 'known: property=<id> [fn=<name>] [n=<order>] [a=<num>] [b=<num>] <what>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) match=(\S+) (.*)", line)
            if m: out.append((m.group(1), dict(x.split("=", 1) for x in m.group(2).split(";")), m.group(3).strip()))
    return out

def matches(e, pat):
    v = {"fn": API[e.fn][0], "n": str(e.n), "a": show(e.a), "b": show(e.b), "rel": RELNAME[e.rel], "code": str(e.code)}
    return all(v.get(k) == x for k, x in pat.items())

def sanitizer():
    fl = "-O1 -g -fno-omit-frame-pointer -fsanitize=undefined,address,float-cast-overflow -fno-sanitize-recover=all"
    return build("san", ["-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_FLAGS=" + fl, "-DCMAKE_CXX_FLAGS=" + fl,
                         "-DCMAKE_Fortran_FLAGS=-O1 -g -fcheck=bounds,recursion", "-DCMAKE_EXE_LINKER_FLAGS=-fsanitize=undefined,address"])

def evidence(pid, cov, t0, nviol, assumptions, level="exploration"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": nviol},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

ASSUME = ["the reference functions of spec/polylog.qnt are right (checked by spec tests and against mpmath during development)",
          "results of other compilers, optimisation levels or libm versions are not covered",
          "tolerances of spec/contract.qnt: tens of rounding units, at least twice the largest error observed on the unchanged tree"]

def report(pid, bad, t0):
    """replay files and VIOLATION lines"""
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    bad.sort(key=lambda e: -e.ratio)
    seen = {}
    for e in bad: seen.setdefault((e.rel, e.fn, e.fn2, e.code), []).append(e)
    for i, (k, es) in enumerate(list(seen.items())[:5]):
        path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "events": [e.json() for e in es[:20]]}, open(path, "w"), indent=1)
        print("  %s: %s (%.3g x the allowed error; %d such calls)" % (CODE[es[0].code], es[0].text(), es[0].ratio / 1000, len(es)))
        print("VIOLATION property=%s replay=%s" % (pid, path))

def confirm(driver, bad):
    """repeat the rejected calls (the worst of each kind) in a fresh process"""
    groups = {}
    for e in bad: groups.setdefault((e.rel, e.fn, e.fn2, e.code), []).append(e)
    again = []
    for es in groups.values():
        es.sort(key=lambda e: -e.ratio)
        again += es[:25]
    again = again[:400]
    for e in again: e.code = None
    execute(driver, again)
    again = [e for e in again if e.res[0] and e.res2[0]]
    done, _, _ = judge_all(again, 200)
    return [e for e in done if e.code]

def main(pid):
    t0 = time.time()
    driver = sanitizer() if pid == "C15" else build()
    plain = build() if pid == "C15" else None
    ctx = plans.Ctx(SEED, TIER, driver)
    plans.PLANS[pid](ctx)
    t1 = time.time()
    random.Random(SEED).shuffle(ctx.jobs)
    sel, nscan = plv.scan(plain or driver, ctx.jobs, 60 if TIER == "quick" else 1200)
    if sel is None:
        print("note: input selection did not finish (%s)" % nscan); sel, nscan = [], 0
    t2 = time.time()
    events, seen = [], set()
    for e in ctx.events + sel:
        k = (e.rel, e.fn, e.fn2, e.n, e.n2, e.mask, e.a, e.b)
        if k not in seen: seen.add(k); events.append(e)
    random.Random(SEED).shuffle(events)
    ncalls = execute(driver, events)
    if pid == "C15":
        # the same behaviours without instrumentation: processor time of every call
        slow = [Event(e.rel, e.fn, e.n, e.a, e.b, e.fn2, e.n2, e.mask) for e in events]
        ncalls += execute(plain, slow)
        events = [x if x.res[0] != 1 else e for e, x in zip(events, slow)]
    skipped = sum(1 for e in events if not e.res[0] or not e.res2[0])
    events = [e for e in events if e.res[0] and e.res2[0]]
    t3 = time.time()
    batch = max(400, min(6000, -(-len(events) // JOBS)))
    done, worst, states = judge_all(events, batch, deadline=t0 + DEADLINE)
    t4 = time.time()
    bad = [e for e in done if e.code]
    nrej = len(bad)
    if bad: bad = confirm(driver, [e for e in bad]) + (confirm(plain, [e for e in bad if e.res[0] in (3, 6)]) if plain else [])
    known = known_findings()
    hit, viol = {}, []
    for e in bad:
        k = next((i for i, (p, pat, _) in enumerate(known) if p == pid and matches(e, pat)), None)
        if k is None: viol.append(e)
        else: hit[k] = e
    for i, (p, pat, what) in enumerate(known):
        if p == pid: print("KNOWN-FINDING: property=%s %s" % (pid, what))
    t = time.time()
    print("%s %s seed=%d: %d events (%d calls) judged in %d transitions, %d selected from %d scanned; rejected %d, confirmed %d; closest accepted %.3f of the allowed error: %s" % (
        pid, TIER, SEED, len(done), ncalls, states, len(sel), nscan, nrej, len(viol), worst[0] / 1000, worst[1].text() if worst[1] else "-"))
    print("time: plan %.1f scan %.1f record %.1f judge %.1f total %.1f" % (t1 - t0, t2 - t1, t3 - t2, t4 - t3, t - t0))
    fin = [e for e in done if e.a[0] == 1 or e.b[0] == 1 or has_order(e.fn)]
    evidence(pid, {
        "evaluations": len(done),
        "distinct_nontrivial": len({(e.fn, e.fn2, e.rel, e.n, e.a, e.b) for e in fin}),
        "rule": "recorded calls (generated by tools/plans.py and the driver's scan, seeded) replayed as transitions of spec/conformance.qnt; "
                "non-trivial: a finite non-zero argument component or an explicit order",
        "samples": [e.json()["text"] for e in done[:6]],
        "calls": ncalls, "transitions_of_the_specification": states, "arguments_scanned": nscan, "selected_by_scan": len(sel),
        "not_judged": skipped + len(events) - len(done), "functions": sorted({API[e.fn][0] for e in done}),
        "orders": len({e.n for e in done if has_order(e.fn)}),
        "worst_accepted_fraction_of_tolerance": worst[0] / 1000,
        "rejected": nrej, "confirmed": len(viol)}, t0, len(viol), ASSUME)
    if viol:
        report(pid, viol, t0)
        return 1
    if len(done) < 0.5 * len(events): print("ERROR: only %d of %d events judged before the deadline" % (len(done), len(events))); return 3
    return 0

def replay(path):
    j = json.load(open(path))
    pid = j["property"]
    if pid == "C16":
        import session
        return session.replay(path)
    evs = [from_json(x) for x in j["events"]]
    n = 0
    for driver in [build()] + ([sanitizer()] if pid == "C15" else []):
        execute(driver, evs)
        done, _, _ = judge_all(evs, 200)
        for e in done:
            print("%s: %s" % (CODE[e.code], e.text()))
            n += e.code != 0
    return 1 if n else 0

if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "C16":
        import session
        sys.exit(session.main(TIER, SEED))
    sys.exit(main(sys.argv[1]))
