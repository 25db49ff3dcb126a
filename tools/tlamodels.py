#!/usr/bin/env python3
"""The implementation models of spec/session_model.qnt, translated to TLA+ (spec/tla, by `quint compile`) and explored
exhaustively by TLC: every history of any length, since the state space is finite.
tlamodels.py generate   rewrites spec/tla from the Quint modules"""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, zipfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plv import VERIF, JOBS, sh

TLA = os.path.join(VERIF, "spec", "tla")
HOLD, FAIL, BIG = ["small0", "small5", "small10", "small13"], ["model1", "model2", "model3", "model4", "model6", "model7", "model8", "model9", "model11", "model12", "model13"], ["big0", "big5"]

def compile(name, out):
    p = sh(["quint", "compile", "--target", "tlaplus", "--main=" + name, "--init=init", "--step=step", "--invariant=refines and consistent",
            "session_model.qnt"], cwd=os.path.join(VERIF, "spec"), timeout=300)
    s = p.stdout.decode()
    i = re.search(r"^-+ MODULE ", s, re.M)
    if p.returncode or not i: return None
    s = s[i.start():]
    s = s[:re.search(r"^=+$", s, re.M).end()] + "\n"
    open(os.path.join(out, name + ".tla"), "w").write(s)
    return s

def source():
    return hashlib.sha256(b"".join(open(os.path.join(VERIF, "spec", f), "rb").read() for f in ("session.qnt", "session_model.qnt"))).hexdigest()
def current():
    try: return open(os.path.join(TLA, "SOURCE")).read().strip() == source()
    except OSError: return False

def generate():
    os.makedirs(TLA, exist_ok=True)
    for n in HOLD + FAIL + BIG:
        if not compile(n, TLA): print("cannot compile", n); return 1
    shutil.rmtree(os.path.join(VERIF, "spec", "_apalache-out"), ignore_errors=True)
    jar = zipfile.ZipFile(glob.glob("/opt/veriftools/apalache/lib/*.jar")[0])
    for f in ("Apalache", "Variants"):
        open(os.path.join(TLA, f + ".tla"), "wb").write(jar.read("tla2sany/StandardModules/%s.tla" % f))
    open(os.path.join(TLA, "SOURCE"), "w").write(source() + "\n")
    return 0

def explore(name, timeout=600, workers=None):
    """(True: the contract holds in every reachable state, False: refuted, None: no answer; distinct states)"""
    with tempfile.TemporaryDirectory() as d:
        for f in (name, "Apalache", "Variants"): shutil.copy(os.path.join(TLA, f + ".tla"), d)
        open(d + "/m.cfg", "w").write("INIT q_init\nNEXT q_step\nINVARIANT q_inv\nCHECK_DEADLOCK FALSE\n")
        try: p = sh(["tlc", "-workers", str(workers or JOBS), "-metadir", d + "/states", "-config", "m.cfg", name + ".tla"], cwd=d, timeout=timeout,
                   env=dict(os.environ, JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=" + d))
        except subprocess.TimeoutExpired: return None, 0
        o = p.stdout.decode()
    n = re.findall(r"(\d+) distinct states found, 0 states left", o)
    if "No error has been found" in o and n: return True, int(n[-1])
    m = re.findall(r"(\d+) distinct states found", o)
    if "Invariant q_inv is violated" in o: return False, int(m[-1]) if m else 0
    return None, 0

def decide(names, workers=1):
    """names explored side by side: {name: (verdict, states)}"""
    with concurrent.futures.ThreadPoolExecutor(max(1, JOBS // workers)) as ex:
        return dict(zip(names, ex.map(lambda n: explore(n, 600 if n not in BIG else 2400, workers), names)))

if __name__ == "__main__":
    if sys.argv[1:] == ["generate"]: sys.exit(generate())
    for n in sys.argv[1:]: print(n, *explore(n, 3000))
