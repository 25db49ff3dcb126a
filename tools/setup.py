#!/usr/bin/env python3
"""Builds the drivers (the checks rebuild them from /repo's working tree) type-checks the specification and runs its tests."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plv, check, session, tlamodels
plv.build(); plv.quad_driver(); check.sanitizer(); session.tsan_build()
bad = 0
for f in sorted(os.listdir(os.path.join(plv.VERIF, "spec"))):
    if f.endswith(".qnt"):
        p = plv.sh(["quint", "typecheck", os.path.join(plv.VERIF, "spec", f)])
        if p.returncode: print(f, p.stdout.decode()[-1500:]); bad = 1
p = plv.sh(["quint", "test", os.path.join(plv.VERIF, "spec", "tests.qnt")], timeout=900)
if p.returncode: print(p.stdout.decode()[-3000:]); bad = 1
if not tlamodels.current(): print("spec/tla is out of date: tools/tlamodels.py generate"); bad = 1
sys.exit(bad)
