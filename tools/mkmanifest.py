#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "Quint specification executed as the judge of recorded calls (trace validation of the library built from /repo)"
T2 = "Quint relational specification: pairs of recorded calls validated against each other"
notes = {
 "C01": (T, "reference functions with 144-bit and longer integer arithmetic in the specification; long double also as IEEE quadruple (-mlong-double-128)"),
 "C02": (T, "as C01; arguments chosen at random, at every literal of the sources and by scans of up to about 50 million arguments for disagreement of two entry points; quadruple long double too"),
 "C03": (T, "as C02; orders 0..200 and random orders up to 2^63-1"),
 "C04": (T, "orders -60..-1 individually"),
 "C05": (T, "angles reduced exactly in integers, so every number of turns is judged; quadruple long double too"),
 "C06": (T, "orders 1..300 individually and random orders up to 2^63-1"),
 "C07": (T, "orders 1..300 individually and random orders up to 2^63-1"),
 "C08": (T, "side-of-cut rule of the specification for every binding and precision; imaginary parts down to the smallest number"),
 "C09": (T2, "conjugate and negated arguments, all bindings"),
 "C10": (T, "C functions judged against the specification and against their C++ counterparts; quadruple long double too"),
 "C11": (T, "Fortran functions judged against the specification and against their C++ counterparts; argument storage compared before and after"),
 "C12": (T2, "the same argument in two precisions"),
 "C13": (T2, "entry points computing the same quantity"),
 "C14": (T, "full product of special values over components for all functions, orders sampled"),
 "C15": (T, "build with ASan and UBSan (integer overflow, shifts, float casts, bounds), Fortran bounds checks, plus processor time per call in a plain build; orders include the ends of int64"),
 "C16": ("Quint session specification: trace validation of sequential and concurrent histories; behaviours of the specification's model replayed on real threads; ThreadSanitizer events; implementation models explored exhaustively by TLC",
         "all ordered pairs of related calls, random histories in fresh processes, caller's rounding modes, behaviours of the model, calls before main, up to 72 threads at once, millions of concurrent calls compared with fresh processes"),
 "C17": (T, "exponents of both components uniform over the whole range"),
 "C18": (T, "every index -700..1499 and samples of the whole 64-bit range"),
 "C19": (T, "angles up to the largest finite number, neighbours of multiples of pi"),
}
checks = []
for p in sorted(notes):
    t, n = notes[p]
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
                   "level_note": n + "; every recorded result is decided by the specification, what is not recorded is not decided"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the public functions are the observation points."},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
