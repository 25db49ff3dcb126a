#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Real polylogarithms Li2, Li3, Li4 are accurate on the whole real line",
 """For every finite real x, in every precision offered, the real polylogarithms of order 2, 3 and 4 return the real
 part of Li_n(x) with an error of at most a small multiple (tens; for the tetralogarithm up to about 300) of the rounding
 unit of that precision, relative to |Li_n(x)|. This includes arguments next to 0 (where Li_n(x) ~ x), next to 1/2, 1, -1 and 2, every internal
 change of approximation, and arguments up to the largest and down to the smallest representable magnitude.""",
 ["inputs"], "all finite float, double and long double arguments (long double of 64 or of 113 bits, as the platform has it)",
 """The tests compare with tables on a coarse grid in [-10,10] and a handful of special points; a wrong
 coefficient, threshold or sign that only matters between grid points, at tiny or huge arguments or in long double is invisible.""",
 ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp"],
 [("transformation to [0,1/2] plus rational approximation", "src/cpp/Li2.cpp: Li2(double), Li2(float), Li2(long double)"),
  ("argument classes and inversion/reflection", "src/cpp/Li3.cpp, src/cpp/Li4.cpp")],
 observe=["return value of Li2/Li3/Li4"])

prop("C02", "Complex polylogarithms Li2..Li6 are accurate on the whole complex plane",
 """For every finite complex z off the branch cut, in every precision offered, the complex polylogarithms of order 2
 to 6 return Li_n(z), in each component, with an error of at most a small multiple (tens, at most about a hundred) of the rounding unit, relative to |Li_n(z)|.
 The bound is uniform: it holds inside and outside the unit circle, on both sides of every internal change of
 expansion, next to z = 1, next to the cut, and for real arguments passed as complex numbers.""",
 ["inputs"], "all finite complex arguments in float, double and long double (of 64 or 113 bits), orders 2..6",
 """The tests use a square grid of step 0.1..0.5 within |Re|,|Im| <= 10 and tolerances of 1e-14 or worse also for long double;
 they never look at the neighbourhood of expansion boundaries, at |z| >> 10 or |z| << 1, or at the last digits in long double.""",
 ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp", "src/cpp/Li5.cpp", "src/cpp/Li6.cpp", "src/cpp/log.hpp", "src/cpp/horner.hpp"],
 [("|log z|<1 expansion, log1p expansion, inversion", "src/cpp/Li3.cpp..Li6.cpp"),
  ("complex log1p and log with pinned cut", "src/cpp/log.hpp"), ("Horner schemes", "src/cpp/horner.hpp")],
 observe=["return value of the complex Li2..Li6"])

prop("C03", "The general-order polylogarithm is accurate for every order n >= 0",
 """For every order n >= 0, however large, and every finite complex z (except the pole at z = 1 for n <= 1), the
 general-order polylogarithm returns Li_n(z) with an error of at most a small multiple (tens to a few hundred) of the
 rounding unit relative to |Li_n(z)|, whichever series, closed form or inversion is used internally. Where the true
 value is representable the result is finite.""",
 ["inputs"], "all orders n >= 0 in int64 and all finite complex double arguments",
 """Tests cover orders 0..6 and 100 on a grid of |Re|,|Im| <= 5; orders 7..99 and above 100, the switch radii 0.75 and 1.4,
 and large arguments are sampled by two points.""",
 ["src/cpp/Li.cpp", "src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/factorial.cpp", "src/cpp/harmonic.cpp"],
 [("order dispatch", "src/cpp/Li.cpp: Li"), ("power series, expansion about 1, inversion remainder", "src/cpp/Li.cpp: Li_series, Li_unity_pos, Li_rest")],
 observe=["return value of Li(n,z)"])

prop("C04", "The general-order polylogarithm is accurate for negative orders",
 """For every order -60 <= n <= -1 and every finite complex z other than 1, the general-order polylogarithm returns
 Li_n(z) (a rational function of z) with an error that is a moderate multiple of the rounding unit (tens, growing
 to about a hundred for n = -40 and more beyond), relative to |Li_n(z)| + |Li_(n-1)(z)|; the second term is the unavoidable effect
 of rounding z next to the zeros of Li_n on the negative axis. In particular for |z| -> infinity it decays to 0 as the inversion
 formula demands and next to z = 1 it reproduces the pole.""",
 ["inputs"], "orders -60..-1, all finite complex double arguments",
 """Tests cover -10..-1 and 0.1-spaced arguments within |Re|,|Im| <= 5, with tolerances down to 1e-9; the case with n = -100 is commented out.""",
 ["src/cpp/Li.cpp", "src/cpp/zeta.cpp"],
 [("series / expansion about 1 / square-root duplication", "src/cpp/Li.cpp: Li, Li_series, Li_unity_neg")],
 observe=["return value of Li(n,z), n < 0"])

prop("C05", "Standard Clausen functions Cl1..Cl6 are accurate for every angle",
 """For every finite real x, in every precision offered, the Clausen functions of order 1 to 6 return Cl_n(x) with an
 error of at most a small multiple (tens) of the rounding unit relative to |Cl_n(x)| plus the effect of
 perturbing the angle by as many of its own rounding units (by two of them for angles of several turns). For small |x| the even-order functions keep their full relative accuracy.""",
 ["inputs"], "all finite double and long double angles (long double of 64 or 113 bits), orders 1..6",
 """Tests use a table of angles in [0, 2 pi) with 1e-13 absolute tolerance and a few special points; tiny angles, negative
 and multi-turn angles, the switch at pi/2 and long double digits are not decided.""",
 ["src/cpp/Cl1.cpp", "src/cpp/Cl2.cpp", "src/cpp/Cl3.cpp", "src/cpp/Cl4.cpp", "src/cpp/Cl5.cpp", "src/cpp/Cl6.cpp"],
 [("range reduction to [0,pi]", "src/cpp/Cl*.cpp"), ("two rational approximations split at pi/2", "src/cpp/Cl*.cpp")],
 observe=["return value of Cl1..Cl6"])

prop("C06", "The general-order Clausen function is accurate for every order and angle",
 """For every order n >= 1 and every finite real x, the general-order Clausen function returns Cl_n(x) with an error of
 at most tens (orders 7 to 12: a few hundred) of rounding units relative to |Cl_n(x)| plus the effect of perturbing the angle by as many of its own rounding
 units (two for several turns), whichever algorithm the order selects. For n -> infinity it tends to cos x (odd n) or sin x (even n).""",
 ["inputs"], "all orders n >= 1 in int64 and all finite double angles",
 """Tests sample orders 1..16, 1000, 1001 and 1000000 on a grid of angles in [0, 2 pi) with tolerances relative to 1.""",
 ["src/cpp/Cl.cpp"],
 [("order dispatch; Wu/Zhang/Liu series for 7..9; direct series from order 10", "src/cpp/Cl.cpp")],
 observe=["return value of Cl(n,x)"])

prop("C07", "The Glaisher-Clausen functions are accurate for every order and angle",
 """For every order n >= 1 and every finite real x, the Glaisher-Clausen function returns Sl_n(x) with an error of at
 most tens of rounding units relative to |Sl_n(x)| plus the effect of perturbing the angle by as many of its own rounding units
 (two for several turns), for every closed-form
 polynomial and for the direct series alike.""",
 ["inputs"], "all orders n >= 1 in int64 and all finite double angles",
 """Tests sample orders 1..31, 1000 and 1001 at tabulated angles with absolute tolerance 1e-13 or worse; errors in
 high coefficients, near the ends of the period or for multi-turn angles stay below it.""",
 ["src/cpp/Sl.cpp"],
 [("range reduction", "src/cpp/Sl.cpp: range_reduce"), ("Bernoulli-polynomial closed forms n <= 25, series beyond", "src/cpp/Sl.cpp: Sl")],
 observe=["return value of Sl(n,x)"])

prop("C08", "Branch cuts: the side of the cut is always the one the argument is on",
 """For orders n >= 1 and every complex z with non-zero imaginary part, however small compared with the real part, the
 result lies on z's side of the cut (-: below, +: above), so approaching the real axis beyond 1 gives an imaginary part of
 magnitude pi ln^(n-1)(x)/(n-1)! with the sign of Im z. On the cut itself (imaginary part +0 or -0, x > 1) every
 polylogarithm of order >= 2 returns the limit from below. On the real axis at x <= 1 the complex functions of order 2 to 6 return the real
 value with a zero imaginary part, which has the sign of z's for the dilogarithm and for the double precision functions of order 3 and 4. For
 orders above 6 the side of the cut is decided where the imaginary part is not hidden by the rounding error of the result.""",
 ["inputs"], "all arguments on or arbitrarily close to the real axis, all precisions, all bindings",
 """Tests check one or two points on the cut; the limits from both sides at extreme ratios Im/Re, where arg() underflows,
 and the signed zeros off the origin are not exercised.""",
 ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp", "src/cpp/Li5.cpp", "src/cpp/Li6.cpp", "src/cpp/Li.cpp", "src/cpp/log.hpp", "src/c/log.c", "src/fortran/log.f90"],
 [("iz == 0 special cases", "src/*/Li[2-6].*"), ("pos_log / clog map -0.0 to 0.0", "src/cpp/log.hpp, src/cpp/Li.cpp"), ("arg(-z) from arg(z)", "src/*/Li[3-6].*")],
 observe=["imaginary part of the results"])

prop("C09", "Reflection symmetry: complex conjugation and parity hold exactly",
 """Off the real axis, conjugating the argument of any polylogarithm of any order conjugates the result. Negating the
 angle of a Clausen or Glaisher-Clausen function leaves even functions unchanged and flips the sign of odd ones. Both hold
 to rounding accuracy for all arguments, including ones whose size makes intermediate terms overflow or vanish.""",
 ["inputs"], "all finite arguments, all orders, precisions and bindings",
 """Tests never evaluate conjugate pairs; parity is covered only for a few table entries of Sl and Cl.""",
 ["src/cpp/Li.cpp", "src/cpp/Li2.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"],
 [("sign extraction in the range reductions", "src/*/Cl*.*, src/cpp/Sl.cpp"), ("arg/log branch selection", "src/*/Li*.*")],
 observe=["pairs of return values"])

prop("C10", "The C interface returns the same functions as the C++ interface",
 """Every function of the C interface, in every precision, returns for every argument the documented function value with
 the accuracy demanded of its C++ counterpart (tens of rounding units of that precision, some functions a few hundred, relative to its modulus), and agrees with its C++ counterpart to
 that accuracy, on the branch cut and for signed zeros as well.""",
 ["inputs"], "all arguments of li2f..cli6l and cl2..cl6l",
 """The C sources are a separate implementation; the tests run them on the same coarse grids as the C++ ones with tolerances
 that are absolute near zero, so loss of relative accuracy for small arguments goes unnoticed.""",
 ["src/c/Li2.c", "src/c/Li3.c", "src/c/Li4.c", "src/c/Li5.c", "src/c/Li6.c", "src/c/Cl2.c", "src/c/Cl3.c", "src/c/Cl4.c", "src/c/Cl5.c", "src/c/Cl6.c", "src/c/log.c"],
 [("separate C implementation with its own constants", "src/c"), ("complex log1p / log", "src/c/log.c")],
 observe=["return values of the C API"])

prop("C11", "The Fortran interface returns the same functions and leaves its arguments alone",
 """Every Fortran function returns for every argument the documented function value with the accuracy demanded of its C++ counterpart
 (tens of rounding units, some functions a few hundred, relative to its modulus) and agrees with its C++ counterpart to that accuracy, including NaN for NaN. A call never changes
 the variable passed as argument.""",
 ["inputs"], "all arguments of dli2..cdli6 and dcl2..dcl6",
 """Fortran passes by reference and is a separate implementation; the tests call it through wrappers with temporaries, on coarse grids,
 so they cannot see a modified argument or lost relative accuracy.""",
 ["src/fortran/Li2.f90", "src/fortran/Li3.f90", "src/fortran/Li4.f90", "src/fortran/Li5.f90", "src/fortran/Li6.f90", "src/fortran/Cl2.f90", "src/fortran/Cl3.f90", "src/fortran/Cl4.f90", "src/fortran/Cl5.f90", "src/fortran/Cl6.f90", "src/fortran/log.f90"],
 [("separate Fortran implementation", "src/fortran"), ("dummy arguments", "src/fortran/*.f90")],
 observe=["return values and argument variables of the Fortran functions"])

prop("C12", "Float, double and long double versions of a function agree",
 """Wherever a function is offered in several precisions, evaluating the same (exactly representable) argument in two
 precisions gives results that differ by at most tens (a few hundred where a single one may have that error) of rounding units of the coarser precision relative to the modulus, also
 at the extremes of the coarser format's range and on the branch cut.""",
 ["inputs"], "all arguments representable in the coarser format; Li2 (f/d/l), Li3..Li6 complex (d/l), Cl2..Cl6 (d/l), in C++ and C",
 """Each precision has its own coefficients and thresholds and is tested separately, long double with double-sized tolerances.""",
 ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Cl2.cpp", "src/c/Li2.c"],
 [("per-precision coefficient tables and thresholds", "src/cpp/*.cpp, src/c/*.c")],
 observe=["pairs of return values"])

prop("C13", "Every way to ask for the same function gives the same answer",
 """The general-order functions agree with the specialised ones of the same order, a complex polylogarithm at a real
 argument has the real part the real polylogarithm returns there, and on the unit circle Li_n(exp(i x)) has Cl_n(x) and Sl_n(x) as its
 real and imaginary parts in the parity-dependent order, for every order and argument, to rounding accuracy.""",
 ["inputs"], "all orders and arguments for which two entry points compute the same quantity",
 """Each entry point is tested against its own table; nothing relates them to one another, and orders without a table are not tested at all.""",
 ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/cpp/Li2.cpp", "src/cpp/Li3.cpp"],
 [("order dispatch", "src/cpp/Li.cpp, src/cpp/Cl.cpp"), ("iz == 0 delegation to the real functions", "src/cpp/Li2.cpp..Li6.cpp")],
 observe=["pairs of return values"])

prop("C14", "Special arguments give the values the conventions demand",
 """NaN arguments give NaN. Infinite arguments never give a finite result for orders n >= 1; the real dilogarithm,
 trilogarithm and tetralogarithm of +-infinity are -infinity. A zero argument is returned unchanged with the signs of its
 zeros, Li_n(1) = zeta(n), Li_n(-1) = -eta(n) and the poles (order <= 1 at z = 1, Cl_1 at 0) are infinite. Orders
 for which a Clausen or Glaisher-Clausen function is not defined (n < 1) give NaN.""",
 ["inputs"], "the full product of special values {+-0, +-1, +-inf, NaN, smallest/largest numbers} over components, all orders, precisions and bindings",
 """Tests check selected combinations for selected functions; the product over components, orders and bindings is not covered.""",
 ["src/cpp/Li.cpp", "src/cpp/Li2.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/fortran/Li2.f90"],
 [("special-case chains at function entry", "src/*/Li*.*, src/cpp/Cl.cpp, src/cpp/Sl.cpp")],
 observe=["return values"])

prop("C15", "Every call returns: no hang, crash, exception or undefined behaviour",
 """For every order in the full 64-bit range and every argument, finite or not, each function returns promptly
 (in well under a second) without crashing, throwing, recursing without bound or executing undefined integer or array operations.""",
 ["inputs"], "all orders in [INT64_MIN, INT64_MAX], all bit patterns of arguments, all functions",
 """Tests use orders between -10 and 1000000 and well-behaved arguments; loop bounds that depend on the order, recursion depth and 64-bit
 overflow at the ends of the order range are never reached.""",
 ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/harmonic.cpp", "src/cpp/factorial.cpp"],
 [("loop exits on convergence", "src/cpp/Li.cpp"), ("series length from the order", "src/cpp/Cl.cpp, src/cpp/Sl.cpp"), ("table bounds", "src/cpp/zeta.cpp, src/cpp/factorial.cpp")],
 observe=["completion of calls", "signals", "elapsed time"])

prop("C16", "Results depend on the arguments only: no history, thread or environment effects",
 """A call returns the same bits whatever calls were made before it, in whatever order, from however many threads at
 once, and whoever is calling concurrently: in a new process or after any history. A call made in another rounding mode depends on that mode
 only while it lasts. Concurrent calls do not conflict in memory. No call changes the caller's arguments or other memory of the caller, the
 rounding mode or other control settings of the floating-point unit.""",
 ["schedules", "histories"], "all interleavings of calls from several threads, all call histories",
 """The tests run one call after another in one thread and check each result once; hidden caches, static buffers, lazily built
 tables and shared scratch space would pass them.""",
 ["src/cpp", "src/c", "src/fortran"],
 [("functions are pure: only constants are shared", "src/cpp/*.cpp, src/c/*.c"), ("dummy arguments are not written", "src/fortran/*.f90")],
 state=[("(none)", "the library has no mutable state; the specification's memo variable makes that explicit", "src")],
 observe=["return values of repeated and concurrent calls", "argument memory", "rounding mode"])

prop("C17", "No loss of accuracy, overflow or underflow at extreme magnitudes",
 """As the argument goes to 0 every polylogarithm of order n behaves as z + z^2/2^n, keeping full relative accuracy down to the smallest
 representable numbers, and for arguments up to the largest representable magnitude polylogarithms of order n >= 0 follow the
 logarithmic asymptotics without spurious infinities, NaNs or zeros from intermediate overflow or underflow. Even-order Clausen
 functions keep full relative accuracy for angles down to the smallest numbers.""",
 ["inputs"], "arguments from the smallest subnormal to the largest finite number in each component independently, all precisions and bindings",
 """Tests contain two or three overflow points per function; components of very different size, subnormals and relative accuracy near zero are not checked.""",
 ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp", "src/cpp/Li5.cpp", "src/cpp/Li6.cpp", "src/cpp/Li.cpp", "src/cpp/log.hpp", "src/c/log.c"],
 [("small-|z| shortcuts, log1p, hypot/abs based moduli", "src/*/Li*.*")],
 observe=["return values"])

prop("C18", "Zeta, eta, inverse factorial and harmonic numbers are right for every index",
 """The integer-argument number functions the polylogarithms are built on (Riemann zeta, negated Dirichlet eta, inverse
 factorial, harmonic number) return the true value up to a few rounding units for every
 64-bit index, with infinities where the value overflows, exact zeros where it vanishes and NaN where it is undefined.""",
 ["inputs"], "all 64-bit indices",
 """Tests cover selected indices within the tables; entries deep in the tables, the hand-over from table to formula and the ends of the 64-bit range are not.""",
 ["src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/factorial.cpp", "src/cpp/harmonic.cpp"],
 [("tables with closed forms beyond them", "src/cpp/zeta.cpp, src/cpp/eta.cpp, src/cpp/factorial.cpp, src/cpp/harmonic.cpp")],
 observe=["return values of zeta, neg_eta, inv_fac, harmonic"])

prop("C19", "Clausen-type functions are 2 pi periodic with roots and extrema in place",
 """For every finite angle, however many turns it has, Clausen and Glaisher-Clausen functions of every order return a value attained by the
 true function within a few rounding units of that angle (tens of them within the first turn): never out of the function's range and never from the wrong
 half-period. Even-order Clausen and odd-order (>= 3) Glaisher-Clausen functions vanish at 0 and change sign across multiples of pi.""",
 ["inputs"], "all finite angles up to the largest representable number, all orders and precisions, C, C++ and Fortran",
 """Tests use one period plus a few shifted angles; reduction errors for many turns, next to multiples of pi and at the range boundary are unobserved.""",
 ["src/cpp/Cl1.cpp", "src/cpp/Cl2.cpp", "src/cpp/Cl3.cpp", "src/cpp/Cl4.cpp", "src/cpp/Cl5.cpp", "src/cpp/Cl6.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/c/Cl2.c", "src/fortran/Cl2.f90"],
 [("fmod reduction and two-part reflection at pi", "src/*/Cl*.*, src/cpp/Sl.cpp")],
 observe=["return values"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
