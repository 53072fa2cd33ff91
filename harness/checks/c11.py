"""C11: an antiderivative that is returned differentiates back to the integrand, whatever route the search took."""
from hypothesis import strategies as st

from ..engine import Sub
from ..common import *
from ..integ import FAMILIES, FNAMES, CONSTS, Integrand, P, X, bounded, check_antiderivative, check_symbols, h_any, mul, plus, rename, SI

# families in which no substitution restricts the real domain of the answer, so that it must be real wherever the integrand is sampled
REAL = {"exp", "log", "parts_exp", "parts_exptrig", "parts_log", "parts_trig", "poly", "polylin", "polyprod", "power", "powerlin", "product_trig", "reclin", "sectan", "sincos", "sinmcosn", "sqrtlin", "trig", "trig2", "usub"}
VARNAMES = ["x", "x", "t", "y", "theta", "u", "X"]


def tree_of(case):
    """case: {fam, raw, var, swap, extra}"""
    p = P(case["raw"])
    t = h_any(p) if case["fam"] == "any" else FAMILIES[case["fam"]](p)
    if case["fam2"]:
        u = FAMILIES[case["fam2"]](p)
        t = plus(p.perm([t, u])) if p.n(4) else plus([t, mul(["a", u])])
    return t


def integrand(case):
    # sometimes a constant is called x, or the variable and a constant swap names
    names = {"a": "x"} if case["swap"] and case["var"] != "x" else {}
    return Integrand(tree_of(case), case["var"], names)


def solve(case, it, expr, steps):
    with bounded(steps, case["order"]):
        return SI.integrate(expr, E.Symbol(case["var"]), breadth_first=bool(case["bf"]))


def check(case, rec):
    it = integrand(case)
    try:
        expr = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    names = {s for ins in it.prog for s in ins[1:2] if ins[0] == "sym"}
    try:
        ans = solve(case, it, expr, 14)
    except Exception as ex:
        raise Discard("integration raised %s (C13)" % type(ex).__name__)
    how = "integrate(%s, %s)%s" % (it.text, case["var"], (" breadth first" if case["bf"] else "") + (" with heuristics in order %d" % case["order"] if case["order"] else ""))
    rec.label("fam:" + case["fam"])
    if ans is None:
        raise Discard("not solved")
    if not isinstance(ans, E.Expr):
        raise Violation("%s returned %r" % (how, ans))
    check_symbols(ans, names | {case["var"]}, how)
    n, und = check_antiderivative(it, it.points(), ans, how, case["fam"] in REAL and (not case["fam2"] or case["fam2"] in REAL))
    rec.label("compared" if n else "no real value at the sample points" if und else "no sample point in the domain")
    if case["bf"]:
        rec.label("breadth first")
    if case["order"]:
        rec.label("shuffled heuristics")
    rec.nontrivial = n > 0
    rec.show = how + " = " + show(ans)


def strat(fams):
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, len(fams) - 1), st.lists(b, min_size=24, max_size=24), st.integers(0, len(VARNAMES) - 1), st.integers(0, 9), st.integers(0, len(FNAMES) * 3))


def decoder(fams):
    def decode(raw):
        f, r, v, m, g = raw
        return {"fam": fams[(f + sum(r)) % len(fams)], "raw": r, "var": VARNAMES[v], "swap": v % 2, "bf": m in (7, 8), "order": r[0] * 7 + m if m in (8, 9) else 0, "fam2": FNAMES[g - 1] if 0 < g <= len(FNAMES) and fams[0] != "any" else ""}

    return decode


SUBS = [
    Sub("families", check, lambda: strat(FNAMES), decoder(FNAMES), quick=2000, thorough=16000, cpu=4),
    Sub("any", check, lambda: strat(["any"]), decoder(["any"]), quick=400, thorough=4000, cpu=4),
]


def _trigsub():
    # the antiderivative of 1/(x^2 + 3*x + 2) is not real where the integrand is
    x = E.Symbol("x")
    ans = SI.integrate(1 / (x**2 + 3 * x + 2), x)
    try:
        value(ans, {"x": 1.0}, Real(FloatOps))
        return False
    except Undef:
        return True


KNOWN = {"F-TRIGSUB": _trigsub}
