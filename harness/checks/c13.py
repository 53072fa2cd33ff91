"""C13: elementary integrals are always solved; integrating anything never raises and stops at its time limit."""
from hypothesis import strategies as st

from ..engine import Sub
from ..common import *
from ..integ import ALWAYS, FAMILIES, FNAMES, Integrand, P, Q, X, atom, bounded, check_antiderivative, check_symbols, h_any, mul, plus, power, times, SI
from .c11 import REAL

VARNAMES = ["x", "x", "t", "y", "theta", "u", "X", "z1"]


# a constant the variable is multiplied with throughout (these families do not depend on its being rational)
SCALES = {
    1: ["*", Q(2), "pi", X],
    2: ["*", ["sqrt", Q(2)], X],
    3: ["*", "a", X],
    4: ["*", "b", "a", X],
    5: ["*", "pi", X],
    6: ["*", Q(F(2, 3)), "a", X],
    7: ["/", X, "b"],
    8: ["*", Q(F(1, 2)), ["sqrt", Q(3)], "pi", X],
}
RATIONAL_ONLY = ("polylin", "recquad", "recsqrt")


def put(t, u):
    """t with u for the variable."""
    if t == X:
        return u
    return t if isinstance(t, str) or t[0] in ("q", "fl") else [t[0]] + [put(v, u) if isinstance(v, (list, str)) else v for v in t[1:]]


def tree_always(case):
    p = P(case["raw"])
    ts = [FAMILIES[f](p) for f in case["fams"]]
    t = plus(p.perm(ts))
    if case.get("scale") in SCALES and not any(f in RATIONAL_ONLY for f in case["fams"]):
        t = put(t, SCALES[case["scale"]])
    c = case["const"]
    if c:
        k = [Q(p.nz()), "a", ["^", "a", 2, 1], ["sin", "a"], "pi", ["sqrt", Q(2)]][c - 1]
        t = mul(p.perm([k, t]))
    return t


def check_always(case, rec):
    it = Integrand(tree_always(case), case["var"])
    try:
        expr = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    how = "integrate(%s, %s)%s" % (it.text, case["var"], " breadth first" if case["bf"] else "")
    b = bounded(60, 0, cpu=8)
    with b:
        if case["call"] == 1 and [s.name for s in expr.symbols()] == [case["var"]]:
            ans = call(how, SI.integrate, expr, breadth_first=bool(case["bf"]))
        else:
            ans = call(how, SI.integrate, expr, E.Symbol(case["var"]), breadth_first=bool(case["bf"]))
    if ans is None:
        if b.clock.out_of_cpu:
            raise Discard("out of CPU time")
        raise Violation("%s is not solved" % how)
    if not isinstance(ans, E.Expr):
        raise Violation("%s returned %r" % (how, ans))
    check_symbols(ans, {"a", "b", case["var"]}, how)
    n, _ = check_antiderivative(it, it.points(1), ans, how, all(f in REAL for f in case["fams"]))
    for f in case["fams"]:
        rec.label("fam:" + f)
    rec.label("terms:%d" % len(case["fams"]), "compared" if n else "solved, no sample point in the domain")
    if case["bf"]:
        rec.label("breadth first")
    if case["const"]:
        rec.label("constant factor")
    if case.get("scale") in SCALES:
        rec.label("scaled variable")
    rec.nontrivial = n > 0
    rec.show = how + " = " + show(ans)


def strat_always():
    b = st.integers(0, 255)
    f = st.integers(0, len(ALWAYS) - 1)
    return st.tuples(st.lists(f, min_size=1, max_size=1) | st.lists(f, min_size=1, max_size=2), st.lists(b, min_size=24, max_size=24), st.integers(0, len(VARNAMES) - 1), st.integers(0, 5), st.integers(0, 9), st.integers(0, 2), st.integers(0, 15))


def decode_always(raw):
    fs, r, v, bf, c, k, sc = raw
    fs = [ALWAYS[(f + sum(r)) % len(ALWAYS)] for f in fs]
    if len(fs) > 1:
        # next to a product of sines and cosines, simplification multiplies out 1/(a*x + b)^n: not promised
        fs = ["power" if f == "powerlin" else f for f in fs]
    return {"fams": fs, "raw": r, "var": VARNAMES[v], "bf": int(bf == 3 and len(fs) == 1), "const": c if c <= 6 else 0, "call": k, "scale": sc}


# ------------------------------------------------------------------ anything at all


def odd(p):
    """Integrands nobody plans for."""
    return p.pick([
        lambda: Q(0), lambda: Q(p.nz()), lambda: "a", lambda: "pi", lambda: ["log", "a"],
        lambda: ["abs", p.pick([X, lin2(p), ["sin", X]])],
        lambda: ["f", p.pick([0.5, 2.5, -1.25]), p.pick([X, ["sin", X], ["exp", X], ["^", X, -1, 1]])],
        lambda: ["pow", X, X], lambda: ["pow", ["sin", X], X], lambda: ["pow", X, ["sin", X]],
        lambda: [p.pick(["sin", "log", "exp", "atan", "sqrt", "tan"]), [p.pick(["sin", "log", "exp", "atan", "sqrt", "cos"]), p.pick([X, ["^", X, 2, 1], lin2(p)])]],
        lambda: ["/", [p.pick(["sin", "log", "exp", "cos", "tan"]), X], X], lambda: ["exp", ["^", X, 2, 1]],
        lambda: ["^", plus([["^", X, p.int(3, 5), 1], Q(p.nz())]), p.pick([-1, 1, 3]), p.pick([1, 2, 3])],
        lambda: ["/", plus([["^", X, p.int(1, 5), 1], Q(p.nz())]), plus([["^", X, p.int(2, 5), 1], times(p.nz(), X), Q(p.any())])],
        lambda: power(plus([["sin", X], ["cos", X]]), p.pick([F(-1), F(1, 2), F(2), F(-2), F(3)])),
        lambda: ["/", Q(1), plus([X, atom(p)])], lambda: ["/", atom(p), plus([atom(p), atom(p), Q(p.nz())])],
        lambda: ["sqrt", ["/", lin2(p), lin2(p)]], lambda: ["pow", "a", ["pow", X, "b"]], lambda: ["/", X, ["pow", X, "a"]],
        lambda: mul([atom(p), atom(p), atom(p), atom(p)]),
        lambda: ["^", mul([X, atom(p)]), p.pick([1, -1, 3]), 2],
    ])()


def lin2(p):
    return ["+", times(p.nz(), X), p.pick(["a", Q(p.nz())])]


def tree_any(case):
    p = P(case["raw"])
    k = case["kind"]
    if k == 0:
        return odd(p)
    if k == 1:
        return plus([odd(p), h_any(p)])
    if k <= 5:
        return h_any(p)
    t = FAMILIES[case["fam"]](p)
    if k == 6:
        return mul([t, atom(p)])
    return t


def has_float(t):
    return isinstance(t, list) and (t[0] == "f" or any(has_float(c) for c in t[1:]))


def strip(t):
    """Floats as multiplications by a float."""
    if not isinstance(t, list) or t[0] in ("q", "fl"):
        return t
    if t[0] == "f":
        return strip(t[2])
    return [t[0]] + [strip(c) for c in t[1:]]


def check_any(case, rec):
    tree = tree_any(case)
    it = Integrand(strip(tree), case["var"])
    try:
        expr = it.build()
        if has_float(tree):
            expr = 2.5 * expr
    except BuildError:
        raise Discard("construction raises (C01)")
    how = "integrate(%s%s, %s)%s" % ("2.5 * " if has_float(tree) else "", it.text, case["var"], (" breadth first" if case["bf"] else "") + (" with heuristics in order %d" % case["order"] if case["order"] else ""))
    b = bounded(8, case["order"], cpu=0.8)
    with b:
        ans = call(how, SI.integrate, expr, E.Symbol(case["var"]), breadth_first=bool(case["bf"]))
    if ans is not None and not isinstance(ans, E.Expr):
        raise Violation("%s returned %r" % (how, ans))
    rec.label("solved" if ans is not None else "not solved", "kind:%d" % case["kind"])
    if ans is not None and not has_float(tree):
        check_symbols(ans, {"a", "b", "c", case["var"]}, how)
        if check_antiderivative(it, it.points(1), ans, how)[0]:
            rec.label("compared")
    rec.nontrivial = ans is not None or b.clock.n >= 3
    rec.show = how + " = " + (show(ans) if ans is not None else "None")


def strat_any():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, 7), st.lists(b, min_size=24, max_size=24), st.integers(0, len(VARNAMES) - 1), st.integers(0, 9), st.integers(0, len(FNAMES) - 1))


def decode_any(raw):
    k, r, v, m, f = raw
    return {"kind": k, "raw": r, "var": VARNAMES[v], "bf": int(m in (7, 8)), "order": r[0] * 7 + m if m in (8, 9) else 0, "fam": FNAMES[(f + sum(r)) % len(FNAMES)]}


SUBS = [
    Sub("always", check_always, strat_always, decode_always, quick=1600, thorough=12000, cpu=12),
    Sub("never raises", check_any, strat_any, decode_any, quick=1200, thorough=9000, cpu=5),
]
