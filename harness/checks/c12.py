"""C12: definite integrals against numerical quadrature of the formula, and against themselves (swap, additivity, linearity)."""
import math

from hypothesis import strategies as st

from ..engine import Sub
from ..common import *
from ..core import NonFinite
from ..ev import conv_env
from ..integ import ALWAYS, CONSTS, FAMILIES, Integrand, P, Q, X, bounded, check_symbols, mul, plus, times, to_prog, rename, SI

FAMS = sorted(ALWAYS + ["parts_log", "linquad", "ratio", "symconst", "sumprod", "squares", "usub2", "invtrig"])
REAL = {"exp", "log", "parts_exp", "parts_exptrig", "parts_log", "parts_trig", "poly", "polylin", "polyprod", "power", "powerlin", "product_trig", "reclin", "sectan", "sincos", "sinmcosn", "sqrtlin", "trig", "trig2", "usub"}
VARNAMES = ["x", "x", "t", "y", "theta", "u"]

# bounds, as formulas
BOUNDS = [Q(0), Q(1), Q(2), Q(F(1, 2)), Q(F(1, 3)), Q(-1), Q(3), Q(F(-1, 2)), Q(F(5, 4)), Q(-2), Q(5), Q(F(1, 7)),
          ["/", "pi", Q(4)], ["/", "pi", Q(6)], ["/", "pi", Q(3)], ["/", "pi", Q(12)], ["*", Q(F(-1, 4)), "pi"], ["/", "pi", Q(2)], "pi", ["/", "pi", Q(8)],
          ["sqrt", Q(2)], ["/", ["sqrt", Q(2)], Q(2)], ["/", ["sqrt", Q(3)], Q(2)], ["/", Q(1), ["sqrt", Q(3)]], "e", ["log", Q(2)], ["f", 0.3], ["f", 1.25], ["f", -0.7], ["f", 2.5]]
NUM = [float(b[1]) if b[0] == "f" else None for b in BOUNDS]


def bval(b):
    if b[0] == "f":
        return b[1]
    R = Real(FloatOps)
    p = to_prog(b)
    return ref_all(p, Facts(p), R, {}, True)[-1]


VALS = [bval(b) for b in BOUNDS]


def bexpr(b, form):
    """The bound as the user would hand it over."""
    if b[0] == "f":
        return b[1]
    if b[0] == "q":
        v = F(b[1], b[2])
        if form == 0:
            return int(v) if v.denominator == 1 else v
        return E.Rat(v)
    return as_expr(build_all(to_prog(b), E)[-1], E)


GL = None


def gauss(n=10):
    """Nodes and weights on [-1, 1]."""
    global GL
    if GL is None:
        xs = []
        for i in range(n):
            z = math.cos(math.pi * (i + 0.75) / (n + 0.5))
            for _ in range(50):
                p0, p1 = 1.0, z
                for k in range(2, n + 1):
                    p0, p1 = p1, ((2 * k - 1) * z * p1 - (k - 1) * p0) / k
                d = n * (z * p1 - p0) / (z * z - 1)
                z -= p1 / d
            xs.append((z, 2 / ((1 - z * z) * d * d)))
        GL = xs
    return GL


def env_at(it, x):
    return {n: x if k == X else float(CONSTS[k]) for k, n in it.names.items()}


def f_at(it, x, closed=True):
    """Integrand and whether every trigonometric argument is in the first quadrant; None outside the domain."""
    R = Real(FloatOps)
    try:
        vals = it.values(R, env_at(it, x))
    except (Undef, OverflowError, ZeroDivisionError, ValueError):
        return None
    if vals[-1] is None or abs(vals[-1]) > 1e5 or R.scale > 1e7 or not it.quadrant(vals):
        return None
    return vals[-1]


def quad(it, a, b, panels):
    s = 0.0
    h = (b - a) / panels
    for k in range(panels):
        m = a + (k + 0.5) * h
        for z, w in gauss():
            v = f_at(it, m + z * h / 2)
            if v is None:
                return None
            s += w * v * h / 2
    return s


def smooth(it, a, b):
    """Smooth on [a, b], and slightly beyond: numerical value, or None."""
    m = 0.02 * (b - a)
    for x in (a - m, a, (a + b) / 2, b, b + m):
        if f_at(it, x) is None:
            return None
    p = quad(it, a - m, b + m, 3)
    if p is None:
        return None
    p, q = quad(it, a, b, 2), quad(it, a, b, 3)
    if p is None or q is None or abs(p - q) > 1e-9 * (1 + abs(q)):
        return None
    return q


def choose(it, p, want):
    """Increasing bounds (indices) such that the integrand is smooth in between, with the quadratures."""
    order = p.perm(list(range(len(BOUNDS))))
    ok = sorted((i for i in order[:18] if f_at(it, VALS[i]) is not None), key=lambda i: VALS[i])
    ok = [i for k, i in enumerate(ok) if k == 0 or VALS[i] - VALS[ok[k - 1]] > 0.05]
    runs, cur = [], []
    for i in ok:
        if cur:
            q = smooth(it, VALS[cur[-1][0]], VALS[i])
            if q is None:
                runs.append(cur)
                cur = []
                cur = [(i, None)]
            else:
                cur.append((i, q))
        else:
            cur = [(i, None)]
    runs.append(cur)
    runs = [r for r in runs if len(r) >= 2]
    if not runs:
        return None
    r = max(runs, key=len)
    k = min(want, len(r))
    s = p.n(len(r) - k + 1)
    r = r[s : s + k]
    return [i for i, _ in r], [q for _, q in r[1:]]


def solve(case, it, expr, *bounds, steps=14):
    with bounded(steps, case["order"]):
        return SI.integrate(expr, *bounds)


def numeric(ans, it, env, what, strict):
    """The value of an answer; None if it has no real value (allowed only for some families)."""
    R = Real(FloatOps)
    try:
        return value(ans, env, R), R.scale
    except NonFinite as ex:
        raise Violation("%s = %s contains %s" % (what, show(ans), ex))
    except (Undef, OverflowError, ValueError, ZeroDivisionError) as ex:
        if strict and "too large" not in str(ex):
            raise Violation("%s = %s has no value (%s)" % (what, show(ans), ex))
        return None, 0


def compare(ans, it, env, want, what, strict):
    v, sc = numeric(ans, it, env, what, strict)
    if v is None:
        return False
    if abs(v - want) > 1e-7 * (1 + abs(want)) + 1e-10 * sc:
        raise Violation("%s = %s = %r, but the integral is %r" % (what, show(ans), v, want))
    return True


def check(case, rec):
    p = P(case["raw"])
    tree = FAMILIES[case["fam"]](p)
    it = Integrand(tree, case["var"])
    var = case["var"]
    c = choose(it, p, 3 if case["mode"] == "additive" else 2)
    if c is None:
        raise Discard("no interval of smoothness")
    idx, qs = c
    try:
        expr = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    sv = E.Symbol(var)
    names = {ins[1] for ins in it.prog if ins[0] == "sym"}
    strict = case["fam"] in REAL
    rec.label("fam:" + case["fam"], "mode:" + case["mode"])
    mode, form = case["mode"], p.n(2)
    bs = [bexpr(BOUNDS[i], form) for i in idx]
    vs = [VALS[i] for i in idx]
    a, b, q = bs[0], bs[1], qs[0]
    want = q
    what = "integral of %s d%s over [%s, %s]" % (it.text, var, a, b)
    env = env_at(it, 0.0)
    del env[var]
    try:
        if mode == "plain":
            if [s.name for s in expr.symbols()] == [var] and form:
                ans = solve(case, it, expr, (a, b))
            else:
                ans = solve(case, it, expr, (sv, a, b))
        elif mode == "swap":
            ans = solve(case, it, expr, (sv, b, a))
            want = -q
        elif mode == "equal":
            ans = solve(case, it, expr, (sv, b, b))
            want = 0.0
        elif mode == "symbolic":
            # bounds given as symbols (one of them maybe the variable of integration itself), put in afterwards
            lo, hi = E.Symbol("A"), [E.Symbol("B"), sv, E.Symbol("B") ** 2, E.Symbol("B") + 1][form + 2 * p.n(2)]
            env["A"] = vs[0]
            if hi != sv and p.n(2):  # the lower bound mentions the variable of integration
                lo = [sv, sv + 1, 2 * sv][p.n(3)]
                env[var] = {0: vs[0], 1: vs[0] - 1, 2: vs[0] / 2}[0 if lo == sv else 1 if isinstance(lo, E.Sum) else 2]
            if hi == sv:
                env[var] = vs[1]
            elif isinstance(hi, E.Power):
                if vs[1] <= 0:
                    raise Discard("not a square")
                env["B"] = math.sqrt(vs[1])
            else:
                env["B"] = vs[1] - (0 if isinstance(hi, E.Symbol) else 1)
            what = "integral of %s d%s over [%s, %s] at lower = %s, upper = %s" % (it.text, var, lo, hi, vs[0], vs[1])
            ans = solve(case, it, expr, (sv, lo, hi))
        elif mode == "additive":
            if len(bs) < 3:
                raise Discard("only two bounds")
            ans = solve(case, it, expr, (sv, a, bs[2]))
            want = qs[0] + qs[1]
            what = "integral of %s d%s over [%s, %s]" % (it.text, var, a, bs[2])
        else:  # linear combination with another integrand, smooth on the same interval
            t2 = FAMILIES[case["fam2"]](p)
            it2 = Integrand(t2, var)
            q2 = smooth(it2, vs[0], vs[1])
            if q2 is None:
                raise Discard("second integrand not smooth there")
            k, m = p.nz(), p.nz()
            e2 = it2.build()
            strict = strict and case["fam2"] in REAL
            ans = solve(case, it, k * expr + m * e2, (sv, a, b))
            want = float(k) * q + float(m) * q2
            what = "integral of %s*(%s) + %s*(%s) d%s over [%s, %s]" % (k, it.text, m, it2.text, var, a, b)
    except (Violation, Discard):
        raise
    except BuildError:
        raise Discard("construction raises (C01)")
    except Exception as ex:
        raise Violation("%s raised %s: %s" % (what, type(ex).__name__, ex))
    if ans is None:
        raise Discard("not solved")
    if not isinstance(ans, E.Expr):
        raise Violation("%s returned %r" % (what, ans))
    allowed = (names - {var}) | set(env) & {"A", "B", var}
    if mode == "linear":
        allowed |= {ins[1] for ins in it2.prog if ins[0] == "sym"} - {var}
    check_symbols(ans, allowed, what)
    done = compare(ans, it, env, want, what, strict)
    rec.label("compared" if done else "no real value")
    for i in idx[:2]:
        rec.label("bound:" + ("float" if BOUNDS[i][0] == "f" else "rational" if BOUNDS[i][0] == "q" else "closed form"))
    rec.nontrivial = done and abs(want) > 1e-6 or mode == "equal"
    rec.show = what + " = " + show(ans)


MODES = ["plain", "plain", "plain", "symbolic", "symbolic", "swap", "equal", "additive", "linear", "linear"]


def strat():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, len(FAMS) - 1), st.lists(b, min_size=40, max_size=40), st.integers(0, len(VARNAMES) - 1), st.integers(0, len(MODES) - 1), st.integers(0, len(FAMS) - 1))


def decode(raw):
    f, r, v, m, g = raw
    return {"fam": FAMS[(f + sum(r)) % len(FAMS)], "raw": r, "var": VARNAMES[v], "order": r[1] if r[0] % 5 == 0 else 0, "mode": MODES[m], "fam2": FAMS[g]}


SUBS = [Sub("definite", check, strat, decode, quick=3200, cpu=5)]


def _trigsub():
    # 1/(x^2 + 3*x + 2) over [1, 2]: the answer is the difference of two logarithms of non-real numbers
    x = E.Symbol("x")
    ans = SI.integrate(1 / (x**2 + 3 * x + 2), (x, 1, 2))
    try:
        value(ans, {}, Real(FloatOps))
        return False
    except Undef:
        return True


KNOWN = {"F-TRIGSUB": _trigsub}
