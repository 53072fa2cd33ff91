"""C21: the rewriters offered on their own apply their identity exactly."""
import sys

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import OPS_ALL, P_ALL, decoder
from .c05 import json_like
from .c07 import FNS, IDENT, P_LOG, P_TRIG, PB, SM, dec_sum, log_sum, plant, run_value, strat_log, strat_sum, trig_sum

PTS = sys.modules["simpy.simplify.product_to_sum"]


def fn_of(name):
    """The public rewriter, or a discard if the library no longer offers it."""
    for m in (SM, PTS):
        f = getattr(m, name, None)
        if f is not None:
            return f
    raise Discard("not offered")


# ---------------------------------------------------------------- values


def on_terms(f):
    return lambda e: f(e)


NAMES = ("pythagorean_simplification", "reciprocate_trigs", "expand_logs", "trig_simplify", "product_to_sum", "sectan", "rewrite_as_one_fraction", "product_to_sum_unit")


def apply(name):
    f = fn_of(name)
    if name == "trig_simplify":

        def g(e):
            r = f(e)
            return r[0] if isinstance(r, tuple) else r

        return g
    if name in ("product_to_sum", "sectan"):  # documented to be called on expressions that have trigonometric functions

        def g(e):
            if not e.has(SM.TrigFunctionNotInverse):
                raise Discard("no trigonometric function")
            return f(e)

        return g
    return f


def check_value(case, rec):
    which, kind, c = case
    name = NAMES[which % len(NAMES)]
    if kind == "trig":
        prog = trig_sum(c)
    elif kind == "log":
        prog = log_sum(c)
    else:
        prog = c
    run_value(prog, rec, apply(name), name, twice=name not in ("product_to_sum_unit",))
    rec.labels = ["%s:%s" % (name, l) for l in rec.labels if l in ("changed", "unchanged", "None")]


def strat_value():
    w = st.integers(0, 7)
    i = st.integers(0, 15)
    pl = lambda *ks: st.tuples(
        st.lists(st.tuples(st.sampled_from([IDENT.index(k) for k in ks]), i, i, st.integers(0, 255), st.integers(0, 17), i), min_size=1, max_size=3),
        st.lists(st.tuples(st.integers(0, 17), i), max_size=2), st.just(0), st.integers(0, 9))
    return st.one_of(
        st.tuples(st.just(4), st.just("trig"), pl("double", "addn", "prods", "sinp")),
        st.tuples(st.just(5), st.just("trig"), pl("sectan", "tan1", "sec1")),
        st.tuples(st.just(0), st.just("trig"), pl("pyth", "mixed", "sin1", "tan1")),
        st.tuples(w, st.just("trig"), strat_sum()),
        st.tuples(st.just(2), st.just("log"), strat_log()),
        st.tuples(st.integers(0, 6), st.just("prog"), P_TRIG.strategy()),
        st.tuples(st.sampled_from([2, 6]), st.just("prog"), P_LOG.strategy()),
    )


D_TRIG, D_LOG = decoder(P_TRIG), decoder(P_LOG)


def dec_value(raw):
    w, kind, c = raw
    if kind == "prog":
        p = (D_LOG if w == 2 else D_TRIG)(c)
        return None if p is None else [w, kind, p]
    return [w, kind, json_like(c)]


def show_value(case):
    w, kind, c = case
    return "%s(%s)" % (NAMES[w], text(trig_sum(c) if kind == "trig" else log_sum(c) if kind == "log" else c))


# ---------------------------------------------------------------- documented effect

# factors that are a single unit (not numeric); 0 = no factor
UNIT = (0, 3, 9, 12)
FORM = {
    "pyth": lambda A: E.Rat(1),
    "tan1": lambda A: E.sec(A) ** 2,
    "cot1": lambda A: E.csc(A) ** 2,
    "sec1": lambda A: E.tan(A) ** 2,
    "csc1": lambda A: E.cot(A) ** 2,
    "sin1": lambda A: E.cos(A) ** 2,
    "cos1": lambda A: E.sin(A) ** 2,
}
KINDS = sorted(FORM)


def b_expr(b, k):
    return E.Rat(1) if k is None else as_expr(build_all(prune(b.p, k), E)[-1], E)


def pyth_case(case):
    kind = KINDS[case[0] % len(KINDS)]
    a, f, fj, rest, order = case[1:]
    b = PB()
    if kind == "pyth":
        f = f % 17
    elif kind in ("tan1", "cot1"):
        f = (0, 1, 3, 5, 9, 12)[f % 6]
    elif kind in ("sin1", "cos1"):
        f = (0, 2, 3, 9, 12)[f % 5]
    else:
        f = UNIT[f % len(UNIT)]
    ts = plant(b, kind, a, 0, 0, b.fac(f, fj))
    F_ = b_expr(b, b.fac(f, fj))
    A = b_expr(b, b.angle(a))
    names = []
    for r in rest:
        k = [lambda: b.add("lin", [1, 1], "y"), lambda: b.add("mul", b.i["y"], b.i["z"]), lambda: b.add("sqrt", b.i["y"]), lambda: b.add("log", b.i["z"]), lambda: b.add("lin", [-5, 7], "z"), lambda: b.add("exp", b.i["y"])][r % 6]()
        if k not in names:
            names.append(k)
    full = ts + names
    full = full[order % len(full):] + full[: order % len(full)]
    prog = prune(b.p, b.sum(full))
    wants = []
    for u in (A, -A):  # the function's parity may have been used on the argument
        want = F_ * FORM[kind](u)
        for k in names:
            want = want + b_expr(b, k)
        wants.append(want)
    return kind, prog, wants, F_, A, len(names)


def trig_of(e, angles):
    return isinstance(e, E.TrigFunction) and e.inner in angles or any(trig_of(c, angles) for c in e.children())


def check_pyth(case, rec):
    f = fn_of("pythagorean_simplification")
    kind, prog, wants, F_, A, nrest = pyth_case(case)
    e = as_expr(build_all(prog, E)[-1], E)
    if not isinstance(e, E.Sum) or len(e.terms) != nrest + 2 or trig_of(F_, (A, -A)):
        raise Discard("terms merged")
    if not A.symbols():
        raise Discard("constant angle")
    if kind == "pyth" and F_.has(E.TrigFunction):
        # the factor's own square may be another instance; only the value is claimed there
        r = call("pythagorean_simplification(%s)" % show(e), f, e)
        if isinstance(r, E.Sum) and len(r.terms) >= len(e.terms):
            raise Violation("pythagorean_simplification left sin^2 + cos^2 in %s" % show(e))
    else:
        r = call("pythagorean_simplification(%s)" % show(e), f, e)
        if snapshot(r) not in [snapshot(w) for w in wants]:
            raise Violation("pythagorean_simplification(%s) is %s, not %s" % (show(e), show(r), show(wants[0])))
    rec.label("kind:" + kind, "surrounding:%d" % nrest)
    rec.nontrivial = True
    rec.show = show(e)


def strat_pyth():
    i = st.integers(0, 12)
    return st.tuples(st.integers(0, 6), i, st.integers(0, 29), i, st.lists(st.integers(0, 5), max_size=3), st.integers(0, 4))


ATOMS = [
    lambda: E.Symbol("x"),
    lambda: E.Symbol("y"),
    lambda: E.Symbol("x") + 1,
    lambda: E.sin(E.Symbol("x")),
    lambda: abs(E.Symbol("z")),
    lambda: E.pi,
    lambda: E.Rat(2),
    lambda: E.Rat(3, 7),
    lambda: E.Symbol("y") ** 2 + E.Symbol("z"),
    lambda: E.log(E.Symbol("y")),
]


def check_logeffect(case, rec):
    """log of a product of powers is exactly the sum of exponent * log(factor), in the given base."""
    f = fn_of("expand_logs")
    fs, base = case
    d = {}
    for a, k in fs:
        d.setdefault(a % len(ATOMS), [F(1), F(2), F(-1), F(1, 2), F(3), F(-3, 2), F(5)][k % 7])
    d = {a: F(1) if a in (2, 8) else q for a, q in d.items()}  # (powers of sums inside logarithms are multiplied out instead)
    base = [None, E.Rat(2), E.Rat(10), E.Symbol("b"), E.Rat(1, 2)][base % 5]
    L = (lambda u: E.log(u)) if base is None else (lambda u: E.log(u, base))
    arg = E.Prod([ATOMS[a]() ** E.Rat(q) for a, q in d.items()])
    if 6 in d and d[6].denominator != 1 or 7 in d or 6 in d and isinstance(arg, E.Rat):
        raise Discard("numeric factors merge")
    e = call("log", L, arg)
    want = E.Sum([E.Rat(q) * L(ATOMS[a]()) for a, q in d.items() if a != 6] + ([L(E.Rat(2) ** E.Rat(d[6]))] if 6 in d else []))
    if want.expandable():
        want = want.expand()
    r = e
    for _ in range(4):  # one pass opens one level (the product, then the powers)
        r = call("expand_logs(%s)" % show(r), f, r)
    if snapshot(r) != snapshot(want):
        raise Violation("expand_logs(%s) is %s, not %s" % (show(e), show(r), show(want)))
    # inside other functions as well
    r2 = call("expand_logs(sin(%s))" % show(e), f, E.sin(e) * E.Symbol("z"))
    w2 = E.sin(want if not want.expandable() else want.expand()) * E.Symbol("z")
    for pt in POINTS[:3]:
        p = dict(pt, b=F(7, 2))
        agree(lambda R, env: value(w2, env, R), r2, p, "expand_logs(%s)" % show(E.sin(e)))
    rec.nontrivial = len(d) > 1
    rec.show = show(e)


def strat_logeffect():
    return st.tuples(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 6)), min_size=1, max_size=4), st.integers(0, 4))


def negative_trig_power(e):
    if isinstance(e, E.Power) and isinstance(e.base, E.TrigFunction) and not e.base.is_inverse and isinstance(e.exponent, E.Rat) and e.exponent.value < 0:
        return True
    return any(negative_trig_power(c) for c in e.children())


def check_recip(case, rec):
    """Afterwards no trigonometric function stands in a denominator."""
    f = fn_of("reciprocate_trigs")
    terms, wrap = case
    b = PB()
    ts = []
    for fs, fk in terms:
        ts.append(b.prod([b.fac((0, 1, 3, 4, 5, 10, 11, 12, 17)[fk % 9])] + [b.pw(b.add(FNS[n % 6], b.angle(a)), [-1, -2, 1, -3, 2, F(-1, 2)][k % 6]) for n, a, k in fs]))
    s = b.sum(ts)
    s = [s, b.pw(s, 2), b.add("exp", s), b.add("atan", s), b.add("mul", s, b.i["x"])][wrap % 5]
    prog = prune(b.p, s)
    e, r = run_value(prog, rec, f, "reciprocate_trigs", twice=False)
    if negative_trig_power(r):
        raise Violation("reciprocate_trigs(%s) still divides by a trigonometric function: %s" % (show(e), show(r)))


def strat_recip():
    f = st.tuples(st.integers(0, 5), st.integers(0, 12), st.integers(0, 5))
    return st.tuples(st.lists(st.tuples(st.lists(f, min_size=1, max_size=3), st.integers(0, 8)), min_size=1, max_size=3), st.integers(0, 4))


def trig_degree(t):
    """How many sine/cosine factors a term has, with multiplicity (None: something else is in the way)."""
    fs = t.terms if isinstance(t, E.Prod) else [t]
    n = 0
    for f in fs:
        if isinstance(f, (E.sin, E.cos)):
            n += 1
        elif isinstance(f, E.Power) and isinstance(f.base, (E.sin, E.cos)) and isinstance(f.exponent, E.Rat):
            n += f.exponent.value
    return n


def check_pts(case, rec):
    """product_to_sum_unit on products of sines and cosines: value, and linear in them for two factors or one power."""
    f = fn_of("product_to_sum_unit")
    fs, k = case
    b = PB()
    d = {}
    for n, a, p in fs:
        d.setdefault((n % 2, a), 1 + p % 12)
    prog = prune(b.p, b.prod([b.fac((0, 1, 2, 4, 5)[k % 5] if (0, 1, 2, 4, 5)[k % 5] != 4 else 1)] + [b.pw(b.add("sin" if n else "cos", b.angle(a)), p) for (n, a), p in d.items()]))
    e, r = run_value(prog, rec, f, "product_to_sum_unit", twice=False)
    deg = sum(d.values())
    if all(len(build_fn(b, n, a)) for n, a in d):
        plain = len(d) == 1 and deg > 1 or len(d) == 2 and deg == 2
        if plain:
            if r is None:
                raise Violation("product_to_sum_unit(%s) finds nothing to rewrite" % show(e))
            for t in r.terms if isinstance(r, E.Sum) else [r]:
                if trig_degree(t) > 1:
                    raise Violation("product_to_sum_unit(%s) leaves a product: %s" % (show(e), show(r)))
        elif r is None and len(d) > 1:
            raise Violation("product_to_sum_unit(%s) finds nothing to rewrite" % show(e))
    rec.label("factors:%d" % len(d), "degree:%d" % deg)


def build_fn(b, n, a):
    """Symbols of the factor (constant angles have exact values and are not claimed to be rewritten)."""
    u = b_expr(b, b.angle(a))
    v = (E.sin if n else E.cos)(u)
    return v.symbols() if isinstance(v, (E.sin, E.cos)) else ()


def strat_pts():
    return st.tuples(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 12), st.integers(0, 3)), min_size=1, max_size=3), st.integers(0, 4))


def all_pts(tier):
    top = 5 if tier == "quick" else 8
    for n in (0, 1):
        for m in (0, 1):
            for a in (0, 1, 2, 3):
                for a2 in (0, 1, 2, 4):
                    for p in range(4):
                        for q in range(4 if tier != "quick" else 3):
                            yield [[[n, a, p], [m, a2, q]], (n + p) % 5]


def all_pts_powers(tier):
    for n in (0, 1):
        for a in (0, 2, 6) if tier == "quick" else range(13):
            for p in range(1, 12):
                yield [[[n, a, p]], (n + p) % 5]


def has_den(t):
    """The term has a denominator with symbols in it."""
    fs = t.terms if isinstance(t, E.Prod) else [t]
    return any(isinstance(f, E.Power) and isinstance(f.exponent, E.Rat) and f.exponent.value < 0 and f.base.symbols() for f in fs)


def check_fraction(case, rec):
    """Terms with denominators over symbols are put over one common denominator."""
    f = fn_of("rewrite_as_one_fraction")
    terms, o = case
    x, y, z = (E.Symbol(s) for s in "xyz")
    dens = [x, y, x + 1, E.sin(x), y ** 2, x * y, E.cos(y), z ** 3, x ** 2, E.Rat(2), E.Rat(3), x + y]
    nums = [E.Rat(1), x, y, E.sin(x), z, E.Rat(-2), E.Rat(3, 4), E.cos(y) ** 2]
    ts = []
    for n, ds in terms:
        t = nums[n % len(nums)]
        for d in ds:
            t = t / dens[d % len(dens)]
        ts.append(t)
    e = E.Sum(ts)
    if not isinstance(e, E.Sum):
        raise Discard("one term")
    for const in (True, False):
        r = call("rewrite_as_one_fraction(%s)" % show(e), f, e, include_const_denoms=const)
        dn = any(has_den(t) for t in e.terms)
        if r is None:
            if dn:
                raise Violation("rewrite_as_one_fraction(%s) left it unchanged" % show(e))
            rec.label("None")
            continue
        n = 0
        for pt in POINTS:
            n += agree(lambda R, env: value(e, env, R), r, pt, "rewrite_as_one_fraction of %s" % show(e))
        for t in r.terms if isinstance(r, E.Prod) else [r]:
            if isinstance(t, E.Sum) and any(has_den(u) for u in t.terms):
                raise Violation("rewrite_as_one_fraction(%s) is %s, still a sum of fractions" % (show(e), show(r)))
        rec.nontrivial = n > 0 and dn
    rec.show = show(e)


def strat_fraction():
    return st.tuples(st.lists(st.tuples(st.integers(0, 7), st.lists(st.integers(0, 11), max_size=2)), min_size=2, max_size=4), st.integers(0, 1))


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def check_sectan(case, rec):
    """c*sec^2n - c*(terms of (1+tan^2)^n): rewriting the secants cancels them."""
    f = fn_of("sectan")
    a, n, ck, drop, rest, order = case
    n = 1 + n % 4
    b = PB()
    A = b_expr(b, b.angle(a % 13))
    x, y, z = (E.Symbol(s) for s in "xyz")
    c = [E.Rat(1), E.Rat(3), E.Rat(-1), E.Rat(-2, 3), E.Rat(5)][ck % 5]
    ts = [c * E.sec(A) ** (2 * n)]
    kept = []
    for k in range(1, n + 1):
        if drop >> k & 1:
            kept.append(c * binom(n, k) * E.tan(A) ** (2 * k))
        else:
            ts.append(-c * binom(n, k) * E.tan(A) ** (2 * k))
    others = []
    for q in rest:
        o = [y * z, E.sqrt(y), E.log(z), E.Rat(7), E.sin(x), z, E.tan(y), E.sec(x + z)][q % 8]
        if not any(o == p for p in others):
            others.append(o)
    ts += others
    ts = ts[order % len(ts):] + ts[: order % len(ts)]
    e = E.Sum(ts)
    want = E.Sum([c] + kept + others)
    if not isinstance(e, E.Sum) or len(e.terms) != len(ts):
        raise Discard("terms merged")
    r = call("sectan(%s)" % show(e), f, e)
    nw = len(want.terms) if isinstance(want, E.Sum) else 1
    if r is not None:
        for pt in POINTS:
            agree(lambda R, env: value(e, env, R), r, pt, "sectan(%s)" % show(e))
        if snapshot(r) != snapshot(want) and not any(isinstance(o, (E.sec, E.tan)) for o in others):
            raise Violation("sectan(%s) is %s, not %s" % (show(e), show(r), show(want)))
    elif nw < len(e.terms) and len(ts) - len(others) > 1:
        raise Violation("sectan(%s) does not cancel the terms (leaving %s)" % (show(e), show(want)))
    s = call("simplify(%s)" % show(e), SM.simplify, e)
    for pt in POINTS[:4]:
        agree(lambda R, env: value(e, env, R), s, pt, "simplify(%s)" % show(e))
    rec.label("None" if r is None else "rewritten")
    rec.nontrivial = r is not None
    rec.show = show(e)


def strat_sectan():
    s = st.integers(0, 15)
    return st.tuples(s, st.integers(0, 3), st.integers(0, 4), st.integers(0, 31), st.lists(st.integers(0, 7), max_size=3), st.integers(0, 5))


def check_ptssum(case, rec):
    """A product of two sines/cosines next to the negatives of its product-to-sum terms cancels."""
    f = fn_of("product_to_sum")
    n1, a1, n2, a2, ck, keep, rest, order = case
    b = PB()
    A, B = b_expr(b, b.angle(a1 % 9)), b_expr(b, b.angle(a2 % 9))
    x, y, z = (E.Symbol(s) for s in "xyz")
    c = [E.Rat(1), E.Rat(3), E.Rat(-1), E.Rat(-2, 3), E.Rat(2)][ck % 5]
    P, Q = (E.sin if n1 else E.cos)(A), (E.sin if n2 else E.cos)(B)
    h = c / 2
    if n1 and n2:
        two = [h * E.cos(A - B), -h * E.cos(A + B)]
    elif n1:
        two = [h * E.sin(A + B), h * E.sin(A - B)]
    elif n2:
        two = [h * E.sin(A + B), -h * E.sin(A - B)]
    else:
        two = [h * E.cos(A + B), h * E.cos(A - B)]
    ts = [c * P * Q]
    kept = []
    for j, t in enumerate(two):
        if keep >> j & 1:
            kept.append(t)
        else:
            ts.append(-t)
    others = []
    for q in rest:
        o = [y * z, E.sqrt(y), E.log(z), E.Rat(7), E.tan(x), z][q % 6]
        if not any(o == p for p in others):
            others.append(o)
    ts += others
    ts = ts[order % len(ts):] + ts[: order % len(ts)]
    e = E.Sum(ts)
    want = E.Sum(kept + others) if kept or others else E.Rat(0)
    if not isinstance(e, E.Sum) or len(e.terms) != len(ts) or any(not (t.symbols() and t.has(E.TrigFunction)) for t in two):
        raise Discard("terms merged")
    r = call("product_to_sum(%s)" % show(e), f, e)
    nw = len(want.terms) if isinstance(want, E.Sum) else 1
    if r is not None:
        for pt in POINTS:
            agree(lambda R, env: value(e, env, R), r, pt, "product_to_sum(%s)" % show(e))
    elif nw < len(e.terms) and snapshot(E.cos(A - B)) == snapshot(E.cos(B - A)):  # (else either spelling may be used)
        raise Violation("product_to_sum(%s) does not cancel the terms (leaving %s)" % (show(e), show(want)))
    rec.label("None" if r is None else "rewritten")
    rec.nontrivial = r is not None
    rec.show = show(e)


def strat_ptssum():
    s = st.integers(0, 12)
    i = st.integers(0, 1)
    return st.tuples(i, s, i, s, st.integers(0, 4), st.integers(0, 3), st.lists(st.integers(0, 5), max_size=2), st.integers(0, 5))


SUBS = [
    Sub("sectan_effect", check_sectan, strat_sectan, json_like, quick=800),
    Sub("product_to_sum_cancel", check_ptssum, strat_ptssum, json_like, quick=1200),
    Sub("pythagorean_effect", check_pyth, strat_pyth, json_like, quick=2500),
    Sub("log_effect", check_logeffect, strat_logeffect, json_like, quick=2500),
    Sub("reciprocal_effect", check_recip, strat_recip, json_like, quick=1500),
    Sub("product_to_sum_pairs", check_pts, cases=all_pts),
    Sub("product_to_sum_powers", check_pts, cases=all_pts_powers),
    Sub("product_to_sum", check_pts, strat_pts, json_like, quick=900),
    Sub("one_fraction", check_fraction, strat_fraction, json_like, quick=1500),
    Sub("value", check_value, strat_value, dec_value, quick=2400, show=show_value),
]
