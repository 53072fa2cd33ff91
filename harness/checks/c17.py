"""C17: reported matches rebuild the expression, and patterns are found in the basic shapes."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import OPS_ALL
from .c22 import hval, kids, nodes

import simpy.regex as RX

OPS = {k: v for k, v in OPS_ALL.items() if k not in ("asin", "acos", "atan", "absroot", "rat", "int", "frac", "abs", "pow", "exp", "logb", "Sum", "Prod", "lin", "sym")}
OPS.update(sin=8, cos=8, tan=5, sec=3, csc=2, log=3, powr=18, add=22, sub=12, mul=22, sym=12, rat=6, exp=2, abs=1, neg=3, lin=6)
P = Profile(OPS, syms=("p", "x"), maxlen=9, minlen=1, maxsize=24)
P2 = Profile(dict(OPS, sym=16), syms=("p", "q", "x"), maxlen=9, minlen=2, maxsize=24)

KEYS = [None, "x", "k", "factor_1", "rest", "a b"]


def pieces():
    x, y, z = E.Symbol("x"), E.Symbol("y"), E.Symbol("z")
    return [
        lambda: x,
        lambda: y,
        lambda: 2 * x,
        lambda: x + y,
        lambda: E.sin(y),
        lambda: x**2,
        lambda: E.Rat(3),
        lambda: x * y,
        lambda: E.log(z),
        lambda: E.pi * x,
        lambda: x - 3,
        lambda: E.Rat(2, 3),
        lambda: y**-1,
        lambda: E.e**x,
        lambda: E.sqrt(z),
        lambda: -y,
        lambda: 3 * x + 2 * y,
        lambda: E.sin(x) ** 2,
        lambda: E.pi,
        lambda: E.Rat(1),
        lambda: E.Rat(0),
        lambda: (x + 1) ** 2,
        lambda: x / y,
        lambda: E.cos(2 * x + 1),
    ]


PIECES = pieces()
PUBLIC_ERRORS = (NotImplementedError,)


def build_with(prog, over):
    """The formula with some symbols replaced by given objects from the start."""
    out = []
    for ins in prog:
        if ins[0] == "sym" and ins[1] in over:
            out.append(over[ins[1]])
        elif ins[0] == "lin" and ins[2] in over:
            out.append(F(*ins[1]) * over[ins[2]])
        else:
            out.append(build_step(ins, out, E))
    return as_expr(out[-1], E)


def wild(e):
    return {n.key for n in nodes(e) if type(n) is RX.Any_}


def infinite(e):
    return any(type(n) in (E.Infinity, E.NegInfinity, E.NaN) for n in nodes(e))


def unreal(e):
    """A root of a negative number."""
    return any(type(n) is E.Power and type(n.base) is E.Rat and n.base.value < 0 for n in nodes(e))


def canon(res):
    """A result as plain data."""
    if not res.get("success"):
        return ("no",)
    m = res["matches"]
    m = ("one", snapshot(m)) if isinstance(m, E.Expr) else tuple(sorted((k, snapshot(v)) for k, v in m.items()))
    return ("yes", m, snapshot(res["factor"]) if "factor" in res else None, snapshot(res["rest"]) if "rest" in res else None)


def run_eq(e, q, kw):
    what = "eq(%s, %s%s)" % (show(e), show(q), "".join(", %s=True" % k for k in sorted(kw)))
    try:
        r = call(what, RX.eq, e, q, allow=PUBLIC_ERRORS, **kw)
    except NotImplementedError:
        return what, None
    if not isinstance(r, dict) or type(r.get("success")) is not bool:
        raise Violation("%s returns %r" % (what, r))
    return what, r


def sound(e, q, kw, rec):
    """Runs eq and, if it succeeds, checks what it reports.  Returns the result (None: not supported)."""
    se, sq = snapshot_any(e), snapshot_any(q)
    what, r = run_eq(e, q, kw)
    if snapshot_any(e) != se or snapshot_any(q) != sq:
        raise Violation("%s changed its arguments" % what)
    if r is None:
        rec.label("not supported")
        return None
    names = wild(q)
    if names:  # the two arguments may be given in either order, and again
        for a, b in ((q, e), (e, q)):
            w2, r2 = run_eq(a, b, kw)
            if r2 is None:  # (ambiguous patterns are refused, possibly only after looking at some terms)
                raise Discard("ambiguous")
            if canon(r2) != canon(r):
                raise Violation("%s gives %s but %s gives %s" % (what, canon(r), w2, None if r2 is None else canon(r2)))
    if not r["success"]:
        rec.label("no match")
        return r
    rec.label("match")
    m = r["matches"]
    if isinstance(m, E.Expr):
        if len(names) == 2 and "up_to_factor" in kw:
            raise Discard("a wildcard cancels when the pattern is multiplied out")
        if len(names) != 1:
            raise Violation("%s reports a single piece for the wildcards %s" % (what, sorted(names)))
        m = {next(iter(names)): m}
    if "up_to_factor" in kw and set(m) < names:  # multiplying the pattern out cancelled a wildcard: anything will do
        m = dict({k: E.Symbol("z") for k in names}, **m)
    if set(m) != names:
        raise Violation("%s reports pieces for %s instead of %s" % (what, sorted(m), sorted(names)))
    for k, v in m.items():
        if not isinstance(v, E.Expr) or wild(v):
            raise Violation("%s reports %r for %s" % (what, v, k))
    parts = {}
    for key, flag in (("factor", "up_to_factor"), ("rest", "up_to_sum")):
        if flag in kw:
            if key not in r or not isinstance(r[key], E.Expr) or wild(r[key]):
                raise Violation("%s reports %s %r" % (what, key, r.get(key)))
            parts[key] = r[key]
    if any(infinite(v) for v in list(m.values()) + list(parts.values()) + [e, q]):
        raise Discard("infinite")
    hook = lambda n: ("expr", m[n.key]) if type(n) is RX.Any_ else None

    def ref(R, env):
        v = hval(q, hook, env, R)
        if "factor" in parts:
            v = R.chk(v * value(parts["factor"], env, R))
        if "rest" in parts:
            v = R.chk(v + value(parts["rest"], env, R))
        return v

    n = 0
    reported = "pieces %s%s" % ({k: show(v) for k, v in sorted(m.items())}, "".join(", %s %s" % (k, show(v)) for k, v in parts.items()))
    try:
        for pt in POINTS:
            n += agree(ref, e, pt, "%s reports a match with %s, filled back in" % (what, reported))
    except Violation:
        if "factor" in parts and type(q) is not E.Sum and f_eqfactor(e, q, hook, parts, names):
            rec.label("F-EQFACTOR")
            return r
        raise
    if n:
        rec.label("filled back")
    rec.nontrivial = n >= 2 and bool(names)
    return r


def f_eqfactor(e, q, hook, parts, names):
    """The recorded finding: a query that is one term, whose own constant the expression does not have, reports that
    constant as the factor instead of its inverse."""
    f = parts["factor"]
    if "rest" in parts or any(type(n) is E.Symbol for n in nodes(f)):
        return False
    own = [snapshot(t) for v in (q, q.expand() if q.expandable() else q) for t in (v.terms if type(v) is E.Prod else [v]) if not any(type(n) in (E.Symbol, RX.Any_) for n in nodes(t))]
    if not all(snapshot(t) in own for t in (f.terms if type(f) is E.Prod else [f])):
        return False
    try:
        for pt in POINTS:
            agree(lambda R, env: R.chk(hval(q, hook, env, R) * R.inv(value(f, env, R))), e, pt, "")
    except Violation:
        return False
    return True


def snapshot_any(e):
    return snapshot(e)


def flags(k):
    kw = {}
    if k & 1:
        kw["up_to_factor"] = True
    if k & 2:
        kw["up_to_sum"] = True
    return kw


def make(prog, case, names):
    anys = {}
    over = {}
    for i, s in enumerate(names):
        k = KEYS[(case["key"] + i) % len(KEYS)]
        anys[s] = RX.any_ if k is None else RX.Any_(k)
        over[s] = PIECES[case["piece"][i] % len(PIECES)]()
    try:
        q = build_with(prog, anys)
        t = build_with(prog, over)
    except Discard:
        raise
    except Exception:
        raise Discard("the pattern cannot be built")
    if infinite(q) or infinite(t) or unreal(q) or unreal(t):
        raise Discard("infinite")
    return q, t, anys, over


def check_filled(case, rec):
    prog = case["prog"]
    names = [s for s in ("p", "q") if any(s in ins for ins in prog if ins[0] in ("sym", "lin"))]
    if not names:
        raise Discard("no wildcard")
    q, t, anys, over = make(prog, case, names)
    mode = case["mode"] % 8
    e = t
    k = [E.Rat(1), E.Rat(2), E.Rat(-1), E.Rat(-3), E.Rat(1, 2), E.Symbol("y"), E.sin(E.Symbol("z")), E.pi][case["k"] % 8]
    if mode in (1, 3, 5):
        e = k * t
        if e.expandable():
            e = e.expand()
    if mode in (2, 3, 6):
        e = e + PIECES[case["rest"] % len(PIECES)]() * [1, 5][case["k"] // 8 % 2]
    if infinite(e):
        raise Discard("infinite")
    rec.show = "%s with pieces %s" % (show(q), [show(v) for v in over.values()])
    kw = flags(mode)
    if (type(q) is not E.Sum or type(e) is not E.Sum) and case["key"] % 8:
        kw.pop("up_to_sum", None)
    sound(e, q, kw, rec)


def check_other(case, rec):
    """Pattern and expression made independently (from the same few ingredients)."""
    names = ["p", "q"]
    q, _, anys, over = make(case["prog"], case, names)
    if not wild(q):
        raise Discard("no wildcard")
    try:
        e = build_with(case["prog2"], dict(over))
    except Discard:
        raise
    except Exception:
        raise Discard("cannot be built")
    if infinite(e) or unreal(e) or unreal(q):
        raise Discard("infinite")
    rec.show = "%s against %s" % (show(e), show(q))
    kw = flags(case["mode"])
    if (type(q) is not E.Sum or type(e) is not E.Sum) and case["key"] % 8:
        kw.pop("up_to_sum", None)
    sound(e, q, kw, rec)


TERMS = [
    lambda u: E.Rat(1),
    lambda u: E.sin(u) ** 2,
    lambda u: E.cos(u) ** 2,
    lambda u: E.tan(u) ** 2,
    lambda u: E.sec(u),
    lambda u: E.log(u),
    lambda u: u**2,
    lambda u: E.sin(u),
    lambda u: E.e**u,
    lambda u: E.sin(u) * E.cos(u),
    lambda u: u,
    lambda u: E.Symbol("x"),
    lambda u: E.Symbol("y") * E.sin(u),
    lambda u: u**-1,
    lambda u: E.cot(u) ** 2,
]
COEF = [1, -1, 2, 3, -2, F(1, 2), 5]


def check_sums(case, rec):
    """Sums of terms in wildcards, the same terms with pieces, a common factor, extra terms, in any order."""
    a, b = RX.any_, RX.Any_("b")
    us = [PIECES[i % len(PIECES)]() for i in case["piece"]]
    try:
        qt, et = [], []
        for t, c, w, dev in case["terms"]:
            f = TERMS[t % len(TERMS)]
            qt.append(COEF[c % len(COEF)] * f(b if w % 4 == 0 else a))
            et.append(COEF[(c + (dev == 7)) % len(COEF)] * f(us[(w % 4 == 0) != (dev == 6)]))
        k = COEF[case["k"] % len(COEF)] * (E.Symbol("y") if case["k"] > 40 else 1)
        q = E.Sum(qt)
        et = [k * v for v in et]
        if case["mode"] & 2:
            et += [COEF[r % 7] * PIECES[r % len(PIECES)]() for r in case["rest"]]
        e = E.Sum(et)
    except Exception:
        raise Discard("cannot be built")
    if infinite(e) or infinite(q) or not wild(q):
        raise Discard("domain")
    rec.show = "%s against %s" % (show(e), show(q))
    sound(e, q, flags(case["mode"]), rec)


# ------------------------------------------------------------------ shapes that must be found

FNS = [E.sin, E.cos, E.tan, E.sec, E.csc, E.cot, E.asin, E.acos, E.atan, E.log]


def same_expr(got, want, what):
    if not isinstance(got, E.Expr) or snapshot(got) != snapshot(want):
        raise Violation("%s reports the piece %s instead of %s" % (what, show(got), show(want)))


def fn_shape(u, k, n):
    f = FNS[k % len(FNS)]
    e = f(u)
    return e, f(RX.any_), type(e) is f and (f is not E.log or type(e.base) is E.E), (lambda: e.inner)


def power_shape(u, k, n):
    n = [2, 3, -1, F(1, 2), 5, F(-1, 2), -2, F(3, 2)][n % 8]
    e = u**n
    return e, RX.any_**n, type(e) is E.Power and type(e.base) not in (E.Prod, E.Power, E.Rat) and snapshot(e.exponent) == snapshot(E.Rat(F(n))), (lambda: e.base)


def exp_shape(u, k, n):
    b = [E.e, E.Rat(2), E.Rat(3), E.Symbol("x"), E.pi, E.Rat(1, 2)][n % 6]
    e = b**u
    ok = type(e) is E.Power and snapshot(e.base) == snapshot(b) and type(e.exponent) is not E.Rat
    q = b**RX.any_
    return e, q, ok and type(q) is E.Power and snapshot(q.base) == snapshot(b), (lambda: e.exponent)


def multiple_shape(u, k, n):
    c = E.Rat([2, -1, 3, 5, -7, 4][n % 6]) if n % 2 else E.Rat(F([1, 2, -3, 5][n % 4], 3))
    e = c * u
    ok = type(e) is E.Prod and len(e.terms) == 2 and snapshot(e.terms[0]) == snapshot(c) and snapshot(e.terms[1]) == snapshot(u)
    return e, c * RX.any_, ok, (lambda: e.terms[1])


def cfn_shape(u, k, n):
    f = FNS[k % 6]
    c = E.Rat([2, -1, 3, F(1, 2), -7, F(4, 3)][n % 6])
    m = 1 + n % 3
    e = c * f(u) ** m
    fe = f(u)
    ok = type(fe) is f and type(e) is E.Prod and len(e.terms) == 2
    return e, c * f(RX.any_) ** m, ok, (lambda: fe.inner)


def pair_shape(u, k, n):
    f, g = FNS[k % 6], FNS[n % 6]
    a, b = f(u), g(u)
    e = a * b
    ok = f is not g and type(a) is f and type(b) is g and snapshot(a.inner) == snapshot(b.inner) and type(e) is E.Prod and sorted(map(repr, map(snapshot, e.terms))) == sorted(map(repr, map(snapshot, [a, b])))
    return e, [f(RX.any_) * g(RX.any_), g(RX.any_) * f(RX.any_)][n // 6 % 2], ok, (lambda: a.inner)


def any_shape(u, k, n):
    return u, RX.any_, True, (lambda: u)


def nested_shape(u, k, n):
    f, g = FNS[k % 6], FNS[n % 6]
    a = g(u)
    e = f(a)
    q = f(g(RX.any_))
    return e, q, type(a) is g and type(e) is f and type(q) is f and type(q.inner) is g and snapshot(e.inner) == snapshot(a), (lambda: a.inner)


SHAPES = [fn_shape, power_shape, exp_shape, multiple_shape, cfn_shape, pair_shape, any_shape, nested_shape]
P_U = Profile(dict(OPS, rat=4), syms=("x", "y"), maxlen=7, minlen=1, maxsize=24)


def check_found(case, rec):
    try:
        u = build_with(case["prog"], {})
        e, q, ok, piece = SHAPES[case["shape"] % len(SHAPES)](u, case["k"], case["n"])
    except Discard:
        raise
    except Exception:
        raise Discard("cannot be built")
    if infinite(e) or not ok:
        raise Discard("simplifies to another shape")
    rec.show = "%s in %s" % (show(q), show(e))
    rec.label("shape:" + SHAPES[case["shape"] % len(SHAPES)].__name__)
    what = "eq(%s, %s)" % (show(e), show(q))
    r = sound(e, q, {}, rec)
    if r is None or not r["success"]:
        raise Violation("%s does not find the match with piece %s" % (what, show(piece())))
    same_expr(r["matches"], piece(), what)
    rec.nontrivial = len(nodes(e)) >= 4


IDENT = [
    (lambda u: [E.sin(u) ** 2, E.cos(u) ** 2], True),
    (lambda u: [E.Rat(1), E.tan(u) ** 2], True),
    (lambda u: [E.Rat(1), E.cot(u) ** 2], True),
    (lambda u: [E.Rat(1), -E.sin(u) ** 2], False),
    (lambda u: [E.Rat(-1), E.sec(u) ** 2], False),
    (lambda u: [E.sin(u), E.cos(u)], True),
    (lambda u: [E.sin(u), E.log(u), E.cos(u) ** 2], True),
    (lambda u: [E.tan(u) ** 3, E.sec(u)], True),
    (lambda u: [E.e**u, E.sin(u)], True),
]


def check_identity(case, rec):
    """A pattern that is a sum is found among the terms of a longer sum, whatever the order."""
    f, free = IDENT[case["ident"] % len(IDENT)]
    try:
        u = build_with(case["prog"], {})
        k = [1, -1, 2, -3, F(1, 2), 7][case["k"] % 6] if free else [1, -1][case["k"] % 2] if case["ident"] % len(IDENT) == 3 else 1
        if case["factor"]:
            kk = E.Symbol("z") if free and case["k"] > 180 else k
        else:
            kk = E.Rat(1)
        parts = [kk * t for t in f(u)]
        rest = [COEF[r % 7] * PIECES[r % len(PIECES)]() for r in case["rest"]]
        e = E.Sum(parts + rest)
        q = E.Sum(f(RX.any_))
    except Discard:
        raise
    except Exception:
        raise Discard("cannot be built")
    if infinite(e) or type(e) is not E.Sum or type(q) is not E.Sum or len(q.terms) != len(parts):
        raise Discard("simplifies to another shape")
    have = [snapshot(t) for t in e.terms]
    plain = [t for t in f(u)]
    inner = [n for t in plain for n in nodes(t) if type(n) in FNS and type(n) is not E.log]
    if not inner or any(snapshot(n.inner) != snapshot(inner[0].inner) for n in inner) or not all(snapshot(t) in have for t in parts):
        raise Discard("simplifies to another shape")
    if len({repr(snapshot(t)) for t in parts}) != len(parts):
        raise Discard("simplifies to another shape")
    qs = {type(n) for t in q.terms for n in nodes(t)} - {RX.Any_}
    if not qs <= {type(n) for t in plain for n in nodes(t)}:
        raise Discard("simplifies to another shape")
    found = [same_skeleton(b, a) for a, b in zip(f(u), f(RX.any_))]
    found = [v for v in found if v is not True]
    if any(v is None or snapshot(v) != snapshot(found[0]) for v in found):
        raise Discard("simplifies to another shape")
    kw = {"up_to_sum": True}
    if case["factor"]:
        kw["up_to_factor"] = True
    rec.show = "%s in %s" % (show(q), show(e))
    r = sound(e, q, kw, rec)
    if r is None or not r["success"]:
        raise Violation("eq(%s, %s, %s) does not find the match with piece %s" % (show(e), show(q), ", ".join(sorted(kw)), show(u)))
    rec.label("identity:%d" % (case["ident"] % len(IDENT)))
    rec.nontrivial = len(e.terms) > len(parts) or case["factor"]


def same_skeleton(q, e):
    """The piece at the wildcard, if e is q with one piece filled in; else None."""
    if type(q) is RX.Any_:
        return e
    if type(q) is not type(e):
        return None
    a, b = kids(q), kids(e)
    if len(a) != len(b):
        return None
    if not a:
        return True if snapshot(q) == snapshot(e) else None
    out = True
    for x, y in zip(a, b):
        r = same_skeleton(x, y)
        if r is None:
            return None
        if r is not True:
            if out is not True and snapshot(out) != snapshot(r):
                return None
            out = r
    return out


def check_plain(case, rec):
    """Without wildcards, an expression matches exactly itself."""
    try:
        out = []
        for ins in case["prog"]:
            out.append(build_step(ins, out, E))
    except Discard:
        raise
    except Exception:
        raise Discard("cannot be built")
    pool = [as_expr(v, E) for v in out][-6:]
    if any(infinite(v) or v.has(E.Float) for v in pool):
        raise Discard("infinite")
    n = 0
    for a in pool:
        for b in pool:
            what, r = run_eq(a, b, {})
            same = snapshot(a) == snapshot(b)
            if r is None or r["success"] is not same:
                raise Violation("%s gives %s" % (what, r))
            if same and (r["matches"] or "factor" in r or "rest" in r):
                raise Violation("%s reports %s" % (what, dict(r)))
            n += not same
        if (type(a) is E.Symbol or type(a) in FNS) and not a.expandable():
            what, r = run_eq(a, a, {"up_to_factor": True})
            if r is None or not r["success"] or snapshot(r["factor"]) != ("Rat", 1, 1) or r["matches"]:
                raise Violation("%s gives %s" % (what, r))
        if type(a) is E.Sum:
            what, r = run_eq(a, a, {"up_to_sum": True})
            if r is None or not r["success"] or snapshot(r["rest"]) != ("Rat", 0, 1) or r["matches"]:
                raise Violation("%s gives %s" % (what, r))
    q = RX.any_ + E.sin(RX.any_)
    try:
        RX.eq(q, E.sin(RX.any_))
    except ValueError:
        pass
    else:
        raise Violation("two arguments with wildcards are accepted")
    rec.show = show(pool[-1])
    rec.nontrivial = n >= 6


def _eqfactor():
    r = RX.eq(E.tan(E.Symbol("x")), 3 * E.tan(RX.any_), up_to_factor=True)
    return bool(r["success"]) and snapshot(r["factor"]) == ("Rat", 3, 1)


KNOWN = {"F-EQFACTOR": _eqfactor}


def fixed(Pr, also=(), **extra):
    def s():
        d = {"prog": Pr.strategy()}
        d.update({k: P2.strategy() for k in also})
        d.update({k: v() for k, v in extra.items()})
        return st.fixed_dictionaries(d)

    def dec(raw):
        c = dict(raw)
        for k in ("prog",) + tuple(also):
            p = (Pr if k == "prog" else P2).decode(raw[k])
            if p is None:
                return None
            c[k] = prune(p)
        return c

    return s, dec


B = lambda: st.integers(0, 255)
PC = lambda: st.lists(B(), min_size=2, max_size=2)
MD = lambda: st.integers(0, 3)
REST = lambda: st.lists(B(), min_size=0, max_size=3)

FILL = fixed(P, piece=PC, key=B, mode=B, k=B, rest=B)
FILL2 = fixed(P2, piece=PC, key=B, mode=B, k=B, rest=B)
OTHER = fixed(P2, also=("prog2",), piece=PC, key=B, mode=MD)
FOUND = fixed(P_U, shape=B, k=B, n=B)
IDENTS = fixed(P_U, ident=B, k=B, factor=st.booleans, rest=REST)
PLAIN = fixed(Profile(OPS_ALL, maxlen=11, minlen=3))


def strat_sums():
    term = st.tuples(B(), st.integers(0, 9).map(lambda v: v if v < 7 else 0), st.integers(0, 7), st.integers(0, 7))
    # plain terms in one wildcard with one common coefficient, where only the piece of a term may deviate
    near = st.tuples(B(), st.just(0), st.just(1), st.sampled_from([0, 0, 6]))
    d = {"piece": PC(), "mode": MD(), "rest": REST()}
    return st.one_of(
        st.fixed_dictionaries(dict(d, terms=st.lists(term, min_size=2, max_size=4), k=st.integers(0, 60))),
        st.fixed_dictionaries(dict(d, terms=st.lists(near, min_size=2, max_size=4), k=st.sampled_from([0, 0, 2, 42]))),
    )


def show_case(case):
    return repr(case)


SUBS = [
    Sub("filled", check_filled, *FILL, quick=6000, show=show_case),
    Sub("two wildcards", check_filled, *FILL2, quick=4000, show=show_case),
    Sub("independent", check_other, *OTHER, quick=6000, show=show_case),
    Sub("sums", check_sums, strat_sums, None, quick=4500, show=show_case),
    Sub("found", check_found, *FOUND, quick=6000, show=show_case),
    Sub("identity", check_identity, *IDENTS, quick=4000, show=show_case),
    Sub("plain", check_plain, *PLAIN, quick=2000, show=show_case),
]
