"""C24: every way of saying the same thing gives the same answer, and what is not a value is refused."""
import random
from fractions import Fraction

from hypothesis import strategies as st

import simpy
from ..common import *
from ..engine import Sub
from ..integ import FAMILIES, Integrand, P as Picker, SI, bounded
from .c01 import OPS_ALL

OPS = {k: v for k, v in OPS_ALL.items() if k not in ("asin", "acos", "atan")}
OPS_N = dict(OPS, int=12, frac=10, rat=0, pi=1, e=1, pifrac=1)
OPS_N = {k: v for k, v in OPS_N.items() if v}
P_N = Profile(OPS_N, maxlen=10, minlen=3)
P_E = Profile(OPS, maxlen=9, minlen=2)


class Wrapped:
    """simpy.expr with every bare number turned into an expression before it is handed over."""

    def __init__(self, how):
        self.how = how

    def __getattr__(self, k):
        return getattr(E, k)


def wrapped_step(ins, out):
    """The same instruction given expressions only."""
    op = ins[0]
    if op in ("int", "frac"):
        return E.Rat(Fraction(*ins[1:]))
    if op == "float":
        return E.Float(ins[1])
    if op == "pifrac":
        return E.Rat(ins[1], ins[2]) * E.pi
    if op == "lin":
        return E.Rat(*ins[1]) * E.Symbol(ins[2])
    if op == "powr":
        return out[ins[1]] ** E.Rat(ins[2], ins[3])
    if op == "absroot":
        return (out[ins[1]] ** E.Rat(ins[2])) ** E.Rat(1, ins[2])
    return build_step(ins, out, E)


def check_numbers(case, rec):
    """A formula written with Python numbers against the same one written with expressions for them."""
    prog = case["prog"]
    if len(prog) > 18 or not tame(prog):
        raise Discard("long")
    a, b, bare = [], [], 0
    for i, ins in enumerate(prog):
        t = text(prog, i)
        if ins[0] == "pow" and isinstance(a[ins[1]], Fraction) and isinstance(a[ins[2]], E.Expr):
            # Fraction.__pow__ itself computes float(fraction) ** other and never asks the expression
            raise Discard("a Fraction to the power of an expression")
        res = []
        for fn in (lambda: build_step(ins, a, E), lambda: wrapped_step(ins, b)):
            try:
                res.append(fn())
            except Discard:
                raise
            except Exception as ex:
                res.append(ex)
        if isinstance(res[0], Exception) or isinstance(res[1], Exception):
            if isinstance(res[0], Exception) and isinstance(res[1], Exception):
                raise Discard("construction raises (C01)")
            raise Violation("%s: with Python numbers it gives %s, with expressions %s" % (t, res[0] if isinstance(res[0], E.Expr) else repr(res[0]), res[1] if isinstance(res[1], E.Expr) else repr(res[1])))
        a.append(res[0])
        b.append(res[1])
        if not isinstance(res[0], E.Expr):
            continue
        if any(not isinstance(a[j], E.Expr) for j in operands(ins)) or ins[0] in ("powr", "absroot", "pifrac", "lin"):
            bare += 1
        if not isinstance(res[1], E.Expr) or snapshot(res[0]) != snapshot(res[1]):
            raise Violation("%s: with Python numbers it is %s, with expressions for them %s" % (t, show(res[0]), show(res[1])))
    rec.show = text(prog)
    rec.nontrivial = bare >= 2
    rec.label("bare:%d" % min(bare, 4))


# ---------------------------------------------------------------- numbers handed to methods
BARE = [2, -1, 0, 5, Fraction(1, 2), Fraction(-2, 3), Fraction(7, 4), 0.5, 1.25, -0.75, 3.0]


def build_two(prog):
    if len(prog) > 18 or not tame(prog):
        raise Discard("long")
    try:
        out = [as_expr(v, E) for v in build_all(prog, E)]
    except BuildError:
        raise Discard("construction raises (C01)")
    if any(t in repr(snapshot(out[-1])) for t in ("Infinity", "NaN")):
        raise Discard("infinite")
    return out


def outcome(fn):
    random.seed(0)
    try:
        return fn()
    except (Violation, Discard, MemoryError):
        raise
    except Exception as ex:
        return ex


def sig(r):
    if isinstance(r, E.Expr):
        return snapshot(r)
    if isinstance(r, Exception):
        return "raises " + type(r).__name__
    if isinstance(r, tuple):
        return tuple(sig(x) for x in r)
    return repr(r)


def alike(what, forms):
    """All forms (name, thunk) have the same outcome."""
    first = None
    for name, fn in forms:
        r = outcome(fn)
        if first is None:
            first = (name, r)
        elif sig(r) != sig(first[1]):
            raise Violation("%s: %s gives %s, but %s gives %s" % (what, first[0], shown(first[1]), name, shown(r)))
    return first[1]


def shown(r):
    return "%s: %s" % (type(r).__name__, r) if isinstance(r, Exception) else show(r) if isinstance(r, E.Expr) else repr(r)


def ex(v):
    return E.Float(v) if isinstance(v, float) else E.Rat(v)


def check_methods(case, rec):
    prog = case["prog"]
    out = build_two(prog)
    e = out[-1]
    t = show(e)
    rec.show = t
    names = naming_of(prog)
    env = {n: BARE[k] for n, k in zip(names, case["vals"])}
    r = alike("%s.subs(%s)" % (t, env), [("numbers", lambda: e.subs(dict(env))), ("expressions", lambda: e.subs({n: ex(v) for n, v in env.items()}))])
    alike("%s.evalf(%s)" % (t, env), [("numbers", lambda: e.evalf(dict(env))), ("expressions", lambda: e.evalf({n: ex(v) for n, v in env.items()}))])
    alike("%s.evalf()" % t, [("no argument", lambda: e.evalf()), ("None", lambda: e.evalf(None)), ("{}", lambda: e.evalf({}))])
    v = BARE[case["vals"][0]]
    alike("%s == %s" % (t, v), [("number", lambda: (e == v)), ("expression", lambda: (e == ex(v)))])
    # function and operator spellings
    f = out[-2] if len(out) > 1 else e
    tf = show(f)
    half = Fraction(1, 2)
    forms = {
        "square root of " + t: [("sqrt", lambda: simpy.sqrt(e)), ("power 1/2", lambda: e**half), ("E.Power", lambda: E.Power(e, E.Rat(1, 2))), ("E.Power(.., Fraction)", lambda: E.Power(e, half))],
        "absolute value of " + t: [("abs()", lambda: abs(e)), ("Abs", lambda: E.Abs(e))],
        "natural logarithm of " + t: [("log(x)", lambda: simpy.log(e)), ("log(x, e)", lambda: simpy.log(e, simpy.e)), ("keywords", lambda: simpy.log(inner=e, base=simpy.e))],
        "logarithm in base 3 of " + t: [("log(x, 3)", lambda: simpy.log(e, 3)), ("log(x, Rat(3))", lambda: simpy.log(e, E.Rat(3)))],
        "%s + %s" % (t, tf): [("+", lambda: e + f), ("Sum", lambda: E.Sum([e, f]))],
        "%s * %s" % (t, tf): [("*", lambda: e * f), ("Prod", lambda: E.Prod([e, f]))],
        "%s ** %s" % (t, tf): [("**", lambda: e**f), ("Power", lambda: E.Power(e, f)), ("Power keywords", lambda: E.Power(base=e, exponent=f))],
        "%s / %s" % (t, tf): [("/", lambda: e / f), ("times power -1", lambda: e * E.Power(f, E.Rat(-1)))],
        "%s simplified" % t: [("method", lambda: e.simplify()), ("function", lambda: simpy_simplify()(e))],
        "LaTeX of %s" % t: [("method", lambda: e.latex()), ("function", lambda: simpy.latex(e))],
        "text of %s" % t: [("repr", lambda: repr(e)), ("str", lambda: str(e)), ("format", lambda: "%s" % e)],
    }
    for n in ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan"):
        if n == "atan" and type(e) is E.cot:
            continue
        forms["%s(%s)" % (n, v)] = [("number", lambda n=n: getattr(E, n)(v)), ("expression", lambda n=n: getattr(E, n)(ex(v)))]
        if n not in ("asin", "acos", "atan"):
            forms["%s of %s" % (n, t)] = [("simpy.%s" % n, lambda n=n: getattr(simpy, n)(e)), ("expr.%s" % n, lambda n=n: getattr(E, n)(e)), ("keyword", lambda n=n: getattr(E, n)(inner=e))]
    for i, (k, fs) in enumerate(forms.items()):
        if k.endswith(" simplified") and ev_nodes(e) > 14:
            continue
        alike(k, fs)
    # differentiation
    syms = sorted(s.name for s in e.symbols())
    for n in names[:2]:
        s = E.Symbol(n)
        alike("derivative of %s by %s" % (t, n), [("method", lambda: e.diff(s)), ("function", lambda: simpy.diff(e, s)), ("keywords", lambda: simpy.diff(expr=e, var=s))] + ([("no variable", lambda: simpy.diff(e))] if syms == [n] else []))
    if len(syms) != 1:
        r = outcome(lambda: simpy.diff(e))
        if not isinstance(r, ValueError):
            raise Violation("diff(%s) without a variable gives %s instead of raising ValueError" % (t, shown(r)))
        rec.label("ambiguous")
    rec.nontrivial = len(syms) >= 1 and ev_nodes(e) >= 4


def simpy_simplify():
    from simpy.simplify import simplify

    return simplify


def ev_nodes(e):
    return 1 + sum(ev_nodes(c) for c in e.children())


# ---------------------------------------------------------------- integrals
FAMS = sorted(FAMILIES)
LO = [0, 1, Fraction(1, 2), 2, Fraction(1, 3), -1]
HI = [1, 2, Fraction(3, 2), 3, Fraction(5, 4), 5]


def check_integrals(case, rec):
    p = Picker(case["raw"])
    it = Integrand(FAMILIES[case["fam"]](p), case["var"])
    try:
        f = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    s = E.Symbol(case["var"])
    syms = sorted(x.name for x in f.symbols())
    t = show(f)
    rec.show = "integral of %s" % t

    def run(*a, **k):
        def go():
            with bounded(8, 0, cpu=4) as ctx:
                r = SI.integrate(*a, **k)
                if ctx.clock.out_of_cpu:
                    raise Discard("slow")
                return r

        return go

    a, b = LO[case["lo"]], HI[case["hi"]]
    indef = [("integrate(f, x)", run(f, s)), ("keywords", run(expr=f, bounds=s)), ("debug=False, breadth_first=False", run(f, s, debug=False, breadth_first=False))]
    defi = [("integrate(f, (x, a, b))", run(f, (s, a, b))), ("bounds as expressions", run(f, (s, E.Rat(a), E.Rat(b)))), ("keywords", run(expr=f, bounds=(s, a, b)))]
    if syms == [case["var"]]:
        indef += [("integrate(f)", run(f)), ("integrate(f, None)", run(f, None))]
        defi += [("integrate(f, (a, b))", run(f, (a, b))), ("integrate(f, (Rat, b))", run(f, (E.Rat(a), b)))]
    r = alike("integral of %s d%s" % (t, case["var"]), indef)
    q = alike("integral of %s d%s from %s to %s" % (t, case["var"], a, b), defi)
    for x in (r, q):
        if x is not None and not isinstance(x, (E.Expr, Exception)):
            raise Violation("integral of %s is %r" % (t, x))
    if len(syms) != 1:
        for name, fn in (("integrate(f)", run(f)), ("integrate(f, (a, b))", run(f, (a, b)))):
            x = outcome(fn)
            if not isinstance(x, ValueError):
                raise Violation("%s for f = %s, whose variable is not determined, gives %s instead of raising ValueError" % (name, t, shown(x)))
        rec.label("ambiguous")
    # a number for an integrand
    if case["lo"] == 0:
        v = BARE[case["hi"] * 2 % len(BARE)]
        alike("integral of %s" % v, [("number", run(v, s)), ("expression", run(ex(v), s))])
        alike("integral of %s over an interval" % v, [("number", run(v, (s, 1, b))), ("expression", run(ex(v), (s, 1, b)))])
    # bounds that make no sense
    for bad in (3, Fraction(1, 2), (s, 1, 2, 3), "x"):
        x = outcome(run(f, bad))
        if not isinstance(x, Exception):
            raise Violation("integrate(%s, %r) gives %s instead of raising an error" % (t, bad, shown(x)))
    rec.label("solved" if isinstance(r, E.Expr) else "unsolved", "fam:" + case["fam"])
    rec.nontrivial = isinstance(r, E.Expr)


# ---------------------------------------------------------------- the variable is named or left out
POOL = ["x", "y", "z", "t", "a", "b", "c", "u", "theta", "k"]


def shape(k, s, i):
    """A term in one symbol."""
    return [s, s**2, 3 * s, s / (i + 2), E.sin(s), E.cos(2 * s + 1), 1 / (s + i), E.log(s), 2**s, E.sqrt(s + 1), s**F(2, 3), E.tan(s), E.atan(s), E.e ** (i * s)][k]


def check_variable(case, rec):
    names = case["names"]
    try:
        e = E.Rat(case["c"])
        for i, (n, k, join) in enumerate(zip(names, case["shapes"], case["joins"])):
            t = shape(k, E.Symbol(n), i)
            e = [lambda: e + t, lambda: e * t + t, lambda: e - 2 * t, lambda: t ** 2 + e * t, lambda: E.sin(e) + t][join]()
    except Exception:
        raise Discard("construction raises (C01)")
    have = sorted({n[1] for n in flatten(snapshot(e)) if n[0] == "Symbol"})
    t = show(e)
    rec.show = t
    lo, hi = [case_bound(b, names, have) for b in case["bounds"]]

    def run(*a, **k):
        def go():
            with bounded(8, 0, cpu=3) as ctx:
                r = SI.integrate(*a, **k)
                if ctx.clock.out_of_cpu:
                    raise Discard("slow")
                return r

        return go

    if len(have) == 1:
        s = E.Symbol(have[0])
        alike("derivative of %s" % t, [("diff(f, %s)" % s, lambda: simpy.diff(e, s)), ("diff(f)", lambda: simpy.diff(e)), ("keyword", lambda: simpy.diff(expr=e)), ("None", lambda: simpy.diff(e, None))])
        if ev_nodes(e) <= 12:
            alike("integral of %s from %s to %s" % (t, lo, hi), [("(x, a, b)", run(e, (s, lo, hi))), ("(a, b)", run(e, (lo, hi))), ("keyword", run(expr=e, bounds=(lo, hi)))])
        rec.label("determined")
    else:
        asked = {
            "diff(f)": lambda: simpy.diff(e), "diff(expr=f)": lambda: simpy.diff(expr=e), "diff(f, None)": lambda: simpy.diff(e, None),
            "integrate(f)": run(e), "integrate(expr=f)": run(expr=e), "integrate(f, None)": run(e, None),
            "integrate(f, (%s, %s))" % (lo, hi): run(e, (lo, hi)), "integrate(f, bounds=(%s, %s))" % (lo, hi): run(e, bounds=(lo, hi)),
        }
        for k, fn in asked.items():
            r = outcome(fn)
            if not isinstance(r, ValueError):
                raise Violation("%s for f = %s, whose variable is not determined, gives %s instead of raising ValueError" % (k, t, shown(r)))
        rec.label("undetermined:%d" % len(have))
    rec.nontrivial = len(have) >= 1


def flatten(s):
    yield s
    for c in s[1:]:
        if isinstance(c, tuple):
            yield from flatten(c)


def case_bound(b, names, have):
    kind, i = b
    n = names[i % len(names)]
    other = [m for m in POOL if m not in have]
    return [i - 3, F(2 * i + 1, 3), E.Symbol(n), E.Symbol(other[i % len(other)]), E.pi / (i + 1), E.Symbol(n) + 1, 2 * E.Symbol(other[0]) + i][kind]


def strat_variable():
    names = st.lists(st.sampled_from(POOL), min_size=1, max_size=7, unique=True)
    b = st.tuples(st.integers(0, 6), st.integers(0, 6))
    return st.tuples(names, st.lists(st.integers(0, 13), min_size=7, max_size=7), st.lists(st.integers(0, 4), min_size=7, max_size=7), st.integers(0, 2), b, b)


# ---------------------------------------------------------------- arguments by position and by name
PLAIN = st.one_of(
    st.integers(-9, 9), st.integers(-(10**25), 10**25), st.fractions(-20, 20, max_denominator=40), st.floats(-30, 30, allow_nan=False).filter(lambda v: abs(v) > 1e-6), st.sampled_from([0.1, 2.5, -0.3, 1e6, 12345678.0, 1e-3, 1e20])
)


def frac_json(v):
    return ["f", v] if isinstance(v, float) else ["q", Fraction(v).numerator, Fraction(v).denominator, isinstance(v, int)]


def unjson(j):
    return j[1] if j[0] == "f" else j[1] if j[3] else Fraction(j[1], j[2])


def check_keywords(case, rec):
    u, v = unjson(case["u"]), unjson(case["v"])
    x = [E.Symbol("x"), E.Symbol("x") * E.Symbol("y"), E.sin(E.Symbol("x")) + 1, E.pi][case["e"]]
    rec.show = "%r, %r, %s" % (u, v, x)
    small = lambda n: isinstance(n, float) or abs(n) <= 60
    forms = {}

    def pair(what, pos, kw, *more):
        forms[what] = [("positional", pos), ("keywords", kw)] + list(more)

    pair("log(%s, %r)" % (x, u), lambda: E.log(x, u), lambda: E.log(inner=x, base=u), ("mixed", lambda: E.log(x, base=u)), ("expression", lambda: E.log(x, ex(u))), ("expression keyword", lambda: E.log(x, base=ex(u))))
    pair("log(%r, %r)" % (u, v), lambda: E.log(u, v), lambda: E.log(inner=u, base=v), ("mixed", lambda: E.log(u, base=v)), ("expressions", lambda: E.log(ex(u), ex(v))))
    pair("log(%r)" % (u,), lambda: E.log(u), lambda: E.log(inner=u), ("expression", lambda: E.log(ex(u))))
    if small(v):
        pair("Power(%s, %r)" % (x, v), lambda: E.Power(x, v), lambda: E.Power(base=x, exponent=v), ("mixed", lambda: E.Power(x, exponent=v)), ("operator", lambda: x**v), ("expression", lambda: x ** ex(v)))
        pair("Power(%r, %r)" % (u, v), lambda: E.Power(u, v), lambda: E.Power(base=u, exponent=v), ("expressions", lambda: ex(u) ** ex(v)), ("operator", lambda: ex(u) ** v))
    pair("Power(%r, %s)" % (u, x), lambda: E.Power(u, x), lambda: E.Power(base=u, exponent=x), ("expression", lambda: ex(u) ** x), *([] if isinstance(u, Fraction) else [("operator", lambda: u**x)]))
    for n in ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "Abs"):
        if abs(u) > 10**9:
            continue
        c = getattr(E, n)
        pair("%s(%r)" % (n, u), lambda c=c: c(u), lambda c=c: c(inner=u), ("expression", lambda c=c: c(ex(u))), ("expression keyword", lambda c=c: c(inner=ex(u))))
    pair("sqrt(%r)" % (u,), lambda: simpy.sqrt(u), lambda: simpy.sqrt(x=u), ("expression", lambda: simpy.sqrt(ex(u))))
    pair("Sum of %s, %r and %r" % (x, u, v), lambda: E.Sum([x, u, v]), lambda: E.Sum(terms=[x, u, v]), ("operators", lambda: x + u + v), ("expressions", lambda: x + ex(u) + ex(v)), ("tuple of expressions", lambda: E.Sum([x, ex(u), ex(v)])))
    pair("Prod of %s, %r and %r" % (x, u, v), lambda: E.Prod([x, u, v]), lambda: E.Prod(terms=[x, u, v]), ("expressions", lambda: E.Prod([x, ex(u), ex(v)])))
    forms["%s - %r" % (x, u)] = [("number", lambda: x - u), ("expression", lambda: x - ex(u)), ("sum", lambda: x + (-ex(u)))]
    forms["%r - %s" % (u, x)] = [("number", lambda: u - x), ("expression", lambda: ex(u) - x)]
    forms["%r / %s" % (u, x)] = [("number", lambda: u / x), ("expression", lambda: ex(u) / x)]
    if u:
        forms["%s / %r" % (x, u)] = [("number", lambda: x / u), ("expression", lambda: x / ex(u))]
    forms["%s with x = %r" % (x, u)] = [("number", lambda: x.subs({"x": u})), ("expression", lambda: x.subs({"x": ex(u)})), ("keyword", lambda: x.subs(subs={"x": u}))]
    forms["%s evaluated at %r" % (x, u)] = [("number", lambda: x.evalf({"x": u, "y": v})), ("expression", lambda: x.evalf({"x": ex(u), "y": ex(v)})), ("keyword", lambda: x.evalf(subs={"x": u, "y": v}))]
    for k, fs in forms.items():
        r = alike(k, fs)
        if isinstance(r, E.Expr):
            # a float that was given is not turned into an exact number, nor the other way round
            kinds = {n[0] for n in flatten(snapshot(r))}
            if "Float" in kinds and not (isinstance(u, float) or isinstance(v, float)) and "evaluated" not in k:
                raise Violation("%s is %s: the numbers given were exact" % (k, show(r)))
        elif r is None or not isinstance(r, Exception):
            raise Violation("%s is %r" % (k, r))
    rec.label("u:" + type(u).__name__, "v:" + type(v).__name__)
    rec.nontrivial = u not in (0, 1) and v not in (0, 1)


# ---------------------------------------------------------------- what is not a value
class Thing:
    pass


BAD = [("None", None), ("'a'", "a"), ("1j", 1j), ("object", Thing()), ("[1]", [1]), ("(1, 2)", (1, 2)), ("{}", {}), ("''", ""), ("'1'", "1"), ("b'x'", b"x"), ("set()", set())]


def check_refused(case, rec):
    out = build_two(case["prog"])
    e = out[-1]
    t = show(e)
    name, bad = BAD[case["bad"]]
    rec.show = "%s with %s" % (t, name)
    tries = {
        "%s + %s": lambda: e + bad, "%s - %s": lambda: e - bad, "%s * %s": lambda: e * bad, "%s / %s": lambda: e / bad, "%s ** %s": lambda: e**bad,
        "%s + (on the left) %s": lambda: bad + e, "%s - (on the left) %s": lambda: bad - e, "%s * (on the left) %s": lambda: bad * e, "%s / (on the left) %s": lambda: bad / e, "%s ** (on the left) %s": lambda: bad**e,
        "Sum of %s and %s": lambda: E.Sum([e, bad]), "Prod of %s and %s": lambda: E.Prod([bad, e]), "Power of %s and %s": lambda: E.Power(e, bad), "log of %s in base %s": lambda: E.log(e, bad),
    }
    if case["fn"] < 10:
        fn = ["sin", "cos", "tan", "sec", "csc", "cot", "sqrt", "Abs", "log", "atan"][case["fn"]]
        tries["(%s) " + fn + " of %s"] = lambda: getattr(E, fn)(bad)
    for k, f in tries.items():
        what = k % (t, name)
        if name in ("''", "b'x'", "[1]", "(1, 2)", "'a'", "'1'") and "* (on the left)" in k and not isinstance(e, E.Expr):
            continue
        r = outcome(f)
        if not isinstance(r, Exception):
            raise Violation("%s gives %s instead of raising an error" % (what, shown(r)))
    rec.label("bad:" + name)
    rec.nontrivial = ev_nodes(e) >= 2


# ---------------------------------------------------------------- symbols
def check_symbols(case, rec):
    names = case["names"]
    rec.show = " ".join(names)
    got = call("symbols(%r)" % " ".join(names), simpy.symbols, " ".join(names))
    one = len(names) == 1
    if one and not isinstance(got, E.Symbol) or not one and not isinstance(got, (list, tuple)):
        raise Violation("symbols(%r) gives %r" % (" ".join(names), got))
    got = [got] if one else list(got)
    if [snapshot(g) for g in got] != [("Symbol", n) for n in names]:
        raise Violation("symbols(%r) gives %r" % (" ".join(names), got))
    for g, n in zip(got, names):
        s = E.Symbol(n)
        if not (g == s and s == g and repr(g) == n and call("latex", g.latex) == n and hash_same(g, s)):
            raise Violation("symbols(%r) gives %r, which is not Symbol(%r)" % (n, g, n))
        for m in names:
            if (g == E.Symbol(m)) != (m == n):
                raise Violation("%s == %s is %s" % (n, m, g == E.Symbol(m)))
    for bad in ("", " "):
        r = outcome(lambda: simpy.symbols(bad))
        if not isinstance(r, Exception):
            raise Violation("symbols(%r) gives %r instead of raising an error" % (bad, r))
    rec.nontrivial = len(names) >= 2


def hash_same(a, b):
    try:
        return hash(a) == hash(b)
    except TypeError:  # expressions need not be hashable
        return True


def prog_strat(P, extra):
    return lambda: st.tuples(P.strategy(), st.integers(0, len(NAMINGS) - 1), *extra)


def with_prog(P, *keys):
    def decode(raw):
        p = P.decode(raw[0])
        if p is None:
            return None
        return dict({"prog": rename(prune(p), NAMINGS[raw[1]])}, **dict(zip(keys, raw[2:])))

    return decode


def strat_int():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, len(FAMS) - 1), st.lists(b, min_size=40, max_size=40), st.sampled_from(["x", "t", "y", "theta", "u"]), st.integers(0, 5), st.integers(0, 5))


def dec_int(raw):
    f, r, v, lo, hi = raw
    return {"fam": FAMS[(f + sum(r)) % len(FAMS)], "raw": r, "var": v, "lo": lo, "hi": hi}


NAME = st.text("abxyztuvABQ_019", min_size=1, max_size=6)
VALS = st.lists(st.integers(0, len(BARE) - 1), min_size=3, max_size=3)

SUBS = [
    Sub("numbers", check_numbers, prog_strat(P_N, []), with_prog(P_N), quick=5000),
    Sub("methods", check_methods, prog_strat(P_E, [VALS]), with_prog(P_E, "vals"), quick=1600),
    Sub("integrals", check_integrals, strat_int, dec_int, quick=500),
    Sub("variable", check_variable, strat_variable, lambda raw: {"names": raw[0], "shapes": raw[1], "joins": raw[2], "c": raw[3], "bounds": [list(raw[4]), list(raw[5])]}, quick=1200, cpu=12),
    Sub("keywords", check_keywords, lambda: st.tuples(PLAIN, PLAIN, st.integers(0, 3)), lambda raw: {"u": frac_json(raw[0]), "v": frac_json(raw[1]), "e": raw[2]}, quick=2500),
    Sub("refused", check_refused, prog_strat(P_E, [st.integers(0, len(BAD) - 1), st.integers(0, 12)]), with_prog(P_E, "bad", "fn"), quick=1600),
    Sub("symbols", check_symbols, lambda: st.lists(NAME, min_size=1, max_size=5, unique=True), lambda raw: {"names": raw}, quick=400),
]
