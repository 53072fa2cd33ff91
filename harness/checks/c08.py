"""C08: trigonometric exact values, symmetries and compositions."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from ..num import mp, mpmath
from .c01 import P_FN, decoder
from .c05 import json_like
from .c07 import PB, P_TRIG

FN = ("sin", "cos", "tan", "sec", "csc", "cot")
INVS = ("asin", "acos", "atan")
PARITY = {"sin": -1, "cos": 1, "tan": -1, "sec": 1, "csc": -1, "cot": -1}


def has_class(e, cls):
    return isinstance(e, cls) or any(has_class(c, cls) for c in e.children())


def check_exact(case, rec):
    """[fn, p, q, form]: f(p/q * pi)."""
    name, p, q, form = case
    m = F(int(p), int(q))
    fn = getattr(E, name)
    arg = [lambda: E.Rat(m) * E.pi, lambda: m * E.pi, lambda: E.pi * E.Rat(m), lambda: E.pi / E.Rat(1 / m) if m else E.Rat(0), lambda: E.Sum([E.Rat(m - 1) * E.pi, E.pi])][form % 5]()
    r = call("%s(%s*pi)" % (name, m), fn, arg)
    # reference: reduce exactly, then 60-digit arithmetic
    red = m % 2
    s, c = mpmath.sin(mp.mpf(red.numerator) / red.denominator * mp.pi), mpmath.cos(mp.mpf(red.numerator) / red.denominator * mp.pi)
    pole = {"tan": red % 1 == F(1, 2), "sec": red % 1 == F(1, 2), "csc": red % 1 == 0, "cot": red % 1 == 0}.get(name, False)
    if pole:
        if type(r) not in (E.Infinity, E.NegInfinity):
            raise Violation("%s(%s*pi) is a pole, but the result is %s" % (name, m, show(r)))
        rec.label("pole")
        rec.nontrivial = True
        return
    true = {"sin": lambda: s, "cos": lambda: c, "tan": lambda: s / c, "sec": lambda: 1 / c, "csc": lambda: 1 / s, "cot": lambda: c / s}[name]()
    if abs(true) < 1e-40:
        true = mp.mpf(0)
    agree2(lambda R, env: true if R.o.name == "mp" else float(true), lambda R, env: value(r, env, R), {}, "%s(%s*pi)" % (name, m), lambda: show(r))
    special = (m * 12).denominator == 1 and (m * 6).denominator == 1 or (m * 4).denominator == 1
    if special:
        if has_class(r, E.TrigFunction) or has_class(r, E.Pi) or has_class(r, E.Float):
            raise Violation("%s(%s*pi) is not given in closed form: %s" % (name, m, show(r)))
        rec.label("special")
    rec.nontrivial = m != 0
    rec.show = "%s(%s*pi)" % (name, m)


def exact_cases(tier):
    top = 40 if tier == "quick" else 240
    for name in FN:
        for q in (1, 2, 3, 4, 6):
            for p in range(-top, top + 1):
                if F(p, q).denominator == q:
                    yield [name, str(p), str(q), (p + q) % 5]
        for q in (5, 7, 8, 10, 12, 9):
            for p in range(-2 * q, 2 * q + 1):
                if F(p, q).denominator == q:
                    yield [name, str(p), str(q), 0]


def strat_exact():
    return st.tuples(st.sampled_from(FN), st.integers(-(10 ** 18), 10 ** 18), st.sampled_from([1, 2, 3, 4, 6, 12, 5, 8, 24]), st.integers(0, 4))


def dec_exact(raw):
    name, p, q, f = raw
    m = F(p, q)
    return [name, str(m.numerator), str(m.denominator), f]


# ---------------------------------------------------------------- period and parity

OPS_ARG = {"add": 14, "sub": 10, "mul": 12, "div": 4, "neg": 6, "powr": 6, "rat": 8, "lin": 14, "pifrac": 5, "exp": 2, "log": 2, "sqrt": 2, "abs": 2, "sin": 1, "pi": 1}
P_ARG = Profile(OPS_ARG, maxlen=8, minlen=1)


def check_sym(case, rec):
    name, k, prog = case
    fn = getattr(E, name)
    facts = Facts(prog)
    cs = caches(prog, facts)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    try:
        u = as_expr(build_all(prog, E)[-1], E)
    except BuildError:
        raise Discard("construction raises (C01)")
    f0 = call("%s(%s)" % (name, show(u)), fn, u)
    period = 2 * k
    up = u + F(period) * E.pi
    fp = call("%s(%s)" % (name, show(up)), fn, up)
    un = -u
    fneg = call("%s(%s)" % (name, show(un)), fn, un)
    n = 0
    for c in cs:

        def ref(R, env):
            v = R.fn(name, c.ref(i)(R, env))
            return v

        n += agree(ref, f0, c.pt, "%s(%s)" % (name, text(prog)))
        n += agree(ref, fp, c.pt, "%s(%s + %d*pi)" % (name, text(prog), period))
        n += agree(lambda R, env: PARITY[name] * ref(R, env), fneg, c.pt, "%s(-(%s))" % (name, text(prog)))
        if name in ("tan", "cot"):
            uh = u + F(2 * k + 1) * E.pi
            n += agree(ref, call("%s(%s)" % (name, show(uh)), fn, uh), c.pt, "%s(%s + %d*pi)" % (name, text(prog), 2 * k + 1))
    # structurally the same, when the argument has no multiple of pi of its own
    if u.symbols() and not u.has(E.Pi) and type(f0) is not E.Float:
        if snapshot(fp) != snapshot(f0):
            raise Violation("%s(%s) is %s but with %d*pi added it is %s" % (name, show(u), show(f0), period, show(fp)))
        rec.label("period-structural")
        if name in ("sin", "cos", "tan") and not isinstance(u, E.Sum):
            want = -f0 if PARITY[name] < 0 else f0
            if snapshot(fneg) != snapshot(want):
                raise Violation("%s(%s) is %s but %s(%s) is %s" % (name, show(u), show(f0), name, show(un), show(fneg)))
            rec.label("parity-structural")
    rec.label("fn:" + name)
    rec.nontrivial = n >= 6 and bool(u.symbols())
    rec.show = "%s, %d, %s" % (name, k, text(prog))


def strat_sym():
    return st.tuples(st.sampled_from(FN), st.integers(-6, 6), P_ARG.strategy())


def dec_sym(raw):
    name, k, r = raw
    p = P_ARG.decode(r)
    return None if p is None else [name, k, prune(p)]


# ---------------------------------------------------------------- compositions

ARGS = [
    lambda b: b.i["x"],
    lambda b: b.add("lin", [1, 2], "x"),
    lambda b: b.add("neg", b.i["y"]),
    lambda b: b.add("add", b.i["x"], b.rat(F(1, 3))),
    lambda b: b.add("mul", b.i["x"], b.i["y"]),
    lambda b: b.add("div", b.i["x"], b.i["y"]),
    lambda b: b.pw(b.i["y"], 2),
    lambda b: b.add("sqrt", b.i["x"]),
    lambda b: b.rat(F(1, 2)),
    lambda b: b.rat(F(-3, 5)),
    lambda b: b.rat(1),
    lambda b: b.rat(-1),
    lambda b: b.rat(0),
    lambda b: b.add("div", b.add("sqrt", b.rat(2)), b.rat(2)),
    lambda b: b.add("div", b.add("sqrt", b.rat(3)), b.rat(2)),
    lambda b: b.rat(F(7, 2)),
    lambda b: b.add("sub", b.i["x"], b.i["y"]),
    lambda b: b.add("exp", b.add("neg", b.i["x"])),
    lambda b: b.add("neg", b.add("sqrt", b.rat(3))),
    lambda b: b.add("sub", b.rat(1), b.pw(b.i["x"], 2)),
    lambda b: b.add("pifrac", 1, 7),
    lambda b: b.add("lin", [5, 1], "z"),
]

CPOINTS = POINTS + [{"x": F(19, 100), "y": F(-3, 10), "z": F(1, 8), "long": F(1)}, {"x": F(-71, 100), "y": F(83, 100), "z": F(-1, 9), "long": F(1)}, {"x": F(-1, 20), "y": F(-4, 5), "z": F(1, 30), "long": F(1)}]


def check_comp(case, rec):
    """f(g(u)) for f trigonometric, g inverse (any u where it is defined), and g(f(u)) on the principal range."""
    f, g, a, wrap = case
    b = PB()
    u = ARGS[a % len(ARGS)](b)
    prog = prune(b.p, u)
    facts = Facts(prog)
    cs = caches(prog, facts, CPOINTS)
    i = len(prog) - 1
    ue = as_expr(build_all(prog, E)[-1], E)
    n = 0
    if wrap == 0:
        inner = call("%s(%s)" % (g, show(ue)), getattr(E, g), ue)
        r = call("%s(%s(%s))" % (f, g, show(ue)), getattr(E, f), inner)
        what = "%s(%s(%s))" % (f, g, text(prog))
        if type(inner) is getattr(E, g) and has_class(r, E.TrigFunction):
            raise Violation("%s is %s, which is not algebraic" % (what, show(r)))
        for c in cs:
            n += comp_agree(lambda R, env: R.fn(f, R.fn(g, c.ref(i)(R, env))), r, c.pt, what)
    else:
        inner = call("%s(%s)" % (f, show(ue)), getattr(E, f), ue)
        if g == "atan" and type(inner) is E.cot:
            raise Discard("F-ATANCOT")
        r = call("%s(%s(%s))" % (g, f, show(ue)), getattr(E, g), inner)
        what = "%s(%s(%s))" % (g, f, text(prog))
        if g == "acos" and facts.hasneg[i]:
            raise Discard("even function may drop the sign of the argument")
        lo, hi = {"asin": (-1.57, 1.57), "acos": (0.001, 3.14), "atan": (-1.57, 1.57)}[g]
        for c in cs:

            def ref(R, env):
                v = c.ref(i)(R, env)
                if not lo < v < hi:
                    raise Undef("not on the principal range")
                if f in ("sin", "tan", "csc") and g == "acos" or f in ("cos", "sec", "cot") and g != "acos":
                    if not 0.01 < v < 1.56:
                        raise Undef("not in the first quadrant")
                return R.fn(g, R.fn(f, v))

            n += comp_agree(ref, r, c.pt, what)
    rec.label("%s-%s" % ((f, g) if wrap == 0 else (g, f)))
    rec.nontrivial = n > 0
    rec.show = what


def comp_agree(ref, r, pt, what):
    """(near the ends of the inverse's range the composition is ill conditioned in floats: decided in 60 digits)"""
    return agree(ref, r, pt, what)


def comp_cases(tier):
    for f in FN:
        for g in INVS:
            for a in range(len(ARGS)):
                for w in (0, 1):
                    yield [f, g, a, w]


def check_value(prog, rec):
    facts = Facts(prog)
    cs = caches(prog, facts)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    out = build_checked(prog, cs)
    n = 0
    for j, ins in enumerate(prog):
        if ins[0] in FN + INVS:
            for c in cs:
                n += agree(c.ref(j), as_expr(out[j], E), c.pt, "value of %s" % text(prog, j))
            rec.label("op:" + ins[0])
    rec.nontrivial = n > 0
    rec.show = text(prog)


OPS_T = {"add": 8, "sub": 6, "mul": 6, "div": 4, "neg": 5, "rat": 6, "lin": 8, "pifrac": 10, "pi": 3, "sqrt": 3, "abs": 1, "sin": 7, "cos": 7, "tan": 7, "sec": 7, "csc": 7, "cot": 7, "asin": 6, "acos": 6, "atan": 6, "powr": 3}
P_T = Profile(OPS_T, maxlen=8, minlen=2, syms=("x", "y"))


def dec_value(raw):
    p = P_T.decode(raw)
    if p is None:
        return None
    p = prune(p)
    return p if any(ins[0] in FN + INVS for ins in p) else None


SUBS = [
    Sub("exact_small", check_exact, cases=exact_cases),
    Sub("compositions", check_comp, cases=comp_cases),
    Sub("exact_huge", check_exact, strat_exact, dec_exact, quick=3000),
    Sub("period_parity", check_sym, strat_sym, dec_sym, quick=5000, show=lambda c: "%s, %d, %s" % (c[0], c[1], text(c[2]))),
    Sub("values", check_value, P_T.strategy, dec_value, quick=6000, show=text),
]
