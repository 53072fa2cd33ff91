"""C15: the printed text, read with ordinary precedence, denotes the expression."""
import itertools

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from ..parse import Latex, Text, Unreadable, rebuild, tvalue
from .c01 import OPS_ALL
from .c22 import nodes

OPS = dict(OPS_ALL, abs=7, neg=8, powr=16, pow=9, exp=5, sub=12, div=16, frac=4, sqrt=6, log=4, logb=4, rat=10, pifrac=3)
P = Profile(OPS, maxlen=13, minlen=2)
P_A = Profile({"add": 14, "sub": 12, "mul": 16, "div": 16, "neg": 10, "powr": 16, "pow": 10, "abs": 9, "rat": 8, "lin": 6, "sqrt": 4, "sym": 3, "exp": 2, "sin": 2, "log": 2}, maxlen=9, minlen=2)
FLOATS = [2.5, -0.5, 1e-7, 1e20, -3.0, 0.1, -2.5e-9, 1.5e16, 7.0, 123456.789]
NAMES = [("x", "y", "z"), ("x", "y", "z"), ("theta", "y", "xy"), ("x1", "y_2", "Z"), ("x_", "alpha", "t"), ("x", "xx", "xxx"), ("a", "bc", "f"), ("d", "e1", "pie")]


def infinite(e):
    return any(type(n) in (E.Infinity, E.NegInfinity, E.NaN) or type(n) is E.Float and (n.value != n.value or abs(n.value) == float("inf")) for n in nodes(e))


def imaginary(e):
    if any(type(n) is E.log and type(n.base) in (E.Rat, E.Float) and n.base.value <= 0 for n in nodes(e)):
        return True
    return any(type(n) is E.Power and type(n.base) in (E.Rat, E.Float) and n.base.value < 0 for n in nodes(e))


def rename(prog, names):
    m = dict(zip(("x", "y", "z"), names))
    out = []
    for ins in prog:
        if ins[0] == "sym":
            out.append(["sym", m[ins[1]]])
        elif ins[0] == "lin":
            out.append(["lin", ins[1], m[ins[2]]])
        else:
            out.append(ins)
    return out


def floats(prog, seed):
    """Every few constants are made floating-point."""
    if seed % 4:
        return prog
    out = []
    for i, ins in enumerate(prog):
        if ins[0] == "rat" and (seed // 4 + i) % 2 == 0:
            out.append(["float", FLOATS[(seed // 8 + i) % len(FLOATS)]])
        else:
            out.append(ins)
    return out


def points(names):
    return [{n: p[s] for s, n in zip(("x", "y", "z"), names)} for p in POINTS]


def variants(e, k, sym):
    """Expressions of shapes that operators alone do not give."""
    yield e
    fs = [lambda: e.diff(sym), lambda: e.expand() if e.expandable() else None, lambda: e.factor() if isinstance(e, E.Sum) else None, lambda: e.subs({sym.name: E.Rat(-2, 3)}), lambda: 1 / e, lambda: -e, lambda: e**-2]
    for j in (k % 7, (k // 7) % 7):
        try:
            v = fs[j]()
        except Exception:
            continue
        if isinstance(v, E.Expr):
            yield v


def size(e):
    return len(nodes(e))


def check_denotes(e, names, pts, form, rec):
    """form: 'text' or 'latex'."""
    if infinite(e):
        return 0
    if imaginary(e):
        return 0
    if form == "text":
        s = call("printing %s" % (snapshot(e),), repr, e)
        if str(e) != s or call("printing again", repr, e) != s:
            raise Violation("%s prints as %r, then %r and %r" % (snapshot(e), s, repr(e), str(e)))
        reader = Text
    else:
        s = call("LaTeX of %s" % show(e), E.latex, e)
        if e.latex() != s:
            raise Violation("%s has the LaTeX %r, then %r" % (show(e), s, e.latex()))
        reader = Latex
    if type(s) is not str:
        raise Violation("%s prints as %r" % (snapshot(e), s))
    try:
        t = reader(s, names).parse()
    except Unreadable as ex:
        raise Violation("%s of %s cannot be read: %r has %s" % (form, snapshot(e), s, ex))
    n = 0
    symbolic = any(type(q) is E.Symbol for q in nodes(e))
    for pt in pts if symbolic else pts[:1]:
        n += agree2(lambda R, env: value(e, env, R), lambda R, env: tvalue(t, env, R), pt, "the %s of %s" % (form, snapshot(e)), lambda: repr(s))
    return n, s, t


def check(case, rec, form="text"):
    names = NAMES[case["names"] % len(NAMES)]
    prog = rename(floats(case["prog"], case["fl"]), names)
    try:
        out = build_all(prog, E)
    except BuildError:
        raise Discard("construction raises (C01)")
    pts = points(names)
    n = 0
    seen = {}
    for i, v in enumerate(out):
        if not operands(prog[i]) and not (prog[i][0] == "float"):
            continue
        e = as_expr(v, E)
        for u in variants(e, case["k"] + i, E.Symbol(names[case["k"] % 3])) if i == len(out) - 1 or i % 3 == case["k"] % 3 else [e]:
            if size(u) > 60:
                continue
            r = check_denotes(u, names, pts, form, rec)
            if not r:
                continue
            n += r[0]
            if r[1] in seen and form == "text":
                w = seen[r[1]]
                for pt in pts:
                    agree2(lambda R, env: value(w, env, R), lambda R, env: value(u, env, R), pt, "%s and %s both print as" % (snapshot(w), snapshot(u)), lambda: repr(r[1]))
            seen[r[1]] = u
            for q in nodes(u):
                rec.label(type(q).__name__)
    if not n:
        raise Discard("undefined everywhere")
    rec.show = "; ".join(list(seen)[-3:])
    rec.nontrivial = n >= 4 and max(size(v) for v in seen.values()) >= 4


def check_reenter(case, rec):
    names = NAMES[case["names"] % len(NAMES)]
    prog = rename(floats(case["prog"], case["fl"]), names)
    try:
        out = build_all(prog, E)
    except BuildError:
        raise Discard("construction raises (C01)")
    e = as_expr(out[-1], E)
    if infinite(e) or imaginary(e):
        raise Discard("not real and finite")
    if any(type(n) is E.Power and isinstance(n.base, (E.Rat, E.Float)) for n in nodes(e)):
        raise Discard("power of a number")
    rec.show = reenter(e, names)
    rec.nontrivial = size(e) >= 4


def reenter(e, names):
    s = call("printing", repr, e)
    try:
        t = Text(s, names).parse()
    except Unreadable as ex:
        raise Violation("the text of %s cannot be read: %r has %s" % (snapshot(e), s, ex))
    g = call("entering %s again" % s, rebuild, t, E)
    s2 = call("printing", repr, g)
    if s2 != s:
        raise Violation("%s entered again prints as %s (from %s)" % (s, s2, snapshot(e)))
    return s


# ------------------------------------------------------------------ systematic: every operator over every operand shape


def shapes():
    x, y = E.Symbol("x"), E.Symbol("y")
    F_ = E.Rat
    return [
        x, y, F_(2), F_(-1), F_(-3), F_(2, 3), F_(-1, 2), E.pi, E.e, E.Float(2.5), E.Float(-0.5), E.Float(1e-7), E.Float(1e20),
        2 * x, -x, -3 * x, x / 2, -x / 3, x * y, x / y, -x * y, 1 / x, 2 / x, -1 / x, 1 / (x * y), F_(2, 3) * x / y,
        x + y, x - y, -x - y, x + 1, 2 * x + 3, (x + 1) * (y + 2), 3 * (x + 1), -(x + y) / 2, (x + 1) / (y - 2), 1 / (x + y),
        x**2, x**-2, x**F_(1, 2), x**F_(-1, 2), x**F_(2, 3), x**F_(-2, 3), x**y, x ** (-y), x ** (y + 1), x ** (x**2), 2**x, F_(2, 3) ** x, E.e**x, E.e ** (-x), E.e ** (x + y), x ** (1 / y), x**E.pi, x ** E.Float(2.5),
        (x + y) ** 2, (x + y) ** -1, (x + y) ** F_(1, 2), (x * y) ** y, (x + 1) ** (y - 1), E.sqrt(F_(2)), F_(2) ** F_(1, 3), F_(3) ** F_(-1, 2), E.sqrt(x + y) / 2,
        E.sin(x), E.sin(x + y) ** 2, E.cos(x) / 3, E.tan(x) * y, 1 / E.sin(x), E.asin(x), E.atan(x) ** 2, E.log(x), E.log(x + 1) ** 2, E.log(x, F_(2)), E.log(x, y), E.log(x, x + 1), -E.log(x), E.log(E.log(x)),
        abs(x), abs(x + y), abs(x) * y, abs(x) ** 3, abs(abs(x) - 1), abs(x) + abs(y), -abs(x), 1 / abs(x), abs(x * y), abs(abs(x) * abs(y) + x), E.log(abs(x)),
        E.sin(abs(x)), abs(E.sin(x)), 2 * E.pi * x, E.pi / 2, -E.pi / 3, E.e * x, E.e**2, E.e**-1,
    ]  # fmt: skip


def systematic(tier):
    n = len(shapes())
    for op in BIN:
        for i in range(n):
            for j in range(n):
                yield [op, i, j]
    for op in UN:
        for i in range(n):
            yield [op, i]


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "pow": lambda a, b: a**b}
UN = {"neg": lambda a: -a, "abs": abs, "sqrt": lambda a: E.sqrt(a), "inv": lambda a: 1 / a, "sq": lambda a: a**2, "sin": lambda a: E.sin(a), "atan": lambda a: E.atan(a), "ln": lambda a: E.log(a), "log2": lambda a: E.log(a, E.Rat(2)), "exp": lambda a: E.e**a, "id": lambda a: a, "cube": lambda a: a ** E.Rat(-1, 3), "half": lambda a: a / 2}
_S = []


def check_systematic(case, rec, form="text"):
    if not _S:
        _S.extend(shapes())
    try:
        e = BIN[case[0]](_S[case[1]], _S[case[2]]) if len(case) == 3 else UN[case[0]](_S[case[1]])
    except Exception:
        raise Discard("construction raises")
    if infinite(e) or imaginary(e):
        raise Discard("not real and finite")
    r = check_denotes(e, ("x", "y"), POINTS, form, rec)
    if form == "text" and not any(type(n) is E.Float or type(n) is E.Power and type(n.base) is E.Rat for n in nodes(e)):
        reenter(e, ("x", "y"))
    rec.show = r[1]
    rec.label(case[0])
    rec.nontrivial = r[0] >= 1 and size(e) >= 3


def strat(Pr):
    b = st.integers(0, 255)
    return lambda: st.fixed_dictionaries({"prog": Pr.strategy(), "names": b, "fl": b, "k": b})


def dec(Pr):
    def d(raw):
        p = Pr.decode(raw["prog"])
        if p is None:
            return None
        p = prune(p)
        if not operands(p[-1]) or not tame(p):
            return None
        return dict(raw, prog=p)

    return d


def show_case(case):
    return repr(case)


SUBS = [
    Sub("systematic", check_systematic, None, None, cases=systematic, show=show_case),
    Sub("printed", check, strat(P), dec(P), quick=6000, show=show_case),
    Sub("algebra", check, strat(P_A), dec(P_A), quick=6000, show=show_case),
    Sub("re-entered", check_reenter, strat(P_A), dec(P_A), quick=6000, show=show_case),
    Sub("re-entered functions", check_reenter, strat(P), dec(P), quick=6000, show=show_case),
]
