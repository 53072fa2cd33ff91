"""Integrands for C11-C14: parametric families and random products, the derivative oracle, and a bounded way to run the integrator."""
import random
import sys
import time
import warnings
from fractions import Fraction as F

import simpy.expr as E
import simpy.integration as SI

from .core import CaseTimeout, Discard, NonFinite, Undef, Violation, call
from .ev import agree2, dvalue, show, value
from .num import FloatOps, Real
from .prog import Facts, as_expr, build_all, ref_all, text

# ------------------------------------------------------------------ integrands as trees
# "x" | ["q", p, q] | ["+", a, b, ..] | ["*", a, b, ..] | ["-", a, b] | ["/", a, b] | ["^", a, p, q] | [fn, a] | ["exp", a] | ["pow", a, b]


def Q(v):
    v = F(v)
    return ["q", v.numerator, v.denominator]


def to_prog(tree):
    prog, seen = [], {}

    def go(t):
        k = repr(t)
        if k in seen:
            return seen[k]
        if isinstance(t, str):
            ins = [t] if t in ("pi", "e") else ["sym", t]
        elif t[0] == "q":
            ins = ["int", t[1]] if t[2] == 1 else ["frac", t[1], t[2]]
        elif t[0] == "fl":
            ins = ["float", t[1]]
        elif t[0] in ("+", "*"):
            i = go(t[1])
            for c in t[2:]:
                j = go(c)
                prog.append(["add" if t[0] == "+" else "mul", i, j])
                i = len(prog) - 1
            seen[k] = i
            return i
        elif t[0] in ("-", "/", "pow"):
            ins = [{"-": "sub", "/": "div", "pow": "pow"}[t[0]], go(t[1]), go(t[2])]
        elif t[0] == "^":
            ins = ["powr", go(t[1]), t[2], t[3]]
        else:
            ins = [t[0], go(t[1])]
        prog.append(ins)
        seen[k] = len(prog) - 1
        return seen[k]

    root = go(tree)
    if root != len(prog) - 1:
        prog.append(["mul", root, root])  # never happens for trees built here
        prog.pop()
    return prog


def rename(t, m):
    if isinstance(t, str):
        return m.get(t, t)
    if t[0] in ("q", "fl"):
        return t
    if t[0] == "^":
        return ["^", rename(t[1], m)] + t[2:]
    return [t[0]] + [rename(c, m) for c in t[1:]]


class P:
    """Parameters read off a list of small integers."""

    def __init__(self, raw):
        self.raw, self.i = raw, 0

    def n(self, k):
        v = self.raw[self.i % len(self.raw)] + 7 * (self.i // len(self.raw))
        self.i += 1
        return v % k

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def int(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def nz(self):  # a nonzero rational
        return F(*self.pick([(1, 1), (2, 1), (3, 1), (-1, 1), (1, 2), (5, 1), (-2, 1), (2, 3), (-3, 1), (4, 1), (-1, 2), (7, 1), (3, 4), (-5, 2), (1, 3), (6, 1)]))

    def pos(self):
        return abs(self.nz())

    def any(self):
        return self.pick([F(0), self.nz(), self.nz()])

    def perm(self, xs):
        xs = list(xs)
        out = []
        while xs:
            out.append(xs.pop(self.n(len(xs))))
        return out


X = "x"


def times(c, t):
    c = F(c)
    if c == 1:
        return t
    if t == ["q", 1, 1]:
        return Q(c)
    return ["*", Q(c), t]


def plus(ts):
    return ts[0] if len(ts) == 1 else ["+"] + ts


def mul(ts):
    return ts[0] if len(ts) == 1 else ["*"] + ts


def xpow(n):
    n = F(n)
    return X if n == 1 else ["^", X, n.numerator, n.denominator]


def power(t, n):
    n = F(n)
    return t if n == 1 else ["^", t, n.numerator, n.denominator]


def lin(p, shift=True):
    a = p.nz()
    b = p.any() if shift else 0
    t = times(a, X)
    return plus(p.perm([t, Q(b)])) if b else t


def quad(p):
    a, b, c = p.nz(), p.any(), p.any()
    ts = [times(a, ["^", X, 2, 1])]
    if b:
        ts.append(times(b, X))
    if c:
        ts.append(Q(c))
    return plus(p.perm(ts))


def f_poly(p):
    deg = p.int(0, 6)
    ts = [times(p.nz(), xpow(d) if d else Q(1)) for d in range(deg + 1) if d == deg or p.n(3)]
    return plus(p.perm(ts))


def f_polyprod(p):
    return mul([power(lin(p), p.int(1, 3)), lin(p)][: p.int(1, 2)])


def f_power(p):
    n = F(p.int(-7, 9), p.int(1, 4))
    return times(p.nz(), xpow(n) if n else Q(1))


def f_powerlin(p):
    n = F(p.int(-7, 9), p.int(1, 4))
    return times(p.nz(), power(lin(p), n) if n else Q(1))


def f_exp(p):
    k = p.n(4)
    if k == 3:
        b = p.pick([F(2), F(3), F(5), F(10), F(1, 2), F(2, 3)])
        return times(p.nz(), ["pow", Q(b), lin(p)])
    return times(p.nz(), ["exp", lin(p)])


def f_trig(p):
    fn = p.pick(["sin", "cos", "tan", "cot", "sec"])
    return times(p.nz(), [fn, lin(p)])


def f_trig2(p):
    fn = p.pick(["sin", "cos", "tan", "sec", "csc"])
    return times(p.nz(), ["^", [fn, lin(p)], 2, 1])


def f_sincos(p):
    fn = p.pick(["sin", "cos"])
    return times(p.nz(), ["^", [fn, times(p.nz(), X)], p.int(2, 5), 1])


def f_sectan(p):
    l = lin(p)
    return times(p.nz(), mul(p.perm(p.pick([[["sec", l], ["tan", l]], [["csc", l], ["cot", l]]]))))


def f_log(p):
    return times(p.nz(), ["log", times(p.pos(), X)])


def f_inv(p):
    return times(p.nz(), [p.pick(["asin", "acos", "atan"]), X])


def f_reclin(p):
    return ["/", Q(p.nz()), lin(p)]


def f_recquad(p):
    return ["/", Q(p.nz()), quad(p)]


def f_linquad(p):
    return ["/", lin(p), quad(p)]


def f_polylin(p):
    d = p.int(1, 4)
    return ["/", plus(p.perm([times(p.nz(), xpow(i) if i else Q(1)) for i in range(d + 1) if i == d or p.n(2)])), lin(p)]


def f_sqrtlin(p):
    return mul(p.perm([xpow(p.int(1, 2)), power(lin(p), F(p.pick([1, -1, 3]), 2))]))


def f_recsqrt(p):
    # 1/sqrt(a - b x^2)
    a, b = p.pos(), p.pos()
    return ["/", Q(p.nz()), ["sqrt", ["-", Q(a), times(b, ["^", X, 2, 1])]]]


def f_parts_exp(p):
    return mul(p.perm([xpow(p.int(1, 4)), ["exp", times(p.nz(), X)]]))


def f_parts_trig(p):
    return mul(p.perm([xpow(p.int(1, 3)), [p.pick(["sin", "cos"]), times(p.nz(), X)]]))


def f_parts_log(p):
    return mul(p.perm([xpow(p.pick([1, 2, 3, 4, F(1, 2), -2, -3, F(-1, 2)])), ["log", X]]))


def f_parts_exptrig(p):
    e = ["exp", times(p.nz(), X)] if p.n(4) else ["pow", Q(p.pick([2, 3, 5, F(1, 2)])), times(p.nz(), X)]
    return mul(p.perm([e, [p.pick(["sin", "cos"]), times(p.nz(), X)]]))


def inner(p, logs=True):
    return p.pick([lambda: ["^", X, p.int(2, 4), 1], lambda: plus(p.perm([times(p.nz(), ["^", X, p.int(2, 3), 1]), Q(p.nz())])), lambda: ["sin", X], lambda: ["cos", X], lambda: ["exp", X], lambda: ["tan", X]] + ([lambda: ["log", X]] if logs else []))()


def dtree(u):
    """The derivative of an inner function, as one would write it in a textbook."""
    if u[0] == "^":
        return mul([Q(u[2]), xpow(u[2] - 1)])
    if u[0] == "+":
        for t in u[1:]:
            if t[0] == "q":
                continue
            c = F(1)
            if t[0] == "*":
                c, t = F(t[1][1], t[1][2]), t[2]
            return mul([Q(c * t[2]), xpow(t[2] - 1)])
    if u[0] == "sin":
        return ["cos", X]
    if u[0] == "cos":
        return ["sin", X]
    if u[0] == "exp":
        return u
    if u[0] == "log":
        return ["/", Q(1), X]
    if u[0] == "tan":
        return ["^", ["sec", X], 2, 1]


def f_usub(p):
    u = inner(p, False)
    g = [lambda: ["sin", u], lambda: ["cos", u]]
    if u[0] != "exp":
        g += [lambda: ["exp", u]]
    if u[0] in ("+", "sin", "cos", "tan"):
        g += [lambda: power(u, 2), lambda: power(u, 3), lambda: power(u, F(1, 2))]
    if u[0] in ("+", "sin", "cos"):
        g += [lambda: power(u, F(-1, 2)), lambda: ["/", Q(1), u]]
    return times(p.nz(), mul(p.perm([p.pick(g)(), dtree(u)])))


def f_product_trig(p):
    return mul(p.perm([[p.pick(["sin", "cos"]), times(p.int(1, 5), X)], [p.pick(["sin", "cos"]), times(p.int(1, 5), X)]]))


def f_sinmcosn(p):
    ts = [power([f, X], p.int(1, 4)) for f in ("sin", "cos")]
    return mul(p.perm(ts))


# the families above are the ones C13 expects to be solved (minus the exclusions in ALWAYS); those below need not be


def g_symconst(p):
    """Symbolic constants."""
    l = p.pick([lambda: ["*", "a", X], lambda: ["+", ["*", "a", X], "b"], lambda: ["+", X, "a"], lambda: ["-", X, "a"], lambda: ["/", X, "a"], lambda: ["+", ["*", p_int(p), X], "b"]])()
    f = p.pick([
        lambda: [p.pick(["sin", "cos", "tan", "sec"]), l], lambda: ["exp", l], lambda: power(l, p.pick([2, 3, -1, -2, F(1, 2), F(-1, 2), F(3, 2)])),
        lambda: ["pow", "a", p.pick([X, l])], lambda: ["pow", X, p.pick(["a", ["+", "a", Q(1)], ["-", Q(1), "a"]])], lambda: ["*", X, ["exp", l]], lambda: ["*", X, [p.pick(["sin", "cos"]), l]],
        lambda: ["log", ["*", "a", X]], lambda: ["/", "a", X], lambda: ["*", ["exp", X], ["cos", "a"]], lambda: ["+", ["*", "a", ["^", X, 2, 1]], ["*", "b", X], "c"],
        lambda: ["*", ["sec", "a"], ["sin", X]], lambda: ["+", l, ["exp", "b"]], lambda: ["*", "b", ["^", l, 2, 1]], lambda: ["*", X, ["sqrt", l]],
    ])()
    return mul(p.perm([f, p.pick(["b", ["sin", "a"], ["^", "a", 2, 1], Q(p.nz())])])) if p.n(3) == 0 else f


def p_int(p):
    return Q(p.int(2, 5))


def g_trigpow(p):
    ts = [power([f, X], p.int(1, 4)) for f in p.pick([("sec", "tan"), ("csc", "cot"), ("sin", "cos"), ("tan",), ("sec",), ("cot",), ("csc",), ("sin", "sec"), ("cos", "tan"), ("sin", "cos", "tan"), ("cos", "csc")])]
    return mul(p.perm(ts))


def g_trigpowhigh(p):
    k = times(p.int(1, 3), X)
    if p.n(2):
        return ["^", [p.pick(["sin", "cos"]), k], p.int(6, 11), 1]
    return mul(p.perm([power([f, k], n) for f, n in zip(("sin", "cos"), p.pick([(5, 2), (7, 1), (1, 9), (5, 5), (3, 7), (2, 6), (9, 3), (7, 4), (3, 8), (6, 3)]))]))


def g_constlin(p):
    """Linear arguments whose coefficient is a product of constants."""
    k = mul(p.perm(p.pick([["pi"], [Q(p.pos()), "pi"], [Q(p.pos()), "a"], ["a", "b"], [["sqrt", Q(p.int(2, 5))]], [Q(p.pos()), "pi", "a"], ["e"], [Q(p.nz()), ["sqrt", Q(3)], "a"]]) + [X]))
    l = plus(p.perm([k, p.pick(["b", "pi", Q(p.nz())])])) if p.n(3) == 0 else k
    return p.pick([lambda: [p.pick(["sin", "cos", "tan", "sec"]), l], lambda: ["exp", l], lambda: ["^", [p.pick(["sin", "cos", "sec", "tan"]), l], 2, 1], lambda: power(l, p.pick([2, -1, F(1, 2), -3])), lambda: ["*", X, [p.pick(["sin", "cos", "exp"]), l]]])()


def g_floats(p):
    """Floating-point coefficients, bases and offsets."""
    fl = lambda: ["fl", p.pick([0.5, 1.5, 2.5, 0.1, 3.7, -1.25, 0.3, -0.7, 2.0, 1.1])]
    l = lambda: p.pick([lambda: ["*", fl(), X], lambda: ["+", ["*", fl(), X], Q(p.nz())], lambda: ["+", X, fl()], lambda: times(p.nz(), X), lambda: X])()
    b = ["fl", p.pick([0.5, 1.5, 2.5, 0.1, 3.7, 2.0])]
    return p.pick([
        lambda: ["*", ["pow", b, times(p.nz(), X)], [p.pick(["sin", "cos"]), l()]], lambda: ["*", ["exp", l()], [p.pick(["sin", "cos"]), l()]], lambda: ["*", X, [p.pick(["sin", "cos", "exp"]), l()]],
        lambda: ["+", ["*", fl(), ["^", X, p.int(2, 4), 1]], l()], lambda: ["*", fl(), [p.pick(["sin", "cos", "exp", "tan", "log"]), l()]], lambda: ["^", [p.pick(["sin", "cos", "sec", "tan"]), l()], 2, 1],
        lambda: power(l(), p.pick([2, -1, F(1, 2), 3, -2])), lambda: ["/", fl(), ["+", fl(), ["^", X, 2, 1]]], lambda: ["/", l(), ["*", ["+", X, Q(1)], ["+", X, fl()]]], lambda: ["*", ["^", X, 2, 1], ["pow", b, X]],
        lambda: ["*", ["sin", l()], ["cos", l()]], lambda: ["/", ["+", ["^", X, 2, 1], fl()], ["+", X, fl()]],
    ])()


def g_expfrac(p):
    u = ["exp", X]
    return p.pick([
        lambda: ["/", u, ["+", u, Q(p.nz())]], lambda: ["*", u, power(["+", u, Q(p.nz())], p.pick([2, 3, F(1, 2), -2]))], lambda: ["*", u, ["+", plus([X, Q(p.nz())]), ["sin", X]]],
        lambda: ["^", ["+", u, Q(p.nz())], 2, 1], lambda: ["*", ["+", u, Q(p.nz())], ["-", u, ["exp", ["*", Q(-1), X]]]], lambda: ["/", ["exp", ["*", Q(2), X]], ["+", Q(1), u]], lambda: ["exp", ["sqrt", X]],
        lambda: ["/", ["exp", ["sqrt", X]], ["sqrt", X]], lambda: ["*", ["^", u, 2, 1], ["cos", X]], lambda: ["*", u, [p.pick(["sin", "cos"]), u]],
    ])()


def g_unit(p):
    """Built on 1 - x^2 and 1 + x^2."""
    d = p.pick([["-", Q(1), ["^", X, 2, 1]], ["+", Q(1), ["^", X, 2, 1]], ["-", Q(p.pos()), ["^", X, 2, 1]], ["+", Q(p.pos()), times(p.pos(), ["^", X, 2, 1])]])
    n = p.pick([F(1, 2), F(-1, 2), -1, -2, F(-3, 2), F(3, 2)])
    k = p.int(0, 3)
    return mul(([xpow(k)] if k else []) + [power(d, n)])


def g_ratio(p):
    n = plus(p.perm([times(p.nz(), xpow(i) if i else Q(1)) for i in range(p.int(1, 4))]))
    d = p.pick([lambda: quad(p), lambda: mul([lin(p), lin(p)]), lambda: mul([X, lin(p)]), lambda: power(lin(p), p.int(2, 3)), lambda: ["*", lin(p), quad(p)]])()
    return ["/", n, d]


def g_sumprod(p):
    return ["*", plus(p.perm([xpow(p.int(1, 2)), Q(p.nz())])), plus(p.perm([["sin", X], p.pick([["cos", X], ["exp", X], Q(p.nz())])]))]


def g_squares(p):
    return ["^", plus(p.perm([["sin", times(p.int(1, 3), X)], p.pick([["cos", times(p.int(1, 3), X)], Q(p.nz()), X])])), 2, 1]


def g_invtrig(p):
    f = [p.pick(["asin", "acos", "atan"]), p.pick([X, times(p.nz(), X)])]
    return p.pick([lambda: ["*", X, f], lambda: ["/", f, ["+", Q(1), ["^", X, 2, 1]]], lambda: ["/", f, ["sqrt", ["-", Q(1), ["^", X, 2, 1]]]], lambda: ["+", f, X], lambda: ["^", f, 2, 1]])()


def g_logs(p):
    l = ["log", p.pick([X, lin(p)])]
    return p.pick([lambda: ["^", l, p.int(2, 3), 1], lambda: ["/", l, X], lambda: ["/", l, xpow(p.int(2, 3))], lambda: ["*", l, ["+", X, Q(p.nz())]], lambda: ["log", ["^", X, p.int(2, 4), 1]], lambda: ["/", Q(1), ["*", X, l]], lambda: ["sin", l],
                   lambda: ["/", ["^", l, 2, 1], X], lambda: ["*", ["sqrt", X], l], lambda: ["log", ["*", X, ["exp", X]]]])()


def g_usub2(p):
    u = inner(p)
    return mul(p.perm([p.pick([power(u, p.pick([2, -1, F(1, 2), 3])), ["exp", u], ["sin", u], ["tan", u], ["sec", u], ["log", u]]), dtree(u)] + [u] * p.n(2)))


def g_nested(p):
    u = p.pick([["sin", X], ["cos", X], ["tan", X], ["exp", X]])
    return ["*", dtree(u), p.pick([["/", Q(1), ["+", Q(p.pick([1, 1, 4])), ["^", u, 2, 1]]], ["sqrt", ["+", u, Q(p.pos())]], ["/", u, ["+", u, Q(p.pos())]], ["*", u, ["exp", u]], ["^", ["+", u, Q(p.nz())], 3, 1], ["/", Q(1), ["sqrt", ["-", Q(p.pick([1, 4])), ["^", u, 2, 1]]]]])]


FAMILIES = {k[2:]: v for k, v in list(globals().items()) if k[:2] in ("f_", "g_")}
FNAMES = sorted(FAMILIES)
# families whose every member is integrated (C13)
ALWAYS = ["exp", "inv", "log", "parts_exp", "parts_exptrig", "parts_trig", "poly", "polylin", "polyprod", "power", "powerlin", "product_trig", "reclin", "recquad", "recsqrt", "sectan", "sincos", "sinmcosn", "sqrtlin", "trig", "trig2", "usub"]

# ------------------------------------------------------------------ arbitrary integrands


def atom(p):
    k = p.n(16)
    if k <= 2:
        return xpow(p.pick([1, 1, 2, 3, -1, F(1, 2), -2, F(-1, 2)]))
    if k <= 4:
        return [p.pick(["sin", "cos"]), lin(p, p.n(3) == 0)]
    if k == 5:
        return [p.pick(["tan", "sec", "csc", "cot"]), lin(p, p.n(4) == 0)]
    if k == 6:
        return ["^", [p.pick(["tan", "sec", "csc", "cot", "sin", "cos"]), X], p.int(2, 4), 1]
    if k <= 8:
        return ["exp", lin(p, p.n(3) == 0)]
    if k == 9:
        return ["log", p.pick([X, lin(p)])]
    if k == 10:
        return power(lin(p), p.pick([F(1, 2), F(-1, 2), 2, 3, -1, -2, F(3, 2)]))
    if k == 11:
        return power(quad(p), p.pick([-1, F(-1, 2), F(1, 2), 2, -2]))
    if k == 12:
        return [p.pick(["asin", "atan", "acos"]), p.pick([X, X, times(p.nz(), X)])]
    if k == 13:
        return ["+", p.pick([["sin", X], ["cos", X], ["exp", X], ["tan", X]]), Q(p.nz())]
    if k == 14:
        return ["exp", p.pick([["^", X, 2, 1], ["sin", X], ["cos", X], ["sqrt", X]])]
    return "a"


def h_any(p):
    k = p.n(8)
    if k <= 3:
        return times(p.pick([F(1), F(1), p.nz()]), mul([atom(p) for _ in range(p.int(1, 3))]))
    if k == 4:
        return plus([mul([atom(p) for _ in range(p.int(1, 2))]) for _ in range(p.int(2, 3))])
    if k == 5:
        return ["/", atom(p), atom(p)]
    if k == 6:
        return ["/", mul([atom(p) for _ in range(p.int(1, 2))]), ["+", atom(p), p.pick([Q(p.nz()), atom(p)])]]
    return power(plus([atom(p), p.pick([Q(p.nz()), atom(p)])]), p.pick([2, F(1, 2), -1, F(-1, 2), 3]))


# ------------------------------------------------------------------ running the integrator


class Unstoppable(Exception):
    pass


class Clock:
    """Stands in for the integrator's clock: its 2 s limit becomes a limit on search steps (and, as a backstop, on CPU time)."""

    def __init__(self, steps, cpu):
        self.n, self.steps, self.cpu, self.start = 0, steps, cpu, time.process_time()

    def time(self):
        self.n += 1
        if self.n > 3 * self.steps + 20:
            raise Unstoppable("it was still searching after its time limit had passed three times over")
        return 2.0 * max(self.n / self.steps, (time.process_time() - self.start) / self.cpu)

    def __call__(self):
        return self.time()

    def __getattr__(self, k):
        return lambda *a: self.time()

    @property
    def out_of_cpu(self):
        return self.n < self.steps and time.process_time() - self.start >= self.cpu


class bounded:
    """Within this context the integrator stops after `steps` search steps, with its heuristics tried in the given order."""

    def __init__(self, steps, order=0, cpu=1.2):
        self.order = order
        self.clock = Clock(steps, cpu)

    def __enter__(self):
        self.old = {}
        if hasattr(SI, "time"):
            self.old["time"] = SI.time
            SI.time = self.clock
        h = getattr(SI, "HEURISTICS", None)
        if self.order and isinstance(h, list):
            self.old["HEURISTICS"] = h
            new = list(h)
            random.Random(self.order).shuffle(new)
            SI.HEURISTICS = new
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        random.seed(0)
        return self

    def __exit__(self, *a):
        self.w.__exit__(None, None, None)
        for k, v in self.old.items():
            setattr(SI, k, v)


def integrate(expr, bounds, steps=14, order=0, **kw):
    with bounded(steps, order):
        return SI.integrate(expr, bounds, **kw)


# ------------------------------------------------------------------ the oracle

GRID = [F(v, 1000) for v in (613, 1127, 257, 83, 1511, 2213, 29, 3371, -317, -1129, 6053, -2741, 401, -53, -5531, 13901, -701, -12689, 877, -1709, 151, 4519, -4127, 9241, -211)]
CONSTS = {"a": F(1373, 1000), "b": F(719, 1000), "c": F(2141, 1000)}
TRIGS = ("sin", "cos", "tan", "sec", "csc", "cot")
FRAC = ("sqrt", "log")


def affine(t):
    """Value of an affine formula as (slope, intercept), or None."""
    if t == X:
        return F(1), F(0)
    if isinstance(t, str):
        return None
    if t[0] == "q":
        return F(0), F(t[1], t[2])
    if t[0] == "fl":
        return F(0), F(t[1])
    if t[0] in ("+", "-", "*"):
        cs = [affine(c) for c in t[1:]]
        if any(c is None for c in cs):
            return None
        r = cs[0]
        for c in cs[1:]:
            if t[0] == "*":
                if r[0] and c[0]:
                    return None
                r = (r[0] * c[1] + c[0] * r[1], r[1] * c[1])
            else:
                k = 1 if t[0] == "+" else -1
                r = (r[0] + k * c[0], r[1] + k * c[1])
        return r
    return None


class Integrand:
    """A formula with its reference reading.

    The argument of a root or logarithm that is affine in the variable counts as one unit there, so that sqrt(1 - 2*x) may be
    sampled where 1 - 2*x > 0; for all other roots and logarithms the conservative domain of prog.ref_all applies.
    """

    def __init__(self, tree, var=X, names=None):
        self.tree = tree
        self.var = var
        self.names = dict({"a": "a", "b": "b", "c": "c"}, **(names or {}))  # how the constants are called
        self.names[X] = var
        self.prog = to_prog(rename(tree, self.names))
        self.units = {}
        self.refprog = to_prog(self._units(tree))
        self.facts = Facts(self.refprog)
        self.text = text(self.prog)
        self.flips = {}
        probes = None
        for ins in self.refprog:
            if ins[0] in TRIGS and self.facts.syms[ins[1]]:
                if probes is None:
                    probes = [self.values(Real(FloatOps), {n: float(v) if k == X else 1.0 for k, n in self.names.items()}) for v in (0, 1, 2)]
                c, d, e = [pr[ins[1]] for pr in probes]
                # sin(-2*x - 1) is kept as -sin(2*x + 1)
                self.flips[ins[1]] = None not in (c, d, e) and abs(c + e - 2 * d) < 1e-9 and c <= 1e-9 and d - c < 1e-9

    def _units(self, t):
        if isinstance(t, str) or t[0] in ("q", "fl"):
            return t
        if t[0] in FRAC or t[0] == "^" and t[3] != 1:
            m = affine(t[1])
            if m is not None and m[0] and (m[1] != 0 or m[0] < 0):
                k = "_%s/%s" % m
                self.units[k] = m
                return [t[0], k] + t[2:]
        if t[0] == "^":
            return ["^", self._units(t[1])] + t[2:]
        return [t[0]] + [self._units(c) for c in t[1:]]

    def values(self, R, env):
        env = {k: env[n] for k, n in self.names.items() if n in env}
        x = env[X]
        for k, (m, c) in self.units.items():
            env[k] = R.o.frac(m) * x + R.o.frac(c)
        return ref_all(self.refprog, self.facts, R, env, True)

    def ref(self, R, env):
        v = self.values(R, env)[-1]
        if v is None:
            raise Undef("outside the domain")
        return v

    def build(self):
        return as_expr(build_all(self.prog, E)[-1], E)

    def points(self, want=3, grid=None):
        """Sample points where it has a value and every trigonometric argument is in the first quadrant (if there are such points,
        else has a fixed sign between poles: shifted arguments)."""
        out, second = [], []
        for g in grid or GRID:
            pt = {n: g if k == X else CONSTS[k] for k, n in self.names.items()}
            R = Real(FloatOps)
            vals = self.values(R, {k: FloatOps.frac(v) for k, v in pt.items()})
            if vals[-1] is None or R.scale > 1e8:
                continue
            q = self.quadrant(vals)
            if q:
                out.append(pt)
                if len(out) >= want:
                    break
        return out

    def quadrant(self, vals):
        for i, flip in self.flips.items():
            v = vals[i]
            if v is None or not 0 < (-v if flip else v) < 1.5707:
                return False
        return True


def check_antiderivative(it, pts, ans, what, strict=False):
    """d(ans)/dvar equals the integrand at the points; returns (points compared, points where the answer has no real value)."""
    n = und = 0
    for pt in pts:
        R = Real(FloatOps)
        try:
            dvalue(ans, {k: FloatOps.frac(v) for k, v in pt.items()}, it.var, R)
        except NonFinite as ex:
            raise Violation("%s = %s contains %s" % (what, show(ans), ex))
        except (Undef, OverflowError, ValueError, ZeroDivisionError) as ex:
            if not strict or "too large" in str(ex):
                und += 1
                continue
        if agree2(it.ref, lambda R, env: dvalue(ans, env, it.var, R)[1], pt, "d/d%s of %s" % (it.var, what), lambda: show(ans)):
            n += 1
    return n, und


def check_symbols(ans, allowed, what):
    names = set()

    def go(e, d=0):
        if isinstance(e, E.Symbol):
            names.add(e.name)
        for c in e.children():
            go(c, d + 1)

    go(ans)
    extra = names - set(allowed)
    if extra:
        raise Violation("%s = %s contains symbols %s that are not in the integrand" % (what, show(ans), sorted(extra)))
