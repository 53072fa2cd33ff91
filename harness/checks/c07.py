"""C07: simplification keeps the value and always answers."""
from hypothesis import strategies as st

import sys

from ..common import *
from ..engine import Sub
from .c01 import OPS_ALL, P_ALL, decoder

import simpy.simplify  # noqa: F401

SM = sys.modules["simpy.simplify.simplify"]

OPS_TRIG = {"add": 16, "sub": 12, "mul": 18, "div": 8, "neg": 3, "powr": 20, "sqrt": 2, "abs": 1, "Sum": 6, "Prod": 4, "rat": 8, "lin": 6,
            "sin": 8, "cos": 8, "tan": 5, "sec": 5, "csc": 4, "cot": 4, "log": 1, "exp": 1, "pifrac": 1}
TEXPS = [(2, 1), (2, 1), (2, 1), (-1, 1), (-2, 1), (3, 1), (4, 1), (1, 2), (-3, 1), (5, 1), (-4, 1)]
P_TRIG = Profile(OPS_TRIG, syms=("x", "y"), exps=TEXPS, maxlen=14)
OPS_LOG = {"add": 10, "sub": 6, "mul": 14, "div": 8, "powr": 10, "sqrt": 3, "abs": 5, "Sum": 3, "rat": 6, "lin": 6, "log": 14, "logb": 8, "sec": 2, "csc": 2, "cot": 2, "sin": 1, "exp": 3, "pow": 2, "neg": 2}
P_LOG = Profile(OPS_LOG, syms=("x", "y"), maxlen=10)


class PB:
    """Program builder with formula-level helpers; every method returns an instruction index."""

    def __init__(self, syms=("x", "y", "z")):
        self.p = [["sym", s] for s in syms]
        self.i = {s: k for k, s in enumerate(syms)}

    def add(self, *ins):
        ins = list(ins)
        for k, v in enumerate(self.p):
            if v == ins and not operands(ins):
                return k
        self.p.append(ins)
        return len(self.p) - 1

    def rat(self, q):
        q = F(q)
        return self.add("rat", q.numerator, q.denominator)

    def op(self, name, *a):
        return self.add(name, *a)

    def pw(self, b, n):
        n = F(n)
        return b if n == 1 else self.add("powr", b, n.numerator, n.denominator)

    def prod(self, fs):
        fs = [f for f in fs if f is not None]
        if not fs:
            return self.rat(1)
        r = fs[0]
        for f in fs[1:]:
            r = self.add("mul", r, f)
        return r

    def sum(self, ts):
        r = ts[0]
        for t in ts[1:]:
            r = self.add("add", r, t)
        return r

    def angle(self, k):
        x, y, z = (self.i[s] for s in "xyz")
        return [
            lambda: x,
            lambda: y,
            lambda: self.add("lin", [2, 1], "x"),
            lambda: self.add("add", x, y),
            lambda: self.add("lin", [1, 2], "x"),
            lambda: self.add("lin", [3, 1], "y"),
            lambda: self.add("add", self.add("lin", [2, 1], "x"), self.rat(1)),
            lambda: self.add("mul", x, y),
            lambda: self.pw(x, 2),
            lambda: self.add("lin", [-1, 1], "x"),
            lambda: self.add("lin", [3, 2], "z"),
            lambda: self.add("exp", y),
            lambda: self.add("sub", x, y),
            lambda: self.add("pifrac", 1, 5),
            lambda: self.add("add", x, self.add("pifrac", 1, 3)),
            lambda: self.add("pifrac", 1, 12),
        ][k % 16]()

    def fac(self, k, j=0):
        """A common factor; None means 1."""
        x, y, z = (self.i[s] for s in "xyz")
        return [
            lambda: None,
            lambda: self.rat(3),
            lambda: self.rat(-1),
            lambda: z,
            lambda: self.add("mul", self.rat(F(-2, 3)), y),
            lambda: self.rat(F(1, 2)),
            lambda: self.pw(self.add("cos", self.angle(j)), 2),
            lambda: self.pw(self.add("sin", self.angle(j)), 2),
            lambda: self.add("tan", self.angle(j)),
            lambda: self.add("exp", x),
            lambda: self.add("mul", x, z),
            lambda: self.add("pi"),
            lambda: self.pw(z, -1),
            lambda: self.add("cos", self.angle(j)),
            lambda: self.pw(self.add("sec", self.angle(j)), 2),
            lambda: self.add("sqrt", self.rat(2)),
            lambda: self.add("mul", self.rat(5), self.pw(self.add("sin", self.angle(j)), 3)),
            lambda: self.add("add", y, self.rat(1)),
        ][k % 18]()


IDENT = ("pyth", "tan1", "cot1", "sec1", "csc1", "sin1", "cos1", "sectan", "double", "addn", "quot", "recip", "prods", "sinp", "frac", "mono", "csccot", "mixed")


def plant(b, kind, a1, a2, n, f):
    """A list of addends (indices) forming an instance of an identity, each multiplied by the factor f (None = 1)."""
    A, B = b.angle(a1), b.angle(a2)
    fn = lambda name, u: b.add(name, u)
    one = b.rat(1)
    m = lambda *fs: b.prod([f] + list(fs))
    mn = lambda *fs: b.prod([b.rat(-1), f] + list(fs))
    if kind == "pyth":
        return [m(b.pw(fn("sin", A), 2)), m(b.pw(fn("cos", A), 2))]
    if kind in ("tan1", "cot1"):
        return [m(one), m(b.pw(fn(kind[:3], A), 2))]
    if kind in ("sec1", "csc1"):
        return [mn(one), m(b.pw(fn(kind[:3], A), 2))]
    if kind in ("sin1", "cos1"):
        return [m(one), mn(b.pw(fn(kind[:3], A), 2))]
    if kind == "sectan":
        ts = [m(b.pw(fn("sec", A), (2, 4, 6, 2, 4, 3, 5, 1)[n % 8])), mn(b.pw(fn("tan", A), (2, 4, 2, 3)[n // 8 % 4]))]
        return ts + [(m, mn)[n // 64 % 2](one)] if n // 32 % 2 else ts
    if kind == "csccot":
        return [m(b.pw(fn("csc", A), 2)), mn(b.pw(fn("cot", A), 2))]
    if kind == "double":
        d = b.add("mul", b.rat(2), A)
        return [m(b.rat(2), fn("sin", A), fn("cos", A)), mn(fn("sin", d))]
    if kind == "addn":
        s = [("sin", "cos", "cos", "sin"), ("cos", "cos", "sin", "sin")][n % 2]
        sg = mn if n % 4 >= 2 else m
        return [m(fn(s[0], A), fn(s[1], B)), sg(fn(s[2], A), fn(s[3], B))]
    if kind == "quot":
        p, q = [("sin", "cos"), ("cos", "sin"), ("sec", "csc"), ("sin", "sec"), ("cos", "csc"), ("tan", "sec")][n % 6]
        return [m(b.add("div", fn(p, A), b.pw(fn(q, A), 1 + n // 6 % 3)))]
    if kind == "recip":
        p = FNS[n % 6]
        return [m(b.pw(fn(p, A), -(1 + n // 6 % 4)))]
    if kind == "prods":
        k = 2 + n % 2
        fs = [b.pw(fn("sin" if (n >> j) & 1 else "cos", b.angle((a1 * (j + 1) + a2 * j) % 16)), 1 + (n >> (2 * j + 2)) % 3) for j in range(k)]
        return [m(*fs)]
    if kind == "sinp":
        return [m(b.pw(fn("sin" if n % 2 else "cos", A), (2, 3, 4, 5, 2, 3, 4, 6, 7, 8, 9, 10, 11)[n // 2 % 13]))]
    if kind == "frac":
        den = [fn("cos", A), b.pw(fn("sin", A), 2), b.add("add", one, fn("sin", A)), b.add("sub", one, b.pw(fn("cos", A), 2)), fn("tan", A)][n % 5]
        return [m(b.add("div", [one, fn("sin", B), b.pw(fn("cos", A), 2)][n // 5 % 3], den))]
    if kind == "mixed":
        return [m(b.pw(fn("sin", A), 2)), m(b.pw(fn("cos", B), 2)), m(b.pw(fn("cos", A), 2))]
    return [m(one)]


FNS = ("sin", "cos", "tan", "sec", "csc", "cot")


def trig_sum(case):
    """{'plants': [[kind, a1, a2, n, f, fj]...], 'rest': [[f, fj]...], 'wrap': k} -> program"""
    b = PB()
    ts = []
    for kind, a1, a2, n, f, fj in case[0]:
        ts += plant(b, IDENT[kind % len(IDENT)], a1, a2, n, b.fac(f, fj))
    for f, fj in case[1]:
        k = b.fac(f, fj)
        ts.append(b.rat(1) if k is None else k)
    o = case[3] if len(case) > 3 else 0
    ts = ts[o % len(ts):] + ts[: o % len(ts)]
    if o % 2:
        ts.reverse()
    s = b.sum(ts)
    w = case[2] % 24
    if w == 1:
        s = b.pw(s, 2)
    elif w == 2:
        s = b.add("sqrt", s)
    elif w == 3:
        s = b.add("log", s)
    elif w == 4:
        s = b.add("mul", b.i["x"], s)
    elif w == 5:
        s = b.add("exp", s)
    elif w == 6:
        s = b.pw(s, -1)
    elif w == 7:
        s = b.add("div", s, b.add("sin", b.i["x"]))
    elif w == 8:
        s = b.add("abs", s)
    elif w == 9:
        s = b.add("atan", s)
    elif w == 10:
        s = b.add("add", b.add("log", s), b.i["y"])
    return prune(b.p, s)


def strat_sum():
    i = st.integers(0, 15)
    s = st.integers(0, 255)
    pl = st.tuples(st.integers(0, len(IDENT) - 1), i, i, s, st.integers(0, 17), i)
    return st.tuples(st.lists(pl, min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 17), i), max_size=2), st.integers(0, 23), st.integers(0, 9))


def dec_sum(raw):
    from .c05 import json_like

    return json_like(raw)


def run_value(prog, rec, fn=None, name="simplify", strict=True, twice=True):
    fn = fn or SM.simplify
    facts = Facts(prog)
    cs = caches(prog, facts, strict_log=strict)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    try:
        e = as_expr(build_all(prog, E)[-1], E)
    except BuildError:
        raise Discard("construction raises (C01)")
    s0 = snapshot(e)
    r = call("%s(%s)" % (name, show(e)), fn, e)
    if snapshot(e) != s0:
        raise Violation("%s changed its argument %s" % (name, show(e)))
    if r is None:
        rec.label("None")
        return e, None
    n = 0
    for c in cs:
        n += agree(c.ref(i), r, c.pt, "%s of %s" % (name, show(e)))
    changed = snapshot(r) != s0
    if twice and changed:
        r2 = call("%s(%s)" % (name, show(r)), fn, r)
        if r2 is not None:
            for c in cs[:3]:
                agree(c.ref(i), r2, c.pt, "%s of %s" % (name, show(r)))
    rec.label("changed" if changed else "unchanged")
    rec.nontrivial = n > 0 and changed
    rec.show = text(prog)
    return e, r


def check_sum(case, rec):
    run_value(trig_sum(case), rec)
    for p in case[0]:
        rec.label("identity:" + IDENT[p[0] % len(IDENT)])


def check_prog(case, rec):
    run_value(case, rec)


def log_sum(case):
    """[[arg spec, base, coefficient factor]...], wrap -> sum of logarithms of products, powers, reciprocals."""
    b = PB()
    x, y, z = (b.i[s] for s in "xyz")
    ts = []
    for fs, kind, base, fk, fj in case[0]:
        atoms = [
            x, y, z, b.add("add", x, b.rat(1)), b.add("exp", y), b.add("cos", x), b.add("sec", y), b.add("csc", b.add("add", x, y)), b.add("cot", x),
            b.rat(2), b.rat(F(1, 3)), b.add("add", x, b.add("mul", x, y)), b.add("add", b.add("mul", b.rat(2), x), b.add("mul", b.rat(4), z)),
            b.add("pi"), b.add("tan", b.add("lin", [1, 2], "y")), b.add("pow", x, y), b.add("log", z),
        ]
        arg = b.prod([b.pw(atoms[a % len(atoms)], [1, 2, -1, F(1, 2), 3, -2, F(2, 3)][k % 7]) for a, k in fs])
        if kind == 1:
            arg = b.add("abs", arg)
        elif kind == 2:
            arg = b.add("abs", b.add("neg", arg))
        elif kind == 3:
            arg = b.add("sqrt", arg)
        elif kind == 4:
            arg = b.add("sub", arg, b.rat(1))
        bs = [None, None, None, b.rat(2), b.rat(10), y, b.rat(F(1, 2)), b.add("e")][base % 8]
        l = b.add("log", arg) if bs is None else b.add("logb", arg, bs)
        ts.append(b.prod([b.fac(fk, fj), l]))
    s = b.sum(ts)
    w = case[1] % 12
    if w == 1:
        s = b.pw(s, 2)
    elif w == 2:
        s = b.add("exp", s)
    elif w == 3:
        s = b.add("div", s, b.add("add", x, s))
    elif w == 4:
        s = b.add("log", s)
    elif w == 5:
        s = b.add("add", s, b.add("mul", x, y))
    elif w == 6:
        s = b.add("sin", s)
    return prune(b.p, s)


def strat_log():
    i = st.integers(0, 16)
    fs = st.lists(st.tuples(i, st.integers(0, 6)), min_size=1, max_size=3)
    return st.tuples(st.lists(st.tuples(fs, st.integers(0, 5), st.integers(0, 7), i, i), min_size=1, max_size=2), st.integers(0, 11))


def check_log(case, rec):
    run_value(log_sum(case), rec)


def all_identities(tier):
    """Every identity kind with every common factor, alone and next to other terms, over a few angles."""
    angles = [0, 6] if tier == "quick" else range(16)
    for k in range(len(IDENT)):
        for f in range(18):
            for a in angles:
                for n in range(6) if tier == "quick" else range(16):
                    if n and IDENT[k] in ("pyth", "tan1", "cot1", "sec1", "csc1", "sin1", "cos1", "csccot", "mono", "mixed", "double"):
                        if n == 1 and f in (0, 1, 3):
                            yield [[[k, a, 1, 0, f, 1]], [[4, 0], [11, 0]], 0, 0]
                        continue
                    yield [[[k, a, 1, n * (1 if n < 4 else 7), f, 1]], [[3, 0]] if (n + f) % 3 == 0 else [], 0, 0]


def power_sum(case):
    """c1*f^m + c2*g^n + rest"""
    f, g, m, n, a, c, rest = case
    b = PB()
    A = b.angle(a)
    ts = [b.pw(b.add(f, A), m), b.prod([b.rat(c) if c != 1 else None, b.pw(b.add(g, A), n)])]
    if rest:
        ts.append(b.rat(rest) if rest != "y" else b.i["y"])
    return prune(b.p, b.sum(ts))


def all_powers(tier):
    """Two powers of related functions next to a constant: the identities need particular powers, not only even ones."""
    top = 6 if tier == "quick" else 9
    for f, g in (("sec", "tan"), ("csc", "cot"), ("sin", "cos"), ("tan", "sec"), ("cos", "sin"), ("cot", "csc")):
        k = 0
        for m in range(1, top + 1):
            for n in range(1, top + 1):
                for c in (-1, 1) if m != n or tier != "quick" else (-1, 1, 2):
                    for rest in (0, -1, 1, "y") if tier != "quick" else ((-c if m % 2 else c, "y"), (0, c))[(m + n) % 2]:
                        k += 1
                        yield [f, g, m, n, (0, 6, 2)[k % 3], c, rest]


def check_powers(case, rec):
    run_value(power_sum(case), rec)
    rec.label("powers:%s" % "/".join(case[:2]))


SUBS = [
    Sub("powers", check_powers, cases=all_powers, show=lambda c: text(power_sum(c))),
    Sub("all_identities", check_sum, cases=all_identities, show=lambda c: text(trig_sum(c))),
    Sub("identities", check_sum, strat_sum, dec_sum, quick=1400, show=lambda c: text(trig_sum(c))),
    Sub("log_terms", check_log, strat_log, dec_sum, quick=2400, show=lambda c: text(log_sum(c))),
    Sub("trig", check_prog, P_TRIG.strategy, decoder(P_TRIG), quick=1500, show=text),
    Sub("logs", check_prog, P_LOG.strategy, decoder(P_LOG), quick=1500, show=text),
    Sub("mixed", check_prog, P_ALL.strategy, decoder(P_ALL, True), quick=1500, show=text),
]
