"""C04: no history of operations changes an existing expression, its derived answers, or the caller's containers."""
import random

from hypothesis import strategies as st

import simpy.regex as RX
import sys

import simpy.simplify

SM = sys.modules["simpy.simplify.simplify"]
from simpy.expr import nesting
from simpy.simplify import expand_logs, pythagorean_simplification, simplify, trig_simplify

from ..common import *
from ..engine import Sub
from .c01 import OPS_ALL, decoder

OPS_H = dict(OPS_ALL)
OPS_H.update({"sin": 5, "cos": 5, "tan": 3, "sec": 3, "powr": 16, "mul": 18, "add": 18, "log": 5, "lin": 12, "abs": 5, "pow": 4})
P_H = Profile(OPS_H, maxlen=12)
MAXSIZE = 45

VARS = ("x", "y", "z")  # replaced by the names of the case while it runs


def S(n):
    return E.Symbol(n)


def first(pool, cls, j):
    c = [e for e in pool if isinstance(e, cls)]
    return c[j % len(c)] if c else None


# name -> function(pool, a, b, k): a, b existing expressions, k small int.  Anything may raise; results join the pool.
OPS = {
    "add": lambda a, b, k: a + b,
    "radd": lambda a, b, k: (k - 3) + a,
    "sub": lambda a, b, k: a - b,
    "mul": lambda a, b, k: a * b,
    "div": lambda a, b, k: a / b,
    "rdiv": lambda a, b, k: (k + 1) / a,
    "powi": lambda a, b, k: a ** (k % 4),
    "powq": lambda a, b, k: a ** F(k - 3, 2),
    "pow": lambda a, b, k: a**b,
    "neg": lambda a, b, k: -a,
    "abs": lambda a, b, k: abs(a),
    "Sum": lambda a, b, k: E.Sum([a, b, a, E.Rat(k)]),
    "Prod": lambda a, b, k: E.Prod([a, b, a, E.Rat(k + 1)]),
    "fn": lambda a, b, k: [E.sin, E.cos, E.tan, E.sec, E.csc, E.cot, E.atan, E.log, E.asin][k % 9](a),
    "logb": lambda a, b, k: E.log(a, b),
    "expandable": lambda a, b, k: a.expandable() and None,
    "expand": lambda a, b, k: a.expand(),
    "simplify": lambda a, b, k: simplify(a),
    "trig_simplify": lambda a, b, k: trig_simplify(a)[0],
    "factor": lambda a, b, k: a.factor(),
    "diff": lambda a, b, k: a.diff(S(VARS[k % 3])),
    "subs": lambda a, b, k: a.subs({VARS[k % 3]: b}),
    "subs2": lambda a, b, k: a.subs({VARS[k % 3]: b, VARS[(k + 1) % 3]: E.Rat(k)}),
    "evalf": lambda a, b, k: a.evalf() and None,
    "evalf2": lambda a, b, k: a.evalf(dict(zip(VARS, (2, 3, 1)))) and None,
    "evalf3": lambda a, b, k: a.evalf(dict(zip(VARS, (F(k, 3), 2 + k, F(1, 2))))) and None,
    "repr": lambda a, b, k: repr(a) and None,
    "latex": lambda a, b, k: a.latex() and None,
    "symbols": lambda a, b, k: a.symbols() and None,
    "nesting": lambda a, b, k: nesting(a, S(VARS[k % 3])) and None,
    "nesting0": lambda a, b, k: nesting(a) and None,
    "contains": lambda a, b, k: a.contains(S(VARS[k % 3])) and None,
    "has": lambda a, b, k: a.has(E.sin) and None,
    "count": lambda a, b, k: RX.count(a, b) and None,
    "replace": lambda a, b, k: RX.replace(a, S(VARS[k % 3]), b),
    "replace2": lambda a, b, k: RX.replace(a, b, S("w")),
    "replace_class": lambda a, b, k: RX.replace_class(a, [E.tan, E.sec], [lambda u: E.sin(u) / E.cos(u), lambda u: 1 / E.cos(u)]),
    "expand_logs": lambda a, b, k: expand_logs(a),
    "pythag": lambda a, b, k: pythagorean_simplification(a),
    "fraction": lambda a, b, k: SM.rewrite_as_one_fraction(a),
    "recip": lambda a, b, k: SM.reciprocate_trigs(a),
    "sectan": lambda a, b, k: SM.sectan(a),
    "pts": lambda a, b, k: SM.product_to_sum(a),
    "eq": lambda a, b, k: a == b and None,
    "match": lambda a, b, k: RX.eq(a, [E.sin(RX.any_), RX.any_**2, 2 * RX.any_, 1 - E.sin(RX.any_) ** 2, RX.any_ + 1][k % 5]) and None,
    "match_f": lambda a, b, k: RX.eq(a, [1 + E.tan(RX.any_) ** 2, 1 - E.sin(RX.any_) ** 2][k % 2], up_to_factor=True, up_to_sum=True) and None,
    "match_p": lambda a, b, k: RX.eq(a, E.sin(RX.any_) * E.cos(RX.any_), up_to_factor=True) and None,
    "anys": lambda a, b, k: RX.get_anys(a) and None,
    "numden": lambda a, b, k: [x for x in a.numerator_denominator][k % 2],
    "const": lambda a, b, k: E.remove_const_factor(a),
    "poly": lambda a, b, k: __import__("simpy.polynomial", fromlist=["x"]).is_polynomial(a, S(VARS[k % 3])) and None,
    "integrate": None,
}
NAMES = sorted(OPS)
KIND = {"factor": E.Sum, "fraction": E.Sum, "sectan": E.Sum, "pts": E.Sum, "match_f": E.Sum, "numden": E.Prod, "recip": E.Prod, "expand": (E.Prod, E.Power)}


def run(name, a, b, k):
    if name == "integrate":
        return integrate1(a, S(VARS[0]))
    return OPS[name](a, b, k)


class Clock:
    """Deterministic clock: every reading advances it, so the integrator's 2 s limit becomes a step limit."""

    def __init__(self, step):
        self.t, self.step = 0.0, step

    def time(self):
        self.t += self.step
        return self.t


def integrate1(a, var, steps=4):
    import warnings

    import simpy.integration as SI

    old = SI.time
    SI.time = Clock(2.0 / steps)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            random.seed(0)
            return SI.Integration().integrate(a, var)
    finally:
        SI.time = old


def outcome(fn):
    """('ok', structural snapshot) or ('raised', type)."""
    try:
        r = fn()
    except Exception as ex:
        return ("raised", type(ex).__name__)
    return ("ok", canon(r))


def canon(r):
    if isinstance(r, E.Expr):
        return snapshot(r)
    if isinstance(r, (list, tuple)):
        return [canon(x) for x in r]
    return repr(r)


DERIVED = [
    ("repr", lambda e: repr(e)),
    ("latex", lambda e: e.latex()),
    ("expandable", lambda e: e.expandable()),
    ("expand", lambda e: e.expand() if e.expandable() else None),
    ("symbols", lambda e: sorted(s.name for s in e.symbols())),
    ("nesting 1", lambda e: nesting(e, S(VARS[0]))),
    ("nesting", lambda e: nesting(e)),
    ("nesting 2", lambda e: nesting(e, S(VARS[1]))),
    ("nesting 3", lambda e: nesting(e, S(VARS[2]))),
    ("diff 1", lambda e: E.diff(e, S(VARS[0]))),
    ("diff 2", lambda e: E.diff(e, S(VARS[1]))),
    ("diff 3", lambda e: e.diff(S(VARS[2]))),
    ("contains 1", lambda e: e.contains(S(VARS[0]))),
    ("contains 2", lambda e: e.contains(S(VARS[1]))),
    ("has sin", lambda e: e.has(E.sin)),
    ("has cos", lambda e: e.has(E.cos)),
    ("subs", lambda e: e.subs({VARS[0]: S(VARS[1]) + 1, VARS[1]: E.Rat(2)})),
    ("subs 2", lambda e: e.subs({VARS[0]: E.Rat(3)})),
    ("subs 3", lambda e: e.subs({VARS[0]: E.Rat(2), VARS[1]: E.Rat(5), VARS[2]: E.Rat(3)})),
    ("subs 4", lambda e: e.subs({VARS[0]: E.Rat(5), VARS[1]: E.Rat(2), VARS[2]: E.Rat(3)})),
    ("evalf 1", lambda e: e.evalf(dict(zip(VARS, (F(5, 2), 2, F(7, 2)))))),
    ("evalf 2", lambda e: e.evalf(dict(zip(VARS, (F(1, 3), F(9, 4), 2))))),
    ("evalf 3", lambda e: e.evalf({VARS[0]: 2})),
    ("evalf", lambda e: e.evalf()),
    ("has tan", lambda e: e.has(E.tan)),
    ("contains 3", lambda e: e.contains(S(VARS[2]))),
    ("count", lambda e: [RX.count(e, S(v)) for v in VARS]),
    ("replace 1", lambda e: RX.replace(e, S(VARS[0]), E.Symbol("w"))),
    ("replace 2", lambda e: RX.replace(e, S(VARS[0]), E.Rat(2) * S(VARS[1]))),
    ("match 1", lambda e: [canon(RX.eq(e, q).get("success")) for q in (E.sin(RX.any_), RX.any_**2, 2 * RX.any_)]),
    ("sum matched", lambda e: [bool(RX.eq(e, q, up_to_sum=True).get("success")) for q in (1 + E.tan(RX.any_) ** 2, E.sin(RX.any_) + E.cos(RX.any_))] if isinstance(e, E.Sum) else None),
    ("factor", lambda e: e.factor() if isinstance(e, E.Sum) else None),
    ("numerator_denominator", lambda e: e.numerator_denominator if isinstance(e, E.Prod) else None),
    ("remove_const_factor", lambda e: list(E.remove_const_factor(e, include_factor=True))),
    ("square", lambda e: e * e),
    ("twice", lambda e: e + e),
    ("inverse", lambda e: 1 / e),
    ("sin", lambda e: E.sin(e)),
    ("children", lambda e: e.children()),
]


def derive(e, backwards=False):
    """The answers, asked for in either order; reported in the same."""
    order = DERIVED[::-1] if backwards else DERIVED
    r = [(n, outcome(lambda: f(e))) for n, f in order]
    return r[::-1] if backwards else r


def check(case, rec):
    global VARS
    prog, steps = case
    VARS = naming_of(prog)
    facts = Facts(prog)
    try:
        first_build = build_all(prog, E)
    except BuildError:
        raise Discard("construction raises (C01)")
    pool = [as_expr(v, E) for v in first_build]
    n0 = len(pool)
    snaps = [snapshot(e) for e in pool]
    reprs = [outcome(lambda: repr(e)) for e in pool]
    origin = ["%s" % text(prog, i) for i in range(n0)]
    done = []
    for name, i, j, k in steps:
        name = NAMES[name % len(NAMES)]
        i, j = i % len(pool), j % len(pool)
        if name in KIND and not isinstance(pool[i], KIND[name]):
            c = [q for q in range(len(pool)) if isinstance(pool[q], KIND[name])]
            if c:
                i = c[i % len(c)]
        a, b = pool[i], pool[j]
        if name in ("integrate", "simplify", "trig_simplify") and len(done) > 8:
            continue
        if name == "powi" and ev_size(a) > 12:
            continue
        r = None
        try:
            r = run(name, a, b, k)
        except Exception:
            done.append((name, i, j, k, "raised"))
        else:
            done.append((name, i, j, k, None))
            if isinstance(r, E.Expr):
                try:
                    s = snapshot(r)
                except Violation:
                    s = None
                if s is not None and ev_size(r) <= MAXSIZE and len(pool) < 40 and not r.has(RX.Any_):
                    pool.append(r)
                    snaps.append(s)
                    reprs.append(outcome(lambda: repr(r)))
                    origin.append("%s(#%d, #%d, %d)" % (name, i, j, k))
                    done[-1] = (name, i, j, k, len(pool) - 1)
        # every expression that existed is what it was
        for m in (i, j):
            verify(pool, snaps, reprs, origin, m, done)
    for m in range(len(pool)):
        verify(pool, snaps, reprs, origin, m, done)
    # the same formula evaluated again gives the same expressions, with the same answers as a fresh copy
    again = [as_expr(v, E) for v in build_all(prog, E)]
    for m in range(n0):
        if snapshot(again[m]) != snaps[m]:
            raise Violation("after %s, evaluating %s again gives %s instead of %s" % (hist(done), origin[m], show(again[m]), show(pool[m])))
    # rebuild in a fresh copy only what leads to some pool members, and compare derived answers
    for m in sorted({n0 - 1, n0 // 2, len(pool) - 1, (n0 + len(pool) - 1) // 2}):
        fresh = replay(prog, done, m, n0)
        if fresh is None:
            continue
        if snapshot(fresh) != snaps[m]:
            raise Violation("after %s, repeating %s gives %s instead of %s" % (hist(done), origin[m], show(fresh), show(pool[m])))
        da, db = derive(pool[m]), derive(fresh, True)
        for (n, x), (_, y) in zip(da, db):
            if x != y:
                raise Violation("after %s, %s of %s is %s but of an identical fresh expression %s" % (hist(done), n, show(pool[m]), x, y))
        rec.label("compared with fresh")
    for m in range(len(pool)):
        verify(pool, snaps, reprs, origin, m, done)
    for d in done:
        rec.label("op:%s%s" % (d[0], "!" if d[4] == "raised" else ""))
    rec.nontrivial = sum(1 for d in done if d[4] != "raised") >= 4
    rec.show = {"formula": text(prog), "history": hist(done)}


def ev_size(e):
    return 1 + sum(ev_size(c) for c in e.children())


def hist(done):
    return "; ".join("%s(#%d,#%d,%d)%s" % (n, i, j, k, "" if r is None else " raised" if r == "raised" else "=#%d" % r) for n, i, j, k, r in done)


def verify(pool, snaps, reprs, origin, m, done):
    try:
        s = snapshot(pool[m])
    except Violation as v:
        raise Violation("after %s, the expression %s became malformed: %s" % (hist(done), origin[m], v))
    if s != snaps[m]:
        raise Violation("after %s, the expression #%d = %s changed from %s to %s" % (hist(done), m, origin[m], reprs[m], show(pool[m])))
    r = outcome(lambda: repr(pool[m]))
    if r != reprs[m]:
        raise Violation("after %s, the printed form of #%d = %s changed from %s to %s" % (hist(done), m, origin[m], reprs[m], r))


def replay(prog, done, m, n0):
    """Build pool member m again from scratch, applying only the steps it depends on."""
    base = [as_expr(v, E) for v in build_all(prog, E)]
    if m < n0:
        return base[m]
    by = {d[4]: d for d in done if isinstance(d[4], int)}

    def get(q):
        if q < n0:
            return base[q]
        name, i, j, k, _ = by[q]
        return run(name, get(i), get(j), k)

    return call("repeating the history of #%d" % m, get, m)


def strat():
    b = st.integers(0, 255)
    return st.tuples(P_H.strategy(), st.lists(st.tuples(b, b, b, st.integers(0, 11)), min_size=3, max_size=14))


def decode(raw):
    prog = decoder(P_H, True)(raw[0])
    if prog is None or not raw[1]:
        return None
    return [prog, raw[1]]


# ------------------------------------------------------------------ the caller's containers


def check_containers(case, rec):
    prog, k = case
    try:
        out = [as_expr(v, E) for v in build_all(prog, E)]
    except BuildError:
        raise Discard("construction raises (C01)")
    rnd = random.Random(k)
    lst = [rnd.choice(out) for _ in range(rnd.randint(2, 6))] + [rnd.choice([2, F(1, 2), E.Rat(3)])]
    keep = list(lst)
    snaps = [canon(v) for v in lst]
    for what, fn in [("Sum", lambda: E.Sum(lst)), ("Prod", lambda: E.Prod(lst))]:
        a = outcome(fn)
        if len(lst) != len(keep) or any(p is not q for p, q in zip(lst, keep)) or [canon(v) for v in lst] != snaps:
            raise Violation("%s modified the list it was given" % what)
        if outcome(fn) != a:
            raise Violation("%s of the same list differs the second time" % what)
        try:
            r = fn()
        except Exception:
            continue
        s = snapshot(r)
        lst2 = list(lst)
        r2 = E.Sum(lst2) if what == "Sum" else E.Prod(lst2)
        lst2.reverse()
        lst2.append(E.Symbol("w"))
        if snapshot(r2) != s:
            raise Violation("%s changes when the caller's list is changed afterwards" % what)
    small = [v for v in out if ev_size(v) <= 4 and not isinstance(v, E.Rat)] or [E.Symbol("t")]  # (numeric towers of powers take forever)
    d = {"x": rnd.choice(small), "y": rnd.choice(small if any(ins[0] in ("pow", "exp") for ins in prog) else [2, F(1, 3), E.Rat(5)]), "q": rnd.choice(small)}
    keepd = dict(d)
    root = out[-1]
    for what, fn in [("subs", lambda: root.subs(d)), ("evalf", lambda: root.evalf(d))]:
        a = outcome(fn)
        if list(d) != list(keepd) or any(d[q] is not keepd[q] for q in d):
            raise Violation("%s modified the dictionary it was given" % what)
        b = outcome(fn)
        if a != b:
            raise Violation("%s of %s twice with the same dictionary: %s then %s" % (what, show(root), a, b))
    # lists handed out by the library must not be an entry into the expression
    s = snapshot(root)
    xs = call("symbols", root.symbols)
    names = sorted(q.name for q in xs)
    if sorted(q.name for q in call("symbols", root.symbols)) != names:
        raise Violation("symbols() of %s differs between calls" % show(root))
    if snapshot(root) != s:
        raise Violation("symbols() changed the expression")
    # functional helpers leave their argument lists alone
    cls = [E.tan, E.sec]
    fns = [lambda u: E.sin(u) / E.cos(u), lambda u: 1 / E.cos(u)]
    k1, k2 = list(cls), list(fns)
    outcome(lambda: RX.replace_class(root, cls, fns))
    if cls != k1 or fns != k2:
        raise Violation("replace_class modified its arguments")
    rec.nontrivial = len(prog) >= 4
    rec.show = text(prog)


SUBS = [
    Sub("history", check, strat, decode, quick=3600),
    Sub("containers", check_containers, lambda: st.tuples(P_H.strategy(), st.integers(0, 10**6)), lambda r: (lambda p: None if p is None else [p, r[1]])(decoder(P_H)(r[0])), quick=1600),
]
