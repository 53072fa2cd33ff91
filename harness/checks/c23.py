"""C23: taking an expression apart (numerator/denominator, constant factor, coefficient, base and exponent, sign) loses nothing."""
from fractions import Fraction

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import OPS_ALL
from .c22 import kids, nodes

OPS = {k: v for k, v in OPS_ALL.items() if k not in ("asin", "acos", "atan", "absroot")}
OPS.update(sym=8, lin=8, mul=14, div=12, Prod=8, powr=10, pi=3, e=2, neg=5)
P = Profile(OPS, maxlen=12, minlen=3)


def symfree(e):
    return not any(type(n) is E.Symbol for n in nodes(e))


def factors(e):
    return list(e.terms) if type(e) is E.Prod else [e]


def negexp(f):
    return type(f) is E.Power and isinstance(f.exponent, E.Num) and float(f.exponent.value) < 0


def product(vals, R):
    s = R.o.one
    for v in vals:
        s = R.chk(s * v)
    return s


def same(e, ref, got, what, shower):
    """Both sides evaluated from their structure at the sample points; returns the number of points compared."""
    n = 0
    for i, pt in enumerate(POINTS):
        pt = dict(pt, w=F(-1311 + 977 * i, 1000), n=F(7 + 5 * i, 4))
        for k, name in enumerate(("x", "y", "a", "t")):
            pt.setdefault(name, F(419 + 631 * (i + k), 1000))
        if agree2(ref, got, pt, what, shower):
            n += 1
    return n


def check_parts(case, rec):
    prog = case["prog"]
    if len(prog) > 20 or not tame(prog):
        raise Discard("long")
    facts = Facts(prog)
    out = [as_expr(v, E) for v in build_checked(prog, caches(prog, facts))]
    if any(t in repr(snapshot(out[-1])) for t in ("Infinity", "NaN")):
        raise Discard("infinite")
    examine(out[-1], rec)


def examine(e, rec):
    t = show(e)
    rec.show = t
    seen = prods = compared = 0
    for n in nodes(e):
        s = snapshot(n)
        tn = show(n)
        ref = lambda R, env, n=n: value(n, env, R)
        # --- constant factor
        rest, const = call("remove_const_factor(%s)" % tn, E.remove_const_factor, n, include_factor=True)
        alone = call("remove_const_factor(%s)" % tn, E.remove_const_factor, n)
        what = "taking the constant factor out of %s" % tn
        if snapshot(alone) != snapshot(rest):
            raise Violation("%s leaves %s or %s, depending on whether the factor is asked for" % (what, show(alone), show(rest)))
        if type(n) is E.Prod:
            want = ([snapshot(f) for f in n.terms if not symfree(f)], [snapshot(f) for f in n.terms if symfree(f)])
            got = tuple([snapshot(f) for f in factors(p) if snapshot(f) != ("Rat", 1, 1)] for p in (rest, const))
            if sorted(want[0]) != sorted(got[0]) or sorted(want[1]) != sorted(got[1]):
                raise Violation("%s gives the factor %s and leaves %s" % (what, show(const), show(rest)))
        elif snapshot(rest) != s or snapshot(const) != ("Rat", 1, 1):
            raise Violation("%s gives the factor %s and leaves %s" % (what, show(const), show(rest)))
        compared += same(n, ref, lambda R, env: product([value(rest, env, R), value(const, env, R)], R), what, lambda: "%s times %s" % (show(const), show(rest)))
        # --- base and exponent
        b, x = call("deconstruct_power(%s)" % tn, E.deconstruct_power, n)
        want = (snapshot(n.base), snapshot(n.exponent)) if type(n) is E.Power else (s, ("Rat", 1, 1))
        if (snapshot(b), snapshot(x)) != want:
            raise Violation("%s is taken apart into base %s and exponent %s" % (tn, show(b), show(x)))
        # --- numerator and denominator
        if type(n) is E.Prod:
            prods += 1
            num, den = call("numerator_denominator of %s" % tn, lambda: n.numerator_denominator)
            what = "numerator and denominator of %s" % tn
            pair = "%s over %s" % (show(num), show(den))
            for f in factors(num) + factors(den):
                if negexp(f):
                    raise Violation("%s: %s has the negative power %s" % (what, pair, show(f)))
                if type(f) is E.Rat and f.value.denominator != 1:
                    raise Violation("%s: %s has the fraction %s" % (what, pair, show(f)))
            if any(type(f) is E.Rat and f.value < 0 for f in factors(den)):
                raise Violation("%s: %s has a negative number below" % (what, pair))
            # every factor of the product is found on the right side
            want_n, want_d = [], []
            for f in n.terms:
                if type(f) is E.Rat:
                    want_n += [("Rat", f.value.numerator, 1)] if f.value.numerator != 1 else []
                    want_d += [("Rat", f.value.denominator, 1)] if f.value.denominator != 1 else []
                elif negexp(f):
                    if snapshot(f.exponent) == ("Rat", -1, 1):
                        want_d.append(snapshot(f.base))
                    else:
                        want_d.append(("Power", snapshot(f.base), snapshot(call("negation", lambda: -f.exponent))))
                else:
                    want_n.append(snapshot(f))
            for side, p, want in (("numerator", num, want_n), ("denominator", den, want_d)):
                got = [snapshot(f) for f in factors(p) if snapshot(f) != ("Rat", 1, 1)]
                # a base that is itself a product is one factor of the denominator
                flat = [k for w in want for k in (w[1:] if w[0] == "Prod" else [w])]
                if sorted(map(repr, got)) != sorted(map(repr, want)) and sorted(map(repr, got)) != sorted(map(repr, flat)):
                    raise Violation("%s: the %s is %s" % (what, side, show(p)))
            compared += same(n, ref, lambda R, env: R.chk(value(num, env, R) * R.inv(value(den, env, R))), what, lambda: pair)
        # --- sign
        neg = call("-(%s)" % tn, lambda: -n)
        compared += same(n, lambda R, env: -value(n, env, R), lambda R, env: value(neg, env, R), "-(%s)" % tn, lambda: show(neg))
        if not isinstance(n, E.Num) or n.value:
            a, b = call("is_subtraction of %s" % tn, lambda: n.is_subtraction), call("is_subtraction of %s" % show(neg), lambda: neg.is_subtraction)
            if type(a) is not bool or type(b) is not bool:
                raise Violation("is_subtraction of %s is %r" % (tn, a))
            if a and b:
                raise Violation("both %s and its negation %s count as subtractions" % (tn, show(neg)))
            if type(n) is E.Sum:
                want = all(k.is_subtraction for k in n.terms)
            elif type(n) is E.Prod:
                want = any(type(k) is E.Rat and k.value < 0 for k in n.terms)
            elif isinstance(n, E.Num):
                want = float(n.value) < 0
            else:
                want = False
            if a != want and not (type(n) is E.Prod and any(type(k) is E.Float for k in n.terms)):
                raise Violation("is_subtraction of %s is %s" % (tn, a))
        # --- contents in order
        if type(n) in (E.Sum, E.Prod):
            if [snapshot(k) for k in n] != list(s[1:]) or len(n) != len(s) - 1:
                raise Violation("iterating over %s gives %s" % (tn, list(n)))
        if n.is_int != (type(n) is E.Rat and n.value.denominator == 1) and type(n) is not E.Float:
            raise Violation("is_int of %s is %s" % (tn, n.is_int))
        if snapshot(n) != s:
            raise Violation("taking %s apart changed it to %s" % (tn, show(n)))
        seen += 1
    rec.label("nodes:%d" % (seen // 5 * 5), "products:%d" % min(prods, 3))
    rec.nontrivial = prods >= 1 and seen >= 4 and compared >= 6


# ---------------------------------------------------------------- products with many factors and any coefficient
def atom(k, v, w):
    a, b, c = E.Symbol(v), E.Symbol(w), E.Symbol("w")
    return [
        a, b, c, a + 1, a - b, a + 2 * b + c, E.sin(a), E.cos(a + b), E.log(b), E.tan(2 * a), a**b, E.atan(c), E.Abs(a - 1), E.log(a, 3), 2**a, E.sqrt(a + b),
        E.pi, E.e, E.Rat(2), E.Rat(3), E.Rat(5), E.Rat(7, 3), E.log(2), E.pi + 1, E.sin(1), 1 + E.sqrt(E.Rat(2)),
    ][k]


NATOMS = 26
EXPS = [1, 1, 1, 2, 3, -1, -1, -2, -3, F(1, 2), F(-1, 2), F(3, 2), F(-5, 3), 5, -7, "n", "-n", "n+1"]


def check_products(case, rec):
    v, w = case["names"]
    n = E.Symbol("n")
    try:
        e = E.Rat(F(*case["coef"]))
        for k, x in case["factors"]:
            a = atom(k, v, w)
            p = EXPS[x]
            e = e * a ** {"n": n, "-n": -n, "n+1": n + 1}.get(p, p)
    except Exception as ex:
        raise Discard("construction raises (C01)")
    if any(t in repr(snapshot(e)) for t in ("Infinity", "NaN")):
        raise Discard("infinite")
    examine(e, rec)
    k = len(e.terms) if type(e) is E.Prod else 1
    rec.label("factors:%d" % k)


def strat_products():
    coef = st.tuples(st.one_of(st.integers(-12, 12), st.integers(-400, 400)), st.one_of(st.integers(1, 12), st.integers(1, 1000)))
    return st.tuples(coef, st.lists(st.tuples(st.integers(0, NATOMS - 1), st.integers(0, len(EXPS) - 1)), min_size=1, max_size=7), st.permutations(["x", "y", "a", "t"]))


def check_rat(case, rec):
    v = Fraction(*case["v"])
    r = E.Rat(v)
    rec.show = str(v)
    parts = call("numerator/denominator of %s" % v, lambda: (r.numerator, r.denominator, r.sign, r.is_int, r.is_subtraction))
    want = (("Rat", v.numerator, 1), ("Rat", v.denominator, 1), -1 if v < 0 else 1, v.denominator == 1, v < 0)
    got = (snapshot(parts[0]), snapshot(parts[1])) + parts[2:]
    if got != want:
        raise Violation("numerator, denominator, sign, is_int and is_subtraction of %s are %s" % (v, (parts,)))
    if v:
        x = call("reciprocal of %s" % v, r.reciprocal)
        if snapshot(x) != ("Rat", (1 / v).numerator, (1 / v).denominator):
            raise Violation("the reciprocal of %s is %s" % (v, show(x)))
    for what, x, w in (("E.Rat(%d, %d)" % tuple(case["v"]), call("Rat", E.Rat, *case["v"]), v), ("abs(%s)" % v, abs(r), abs(v)), ("-(%s)" % v, -r, -v)):
        if snapshot(x) != ("Rat", w.numerator, w.denominator):
            raise Violation("%s is %s" % (what, show(x)))
    if snapshot(r) != ("Rat", v.numerator, v.denominator):
        raise Violation("asking %s for its parts changed it to %s" % (v, show(r)))
    rec.nontrivial = v.denominator != 1 and abs(v.numerator) > 1


def strat_rat():
    big = st.one_of(st.integers(-30, 30), st.integers(-(2**70), 2**70))
    return st.tuples(big, st.one_of(st.integers(1, 12), st.integers(1, 2**70), st.integers(-9, -1)))


SUBS = [
    Sub("parts", check_parts, P.strategy, lambda raw: (lambda p: None if p is None else {"prog": prune(p)})(P.decode(raw)), quick=4000),
    Sub("products", check_products, strat_products, lambda raw: None if raw[0][0] == 0 else {"coef": list(raw[0]), "factors": [list(f) for f in raw[1]], "names": raw[2][:2]}, quick=3000),
    Sub("rat", check_rat, strat_rat, lambda raw: {"v": list(raw)}, quick=2000),
]
