"""C03: canonical sums and products; sound structural equality."""
import random

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import P_ALG, P_ALL, decoder

Rat, Sym = E.Rat, E.Symbol
X, Y, Z, W = Sym("x"), Sym("y"), Sym("z"), Sym("abc")


def atoms():
    return [X, Y, Z, W, E.sin(X), E.log(Y), E.pi, E.cos(X + 1), E.tan(Z), E.asin(X), abs(Z), Y + Z + 1]


NA = 12
NSAFE = 11  # the last atom is a sum
EXPO = [F(1), F(2), F(-1), F(1, 2), F(3), F(-2), F(-1, 2), F(3, 2), F(1, 3), F(-3)]
COEF = [F(1), F(2), F(-1), F(3), F(1, 2), F(-2), F(-1, 2), F(2, 3), F(-3), F(5), F(-5, 3), F(7, 2)]


def mono(m):
    """m = [coef index, [[atom, exponent index], ...]] as a simpy term and as a model (coef, {atom: exponent})."""
    c = COEF[m[0] % len(COEF)]
    A = atoms()
    d = {}
    fs = []
    for a, k in m[1]:
        q = EXPO[k % len(EXPO)]
        d[a] = d.get(a, F(0)) + q
        fs.append((a, q))
    d = {a: q for a, q in d.items() if q}
    return c, d, [Rat(c)] + [A[a] ** Rat(q) for a, q in fs]


def shuffle(lst, rnd):
    lst = list(lst)
    rnd.shuffle(lst)
    return lst


def regroup(items, op, rnd):
    """Combine the items pairwise in a random order and grouping with the binary operator."""
    items = shuffle(items, rnd)
    while len(items) > 1:
        i = rnd.randrange(len(items) - 1)
        a, b = items[i], items[i + 1]
        items[i : i + 2] = [op(a, b)]
    return items[0]


def read_factor(t, amap, what):
    """(coef, {atom snapshot: exponent}) of one factor."""
    if type(t) is Rat:
        return t.value, {}
    s = snapshot(t)
    if s in amap:
        return F(1), {amap[s]: F(1)}
    if type(t) is E.Power and type(t.exponent) is Rat and snapshot(t.base) in amap:
        return F(1), {amap[snapshot(t.base)]: t.exponent.value}
    raise Violation("%s contains the unexpected factor %s" % (what, show(t)))


def read_term(t, amap, what):
    if type(t) is not E.Prod:
        c, d = read_factor(t, amap, what)
        return c, d
    c, d = F(1), {}
    nr = 0
    for f in t.terms:
        if type(f) is E.Prod:
            raise Violation("%s has a product inside a product: %s" % (what, show(t)))
        fc, fd = read_factor(f, amap, what)
        if type(f) is Rat:
            nr += 1
            if f.value == 1:
                raise Violation("%s keeps a unit factor: %r" % (what, snapshot(t)))
        c *= fc
        for a, q in fd.items():
            if a in d:
                raise Violation("%s has two factors with the same base: %s" % (what, show(t)))
            d[a] = q
    if nr > 1:
        raise Violation("%s has more than one numeric factor: %s" % (what, show(t)))
    return c, d


def check_prod(case, rec):
    m, seed = case
    c, d, fs = mono(m)
    hassum = any(a >= NSAFE for a, _ in m[1])
    if hassum and c < 0:
        c = -c
        fs[0] = Rat(c)
    rnd = random.Random(seed)
    amap = {snapshot(a): i for i, a in enumerate(atoms())}
    base = call("product", E.Prod, shuffle(fs, rnd))
    what = "product of %s" % [show(f) for f in fs]
    c2, d2 = read_term(base, amap, what)
    if (c2, d2) != (c, d):
        raise Violation("%s is %s: factors %s, expected %s" % (what, show(base), (str(c2), {show(atoms()[a]): str(q) for a, q in d2.items()}), (str(c), {show(atoms()[a]): str(q) for a, q in d.items()})))
    s0 = snapshot(base)
    for how in range(3):
        if how == 0:
            other = call("product", E.Prod, shuffle(fs, rnd))
        elif how == 1:
            other = call("product", regroup, fs, lambda a, b: a * b, rnd)
        else:
            k = rnd.randrange(len(fs) + 1)
            sh = shuffle(fs, rnd)
            other = call("product", lambda: E.Prod(sh[:k] or [1]) * E.Prod(sh[k:] or [1]))
        if snapshot(other) != s0:
            raise Violation("%s depends on order or grouping: %s vs %s (%r vs %r)" % (what, show(base), show(other), s0, snapshot(other)))
        if not other == base or other != base:
            raise Violation("%s: two identical results compare unequal" % what)
    rec.nontrivial = len(m[1]) >= 3
    rec.label("factors:%d" % len(m[1]), "bases:%d" % len(d))
    if len(d) < len({a for a, _ in m[1]}):
        rec.label("cancelled")


def key(d):
    return tuple(sorted(d.items()))


def check_sum(case, rec):
    ms, seed = case
    rnd = random.Random(seed)
    amap = {snapshot(a): i for i, a in enumerate(atoms())}
    model = {}
    terms = []
    for m in ms:
        m = [m[0], [[a % NSAFE, k] for a, k in m[1]]]
        c, d, fs = mono(m)
        terms.append(call("term", E.Prod, fs))
        model[key(d)] = model.get(key(d), F(0)) + c
    model = {k: c for k, c in model.items() if c}
    base = call("sum", E.Sum, list(terms))
    what = "sum of %s" % [show(t) for t in terms]
    got = {}
    parts = base.terms if type(base) is E.Sum else [base]
    for t in parts:
        if type(t) is E.Sum:
            raise Violation("%s has a sum inside a sum: %s" % (what, show(base)))
        c, d = read_term(t, amap, what)
        if key(d) in got:
            raise Violation("%s leaves like terms uncollected: %s" % (what, show(base)))
        if c == 0 and type(base) is E.Sum:
            raise Violation("%s keeps a zero term: %s" % (what, show(base)))
        got[key(d)] = c
    if got != model and not (not model and got == {(): 0}):
        raise Violation("%s is %s; expected the collected terms %s" % (what, show(base), {k: str(v) for k, v in model.items()}))
    s0 = snapshot(base)
    for how in range(3):
        if how == 0:
            other = call("sum", E.Sum, shuffle(terms, rnd))
        elif how == 1:
            other = call("sum", regroup, terms, lambda a, b: a + b, rnd)
        else:
            k = rnd.randrange(len(terms) + 1)
            sh = shuffle(terms, rnd)
            other = call("sum", lambda: E.Sum(sh[:k] or [0]) - E.Sum([-t for t in sh[k:]] or [0]))
        if snapshot(other) != s0:
            raise Violation("%s depends on order or grouping: %s vs %s" % (what, show(base), show(other)))
        if not other == base or other != base:
            raise Violation("%s: two identical results compare unequal" % what)
    rec.nontrivial = len(ms) >= 3
    rec.label("terms:%d" % len(ms), "collected:%d" % (len(ms) - len(model)))


def wellformed(e, what):
    if type(e) in (E.Sum, E.Prod):
        cls = type(e)
        if len(e.terms) < 2:
            raise Violation("%s: a %s of %d terms" % (what, cls.__name__, len(e.terms)))
        if any(type(t) is cls for t in e.terms):
            raise Violation("%s: %s nested in %s (%r)" % (what, cls.__name__, cls.__name__, snapshot(e)))
        rats = [t for t in e.terms if type(t) is Rat]
        if len(rats) > 1:
            raise Violation("%s: numbers left uncombined in %s" % (what, show(e)))
        if rats and rats[0].value == (0 if cls is E.Sum else 1):
            raise Violation("%s: identity element left in %s (%r)" % (what, cls.__name__, snapshot(e)))
        if cls is E.Prod and rats and rats[0].value == 0:
            raise Violation("%s: zero factor left in %r" % (what, snapshot(e)))
        keys = []
        for t in e.terms:
            if cls is E.Sum:
                k = [snapshot(f) for f in t.terms if type(f) is not Rat] if type(t) is E.Prod else [snapshot(t)]
                if type(t) is Rat:
                    continue
            else:
                b = t.base if type(t) is E.Power else t
                if type(b) is Rat:  # numeric radicals (2*sqrt(2) or 2^(3/2)) have no canonical form
                    continue
                k = snapshot(b)
            keys.append(repr(k))
        if len(set(keys)) != len(keys):
            raise Violation("%s: %s in %s (%r)" % (what, "like terms uncollected" if cls is E.Sum else "equal bases uncollected", show(e), snapshot(e)))
    if type(e) is E.Power:
        if type(e.exponent) is Rat and e.exponent.value in (0, 1):
            raise Violation("%s: trivial power %r" % (what, snapshot(e)))
    for c in e.children():
        wellformed(c, what)


def check_wellformed(case, rec):
    """Random formulas: every intermediate result is flat and collected; permuting the argument list changes nothing."""
    prog, seed = case
    rnd = random.Random(seed)
    facts = Facts(prog)
    cs = caches(prog, facts)
    out = build_checked(prog, cs)
    exprs = []
    for i, v in enumerate(out):
        if isinstance(v, E.Expr):
            if nonfinite(v):
                continue
            wellformed(v, "result of %s" % text(prog, i))
            exprs.append(v)
    if len(exprs) < 2:
        raise Discard("trivial")
    for cls in (E.Sum, E.Prod):
        picks = [exprs[rnd.randrange(len(exprs))] for _ in range(rnd.randrange(2, 6))]
        a = call(cls.__name__, cls, list(picks))
        b = call(cls.__name__, cls, shuffle(picks, rnd))
        if nonfinite(a):
            continue
        wellformed(a, "%s(%s)" % (cls.__name__, [show(p) for p in picks]))
        if numradical(a) or any(numradical(p) for p in picks):
            rec.label("has numeric radicals")
            continue
        if snapshot(a) != snapshot(b):
            raise Violation("%s of %s depends on the order of its arguments: %s vs %s" % (cls.__name__, [show(p) for p in picks], show(a), show(b)))
        if not a == b:
            raise Violation("identical results compare unequal: %s" % show(a))
        rec.label(cls.__name__)
    rec.nontrivial = len(exprs) >= 5
    rec.show = text(prog)


def nonfinite(e):
    return type(e) in (E.Infinity, E.NegInfinity, E.NaN, E.Float) or any(nonfinite(c) for c in e.children())


def numradical(e):
    if type(e) is E.Power and type(e.base) is Rat:
        return True
    return any(numradical(c) for c in e.children())


def check_equality(case, rec):
    prog, seed = case
    facts = Facts(prog)
    cs = caches(prog, facts)
    out = build_checked(prog, cs)
    again = build_checked(prog, cs)
    mut = mutate(prog, random.Random(seed))
    third = None
    try:
        third = build_all(mut, E)
    except Exception:
        pass
    group = []
    for lst in (out, again, third or []):
        for v in lst[-4:]:
            if isinstance(v, E.Expr) and not nonfinite(v):
                group.append(v)
    for a, b in zip(out, again):
        if isinstance(a, E.Expr) and not nonfinite(a) and not (a == b and not a != b):
            raise Violation("%s built twice compares unequal" % show(a))
    snaps = [snapshot(v) for v in group]
    n_eq = 0
    for i in range(len(group)):
        for j in range(len(group)):
            a, b = group[i], group[j]
            r = call("comparison", lambda: a == b)
            if r is not True and r is not False:
                raise Violation("%s == %s gives %r" % (show(a), show(b), r))
            if bool(a != b) == r:
                raise Violation("== and != agree on %s, %s" % (show(a), show(b)))
            same = snaps[i] == snaps[j]
            if r != same:
                raise Violation("%s == %s is %r but their structures are %s" % (show(a), show(b), r, "identical" if same else "different: %r / %r" % (snaps[i], snaps[j])))
            if r and i != j:
                n_eq += 1
    # equal expressions have equal values even when they come from different formulas
    if third is not None:
        f3 = Facts(mut)
        c3 = caches(mut, f3)
        a, b = out[-1], third[-1]
        if isinstance(a, E.Expr) and isinstance(b, E.Expr) and not nonfinite(a) and not nonfinite(b) and a == b:
            rec.label("mutant equal")
            for p, q in zip(cs, c3):
                r1, r2 = p.ref(len(prog) - 1), q.ref(len(mut) - 1)

                def got(R, env):
                    try:
                        return r2(R, env)
                    except Undef:
                        raise Undef("too large: the other formula is undefined here")

                agree2(r1, got, p.pt, "%s == %s" % (text(prog), text(mut)), lambda: show(b))
        elif isinstance(a, E.Expr):
            rec.label("mutant different")
    rec.nontrivial = len(group) >= 6 and n_eq >= 4
    rec.show = text(prog)


def mutate(prog, rnd):
    """A nearby formula: one instruction changed."""
    prog = [list(i) for i in prog]
    for _ in range(8):
        k = rnd.randrange(len(prog))
        ins = prog[k]
        op = ins[0]
        if op in ("add", "sub", "mul", "div"):
            ch = rnd.choice(["op", "swap", "arg"])
            if ch == "op":
                ins[0] = rnd.choice(["add", "sub", "mul", "div"])
            elif ch == "swap":
                ins[1], ins[2] = ins[2], ins[1]
            else:
                ins[1 + rnd.randrange(2)] = rnd.randrange(k)
            break
        if op == "rat":
            ins[1] += rnd.choice([-1, 1])
            break
        if op == "powr":
            ins[2] += rnd.choice([-1, 1])
            break
        if op in ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "exp", "abs"):
            ins[0] = rnd.choice(["sin", "cos", "tan", "atan", "abs", "log", "csc"])
            break
        if op == "lin":
            ins[1] = [ins[1][0] + 1, ins[1][1]]
            break
    return prog


def with_seed(P):
    d = decoder(P)

    def dec(raw):
        prog = d(raw[0])
        return None if prog is None else [prog, raw[1]]

    return lambda: st.tuples(P.strategy(), st.integers(0, 10**6)), dec


S_ALG, D_ALG = with_seed(P_ALG)
S_ALL, D_ALL = with_seed(P_ALL)

MONO = lambda lo, hi: st.tuples(st.integers(0, 11), st.lists(st.tuples(st.integers(0, NA - 1), st.integers(0, 9)), min_size=lo, max_size=hi))

SUBS = [
    Sub("product", check_prod, lambda: st.tuples(MONO(2, 7), st.integers(0, 10**6)), quick=6000),
    Sub("sum", check_sum, lambda: st.tuples(st.lists(MONO(0, 3), min_size=2, max_size=7), st.integers(0, 10**6)), quick=4000),
    Sub("wellformed", check_wellformed, S_ALG, D_ALG, quick=8000),
    Sub("wellformed_all", check_wellformed, S_ALL, D_ALL, quick=6000),
    Sub("equality", check_equality, S_ALL, D_ALL, quick=6000),
]
