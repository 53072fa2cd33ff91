"""C18: polynomial conversion, division, partial fractions, completing the square, matrix inversion - all exact."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import P_ALL, OPS_ALL, decoder
from .c05 import COEF

import numpy as np

import simpy.linalg as LA
import simpy.polynomial as PO
import simpy.transforms as T

PTS = [F(37, 100), F(-83, 100), F(271, 100), F(-419, 100), F(13, 1000), F(1237, 100)]
VARS = ["x", "y", "t", "u_1"]


# ---- model polynomials: lists of Fractions, low degree first, no trailing zeros
def norm(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def add(a, b):
    n = max(len(a), len(b))
    return norm([(a[i] if i < len(a) else F(0)) + (b[i] if i < len(b) else F(0)) for i in range(n)])


def mul(a, b):
    r = [F(0)] * max(len(a) + len(b) - 1, 0)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return norm(r)


def divmod_(a, b):
    a, q = list(a), [F(0)] * max(len(a) - len(b) + 1, 0)
    while len(a) >= len(b):
        c = a[-1] / b[-1]
        k = len(a) - len(b)
        q[k] = c
        a = norm(add(a, [F(0)] * k + [-c * v for v in b]))
    return norm(q), a


def ev(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def as_model(arr, what):
    r = []
    for c in list(arr):
        if type(c) is E.Rat:
            r.append(c.value)
        elif type(c) in (int, F):
            r.append(F(c))
        else:
            raise Violation("%s has the coefficient %s of type %s" % (what, show(c), type(c).__name__))
    return r


def pshow(p):
    return "[" + ", ".join(map(str, p)) + "]"


# ---- expressions with a model, written in several shapes
def build(tree, v):
    """tree: ["c", i] | ["v"] | [op, a, b] | ["pow", a, n]  ->  (expression, model)"""
    op = tree[0]
    if op == "c":
        q = COEF[tree[1] % len(COEF)]
        return E.Rat(q), norm([q])
    if op == "big":
        return E.Rat(tree[1]), norm([F(tree[1])])
    if op == "v":
        return v, [F(0), F(1)]
    if op == "mono":
        return E.Rat(COEF[tree[1] % len(COEF)]) * v ** tree[2], [F(0)] * tree[2] + [COEF[tree[1] % len(COEF)]]
    a, m = build(tree[1], v)
    if op == "pow":
        r = [F(1)]
        for _ in range(tree[2]):
            r = mul(r, m)
        if tree[2] == 0 and not m:
            raise Discard("0^0")
        return call("power", lambda: a ** tree[2]), r
    if op == "neg":
        return call("negation", lambda: -a), [-c for c in m]
    b, n = build(tree[2], v)
    if op == "add":
        return call("sum", lambda: a + b), add(m, n)
    if op == "sub":
        return call("difference", lambda: a - b), add(m, [-c for c in n])
    if op == "mul":
        return call("product", lambda: a * b), mul(m, n)
    if op == "sum3":
        c, o = build(tree[3], v)
        return call("Sum", lambda: E.Sum([a, b, c])), add(add(m, n), o)
    raise KeyError(op)


def trees():
    leaf = st.one_of(
        st.tuples(st.just("c"), st.integers(0, len(COEF) - 1)),
        st.just(("v",)),
        st.tuples(st.just("mono"), st.integers(0, len(COEF) - 1), st.integers(0, 7)),
        st.tuples(st.just("big"), st.integers(-(10**18), 10**18)),
    )

    def ext(s):
        return st.one_of(
            st.tuples(st.sampled_from(["add", "sub", "mul"]), s, s),
            st.tuples(st.just("pow"), s, st.integers(0, 4)),
            st.tuples(st.just("neg"), s),
            st.tuples(st.just("sum3"), s, s, s),
        )

    return st.recursive(leaf, ext, max_leaves=9)


def small(m):
    return len(m) <= 40 and all(abs(c.numerator) < 10**90 and c.denominator < 10**60 for c in m)


def check_roundtrip(case, rec):
    v = E.Symbol(VARS[case["var"] % len(VARS)])
    e, m = build(case["tree"], v)
    if not small(m):
        raise Discard("too large")
    s0 = snapshot(e)
    rec.show = show(e)
    if call("is_polynomial(%s)" % show(e), PO.is_polynomial, e, v) is not True:
        raise Violation("is_polynomial(%s, %s) is not True" % (show(e), v.name))
    arr = call("to_const_polynomial(%s)" % show(e), PO.to_const_polynomial, e, v)
    got = as_model(arr, "to_const_polynomial(%s)" % show(e))
    if got != (m or [F(0)]):
        raise Violation("to_const_polynomial(%s) is %s instead of %s" % (show(e), pshow(got), pshow(m)))
    if snapshot(e) != s0:
        raise Violation("to_const_polynomial changed its argument")
    back = call("polynomial_to_expr(%s)" % pshow(got), PO.polynomial_to_expr, arr, v)
    same_poly(back, m, v, "polynomial_to_expr(%s)" % pshow(got))
    again = as_model(call("to_const_polynomial(%s)" % show(back), PO.to_const_polynomial, back, v), "second conversion")
    if again != got:
        raise Violation("converting %s back and forth gives %s instead of %s" % (show(e), pshow(again), pshow(got)))
    rec.label("degree:%d" % min(len(m), 20))
    rec.nontrivial = len([c for c in m if c]) >= 3


def same_poly(e, m, v, what):
    """e must be the distributed polynomial with model m."""
    got = {}
    for t in e.terms if type(e) is E.Sum else [e]:
        c, k = F(1), F(0)
        for f in t.terms if type(t) is E.Prod else [t]:
            if type(f) is E.Rat:
                c *= f.value
                continue
            b, x = (f.base, f.exponent) if type(f) is E.Power else (f, E.Rat(1))
            if type(b) is not E.Symbol or b.name != v.name or type(x) is not E.Rat:
                raise Violation("%s gives %s, not a polynomial" % (what, show(e)))
            k += x.value
        got[k] = got.get(k, F(0)) + c
    got = {k: c for k, c in got.items() if c}
    want = {F(i): c for i, c in enumerate(m) if c}
    if got != want:
        raise Violation("%s gives %s instead of the polynomial %s" % (what, show(e), pshow(m)))


def strat_roundtrip():
    return st.fixed_dictionaries({"tree": trees(), "var": st.integers(0, 3)})


# ---- arrays
def check_array(case, rec):
    v = E.Symbol(VARS[case["var"] % len(VARS)])
    cs = [F(a, b) for a, b in case["cs"]] + [F(0)] * case["zeros"]
    what = pshow(cs)
    arr = np.array([E.Rat(c) for c in cs], dtype=object)
    r = call("rid_ending_zeros(%s)" % what, PO.rid_ending_zeros, arr)
    if as_model(r, "rid_ending_zeros(%s)" % what) != norm(cs):
        raise Violation("rid_ending_zeros(%s) is %s" % (what, pshow(as_model(r, what))))
    if as_model(arr, what) != cs:
        raise Violation("rid_ending_zeros changed its argument %s" % what)
    if cs:  # floating-point entries are zeros only if they are 0.0
        fl = [c and max(-1e300, min(1e300, float(c / (c.denominator if k % 2 else 10**12)))) for k, c in enumerate(cs)]
        mixed = np.array([E.Float(c) if c and k % 3 else E.Rat(0) if not c else E.Rat(cs[k]) for k, c in enumerate(fl)], dtype=object)
        r = call("rid_ending_zeros(%s)" % list(mixed), PO.rid_ending_zeros, mixed)
        keep = len(norm([F(bool(c)) for c in fl]))
        if [snapshot(x) for x in r] != [snapshot(x) for x in list(mixed)[:keep]]:
            raise Violation("rid_ending_zeros(%s) is %s" % (list(mixed), list(r)))
    e = call("polynomial_to_expr(%s)" % what, PO.polynomial_to_expr, arr, v)
    same_poly(e, norm(cs), v, "polynomial_to_expr(%s)" % what)
    got = as_model(call("to_const_polynomial(%s)" % show(e), PO.to_const_polynomial, e, v), "round trip of %s" % what)
    if got != (norm(cs) or [F(0)]):
        raise Violation("%s becomes %s and then %s" % (what, show(e), pshow(got)))
    rec.show = what
    rec.nontrivial = len(norm(cs)) >= 2 and case["zeros"] > 0


def strat_array():
    c = st.tuples(st.one_of(st.integers(-9, 9), st.integers(-(10**20), 10**20)), st.one_of(st.just(1), st.integers(1, 10**8)))
    return st.fixed_dictionaries({"cs": st.lists(c, max_size=9), "zeros": st.integers(0, 4), "var": st.integers(0, 3)})


# ---- rejection
NONPOLY = [
    lambda v, c: E.sqrt(v),
    lambda v, c: 1 / v,
    lambda v, c: v ** E.Rat(3, 2),
    lambda v, c: v**-2,
    lambda v, c: E.sin(v),
    lambda v, c: E.log(v),
    lambda v, c: E.Rat(2) ** v,
    lambda v, c: E.e**v,
    lambda v, c: abs(v),
    lambda v, c: E.atan(v + 1),
    lambda v, c: v ** E.Symbol("n"),
    lambda v, c: 1 / (v**2 + 1),
    lambda v, c: E.sqrt(v + 5),
    lambda v, c: v**v,
    lambda v, c: E.sec(v) ** 2,
    lambda v, c: E.log(v**2 + 1),
]


def check_reject(case, rec):
    v = E.Symbol(VARS[case["var"] % len(VARS)])
    e, m = build(case["tree"], v)
    if not small(m) or len(m) > 9:
        raise Discard("too large")
    k = case["kind"] % len(NONPOLY)
    g = NONPOLY[k](v, None)
    how = case["how"] % 3
    if how == 0:
        f = call("sum", lambda: e + g)
    elif how == 1:
        # a single non-polynomial term among the others
        f = call("sum", lambda: e + E.Rat(COEF[case["kind"] % len(COEF)]) * v ** (case["how"] % 4) * g)
        if k in (1, 2, 3) and case["how"] % 4:
            raise Discard("may become a polynomial")
    else:
        f = call("difference", lambda: g - e)
    rec.show = show(f)
    r = call("is_polynomial(%s)" % show(f), PO.is_polynomial, f, v)
    if r is not False:
        raise Violation("is_polynomial(%s, %s) is %r" % (show(f), v.name, r))
    try:
        p = PO.to_const_polynomial(f, v)
    except Exception:
        rec.nontrivial = len(m) >= 2
        return
    raise Violation("to_const_polynomial accepts %s as %s" % (show(f), p))


def strat_reject():
    return st.fixed_dictionaries({"tree": trees(), "var": st.integers(0, 3), "kind": st.integers(0, 95), "how": st.integers(0, 11)})


# ---- arbitrary formulas: never raises; whatever is accepted has the right value
def check_general(prog, rec):
    if len(prog) > 9:
        raise Discard("long")
    facts = Facts(prog)
    cs = caches(prog, facts)
    e = as_expr(build_checked(prog, cs)[-1], E)
    v = E.Symbol("x")
    rec.show = show(e)
    r = call("is_polynomial(%s, x)" % show(e), PO.is_polynomial, e, v)
    rec.label("accepted" if r else "rejected")
    if not r:
        rec.nontrivial = len(prog) >= 4 and e.contains(v)
        return
    arr = call("to_const_polynomial(%s)" % show(e), PO.to_const_polynomial, e, v)
    for c in arr:
        if v in as_expr(c, E).symbols():
            raise Violation("to_const_polynomial(%s, x) has the coefficient %s" % (show(e), show(c)))
    back = as_expr(call("polynomial_to_expr", PO.polynomial_to_expr, arr, v), E)
    n = 0
    for c in cs:
        n += agree(c.ref(len(prog) - 1), back, c.pt, "to_const_polynomial and back of %s" % show(e))
    rec.nontrivial = n > 0 and len(arr) > 1


# ---- division
def rat_value(m1, m2):
    def f(x):
        d = ev(m2, x)
        return None if d == 0 else ev(m1, x) / d

    return f


def agree_rational(f, e, var, what, extra=None):
    n = 0
    for q in PTS:
        w = f(q)
        if w is None:
            continue
        pt = {var: q}
        if extra:
            pt.update(extra)
        n += agree(lambda R, env: R.o.frac(w), e, pt, what)
    return n


def node_and_check(cls, e, v):
    node = T.Node(e, v)
    tr = cls()
    ok = call("%s.check on %s" % (cls.__name__, show(e)), tr.check, node)
    return node, tr, bool(ok)


def child_of(node, tr, e):
    cls = type(tr).__name__
    call("%s.forward on %s" % (cls, show(e)), tr.forward, node)
    if len(node.children) != 1:
        raise Violation("%s of %s produced %d integrals" % (cls, show(e), len(node.children)))
    ch = node.children[0]
    if ch.var != node.var:
        raise Violation("%s of %s changed the variable" % (cls, show(e)))
    return ch


def check_division(case, rec):
    name = VARS[case["var"] % len(VARS)]
    v = E.Symbol(name)
    a, ma = build(case["num"], v)
    b, mb = build(case["den"], v)
    if not ma or len(mb) < 2 or not small(ma) or not small(mb) or len(ma) > 16 or len(mb) > 8:
        raise Discard("not a fraction")
    e = call("quotient", lambda: a / b)
    rec.show = show(e)
    s0 = snapshot(e)
    node, tr, ok = node_and_check(T.PolynomialDivision, e, v)
    rec.label("divided" if ok else "not divided")
    if not ok:
        return
    if not e.numerator_denominator[1].contains(v):
        raise Discard("constant denominator")
    # the fraction as the code sees it (common factors may have cancelled while building)
    q, r = divmod_(ma, mb)
    ch = child_of(node, tr, e)
    what = "polynomial division of %s" % show(e)
    agree_rational(rat_value(ma, mb), ch.expr, name, what)
    terms = ch.expr.terms if type(ch.expr) is E.Sum else [ch.expr]
    poly = {}
    for t in terms:
        c, k = F(1), F(0)
        for f in t.terms if type(t) is E.Prod else [t]:
            if type(f) is E.Rat:
                c *= f.value
            elif type(f) is E.Symbol and f.name == name:
                k += 1
            elif type(f) is E.Power and type(f.base) is E.Symbol and f.base.name == name and type(f.exponent) is E.Rat:
                k += f.exponent.value
            else:
                c = None
                break
        if c is not None and k >= 0:
            poly[k] = c
    want = {F(i): c for i, c in enumerate(q) if c}
    if poly != want:
        raise Violation("%s gives %s; the quotient should be %s with remainder %s" % (what, show(ch.expr), pshow(q), pshow(r)))
    if snapshot(e) != s0:
        raise Violation("%s changed the expression" % what)
    if q == [] or len(ma) < len(mb):
        raise Violation("%s: a proper fraction was divided" % what)
    rec.label("exact" if not r else "remainder")
    rec.nontrivial = len(q) >= 2 and len(mb) >= 3


def strat_division():
    c = st.integers(0, len(COEF) - 1)
    mono = st.tuples(st.just("mono"), c, st.integers(0, 4))
    top = st.tuples(st.just("mono"), c, st.integers(1, 3))
    poly = st.builds(lambda a, r: fold("add")([a] + r), st.one_of(top, top, mono), st.lists(mono, min_size=1, max_size=3))
    num = st.one_of(trees(), st.tuples(st.just('mul'), poly, poly), st.lists(poly, min_size=2, max_size=2).map(fold("mul")), st.tuples(st.just("pow"), poly, st.integers(1, 3)))
    den = st.one_of(poly, poly, poly, trees(), st.tuples(st.just("pow"), poly, st.integers(1, 2)))
    return st.fixed_dictionaries({"num": num, "den": den, "var": st.integers(0, 3)})


def fold(op):
    def f(xs):
        r = xs[0]
        for x in xs[1:]:
            r = (op, r, x)
        return r

    return f


# ---- partial fractions
def check_fractions(case, rec):
    name = VARS[case["var"] % len(VARS)]
    v = E.Symbol(name)
    facs = []
    md = [F(1)]
    den = E.Rat(1)
    for cs, k in case["factors"]:
        p = norm([COEF[c % len(COEF)] if c >= 0 else F(0) for c in cs])
        if len(p) < 2:
            raise Discard("constant factor")
        facs += [p] * k
        e = E.Sum([E.Rat(c) * v**i for i, c in enumerate(p)])
        for _ in range(k):
            md = mul(md, p)
        den = call("product", lambda: den * e**k)
    mn = norm([COEF[c % len(COEF)] if c >= 0 else F(0) for c in case["num"]])
    if not mn or len(md) > 9:
        raise Discard("no fraction")
    num = E.Sum([E.Rat(c) * v**i for i, c in enumerate(mn)])
    if case["expanded"]:
        den = E.Sum([E.Rat(c) * v**i for i, c in enumerate(md)])
    e = call("quotient", lambda: num / den)
    rec.show = show(e)
    node, tr, ok = node_and_check(T.PartialFractions, e, v)
    rec.label("split" if ok else "not split")
    plain = len(facs) == 2 and all(len(p) == 2 for p in facs) and not case["expanded"]
    if not ok:
        if plain and type(e) is E.Prod and len(mn) <= 2 and facs[0][0] * facs[1][1] != facs[0][1] * facs[1][0]:
            g = e.numerator_denominator[1]
            if type(g) is E.Prod and len(g.terms) == 2 and all(t.contains(v) for t in g.terms):
                raise Violation("partial fractions of %s: not recognised" % show(e))
        return
    ch = child_of(node, tr, e)
    what = "partial fractions of %s" % show(e)
    agree_rational(rat_value(mn, md), ch.expr, name, what)
    terms = ch.expr.terms if type(ch.expr) is E.Sum else [ch.expr]
    for t in terms:
        fs = t.terms if type(t) is E.Prod else [t]
        k = sum(1 for f in fs if f.contains(v))
        if k > 1:
            raise Violation("%s gives %s, whose term %s is still a product" % (what, show(ch.expr), show(t)))
    rec.nontrivial = True


def strat_fractions():
    c = st.integers(-1, len(COEF) - 1)
    nz = st.integers(0, len(COEF) - 1)
    lin = st.tuples(c, nz).map(list)
    quad = st.tuples(c, c, nz).map(list)
    fac = st.one_of(st.tuples(lin, st.just(1)), st.tuples(lin, st.just(1)), st.tuples(lin, st.just(1)), st.tuples(lin, st.integers(1, 2)), st.tuples(quad, st.just(1)))
    plain = st.lists(st.tuples(lin, st.just(1)), min_size=2, max_size=2)
    return st.fixed_dictionaries(
        {
            "factors": st.one_of(plain, plain, plain, st.lists(fac, min_size=2, max_size=2), st.lists(fac, min_size=1, max_size=3)),
            "num": st.one_of(st.lists(c, min_size=1, max_size=2), st.lists(c, min_size=1, max_size=3)),
            "expanded": st.sampled_from([False, False, False, True]),
            "var": st.integers(0, 3),
        }
    )


# ---- completing the square
def check_square(case, rec):
    name = VARS[case["var"] % len(VARS)]
    v = E.Symbol(name)
    q = norm([F(*c) for c in case["quad"]])
    if len(q) != 3:
        raise Discard("not quadratic")
    base = E.Sum([E.Rat(c) * v**i for i, c in enumerate(q)])
    half = case["sqrt"]
    e = call("power", lambda: base ** (E.Rat(-1, 2) if half else E.Rat(-1)))
    extra = case["extra"] % 5
    mult = [None, E.sin(v), E.Rat(3), v, E.e**v][extra]
    f = e if mult is None else call("product", lambda: mult * e)
    rec.show = show(f)
    node, tr, ok = node_and_check(T.CompleteTheSquare, f, v)
    rec.label("completed" if ok else "not completed")
    if not ok:
        if q[1] != 0 and type(e) is E.Power:
            raise Violation("completing the square of %s: not recognised" % show(f))
        return
    call("%s.forward on %s" % ("CompleteTheSquare", show(f)), tr.forward, node)
    if q[1] == 0 and not node.children:
        rec.label("already complete")  # the same integral again, which the tree refuses
        return
    if len(node.children) != 1:
        raise Violation("CompleteTheSquare of %s produced %d integrals" % (show(f), len(node.children)))
    ch = node.children[0]
    what = "completing the square of %s" % show(f)
    d = q[0] / q[2] - (q[1] / q[2] / 2) ** 2
    n = 0
    for pt in PTS:
        if half and d == 0 and pt + q[1] / q[2] / 2 < 0:
            continue  # the root of a square: fractional powers are read where their factors are positive
        n += agree(lambda R, env: R.chk((R.o.one if mult is None else value(mult, env, R)) * R.pow(R.o.frac(ev(q, pt)), None, F(-1, 2) if half else F(-1))), ch.expr, {name: pt}, what)
    if extra in (0, 2):
        k = occurrences(ch.expr, name)
        if k != 1:
            raise Violation("%s gives %s, in which %s occurs %d times" % (what, show(ch.expr), name, k))
    rec.label("d>0" if d > 0 else "d=0" if d == 0 else "d<0")
    rec.nontrivial = n > 0


def occurrences(e, name):
    if type(e) is E.Symbol:
        return 1 if e.name == name else 0
    return sum(occurrences(c, name) for c in e.children())


def strat_square():
    c = st.tuples(st.integers(-12, 12), st.sampled_from([1, 1, 1, 2, 3, 4, 5, 7]))
    root = st.tuples(c, st.sampled_from([1, -1, 2, 4, 9, -3]), st.one_of(st.just((0, 1)), c)).map(lambda t: perfect(*t))
    return st.fixed_dictionaries({"quad": st.one_of(st.tuples(c, c, c), root), "sqrt": st.booleans(), "extra": st.integers(0, 4), "var": st.integers(0, 3)})


def perfect(r, a, d):
    """a(v + r)^2 + d"""
    r, d = F(*r), F(*d)
    return tuple((x.numerator, x.denominator) for x in (a * r * r + d, 2 * a * r, F(a)))


# ---- inversion
def entry(t):
    """rational, or a monomial in symbols, a root or a function value"""
    q = E.Rat(F(*t[0]))
    k = t[1]
    return [q, q * E.Symbol("x"), q + E.Symbol("y"), q * E.sqrt(2), q * E.sin(E.Symbol("x")), q * E.pi, E.Symbol("x") ** 2 - q][k]


def check_invert(case, rec):
    es = [entry(t) for t in case]
    numeric = all(type(x) is E.Rat for x in es)
    M = np.array([[es[0], es[1]], [es[2], es[3]]], dtype=object)
    what = "inverting [[%s, %s], [%s, %s]]" % tuple(map(show, es))
    rec.show = what
    inv = call(what, LA.invert, M)
    if [snapshot(x) for x in M.ravel()] != [snapshot(x) for x in es]:
        raise Violation(what + " changed the matrix")
    if numeric:
        a, b, c, d = [x.value for x in es]
        det = a * d - b * c
        if det == 0:
            if inv is not None:
                raise Violation("%s: singular, but the result is %s" % (what, inv))
            rec.label("singular")
            rec.nontrivial = any((a, b, c, d))
            return
        if inv is None:
            raise Violation(what + ": rejected although the determinant is %s" % det)
        if inv.shape != (2, 2):
            raise Violation(what + ": result has shape %s" % (inv.shape,))
        got = [as_expr(x, E) for x in inv.ravel()]
        want = [d / det, -b / det, -c / det, a / det]
        if [type(g) is E.Rat and g.value for g in got] != want:
            raise Violation("%s gives %s instead of %s" % (what, list(map(show, got)), pshow(want)))
        rec.label("regular")
        rec.nontrivial = all((a, b, c, d))
        return
    if inv is None:
        for pt in POINTS:
            agree(lambda R, env: _det(es, env, R), E.Rat(0), pt, what + ": rejected, so the determinant must vanish")
        rec.label("symbolic singular")
        return
    got = [as_expr(x, E) for x in inv.ravel()]
    n = 0
    for pt in POINTS:
        for i, (s, k) in enumerate([(1, 3), (-1, 1), (-1, 2), (1, 0)]):

            def ref(R, env):
                d = _det(es, env, R)
                return R.chk(s * value(es[k], env, R) * R.inv(d))

            n += agree_nz(ref, es, got[i], pt, what + " entry %d" % i)
    rec.label("symbolic")
    rec.nontrivial = n > 0


def agree_nz(ref, es, g, pt, what):
    R = Real(FloatOps)
    from ..ev import conv_env

    try:
        d = _det(es, conv_env(pt, FloatOps), R)
    except Undef:
        return False
    if abs(d) < 1e-6:
        return False
    return agree(ref, g, pt, what)


def _det(es, env, R):
    a, b, c, d = [value(x, env, R) for x in es]
    return R.chk(R.chk(a * d) - R.chk(b * c))


def strat_invert():
    q = st.tuples(st.one_of(st.integers(-6, 6), st.integers(-(10**20), 10**20)), st.one_of(st.just(1), st.integers(1, 9), st.integers(1, 10**12)))
    num = st.tuples(q, st.just(0))
    sym = st.tuples(st.tuples(st.integers(-6, 6), st.integers(1, 3)), st.integers(0, 6))
    sing = st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-9, 9), st.integers(1, 9)).map(
        lambda t: [((t[0], 1), 0), ((t[1], 1), 0), ((t[0] * t[2], t[3]), 0), ((t[1] * t[2], t[3]), 0)]
    )
    return st.one_of(st.lists(num, min_size=4, max_size=4), sing, st.lists(sym, min_size=4, max_size=4))


def show_raw(case):
    return repr(case)


SUBS = [
    Sub("roundtrip", check_roundtrip, strat_roundtrip, None, quick=2500, show=show_raw),
    Sub("array", check_array, strat_array, None, quick=1500, show=show_raw),
    Sub("reject", check_reject, strat_reject, None, quick=2000, show=show_raw),
    Sub("general", check_general, P_ALL.strategy, decoder(P_ALL), quick=1500, show=text),
    Sub("division", check_division, strat_division, None, quick=2500, show=show_raw),
    Sub("fractions", check_fractions, strat_fractions, None, quick=3000, show=show_raw),
    Sub("square", check_square, strat_square, None, quick=2000, show=show_raw),
    Sub("invert", check_invert, strat_invert, None, quick=2500, show=show_raw),
]
