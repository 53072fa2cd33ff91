"""C02: exact rational arithmetic, exact roots, correct ordering."""
import math

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub

Rat = E.Rat


def iroot(n, k):
    """floor(n**(1/k)) for n >= 0, by bisection on integers."""
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid**k <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo


def perfect(n, k):
    r = iroot(n, k)
    return r if r**k == n else None


def true_power(b, x):
    """The rational value of b**x if it is rational, else None (b > 0)."""
    p, q = x.numerator, x.denominator
    n, d = perfect(b.numerator, q), perfect(b.denominator, q)
    if n is None or d is None:
        return None
    return F(n, d) ** p


def ints():
    return st.one_of(
        st.integers(-12, 12),
        st.integers(-2000, 2000),
        st.builds(lambda k, d: (1 << k) + d, st.integers(50, 70), st.integers(-3, 3)),
        st.builds(lambda k, d: -(1 << k) + d, st.integers(50, 70), st.integers(-3, 3)),
        st.integers(-(10**40), 10**40),
        st.builds(lambda a, k: a**k, st.integers(2, 40), st.integers(2, 24)),
        st.builds(lambda a, k, d: a**k + d, st.integers(2, 10**6), st.integers(2, 6), st.integers(-1, 1)),
        st.builds(lambda k, d: 10**k + d, st.integers(3, 30), st.integers(-1, 1)),
    )


def posints():
    return ints().map(lambda n: abs(n) or 1)


def fr(pair):
    return F(pair[0], pair[1])


def spell(q, kind):
    """A number written as Rat, Rat(n, d), Fraction or int."""
    if kind == 0:
        return Rat(q)
    if kind == 1:
        return Rat(q.numerator, q.denominator)
    if kind == 2 or q.denominator != 1:
        return q
    return int(q)


def want(what, got, q):
    if type(got) is not Rat:
        raise Violation("%s gives %s (%s), expected exactly %s" % (what, show(got), type(got).__name__, q))
    v = got.value
    if type(v) is not F and not (isinstance(v, F)):
        raise Violation("%s holds a %s, not an exact fraction" % (what, type(v).__name__))
    if v != q:
        raise Violation("%s gives %s, expected exactly %s" % (what, v, q))


def check_arith(case, rec):
    a, b = fr(case[0]), fr(case[1])
    ka, kb = case[2], case[3]
    A = spell(a, ka)
    B = spell(b, kb)
    if not isinstance(A, E.Expr) and not isinstance(B, E.Expr):
        A = Rat(a)
    w = "%r %%s %r" % (A, B)
    want(w % "+", call(w % "+", lambda: A + B), a + b)
    want(w % "-", call(w % "-", lambda: A - B), a - b)
    want(w % "*", call(w % "*", lambda: A * B), a * b)
    if b != 0:
        want(w % "/", call(w % "/", lambda: A / B), a / b)
    if isinstance(A, Rat) and b != 0:
        want(w % "//", call(w % "//", lambda: A // B), F(a // b))
        want(w % "%", call(w % "%", lambda: A % B), a % b)
    R = Rat(a)
    want("-(%s)" % a, -R, -a)
    want("abs(%s)" % a, abs(R), abs(a))
    want("Abs(%s)" % a, call("Abs", E.Abs, R), abs(a))
    if a != 0:
        want("reciprocal of %s" % a, call("reciprocal", R.reciprocal), 1 / a)
    want("numerator of %s" % a, R.numerator, F(a.numerator))
    want("denominator of %s" % a, R.denominator, F(a.denominator))
    want("Sum([%s, %s])" % (a, b), E.Sum([Rat(a), Rat(b)]), a + b)
    want("Prod([%s, %s])" % (a, b), E.Prod([Rat(a), Rat(b)]), a * b)
    if bool(R.is_int) != (a.denominator == 1):
        raise Violation("is_int of %s is %r" % (a, R.is_int))
    if R.sign != (-1 if a < 0 else 1):
        raise Violation("sign of %s is %r" % (a, R.sign))
    # ordering
    S = spell(b, kb)
    for name, got, exp in (("<", R < S, a < b), ("<=", R <= S, a <= b), (">", R > S, a > b), (">=", R >= S, a >= b), ("==", R == S, a == b), ("!=", R != S, a != b)):
        if bool(got) != exp:
            raise Violation("%s %s %s gives %r" % (a, name, b, got))
    for K, v in ((E.pi, math.pi), (E.e, math.e)):
        if abs(a - F(v)) > F(1, 10**9):
            if bool(R < K) != (a < F(v)) or bool(R > K) != (a > F(v)) or bool(K < R) != (F(v) < a) or bool(K >= R) != (F(v) >= a) or R == K:
                raise Violation("comparison of %s with %r is wrong" % (a, K))
    rec.nontrivial = a.denominator != 1 or b.denominator != 1 or abs(a) > 2**53 or abs(b) > 2**53
    rec.label("spell:%s,%s" % (type(A).__name__, type(B).__name__))
    if max(abs(a.numerator), a.denominator, abs(b.numerator), b.denominator) > 2**53:
        rec.label("beyond-2^53")


def check_power(case, rec):
    b, x = fr(case[0]), fr(case[1])
    kind = case[2]
    if b == 0 and x <= 0 and x != 0:
        raise Discard("0 to a negative power")
    if x.denominator == 1 and max(abs(b.numerator), b.denominator).bit_length() * abs(x.numerator) > 60000:
        raise Discard("huge")
    if kind == 0:
        got = call("%s ** %s" % (b, x), lambda: Rat(b) ** Rat(x))
    elif kind == 1:
        got = call("%s ** %s" % (b, x), lambda: E.Power(Rat(b), Rat(x)))
    elif kind == 2:
        got = call("%s ** %s" % (b, x), lambda: Rat(b) ** (int(x) if x.denominator == 1 else x))
    elif kind == 3:
        # (Fraction ** Expr is decided by Python itself, in floats: never spelled that way)
        got = call("%s ** %s" % (b, x), lambda: (int(b) if b.denominator == 1 else Rat(b)) ** Rat(x))
    else:
        if x != F(1, 2):
            x = F(1, 2)
        got = call("sqrt(%s)" % b, lambda: E.sqrt(spell(b, 3)))
    w = "%s ** %s" % (b, x)
    if x.denominator == 1:
        want(w, got, b ** x.numerator)
        rec.label("integer-exponent")
        rec.nontrivial = abs(x) > 1 and b not in (0, 1)
        return
    if b < 0 and x.denominator % 2 == 0:
        raise Discard("even root of a negative number")
    if b < 0 and x.numerator % 2 == 0:
        # known finding F-NEGROOT (pinned by the repository's own tests): -(|b|^x) instead of |b|^x.  Anything else is reported.
        rec.label("F-NEGROOT")
        t = true_power(-b, x)
        if t is not None:
            if type(got) is not Rat or abs(got.value) != t:
                raise Violation("%s gives %s, expected %s (or, as known, its negative)" % (w, show(got), t))
            return
        import mpmath

        tv = mpmath.power(mpmath.mpf((-b).numerator) / b.denominator, mpmath.mpf(x.numerator) / x.denominator)
        gv = abs(constval(got, w))
        if abs(gv - tv) > tv * mpmath.mpf(10) ** -40:
            raise Violation("%s gives %s, whose magnitude is not that of the true value" % (w, show(got)))
        return
    if b < 0:
        t = true_power(-b, x)
        t = -t if t is not None else None
    elif b == 0:
        t = F(0)
    else:
        t = true_power(b, x)
    rec.nontrivial = True
    if t is not None:
        rec.label("perfect")
        if b < 0:
            # (an exact value is required; its form may be -1 times the root)
            pass
        want(w, got, t)
        return
    rec.label("irrational")
    if type(got) is Rat:
        raise Violation("%s gives the rational %s but is irrational" % (w, got.value))
    exact_only(got, w)
    import mpmath

    old = mpmath.mp.dps
    mpmath.mp.dps = 60 + int((b.numerator.bit_length() + b.denominator.bit_length()) * 0.31 * max(1, abs(float(x))))
    try:
        tv = (mpmath.mpf(abs(b).numerator) / abs(b).denominator) ** (mpmath.mpf(x.numerator) / x.denominator)
        if b < 0:
            tv = -tv
        gv = constval(got, w)
        if abs(gv - tv) > abs(tv) * mpmath.mpf(10) ** (-(mpmath.mp.dps - 20)):
            raise Violation("%s gives %s, which differs from the true value (relative error %s)" % (w, show(got), mpmath.nstr(abs(gv / tv - 1), 5)))
    finally:
        mpmath.mp.dps = old
    # squaring back is exact
    back = call("(%s)**%d" % (show(got), x.denominator), lambda: got ** x.denominator)
    if b > 0:
        want("(%s)**%d" % (show(got), x.denominator), back, b**x.numerator)


def constval(t, w):
    """Value of a tree of rationals, powers, products and sums (mpmath, ambient precision)."""
    import mpmath

    if type(t) is Rat:
        return mpmath.mpf(t.value.numerator) / t.value.denominator
    if type(t) is E.Power and type(t.exponent) is Rat:
        b, x = constval(t.base, w), t.exponent.value
        if b < 0:
            if x.denominator % 2 == 0:
                raise Violation("%s gives %s, which is not real" % (w, show(t)))
            v = mpmath.power(-b, mpmath.mpf(x.numerator) / x.denominator)
            return -v if x.numerator % 2 else v
        return mpmath.power(b, mpmath.mpf(x.numerator) / x.denominator)
    if type(t) is E.Prod:
        r = mpmath.mpf(1)
        for c in t.terms:
            r *= constval(c, w)
        return r
    if type(t) is E.Sum:
        return sum(constval(c, w) for c in t.terms)
    raise Violation("%s gives %s, not a rational multiple of a root" % (w, show(t)))


def exact_only(e, w):
    if type(e) in (E.Float, E.Infinity, E.NegInfinity, E.NaN):
        raise Violation("%s gives %s, which is not exact" % (w, show(e)))
    for c in e.children():
        exact_only(c, w)


def check_lists(case, rec):
    """Long sums / products of numbers, and of numeric multiples of one symbol."""
    qs = [fr(p) for p in case[0]]
    kinds = case[1]
    x = E.Symbol("x")
    els = [spell(q, kinds[i % len(kinds)]) for i, q in enumerate(qs)]
    s = sum(qs, F(0))
    p = F(1)
    for q in qs:
        p *= q
    want("Sum(%s)" % qs, call("Sum", E.Sum, list(els)), s)
    want("Prod(%s)" % qs, call("Prod", E.Prod, list(els)), p)
    acc, accp = Rat(0), Rat(1)
    for el in els:
        acc, accp = acc + el, accp * el
    want("running sum", acc, s)
    want("running product", accp, p)
    t = call("sum of multiples", lambda: E.Sum([el * x for el in els]))
    u = call("product with x", lambda: E.Prod([x] + list(els)))
    for got, c, name in ((t, s, "sum of multiples"), (u, p, "product")):
        ok = snapshot(got) == (("Rat", 0, 1) if c == 0 else ("Symbol", "x") if c == 1 else ("Prod", ("Rat", c.numerator, c.denominator), ("Symbol", "x")))
        if not ok:
            raise Violation("%s of %s with x gives %s, expected %s*x" % (name, [str(q) for q in qs], show(got), c))
    srt = sorted([Rat(q) for q in qs], key=_cmpkey)
    if [r.value for r in srt] != sorted(qs):
        raise Violation("sorting %s with < gives %s" % (qs, srt))
    rec.nontrivial = len(qs) > 2
    rec.label("len:%d" % len(qs))


from functools import cmp_to_key

_cmpkey = cmp_to_key(lambda a, b: -1 if a < b else (1 if a > b else 0))


def small_pairs(tier):
    m = 5 if tier == "quick" else 9
    qs = sorted({F(p, q) for p in range(-m, m + 1) for q in range(1, m + 1)})
    n = 0
    for a in qs:
        for b in qs:
            n += 1
            yield [[a.numerator, a.denominator], [b.numerator, b.denominator], n % 4, (n // 4) % 4]


def small_powers(tier):
    m = 20 if tier == "quick" else 60
    bases = sorted({F(p, q) for p in list(range(-m, m + 1)) + [25, 27, 32, 36, 49, 64, 81, 100, 121, 125, 128, 144, 216, 243, 256, 343, 512, 625, 729, 1000, 1024, 4096] for q in (1, 2, 3, 4, 8, 9, 16, 27, 64)})
    exps = sorted({F(p, q) for p in range(-7, 8) for q in (1, 2, 3, 4, 5, 6, 7)})
    n = 0
    for b in bases:
        for x in exps:
            n += 1
            yield [[b.numerator, b.denominator], [x.numerator, x.denominator], n % 4]


def pw_strategy():
    pair = st.tuples(ints(), posints())
    small = st.tuples(st.integers(-12, 12), st.integers(1, 12))
    root = st.tuples(st.integers(1, 10**7), st.integers(1, 50), st.integers(2, 12), st.integers(-1, 1), st.integers(-9, 9), st.integers(0, 4))

    def mk(t):
        n, d, k, off, p, kind = t
        b = F(n**k + off * 1, d**k)
        if p % k == 0 and p == 0:
            p = 1
        x = F(p, k)
        return [[b.numerator, b.denominator], [x.numerator, x.denominator], kind]

    return st.one_of(root.map(mk), st.tuples(pair, small, st.integers(0, 4)).map(lambda t: [list(t[0]), list(t[1]), t[2]]))


def _negroot():
    r = Rat(-8) ** F(2, 3)
    return type(r) is Rat and r.value == -4


KNOWN = {"F-NEGROOT": _negroot}

SUBS = [
    Sub("small_pairs", check_arith, cases=small_pairs),
    Sub("small_powers", check_power, cases=small_powers),
    Sub("arith", check_arith, lambda: st.tuples(st.tuples(ints(), posints()), st.tuples(ints(), posints()), st.integers(0, 3), st.integers(0, 3)), quick=12000),
    Sub("power", check_power, pw_strategy, quick=10000),
    Sub("lists", check_lists, lambda: st.tuples(st.lists(st.tuples(ints(), posints()), min_size=2, max_size=8), st.lists(st.integers(0, 3), min_size=1, max_size=5)), quick=4000),
]
