"""C20: extended real arithmetic over exact numbers, floats and infinities, against a reference model."""
import math

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub

# Model values: ("q", Fraction) exact;  ("f", float, abs error bound);  ("i", +1/-1) infinity.  Indeterminate forms raise Undef.
INF, NINF = ("i", 1), ("i", -1)
REL = 1e-13
ZERO = ("f", 0.0, 0.0)  # a limit such as 1/inf: exact or floating


def num(m):
    return float(m[1])


def sgn(m):
    return (m[1] > 0) - (m[1] < 0)


def err(m):
    return m[2] if m[0] == "f" else 0.0


def fl(v, e):
    if v != v or abs(v) > 1e280 or 0 < abs(v) < 1e-280:
        raise Undef("float range")
    if e > 1e-6 * max(abs(v), 1e-3):
        raise Undef("ill conditioned")
    return ("f", v, e)


def big(q):
    if abs(q.numerator) > 10**200 or q.denominator > 10**200:
        raise Undef("range")
    return ("q", q)


def madd(a, b):
    if a[0] == "i" or b[0] == "i":
        if a[0] == b[0] == "i" and a[1] != b[1]:
            raise Undef("inf - inf")
        return a if a[0] == "i" else b
    if a[0] == b[0] == "q":
        return big(a[1] + b[1])
    x, y = num(a), num(b)
    return fl(x + y, err(a) + err(b) + REL * (abs(x) + abs(y)))


def mneg(a):
    return (a[0], -a[1]) + tuple(a[2:])


def mmul(a, b):
    if a[0] == "i" or b[0] == "i":
        s = sgn(a) * sgn(b)
        if s == 0 or a[0] == "f" and abs(a[1]) <= 2 * err(a) or b[0] == "f" and abs(b[1]) <= 2 * err(b):
            raise Undef("0 * inf")
        return ("i", s)
    if a[0] == b[0] == "q":
        return big(a[1] * b[1])
    x, y = num(a), num(b)
    return fl(x * y, err(a) * abs(y) + err(b) * abs(x) + REL * abs(x * y))


def minv(a):
    if a[0] == "i":
        return ZERO
    if a[0] == "q":
        return INF if a[1] == 0 else big(1 / a[1])
    v = a[1]
    if v == 0 and a[2] == 0:
        return INF
    if abs(v) <= 1e3 * a[2]:
        raise Undef("1/0")
    return fl(1 / v, err(a) / (v * v) + REL / abs(v))


def mabs(a):
    return (a[0], abs(a[1])) + tuple(a[2:])


def one(a):
    return a[1] == 1 if a[0] == "q" else a[0] == "f" and abs(a[1] - 1) <= 1e-9


def mpow(a, b):
    if b[0] == "q" and b[1] == 0:
        if a[0] == "i" or sgn(a) == 0:
            raise Undef("0^0 or inf^0")
        return ("q", F(1))
    if sgn(b) == 0 or b[0] == "f" and abs(b[1]) < 1e-9:
        raise Undef("float zero exponent")
    if b[0] == "i":
        if a[0] == "i":
            if a[1] < 0:
                raise Undef("(-inf)^inf")
            return INF if b[1] > 0 else ZERO
        if sgn(a) <= 0 and not (sgn(a) == 0 and err(a) == 0 and b[1] > 0):
            raise Undef("base of an infinite power")
        if one(a):
            raise Undef("1^inf")
        return INF if (num(a) > 1) == (b[1] > 0) else ZERO
    if a[0] == "i":
        if sgn(b) < 0:
            return ZERO
        if a[1] > 0:
            return INF
        if b[0] == "q" and b[1].denominator == 1:
            return INF if b[1] % 2 == 0 else NINF
        raise Undef("(-inf)^x")
    if b[0] == "q" and b[1].denominator == 1:
        n = int(b[1])
        if abs(n) > 60:
            raise Undef("large exponent")
        if n < 0:
            if sgn(a) == 0:
                if n % 2 and a[0] == "f":
                    raise Undef("sign of a float zero")
                return INF
            return minv(mpow(a, ("q", F(-n))))
        if a[0] == "q":
            return big(a[1] ** n)
        return fl(a[1] ** n, abs(n * a[1] ** (n - 1)) * err(a) + 4 * n * REL * abs(a[1] ** n))
    if a == ("q", 0):
        return a if sgn(b) > 0 else INF
    if sgn(a) <= 0:
        raise Undef("fractional power")
    if abs(num(b)) > 40:
        raise Undef("large exponent")
    l = num(b) * math.log(num(a))
    if abs(l) > 300:
        raise Undef("range")
    v = math.exp(l)
    return fl(v, v * (abs(num(b)) * err(a) / num(a) + abs(math.log(num(a))) * err(b) + (abs(l) + 4) * REL * 10))


def xval(e, depth=0):
    """The extended real value of a symbol-free expression tree."""
    if depth > 200:
        raise Violation("expression nests too deeply")
    t = type(e)
    if t is E.Rat:
        return ("q", e.value)
    if t is E.Float:
        v = e.value
        if type(v) is not float or v != v or v in (math.inf, -math.inf):
            raise Violation("a Float holds %r" % (v,))
        return ("f", v, 0.0)
    if t is E.Infinity:
        return INF
    if t is E.NegInfinity:
        return NINF
    if t is E.NaN:
        return None
    if t is E.Pi:
        return ("f", math.pi, REL)
    if t is E.E:
        return ("f", math.e, REL)
    if t in (E.Sum, E.Prod):
        vs = [xval(c, depth + 1) for c in e.terms]
        if None in vs:
            return None
        r = vs[0]
        for v in vs[1:]:
            r = (madd if t is E.Sum else mmul)(r, v)
        return r
    if t is E.Power:
        a, b = xval(e.base, depth + 1), xval(e.exponent, depth + 1)
        return None if a is None or b is None else mpow(a, b)
    if t is E.Abs:
        a = xval(e.inner, depth + 1)
        return None if a is None else mabs(a)
    raise Violation("unexpected %s in the result %s" % (t.__name__, show(e)))


def same(got, want):
    if got is None:
        return False
    if got[0] == "i" or want[0] == "i":
        return got[0] == want[0] and got[1] == want[1]
    if got[0] == want[0] == "q":
        return got[1] == want[1]
    d = abs(num(got) - num(want))
    return d <= 4 * (err(got) + err(want)) + 1e-12 * max(abs(num(got)), abs(num(want)))


FLOATS = [0.5, 2.5, -1.5, 0.1, 1.0, -1.0, 3.0, 1e10, -2.0, 0.25, 1e-5, 7.75, 0.3333333333333333, -100.125, 2.0, 6.02e23]


def leaf(t):
    """(expression, model, text)"""
    k, a, b = t
    if k == "rat":
        q = F(a, b)
        return E.Rat(q), ("q", q), str(q)
    if k == "int":  # a plain python int
        return a, ("q", F(a)), "int %d" % a
    if k == "frac":
        return F(a, b), ("q", F(a, b)), "Fraction %s" % F(a, b)
    if k == "float":
        return E.Float(FLOATS[a % len(FLOATS)]), ("f", FLOATS[a % len(FLOATS)], 0.0), "%r" % FLOATS[a % len(FLOATS)]
    if k == "pyfloat":
        return FLOATS[a % len(FLOATS)], ("f", FLOATS[a % len(FLOATS)], 0.0), "float %r" % FLOATS[a % len(FLOATS)]
    if k == "inf":
        return E.inf, INF, "inf"
    if k == "ninf":
        return -E.inf, NINF, "-inf"
    if k == "const":
        return [(E.pi, ("f", math.pi, REL), "pi"), (E.e, ("f", math.e, REL), "e"), (E.sqrt(2), ("f", math.sqrt(2), REL), "sqrt(2)")][a % 3]
    raise KeyError(k)


UN = ["neg", "abs", "inv", "sqrt", "sq", "cube"]
BIN = ["add", "sub", "mul", "div", "pow", "add", "mul", "sub", "div"]


def apply_un(op, e):
    if op == "neg":
        return -e
    if op == "abs":
        return E.Abs(e)
    if op == "inv":
        return E.Power(e, -1)
    if op == "sqrt":
        return E.sqrt(e)
    return e ** (2 if op == "sq" else 3)


def model_un(op, m):
    return {
        "neg": mneg,
        "abs": mabs,
        "inv": minv,
        "sqrt": lambda m: mpow(m, ("q", F(1, 2))),
        "sq": lambda m: mpow(m, ("q", F(2))),
        "cube": lambda m: mpow(m, ("q", F(3))),
    }[op](m)


def model_bin(op, a, b):
    if op == "add":
        return madd(a, b)
    if op == "sub":
        return madd(a, mneg(b))
    if op == "mul":
        return mmul(a, b)
    if op == "div":
        return mmul(a, minv(b))
    return mpow(a, b)


def apply_bin(op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        return a / b
    return a**b


def plain(e):
    """A number: fractional powers of compound expressions are split over their factors (see C01)."""
    return not isinstance(e, E.Expr) or isinstance(e, E.Num)


SYMBOL = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "^"}


def verify(e, m, t):
    if not isinstance(e, E.Expr):
        raise Violation("%s gives %r, not an expression" % (t, e))
    try:
        got = xval(e)
    except Undef as ex:
        if ex.args and ex.args[0] in ("ill conditioned", "float range", "range", "large exponent"):
            return
        raise Violation("%s gives %s, an indeterminate form (%s), instead of %s" % (t, show(e), ex, mshow(m)))
    if not same(got, m):
        raise Violation("%s gives %s instead of %s" % (t, show(e), mshow(m)))


def mshow(m):
    return ("inf" if m[1] > 0 else "-inf") if m[0] == "i" else str(m[1])


def check_history(case, rec):
    pool = [leaf(t) for t in case["leaves"]]
    n0 = len(pool)
    done = 0
    for a, b, c in case["steps"]:
        n = len(pool)
        i = b % n
        e, m, t = pool[i]
        unary = a % 4 == 0
        if unary:
            op = UN[c % len(UN)]
            try:
                w = model_un(op, m)
            except (Undef, OverflowError):
                continue
            if op == "sqrt" and not plain(e):
                continue
            tt = "%s(%s)" % (op, t)
            r = call(tt, apply_un, op, as_expr(e, E))
        else:
            e2, m2, t2 = pool[(b // 16 + c) % n]
            op = BIN[c % len(BIN)]
            try:
                w = model_bin(op, m, m2)
            except (Undef, OverflowError):
                continue
            if op == "pow" and not plain(e) and not (m2[0] == "q" and m2[1].denominator == 1):
                continue
            if not isinstance(e, E.Expr) and not isinstance(e2, E.Expr):
                e2 = as_expr(e2, E)
            tt = "(%s %s %s)" % (t, SYMBOL[op], t2)
            r = call(tt, apply_bin, op, e, e2)
            kinds = {m[0], m2[0]}
            if kinds == {"q", "f"} and w[0] == "f" and op != "pow" and type(as_expr(e, E)) in (E.Rat, E.Float) and type(as_expr(e2, E)) in (E.Rat, E.Float):
                if type(r) not in (E.Float, E.Rat):
                    raise Violation("%s gives %s (%s), not a float" % (tt, show(r), type(r).__name__))
                rec.label("float with exact")
            if "i" in kinds:
                rec.label("infinite operand")
        verify(r, w, tt)
        if len(tt) < 120:
            pool.append((r, w, tt))
        done += 1
        if w[0] == "i":
            rec.label("infinite result")
    # the accumulated constant inside sums and products with a symbol
    x = E.Symbol("x")
    sel = [p for p in pool if not isinstance(p[0], E.Expr) or isinstance(p[0], (E.Rat, E.Float, E.Infinity, E.NegInfinity))][-4:]
    if len(sel) >= 2:
        try:
            s = sel[0][1]
            for p in sel[1:]:
                s = madd(s, p[1])
        except Undef:
            s = None
        if s is not None:
            t = "Sum([x, %s])" % ", ".join(p[2] for p in sel)
            r = call(t, lambda: E.Sum([x] + [as_expr(p[0], E) for p in sel]))
            verify(strip(r, x, E.Sum, t), s, "the constant term of " + t)
        try:
            s = sel[0][1]
            for p in sel[1:]:
                s = mmul(s, p[1])
        except Undef:
            s = None
        if s is not None and not (s[0] == "q" and s[1] == 0 or s[0] == "f" and s[1] == 0):
            t = "Prod([x, %s])" % ", ".join(p[2] for p in sel)
            r = call(t, lambda: E.Prod([x] + [as_expr(p[0], E) for p in sel]))
            verify(strip(r, x, E.Prod, t), s, "the coefficient of " + t)
    rec.show = "; ".join(p[2] for p in pool[n0:][-3:])
    rec.nontrivial = done >= 3


def strip(r, x, cls, t):
    if type(r) is E.Symbol:
        return E.Rat(0 if cls is E.Sum else 1)
    if type(r) is not cls or not any(type(c) is E.Symbol for c in r.terms):
        raise Violation("%s gives %s" % (t, show(r)))
    rest = [c for c in r.terms if type(c) is not E.Symbol]
    if len(rest) > 1:
        raise Violation("%s gives %s, whose numbers are not combined" % (t, show(r)))
    return rest[0] if rest else E.Rat(0 if cls is E.Sum else 1)


def leaves():
    return st.one_of(
        st.tuples(st.just("rat"), st.integers(-9, 9), st.integers(1, 6)),
        st.tuples(st.just("rat"), st.integers(-(10**20), 10**20), st.integers(1, 10**6)),
        st.tuples(st.just("int"), st.integers(-5, 5), st.just(1)),
        st.tuples(st.just("frac"), st.integers(-9, 9), st.integers(1, 6)),
        st.tuples(st.just("float"), st.integers(0, 15), st.just(0)),
        st.tuples(st.just("pyfloat"), st.integers(0, 15), st.just(0)),
        st.tuples(st.just("inf"), st.just(0), st.just(0)),
        st.tuples(st.just("ninf"), st.just(0), st.just(0)),
        st.tuples(st.just("const"), st.integers(0, 2), st.just(0)),
    )


def strat_history():
    step = st.tuples(st.integers(0, 63), st.integers(0, 1023), st.integers(0, 63))
    return st.fixed_dictionaries({"leaves": st.lists(leaves(), min_size=2, max_size=5), "steps": st.lists(step, min_size=1, max_size=6)})


SMALL = (
    [("rat", a, 1) for a in (-3, -2, -1, 0, 1, 2, 5)]
    + [("rat", 1, 2), ("rat", -1, 2), ("rat", 3, 2), ("rat", -3, 2), ("rat", -1, 3), ("rat", 10**20, 1), ("int", 0, 1), ("int", 1, 1), ("int", -2, 1), ("int", 3, 1), ("frac", 1, 3)]
    + [("float", i, 0) for i in (0, 1, 2, 3, 4, 5, 6, 7, 8)]
    + [("pyfloat", i, 0) for i in (0, 2, 4, 6)]
    + [("inf", 0, 0), ("ninf", 0, 0), ("const", 0, 0), ("const", 1, 0), ("const", 2, 0)]
)


def small_cases(tier):
    for a in SMALL:
        for k in range(len(UN)):
            yield {"u": k, "a": a}
        for b in SMALL:
            for op in ("add", "sub", "mul", "div", "pow"):
                yield {"op": op, "a": a, "b": b}


def check_small(case, rec):
    e, m, t = leaf(case["a"])
    if "u" in case:
        op = UN[case["u"]]
        tt = "%s(%s)" % (op, t)
        try:
            w = model_un(op, m)
        except (Undef, OverflowError):
            raise Discard("indeterminate")
        verify(call(tt, apply_un, op, as_expr(e, E)), w, tt)
    else:
        e2, m2, t2 = leaf(case["b"])
        if not isinstance(e, E.Expr) and not isinstance(e2, E.Expr):
            raise Discard("python numbers only")
        tt = "%s %s %s" % (t, SYMBOL[case["op"]], t2)
        try:
            w = model_bin(case["op"], m, m2)
        except (Undef, OverflowError):
            raise Discard("indeterminate")
        verify(call(tt, apply_bin, case["op"], e, e2), w, tt)
    rec.show = tt
    rec.nontrivial = True


# ---- comparisons
def check_compare(case, rec):
    ls = [leaf(t) for t in case]
    for i, (e, m, t) in enumerate(ls):
        for e2, m2, t2 in ls[i:]:
            if not isinstance(e, E.Expr) and not isinstance(e2, E.Expr):
                continue
            if type(e) is E.Power or type(e2) is E.Power:
                continue
            a, b = key(m), key(m2)
            want = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}
            for op, f in (("<", lambda: e < e2), ("<=", lambda: e <= e2), (">", lambda: e > e2), (">=", lambda: e >= e2), ("==", lambda: e == e2)):
                r = call("%s %s %s" % (t, op, t2), f)
                if bool(r) != want[op]:
                    raise Violation("%s %s %s is %r" % (t, op, t2, r))
    # negation, absolute value and reciprocal of the infinities as offered by the number classes themselves
    for e, m, t in ls:
        if m[0] == "i":
            if abs(e) != E.inf or type(abs(e)) is not E.Infinity:
                raise Violation("abs(%s) is %s" % (t, abs(e)))
            if type(-e) is not (E.NegInfinity if m[1] > 0 else E.Infinity):
                raise Violation("-(%s) is %s" % (t, -e))
            if e.reciprocal() != E.Rat(0):
                raise Violation("reciprocal of %s is %s" % (t, e.reciprocal()))
            if bool(e.is_subtraction) != (m[1] < 0) or e.sign != m[1]:
                raise Violation("sign of %s is %s, is_subtraction %s" % (t, e.sign, e.is_subtraction))
        elif isinstance(e, (E.Rat, E.Float)):
            if bool(e.is_subtraction) != (m[1] < 0):
                raise Violation("is_subtraction of %s is %s" % (t, e.is_subtraction))
    vs = [key(m) for _, m, _ in ls]
    rec.show = " ".join(t for _, _, t in ls)
    rec.nontrivial = len(set(map(str, vs))) >= 3


def key(m):
    if m[0] == "i":
        return math.inf * m[1]
    return m[1]


def strat_compare():
    close = st.builds(lambda i, d: ("rat", int(FLOATS[i] * 1024) + d, 1024), st.integers(0, 6), st.integers(-1, 1))
    return st.lists(st.one_of(leaves(), close), min_size=2, max_size=6)


def root_cases(tier):
    qs = [(n, d) for d in range(2, 8) for n in range(-9, 10) if math.gcd(n, d) == 1]
    for f in (-2.0, -0.5, -1.0, -8.0, -1e9, -20.875, -1e-3, -243.0):
        for n, d in qs:
            yield {"f": f, "n": n, "d": d}


def check_root(case, rec):
    """A negative float to a fractional power: no exception, and never a number that is not real."""
    f, q = case["f"], F(case["n"], case["d"])
    for x in (E.Rat(q), float(q)):
        r = call("(%r)^(%s)" % (f, x), lambda: E.Float(f) ** x)
        if type(r) in (E.Float, E.Rat):
            # only the real root may be given as a number
            want = (abs(f) ** float(q)) * (-1 if q.numerator % 2 else 1)
            if q.denominator % 2 == 0 or abs(r.value - want) > 1e-9 * abs(want):
                raise Violation("(%r)^(%s) is %s" % (f, x, show(r)))
        elif type(r) is not E.Power or r.base != E.Float(f) or r.exponent != x:
            raise Violation("(%r)^(%s) is %s" % (f, x, show(r)))
    sq = call("sqrt(%r)" % f, lambda: E.sqrt(E.Float(f)))
    if isinstance(sq, (E.Float, E.Rat)):
        raise Violation("sqrt(%r) is %s" % (f, show(sq)))
    rec.nontrivial = True


def show_raw(case):
    return repr(case)


SUBS = [
    Sub("negative roots", check_root, cases=root_cases, show=show_raw),
    Sub("pairs", check_small, cases=small_cases, show=show_raw),
    Sub("history", check_history, strat_history, None, quick=8000, show=show_raw),
    Sub("compare", check_compare, strat_compare, None, quick=3000, show=show_raw),
]
