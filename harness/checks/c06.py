"""C06: factoring a sum is exact and pulls the common factor out."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import OPS_ALL, decoder
from .c05 import COEF, X, Y, Z, json_like

U = E.Symbol("u")
# opaque bases of monomials
BASES = [X, Y, Z, E.sin(X), E.log(Y), E.cos(X + Y), X + 1, Y + Z, E.pi, abs(Z), E.tan(X / 2), E.Symbol("long")]
NOSIGN = (3, 4, 5)
EXPS = [F(1), F(2), F(3), F(1), F(1, 2), F(-1), F(-2), F(3, 2), F(4), F(-1, 2), F(5), F(-3)]


def mono(m, common):
    """[coef index, [(base, exponent index)]] -> (expression, coefficient, {base: exponent})"""
    q = COEF[m[0] % len(COEF)]
    d = dict(common)
    for b, k in m[1]:
        b %= len(BASES)
        if b in d and b not in common:
            continue
        e = EXPS[k % len(EXPS)]
        if b in common:
            e = abs(e) if common[b] > 0 else -abs(e)
            d[b] = common[b] + e
        else:
            d[b] = e
    ex = E.Prod([E.Rat(q)] + [BASES[b] ** E.Rat(x) for b, x in d.items()])
    return ex, q, d


def monos(case):
    terms, cm, scale = case
    common = {}
    for b, k in cm:
        b %= len(BASES)
        if b not in common:
            common[b] = EXPS[k % len(EXPS)]
    seen = {}
    for m in terms:
        d = dict(common)
        ex, q, d = mono(m, common)
        if scale is not None:  # every coefficient the same up to sign, or multiples of one another
            q2 = COEF[scale % len(COEF)] * (-1 if q < 0 else 1)
            if scale // len(COEF) % 2:
                q2 *= (1, 2, 12, 24, 1, 6)[m[0] // len(COEF) % 6] if scale // len(COEF) % 4 == 1 else 3 ** (m[0] % 4)
            ex, q = ex * (q2 / q), q2
        key = tuple(sorted(d.items()))
        if key in seen:
            continue
        if len(d) == 1 and list(d.values()) == [F(1)] and list(d)[0] in (6, 7):
            continue  # a bare sum would flatten into the surrounding sum
        if set(d) and list(d.values()) == [F(1)] and not d:
            continue
        if abs(q) == 1 and len(d) == 1 and list(d.values()) == [F(1)] and list(d)[0] in (6, 7):
            continue
        seen[key] = (ex, q, d)
    return list(seen.values())


def factors_of(e):
    fs = e.terms if isinstance(e, E.Prod) else [e]
    c, d, rest = F(1), {}, []
    for f in fs:
        if isinstance(f, E.Rat):
            c *= f.value
        else:
            b, x = (f.base, f.exponent) if isinstance(f, E.Power) else (f, E.Rat(1))
            if isinstance(x, E.Rat):
                d[repr(snapshot(b))] = x.value
            else:
                rest.append(f)
    return c, d


def check_mono(case, rec):
    ms = monos(case)
    e = call("sum", E.Sum, [m[0] for m in ms])
    if not isinstance(e, E.Sum) or len(e.terms) != len(ms):
        raise Discard("terms combined")
    s0 = snapshot(e)
    order = [e]
    if len(ms) > 1:
        order.append(call("sum", E.Sum, [m[0] for m in reversed(ms)]))
    r = call("factor of %s" % show(e), e.factor)
    if snapshot(e) != s0:
        raise Violation("factoring changed the sum %s" % show(e))
    r2 = call("factor again", order[-1].factor)
    if snapshot(r2) != snapshot(r):
        raise Violation("factoring the same sum again gives %s instead of %s" % (show(r2), show(r)))
    n = 0
    for pt in POINTS:

        def ref(R, env):
            s = R.o.zero
            for _, q, d in ms:
                t = R.o.frac(q)
                for b, x in d.items():
                    v = bval(b, R, env)
                    if x.denominator != 1 and not v > 0:
                        raise Undef("domain")
                    t = R.chk(t * R.pow(v, None, x))
                s = R.chk(s + t)
            return s

        n += agree(ref, r, pt, "factored form of %s" % show(e))
    # the smallest shared positive power of every base is pulled out
    c, fs = factors_of(r)
    shared = 0
    sums = any(b in (6, 7) for _, _, d in ms for b in d)  # what is left in the brackets may then combine further
    for b, base in enumerate(BASES):
        xs = [d.get(b, F(0)) for _, _, d in ms]
        if all(x > 0 for x in xs):
            shared += 1
            got = fs.get(repr(snapshot(base)), F(0))
            if b in (6, 7):  # -1 times a sum is spelled with the sum negated
                got = max(got, fs.get(repr(snapshot(-base)), F(0)))
            want = min(xs)
            if not (got == want or sums and got >= want):
                raise Violation("every term of %s contains %s to at least the power %s, but factoring gives %s" % (show(e), show(base), want, show(r)))
    qs = {abs(q) for _, q, _ in ms}
    if len(qs) == 1:
        q = qs.pop()
        if q != 1:
            shared += 1
        if abs(c) != q and not sums:
            raise Violation("every coefficient of %s is +-%s, but factoring gives %s" % (show(e), q, show(r)))
    elif not sums and all((u / v).denominator == 1 or (v / u).denominator == 1 for u in qs for v in qs):
        rec.label("coefficients dividing one another")
        if abs(c) != min(qs):
            raise Violation("the coefficients of %s are all multiples of %s, but factoring gives %s" % (show(e), min(qs), show(r)))
    # multiplying out again gives back the same sum
    if not sums:
        back = call("expand of %s" % show(r), lambda: r.expand() if r.expandable() else r)
        if snapshot(back) != s0:
            raise Violation("%s factors into %s, which expands to %s" % (show(e), show(r), show(back)))
    rec.label("shared:%d" % shared, "terms:%d" % len(ms))
    rec.nontrivial = n > 0 and shared > 0 and len(ms) > 1
    rec.show = show(e)


def bval(b, R, env):
    x, y, z = env["x"], env["y"], env["z"]
    f = [
        lambda: x,
        lambda: y,
        lambda: z,
        lambda: R.fn("sin", x),
        lambda: R.log(y),
        lambda: R.fn("cos", x + y),
        lambda: x + 1,
        lambda: y + z,
        lambda: R.o.pi,
        lambda: abs(z),
        lambda: R.fn("tan", x / 2),
        lambda: env["long"],
    ][b]
    return f()


for _p, _v in zip(POINTS, (F(7, 5), F(3, 8), F(9, 4), F(-5, 3), F(2, 7), F(-8, 5))):
    _p["long"] = _v


def strat():
    s = st.integers(0, 255)
    be = st.tuples(st.integers(0, len(BASES) - 1), s)
    return st.tuples(st.lists(st.tuples(s, st.lists(be, max_size=3)), min_size=2, max_size=5), st.lists(be, max_size=2), st.one_of(st.none(), st.integers(0, 255)))


def decode(raw):
    case = json_like(raw)
    try:
        ms = monos(case)
    except Exception:
        return case
    return case if len(ms) >= 2 else None


OPS_S = dict(OPS_ALL)
OPS_S.update({"add": 30, "sub": 12, "Sum": 10, "mul": 20, "lin": 16, "powr": 12})
P_S = Profile(OPS_S, maxlen=13)


def check_value(case, rec):
    prog = case
    facts = Facts(prog)
    cs = caches(prog, facts)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    try:
        e = as_expr(build_all(prog, E)[-1], E)
    except BuildError:
        raise Discard("construction raises (C01)")
    if not isinstance(e, E.Sum):
        raise Discard("not a sum")
    s0 = snapshot(e)
    r = call("factor of %s" % show(e), e.factor)
    if snapshot(e) != s0:
        raise Violation("factoring changed the sum %s" % show(e))
    n = 0
    for c in cs:
        n += agree(c.ref(i), r, c.pt, "factored form of %s" % text(prog))
    rec.label("changed" if snapshot(r) != s0 else "unchanged")
    rec.nontrivial = n > 0 and snapshot(r) != s0
    rec.show = text(prog)


def decode_sum(raw):
    """Programs ending in a sum of products that share a factor."""
    prog = P_S.decode(raw)
    if prog is None:
        return None
    n = len(prog)
    if n >= 5 and len(raw) > 2:
        a, b, c, d = raw[1]
        i, j, k = n - 1 - a % n, n - 1 - b % n, n - 1 - c % n
        prog += [["mul", i, j], ["mul", i, k], ["add", n, n + 1]]
        if d % 2:
            prog += [["mul", d % n, n], ["add", n + 2, n + 3]]
    prog = prune(prog)
    return prog if prog[-1][0] in ("add", "sub", "Sum") else None


SUBS = [
    Sub("monomials", check_mono, strat, decode, quick=7000),
    Sub("value", check_value, P_S.strategy, decode_sum, quick=9000),
]
