"""C05: expansion equals the original, and is the distributed normal form on (Laurent) polynomials over opaque atoms."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from .c01 import P_ALL, OPS_ALL, decoder

X, Y, Z = E.Symbol("x"), E.Symbol("y"), E.Symbol("z")


# atoms: (expression, monomial {base name: exponent}); bases are opaque
def atoms():
    return [
        (X, {"x": F(1)}),
        (Y, {"y": F(1)}),
        (Z, {"z": F(1)}),
        (1 / X, {"x": F(-1)}),
        (E.sqrt(Y), {"y": F(1, 2)}),
        (E.sin(X), {"sin x": F(1)}),
        (E.log(Y), {"log y": F(1)}),
        (E.pi, {"pi": F(1)}),
        (Z**-2, {"z": F(-2)}),
        (1 / E.cos(Z), {"cos z": F(-1)}),
        (E.sin(X) ** 2, {"sin x": F(2)}),
    ]


BASES = {"x": X, "y": Y, "z": Z, "sin x": E.sin(X), "log y": E.log(Y), "pi": E.pi, "cos z": E.cos(Z)}
COEF = [F(1), F(2), F(-1), F(3), F(1, 2), F(-2), F(-3, 2), F(5, 3), F(7), F(-1, 6), F(10), F(12)]
NPOLY = 3


def key(m):
    return tuple(sorted((k, q) for k, q in m.items() if q))


def padd(a, b, s=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, F(0)) + s * c
    return {k: c for k, c in r.items() if c}


def pmul(a, b):
    r = {}
    for k1, c1 in a.items():
        d1 = dict(k1)
        for k2, c2 in b.items():
            d = dict(d1)
            for n, q in k2:
                d[n] = d.get(n, F(0)) + q
            k = key(d)
            r[k] = r.get(k, F(0)) + c1 * c2
    return {k: c for k, c in r.items() if c}


def ppow(a, n):
    r = {(): F(1)}
    for _ in range(n):
        r = pmul(r, a)
    return r


OPS = ["add", "mul", "pow", "sub", "mul", "Sum", "Prod", "scale", "neg", "atomadd", "pow", "mul", "const", "expand"]
LIMIT = 120


def interpret(case, build):
    """Run the instruction list.  Returns the list of (expression or None, model)."""
    na, steps = case
    A = atoms()[: NPOLY if na == 0 else None]
    out = [(e, {key(m): F(1)}) for e, m in A]
    n0 = len(out)
    for a, b, c, d in steps:
        op = OPS[a % len(OPS)]
        n = len(out)
        i = (n - 1) - (b % n) if b >= 60 or n == n0 else n - 1
        j = (n - 1) - (c % n) if c >= 50 or n == n0 else n - 1
        (ea, ma), (eb, mb) = out[i], out[j]
        q = COEF[d % len(COEF)]
        if op == "add":
            m, f = padd(ma, mb), lambda: ea + eb
        elif op == "sub":
            m, f = padd(ma, mb, -1), lambda: ea - eb
        elif op == "mul":
            if len(ma) * len(mb) > LIMIT:
                continue
            m, f = pmul(ma, mb), lambda: ea * eb
        elif op == "pow":
            p = [2, 3, 2, 4, 1, 5, 0, 6, 7][c % 9]
            if len(ma) > 1:
                while p > 2 and _npow(len(ma), p) > LIMIT:
                    p -= 1
                if _npow(len(ma), p) > LIMIT:
                    continue
            if not ma and p == 0:
                continue
            m, f = ppow(ma, p), lambda: ea**p
        elif op == "Sum":
            m, f = padd(padd(ma, mb), {(): q}), lambda: E.Sum([ea, eb, E.Rat(q)])
        elif op == "Prod":
            if len(ma) * len(mb) > LIMIT:
                continue
            m, f = pmul(pmul(ma, mb), {(): q}), lambda: E.Prod([ea, E.Rat(q), eb])
        elif op == "scale":
            m, f = pmul(ma, {(): q}), lambda: q * ea
        elif op == "neg":
            m, f = pmul(ma, {(): F(-1)}), lambda: -ea
        elif op == "const":
            m, f = padd(ma, {(): q}), lambda: ea + q
        elif op == "atomadd":
            at, am = A[c % len(A)]
            m, f = padd(ma, {key(am): q}), lambda: ea + q * at
        else:  # expand an intermediate result
            m, f = ma, lambda: ea.expand() if ea.expandable() else ea
        if len(m) > LIMIT or m and max((abs(c.numerator) for c in m.values())) > 10**25:
            continue
        out.append((call("building", f), m) if build else (None, m))
    return out


def _npow(t, p):
    from math import comb

    return comb(t + p - 1, p)


def read_normal(e):
    """Read a distributed normal form strictly; raises Violation if it is not one."""
    terms = e.terms if type(e) is E.Sum else [e]
    r = {}
    names = {repr(snapshot(v)): k for k, v in BASES.items()}
    for t in terms:
        c = F(1)
        m = {}
        fs = t.terms if type(t) is E.Prod else [t]
        for f in fs:
            if type(f) is E.Rat:
                c *= f.value
                continue
            b, q = (f.base, f.exponent) if type(f) is E.Power else (f, E.Rat(1))
            if type(q) is not E.Rat:
                raise Violation("not a monomial factor: %s in %s" % (show(f), show(e)))
            n = names.get(repr(snapshot(b)))
            if n is None:
                raise Violation("the expansion %s still contains the factor %s" % (show(e), show(f)))
            m[n] = m.get(n, F(0)) + q.value
        k = key(m)
        if k in r:
            raise Violation("the expansion %s has two terms in the same monomial %s" % (show(e), k))
        r[k] = c
    return {k: c for k, c in r.items() if c}


def check_struct(case, rec):
    check_poly(case, rec, build_struct(case, True))


def check_poly(case, rec, out=None):
    out = out or interpret(case, True)
    e, m = out[-1]
    s0 = snapshot(e)
    ok = call("expandable", e.expandable)
    if ok is not True and ok is not False:
        raise Violation("expandable() of %s is %r" % (show(e), ok))
    if ok:
        r = call("expand of %s" % show(e), e.expand)
    else:
        refused(e)
        r = e
    got = read_normal(r)
    if got != m:
        diff = {k: (got.get(k), m.get(k)) for k in set(got) | set(m) if got.get(k) != m.get(k)}
        raise Violation("expansion of %s is %s; wrong coefficients (got, true): %s" % (show(e), show(r), {str(k): (str(a), str(b)) for k, (a, b) in list(diff.items())[:4]}))
    if r.expandable():
        raise Violation("%s, the expansion of %s, claims to be expandable" % (show(r), show(e)))
    if snapshot(e) != s0:
        raise Violation("expanding changed the expression itself")
    if snapshot(call("expand again", lambda: e.expand() if e.expandable() else e)) != snapshot(r):
        raise Violation("second expansion of %s differs" % show(e))
    rec.label("expandable" if ok else "already normal")
    rec.label("terms:%d" % min(len(m), 40))
    rec.nontrivial = ok and len(m) >= 3
    rec.show = show(e)


def refused(e):
    try:
        r = e.expand()
    except Exception:
        return
    raise Violation("%s reports itself not expandable but expands to %s" % (show(e), show(r)))


# structured: sums of products of powers of sums of monomials, which always have something to multiply out
def strat_struct():
    s = st.integers(0, 255)
    mono = st.tuples(s, st.lists(st.integers(0, 10), max_size=2))
    factor = st.tuples(st.lists(mono, min_size=1, max_size=4), st.integers(1, 4))
    prod = st.tuples(st.lists(factor, min_size=1, max_size=3), s, st.integers(0, 3))
    return st.tuples(st.integers(0, 1), st.lists(prod, min_size=1, max_size=2), st.integers(1, 3))


def build_struct(case, build):
    na, prods, outer = case
    A = atoms()[: NPOLY if na == 0 else None]
    total, tm = E.Rat(0), {}
    for factors, c, style in prods:
        e, m = E.Rat(COEF[c % len(COEF)]), {(): COEF[c % len(COEF)]}
        fs = [e]
        for monos, p in factors:
            fe, fm = E.Rat(0), {}
            for k, idx in monos:
                q = COEF[k % len(COEF)]
                te, tmn = E.Rat(q), {(): q}
                for a in idx:
                    at, am = A[a % len(A)]
                    te = te * at if build else te
                    tmn = pmul(tmn, {key(am): F(1)})
                fe = fe + te if build else fe
                fm = padd(fm, tmn)
            while p > 1 and len(fm) > 1 and _npow(len(fm), p) * max(len(m), 1) > LIMIT:
                p -= 1
            fm = ppow(fm, p)
            if len(fm) * len(m) > LIMIT:
                return None
            m = pmul(m, fm)
            fs.append(call("power", lambda: fe**p) if build else None)
        if build:
            e = call("product", lambda: E.Prod(fs) if style % 2 else _mulall(fs))
            total = total + e
        tm = padd(tm, m)
    while outer > 1 and len(tm) > 1 and _npow(len(tm), outer) > LIMIT:
        outer -= 1
    if outer > 1:
        total = call("power", lambda: total**outer) if build else total
        tm = ppow(tm, outer)
    if len(tm) > LIMIT or tm and max(abs(c.numerator) for c in tm.values()) > 10**30:
        return None
    return [(total, tm)]


def _mulall(fs):
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def decode_struct(raw):
    case = json_like(raw)
    return case if build_struct(case, False) else None


def json_like(x):
    return [json_like(v) for v in x] if isinstance(x, (list, tuple)) else x


def decode_poly(raw):
    case = [raw[0], [list(s) for s in raw[1]]]
    out = interpret(case, False)
    if len(out) <= (NPOLY if raw[0] == 0 else len(atoms())):
        return None
    return case


def strat_poly():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, 1), st.lists(st.tuples(b, b, b, b), min_size=2, max_size=9))


def binomials(tier):
    """(a1 x + ... )^n for every small number of terms and exponent."""
    n = 8 if tier == "quick" else 14
    for na in (0, 1):
        for p in range(0, n):
            # x+y+c, scaled, squared, ...
            yield [na, [[0, 255, 254, 0], [8 + 4, 0, 0, p], [2, 0, p, 0]]]
            yield [na, [[9, 255, p, 1], [9, 0, p + 1, 2], [9, 0, p + 2, 3], [2, 0, 1, 0], [1, 0, 254, 0]]]


def highs(tier):
    """High powers: many terms, coefficients far beyond machine integers."""
    for k, (n, ps) in enumerate([(2, (11, 19, 24, 33, 47, 58, 61, 64, 70, 80)), (3, (7, 9, 12, 15, 18)), (4, (5, 6, 8)), (5, (4, 5))]):
        for j, p in enumerate(ps):
            for v in range(2 if tier == "quick" else 8):
                yield {"n": n, "p": p, "v": k * 31 + j * 7 + v * 3}


def check_high(case, rec):
    A, n, p, v = atoms(), case["n"], case["p"], case["v"]
    e, m = E.Rat(0), {}
    for i in range(n):
        q = COEF[(v * (i + 1) + i) % len(COEF)] if v % 2 or v % 3 else F(1)
        a, am = A[(v + i) % NPOLY] if v % 4 else A[(v + 3 * i) % len(A)]
        if i == n - 1 and v % 2:
            a, am = E.Rat(1), {}
        e = e + q * a
        m = padd(m, {key(am): q})
    check_poly(None, rec, [(call("power", lambda: e**p), ppow(m, p))])
    rec.label("terms in the base:%d" % len(m))


OPS_V = dict(OPS_ALL)
OPS_V.update({"add": 22, "mul": 22, "powr": 18, "abs": 2, "div": 12})
P_V = Profile(OPS_V, maxlen=13, exps=[(2, 1), (-1, 1), (3, 1), (-2, 1), (1, 2), (2, 1), (4, 1), (-3, 1), (-1, 2), (3, 2)])


def check_value(case, rec):
    prog = case
    facts = Facts(prog)
    cs = caches(prog, facts)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    try:
        e = as_expr(build_all(prog, E)[-1], E)
    except BuildError:
        raise Discard("construction raises (C01)")
    if unusable(e):
        raise Discard("infinite or too large")
    ok = call("expandable of %s" % show(e), e.expandable)
    if not ok:
        refused(e)
        rec.label("not expandable")
        return
    r = call("expand of %s" % show(e), e.expand)
    n = 0
    for c in cs:
        n += agree(c.ref(i), r, c.pt, "expansion of %s" % text(prog))
    rec.label("top:" + type(e).__name__)
    if snapshot(r) == snapshot(e):
        raise Violation("%s claims to be expandable but its expansion is itself" % show(e))
    rec.nontrivial = n > 0 and e.has(E.Sum)
    rec.show = text(prog)


def unusable(e):
    """Infinities, and powers of sums whose expansion would be astronomically large."""
    if isinstance(e, (E.Infinity, E.NegInfinity, E.NaN)):
        return True
    if isinstance(e, E.Power) and isinstance(e.exponent, E.Rat) and abs(e.exponent.value) > 6 and e.base.has(E.Sum):
        return True
    return any(unusable(c) for c in e.children()) or weight(e) > 3000


def weight(e):
    """Upper bound on the number of terms of the expansion."""
    if isinstance(e, E.Sum):
        return sum(weight(c) for c in e.children())
    if isinstance(e, E.Prod):
        w = 1
        for c in e.children():
            w *= weight(c)
        return w
    if isinstance(e, E.Power) and isinstance(e.exponent, E.Rat) and e.exponent.is_int:
        return min(weight(e.base) ** abs(int(e.exponent.value)), 10**9)
    return max([1] + [weight(c) for c in e.children()])


def decode_value(raw):
    prog = P_V.decode(raw)
    if prog is None:
        return None
    sums = [i for i, ins in enumerate(prog) if ins[0] in ("add", "sub", "Sum")]
    if sums and len(raw) % 3:
        a, b, c, d = raw[0]
        i = sums[-1 - a % min(3, len(sums))]
        j = (len(prog) - 1 - b % len(prog)) if b % 2 else sums[-1 - b // 2 % len(sums)]
        op = c % 5
        if op == 0:
            prog.append(["powr", i, [2, 3, 2, -2, 4][d % 5], 1])
        elif op == 1:
            prog.append(["div", i, j])
        elif op == 2:
            prog.append(["Prod", [i, j, d % len(prog)]])
        else:
            prog.append(["mul", i, j])
        if d % 4 == 0:
            prog.append([["sin", "exp", "log", "sqrt", "atan", "neg", "abs"][d // 4 % 7], len(prog) - 1])
        elif d % 4 == 1:
            prog.append([["add", "sub", "mul", "div"][d // 4 % 4], len(prog) - 1, d // 16 % len(prog)])
    prog = prune(prog)
    return prog if operands(prog[-1]) else None


SUBS = [
    Sub("structured", check_struct, strat_struct, decode_struct, quick=3200),
    Sub("binomials", check_poly, cases=binomials),
    Sub("high powers", check_high, cases=highs),
    Sub("polynomial", check_poly, strat_poly, decode_poly, quick=3000),
    Sub("value", check_value, P_V.strategy, decode_value, quick=9000),
]
