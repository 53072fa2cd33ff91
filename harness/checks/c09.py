"""C09: derivatives are the true partial derivatives."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from ..num import FloatOps, Real
from ..ev import conv_env
from .c01 import LEAVES, OPS_ALL, P_ALG, P_ALL, P_FN, UN, BIN, decoder
from .c05 import json_like

SYM = ("x", "y", "z")


def has_sym(e, var):
    return isinstance(e, E.Symbol) and e.name == var or any(has_sym(c, var) for c in e.children())


def has_zero_base(e):
    """0**u is kept as it is, also in its derivative."""
    return isinstance(e, E.Power) and e.base == 0 or any(has_zero_base(c) for c in e.children())


def abs_inners(e, out=None):
    out = [] if out is None else out
    if isinstance(e, E.Abs):
        out.append(e.inner)
    for c in e.children():
        abs_inners(c, out)
    return out


class DRef:
    """Reference derivative of the program's last instruction at a point."""

    def __init__(self, cache, var):
        self.c, self.var, self.m = cache, var, {}

    def __call__(self, R, env):
        k = R.o.name
        if k not in self.m:
            vals = self.c.get(R, env)
            self.m[k] = (dref_all(self.c.prog, self.c.facts, R, env, self.var, vals), R.scale)
        d, sc = self.m[k]
        R.scale = max(R.scale, sc)
        if d[-1] is None:
            raise Undef("not differentiable here")
        return d[-1]


def abs_ok(inners, pt):
    """|u| is differentiable where u is not 0."""
    if not inners:
        return True
    R = Real(FloatOps)
    env = conv_env(pt, FloatOps)
    try:
        return all(abs(value(u, env, R)) > 1e-9 for u in inners)
    except (Undef, OverflowError, Violation, ValueError):
        return False


def build_expr(prog, cs):
    try:
        return as_expr(build_all(prog, E)[-1], E)
    except BuildError:
        raise Discard("construction raises (C01)")


def derivative(e, var, how=0):
    s = E.Symbol(var)
    f = (lambda: e.diff(s)) if how == 0 else (lambda: E.diff(e, s))
    return call("derivative of %s with respect to %s" % (show(e), var), f)


def check(prog, rec):
    facts = Facts(prog)
    cs = caches(prog, facts)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    e = build_expr(prog, cs)
    s0 = snapshot(e)
    n = 0
    dep = 0
    SYM = naming_of(prog)
    for var in SYM:
        d = derivative(e, var, len(prog) % 2)
        if not isinstance(d, E.Expr):
            raise Violation("derivative of %s with respect to %s is %r" % (show(e), var, d))
        if not has_sym(e, var):
            if snapshot(d) != ("Rat", 0, 1) and not (has_zero_base(e) and snapshot(d)[0] != "NaN"):
                raise Violation("%s does not contain %s but its derivative is %s" % (show(e), var, show(d)))
            continue
        dep += 1
        inn = abs_inners(e)
        for c in cs:
            if not abs_ok(inn, c.pt):
                continue
            n += agree(DRef(c, var), d, c.pt, "derivative of %s with respect to %s" % (show(e), var))
    if len({v for v in SYM if has_sym(e, v)}) == 1 and dep:
        var = [v for v in SYM if has_sym(e, v)][0]
        d1 = call("diff(%s)" % show(e), E.diff, e)
        if snapshot(d1) != snapshot(e.diff(E.Symbol(var))):
            raise Violation("diff(%s) without a variable is %s" % (show(e), show(d1)))
    if snapshot(e) != s0:
        raise Violation("differentiating changed %s" % show(e))
    for ins in prog:
        if operands(ins):
            rec.label("op:" + ins[0])
    rec.nontrivial = n >= 3 and len(prog) >= 4
    rec.show = text(prog)


def small(tier):
    L = len(LEAVES)
    for i in range(L):
        for u in UN:
            yield prune(LEAVES + [[u, i]])
            for w in UN:
                yield prune(LEAVES + [[u, i], [w, L]])
        for j in range(L):
            for b in BIN:
                yield prune(LEAVES + [[b, i, j]])
                for u in UN:
                    yield prune(LEAVES + [[b, i, j], [u, L]])
                    if b != "logb" or tier != "quick":
                        yield prune(LEAVES + [[u, i], [b, L, j]])
                        if b in ("sub", "div", "pow", "logb"):
                            yield prune(LEAVES + [[u, i], [b, j, L]])


# ---------------------------------------------------------------- laws


def check_laws(case, rec):
    """Linearity, product rule, mixed partials and the power of a sum, on the derivatives simpy returns."""
    p1, p2, k = case
    prog = p1 + [shift(ins, len(p1)) for ins in p2]
    n1, n2 = len(p1) - 1, len(prog) - 1
    facts = Facts(prog)
    cs = caches(prog, facts)
    if not any(c.defined(n1) and c.defined(n2) for c in cs):
        raise Discard("undefined everywhere")
    try:
        out = build_all(prog, E)
    except BuildError:
        raise Discard("construction raises (C01)")
    f, g = as_expr(out[n1], E), as_expr(out[n2], E)
    if f.has(E.Abs) or g.has(E.Abs):
        raise Discard("absolute value")
    var = SYM[k % 2]
    X = E.Symbol(var)
    df, dg = derivative(f, var), derivative(g, var)
    a, b = [(2, -3), (F(1, 2), 5), (-1, 1), (7, F(-2, 3))][k % 4]
    h = a * f + b * g
    dh = derivative(h, var)
    W = SYM[(k + 1) % 3]
    m = 0
    ok = [c for c in cs if c.defined(n1) and c.defined(n2)]
    combos = [("linear combination %s" % show(h), a * df + b * dg, dh)]
    prod = f * g
    combos.append(("product %s" % show(prod), df * g + f * dg, derivative(prod, var)))
    fw = derivative(f, W)
    combos.append(("mixed partials of %s by %s and %s" % (show(f), var, W), derivative(fw, var), derivative(df, W)))
    for what, ref, got in combos:
        for c in ok:
            m += agree(lambda R, env: value(ref, env, R), got, c.pt, what)
    rec.nontrivial = m >= 6
    rec.show = "%s ; %s" % (text(p1), text(p2))


def shift(ins, k):
    op = ins[0]
    if not operands(ins):
        return ins
    if op in ("Sum", "Prod"):
        return [op, [j + k for j in ins[1]]]
    if op in ("powr", "absroot"):
        return [op, ins[1] + k] + list(ins[2:])
    return [op] + [j + k for j in ins[1:]]


OPS_L = {k: v for k, v in OPS_ALL.items() if k not in ("abs", "absroot")}
P_L = Profile(OPS_L, maxlen=6, minlen=2, maxsize=14)


def strat_laws():
    return st.tuples(P_L.strategy(), P_L.strategy(), st.integers(0, 11))


def dec_laws(raw):
    a, b, k = raw
    p, q = P_L.decode(a), P_L.decode(b)
    if p is None or q is None:
        return None
    return [prune(p), prune(q), k]


def check_noarg(case, rec):
    """Without a variable, diff works exactly for expressions in one symbol."""
    names = case[0]
    e = E.Sum([E.Symbol(n) ** (i + 2) for i, n in enumerate(names)] + [E.Rat(case[1])])
    try:
        d = E.diff(e)
    except ValueError:
        if len(set(names)) == 1:
            raise Violation("diff(%s) refuses although there is one symbol" % show(e))
        rec.nontrivial = True
        return
    except Exception as ex:
        raise Violation("diff(%s) raised %s: %s" % (show(e), type(ex).__name__, ex))
    if len(set(names)) != 1:
        raise Violation("diff(%s) picked a variable by itself: %r" % (show(e), d))
    rec.nontrivial = True


def noarg_cases(tier):
    for names in (["x"], ["y"], ["theta"], ["x", "y"], [], ["x", "y", "z"], ["t", "x"]):
        for k in (0, 3):
            yield [names, k]


# variables inside functions, quotients and symbolic exponents
OPS_D = {"add": 10, "sub": 6, "mul": 14, "div": 12, "neg": 3, "powr": 14, "pow": 8, "sqrt": 4, "rat": 6, "lin": 8, "sym": 4, "exp": 6, "log": 6, "logb": 4, "sin": 5, "cos": 5,
         "tan": 4, "sec": 4, "csc": 4, "cot": 4, "asin": 4, "acos": 4, "atan": 4, "pi": 2, "e": 2, "Prod": 3, "Sum": 2, "abs": 2}
P_D = Profile(OPS_D, maxlen=11)

SUBS = [
    Sub("small_scope", check, cases=small, show=text),
    Sub("no_variable", check_noarg, cases=noarg_cases),
    Sub("functions", check, P_D.strategy, decoder(P_D, True), quick=6000, show=text),
    Sub("algebraic", check, P_ALG.strategy, decoder(P_ALG), quick=3000, show=text),
    Sub("mixed", check, P_ALL.strategy, decoder(P_ALL, True), quick=3000, show=text),
    Sub("laws", check_laws, strat_laws, dec_laws, quick=3000),
]
