"""C10: substitution and numeric evaluation agree with real evaluation."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from ..ev import conv_env
from ..num import FloatOps, MpOps, Real, close
from .c01 import OPS_ALL, P_ALG, P_ALL, P_CONST, P_FN, decoder

SYM = ("x", "y", "z")


def compose(prog, repl):
    """One program: the replacements' programs, then prog reading them in place of its symbols."""
    out = [["sym", s] for s in SYM]
    where = {}
    for s, rp in repl.items():
        base = len(out)
        out += [move(ins, base) for ins in rp]
        where[s] = len(out) - 1
    idx = []
    for ins in prog:
        if ins[0] == "sym":
            idx.append(where.get(ins[1], SYM.index(ins[1]) if ins[1] in SYM else None))
            continue
        if ins[0] == "lin":
            out.append(["rat"] + list(ins[1]))
            out.append(["mul", len(out) - 1, where.get(ins[2], SYM.index(ins[2]))])
        elif not operands(ins):
            out.append(list(ins))
        elif ins[0] in ("Sum", "Prod"):
            out.append([ins[0], [idx[j] for j in ins[1]]])
        elif ins[0] in ("powr", "absroot"):
            out.append([ins[0], idx[ins[1]]] + list(ins[2:]))
        else:
            out.append([ins[0]] + [idx[j] for j in ins[1:]])
        idx.append(len(out) - 1)
    return out, idx[-1]


def move(ins, k):
    op = ins[0]
    if not operands(ins):
        return list(ins)
    if op in ("Sum", "Prod"):
        return [op, [j + k for j in ins[1]]]
    if op in ("powr", "absroot"):
        return [op, ins[1] + k] + list(ins[2:])
    return [op] + [j + k for j in ins[1:]]


class SubsRef:
    """The value of prog with its symbols valued by the replacement programs (all at once)."""

    def __init__(self, prog, repl, pt):
        self.prog, self.repl, self.pt = prog, repl, pt
        self.facts = Facts(prog)
        self.comp, self.root = compose(prog, repl)
        self.comp = prune(self.comp, self.root)
        self.cfacts = Facts(self.comp)
        self.m = {}

    def __call__(self, R, env):
        k = R.o.name
        if k not in self.m:
            self.m[k] = (self.compute(R, env), R.scale)
        v, sc = self.m[k]
        R.scale = max(R.scale, sc)
        if v is None:
            raise Undef("outside the domain")
        return v

    def compute(self, R, env):
        env2 = conv_env(self.pt, env.o)
        for s, rp in self.repl.items():
            v = ref_all(rp, Facts(rp), R, env)[-1]
            if v is None:
                return None
            env2[s] = v
        if ref_all(self.comp, self.cfacts, R, env, True)[-1] is None:
            return None
        return ref_all(self.prog, self.facts, R, env2, True)[-1]

    def defined(self):
        return self.compute(Real(FloatOps), conv_env(self.pt, FloatOps)) is not None


def key_of(s):
    return s


def build(prog):
    try:
        return as_expr(build_all(prog, E)[-1], E)
    except BuildError:
        raise Discard("construction raises (C01)")


def check_subs(case, rec):
    prog, repl, perm = case
    e = build(prog)
    rs = {s: build(p) for s, p in repl.items()}
    s0 = snapshot(e)
    refs = [SubsRef(prog, repl, pt) for pt in POINTS]
    ok = any(r.defined() for r in refs)
    if not ok:
        raise Discard("undefined everywhere")
    d = dict(rs)
    what = "subs of %s by %s" % (show(e), {k: show(v) for k, v in rs.items()})
    r = call(what, e.subs, d)
    if list(d) != list(rs) or snapshot(e) != s0:
        raise Violation("%s changed its arguments" % what)
    n = 0
    for ref in refs:
        n += agree(ref, r, ref.pt, what)
    # one symbol after the other, when the replacements do not mention the symbols still to come
    order = list(rs)
    order = order[perm % len(order):] + order[: perm % len(order)]
    if len(order) > 1 and all(not any(t.name == w for t in rs[v].symbols()) for i, v in enumerate(order) for w in order[i + 1:]):
        cur = e
        for v in order:
            cur = call(what + " one by one", cur.subs, {v: rs[v]})
        for ref in refs:
            agree(ref, cur, ref.pt, what + " one by one")
        rec.label("stepwise")
    left = {t.name for t in r.symbols()}
    allowed = {t.name for t in e.symbols() if t.name not in rs} | {t.name for s, v in rs.items() if any(t.name == s for t in e.symbols()) for t in v.symbols()}
    if left - allowed:
        raise Violation("%s has the symbols %s, which neither the replacements nor the rest contain" % (what, sorted(left - allowed)))
    rec.label("replaced:%d" % len(rs))
    rec.nontrivial = n >= 2 and len(prog) >= 3 and any(any(t.name == s for t in e.symbols()) for s in rs)
    rec.show = what


OPS_R = {"add": 10, "sub": 6, "mul": 10, "div": 5, "neg": 4, "powr": 6, "rat": 16, "int": 3, "frac": 3, "lin": 10, "sym": 10, "exp": 2, "sin": 2, "log": 1, "pi": 2, "sqrt": 2, "float": 0}
P_R = Profile(OPS_R, maxlen=3, minlen=1, maxsize=8)
OPS_P = dict(OPS_ALL)
P_P = Profile(OPS_P, maxlen=9, maxsize=24)


def strat_subs():
    r = st.one_of(st.none(), P_R.strategy())
    return st.tuples(st.one_of(P_P.strategy(), P_ALG.strategy()), r, r, r, st.integers(0, 5))


def dec_subs(raw):
    p, a, b, c, k = raw
    prog = P_P.decode(p)
    if prog is None:
        return None
    repl = {}
    for s, q in zip(SYM, (a, b, c)):
        if q is not None:
            rp = P_R.decode(q)
            if rp is not None:
                repl[s] = prune(rp)
    if not repl:
        return None
    return [prune(prog), repl, k]


def check_laws(prog, rec):
    e = build(prog)
    s0 = snapshot(e)
    facts = Facts(prog)
    cs = caches(prog, facts, strict_log=True)
    i = len(prog) - 1
    if not defined_somewhere(cs, i):
        raise Discard("undefined everywhere")
    for d, what in (({}, "nothing"), ({"q": E.Rat(3)}, "an absent symbol"), ({s: E.Symbol(s) for s in SYM}, "every symbol by itself"), ({"xx": E.Symbol("x"), "": E.Rat(1)}, "absent symbols")):
        r = call("subs of %s by %s" % (show(e), what), e.subs, d)
        if snapshot(r) != s0:
            for c in cs:
                agree(c.ref(i), r, c.pt, "substituting %s in %s" % (what, show(e)))
            if not radical(e):
                raise Violation("substituting %s in %s gives %s" % (what, show(e), show(r)))
    x, y = E.Symbol("x"), E.Symbol("y")
    sw = call("swap in %s" % show(e), e.subs, {"x": y, "y": x})
    for pt in POINTS:
        p2 = dict(pt, x=pt["y"], y=pt["x"])
        c2 = RefCache(prog, facts, p2, True)
        agree2(lambda R, env: c2.ref(i)(R, conv_env(p2, R.o)), lambda R, env: value(sw, env, R), pt, "swapping x and y in %s" % show(e), lambda: show(sw))
    back = call("swap back in %s" % show(sw), sw.subs, {"x": y, "y": x})
    for c in cs:
        agree(c.ref(i), back, c.pt, "swapping x and y twice in %s" % show(e))
    fresh = call("renaming in %s" % show(e), e.subs, {"x": E.Symbol("w")})
    names = {t.name for t in e.symbols()}
    got = {t.name for t in fresh.symbols()}
    if got != {("w" if n == "x" else n) for n in names}:
        raise Violation("renaming x to w in %s gives %s, with the symbols %s" % (show(e), show(fresh), sorted(got)))
    rec.nontrivial = len(prog) >= 5
    rec.show = text(prog)


def radical(e):
    """Contains roots of numbers, whose spelling depends on how they were put together."""
    if isinstance(e, E.Power) and not e.base.symbols() and e.base.children() is not None and isinstance(e.exponent, E.Rat) and e.exponent.value.denominator != 1:
        return True
    return any(radical(c) for c in e.children())


FL_EPS = 1e-8


def numeric(r):
    v = getattr(r, "value", None)
    if isinstance(r, E.Num) and v is not None:
        return float(v)
    raise Violation("not a number: %s" % show(r))


def fl_agree(ref, got, pt, what):
    """The float `got` agrees with the reference at pt to floating-point accuracy, relative to the intermediate magnitudes."""
    R = Real(MpOps)
    try:
        a = ref(R, conv_env(pt, MpOps))
    except (Undef, OverflowError):
        return False
    if R.scale > 1e9:
        return False
    v = float(got)
    if v != v or v in (float("inf"), float("-inf")):
        raise Violation("%s is %r, the real value is %s" % (what, v, float(a)))
    if abs(float(a) - v) <= FL_EPS * max(abs(v), float(abs(a))) or abs(float(a) - v) <= 1e-9 * float(R.scale):
        return True
    raise Violation("%s is %.15g, the real value is %.15g" % (what, v, float(a)))


def stable(ref, pt):
    """Evaluation there is well conditioned: a tiny change of the point changes the value little."""
    try:
        vals = []
        for eps in (0, 1e-9):
            R = Real(FloatOps)
            env = {k: float(v) * (1 + eps) for k, v in pt.items()}
            vals.append(ref(R, env))
        return abs(vals[0] - vals[1]) <= 1e-5 * (1 + abs(vals[0]))
    except (Undef, OverflowError):
        return False


def check_evalf(prog, rec):
    """A constant expression evaluates to its real value; with values for the symbols likewise, and like substituting first."""
    e = build(prog)
    facts = Facts(prog)
    i = len(prog) - 1
    s0 = snapshot(e)
    n = 0
    names = {t.name for t in e.symbols()}
    cs = caches(prog, facts, strict_log=True)
    if not names:
        c = cs[0]
        if not c.defined(i):
            raise Discard("undefined")
        r = call("evalf of %s" % show(e), e.evalf)
        n += fl_agree(c.ref(i), numeric(r), c.pt, "evalf of %s" % show(e))
        rec.label("constant")
    else:
        for k, c in enumerate(cs):
            if not c.defined(i):
                continue
            if not stable(lambda R, env: nocache(prog, facts, i, R, env), c.pt):
                continue
            kinds = [lambda v: v, float, lambda v: E.Rat(v), lambda v: E.Float(float(v))]
            vals = {s: kinds[(k + j) % 4](c.pt[s]) for j, s in enumerate(sorted(names))}
            what = "evalf of %s at %s" % (show(e), {s: str(v) for s, v in vals.items()})
            r = call(what, e.evalf, vals)
            n += fl_agree(c.ref(i), numeric(r), c.pt, what)
            s = call("subs then evalf of %s" % show(e), lambda: e.subs(vals).evalf())
            fl_agree(c.ref(i), numeric(s), c.pt, "substituting, then %s" % what)
            if len(names) > 1:
                one = sorted(names)[k % len(names)]
                part = call("evalf of %s with only %s" % (show(e), one), e.evalf, {one: vals[one]})
                if any(t.name == one for t in part.symbols()) or {t.name for t in part.symbols()} - names:
                    raise Violation("evalf of %s with a value for %s gives %s" % (show(e), one, show(part)))
                R = Real(FloatOps)
                try:
                    v = value(part, conv_env(c.pt, FloatOps), R)
                except (Undef, OverflowError, ValueError):
                    continue
                if R.scale < 1e7:
                    fl_agree(c.ref(i), v, c.pt, "partial " + what)
            rec.label("with values")
    if snapshot(e) != s0:
        raise Violation("evalf changed %s" % show(e))
    rec.nontrivial = n > 0 and len(prog) >= 3
    rec.show = text(prog)


def nocache(prog, facts, i, R, env):
    v = ref_all(prog, facts, R, env, True)[i]
    if v is None:
        raise Undef("domain")
    return v


OPS_C = {"add": 10, "sub": 8, "mul": 12, "div": 8, "neg": 3, "powr": 12, "sqrt": 6, "rat": 20, "pi": 6, "e": 4, "abs": 3, "sin": 3, "cos": 3, "tan": 2, "sec": 2, "csc": 2, "cot": 2, "asin": 2, "acos": 2, "atan": 3,
         "log": 5, "logb": 4, "exp": 4, "pow": 3, "pifrac": 4}


class ConstProfile(Profile):
    def decode(self, raw):
        # no symbols: start from two numbers
        self2 = Profile.decode(self, raw)
        if self2 is None:
            return None
        return [["rat", 3, 2] if ins == ["sym", "x"] else ["pi"] if ins == ["sym", "y"] else ["rat", -2, 3] if ins[0] == "sym" else ins for ins in self2]


P_C = ConstProfile(OPS_C, maxlen=8)

SUBS = [
    Sub("subs", check_subs, strat_subs, dec_subs, quick=5000, show=lambda c: text(c[0])),
    Sub("subs_laws", check_laws, P_ALL.strategy, decoder(P_ALL), quick=3000, show=text),
    Sub("evalf_constants", check_evalf, P_C.strategy, decoder(P_C), quick=5000, show=text),
    Sub("evalf_values", check_evalf, P_ALL.strategy, decoder(P_ALL), quick=2500, show=text),
    Sub("evalf_functions", check_evalf, P_FN.strategy, decoder(P_FN), quick=2500, show=text),
]
