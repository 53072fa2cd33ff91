"""C22: structural queries, counting and replacement agree with the expression tree."""
from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from ..ev import TRIG
from .c01 import OPS_ALL

import simpy.regex as RX
import simpy.utils as UT

OPS = {k: v for k, v in OPS_ALL.items() if k not in ("asin", "acos", "atan", "absroot", "rat", "int", "frac", "abs")}
OPS.update(sin=4, cos=4, tan=3, sec=2, csc=2, cot=2, log=4, exp=4, abs=2, rat=4, sym=8, lin=8)
P = Profile(OPS, maxlen=13, minlen=4)
P_F = Profile(dict(OPS, sin=10, cos=10, tan=7, sec=6, csc=6, cot=6, abs=6, log=3, logb=4), maxlen=10, minlen=3)
P_Q = Profile(dict(OPS_ALL, sym=8), maxlen=13, minlen=3)


# ---- the tree, read from the fields of the nodes
def kids(e):
    t = type(e)
    if t in (E.Sum, E.Prod):
        return list(e.terms)
    if t is E.Power:
        return [e.base, e.exponent]
    if t is E.log:
        return [e.inner, e.base]
    if t in TRIG or t is E.Abs:
        return [e.inner]
    return []


def nodes(e, out=None):
    out = [] if out is None else out
    out.append(e)
    for k in kids(e):
        nodes(k, out)
    return out


def top_count(e, cond):
    """Occurrences met from the top, not looking inside an occurrence."""
    if cond(e):
        return 1
    return sum(top_count(k, cond) for k in kids(e))


def model_nesting(e, var):
    """Levels of operations around the variable (any symbol if var is None); a reciprocal or a factor -1 is no level."""
    names = {n.name for n in nodes(e) if type(n) is E.Symbol}
    if var is not None and var not in names:
        return 0
    if type(e) is E.Symbol:
        return 1
    ks = kids(e)
    if not ks:
        return 0
    below = max(model_nesting(k.base if type(k) is E.Power and snapshot(k.exponent) == ("Rat", -1, 1) else k, var) for k in ks)
    if type(e) is E.Prod and len(ks) == 2 and snapshot(ks[0]) == ("Rat", -1, 1):
        k = ks[1]
        return model_nesting(k.base if type(k) is E.Power and snapshot(k.exponent) == ("Rat", -1, 1) else k, var)
    return 1 + below


def expect(what, got, want):
    if type(got) is not type(want) or got != want:
        raise Violation("%s is %r instead of %r" % (what, got, want))


CLASSES = ["Symbol", "Rat", "Num", "Sum", "Prod", "Power", "log", "Abs", "sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "TrigFunction", "TrigFunctionNotInverse", "SingleFunc", "Pi", "E", "Associative", "Float"]


def build_pool(prog):
    if len(prog) > 20:
        raise Discard("long")
    facts = Facts(prog)
    cs = caches(prog, facts)
    out = [as_expr(v, E) for v in build_checked(prog, cs)]
    snaps = [snapshot(v) for v in out]
    if any(t in repr(snaps[-1]) for t in ("Infinity", "NaN")):
        raise Discard("infinite")
    return out, snaps


def unchanged(out, snaps, what):
    for e, s in zip(out, snaps):
        if snapshot(e) != s:
            raise Violation("%s changed an existing expression to %s" % (what, show(e)))


def check_queries(case, rec):
    prog, pick = case["prog"], case["pick"]
    out, snaps = build_pool(prog)
    e = out[-1]
    t = show(e)
    ns = nodes(e)
    rec.show = t
    names = {n.name for n in ns if type(n) is E.Symbol}
    got = call("symbols of %s" % t, e.symbols)
    if sorted(s.name for s in got) != sorted(names) or not all(type(s) is E.Symbol for s in got):
        raise Violation("symbols of %s are %s instead of %s" % (t, got, sorted(names)))
    if [snapshot(k) for k in call("children", e.children)] != [snapshot(k) for k in kids(e)]:
        raise Violation("children of %s are %s" % (t, e.children()))
    for s in naming_of(prog) + ("w", "x1"):
        v = E.Symbol(s)
        expect("contains(%s) of %s" % (s, t), call("contains", e.contains, v), s in names)
        expect("nesting of %s in %s" % (s, t), call("nesting(%s, %s)" % (t, s), E.nesting, e, v), model_nesting(e, s))
        expect("count of %s in %s" % (s, t), call("count(%s, %s)" % (t, s), RX.count, e, v), sum(1 for n in ns if type(n) is E.Symbol and n.name == s))
    expect("nesting of %s" % t, call("nesting(%s)" % t, E.nesting, e), model_nesting(e, None))
    expect("count_symbols of %s" % t, call("count_symbols(%s)" % t, UT.count_symbols, e), sum(1 for n in ns if type(n) is E.Symbol))
    for name in CLASSES:
        cls = getattr(E, name)
        want = any(isinstance(n, cls) for n in ns)
        expect("has(%s) of %s" % (name, t), call("has(%s) of %s" % (name, t), e.has, cls), want)
        expect("contains_cls(%s, %s)" % (t, name), call("contains_cls", RX.contains_cls, e, cls), want)
        cond = lambda n: isinstance(n, cls)
        expect("general_contains(%s, %s)" % (t, name), call("general_contains", RX.general_contains, e, cond), want)
        expect("general_count(%s, %s)" % (t, name), call("general_count", RX.general_count, e, cond), top_count(e, cond))
    # sub-expressions: those of the tree and others
    qs = [ns[p % len(ns)] for p in pick] + out[:-1][:8]
    if type(e) is E.Sum and len(e.terms) > 2:
        qs.append(E.Sum(e.terms[:2]))
    if type(e) is E.Prod and len(e.terms) > 2:
        qs.append(E.Prod(e.terms[:2]))
    for q in qs:
        sq = snapshot(q)
        cond = lambda n: snapshot(n) == sq
        expect("count(%s, %s)" % (t, show(q)), call("count(%s, %s)" % (t, show(q)), RX.count, e, q), top_count(e, cond))
    unchanged(out, snaps, "a query")
    rec.label("nodes:%d" % (len(ns) // 5 * 5))
    rec.nontrivial = len(ns) >= 6


# ---- replacement
def factors(e, hook, depth=0):
    """The sub-expressions a root or logarithm of e may be split into."""
    r = hook(e)
    if r is not None:
        return [r]
    if type(e) is E.Prod:
        return [f for k in e.terms for f in factors(k, hook, depth + 1)]
    if type(e) is E.Power:
        return [("pow", e)] + factors(e.base, hook, depth + 1)
    return [("expr", e)]


def hval(e, hook, env, R, depth=0):
    """Value of the tree with the hooked pieces revalued; raises Undef where roots or logarithms may be split invalidly."""
    if depth > 200:
        raise Violation("cyclic expression")
    o = R.o
    h = hook(e)
    if h is not None:
        return hookval(h, hook, env, R, depth)
    t = type(e)
    if t is E.Sum:
        s = o.zero
        for k in e.terms:
            s = s + R.chk(hval(k, hook, env, R, depth + 1))
        return R.chk(s)
    if t is E.Prod:
        s = o.one
        for k in e.terms:
            s = R.chk(s * hval(k, hook, env, R, depth + 1))
        return s
    if t is E.Power:
        b = hval(e.base, hook, env, R, depth + 1)
        xh = hook(e.exponent)
        if xh is None and type(e.exponent) is E.Rat and e.exponent.value.denominator == 1:
            return R.pow(b, None, e.exponent.value)
        positive(e.base, hook, env, R, depth)
        return R.pow(b, hval(e.exponent, hook, env, R, depth + 1))
    if t is E.log:
        positive(e.inner, hook, env, R, depth)
        v = R.log(hval(e.inner, hook, env, R, depth + 1))
        if hook(e.base) is None and type(e.base) is E.E:
            return v
        return R.chk(v * R.inv(R.log(hval(e.base, hook, env, R, depth + 1))))
    if t is E.Abs:
        return abs(hval(e.inner, hook, env, R, depth + 1))
    if t in TRIG:
        return R.fn(TRIG[t], hval(e.inner, hook, env, R, depth + 1))
    return value(e, env, R)


def hookval(h, hook, env, R, depth):
    """h: ("expr", new) or ("fn", function of the revalued inner, inner) or ("pow", e)."""
    if h[0] == "expr":
        return hval(h[1], none_hook, env, R, depth + 1)
    return h[1](hval(h[2], hook, env, R, depth + 1), R)


def none_hook(e):
    return None


def positive(e, hook, env, R, depth):
    r = hook(e)
    if r is not None:
        if r[0] == "expr":
            return positive(r[1], none_hook, env, R, depth + 1)
        if hookval(r, hook, env, R, depth) <= 0:
            raise Undef("sign")
        positive(r[2], hook, env, R, depth + 1)  # the new function's value may be a product
        return
    if type(e) is E.Prod:
        for k in e.terms:
            positive(k, hook, env, R, depth + 1)
        return
    if type(e) is E.Power:
        positive(e.base, hook, env, R, depth + 1)
        return
    if type(e) is E.Sum:
        # a common factor may be split off a sum
        for k in e.terms:
            if hval(k, hook, env, R, depth + 1) == 0:
                raise Undef("sign")
    if hval(e, hook, env, R, depth + 1) <= 0:
        raise Undef("sign")


def same_value(e, hook, r, what, rec):
    n = 0
    for pt in WPOINTS:
        n += agree(lambda R, env: hval(e, hook, env, R), r, pt, what)
    return n


WPOINTS = [dict(p, w=q) for p, q in zip(POINTS, (F(613, 1000), F(1489, 1000), F(2003, 1000), F(787, 1000), F(-557, 1000), F(-1709, 1000)))]
W = E.Symbol("w")


def fresh_choices(old, out):
    return [W, E.Rat(3), W**2, W + 1, 2 * W, E.sin(W), out[0], out[len(out) // 2], E.Rat(0), -W, 1 / W, E.e**W, E.Symbol("y"), E.Rat(1), abs(W)]


def check_replace(case, rec):
    prog = case["prog"]
    out, snaps = build_pool(prog)
    e = out[-1]
    ns = nodes(e)
    syms = [n for n in ns if type(n) is E.Symbol]
    old = ns[case["old"] % len(ns)] if case["kind"] % 3 else (syms or ns)[case["old"] % len(syms or ns)]
    if case["kind"] == 7:
        old = out[case["old"] % len(out)]
    ch = fresh_choices(old, out)
    new = ch[case["new"] % len(ch)] if case["new"] < 40 else W
    t = "replace(%s, %s, %s)" % (show(e), show(old), show(new))
    so = snapshot(old)
    hook = lambda n: ("expr", new) if snapshot(n) == so else None
    hits = top_count(e, lambda n: snapshot(n) == so)
    rec.show = t
    try:
        r = RX.replace(e, old, new)
    except Exception as ex:
        if any(defined(e, hook, pt) for pt in WPOINTS):
            raise Violation("%s raised %s: %s" % (t, type(ex).__name__, ex))
        raise Discard("undefined replacement")
    unchanged(out, snaps, t)
    if not isinstance(r, E.Expr):
        raise Violation("%s returns %r" % (t, r))
    if not hits:
        if snapshot(r) != snaps[-1]:
            raise Violation("%s: nothing to replace, but the result is %s" % (t, show(r)))
        rec.label("no occurrence")
        return
    n = same_value(e, hook, r, t, rec)
    if not any(snapshot(m) == so for m in nodes(new)) and (type(old) is E.Symbol or snapshot(new) == ("Symbol", "w")):
        if any(snapshot(m) == so for m in nodes(r)) and type(old) is E.Symbol:
            raise Violation("%s gives %s, which still contains %s" % (t, show(r), show(old)))
    if snapshot(new) == ("Symbol", "w") and type(old) is E.Symbol:
        back = call("replacing back", RX.replace, r, W, old)
        if snapshot(back) != snaps[-1]:
            for pt in WPOINTS:
                agree(lambda R, env: hval(e, none_hook, env, R), back, pt, "%s and back" % t)
    rec.label("hits:%d" % min(hits, 5))
    rec.nontrivial = n > 0 and len(ns) >= 6


def defined(e, hook, pt):
    from ..ev import conv_env
    from ..core import NonFinite

    try:
        hval(e, hook, conv_env(pt, FloatOps), Real(FloatOps))
        return True
    except (Undef, NonFinite, OverflowError, ZeroDivisionError):
        return False


def kinds():
    """name -> (constructor of the replacement from the inner expression, value of it)"""
    return [
        ("w*u", lambda u: W * u, None),
        ("u^2", lambda u: u**2, lambda v, R: R.chk(v * v)),
        ("3*u", lambda u: 3 * u, lambda v, R: R.chk(3 * v)),
        ("u+1", lambda u: u + 1, lambda v, R: R.chk(v + 1)),
        ("log(u^2+1)", lambda u: E.log(u**2 + 1), lambda v, R: R.log(R.chk(v * v + 1))),
        ("5", lambda u: E.Rat(5), lambda v, R: R.o.frac(F(5))),
        ("-u", lambda u: -u, lambda v, R: -v),
        ("e^u", lambda u: E.e**u, lambda v, R: R.pow(R.o.e, v)),
    ]


REPLACEABLE = ["sin", "cos", "tan", "sec", "csc", "cot", "Abs"]


def check_classes(case, rec):
    prog = case["prog"]
    out, snaps = build_pool(prog)
    e = out[-1]
    present = [c for c in REPLACEABLE if any(type(n) is getattr(E, c) for n in nodes(e))]
    if not present:
        raise Discard("no function")
    ks = kinds()[1:]
    chosen = []
    for c, k in case["cls"]:
        name = present[c % len(present)] if c < 50 else REPLACEABLE[c % len(REPLACEABLE)]
        if name not in [x[0] for x in chosen]:
            chosen.append((name, ks[k % len(ks)]))
    t = "replace_class(%s, %s)" % (show(e), ", ".join("%s -> %s" % (n, k[0]) for n, k in chosen))
    table = {getattr(E, n): k for n, k in chosen}

    def hook(n):
        k = table.get(type(n))
        return None if k is None else ("fn", k[2], n.inner)

    rec.show = t
    how = case["how"] % 3
    try:
        if how == 0:
            r = RX.replace_class(e, [getattr(E, n) for n, _ in chosen], [k[1] for _, k in chosen])
        else:
            # the same replacement through the general factories; they do not look inside a replaced piece, so do it here
            def again(u):
                return f(u)

            if how == 1:
                f = RX.replace_factory_list([(lambda n, c=c: isinstance(n, c)) for c in table], [(lambda n, k=k: k[1](again(n.inner))) for k in table.values()])
            else:
                f = lambda u: RX.kinder_replace_many(u, [(lambda n, c=c, k=k: k[1](again(n.inner)) if isinstance(n, c) else None) for c, k in table.items()])
            r = f(e)
    except Exception as ex:
        if any(defined(e, hook, pt) for pt in WPOINTS):
            raise Violation("%s raised %s: %s" % (t, type(ex).__name__, ex))
        raise Discard("undefined replacement")
    unchanged(out, snaps, t)
    n = same_value(e, hook, r, t, rec)
    roots = any(type(m) is E.Power and not (type(m.exponent) is E.Rat and m.exponent.value.denominator == 1) for m in nodes(e))
    for c in table:
        if c is E.Abs and roots:
            continue  # the root of a square is an absolute value
        if any(type(m) is c for m in nodes(r)):
            raise Violation("%s gives %s, which still contains %s" % (t, show(r), c.__name__))
    rec.label("how:%d" % how, "classes:%d" % len(table))
    rec.nontrivial = n > 0 and len(nodes(e)) >= 5


def check_kinder(case, rec):
    """kinder_replace: performs tried in order, False stops the descent, verbose reports whether anything was replaced."""
    prog = case["prog"]
    out, snaps = build_pool(prog)
    e = out[-1]
    ns = nodes(e)
    a, b, stop = (snapshot(ns[case[k] % len(ns)]) for k in ("a", "b", "stop"))
    use_stop, barred = case["mode"] % 2, case["mode"] % 3 == 0
    cls = getattr(E, CLASSES[case["cls"] % len(CLASSES)])
    V = E.Symbol("v")

    def hook(n, s=None):
        s = snapshot(n)
        if barred and isinstance(n, cls):
            return ("expr", n)
        if s == a:
            return ("expr", W)
        if use_stop and s == stop:
            return ("expr", n)
        if s == b:
            return ("expr", V)
        return None

    def hit(n):
        s = snapshot(n)
        if barred and isinstance(n, cls):
            return False
        if s == a:
            return True
        if use_stop and s == stop:
            return False
        return s == b or any(hit(k) for k in kids(n))

    performs = [
        lambda n: W if snapshot(n) == a else None,
        lambda n: False if use_stop and snapshot(n) == stop else None,
        lambda n: V if snapshot(n) == b else None,
    ]
    kw = {"overarching_cond": (lambda n: not isinstance(n, cls))} if barred else {}
    t = "kinder_replace_many(%s: %s -> w, %s%s -> v%s)" % (show(e), show_snap(ns, a), "stop at %s, " % show_snap(ns, stop) if use_stop else "", show_snap(ns, b), ", not inside " + cls.__name__ if barred else "")
    rec.show = t
    try:
        r = RX.kinder_replace_many(e, performs, verbose=True, **kw)
        plain = RX.kinder_replace_many(e, performs, **kw)
    except Exception as ex:
        if any(defined(e, hook, dict(pt, v=F(1171, 1000))) for pt in WPOINTS):
            raise Violation("%s raised %s: %s" % (t, type(ex).__name__, ex))
        raise Discard("undefined replacement")
    if type(r) is not tuple or len(r) != 2:
        raise Violation("%s, verbose, returns %r" % (t, r))
    r, flag = r
    expect("the hit flag of " + t, flag, hit(e))
    if snapshot(plain) != snapshot(r):
        raise Violation("%s depends on verbose: %s and %s" % (t, show(r), show(plain)))
    unchanged(out, snaps, t)
    n = 0
    for pt in WPOINTS:
        n += agree(lambda R, env: hval(e, hook, env, R), r, dict(pt, v=F(1171, 1000)), t)
    if not flag and snapshot(r) != snaps[-1]:
        raise Violation("%s changed %s to %s without a hit" % (t, show(e), show(r)))
    rec.label("hit" if flag else "no hit")
    rec.nontrivial = n > 0 and flag and len(ns) >= 6


def show_snap(ns, s):
    return show(next(n for n in ns if snapshot(n) == s))


def check_rename(case, rec):
    """eq_with_var: equal up to the name of the variable."""
    names = NAMINGS[case["name"] % len(NAMINGS)]
    prog = rename(case["prog"], names)
    out, snaps = build_pool(prog)
    e = out[-1]
    others = [out[i % len(out)] for i in case["pick"]]
    # the same formula in other symbols
    for t in ((0, 2, 1), (0, 2, 2), (0, 1, 1)):
        others.append(build_pool(rename(case["prog"], [names[k] for k in t]))[0][-1])
    X, Y = E.Symbol(names[0]), E.Symbol(names[1])
    V = E.Symbol(["w", "a", "zz", "x_3"][case["name"] % 4])
    try:
        ren = RX.replace(e, X, V)
    except Exception:
        raise Discard("renaming failed")
    t = "eq_with_var((%s, %s), (%s, %s))" % (show(e), X.name, show(ren), V.name)
    rec.show = t
    r = call(t, UT.eq_with_var, (e, X), (ren, V))
    if r is not True and r is not False:
        raise Violation("%s is %r" % (t, r))
    if shape(e, X.name) == shape(ren, V.name) and not r:
        raise Violation("%s is False" % t)
    if call("eq_with_var of %s with itself" % show(e), UT.eq_with_var, (e, X), (e, X)) is not True:
        raise Violation("eq_with_var((%s, %s), (%s, %s)) is False" % (show(e), X.name, show(e), X.name))
    for o in others:
        for a, b in ((X, Y), (X, V), (Y, X), (X, X)):
            t = "eq_with_var((%s, %s), (%s, %s))" % (show(e), a.name, show(o), b.name)
            got = call(t, UT.eq_with_var, (e, a), (o, b))
            want = renamed_equal(snapshot(e), snapshot(o), a.name, b.name)
            expect(t, got, want)
    unchanged(out, snaps, "eq_with_var")
    rec.nontrivial = e.contains(X) and len(nodes(e)) >= 4


def shape(e, var):
    def f(s):
        if isinstance(s, tuple):
            if s[:1] == ("Symbol",) and s[1] == var:
                return ("VAR",)
            return tuple(f(k) for k in s)
        return s

    return f(snapshot(e))


def renamed_equal(s1, s2, a, b):
    """Node by node: a in the first becomes b, everything else is identical."""
    if s1[0] == "Symbol" and s1[1] == a:
        s1 = ("Symbol", b)
        return s1 == s2
    if s1[0] != s2[0] or len(s1) != len(s2):
        return False
    return all(renamed_equal(p, q, a, b) if isinstance(p, tuple) and isinstance(q, tuple) else p == q for p, q in zip(s1[1:], s2[1:]))


def with_prog(Pr, named=False, **extra):
    def strat():
        return st.fixed_dictionaries(dict(extra_strats(extra), prog=Pr.strategy()))

    def dec(raw):
        prog = Pr.decode(raw["prog"])
        prog = None if prog is None else join(prog, sum(sum(t) for t in raw["prog"][:2]))
        if named and prog is not None:
            prog = rename(prog, NAMINGS[(raw["prog"][0][3] + raw["prog"][-1][2]) % len(NAMINGS)])
        return None if prog is None else dict(raw, prog=prog)

    return strat, dec


def join(prog, seed):
    """One formula out of everything the program computes: unused results are combined by sums, products and quotients."""
    used = {j for ins in prog for j in operands(ins)}
    loose = [i for i, ins in enumerate(prog) if i not in used and (operands(ins) or i >= 3)]
    if not loose:
        return None
    prog = list(prog)
    acc = loose[0]
    for k, i in enumerate(loose[1:7]):
        prog.append([["add", "mul", "sub", "add", "div", "mul", "add"][(seed + k * 3) % 7], acc, i])
        acc = len(prog) - 1
    prog = prune(prog, acc)
    return prog if operands(prog[-1]) else None


def extra_strats(extra):
    return {k: v() for k, v in extra.items()}


I = lambda: st.integers(0, 59)
QS, QD = with_prog(P_Q, True, pick=lambda: st.lists(I(), min_size=2, max_size=5))
RS, RD = with_prog(P, old=I, new=I, kind=lambda: st.integers(0, 8))
CS, CD = with_prog(P_F, True, cls=lambda: st.lists(st.tuples(I(), I()), min_size=1, max_size=3), how=I)
KS, KD = with_prog(P, a=I, b=I, stop=I, mode=I, cls=I)
NS, ND = with_prog(P_Q, pick=lambda: st.lists(I(), min_size=1, max_size=3), name=I)


def show_case(case):
    return dict(case, prog=text(case["prog"]))


SUBS = [
    Sub("queries", check_queries, QS, QD, quick=3000, show=show_case),
    Sub("replace", check_replace, RS, RD, quick=5000, show=show_case),
    Sub("classes", check_classes, CS, CD, quick=4000, show=show_case),
    Sub("kinder", check_kinder, KS, KD, quick=3000, show=show_case),
    Sub("rename", check_rename, NS, ND, quick=2000, show=show_case),
]
