"""C01: the expression built for a formula has the formula's value."""
from ..common import *
from ..engine import Sub

import itertools

OPS_ALL = {"add": 14, "sub": 10, "mul": 14, "div": 10, "neg": 4, "powr": 14, "sqrt": 4, "absroot": 2, "abs": 3, "Sum": 4, "Prod": 4, "rat": 8, "int": 2, "frac": 2,
           "lin": 8, "sym": 3, "pi": 2, "e": 1, "pow": 3, "exp": 3, "log": 3, "logb": 1, "sin": 2, "cos": 2, "tan": 1, "sec": 1, "csc": 1, "cot": 1,
           "asin": 1, "acos": 1, "atan": 1, "pifrac": 2}
OPS_ALG = {"add": 12, "sub": 10, "mul": 16, "div": 12, "neg": 4, "powr": 18, "sqrt": 5, "absroot": 3, "abs": 3, "Sum": 4, "Prod": 5, "rat": 8, "int": 3, "frac": 2, "lin": 10, "sym": 4}
OPS_CONST = {"add": 10, "sub": 8, "mul": 14, "div": 12, "neg": 3, "powr": 18, "sqrt": 10, "rat": 20, "int": 5, "pi": 2, "e": 1, "abs": 3, "Sum": 2, "Prod": 3}
OPS_FN = {"add": 8, "sub": 6, "mul": 8, "div": 5, "neg": 6, "powr": 5, "exp": 7, "log": 7, "logb": 4, "pow": 5, "sin": 5, "cos": 5, "tan": 4, "sec": 4, "csc": 4, "cot": 4,
          "asin": 4, "acos": 4, "atan": 4, "pifrac": 8, "lin": 10, "rat": 6, "e": 3, "abs": 3, "sym": 3, "absroot": 2}

P_ALL = Profile(OPS_ALL, maxlen=14)
P_ALG = Profile(OPS_ALG, maxlen=14)
P_CONST = Profile(OPS_CONST, syms=("x",), maxlen=10)
P_FN = Profile(OPS_FN, maxlen=10, syms=("x", "y"))


def check(case, rec):
    prog = case
    facts = Facts(prog)
    cs = caches(prog, facts)
    out = build_checked(prog, cs)
    compared = 0
    undef = 0
    for i, ins in enumerate(prog):
        if not operands(ins):
            continue
        v = as_expr(out[i], E)
        for c in cs:
            if agree(c.ref(i), v, c.pt, "value of %s" % text(prog, i)):
                compared += 1
            else:
                undef += 1
    if not compared:
        raise Discard("undefined everywhere")
    root = out[-1]
    rec.label("top:" + type(root).__name__)
    fin = snapshot(as_expr(root, E))
    rec.nontrivial = compared >= 6 and len(prog) >= 5
    for ins in prog:
        if operands(ins):
            rec.label("op:" + ins[0])
    rec.show = text(prog)


def decoder(P, named=False):
    """named: the symbols of some programs get other names."""

    def dec(raw):
        prog = P.decode(raw)
        if prog is None:
            return None
        prog = prune(prog)
        if named:
            prog = rename(prog, NAMINGS[(raw[0][3] + raw[-1][2]) % len(NAMINGS)])
        return prog if operands(prog[-1]) else None

    return dec


def const_powers(tier):
    """Every small rational to every small rational power, and products of two such, plus bare forms."""
    m = 12 if tier == "quick" else 40
    bases = sorted({F(p, q) for p in range(-m, m + 1) for q in range(1, m // 2 + 1)})
    exps = sorted({F(p, q) for p in range(-5, 6) for q in (1, 2, 3, 4, 6)})
    for b in bases:
        for x in exps:
            yield [["rat", b.numerator, b.denominator], ["powr", 0, x.numerator, x.denominator]]


LEAVES = [["sym", "x"], ["sym", "y"], ["rat", 2, 1], ["rat", -1, 1], ["rat", 1, 2], ["rat", 0, 1], ["pi"], ["e"], ["rat", 1, 1]]
UN = ["neg", "abs", "sqrt", "sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "exp"]
BIN = ["add", "sub", "mul", "div", "pow", "logb"]


def small_scope(tier):
    """All formulas unary(binary(leaf, leaf)), binary(unary(leaf), leaf), unary(unary(leaf)) and, over fewer leaves, binary(binary(a,b),c)."""
    L = len(LEAVES)
    for i in range(L):
        for u in UN:
            for w in UN:
                yield prune(LEAVES + [[u, i], [w, L]])
        for j in range(L):
            for b in BIN:
                for u in UN:
                    yield prune(LEAVES + [[b, i, j], [u, L]])
                    yield prune(LEAVES + [[u, i], [b, L, j]])
                    if b in ("sub", "div", "pow", "logb"):
                        yield prune(LEAVES + [[u, i], [b, j, L]])
    K = [0, 1, 2, 3] if tier == "quick" else list(range(L))
    for i, j, k in itertools.product(K, repeat=3):
        for b1 in BIN[:5]:
            for b2 in BIN[:5]:
                yield prune(LEAVES + [[b1, i, j], [b2, L, k]])
                yield prune(LEAVES + [[b1, i, j], [b2, k, L]])


class B:
    """Builds one program."""

    def __init__(self):
        self.p = []

    def __call__(self, *ins):
        ins = list(ins)
        if ins in self.p:
            return self.p.index(ins)
        self.p.append(ins)
        return len(self.p) - 1

    def rat(self, q):
        q = F(q)
        return self("rat", q.numerator, q.denominator)

    def pw(self, i, q):
        q = F(q)
        return self("powr", i, q.numerator, q.denominator)

    def fold(self, op, xs):
        r = xs[0]
        for k in xs[1:]:
            r = self(op, r, k)
        return r

    def atom(self, k):
        x, y, z = (self("sym", s) for s in "xyz")
        return [lambda: x, lambda: y, lambda: z, lambda: self("add", x, self.rat(1)), lambda: self("exp", x), lambda: self("pi"), lambda: self.rat(2), lambda: self("abs", z), lambda: self("sin", x), lambda: self("log", y), lambda: self.rat(F(3, 5)), lambda: self("pow", y, x)][k]()

    def exponent(self, k):
        x, y = self("sym", "x"), self("sym", "y")
        return [lambda: self("add", y, self.rat(1)), lambda: y, lambda: self("mul", self.rat(2), y), lambda: self("neg", y), lambda: self("sub", y, x), lambda: self("div", self.rat(1), y), lambda: self("add", self("add", x, y), self.rat(-2)), lambda: self("pi"), lambda: self("mul", x, y)][k]()

    def done(self, i):
        return prune(self.p, i)


def shapes(tier):
    """Formulas of the shapes in which powers, products and logarithms are regrouped."""
    q = tier == "quick"
    # a product of several factors to a number, a symbol or a sum
    for size in range(2, 8):
        for off in range(12):
            ks = [(off + j * (1 if size % 2 else 5)) % 12 for j in range(size)]
            for e in range(9):
                b = B()
                yield b.done(b("pow", b.fold("mul", [b.atom(k) for k in ks]), b.exponent(e)))
            for n in (2, 3, -1, -2, -3, 5, F(1, 2), F(-1, 3), F(3, 2)):
                b = B()
                yield b.done(b.pw(b.fold("mul", [b.atom(k) for k in ks]), n))
    # sums with every pattern of signs to whole and broken powers
    for m in (2, 3):
        for signs in itertools.product((1, -1), repeat=m):
            for last in (0, 1, -1, -3) if q else (0, 1, -1, -3, F(1, 2)):
                for n in (-5, -4, -3, -2, -1, 2, 3, 4, 5, 6, F(1, 2), F(3, 2), F(-1, 2)):
                    b = B()
                    ts = [b("sym", "xyz"[j]) if g > 0 else b("neg", b("sym", "xyz"[j])) for j, g in enumerate(signs)]
                    if last:
                        ts.append(b.rat(last))
                    yield b.done(b.pw(b.fold("add", ts), n))
                    if n in (-3, 2, 3):
                        yield b.done(b("mul", b.pw(b.fold("add", ts), n), b("sym", "x")))
    # a number to a multiple of a logarithm
    for p, r in ((2, 4), (4, 2), (8, 2), (2, 8), (3, 9), (9, 3), (F(1, 2), 2), (2, F(1, 2)), (2, 3), (10, 100), (100, 10), (2, 2), (3, 3), (10, 10), (F(2, 3), F(4, 9)), (F(1, 2), F(1, 4)), ("e", 2), (2, "e"), ("e", "e"), ("pi", "pi"), ("y", "y"), ("y", 2)):
        for u in range(5):
            for k in (1, -1, 2, F(1, 2), 3, "z", "pi"):
                b = B()
                num = lambda v: b("sym", v) if v in ("y", "z") else b(v) if isinstance(v, str) else b.rat(v)
                x = b("sym", "x")
                arg = [lambda: x, lambda: b.pw(x, 2), lambda: b("mul", b.rat(3), x), lambda: b("add", x, b.rat(1)), lambda: b("exp", x)][u]()
                l = b("logb", arg, num(r))
                yield b.done(b("pow", num(p), l if k == 1 else b("mul", num(k), l)))
                if k != 1:
                    yield b.done(b("pow", num(p), b("add", num(k), l)))
    # powers of powers
    es = [2, 3, -1, -2, F(1, 2), F(3, 2), F(-1, 2), F(2, 3), 4]
    for k in range(12):
        for m in es:
            for n in es + [0, 1, 2, 4]:
                b = B()
                i = b.pw(b.atom(k), m)
                if isinstance(n, int) and n in (0, 1) :
                    yield b.done(b("pow", i, b.exponent(n)))
                    yield b.done(b("pow", b("pow", b.atom(k), b.exponent(n)), b.rat(m)))
                else:
                    yield b.done(b.pw(i, n))
    # logarithms of products and powers, in several bases
    for k in range(12):
        for j in range(12):
            for m, n in ((1, 1), (2, -1), (F(1, 2), 3), (-1, -2)) if (k + j) % 2 or not q else ((2, 3),):
                b = B()
                i = b("mul", b.pw(b.atom(k), m) if m != 1 else b.atom(k), b.pw(b.atom(j), n) if n != 1 else b.atom(j))
                yield b.done(b("log", i))
                yield b.done(b("logb", i, b.rat((2, 10, F(1, 2))[(k + j) % 3])))
    # quotients with shared factors
    for k in range(12):
        for j in range(12):
            for m, n in itertools.product((1, 2, F(1, 2), 3), (1, 3, F(3, 2))):
                if q and (k + j + m * 2 + n * 2) % 3:
                    continue
                b = B()
                i, o = b.atom(k), b.atom(j)
                pw = lambda i, e: i if e == 1 else b.pw(i, e)
                yield b.done(b("div", b("mul", pw(i, m), o), b("mul", pw(i, n), pw(o, m))))


def check_atancot(case, rec):
    """Known finding F-ATANCOT: atan(cot(u)) becomes 1/u (pinned by the repository's own tests); anything else must be right."""
    prog = case
    facts = Facts(prog)
    cs = caches(prog, facts)
    u = as_expr(build_checked(prog, cs)[-1], E)
    k = call("cot(%s)" % text(prog), E.cot, u)
    got = call("atan(cot(%s))" % text(prog), E.atan, k)
    if type(k) is E.cot and snapshot(got) == snapshot(1 / k.inner):
        rec.label("F-ATANCOT")
        return
    for c in cs:
        r = c.ref(len(prog) - 1)

        def true(R, env):
            a = r(R, env)
            if not 0 < a < 3.1:
                raise Undef("not principal")
            return R.o.pi / 2 - a

        agree(true, got, c.pt, "value of atan(cot(%s))" % text(prog))
    rec.nontrivial = True


def atancot_cases(tier):
    for i in range(len(LEAVES)):
        yield prune(LEAVES + [["neg", i]]) if i else [["sym", "x"]]
        for b in ("add", "mul", "div", "sub"):
            for j in range(len(LEAVES)):
                yield prune(LEAVES + [[b, i, j]])


def _atancot():
    u = E.Symbol("x")
    return snapshot(E.atan(E.cot(u))) == snapshot(1 / u)


KNOWN = {"F-ATANCOT": _atancot}

SUBS = [
    Sub("atan_cot", check_atancot, cases=atancot_cases, show=text),
    Sub("shapes", check, cases=shapes, show=text),
    Sub("small_scope", check, cases=small_scope, show=text),
    Sub("const_powers", check, cases=const_powers, show=text),
    Sub("algebraic", check, P_ALG.strategy, decoder(P_ALG), quick=9000),
    Sub("constants", check, P_CONST.strategy, decoder(P_CONST), quick=4000),
    Sub("functions", check, P_FN.strategy, decoder(P_FN), quick=8000),
    Sub("mixed", check, P_ALL.strategy, decoder(P_ALL, True), quick=9000),
]
