"""Straight-line formula programs: the generated inputs of most checks.

A program is a list of instructions; each refers to earlier ones by index, so subterms repeat (which is what makes like
terms, cancellation and shared objects happen).  It has three independent readings:
  * build   : the simpy expression obtained by evaluating the formula with simpy's public operators and functions
  * ref     : its real value at a point (reference arithmetic, this file + num.py; raises Undef outside the domain)
  * dref    : value and derivative (dual numbers)
"""
from fractions import Fraction

from .core import Discard, Undef, Violation, call
from .ev import ddiv, dfn, dpow, dpow_q

OPS1 = ("neg", "sqrt", "abs", "sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "exp")
INV = ("asin", "acos", "atan")
FWD = ("sin", "cos", "tan", "sec", "csc", "cot")

RATS = [(1, 1), (2, 1), (3, 1), (1, 2), (-1, 1), (2, 3), (-2, 1), (4, 1), (5, 1), (3, 2), (-1, 2), (1, 3), (0, 1), (6, 1), (-3, 1), (7, 1), (8, 1),
        (9, 1), (3, 4), (-2, 3), (12, 1), (1, 4), (10, 1), (4, 9), (-5, 1), (27, 8), (1, 6), (-4, 1), (5, 6), (16, 1), (-7, 4), (25, 1)]
EXPS = [(2, 1), (-1, 1), (1, 2), (3, 1), (-2, 1), (1, 1), (-1, 2), (3, 2), (0, 1), (4, 1), (1, 3), (2, 3), (-3, 1), (-3, 2), (1, 4), (5, 2), (5, 1), (-1, 3), (6, 1), (-2, 3)]
INTEXPS = [(2, 1), (3, 1), (1, 1), (4, 1), (0, 1), (5, 1), (-1, 1), (-2, 1), (6, 1), (-3, 1)]
POSEXPS = [(2, 1), (3, 1), (1, 1), (4, 1), (5, 1), (6, 1), (7, 1), (2, 1), (3, 1), (2, 1)]


class Profile:
    """ops: {name: weight}; atoms: list of instructions every program starts from."""

    def __init__(self, ops, syms=("x", "y", "z"), rats=RATS, exps=EXPS, maxsize=40, maxlen=16, minlen=3):
        self.table = [n for n, w in ops.items() for _ in range(w)]
        self.syms = list(syms)
        self.rats = rats
        self.exps = exps
        self.maxsize = maxsize
        self.maxlen = maxlen
        self.minlen = minlen

    def strategy(self):
        from hypothesis import strategies as st

        b = st.integers(0, 255)
        return st.lists(st.tuples(b, b, b, b), min_size=self.minlen, max_size=self.maxlen)

    def decode(self, raw):
        prog = [["sym", s] for s in self.syms]
        sizes = [1] * len(prog)
        n0 = len(prog)

        def ref(v):
            n = len(prog)
            if n > n0 and v < 72:
                return n - 1
            return (n - 1) - (v % n)

        for a, b, c, d in raw:
            op = self.table[a % len(self.table)]
            if op == "rat":
                ins = ["rat"] + list(self.rats[b % len(self.rats)])
            elif op == "int":  # a bare Python int
                ins = ["int", self.rats[b % len(self.rats)][0]]
            elif op == "frac":  # a bare fractions.Fraction
                ins = ["frac"] + list(self.rats[b % len(self.rats)])
            elif op == "pi" or op == "e":
                ins = [op]
            elif op == "pifrac":
                ins = ["pifrac", (b % 97) - 48, [1, 2, 3, 4, 6, 12, 5][c % 7]]
            elif op == "sym":
                ins = ["sym", self.syms[b % len(self.syms)]]
            elif op == "lin":  # k*s: frequent like terms
                ins = ["lin", self.rats[b % len(self.rats)], self.syms[c % len(self.syms)]]
            elif op == "powr":
                i = ref(b)
                p, q = self.exps[c % len(self.exps)]
                ins = ["powr", i, p, q]
                if abs(p) > 1 and sizes[i] * abs(p) > self.maxsize * 2:
                    ins = ["powr", i, 2, 1]
            elif op in ("add", "sub", "mul", "div", "pow", "logb"):
                ins = [op, ref(b), ref(c)]
            elif op in ("Sum", "Prod"):
                k = 2 + d % 4
                ins = [op, [ref((b + 37 * j + c * (j + 1)) % 256) for j in range(k)]]
            elif op == "absroot":
                ins = ["absroot", ref(b), [2, 4, 6][c % 3]]
            else:
                ins = [op, ref(b)]
            s = 1 + sum(sizes[j] for j in operands(ins))
            if s > self.maxsize:
                continue
            prog.append(ins)
            sizes.append(s)
        if len(prog) == n0:
            return None
        return prog


# triples of symbol names that stand for ("x", "y", "z"): shared prefixes, other orders, other lengths
NAMINGS = [("x", "y", "z"), ("x", "y", "z"), ("t1", "t", "s"), ("alpha1", "alpha2", "alpha"), ("u_Ab12", "u_Ab13", "u_A"), ("x_2", "x_10", "x_1"), ("Z", "Y", "X")]


def rename(prog, names):
    m = dict(zip(("x", "y", "z"), names))
    out = []
    for ins in prog:
        if ins[0] == "sym":
            out.append(["sym", m.get(ins[1], ins[1])])
        elif ins[0] == "lin":
            out.append(["lin", ins[1], m.get(ins[2], ins[2])])
        else:
            out.append(ins)
    return out


def naming_of(prog):
    used = {ins[1] for ins in prog if ins[0] == "sym"} | {ins[2] for ins in prog if ins[0] == "lin"}
    return next((t for t in NAMINGS if used <= set(t)), NAMINGS[0])


def operands(ins):
    op = ins[0]
    if op in ("sym", "rat", "int", "frac", "pi", "e", "pifrac", "lin", "float"):
        return []
    if op in ("Sum", "Prod"):
        return ins[1]
    if op in ("powr", "absroot"):
        return [ins[1]]
    return ins[1:]


def prune(prog, root=None):
    """Keep only what the root uses, renumbered."""
    if root is None:
        root = len(prog) - 1
    need = set()
    st = [root]
    while st:
        i = st.pop()
        if i not in need:
            need.add(i)
            st.extend(operands(prog[i]))
    order = sorted(need)
    m = {o: n for n, o in enumerate(order)}
    out = []
    for o in order:
        ins = prog[o]
        op = ins[0]
        if op in ("Sum", "Prod"):
            out.append([op, [m[j] for j in ins[1]]])
        elif op in ("powr", "absroot"):
            out.append([op, m[ins[1]]] + list(ins[2:]))
        elif not operands(ins):
            out.append(list(ins))
        else:
            out.append([op] + [m[j] for j in ins[1:]])
    return out


def text(prog, i=None):
    """The formula as written, fully parenthesised."""
    if i is None:
        i = len(prog) - 1
    ins = prog[i]
    op = ins[0]
    t = lambda j: text(prog, j)
    if op == "sym":
        return ins[1]
    if op == "rat":
        return "Rat(%d)" % ins[1] if ins[2] == 1 else "Rat(%d,%d)" % (ins[1], ins[2])
    if op == "int":
        return "%d" % ins[1]
    if op == "frac":
        return "Fraction(%d,%d)" % (ins[1], ins[2])
    if op == "float":
        return repr(ins[1])
    if op in ("pi", "e"):
        return op
    if op == "pifrac":
        return "(Fraction(%d,%d)*pi)" % (ins[1], ins[2])
    if op == "lin":
        return "(Fraction(%d,%d)*%s)" % (ins[1][0], ins[1][1], ins[2])
    if op == "powr":
        return "(%s)**Rat(%d,%d)" % (t(ins[1]), ins[2], ins[3])
    if op == "absroot":
        return "((%s)**%d)**Rat(1,%d)" % (t(ins[1]), ins[2], ins[2])
    sym = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**"}
    if op in sym:
        return "(%s %s %s)" % (t(ins[1]), sym[op], t(ins[2]))
    if op in ("Sum", "Prod"):
        return "%s([%s])" % (op, ", ".join(t(j) for j in ins[1]))
    if op == "neg":
        return "-(%s)" % t(ins[1])
    if op == "exp":
        return "e**(%s)" % t(ins[1])
    return "%s(%s)" % (op, ", ".join(t(j) for j in ins[1:]))


class Facts:
    """Static facts about each instruction: exact rational value (if a rational constant), dependence, functions used."""

    def __init__(self, prog):
        self.prog = prog
        self.exact = []
        self.syms = []
        self.trig = []  # indexes of forward trig argument nodes reachable
        self.logs = []  # indexes of logarithm arguments reachable
        self.hasneg = []  # a negative numeric factor / a sum somewhere in the multiplicative structure
        self.hassum = []
        for i, ins in enumerate(prog):
            self.exact.append(self._exact(ins))
            ss = set()
            tr = set()
            for j in operands(ins):
                ss |= self.syms[j]
                tr |= self.trig[j]
            if ins[0] == "sym":
                ss = {ins[1]}
            if ins[0] == "lin":
                ss = {ins[2]} if ins[1][0] != 0 else set()
            if ins[0] in FWD:
                tr = tr | {ins[1]}
            self.syms.append(ss)
            self.trig.append(tr)
            lg = set()
            for j in operands(ins):
                lg |= self.logs[j]
            if ins[0] in ("log", "logb"):
                lg = lg | {ins[1]}
            self.logs.append(lg)
            op = ins[0]
            e = self.exact[i]
            if e is not None:
                self.hasneg.append(e < 0)
                self.hassum.append(False)
            else:
                mult = operands(ins) if op in ("mul", "div", "Prod", "neg", "powr", "pow", "abs", "absroot", "sqrt", "add", "sub", "Sum") else []
                neg = op in ("neg", "sub") or op in ("lin", "pifrac") and (ins[1][0] if op == "lin" else ins[1]) < 0
                self.hasneg.append(neg and op != "sub" or any(self.hasneg[k] for k in mult))
                self.hassum.append(op in ("add", "sub", "Sum") or any(self.hassum[k] for k in mult))

    def _exact(self, ins):
        op = ins[0]
        e = self.exact
        try:
            if op in ("rat", "frac"):
                return Fraction(ins[1], ins[2])
            if op == "int":
                return Fraction(ins[1])
            if op == "lin" and ins[1][0] == 0:
                return Fraction(0)
            if op in ("add", "sub", "mul", "div") and e[ins[1]] is not None and e[ins[2]] is not None:
                a, b = e[ins[1]], e[ins[2]]
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[op]()
            if op == "neg" and e[ins[1]] is not None:
                return -e[ins[1]]
            if op == "abs" and e[ins[1]] is not None:
                return abs(e[ins[1]])
            if op == "powr" and e[ins[1]] is not None and ins[3] == 1:
                return e[ins[1]] ** ins[2]
            if op in ("Sum", "Prod") and all(e[j] is not None for j in ins[1]):
                r = Fraction(0 if op == "Sum" else 1)
                for j in ins[1]:
                    r = r + e[j] if op == "Sum" else r * e[j]
                return r
        except ZeroDivisionError:
            return None
        return None


def ref_all(prog, facts, R, env, strict_log=False):
    """Reference value of every instruction; None where the point is outside its (conservative) domain."""
    vals = []
    pos = {}

    def posbase(j):
        """Every multiplicative factor (of every addend) is positive, so fractional powers and logs distribute over it."""
        if j in pos:
            return pos[j]
        v = vals[j]
        if v is None or not v > 0:
            r = False
        elif facts.exact[j] is not None:
            r = True
        else:
            r = factors_ok(j) and not (facts.hasneg[j] and facts.hassum[j])
        pos[j] = r
        return r

    fok = {}

    def factors_ok(j):
        """No non-numeric factor of j, nor of any addend of j, is negative; numeric factors may be."""
        if j in fok:
            return fok[j]
        op = prog[j][0]
        if facts.exact[j] is not None:
            r = True
        else:
            v = vals[j]
            ins = prog[j]
            if v is None:
                r = False
            elif op in ("add", "sub", "Sum"):
                r = v > 0 and all(factors_ok(k) for k in operands(ins))
            elif op in ("mul", "div", "pow", "Prod", "neg", "powr", "abs", "absroot"):
                r = all(factors_ok(k) for k in operands(ins))
            elif op == "lin":
                r = v * ins[1][0] > 0 or ins[1][0] == 0
            elif op == "pifrac":
                r = True
            elif op in FWD:  # odd functions pull a sign out of their argument
                r = v > 0 and vals[ins[1]] > 0 and factors_ok(ins[1])
            else:
                r = v > 0
        if r and op in ("exp", "pow"):  # e**log(u) = u shows u again
            r = all(posbase(k) for k in facts.logs[j])
        fok[j] = r
        return r

    small = {}

    def first_quadrant(j):
        v = vals[j]
        return v is not None and 0 < v < 1.5707 and factors_ok(j)

    for i, ins in enumerate(prog):
        op = ins[0]
        try:
            v = _step(op, ins, vals, facts, R, env, posbase, first_quadrant, strict_log)
        except (Undef, OverflowError):
            v = None
        vals.append(v)
    return vals


def _step(op, ins, vals, facts, R, env, posbase, first_quadrant, strict_log):
    o = R.o
    if op == "sym":
        return env[ins[1]]
    if op in ("rat", "frac"):
        return R.chk(o.frac(Fraction(ins[1], ins[2])))
    if op == "int":
        return R.chk(o.frac(Fraction(ins[1])))
    if op == "float":
        return o.fl(ins[1])
    if op == "pi":
        return o.pi
    if op == "e":
        return o.e
    if op == "pifrac":
        return o.frac(Fraction(ins[1], ins[2])) * o.pi
    if op == "lin":
        return o.frac(Fraction(*ins[1])) * env[ins[2]]

    def logs_ok(j):
        """b^(k log u) may become u^k, a power of a product."""
        return facts.prog[j][0] in ("log", "logb") or all(posbase(k) for k in facts.logs[j])

    a = [vals[j] for j in operands(ins)]
    if any(v is None for v in a):
        return None
    if op == "add":
        return R.chk(a[0] + a[1])
    if op == "sub":
        return R.chk(a[0] - a[1])
    if op == "mul":
        return R.chk(a[0] * a[1])
    if op == "div":
        return R.chk(a[0] * R.inv(a[1]))
    if op == "neg":
        return -a[0]
    if op == "Sum":
        s = o.zero
        for v in a:
            s = R.chk(s + v)
        return s
    if op == "Prod":
        s = o.one
        for v in a:
            s = R.chk(s * v)
        return s
    if op == "absroot":
        # sqrt(b^2) = |b|, the documented even-root rule, for a base that is one unit (a symbol or a sum)
        if facts.prog[ins[1]][0] not in ("sym", "add", "sub") or facts.exact[ins[1]] is not None:
            if not posbase(ins[1]):
                return None
        elif facts.prog[ins[1]][0] != "sym" and not posbase(ins[1]) and not _plain_sum(facts, ins[1]):
            return None
        R.chk(abs(a[0]) ** ins[2])
        return abs(a[0])
    if op == "powr" or op == "pow" or op == "sqrt":
        if op == "powr":
            q = Fraction(ins[2], ins[3])
        elif op == "sqrt":
            q = Fraction(1, 2)
        else:
            q = facts.exact[ins[2]]
        if q is not None and q.denominator == 1:
            return R.pow(a[0], None, q)
        e0 = facts.exact[ins[1]]
        if q is not None:
            if e0 is not None and e0 <= 0:
                if e0 == 0 and q > 0:
                    return o.zero
                if q.denominator % 2 == 0 or e0 == 0 or q.numerator % 2 == 0:
                    return None  # (an even numerator: see known finding F-NEGROOT)
                return R.pow(a[0], None, q)
            if not posbase(ins[1]):
                return None
            return R.pow(a[0], None, q)
        if not posbase(ins[1]) or not logs_ok(ins[2]):
            return None
        return R.pow(a[0], a[1])
    if op == "exp":
        if not logs_ok(ins[1]):
            return None
        return R.pow(o.e, a[0])
    if op == "log" or op == "logb":
        if strict_log and not posbase(ins[1]):
            return None
        v = R.log(a[0])
        if op == "logb":
            if not posbase(ins[2]):
                return None
            if facts.exact[ins[2]] == 1:
                return None
            lb = R.log(a[1])
            return R.chk(v * R.inv(lb))
        return v
    if op in INV:
        for j in facts.trig[ins[1]]:
            if not first_quadrant(j):
                return None
        return R.fn(op, a[0])
    return R.fn(op, a[0])


def _plain_sum(facts, j):
    """A sum of (integer powers of) distinct symbols and numbers: cannot collapse into a product."""
    ss = []
    st = [j]
    while st:
        k = st.pop()
        ins = facts.prog[k]
        if ins[0] in ("add", "sub"):
            st += ins[1:]
        elif ins[0] == "sym":
            ss.append(ins[1])
        elif facts.exact[k] is not None:
            ss.append(None)
        else:
            return False
    return len(ss) == len(set(ss))


def dref_all(prog, facts, R, env, var, vals):
    """Derivative of every instruction w.r.t. var (None where undefined)."""
    o = R.o
    out = []
    for i, ins in enumerate(prog):
        v = vals[i]
        if v is None:
            out.append(None)
            continue
        op = ins[0]
        d = None
        try:
            P = [(vals[j], out[j]) for j in operands(ins)]
            if any(p[1] is None for p in P):
                d = None
            elif not P:
                d = o.zero
                if op == "sym" and ins[1] == var:
                    d = o.one
                if op == "lin" and ins[2] == var:
                    d = o.frac(Fraction(*ins[1]))
            elif op == "add":
                d = P[0][1] + P[1][1]
            elif op == "sub":
                d = P[0][1] - P[1][1]
            elif op == "neg":
                d = -P[0][1]
            elif op == "mul":
                d = P[0][0] * P[1][1] + P[0][1] * P[1][0]
            elif op == "div":
                d = ddiv(R, P[0], P[1])[1]
            elif op == "Sum":
                d = sum((p[1] for p in P), o.zero)
            elif op == "Prod":
                d = o.zero
                for k in range(len(P)):
                    t = P[k][1]
                    for m in range(len(P)):
                        if m != k:
                            t = t * P[m][0]
                    d = d + t
            elif op == "absroot" or op == "abs":
                if abs(P[0][0]) < 1e-6:
                    d = None
                else:
                    d = P[0][1] if P[0][0] > 0 else -P[0][1]
            elif op in ("powr", "sqrt", "pow"):
                q = Fraction(ins[2], ins[3]) if op == "powr" else Fraction(1, 2) if op == "sqrt" else facts.exact[ins[2]]
                d = dpow_q(R, P[0], q)[1] if q is not None else dpow(R, P[0], P[1])[1]
            elif op == "exp":
                d = v * P[0][1]
            elif op == "log":
                d = P[0][1] * R.inv(P[0][0])
            elif op == "logb":
                la = (R.log(P[0][0]), P[0][1] * R.inv(P[0][0]))
                lb = (R.log(P[1][0]), P[1][1] * R.inv(P[1][0]))
                d = ddiv(R, la, lb)[1]
            else:
                d = dfn(R, op, P[0])[1]
            if d is not None:
                R.chk(d)
        except (Undef, OverflowError, ZeroDivisionError):
            d = None
        out.append(d)
    return out


# ------------------------------------------------------------------ building


class BuildError(Exception):
    def __init__(self, i, ex):
        self.i = i
        self.ex = ex


def build_all(prog, E, on_node=None):
    """Evaluate the formula with simpy's operators.  Returns the list of results; raises BuildError(i, exception)."""
    out = []
    for i, ins in enumerate(prog):
        try:
            v = build_step(ins, out, E)
        except Discard:
            raise
        except Exception as ex:
            raise BuildError(i, ex)
        out.append(v)
        if on_node:
            on_node(i, v)
    return out


def as_expr(v, E):
    return v if isinstance(v, E.Expr) else E.Const(v)


def build_step(ins, out, E):
    op = ins[0]
    if op == "sym":
        return E.Symbol(ins[1])
    if op == "rat":
        return E.Rat(ins[1], ins[2])
    if op == "int":
        return ins[1]
    if op == "frac":
        return Fraction(ins[1], ins[2])
    if op == "float":
        return ins[1]
    if op == "pi":
        return E.pi
    if op == "e":
        return E.e
    if op == "pifrac":
        return Fraction(ins[1], ins[2]) * E.pi
    if op == "lin":
        return Fraction(*ins[1]) * E.Symbol(ins[2])
    if op in ("Sum", "Prod"):
        return getattr(E, op)([out[j] for j in ins[1]])
    if op in ("powr", "absroot"):
        b = as_expr(out[ins[1]], E)
        if op == "powr":
            return b ** (ins[2] if ins[3] == 1 else Fraction(ins[2], ins[3]))
        return (b ** ins[2]) ** Fraction(1, ins[2])
    a = [out[j] for j in ins[1:]]
    if op in ("add", "sub", "mul", "div", "pow"):
        if not isinstance(a[0], E.Expr) and not isinstance(a[1], E.Expr):
            a[0] = as_expr(a[0], E)
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        return a[0] ** a[1]
    if op == "neg":
        return -a[0] if isinstance(a[0], E.Expr) else -as_expr(a[0], E)
    if op == "exp":
        return E.e ** a[0]
    if op == "abs":
        return abs(as_expr(a[0], E))
    if op == "log":
        return E.log(a[0])
    if op == "logb":
        return E.log(a[0], a[1])
    if op == "sqrt":
        return E.sqrt(a[0])
    if op == "atan" and isinstance(a[0], E.Expr) and type(a[0]).__name__ == "cot":
        raise Discard("F-ATANCOT")
    return getattr(E, op)(a[0])
