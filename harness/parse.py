"""Independent readers of simpy's printed text and LaTeX.  They know ordinary notation, nothing about simpy.

Trees: ("num", Fraction) ("float", f) ("sym", name) ("pi",) ("e",) ("neg", a) ("add"|"sub"|"mul"|"div"|"pow", a, b)
("fn", name, a) ("log", a, base)
"""
import re
from fractions import Fraction

from .core import NonFinite, Undef

FN = ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "sqrt", "abs")


class Unreadable(Exception):
    pass


class Text:
    """expr := term (('+'|'-') term)*; term := '-' term | unary (('*'|'/') unary)*; unary := '-' unary | atom ['^' unary]"""

    def __init__(self, s, names):
        self.s, self.names = s, names
        self.toks = self.lex(s)
        self.i = 0

    def lex(self, s):
        out, i = [], 0
        names = sorted(self.names, key=len, reverse=True)
        while i < len(s):
            if s[i] == " ":
                i += 1
                continue
            m = re.compile(r"\d+(\.\d+)?([eE][+-]?\d+)?").match(s, i)
            if m:
                t = m.group(0)
                out.append(("n", ("num", Fraction(t)) if re.match(r"\d+$", t) else ("float", float(t))))
                i = m.end()
                continue
            m = re.compile(r"[A-Za-z_][A-Za-z_0-9]*").match(s, i)
            if m:
                w = m.group(0)
                if m.end() < len(s) and s.startswith("[base=", m.end()) and w == "log":
                    out.append(("id", "log[base="))
                    i = m.end() + 6
                    continue
                out.append(("id", w))
                i = m.end()
                continue
            if s[i] in "+-*/^()|]":
                out.append((s[i], s[i]))
                i += 1
                continue
            raise Unreadable("the character %r" % s[i])
        return out

    def peek(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def take(self, k=None):
        if self.i >= len(self.toks):
            raise Unreadable("it ends too early")
        t = self.toks[self.i]
        if k is not None and t[0] != k:
            raise Unreadable("%r where %r is expected" % (t[1], k))
        self.i += 1
        return t

    def parse(self):
        a = self.expr()
        if self.i != len(self.toks):
            raise Unreadable("left over from %r" % (self.toks[self.i][1],))
        return a

    def expr(self):
        a = self.term()
        while self.peek() in ("+", "-"):
            op = self.take()[0]
            a = ("add" if op == "+" else "sub", a, self.term())
        return a

    def term(self):
        if self.peek() == "-":  # -a*b is -(a*b)
            self.take()
            return ("neg", self.term())
        a = self.unary()
        while self.peek() in ("*", "/"):
            op = self.take()[0]
            a = ("mul" if op == "*" else "div", a, self.unary())
        return a

    def unary(self):
        if self.peek() == "-":
            self.take()
            return ("neg", self.unary())
        a = self.atom()
        if self.peek() == "^":
            self.take()
            return ("pow", a, self.unary())
        return a

    def paren(self):
        self.take("(")
        a = self.expr()
        self.take(")")
        return a

    def atom(self):
        k, v = self.take()
        if k == "n":
            return v
        if k == "(":
            self.i -= 1
            return self.paren()
        if k == "|":
            a = self.expr()
            self.take("|")
            return ("fn", "abs", a)
        if k == "id":
            if v == "log[base=":
                b = self.expr()
                self.take("]")
                return ("log", self.paren(), b)
            if self.peek() == "(" and v not in self.names:
                if v in FN:
                    return ("fn", v, self.paren())
                if v == "ln":
                    return ("log", self.paren(), ("e",))
                m = re.match(r"log(\d+)$", v)
                if m:
                    return ("log", self.paren(), ("num", Fraction(m.group(1))))
            if v in self.names:
                return ("sym", v)
            if v in ("pi", "e"):
                return (v,)
            raise Unreadable("the name %r" % v)
        raise Unreadable("%r where an operand is expected" % v)


class Latex:
    """Ordinary mathematical LaTeX: superscripts apply to the preceding atom, \\frac and \\sqrt take single tokens or groups,
    function names apply to the bracketed group that follows and bind tighter than the superscript after it."""

    def __init__(self, s, names):
        self.names = sorted(names, key=len, reverse=True)
        self.toks = self.lex(s)
        self.i = 0

    def lex(self, s):
        out, i = [], 0
        while i < len(s):
            c = s[i]
            if c in " \n\t":
                i += 1
                continue
            if c == "\\":
                m = re.compile(r"\\([A-Za-z]+)").match(s, i)
                if not m:
                    raise Unreadable("the command at %r" % s[i : i + 6])
                w = m.group(1)
                i = m.end()
                if w in ("left", "right"):
                    while i < len(s) and s[i] == " ":
                        i += 1
                    if i >= len(s) or s[i] not in "()|[]":
                        raise Unreadable("\\%s without a delimiter" % w)
                    out.append(w + s[i])
                    i += 1
                    continue
                out.append("\\" + w)
                continue
            n = next((n for n in self.names if len(n) > 1 and s.startswith(n, i)), None)
            if n:
                out.append("sym:" + n)
                i += len(n)
                continue
            if c.isdigit() or c in ".+-^_(){}|[]/*":
                out.append(c)
            elif c.isalpha():
                out.append("sym:" + c if c in self.names else c)
            else:
                raise Unreadable("the character %r" % c)
            i += 1
        return out

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, t=None):
        if self.i >= len(self.toks):
            raise Unreadable("it ends too early")
        v = self.toks[self.i]
        if t is not None and v != t:
            raise Unreadable("%r where %r is expected" % (v, t))
        self.i += 1
        return v

    def parse(self):
        a = self.expr()
        if self.i != len(self.toks):
            raise Unreadable("left over from %r" % (self.toks[self.i],))
        return a

    def expr(self):
        a = self.term()
        while self.peek() in ("+", "-"):
            a = ("add" if self.take() == "+" else "sub", a, self.term())
        return a

    def starts(self):
        t = self.peek()
        return t is not None and (t.isdigit() or t.startswith("sym:") or t in ("(", "{", "left(", "left|", "left[", "e", "\\pi", "\\frac", "\\sqrt", "\\ln", "\\log") or t[1:] in FN)

    def term(self):
        a = self.unary()
        while True:
            if self.peek() in ("\\cdot", "\\times", "*"):
                self.take()
                a = ("mul", a, self.unary())
            elif self.peek() == "/":
                self.take()
                a = ("div", a, self.unary())
            elif self.starts():  # juxtaposition
                if self.peek().isdigit():
                    raise Unreadable("a number right after a factor")
                a = ("mul", a, self.unary())
            else:
                return a

    def unary(self):
        if self.peek() == "-":
            self.take()
            return ("neg", self.unary())
        a = self.atom()
        if self.peek() == "^":
            self.take()
            x = self.arg()
            if self.peek() == "^":
                raise Unreadable("a double superscript")
            return ("pow", a, x)
        return a

    def arg(self):
        """A single token or a group."""
        t = self.peek()
        if t == "{":
            return self.group()
        if t is not None and t.isdigit():
            self.take()
            return ("num", Fraction(int(t)))
        if t is not None and (t in ("e", "\\pi") or t.startswith("sym:") and len(t) == 5):
            return self.atom()
        if t is not None and t.startswith("sym:"):
            raise Unreadable("the name %r is not grouped" % t[4:])
        raise Unreadable("%r as an argument" % t)

    def group(self):
        self.take("{")
        a = self.expr()
        self.take("}")
        return a

    def bracketed(self):
        for o, c in (("(", ")"), ("left(", "right)"), ("[", "]"), ("left[", "right]")):
            if self.peek() == o:
                self.take()
                a = self.expr()
                self.take(c)
                return a
        return None

    def operand(self):
        a = self.bracketed()
        if a is None:
            t = self.peek()
            if t is None or not (t.isdigit() or t.startswith("sym:") or t in ("\\pi", "e", "|", "left|", "{", "\\frac", "\\sqrt")):
                raise Unreadable("%r as the argument of a function" % t)
            a = self.atom()
        return a

    def atom(self):
        t = self.take()
        if t.isdigit():
            v = t
            while self.peek() is not None and (self.peek().isdigit() or self.peek() == "."):
                v += self.take()
            return ("num", Fraction(v)) if "." not in v else ("float", float(v))
        if t.startswith("sym:"):
            return ("sym", t[4:])
        if t == "e":
            return ("e",)
        if t == "\\pi":
            return ("pi",)
        if t == "{":
            self.i -= 1
            return self.group()
        if t in ("(", "left(", "[", "left["):
            self.i -= 1
            return self.bracketed()
        if t in ("|", "left|"):
            a = self.expr()
            self.take("|" if t == "|" else "right|")
            return ("fn", "abs", a)
        if t == "\\frac":
            a = self.arg()
            return ("div", a, self.arg())
        if t == "\\sqrt":
            if self.peek() == "[":
                self.take()
                n = self.expr()
                self.take("]")
                return ("pow", self.arg(), ("div", ("num", Fraction(1)), n))
            return ("fn", "sqrt", self.arg())
        if t == "\\ln":
            return ("log", self.operand(), ("e",))
        if t == "\\log":
            b = ("num", Fraction(10))
            if self.peek() == "_":
                self.take()
                b = self.arg()
            return ("log", self.operand(), b)
        if t.startswith("\\arc") and "a" + t[4:] in FN:
            return ("fn", "a" + t[4:], self.operand())
        if t[1:] in FN[:6]:
            f = t[1:]
            if self.peek() == "^":
                self.take()
                x = self.arg()
                if x == ("neg", ("num", Fraction(1))):
                    if f not in ("sin", "cos", "tan"):
                        raise Unreadable("the inverse of %s" % f)
                    return ("fn", "a" + f, self.operand())
                return ("pow", ("fn", f, self.operand()), x)
            return ("fn", f, self.operand())
        raise Unreadable("%r where an operand is expected" % t)


def exact(t):
    """Exact rational value of a purely rational tree, else None."""
    k = t[0]
    if k == "num":
        return t[1]
    if k in ("pi", "e", "sym", "float", "fn", "log"):
        return None
    v = [exact(a) for a in t[1:]]
    if any(x is None for x in v):
        return None
    try:
        if k == "neg":
            return -v[0]
        if k == "add":
            return v[0] + v[1]
        if k == "sub":
            return v[0] - v[1]
        if k == "mul":
            return v[0] * v[1]
        if k == "div":
            return v[0] / v[1]
        if k == "pow" and v[1].denominator == 1 and abs(v[1]) < 2000:
            return v[0] ** int(v[1])
    except (ZeroDivisionError, OverflowError):
        pass
    return None


def tvalue(t, env, R):
    o = R.o
    k = t[0]
    if k == "num":
        return R.chk(o.frac(t[1]))
    if k == "float":
        return R.chk(o.fl(t[1]))
    if k == "sym":
        return env[t[1]]
    if k == "pi":
        return o.pi
    if k == "e":
        return o.e
    if k == "pow":
        b = tvalue(t[1], env, R)
        q = exact(t[2])
        if q is not None:
            return R.pow(b, None, q)
        return R.pow(b, tvalue(t[2], env, R))
    a = tvalue(t[2] if k == "fn" else t[1], env, R)
    if k == "neg":
        return -a
    if k == "fn":
        if t[1] == "sqrt":
            return R.pow(a, None, Fraction(1, 2))
        if t[1] == "abs":
            return abs(a)
        return R.fn(t[1], a)
    b = tvalue(t[2], env, R)
    if k == "log":
        v = R.log(a)
        return v if t[2] == ("e",) else R.chk(v * R.inv(R.log(b)))
    if k == "add":
        return R.chk(a + b)
    if k == "sub":
        return R.chk(a - b)
    if k == "mul":
        return R.chk(a * b)
    if k == "div":
        return R.chk(a * R.inv(b))
    raise KeyError(k)


def rebuild(t, E):
    """The tree entered again with the library's operators."""
    k = t[0]
    if k == "num":
        return E.Rat(t[1])
    if k == "float":
        return E.Const(t[1])
    if k == "sym":
        return E.Symbol(t[1])
    if k == "pi":
        return E.pi
    if k == "e":
        return E.e
    a = rebuild(t[2] if k == "fn" else t[1], E)
    if k == "neg":
        return -a
    if k == "fn":
        return abs(a) if t[1] == "abs" else getattr(E, t[1])(a)
    b = rebuild(t[2], E)
    if k == "log":
        return E.log(a) if t[2] == ("e",) else E.log(a, b)
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "pow": lambda: a**b}[k]()
