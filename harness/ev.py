"""Independent evaluation of simpy expression trees (value, and value with derivative), straight from their structure.

Nothing here calls simpy's own evaluation, differentiation or printing code.
"""
import re
from fractions import Fraction

from .core import NonFinite, Undef, Violation
from .num import FloatOps, MpOps, Real, close

import simpy.expr as E

TRIG = {E.sin: "sin", E.cos: "cos", E.tan: "tan", E.sec: "sec", E.csc: "csc", E.cot: "cot", E.asin: "asin", E.acos: "acos", E.atan: "atan"}


class Malformed(Violation):
    pass


def value(expr, env, R, depth=0):
    """Value of a simpy expression at env (name -> back-end number), over Real R."""
    if depth > 300:
        raise Malformed("expression nests deeper than 300 levels (cyclic?)")
    t = type(expr)
    o = R.o
    if t is E.Rat:
        v = expr.value
        if not isinstance(v, Fraction):
            raise Malformed("Rat whose value is %r" % (v,))
        return R.chk(o.frac(v))
    if t is E.Symbol:
        return env[expr.name]
    if t is E.Sum:
        s = o.zero
        for x in expr.terms:
            s = s + R.chk(value(x, env, R, depth + 1))
        return R.chk(s)
    if t is E.Prod:
        s = o.one
        for x in expr.terms:
            s = R.chk(s * value(x, env, R, depth + 1))
        return s
    if t is E.Power:
        b = value(expr.base, env, R, depth + 1)
        x = expr.exponent
        if type(x) is E.Rat:
            return R.pow(b, None, x.value)
        return R.pow(b, value(x, env, R, depth + 1))
    if t in TRIG:
        return R.fn(TRIG[t], value(expr.inner, env, R, depth + 1))
    if t is E.log:
        v = R.log(value(expr.inner, env, R, depth + 1))
        if type(expr.base) is E.E:
            return v
        return R.chk(v * R.inv(R.log(value(expr.base, env, R, depth + 1))))
    if t is E.Pi:
        return o.pi
    if t is E.E:
        return o.e
    if t is E.Abs:
        return abs(value(expr.inner, env, R, depth + 1))
    if t is E.Float:
        v = expr.value
        if v != v or v in (float("inf"), float("-inf")):
            raise NonFinite("Float %r" % v)
        return R.chk(o.fl(v))
    if t in (E.Infinity, E.NegInfinity, E.NaN):
        raise NonFinite(t.__name__)
    if isinstance(expr, E.Expr):
        raise Malformed("unexpected node %s" % t.__name__)
    raise Malformed("not an expression: %r (%s)" % (expr, t.__name__))


def dvalue(expr, env, var, R, depth=0):
    """(value, d/dvar) of a simpy expression; ln is read as ln|.| so that antiderivatives can be checked anywhere."""
    if depth > 300:
        raise Malformed("expression nests deeper than 300 levels (cyclic?)")
    t = type(expr)
    o = R.o
    z = o.zero
    if t is E.Rat:
        return R.chk(o.frac(expr.value)), z
    if t is E.Symbol:
        return env[expr.name], (o.one if expr.name == var else z)
    if t is E.Sum:
        s = d = z
        for x in expr.terms:
            a, b = dvalue(x, env, var, R, depth + 1)
            s = s + a
            d = R.chk(d + b)
        return R.chk(s), d
    if t is E.Prod:
        s, d = o.one, z
        for x in expr.terms:
            a, b = dvalue(x, env, var, R, depth + 1)
            s, d = R.chk(s * a), R.chk(s * b + d * a)
        return s, d
    if t is E.Power:
        b = dvalue(expr.base, env, var, R, depth + 1)
        if type(expr.exponent) is E.Rat:
            return dpow_q(R, b, expr.exponent.value)
        x = dvalue(expr.exponent, env, var, R, depth + 1)
        return dpow(R, b, x)
    if t in TRIG:
        return dfn(R, TRIG[t], dvalue(expr.inner, env, var, R, depth + 1))
    if t is E.log:
        a, d = dvalue(expr.inner, env, var, R, depth + 1)
        l = (R.log(abs(a)), R.chk(d * R.inv(a)))
        if type(expr.base) is E.E:
            return l
        b, db = dvalue(expr.base, env, var, R, depth + 1)
        m = (R.log(b), R.chk(db * R.inv(b)))
        return ddiv(R, l, m)
    if t is E.Pi:
        return o.pi, z
    if t is E.E:
        return o.e, z
    if t is E.Abs:
        a, d = dvalue(expr.inner, env, var, R, depth + 1)
        return (a, d) if a >= 0 else (-a, -d)
    if t is E.Float:
        v = expr.value
        if v != v or v in (float("inf"), float("-inf")):
            raise NonFinite("Float %r" % v)
        return R.chk(o.fl(v)), z
    if t in (E.Infinity, E.NegInfinity, E.NaN):
        raise NonFinite(t.__name__)
    raise Malformed("unexpected node %s" % t.__name__)


def ddiv(R, a, b):
    i = R.inv(b[0])
    v = R.chk(a[0] * i)
    return v, R.chk((a[1] - v * b[1]) * i)


def dpow_q(R, b, q):
    if q == 0:
        return R.o.one, R.o.zero
    v = R.pow(b[0], None, q)
    if b[1] == 0:
        return v, R.o.zero
    if q == 1:
        return v, b[1]
    return v, R.chk(R.o.frac(q) * R.pow(b[0], None, q - 1) * b[1])


def dpow(R, b, x):
    v = R.pow(b[0], x[0])
    l = R.log(b[0])
    return v, R.chk(v * (x[1] * l + x[0] * b[1] * R.inv(b[0])))


def dfn(R, name, a):
    u, d = a
    v = R.fn(name, u)
    if name == "abs":
        return v, (d if u >= 0 else -d)
    if d == 0:
        return v, R.o.zero
    o = R.o
    if name == "sin":
        k = o.cos(u)
    elif name == "cos":
        k = -o.sin(u)
    elif name == "tan":
        k = 1 + v * v
    elif name == "sec":
        k = v * R.fn("tan", u)
    elif name == "csc":
        k = -v * R.fn("cot", u)
    elif name == "cot":
        k = -1 - v * v
    elif name == "asin":
        k = R.inv(R.pow(1 - u * u, None, Fraction(1, 2)))
    elif name == "acos":
        k = -R.inv(R.pow(1 - u * u, None, Fraction(1, 2)))
    elif name == "atan":
        k = R.inv(1 + u * u)
    elif name == "sqrt":
        k = R.inv(2 * v)
    else:
        raise KeyError(name)
    return v, R.chk(R.chk(k) * d)


class Env(dict):
    """The values of the symbols at a point, converted when asked for."""

    def __init__(self, pt, o):
        self.pt, self.o = pt, o

    def __missing__(self, k):
        v = self[k] = self.o.frac(self.pt[k])
        return v

    def __contains__(self, k):
        return k in self.pt


def conv_env(pt, o):
    return Env(pt, o)


def snapshot(expr, depth=0):
    """Structural serialisation, independent of repr/equality/caches."""
    if depth > 300:
        raise Malformed("expression nests deeper than 300 levels (cyclic?)")
    t = type(expr)
    if t is E.Rat:
        return ("Rat", expr.value.numerator, expr.value.denominator)
    if t is E.Float:
        return ("Float", repr(expr.value))
    if t is E.Symbol:
        return ("Symbol", expr.name)
    if t in (E.Sum, E.Prod):
        return (t.__name__,) + tuple(snapshot(c, depth + 1) for c in expr.terms)
    if t is E.Power:
        return ("Power", snapshot(expr.base, depth + 1), snapshot(expr.exponent, depth + 1))
    if t is E.log:
        return ("log", snapshot(expr.inner, depth + 1), snapshot(expr.base, depth + 1))
    if t in TRIG or t is E.Abs:
        return (t.__name__, snapshot(expr.inner, depth + 1))
    if t in (E.Pi, E.E, E.Infinity, E.NegInfinity, E.NaN):
        return (t.__name__,)
    if isinstance(expr, E.Expr):
        return (t.__name__, repr(expr))
    raise Malformed("not an expression: %r" % (expr,))


def size(expr):
    return 1 + sum(size(c) for c in expr.children())


def agree(ref, expr, pt, what, refmp=None, eps_float=None):
    """ref(R, env) is the reference value (raises Undef outside its domain); expr must have that value at pt.

    Returns True if compared, False if the point is outside the domain.  Float first; any mismatch is re-decided with
    60-digit arithmetic, so rounding never decides.
    """
    return agree2(ref, lambda R, env: value(expr, env, R), pt, what, lambda: show(expr), eps_float)


def show(expr):
    try:
        return repr(expr)
    except BaseException as ex:
        return "<%s: repr failed %s>" % (type(expr).__name__, type(ex).__name__)


def agree2(ref, got, pt, what, shower, eps_float=None):
    R = Real(FloatOps)
    env = conv_env(pt, FloatOps)
    try:
        a = ref(R, env)
    except (Undef, OverflowError, NonFinite):
        return False
    ok = False
    R2 = Real(FloatOps)
    try:
        b = got(R2, env)
        ok = close(a, b, max(R.scale, R2.scale), eps_float or 1e-10)
    except (Undef, NonFinite, OverflowError, ValueError, ZeroDivisionError):
        pass
    if ok:
        return True
    # decide with high precision
    R = Real(MpOps)
    env = conv_env(pt, MpOps)
    try:
        a = ref(R, env)
    except (Undef, OverflowError, NonFinite):
        return False
    R2 = Real(MpOps)
    where = ", ".join("%s=%s" % (k, v) for k, v in sorted(pt.items()) if re.search(r"\b%s\b" % re.escape(k), what))
    try:
        b = got(R2, env)
    except Undef as ex:
        if "too large" in str(ex) or "overflow" in str(ex) or "huge" in str(ex):
            return False
        raise Violation("%s: at {%s} the reference value is %s but the result %s is undefined (%s)" % (what, where, sh(a), shower(), ex))
    except NonFinite as ex:
        raise Violation("%s: at {%s} the reference value is %s but the result %s is not finite (%s)" % (what, where, sh(a), shower(), ex))
    if close(a, b, max(R.scale, R2.scale), eps_float or 1e-25):
        return True
    raise Violation("%s: at {%s} the reference value is %s but the result %s has value %s" % (what, where, sh(a), shower(), sh(b)))


def sh(v):
    import mpmath

    return mpmath.nstr(v, 12) if not isinstance(v, float) else "%.12g" % v
