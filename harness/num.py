"""Two numeric back ends with identical real-valued conventions: machine floats and 50-digit mpmath.

Conventions (stated in DESIGN.md): real arithmetic; 0**0 = 1; a negative base only to an integer power, or, for a
rational exponent with odd denominator, the real odd root; logarithms and square roots of negative numbers are
undefined; values larger than BIG count as a pole and are unusable.
"""
import math
import os
import sys
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vendor", "mpmath-1.3.0-py3-none-any.whl"))
import mpmath  # noqa: E402
from mpmath import mp, mpf  # noqa: E402

from .core import NonFinite, Undef

mp.dps = 60
BIG = 1e13


class FloatOps:
    name = "float"
    eps = 1e-11
    pi = math.pi
    e = math.e
    zero = 0.0
    one = 1.0
    small = 1e-9

    @staticmethod
    def frac(q):
        try:
            return q.numerator / q.denominator if isinstance(q, Fraction) else float(q)
        except OverflowError:
            raise Undef("overflow")

    fl = staticmethod(float)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    tan = staticmethod(math.tan)
    asin = staticmethod(math.asin)
    acos = staticmethod(math.acos)
    atan = staticmethod(math.atan)
    logf = staticmethod(math.log)

    @staticmethod
    def powf(b, x):
        return b**x


class MpOps:
    name = "mp"
    eps = mpf(10) ** -30
    pi = +mp.pi
    e = +mp.e
    zero = mpf(0)
    one = mpf(1)
    small = mpf(10) ** -25

    @staticmethod
    def frac(q):
        return mpf(q.numerator) / mpf(q.denominator) if isinstance(q, Fraction) else mpf(q)

    @staticmethod
    def fl(v):
        return mpf(v)

    sin = staticmethod(mpmath.sin)
    cos = staticmethod(mpmath.cos)
    tan = staticmethod(mpmath.tan)
    asin = staticmethod(mpmath.asin)
    acos = staticmethod(mpmath.acos)
    atan = staticmethod(mpmath.atan)
    logf = staticmethod(mpmath.log)

    @staticmethod
    def powf(b, x):
        return mpmath.power(b, x)


class Real:
    """Real primitives over one back end, tracking the largest intermediate magnitude in `scale`."""

    def __init__(self, ops):
        self.o = ops
        self.scale = 1.0

    def chk(self, v):
        a = abs(v)
        if not a < BIG:
            if v != v:
                raise Undef("nan")
            raise Undef("too large")
        if a > self.scale:
            self.scale = a
        return v

    def inv(self, v):
        a = abs(v)
        if a < 1e-9:
            # (too large: ill conditioned, never a verdict on the result side)
            raise Undef("division by zero" if a < 1e-50 else "too large")
        return self.chk(1 / v)

    def pow(self, b, x, q=None):
        """b**x; q is the exact rational value of the exponent when it is known."""
        o = self.o
        if q is None and isinstance(x, float) and x == int(x) and abs(x) < 1000:
            q = Fraction(int(x))
        if q is not None:
            if q == 0:
                return o.one
            n, d = q.numerator, q.denominator
            if d == 1:
                if abs(n) > 4000:
                    raise Undef("huge exponent")
                try:
                    if n > 0:
                        return self.chk(b**n)
                    if abs(b) > 1e-25 and abs(b) ** -n < 1e-9:
                        raise Undef("too large")
                    return self.inv(self.chk(b ** (-n)))
                except OverflowError:
                    raise Undef("overflow")
            if b == 0:
                if n > 0:
                    return o.zero
                raise Undef("0**neg")
            if abs(b) < 1e-30:
                raise Undef("too large: fractional power of ~0")
            if b < 0:
                if d % 2 == 0:
                    raise Undef("even root of negative")
                v = self._pos(-b, o.frac(q))
                return -v if n % 2 else v
            return self._pos(b, o.frac(q))
        if b == 0:
            if x > 0:
                return o.zero
            raise Undef("0**nonpos")
        if abs(b) < 1e-30:
            raise Undef("too large: real power of ~0")
        if b < 0:
            raise Undef("negative base, real exponent")
        return self._pos(b, x)

    def _pos(self, b, x):
        if abs(x) > 4000:
            raise Undef("huge exponent")
        try:
            return self.chk(self.o.powf(b, x))
        except OverflowError:
            raise Undef("overflow")
        except ZeroDivisionError:
            raise Undef("0**neg")

    def log(self, v):
        if abs(v) < (1e-30 if self.o is MpOps else 1e-13):
            raise Undef("log of zero" if v == 0 else "too large: log of ~0")
        if v < 0:
            raise Undef("log of a negative number")
        return self.chk(self.o.logf(v))

    def fn(self, name, v):
        o = self.o
        if name == "sin":
            return o.sin(v)
        if name == "cos":
            return o.cos(v)
        if name == "tan":
            return self._tan(v)
        if name == "sec":
            return self.inv(o.cos(v))
        if name == "csc":
            return self.inv(o.sin(v))
        if name == "cot":
            s = o.sin(v)
            return self.chk(o.cos(v) * self.inv(s))
        if name == "asin" or name == "acos":
            if abs(v) > 1:
                if abs(v) > 1 + 1e-9:
                    raise Undef("outside [-1,1]")
                v = o.one if v > 0 else -o.one
            return o.asin(v) if name == "asin" else o.acos(v)
        if name == "atan":
            return o.atan(v)
        if name == "sqrt":
            return self.pow(v, None, Fraction(1, 2))
        if name == "abs":
            return abs(v)
        raise KeyError(name)

    def _tan(self, v):
        c = self.o.cos(v)
        return self.chk(self.o.sin(v) * self.inv(c))


def close(a, b, scale, eps):
    d = abs(a - b)
    return d <= eps * max(abs(a), abs(b)) or d <= eps * 1e-2 * scale


FUNCS = ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan")
