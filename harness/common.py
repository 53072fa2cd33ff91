"""Helpers shared by the checks."""
from fractions import Fraction as F

import simpy.expr as E

from .core import CaseTimeout, Discard, Undef, Violation, call
from .ev import agree, agree2, show, snapshot, value
from .num import FloatOps, MpOps, Real
from .prog import NAMINGS, BuildError, Facts, Profile, as_expr, build_all, build_step, dref_all, naming_of, operands, prune, ref_all, rename, text

POINTS = [
    {"x": F(317, 1000), "y": F(731, 1000), "z": F(523, 1000)},
    {"x": F(1371, 1000), "y": F(2713, 1000), "z": F(409, 1000)},
    {"x": F(2237, 1000), "y": F(1613, 1000), "z": F(3079, 1000)},
    {"x": F(-829, 1000), "y": F(1291, 1000), "z": F(467, 1000)},
    {"x": F(593, 1000), "y": F(-1171, 1000), "z": F(-2039, 1000)},
    {"x": F(-1433, 1000), "y": F(-613, 1000), "z": F(-947, 1000)},
]
for _p in POINTS:
    for _t in NAMINGS:
        for _s, _n in zip(("x", "y", "z"), _t):
            _p[_n] = _p[_s]


def _guard_huge_powers(bits=4_000_000):
    """A power with millions of digits cannot be interrupted while it is computed: such a case is given up beforehand."""
    plain = getattr(E, "_exact_int_power", None)
    if plain is None:
        return

    def guarded(n, x):
        if abs(n) > 1 and n.bit_length() * abs(x.numerator) > bits * x.denominator:
            raise CaseTimeout()
        return plain(n, x)

    E._exact_int_power = guarded


_guard_huge_powers()


class RefCache:
    """Reference values of all nodes of a program at one point, per back end."""

    def __init__(self, prog, facts, pt, strict_log=False):
        self.prog, self.facts, self.pt, self.strict = prog, facts, pt, strict_log
        self.c = {}

    def get(self, R, env):
        k = R.o.name
        if k not in self.c:
            vals = ref_all(self.prog, self.facts, R, env, self.strict)
            self.c[k] = (vals, R.scale)
        vals, sc = self.c[k]
        R.scale = max(R.scale, sc)
        return vals

    def ref(self, i):
        def f(R, env):
            v = self.get(R, env)[i]
            if v is None:
                raise Undef("outside the domain")
            return v

        return f

    def defined(self, i):
        from .ev import conv_env

        return self.get(Real(FloatOps), conv_env(self.pt, FloatOps))[i] is not None


def caches(prog, facts, points=POINTS, strict_log=False):
    return [RefCache(prog, facts, p, strict_log) for p in points]


def defined_somewhere(cs, i):
    return any(c.defined(i) for c in cs)


def build_checked(prog, cs, what="construction"):
    """Build; an exception is a violation only if the formula has a value at some sample point."""
    try:
        return build_all(prog, E)
    except BuildError as be:
        if defined_somewhere(cs, be.i):
            raise Violation("%s of %s raised %s: %s" % (what, text(prog, be.i), type(be.ex).__name__, str(be.ex)[:200]))
        raise Discard("undefined formula")


def tame(prog, limit=60):
    """No power whose exponent is a large (or unknown) constant: such formulas only exercise big-integer arithmetic."""
    facts = Facts(prog)
    from .ev import conv_env

    vals = ref_all(prog, facts, Real(FloatOps), conv_env({s: F(13, 10) for ins in prog for s in (ins[1:2] if ins[0] == "sym" else ins[2:3] if ins[0] == "lin" else ())}, FloatOps))
    for ins in prog:
        if ins[0] == "pow" and not facts.syms[ins[2]]:
            v = vals[ins[2]]
            if v is None or abs(v) > limit:
                return False
        if ins[0] == "exp" and not facts.syms[ins[1]]:
            v = vals[ins[1]]
            if v is None or abs(v) > 4 * limit:
                return False
    return True
