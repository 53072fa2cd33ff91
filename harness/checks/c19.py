"""C19: enumeration of exponent tuples and multinomial coefficients, against exact integer arithmetic."""
import math

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub

import simpy.combinatorics as CB


def fact(n):
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


def model_multinomial(ks):
    """Product of binomials, accumulated over a running total: no factorials, no division of rounded numbers."""
    r, t = 1, 0
    for k in ks:
        for j in range(1, k + 1):
            t += 1
            r = r * t // j
    return r


def model_count(i, n):
    if i == 0:
        return 1 if n == 0 else 0
    return model_multinomial([n, i - 1])


def check_enumeration(case, rec):
    i, n = case["i"], case["n"]
    got = call("generate_permutations(%d, %d)" % (i, n), CB.generate_permutations, i, n)
    rec.show = "generate_permutations(%d, %d): %d tuples" % (i, n, len(got))
    seen = set()
    for t in got:
        t = list(t)
        if len(t) != i or sum(t) != n or any(type(k) is not int or k < 0 for k in t):
            raise Violation("generate_permutations(%d, %d) yields %r" % (i, n, t))
        if tuple(t) in seen:
            raise Violation("generate_permutations(%d, %d) yields %r twice" % (i, n, t))
        seen.add(tuple(t))
    if len(seen) != model_count(i, n):
        raise Violation("generate_permutations(%d, %d) yields %d tuples instead of %d" % (i, n, len(seen), model_count(i, n)))
    total = 0
    for t in seen:
        c = call("multinomial_coefficient(%r, %d)" % (list(t), n), CB.multinomial_coefficient, list(t), n)
        if type(c) is not int or c != model_multinomial(t):
            raise Violation("multinomial_coefficient(%r, %d) = %r instead of %d" % (list(t), n, c, model_multinomial(t)))
        total += c
    if total != i**n:
        raise Violation("the coefficients of generate_permutations(%d, %d) add up to %d instead of %d" % (i, n, total, i**n))
    again = call("generate_permutations(%d, %d)" % (i, n), CB.generate_permutations, i, n)
    if sorted(map(list, again)) != sorted(map(list, got)):
        raise Violation("generate_permutations(%d, %d) gives two different answers" % (i, n))
    rec.label("tuples>=10" if len(seen) >= 10 else "tuples<10")
    rec.nontrivial = i >= 2 and n >= 2


def enumeration_cases(tier):
    cap = 4000 if tier == "quick" else 60000
    out = []
    for i in range(0, 13):
        for n in range(0, 41):
            if model_count(i, n) <= cap:
                out.append({"i": i, "n": n})
    return out


def check_coefficient(case, rec):
    ks = list(case["ks"])
    n = sum(ks)
    before = list(ks)
    seq = tuple(ks) if case["tuple"] else ks
    got = call("multinomial_coefficient(%r, %d)" % (seq, n), CB.multinomial_coefficient, seq, n)
    want = model_multinomial(ks)
    rec.show = "multinomial_coefficient(%r, %d)" % (ks, n)
    if type(got) is not int or got != want:
        raise Violation("multinomial_coefficient(%r, %d) = %s instead of %s" % (ks, n, str(got)[:80], str(want)[:80]))
    if list(seq) != before:
        raise Violation("multinomial_coefficient changed its argument %r to %r" % (before, list(seq)))
    if len(ks) >= 2 and n >= 1:
        # Pascal's rule
        s = 0
        for j, k in enumerate(ks):
            if k:
                lower = ks[:j] + [k - 1] + ks[j + 1 :]
                s += call("multinomial_coefficient(%r, %d)" % (lower, n - 1), CB.multinomial_coefficient, lower, n - 1)
        if s != got:
            raise Violation("Pascal's rule fails at multinomial_coefficient(%r, %d)" % (ks, n))
        for j in range(len(ks)):
            # one part may be left to the remaining items
            rest = ks[:j] + ks[j + 1 :]
            r = call("multinomial_coefficient(%r, %d)" % (rest, n), CB.multinomial_coefficient, rest, n)
            if type(r) is not int or r != want:
                raise Violation("multinomial_coefficient(%r, %d) = %s instead of %s" % (rest, n, str(r)[:80], str(want)[:80]))
        perm = ks[::-1]
        if call("multinomial_coefficient(%r, %d)" % (perm, n), CB.multinomial_coefficient, perm, n) != got:
            raise Violation("multinomial_coefficient(%r, %d) depends on the order" % (ks, n))
    rec.label("exceeds 2^53" if want > 1 << 53 else "small")
    rec.nontrivial = len(ks) >= 2 and sum(1 for k in ks if k) >= 2


def strat_coefficient():
    k = st.one_of(st.integers(0, 6), st.integers(0, 40), st.integers(0, 300))
    return st.fixed_dictionaries({"ks": st.lists(k, min_size=1, max_size=8), "tuple": st.booleans()})


def check_expand(case, rec):
    """The enumeration is what powers of sums are expanded with."""
    i, n = case["i"], case["n"]
    vs = [E.Symbol("v%d" % k) for k in range(i)]
    p = call("building", lambda: E.Power(E.Sum(list(vs)), n))
    e = call("(v0+...)^%d expand" % n, lambda: p.expand())
    terms = e.terms if isinstance(e, E.Sum) else [e]
    got = {}
    for t in terms:
        c, d = 1, {}
        for f in t.terms if isinstance(t, E.Prod) else [t]:
            if isinstance(f, E.Rat):
                c = f.value
                continue
            b, x = (f.base, f.exponent) if isinstance(f, E.Power) else (f, E.Rat(1))
            if not (isinstance(b, E.Symbol) and isinstance(x, E.Rat)):
                raise Violation("expanding (v0+..+v%d)^%d gives the term %r" % (i - 1, n, t))
            d[b.name] = x.value
        key = tuple(sorted(d.items()))
        if key in got:
            raise Violation("expanding (v0+..+v%d)^%d gives the monomial of %r twice" % (i - 1, n, t))
        got[key] = c
    if len(got) != model_count(i, n):
        raise Violation("expanding (v0+..+v%d)^%d gives %d monomials instead of %d" % (i - 1, n, len(got), model_count(i, n)))
    for key, c in got.items():
        ks = [int(x) for _, x in key]
        if sum(ks) != n or c != model_multinomial(ks):
            raise Violation("expanding (v0+..+v%d)^%d gives coefficient %s for %s" % (i - 1, n, c, dict(key)))
    rec.show = "(v0+...+v%d)^%d" % (i - 1, n)
    rec.nontrivial = True


def expand_cases(tier):
    cap = 250 if tier == "quick" else 900
    return [{"i": i, "n": n} for i in range(2, 9) for n in range(2, 30) if model_count(i, n) <= cap]


def show_raw(case):
    return repr(case)


SUBS = [
    Sub("enumeration", check_enumeration, None, None, cases=enumeration_cases, show=show_raw),
    Sub("coefficient", check_coefficient, strat_coefficient, None, quick=6000, show=show_raw),
    Sub("expand", check_expand, None, None, cases=expand_cases, show=show_raw),
]
