From 835ca887ec28f4c2b6a3f7e745ecd767d316576a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 01/50] fix: inverse trig functions of 0 raised ValueError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..b009944 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1976,7 +1976,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -1989,7 +1989,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2002,7 +2002,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From efb249cd250d7c092029ab9f2e730d91d93a444a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 02/50] fix: printing a logarithm to an integer base raised
 TypeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b009944..0bf93e3 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1556,7 +1556,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
-- 
2.43.0


From 167f18505e99fba865adc0eb6122201c0151635d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/50] fix: log(base**log(y)) overwrote the existing log(y)
 and became self-referential

---
 src/simpy/expr.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0bf93e3..c0807e6 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1588,7 +1588,7 @@ class log(Expr):
     @cast
     def __new__(cls, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
         if skip_checks:
-            super().__new__(cls)
+            return super().__new__(cls)
 
         if inner == 1:
             return Rat(0)
@@ -1602,11 +1602,16 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
+        # inner and base are already set in __new__, which may have returned an existing log: leave that one as it is.
+        if skip_checks:
+            self.inner = inner
+            self.base = base
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-- 
2.43.0


From 4fe034e655d8e78672aae1c00d16e195f9ed5f12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 04/50] fix: log to another base lost its base when
 differentiated, expanded or evaluated

---
 src/simpy/expr.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c0807e6..754ee9e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1570,8 +1570,9 @@ class log(Expr):
         return log(inner, base)
 
     def _expand(self) -> Expr:
-        assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        assert self.expandable(), f"Cannot expand {self}"
+        inner, base = [c.expand() if c.expandable() else c for c in self.children()]
+        return self.__class__(inner, base)
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
@@ -1615,12 +1616,16 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
+        if self.base != e:
+            return (log(self.inner) / log(self.base)).diff(var)
         return self.inner.diff(var) / self.inner
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
-- 
2.43.0


From e02140013c3af7f00bf0c54decf4ed0e5863e668 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 05/50] fix: Abs(-u) and Abs(c*u) were not brought to the form
 of Abs(u)

---
 src/simpy/expr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 754ee9e..2cb28e0 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2038,13 +2038,19 @@ class Abs(SingleFunc):
             return Abs(-inner)
         if isinstance(inner, Prod):
             for t in inner.terms:
-                if isinstance(inner, Num):
+                if isinstance(t, Num):
                     return Abs(inner / t) * Abs(t)
 
         if _is_strictly_positive(inner):
             return inner
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        return instance
+
+    def __init__(self, inner: Expr):
+        # inner is already set in __new__ (and may differ from the argument)
+        super().__post_init__()
 
     def diff(self, var) -> Expr:
         warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-- 
2.43.0


From d865487a8f6e15764f7accadcc17666e648ad1a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 06/50] fix: Rat(0)**-1 and roots of huge integers raised
 ZeroDivisionError/OverflowError

---
 src/simpy/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 2cb28e0..5dea992 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -574,10 +574,8 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
-            value = self.value**other.value
-            if isinstance(value, Fraction):
-                return Rat(value)
+        if isinstance(other, Rat) and other.is_int and (self.value != 0 or other.value >= 0):
+            return Rat(self.value**other.value)
         return super().__pow__(other)
 
     @cast
-- 
2.43.0


From 30fec437e268fede9a753af3bedeca27f7ac3ce7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 07/50] fix: rational roots were taken through floats, so large
 perfect powers came out inexact

---
 src/simpy/expr.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 5dea992..5f34f69 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -727,6 +727,23 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _exact_int_power(n: int, x: Fraction) -> Optional[int]:
+    """n**x for x > 0 if that is an integer, otherwise None. Never goes through floats."""
+    if x.denominator == 1:
+        return n**x.numerator
+    if n < 0:
+        return None
+    # Newton's method for the integer root, starting from above.
+    k = x.denominator
+    root = 1 << -(-n.bit_length() // k)
+    while True:
+        new = ((k - 1) * root + n // root ** (k - 1)) // k
+        if new >= root:
+            break
+        root = new
+    return root**x.numerator if root**k == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -741,14 +758,13 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
-        if isint(num) and isint(den):
+        num = _exact_int_power(b.value.numerator, abs(x.value))
+        den = _exact_int_power(b.value.denominator, abs(x.value))
+        if num is not None and den is not None:
             if x > 0:
-                return Rat(int(num), int(den))
+                return Rat(num, den)
             else:
-                return Rat(int(den), int(num))
+                return Rat(den, num)
 
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
@@ -763,9 +779,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             return -1 * Power(-b, x)
 
         ans = None
-        if isint(num) and num != 1:
+        if num is not None and num != 1:
             ans = Prod([Rat(num), Power(b.denominator, -x, skip_checks=True)], skip_checks=True)
-        elif isint(den) and den != 1:
+        elif den is not None and den != 1:
             ans = Prod([Rat(1, den), Power(b.numerator, x, skip_checks=True)], skip_checks=True)
         if ans:
             if x > 0:
-- 
2.43.0


From 6bcc3639661b7fe4cd953ed7ae2a4a2791c05e35 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 08/50] fix: collecting like terms could leave a sum nested in
 a sum

---
 src/simpy/expr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 5f34f69..1ef7fc0 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -830,6 +830,7 @@ def _combine_like_terms_sum(terms: List[Expr]) -> List[Expr]:
     """accumulate all like terms of a sum"""
 
     consts = []
+    bare_sums = []
     non_constant_terms = []
     for i, term in enumerate(terms):
         if term is None:
@@ -865,11 +866,17 @@ def _combine_like_terms_sum(terms: List[Expr]) -> List[Expr]:
         coeff = accumulate(*coeffs)
         if coeff == 0:
             continue
+        elif len(non_const_factors1) == 1 and isinstance(non_const_factors1[0], Sum) and (coeff == 1 or coeff == -1):
+            # all that's left of this term is a sum, whose terms belong to this sum.
+            bare_sums.append(coeff * non_const_factors1[0])
         elif coeff == 1:
             non_constant_terms.append(Prod(non_const_factors1, skip_checks=True))
         else:
             non_constant_terms.append(Prod([coeff] + non_const_factors1, skip_checks=True))
 
+    if bare_sums:
+        return _combine_like_terms_sum(Sum._flatten_terms(non_constant_terms + bare_sums + consts))
+
     # accumulate all constants
     if consts:
         const = accumulate(*consts)
-- 
2.43.0


From e26b0cfa02c71a537de793a21ef98389d976c5bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 09/50] fix: combining powers could leave a product nested in a
 product or equal bases uncombined

---
 src/simpy/expr.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 1ef7fc0..fd9a26a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1109,6 +1109,7 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
     consts = []
     non_constant_terms = []
     decon = {}
+    is_changed = False
 
     def _add_term(term):
         if isinstance(term, AccumulaTuple):
@@ -1143,11 +1144,14 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
 
         if expo == 0:
             continue
-        if expo == 1:
-            _add_term(base)
-            continue
-
-        _add_term(Power(base, expo))
+        new = base if expo == 1 else Power(base, expo)
+        _add_term(new)
+        if not isinstance(new, AccumulaTuple) and deconstruct_power(new)[0] != base:
+            is_changed = True
+
+    if is_changed:
+        # a combined power turned into something else (a product, a different base) that may combine with other terms
+        return _combine_like_terms(Prod._flatten_terms(consts + non_constant_terms))
 
     if consts:
         coeff = accumulate(*consts, type_="prod")
-- 
2.43.0


From af303fae8381e02c698521e091653382280f0a37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 10/50] fix: equal roots of a product combined to a product
 nested in a product

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index fd9a26a..3477e81 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1146,7 +1146,7 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
             continue
         new = base if expo == 1 else Power(base, expo)
         _add_term(new)
-        if not isinstance(new, AccumulaTuple) and deconstruct_power(new)[0] != base:
+        if isinstance(new, Prod) or (not isinstance(new, AccumulaTuple) and deconstruct_power(new)[0] != base):
             is_changed = True
 
     if is_changed:
-- 
2.43.0


From 79c949fc5fe6b0447da6a3ab51d7db68d382ee68 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 11/50] fix: evalf with values supplied for symbols raised
 TypeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 3477e81..214ce87 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -808,7 +808,7 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        return subs[self.name].evalf() if self.name in subs else self
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From 4557101c07173fd0ae59da4361dd891428c922dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 12/50] fix: printed forms of sin((x+1)*(y+2)), x^(1/y) and
 (-2.5)^x denoted other expressions

---
 src/simpy/expr.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 214ce87..5c5b542 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1097,7 +1097,8 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0) or isinstance(x, Float) and x < 0
+isreciprocal = lambda x: isinstance(x, Power) and isinstance(x.exponent, (Rat, Float)) and x.exponent < 0
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
@@ -1377,7 +1378,13 @@ class Power(Expr):
 
     def __repr__(self) -> str:
         def _term_repr(term):
-            if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
+            if (
+                isinstance(term, Sum)
+                or isinstance(term, Prod)
+                or isfractionorneg(term)
+                or islongsymbol(term)
+                or isreciprocal(term)
+            ):
                 return "(" + repr(term) + ")"
             return repr(term)
 
@@ -1565,10 +1572,7 @@ class SingleFunc(Expr):
 
 
 def _repr(inner: Expr, label: str) -> str:
-    inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
-        return f"{label}{inner_repr}"
-    return f"{label}({inner_repr})"
+    return f"{label}({inner})"
 
 
 @dataclass
-- 
2.43.0


From c44a9b337550b879c01f479447ace5ca1249dda5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 13/50] fix: (pi/4)**inf was inf, and NaN was not recognised

---
 src/simpy/expr.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 5c5b542..a884f9e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -472,7 +472,7 @@ class Float(Num, Expr):
             return Infinity()
         if value == float("-inf"):
             return NegInfinity()
-        if value == float("NaN"):
+        if value != value:
             return NaN()
 
         return super().__new__(cls)
@@ -1472,10 +1472,8 @@ class Power(Expr):
         if (
             isinstance(b, Num) or isinstance(b, Prod) and all(isinstance(t, Num) for t in b.terms)
         ) and not b.is_subtraction:
-            if x == inf:
-                return inf
-            if x == -inf:
-                return Rat(0)
+            if x == inf or x == -inf:
+                return inf if (b.evalf() > 1) == (x == inf) else Rat(0)
 
         return default_return
 
-- 
2.43.0


From 38cee2f6afef9f5b152c89e62bab89b81a9f8ab3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 14/50] fix: trig functions were not reduced further after
 dropping a full period

---
 src/simpy/expr.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a884f9e..41d9c0e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1791,9 +1791,8 @@ class TrigFunction(SingleFunc, ABC):
                     if t.has(Pi):
                         coeff = t / pi
                         if isinstance(coeff, Rat) and coeff % cls._period == 0:
-                            instance = super().__new__(cls)
-                            instance.inner = inner - t
-                            return instance
+                            # may simplify further without the 2pi
+                            return cls(inner - t)
 
         # 2. Check if inner is trigfunction
         # things like sin(cos(x)) cannot be more simplified.
@@ -1930,14 +1929,9 @@ class cos(TrigFunctionNotInverse):
 
     @cast
     def __new__(cls, inner: Expr) -> "Expr":
-        # bruh this is so complicated because doing cos(new, -inner) just sets inner as the original inner because of passing
-        # the same args down to init.
-        new = super().__new__(cls, inner)
-        if not isinstance(new, cos):
-            return new
         if inner.is_subtraction:
-            new.inner = -inner
-        return new
+            return cos(-inner)
+        return super().__new__(cls, inner)
 
 
 class tan(TrigFunctionNotInverse):
-- 
2.43.0


From 1a6574c0790930e3014d417261b16e0da3a41d4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 15/50] fix: diff without a variable returned the ValueError
 instead of raising it

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 41d9c0e..a7682f5 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2102,7 +2102,7 @@ def symbols(symbols: str) -> Union[Symbol, List[Symbol]]:
 
 
 @cast
-def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
+def diff(expr: Expr, var: Optional[Symbol] = None) -> Expr:
     """Takes the derivative of expr relative to var. If expr has only one symbol in it, var doesn't need to be specified."""
     if not hasattr(expr, "diff"):
         raise NotImplementedError(f"Differentiation of {expr} not implemented")
@@ -2110,7 +2110,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From 1e48e16bb86ff09f0de1bad67eeb37cfb9ea82b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 16/50] fix: nesting() and abs() of sums with floats or
 infinities raised

---
 src/simpy/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a7682f5..b601aa8 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -479,6 +479,7 @@ class Float(Num, Expr):
 
     def __init__(self, value):
         self.value = value
+        super().__post_init__()
 
     def latex(self):
         return repr(self)
@@ -654,7 +655,7 @@ class Infinity(Num, Expr):
     value = float("inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "\\infty"
@@ -673,7 +674,7 @@ class NegInfinity(Num, Expr):
     value = float("-inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "-\\infty"
@@ -692,7 +693,7 @@ class NaN(Num, Expr):
     value = float("NaN")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self):
         return NotImplemented
-- 
2.43.0


From 1ce6b8f319f6ea5a1d5c8f3e602c4708e7cbde92 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 17/50] fix: expanding a power whose expanded base is a
 subtraction left the power unexpanded

---
 src/simpy/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b601aa8..e94308d 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1500,7 +1500,10 @@ class Power(Expr):
         b = self.base.expand() if self.base.expandable() else self.base
         x = self.exponent.expand() if self.exponent.expandable() else self.exponent
         new = Power(b, x)
-        if not isinstance(new, Power) or not new._power_expandable():
+        if not isinstance(new, Power):
+            # ex: a sign came out of the base
+            return new.expand() if new.expandable() else new
+        if not new._power_expandable():
             return new
 
         expanded = []
-- 
2.43.0


From cbe17783d43f485184e3f460193ca034d39861cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 18/50] fix: factoring a sum with floating-point coefficients
 raised AttributeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e94308d..ad4a262 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1022,7 +1022,7 @@ class Sum(Associative, Expr):
         for c in coeffs[1:]:
             x: Rat = c / common_coeff
             y: Rat = common_coeff / c
-            if x.value.denominator == 1 or y.value.denominator == 1:
+            if isinstance(x, Rat) and isinstance(y, Rat) and (x.value.denominator == 1 or y.value.denominator == 1):
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
                 common_coeff = None
-- 
2.43.0


From 6ccb7b017df5978882d8590acbe217454b66fb80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 19/50] fix: expanding logs dropped the base and split negative
 numbers off

---
 src/simpy/simplify/simplify.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..699d4cf 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -33,29 +33,37 @@ def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
     inner = expr.inner
+    base = expr.base
+
+    def _log_factors(prod: Expr, transform=lambda t: t) -> Optional[Expr]:
+        # a negative number can't be split off: log(-x) is not log(-1) + log(x)
+        if not isinstance(prod, Prod) or any(isinstance(transform(t), Num) and transform(t) < 0 for t in prod.terms):
+            return None
+        return Sum([log(transform(t), base) for t in prod.terms])
+
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log(inner.base, base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return _log_factors(inner)
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return _log_factors(inner.factor())
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log(inner.reciprocal_class(inner.inner), base)
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log(abs(inner.inner.base), base) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return _log_factors(inner.inner, abs)
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return _log_factors(inner.inner.factor(), abs)
 
-    return log(inner)
+    return log(inner, base)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From 62547bed583ad1b10094b6108378b200822d90f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 20/50] fix: product-to-sum of a product with powers dropped
 its plain factors or raised

---
 src/simpy/simplify/product_to_sum.py | 30 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..31868cd 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -63,22 +63,20 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             elif isinstance(t2, (sin, cos)) and is_valid_power(t1):
                 intermediate = _product_to_sum_unit(t1, multiplier=t2)
             elif is_valid_power(t2) and is_valid_power(t1):
-                intermediate = (product_to_sum_unit(t1) * product_to_sum_unit(t2)).expand()
+                intermediate = _expanded_terms(product_to_sum_unit(t1) * product_to_sum_unit(t2))
             else:
                 return
 
-            return _product_to_sum(intermediate, multiplier=const)
+            return _finish_product_to_sum(intermediate, multiplier=const)
 
         if not all(isinstance(t, (sin, cos)) or is_valid_power(t) for t in new_expr.terms):
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
-            return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
+            return _finish_product_to_sum(_expanded_terms(Prod(new_terms)), multiplier=const)
 
-        return _perform_on_terms(
-            new_expr.terms[0], new_expr.terms[1], multiplier=Prod(new_expr.terms[2:], skip_checks=True) * const
-        )
+        return _perform_on_terms(new_expr.terms[0], new_expr.terms[1], multiplier=Prod(new_expr.terms[2:]) * const)
 
     if is_valid_power(new_expr):
         if new_expr.exponent == 2:
@@ -89,7 +87,21 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             intermediate = _perform_on_terms(
                 new_expr.base, new_expr.base, multiplier=Power(new_expr.base, new_expr.exponent - 2, skip_checks=True)
             )
-        return _product_to_sum(intermediate, multiplier=const)
+        return _finish_product_to_sum(intermediate, multiplier=const)
+
+
+def _expanded_terms(expr: Expr) -> List[Expr]:
+    if expr.expandable():
+        expr = expr.expand()
+    return expr.terms if isinstance(expr, Sum) else [expr]
+
+
+def _finish_product_to_sum(intermediate: List[Expr], *, multiplier: Expr) -> List[Expr]:
+    """Applies product-to-sum on each term of an intermediate result, which itself stands even if no term changes."""
+    final_terms = _product_to_sum(intermediate, multiplier=multiplier)
+    if final_terms is None:
+        return [t * multiplier for t in intermediate]
+    return final_terms
 
 
 def _product_to_sum(sum: List[Expr], *, multiplier: Expr = None) -> Optional[List[Expr]]:
@@ -103,7 +115,7 @@ def _product_to_sum(sum: List[Expr], *, multiplier: Expr = None) -> Optional[Lis
 
     final_terms = []
     for result, term in zip(results, sum):
-        if not result:
+        if result is None:
             final_terms.append(term)
             continue
         final_terms.extend(result)
-- 
2.43.0


From d9515de33c2bd7983765e8296843d109d26bcf8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 21/50] fix: sin^2 + cos^2 with a common squared factor removed
 the wrong terms

---
 src/simpy/simplify/simplify.py | 47 +++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 699d4cf..f8e96da 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -1,4 +1,4 @@
-from typing import Iterable, List, Optional, Tuple, Type, Union
+from typing import List, Optional, Tuple, Type
 
 from ..expr import (
     Abs,
@@ -88,33 +88,40 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
         return
 
     ##------------ Simplify sin^2(...) + cos^2(...) ------------##
-    def is_thing_squared(
-        term: Expr, cls: Union[Type[TrigFunction], Iterable[Type[TrigFunction]]]
-    ) -> Optional[Tuple[Expr, Expr]]:  # returns inner, factor
+    def things_squared(term: Expr, cls: Type[TrigFunction]) -> List[Tuple[Expr, Expr]]:  # list of (inner, factor)
         def is_(f):
             return isinstance(f, Power) and f.exponent == 2 and isinstance(f.base, cls)
 
         if is_(term):
-            return term.base.inner, Rat(1)
+            return [(term.base.inner, Rat(1))]
 
         if not isinstance(term, Prod):
-            return None
-        for f in term.terms:
-            if is_(f):
-                return f.base.inner, term / f
-        return None
+            return []
+        return [(f.base.inner, term / f) for f in term.terms if is_(f)]
 
-    def sin_cos_condition(expr: Sum):
+    def sin_cos_pairs(expr: Sum) -> List[Tuple[int, int, Expr]]:
         # make sure that a*cos^2(...) and a*sin^2(...) are both terms of this sum
-        # with an optional factor that may or may not be there of a
-        s = [is_thing_squared(term, sin) for term in expr.terms]
-        c = [is_thing_squared(term, cos) for term in expr.terms]
-        return [el for el in s if el is not None and el in c]
-
-    both_inners = sin_cos_condition(sum)
-    if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
-        new_terms += [el[1] for el in both_inners]
+        # with an optional factor that may or may not be there of a.
+        # no term can be part of two pairs.
+        s = [things_squared(term, sin) for term in expr.terms]
+        c = [things_squared(term, cos) for term in expr.terms]
+        pairs = []
+        used = set()
+        for i, s_things in enumerate(s):
+            for j, c_things in enumerate(c):
+                if i in used or j in used or i == j:
+                    continue
+                common = [thing for thing in s_things if thing in c_things]
+                if common:
+                    pairs.append((i, j, common[0][1]))
+                    used.update((i, j))
+        return pairs
+
+    pairs = sin_cos_pairs(sum)
+    if len(pairs) > 0:
+        used = {k for i, j, _ in pairs for k in (i, j)}
+        new_terms = [t for i, t in enumerate(sum.terms) if i not in used]
+        new_terms += [factor for _, _, factor in pairs]
         return Sum(new_terms)
 
     ##------------ Simplify 1 +/- cls(...)^2 ------------##
-- 
2.43.0


From db2ae9139f6abe7a306a0d11f81b882e8eac68bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 22/50] fix: simplifying a sum with even powers of sec and tan
 raised

---
 src/simpy/simplify/simplify.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index f8e96da..d546c0f 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -357,16 +357,15 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
-        tans.extend(new.terms)
+        new = new.expand() if new.expandable() else new
+        tans.extend(new.terms if isinstance(new, Sum) else [new])
 
     new_sum = Sum(tans + others)
     if not isinstance(new_sum, Sum):
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From 0be72af2320ce9852d9f54242aa246db46167752 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 23/50] fix: matching terms of a sum could pick contradicting
 terms and raise AssertionError

---
 src/simpy/regex.py | 60 ++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..6e3d0f9 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -134,35 +134,30 @@ def _matches_eq(x: Matches, y: Matches) -> bool:
     return True
 
 
-_qmatches = Dict[str, Dict[str, Matches]]
+_qmatches = List[Dict[int, Matches]]
 
 
 def consolidate(query_matches: _qmatches, expr: Sum) -> EqResult:
-    final = defaultdict(list)
-    accounted_expr_terms = []
-
-    # We need to make sure every query term has a match.
-    for query_term_repr, query_term_values in query_matches.items():
-        has_match = False
-        for expr_term_repr, matches in query_term_values.items():
-            if all(
-                any(_matches_eq(matches2, matches) for matches2 in query_term_values2.values())
-                for query_term_values2 in query_matches.values()
-            ):
-                join_dicts(final, matches)
-                accounted_expr_terms.append(expr_term_repr)
-                has_match = True
-                break  # this might cause trouble down the line that we're just matching the first one :/
-                # what if there are multiple expr terms that match the query? i dunno actually wtv this is fine wtv.
-
-        if not has_match:
-            return {"success": False}
-
-    assert all(all_same(v) for v in final.values())
-    final = {k: v[0] for k, v in final.items()}
-    assert all(any(_matches_eq(x, final) for x in y.values()) for y in query_matches.values())
-
-    rest = Sum([t for t in expr.terms if repr(t) not in accounted_expr_terms])
+    """For each term of the query, `query_matches` has the matches with each term of expr (by its index) that it can
+    be matched to. Picks a different expr term for each query term, such that their matches agree with each other.
+    """
+
+    def _pick(i: int, final: Matches, accounted_expr_terms: List[int]) -> Optional[Tuple[Matches, List[int]]]:
+        if i == len(query_matches):
+            return final, accounted_expr_terms
+        for expr_term_index, matches in query_matches[i].items():
+            if expr_term_index in accounted_expr_terms or not _matches_eq(matches, final):
+                continue
+            picked = _pick(i + 1, {**final, **matches}, accounted_expr_terms + [expr_term_index])
+            if picked is not None:
+                return picked
+
+    picked = _pick(0, {}, [])
+    if picked is None:
+        return {"success": False}
+
+    final, accounted_expr_terms = picked
+    rest = Sum([t for i, t in enumerate(expr.terms) if i not in accounted_expr_terms])
     return {"matches": final, "rest": rest, "success": True}
 
 
@@ -208,16 +203,17 @@ class Eq:
                 return falsereturn
 
             def _is_sum_eq(expr: Sum, query: Sum) -> EqResult:
-                query_matches: _qmatches = defaultdict(dict)
+                query_matches: _qmatches = []
                 for query_term in query.terms:
-                    for expr_term in expr.terms:
+                    term_matches = {}
+                    for i, expr_term in enumerate(expr.terms):
                         output = Eq(expr_term, query_term, decompose_singles=False)()
-                        is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y) for y in query_matches.values()):
-                            query_matches[repr(query_term)][repr(expr_term)] = anyfinds
+                        if output.get("success"):
+                            term_matches[i] = output["matches"]
 
-                    if len(query_matches[repr(query_term)]) == 0:
+                    if len(term_matches) == 0:
                         return {"success": False}
+                    query_matches.append(term_matches)
 
                 return consolidate(query_matches, expr)
 
-- 
2.43.0


From 8cde44fe0c52cbc899d104ea6adafa5e7f6426da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 24/50] fix: rewriting -1/(x + y) + 1 as one fraction left a
 fraction in the numerator

---
 src/simpy/simplify/simplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index d546c0f..23e4a5b 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -213,7 +213,7 @@ def rewrite_as_one_fraction(sum: Expr, include_const_denoms=True) -> Optional[Ex
         return
 
     common_den = Prod(common_den_terms)
-    new_nums = [num * common_den / den for num, den in list_of_terms]
+    new_nums = [num * (common_den / den) for num, den in list_of_terms]
     return Sum(new_nums) / common_den
 
 
-- 
2.43.0


From 76aadcd7cf25f5e2816731b6af2f94ab98c7094e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 25/50] fix: the derivative of asin(1) and acos(1) was nan

---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index ad4a262..08b14c2 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2007,6 +2007,8 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
+        if not self.inner.contains(var):  # asin(1) is a constant too
+            return Rat(0)
         return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
@@ -2020,6 +2022,8 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
+        if not self.inner.contains(var):  # acos(1) is a constant too
+            return Rat(0)
         return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
-- 
2.43.0


From 9d741a9f4aa3a1d8dc2a29902f9ee3041935d9ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 26/50] fix: evaluating sec, csc and cot numerically raised
 TypeError

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 08b14c2..8cabd3b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1842,7 +1842,8 @@ class TrigFunction(SingleFunc, ABC):
     def _evalf(self, subs):
         inner = self.inner._evalf(subs)
         if isinstance(inner, Num):
-            return Float(self._func(inner.value))
+            # get it from the class, otherwise a lambda would be bound to self
+            return Float(self.__class__._func(inner.value))
         return self.__class__(inner)
 
     def latex(self) -> str:
-- 
2.43.0


From 4cb092325d3c0c1755cb506df19c346455e2c40a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 27/50] fix: abs of a product with a float or infinite factor
 could recurse endlessly

---
 src/simpy/expr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8cabd3b..73c60dd 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2067,9 +2067,10 @@ class Abs(SingleFunc):
         if inner.is_subtraction:
             return Abs(-inner)
         if isinstance(inner, Prod):
-            for t in inner.terms:
+            for i, t in enumerate(inner.terms):
                 if isinstance(t, Num):
-                    return Abs(inner / t) * Abs(t)
+                    # leave t out instead of dividing by it: inf * 1/inf and c * 1/c of a float c need not be 1
+                    return Abs(Prod(inner.terms[:i] + inner.terms[i + 1 :])) * Abs(t)
 
         if _is_strictly_positive(inner):
             return inner
-- 
2.43.0


From 27ca40de96b6474604600e875921674c487b0296 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 28/50] fix: the multinomial coefficient of no exponents raised
 TypeError

---
 src/simpy/combinatorics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/combinatorics.py b/src/simpy/combinatorics.py
index 8a6eaa8..85357a3 100644
--- a/src/simpy/combinatorics.py
+++ b/src/simpy/combinatorics.py
@@ -43,8 +43,8 @@ def multinomial_coefficient(xs: List[int], n: int) -> int:
     mul = lambda x, y: x * y
     add = lambda x, y: x + y
     xs_factorials = [math.factorial(x) for x in xs]
-    xs_factorials_product = functools.reduce(mul, xs_factorials)
-    xs_sum = functools.reduce(add, xs)
+    xs_factorials_product = functools.reduce(mul, xs_factorials, 1)
+    xs_sum = functools.reduce(add, xs, 0)
     denominator = math.factorial(n - xs_sum) * xs_factorials_product
 
     return numerator // denominator  # Integer division for exact result
-- 
2.43.0


From 61e34b8b9a0a2cad5e3f32975d32d4ab512f17b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 29/50] fix: partial fractions with a factor that is not linear
 raised

---
 src/simpy/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..18c248e 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -915,6 +915,10 @@ class PartialFractions(Transform):
         d1_list = to_const_polynomial(d1, node.var)
         d2_list = to_const_polynomial(d2, node.var)
 
+        # only linear factors: a factor of higher degree needs more unknowns than one constant per factor
+        if not (d1_list.size == 2 and d2_list.size == 2):
+            return False
+
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
         if inv is None:
-- 
2.43.0


From 059def5142e6d59ba77e4797ffa63509cfcc95ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 30/50] fix: completing the square of a perfect square gave
 infinity

---
 src/simpy/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 18c248e..9167683 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -1016,6 +1016,8 @@ class CompleteTheSquare(Transform):
             normalized = poly / norm_factor
             const = normalized[1] / 2
             diff = normalized[0] - const**2
+            if diff == 0:  # already a perfect square
+                return (node.var + const) ** 2 * norm_factor
             new_expr = (((node.var + const) / sqrt(diff)) ** 2 + 1) * diff * norm_factor
 
             return new_expr
-- 
2.43.0


From f4478f52c9d570576a88035ec7c4af7745d20a66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 31/50] fix: dividing by a floating-point zero raised
 ZeroDivisionError instead of giving inf

---
 src/simpy/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 73c60dd..a8b86de 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -747,15 +747,15 @@ def _exact_int_power(n: int, x: Fraction) -> Optional[int]:
 
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
+    if b == 0 and x < 0:
+        # Division by zero.
+        return inf
+
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
         return Const(b.value**x.value)
 
     if b == 0:
-        if x > 0:
-            return Rat(0)
-        else:
-            # Division by zero.
-            return inf
+        return Rat(0)
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-- 
2.43.0


From 675d06125809e3a3d4f3d34361c74adaa8063e99 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 32/50] fix: a root of very high degree hung or exhausted
 memory

---
 src/simpy/expr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a8b86de..1f6b908 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -736,6 +736,8 @@ def _exact_int_power(n: int, x: Fraction) -> Optional[int]:
         return None
     # Newton's method for the integer root, starting from above.
     k = x.denominator
+    if k >= n.bit_length():
+        return n if n <= 1 else None  # 1 < n**(1/k) < 2
     root = 1 << -(-n.bit_length() // k)
     while True:
         new = ((k - 1) * root + n // root ** (k - 1)) // k
-- 
2.43.0


From b45ef6237f1c92336baa31116a21b5f5b71944ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 33/50] fix: a wildcard's leftover constant was matched to its
 reciprocal

---
 src/simpy/regex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index 6e3d0f9..ae0e2a7 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -280,7 +280,11 @@ class Eq:
 
                 # if one contains a factor of any.
                 if len(anys) == 1:
-                    anyvalue = one / anys[0]
+                    # `one` is what is left of query / expr, so it must be 1.
+                    anyvalue = anys[0] / one
+                    if self._up_to_factor and expr is self._expr and anys[0] == self._any_factor:
+                        # a query that isn't a sum: the factor is reported the other way around.
+                        anyvalue = one / anys[0]
                     if get_anys(anyvalue) == []:
                         join_dicts2(self._matches, quotient_matches)
                         self._matches[anys[0].key].append(anyvalue)
-- 
2.43.0


From 3133535d2657129d607bcddb0f9e0fd78105e6f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 34/50] fix: matching 0 up to a factor reported an empty list
 as the factor, and a leftover constant was inverted

---
 src/simpy/regex.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index ae0e2a7..583aeaa 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -238,8 +238,8 @@ class Eq:
         self._matches: Matches
 
         if self._up_to_factor:
-            self._result["factor"] = self._matches[self._any_factor.key]
-            del self._matches[self._any_factor.key]
+            # (a query of 0 has no place for the factor: any factor will do)
+            self._result["factor"] = self._matches.pop(self._any_factor.key, Rat(1))
 
         if self._decompose_singles and len(self._matches) == 1:
             self._result["matches"] = list(self._matches.values())[0]
@@ -280,12 +280,12 @@ class Eq:
 
                 # if one contains a factor of any.
                 if len(anys) == 1:
-                    # `one` is what is left of query / expr, so it must be 1.
-                    anyvalue = anys[0] / one
-                    if self._up_to_factor and expr is self._expr and anys[0] == self._any_factor:
-                        # a query that isn't a sum: the factor is reported the other way around.
-                        anyvalue = one / anys[0]
+                    anyvalue = one / anys[0]
                     if get_anys(anyvalue) == []:
+                        # `one` is what is left of query / expr, so it must be 1.
+                        # (for the factor of a query that isn't a sum, it is reported the other way around.)
+                        if not (self._up_to_factor and expr is self._expr and anys[0] == self._any_factor):
+                            anyvalue = 1 / anyvalue
                         join_dicts2(self._matches, quotient_matches)
                         self._matches[anys[0].key].append(anyvalue)
                         return True
-- 
2.43.0


From 7ff9e9729a0438ecd92f580b135ac252681ec4b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 35/50] fix: b^(-(x + y)*log(z, b)) left an undistributed -1*(x
 + y) in the exponent

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 1f6b908..8ae0992 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1460,7 +1460,7 @@ class Power(Expr):
         if isinstance(x, Prod):
             for i, t in enumerate(x.terms):
                 if isinstance(t, log) and t.base == b:
-                    rest = Prod(x.terms[:i] + x.terms[i + 1 :], skip_checks=True)
+                    rest = Prod(x.terms[:i] + x.terms[i + 1 :])
                     return Power(
                         t.inner, rest
                     )  # Just in case this needs to be simplified, we will pass this through the constructor
-- 
2.43.0


From 7235419cc11ca99fe39ce25a21f587ca6d1aa26e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 36/50] fix: the LaTeX of very large and very small floats read
 as a multiple of e

---
 src/simpy/expr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8ae0992..a06db46 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -482,7 +482,10 @@ class Float(Num, Expr):
         super().__post_init__()
 
     def latex(self):
-        return repr(self)
+        mantissa, e_, exponent = repr(self.value).partition("e")
+        if e_ == "":
+            return mantissa
+        return f"{mantissa} \\cdot 10^{{{int(exponent)}}}"
 
     def abs(self) -> "Float":
         return Float(abs(self.value))
@@ -1410,6 +1413,8 @@ class Power(Expr):
         def _base_latex(term: Expr):
             if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
                 return bracketfy(term)
+            if isinstance(term, Float) and "e" in repr(term):
+                return bracketfy(term)
             return term.latex()
 
         # special case for sqrt
-- 
2.43.0


From c54c2d940a2bc9cd7c222480667bf12a4635a0a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 37/50] fix: partial fractions of a denominator with a factor
 that is a power of a sum raised AssertionError

---
 src/simpy/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 9167683..0863c29 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -912,8 +912,11 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            return False
 
         # only linear factors: a factor of higher degree needs more unknowns than one constant per factor
         if not (d1_list.size == 2 and d2_list.size == 2):
-- 
2.43.0


From 3f0dbf0b2b445d40e6a40da064b9de6298298076 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 38/50] fix: integration by parts that undoes itself up to a
 constant gave nan

---
 src/simpy/transforms.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 0863c29..06cec52 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -709,10 +709,6 @@ class ByParts(Transform):
 
         return Integration.integrate_without_heuristics(dv, var)
 
-    @staticmethod
-    def _get_all_byparts_parents(node: Node) -> List[Node]:
-        return [p for p in _parents(node) if isinstance(p.transform, ByParts)]
-
     @staticmethod
     def _get_last_byparts_parent(node: Node) -> Optional[Node]:
         # no heuristics have been applied yet
@@ -734,10 +730,12 @@ class ByParts(Transform):
 
         # check for more layers above -- if any of the integrands is the same, factor = 1 and it's a nogo.
         # honestly this is a bit sad; why don't we just always check that a node doesn't appear in its parents?
-        byparts_parents = ByParts._get_all_byparts_parents(node)
-        old_byparts_integrands = [node.expr for node in byparts_parents]
-        if integrand2 in old_byparts_integrands:
-            return False
+        # constants that were pulled out on the way down to this node count as part of the integrand.
+        for p in _parents(node):
+            if isinstance(p.transform, ByParts) and integrand2 / p.expr == 1:
+                return False
+            if isinstance(p.transform, PullConstant):
+                integrand2 = p.transform._constant * integrand2
         return True
 
     def __init__(self):
-- 
2.43.0


From af5adf525e0056958e522d34cf5ea81b47686b23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 39/50] fix: quadratics without a linear term were not
 normalised, so 1/(3x^2+4) and 1/sqrt(4-x^2) were not integrated

---
 src/simpy/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 06cec52..84cb4c3 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -995,9 +995,10 @@ class CompleteTheSquare(Transform):
 
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
-            return poly.size == 3 and poly[1] != 0
+            return poly.size == 3 and (poly[1] != 0 or abs(poly[0]) != abs(poly[2]))
             # poly[1] = 0 implies that there's no bx term
             # which means that there's no square to complete.
+            # if moreover the coefficients are already those of a multiple of 1 +- x^2,
             # the result will just be the same as the original.
 
         return general_contains(node.expr, condition)
-- 
2.43.0


From f035a4814f4241f7c013c3ea30c17f476bba020a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:03 +0000
Subject: [PATCH 40/50] fix: 1/(ax+b)^n was expanded and then not integrated

---
 src/simpy/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 84cb4c3..32a4510 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -327,6 +327,10 @@ class Expand(SafeTransform):
         if isinstance(t, CompleteTheSquare):
             return False
 
+        # expanding 1/(ax+b)^n hides that it is a power of something linear
+        if isinstance(node.expr, Power) and isinstance(node.expr.exponent, Rat) and node.expr.exponent < 0:
+            return False
+
         return node.expr.expandable()
 
     def backward(self, node: Node) -> None:
-- 
2.43.0


From 68bd135a21074cdecb290bb90175da662fc145dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 41/50] fix: safe transforms added children to nodes that
 already had theirs

---
 src/simpy/integration.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 11c634b..a273fde 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -301,11 +301,13 @@ def _integrate_safely(node: Node):
     """Applies all possible safe transforms to a node..
     If a safe transform is applied, we keep applying safe transforms to the new children.
     """
-    for transform in SAFE_TRANSFORMS:
-        tr = transform()
-        if tr.check(node):
-            tr.forward(node)
-            break
+    # a node that already has its children (ex: the parts of integration by parts) must not get another one
+    if not node.children and not node.is_finished:
+        for transform in SAFE_TRANSFORMS:
+            tr = transform()
+            if tr.check(node):
+                tr.forward(node)
+                break
     for child in node.children:
         _integrate_safely(child)
 
-- 
2.43.0


From 7e4fbee1786d9c55266a5daf6599ded3cd18d11e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 42/50] fix: a part of a sum that repeats an ancestor was
 dropped from the answer

---
 src/simpy/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 32a4510..af8650f 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -82,7 +82,10 @@ class Node:
         if not child.is_filler:
             parents = _parents(self)
             if any(eq_with_var((p.expr, p.var), (child.expr, child.var)) for p in parents):
-                return
+                if self.type != "AND":
+                    return
+                # all the parts of an AND are needed, so going in circles on one of them means that it fails
+                child.type = "FAILURE"
         self.children.append(child)
 
     def add_children(self, children: List["Node"]) -> None:
-- 
2.43.0


From 6d218d892a924f41d8b1845596b2bde0fda4dc4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 43/50] fix: the derivative of an absolute value ignored its
 sign

---
 src/simpy/expr.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a06db46..d92e3b1 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -15,7 +15,6 @@ so I don't really mind the lack of float support, but I can see why you'd be ann
 import inspect
 import itertools
 import math
-import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, fields
 from fractions import Fraction
@@ -2091,8 +2090,8 @@ class Abs(SingleFunc):
         super().__post_init__()
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        # the sign of the inner times its derivative
+        return self / self.inner * self.inner.diff(var)
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From 1ef8b219a6b2c5a65dca998412b7ad831cc693a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 44/50] fix: raising a negative Float to a fractional power
 raised AssertionError

---
 src/simpy/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d92e3b1..f5a5e17 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -756,7 +756,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
         return inf
 
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
-        return Const(b.value**x.value)
+        value = b.value**x.value
+        # a root of a negative number is not a real number
+        return None if isinstance(value, complex) else Const(value)
 
     if b == 0:
         return Rat(0)
-- 
2.43.0


From 1c3dd0f9ddf21cd00d77745c90e109d8c88b15a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 45/50] fix: differentiating or integrating u(x)^v(x) raised
 NotImplementedError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f5a5e17..8729df0 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1541,7 +1541,7 @@ class Power(Expr):
             return log(self.base) * self * self.exponent.diff(var)
 
         # if both base and exponent contain var
-        raise NotImplementedError("Power differentiation not implemented for both base and exponent containing var")
+        return self * (self.exponent.diff(var) * log(self.base) + self.exponent * self.base.diff(var) / self.base)
         # new_power = Power(e, self.exponent * log(self.base))
         # return new_power.diff(var)
 
-- 
2.43.0


From 37abcf53d3f2c9af27d4c4946d3b2556f25c381b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:00 +0000
Subject: [PATCH 46/50] fix: integrating b^x*sin(x) raised ValueError when by
 parts comes back to the integrand through two constants

---
 src/simpy/transforms.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index af8650f..e5c65f3 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -785,12 +785,15 @@ class ByParts(Transform):
         return _check(a, b) or _check(b, a)
 
     @staticmethod
-    def _get_first_factor(parent_byparts: Node, node: Node) -> Expr:
-        if parent_byparts.children[1] == node:
-            return Rat(1)
-        elif isinstance(node.transform, PullConstant) and parent_byparts.children[1].child == node:
-            return node.transform._constant
-        raise ValueError
+    def _get_first_factor(parent_byparts: Node, node: Node) -> Optional[Expr]:
+        """The constants pulled out on the way from the parent's second part to node. None if node is only a term of it."""
+        factor = Rat(1)
+        while node is not parent_byparts.children[1]:
+            if not isinstance(node.transform, PullConstant):
+                return None
+            factor *= node.transform._constant
+            node = node.parent
+        return factor
 
     def forward(self, node: Node) -> None:
         # This is tricky bc you have 2 layers of children here.
@@ -826,8 +829,8 @@ class ByParts(Transform):
             parent_byparts = self._get_last_byparts_parent(node)
             if parent_byparts:
                 second_factor = integrand2 / parent_byparts.expr
-                if not second_factor.contains(node.var):
-                    first_factor = self._get_first_factor(parent_byparts, node)
+                first_factor = self._get_first_factor(parent_byparts, node)
+                if first_factor is not None and not second_factor.contains(node.var):
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
                     other_uv.solution /= 1 - factor  # mutating is sus
-- 
2.43.0


From 3d644cba349ed39b15f157a36e8a2ad189e0f796 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 47/50] fix: u = ax+b substituted in f(ax+b) left (a*x)^n
 alone, giving wrong antiderivatives

---
 src/simpy/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index e5c65f3..73af50f 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -640,8 +640,8 @@ class LinearUSub(USub):
             result = _is_a_linear_sum_or_prod(e)
             if result is not None:
                 u, u_inverse = result
-                if self._u is not None:
-                    return u == self._u
+                if self._u is not None and u != self._u:
+                    return False
                 self._u = u
 
                 # If u_inverse exists, set it.
-- 
2.43.0


From a02c9aaa89d60be9b70637e5d479fea06560e9e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:51 +0000
Subject: [PATCH 48/50] fix: the function simpy.latex was replaced by the
 module of the same name once anything had been printed as LaTeX

---
 src/simpy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simpy/__init__.py b/src/simpy/__init__.py
index d6dcff2..37caa8b 100644
--- a/src/simpy/__init__.py
+++ b/src/simpy/__init__.py
@@ -1,2 +1,3 @@
+from . import latex as _latex_module  # noqa: F401  Imported later, the submodule would replace the function simpy.latex.
 from .expr import Rat, acos, asin, atan, cos, cot, csc, diff, e, latex, log, pi, sec, sin, sqrt, symbols, tan
 from .integration import integrate
-- 
2.43.0


From ad738b640a02eed7c812d1905d8bbdf36aaa1c6a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:01 +0000
Subject: [PATCH 49/50] fix: None, booleans and classes were silently accepted
 as parts of an expression (an unsolved integral plus 3 was 3)

---
 src/simpy/expr.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8729df0..590dec4 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -92,6 +92,13 @@ def _cast(x):
     raise NotImplementedError(f"Cannot cast {x} to Expr")
 
 
+def _require_exprs(*values) -> None:
+    """What _cast lets through (None for no value, booleans, classes) cannot be part of an expression."""
+    for x in values:
+        if not isinstance(x, Expr):
+            raise TypeError(f"expected an expression, got {x!r}")
+
+
 def cast(func):
     """Decorator to cast all arguments to Expr."""
 
@@ -297,6 +304,7 @@ class Associative:
                 t._flatten()
                 new_terms += t.terms
             else:
+                _require_exprs(t)
                 new_terms += [t]
         return new_terms
 
@@ -1432,6 +1440,7 @@ class Power(Expr):
 
         b = _cast(base)
         x = _cast(exponent)
+        _require_exprs(b, x)
 
         default_return = super().__new__(cls)
         default_return.base = b
@@ -1630,6 +1639,7 @@ class log(Expr):
         if skip_checks:
             return super().__new__(cls)
 
+        _require_exprs(inner, base)
         if inner == 1:
             return Rat(0)
         if inner == base:
@@ -1786,6 +1796,7 @@ class TrigFunction(SingleFunc, ABC):
         if skip_checks:
             return super().__new__(cls)
 
+        _require_exprs(inner)
         # 1. Check if inner is a special value
         if inner == 0:
             return cls.special_values["0"]
-- 
2.43.0


From 5de1946460dd11043f7d39349158435346abacf2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 50/50] fix: integrating with a floating-point base could undo
 an integration by parts and give a wrong antiderivative

---
 src/simpy/transforms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 73af50f..b34ec1e 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -1,5 +1,6 @@
 # structures for integration w transforms
 
+import math
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from fractions import Fraction
@@ -9,6 +10,7 @@ import numpy as np
 
 from .expr import (
     Expr,
+    Float,
     Num,
     Power,
     Prod,
@@ -705,6 +707,11 @@ def _parents(node: Node) -> List[Node]:
     return [node] + _parents(node.parent)
 
 
+def _is_one(expr: Expr) -> bool:
+    """Whether expr is 1, up to rounding if it is a floating-point number"""
+    return expr == 1 or isinstance(expr, Float) and math.isclose(expr.value, 1)
+
+
 class ByParts(Transform):
     """Integration by parts"""
 
@@ -732,14 +739,14 @@ class ByParts(Transform):
         # which is invalid
         integrand2 = du * v * -1
         factor = integrand2 / node.expr
-        if factor == 1:
+        if _is_one(factor):
             return False
 
         # check for more layers above -- if any of the integrands is the same, factor = 1 and it's a nogo.
         # honestly this is a bit sad; why don't we just always check that a node doesn't appear in its parents?
         # constants that were pulled out on the way down to this node count as part of the integrand.
         for p in _parents(node):
-            if isinstance(p.transform, ByParts) and integrand2 / p.expr == 1:
+            if isinstance(p.transform, ByParts) and _is_one(integrand2 / p.expr):
                 return False
             if isinstance(p.transform, PullConstant):
                 integrand2 = p.transform._constant * integrand2
-- 
2.43.0

