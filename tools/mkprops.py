"""Writes properties.jsonl (kept as a script so that the records stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
X = "src/simpy/expr.py"
prop("C01", "Building an expression preserves its mathematical value",
 "Whatever formula a user writes with operators, functions and constructors, the expression obtained has the value the formula has in real arithmetic at every point where the formula is defined; automatic simplification at construction never changes a value, never raises and never yields an undefined or non-finite expression there. This covers sums, differences, products, quotients, powers, roots, absolute values, logarithms to any base and all six trigonometric functions with their inverses, written with expressions, ints or fractions in any mix.",
 ["inputs", "programs"], "every formula over real symbols and exact constants, every real point in its domain (fractional powers and logarithms on their principal real domain)",
 "Tests compare a few dozen hand-picked structures with other structures built by the same constructors; they never evaluate both sides at points, and a wrong automatic simplification in a combination they do not write is invisible.",
 [X], [("sum / product construction, flattening and like-term collection", X + ":Sum.__new__, Prod.__new__, _combine_like_terms, _combine_like_terms_sum"), ("power rules", X + ":Power.__new__, _multiply_exponents, _accumulate_power"), ("function constructors", X + ":log.__new__, TrigFunction.__new__, Abs.__new__"), ("operator overloads", X + ":Expr.__add__ .. __rtruediv__, Rat.__add__ ..")])
prop("C02", "Rational arithmetic is exact, with exact roots and correct ordering",
 "Sums, differences, products, quotients, floor division, remainders, integer powers, negation, absolute value and reciprocal of rational numbers are exact for numbers of any size, and comparisons between numbers agree with the real order. A rational raised to a rational power becomes an exact rational precisely when the true value is rational (for non-negative bases), and otherwise an expression with exactly the true value: no result is ever rounded through floating point.",
 ["inputs"], "all pairs of rational operands and all rational exponents of moderate size, including integers far beyond 2^53",
 "Tests use small integers; rounding in a root or power only appears for large or special operands.",
 [X], [("rational constants and their operators", X + ":Rat"), ("constant accumulation", X + ":accumulate, _accumulate_power"), ("number comparisons", X + ":Num.__eq__ .. __lt__")])
prop("C03", "Equal constructions give one canonical form, and equality is sound",
 "Sums and products are canonical: the order and grouping in which the same terms are added or factors multiplied does not affect the result, like terms and equal bases are collected, nested sums and products are flattened, and zero terms and unit factors vanish. Structural equality is an equivalence relation that agrees with identical structure, and two expressions that compare equal always have the same value.",
 ["inputs", "programs"], "all permutations and parenthesisations of finite lists of terms or factors; all pairs and triples of expressions",
 "Tests check individual orderings; canonical ordering relies on a comparator over printed forms that only misbehaves for particular mixes of terms.",
 [X], [("canonical ordering", X + ":Associative._sort_terms"), ("flattening", X + ":Associative._flatten_terms"), ("like terms", X + ":_combine_like_terms_sum, _combine_like_terms"), ("equality", X + ":Num.__eq__, Symbol.__eq__, dataclass equality")])
prop("C04", "Expressions are immutable: no operation history changes their meaning",
 "No sequence of operations on expressions ever changes an expression that already exists: its structure, printed form and derived answers (expansion, symbols, nesting, derivative, substitution) stay what they were, and are the same as for an identical expression built afresh with no history. Lists and dictionaries supplied by the user are not modified, and repeating an operation gives the same result.",
 ["histories"], "every sequence of public operations over a shared pool of expressions that reuse each other as subterms",
 "Tests look at single calls on fresh objects; memoised answers, shared subterms and in-place bookkeeping only interact over histories.",
 [X, "src/simpy/regex.py", "src/simpy/transforms.py", "src/simpy/integration.py", "src/simpy/simplify/simplify.py"],
 [("memoised answers on expression objects", X + ":Expr.expand, symbols, nesting, _deconstruct_prod, deconstruct_power, remove_const_factor"), ("in-place flattening", X + ":Associative._flatten"), ("special value tables shared by all calls", X + ":TrigFunction.special_values")],
 [{"name": "per-expression caches", "meaning": "expansion, symbol list, nesting, numerator/denominator, deconstruction"}, {"name": "trig special value tables", "meaning": "shared expression objects returned to users"}])
prop("C05", "Expansion multiplies out completely and equals the original",
 "Expanding an expression gives an expression with the same value; for expressions built from numbers and symbols with sums, products and non-negative integer powers the result is the polynomial's distributed normal form with exact coefficients, containing no product or positive integer power of a sum. An expression reports itself expandable whenever expansion is accepted, expanding a non-expandable expression is refused, and the expansion of a polynomial cannot be expanded further.",
 ["inputs", "programs"], "all expressions; the normal-form part for all polynomial formulas in several symbols",
 "Tests expand a handful of small products and powers; multinomial coefficients, denominators and nesting combine freely.",
 [X, "src/simpy/combinatorics.py", "src/simpy/simplify/simplify.py"], [("expansion of products, powers, sums", X + ":Prod._expand, Power._expand, Sum._expand"), ("multinomial expansion", "src/simpy/combinatorics.py"), ("expansion inside functions", X + ":SingleFunc._expand, log._expand")])
prop("C06", "Factoring a sum is exact and extracts the common factor",
 "Factoring a sum yields an expression with exactly the same value, whose expansion is again the original sum; when every term shares a symbol or sub-expression raised to positive powers, the smallest shared power is pulled out, as is a coefficient shared by all terms up to sign and, where of any two coefficients one is a whole multiple of the other, the smallest of them. Factoring never raises on a sum of products of rational multiples, powers and functions, and leaves the original sum intact.",
 ["inputs", "programs"], "all sums of at least two terms over rational coefficients, symbols, powers of expressions with positive or negative exponents, and function calls",
 "Tests factor a few sums with visible common factors; partial overlaps, negative exponents and mixed coefficient signs are not sampled.",
 [X], [("common factor extraction", X + ":Sum.factor")])
prop("C07", "Simplification preserves value and always answers",
 "Simplifying any expression returns, without raising, an expression with the same value wherever the original is defined. Simplifying the result again keeps the value, and an identity of trigonometric, logarithmic or algebraic kind that simplification recognises is applied only where it is valid, whatever else surrounds it in the expression.",
 ["inputs", "programs"], "all expressions, in particular mixtures of trigonometric squares, products, fractions, logarithms and powers",
 "Tests simplify about thirty identities, each alone; the rewriters search whole expressions for partial matches whose context differs.",
 ["src/simpy/simplify/simplify.py", "src/simpy/simplify/product_to_sum.py", "src/simpy/regex.py"], [("simplification pipeline", "src/simpy/simplify/simplify.py:simplify"), ("trigonometric rewriting", "src/simpy/simplify/simplify.py:trig_simplify, pythagorean_simplification")])
prop("C08", "Trigonometric exact values, symmetries and inverses are right",
 "Every trigonometric function of a rational multiple of pi has its true value (infinite exactly at poles), exactly and in closed form at multiples of pi/6 and pi/4, for any multiple however large or negative. Adding full periods and negating the argument follow the function's period and parity for any argument, and compositions of a trigonometric function with an inverse one equal the true algebraic value on the principal range.",
 ["inputs"], "all rational multiples of pi for all six functions; all arguments with added multiples of pi; all 18 compositions over the inverse's domain and the 3x6 reverse compositions on the principal range",
 "Tests check a handful of table entries; the table has 96 entries reached through reduction modulo the period and 18 composition formulas.",
 [X], [("special values and period reduction", X + ":TrigFunction.__new__, special_values"), ("composition formulas", X + ":TrigFunction._double_simplification_dict"), ("parity", X + ":sin.__new__, cos.__new__, tan.__new__")])
prop("C09", "Derivatives are correct",
 "The derivative of an expression with respect to a symbol equals the true partial derivative wherever the expression is differentiable, for every combination of the supported operations, including nested functions, quotients, symbolic constants and other symbols treated as constants. Differentiation is linear, the derivative with respect to an absent symbol is zero, and mixed partial derivatives agree.",
 ["inputs", "programs"], "all expressions, all real points of differentiability",
 "Tests differentiate about ten expressions and compare structure.",
 [X], [("differentiation rules", X + ":*.diff, diff")])
prop("C10", "Substitution and numeric evaluation agree with real evaluation",
 "Substituting expressions or numbers for symbols gives an expression whose value is the original's value with those symbols so valued; all substitutions happen simultaneously, substitution of an absent symbol or of a symbol by itself changes nothing, and substituting in two disjoint steps equals one step. Numeric evaluation of an expression without free symbols is the real value to floating-point accuracy, and with values supplied for its symbols equals substituting and then evaluating.",
 ["inputs", "programs"], "all expressions, all substitutions of some of their symbols by numbers or expressions",
 "Tests substitute small integers in a few polynomials and evaluate a few constants.",
 [X], [("substitution", X + ":*.subs"), ("numeric evaluation", X + ":*._evalf, Expr.evalf")])
prop("C11", "An antiderivative that is returned differentiates back to the integrand",
 "Whenever indefinite integration returns an answer, the derivative of that answer equals the integrand wherever both are real and the trigonometric arguments lie in the first quadrant (logarithms read as logarithms of absolute values), whichever strategies were used and in whatever order they were tried. The answer is finite, contains no leftover helper symbols and no new symbols beyond those of the integrand and the variable; symbols other than the variable are treated as constants, whatever they and the variable are called.",
 ["inputs", "programs", "histories"], "all integrands the integrator can solve, over any variable, by any route through its search",
 "Tests check around fifty integrals against expected strings or structures; each strategy's preconditions meet integrands the tests never contain.",
 ["src/simpy/integration.py", "src/simpy/transforms.py", "src/simpy/integral_table.py"], [("search and back-substitution", "src/simpy/integration.py:Integration"), ("integration rewriting rules", "src/simpy/transforms.py"), ("table of integrals", "src/simpy/integral_table.py")])
prop("C12", "Definite integrals have the right value",
 "A definite integral over an interval on which the integrand is smooth equals the numerical value of the integral, for exact, floating-point and symbolic bounds (the variable of integration itself among them) and in every form in which bounds may be given. It changes sign when the bounds are swapped, vanishes for equal bounds, is additive over adjacent intervals and linear in the integrand whenever those integrals are solved.",
 ["inputs"], "all solvable integrands, all intervals of smoothness, exact or floating-point bounds",
 "Tests evaluate a few definite integrals.",
 ["src/simpy/integration.py"], [("bound evaluation", "src/simpy/integration.py:integrate")])
prop("C13", "Elementary integrals are always solved, and integration never crashes",
 "Elementary integrands are always integrated, for every choice of the rational constants, variable name and order of terms and with constant factors: polynomials and products of powers of linear terms, rational powers of linear terms, exponentials to any base, sine, cosine, tangent, cotangent and secant of linear arguments and squares of sin, cos, tan, sec, csc, powers and products of sine and cosine, sec*tan and csc*cot, logarithm and inverse trigonometric functions, reciprocals of linear and quadratic polynomials, polynomials over linear terms, 1/sqrt(a - b*x^2), roots of linear terms times powers, by-parts products of powers with exponentials, sine and cosine and of exponentials with sine and cosine, composites g(u)*u' with u a polynomial, sine, cosine, tangent or exponential, and sums of two of these; and likewise, except for quadratic expressions below a fraction bar and polynomials over linear terms, when the variable is multiplied throughout by a constant such as 2*pi, sqrt(2) or a symbol. For any integrand at all the integrator either returns an expression or reports that it cannot, stops at its time limit, and never raises.",
 ["inputs", "programs"], "parametric families of elementary integrands with arbitrary rational parameters, and arbitrary integrands for the never-raises part",
 "Tests solve one instance of each family with convenient constants.",
 ["src/simpy/integration.py", "src/simpy/transforms.py", "src/simpy/integral_table.py", "src/simpy/polynomial.py"], [("search", "src/simpy/integration.py:Integration._cycle"), ("heuristics and safe transforms", "src/simpy/transforms.py")])
prop("C14", "Each integration rewriting step is reversible and status-consistent",
 "Each single step of the integrator relates the integral it starts from to the integrals it produces by a valid rule: solving the produced integrals and undoing the step gives an antiderivative of the starting integrand, wherever and in whatever order steps are taken, and no produced integral mentions the variable that was substituted away. In the search tree a problem counts as solved exactly when enough of its alternatives or all of its parts are solved, and failed exactly when no alternative can succeed; a part that repeats an integral above it is failed; the solution put together from any solved tree is that of its parts.",
 ["inputs", "histories"], "every integrand on which a step applies, for every step kind; every tree shape and every order in which leaves are decided",
 "Tests run whole integrals and a couple of transforms; a wrong step is masked whenever another route solves the test integral.",
 ["src/simpy/transforms.py", "src/simpy/integration.py"], [("step forward / backward", "src/simpy/transforms.py:Transform.forward, Transform.backward"), ("tree bookkeeping", "src/simpy/transforms.py:Node")])
prop("C15", "The printed form denotes the expression",
 "The text printed for an expression, read with ordinary precedence (caret for powers, vertical bars for absolute value, unary minus, left-associative division), denotes an expression with the same value as the original, and re-entering that text yields an expression that prints the same (powers of rational numbers aside, into which entering may merge a constant factor). Expressions with different values never print alike, and printing never raises.",
 ["inputs", "programs"], "all finite expressions",
 "Tests compare about twenty printed forms; bracket omission depends on the shape of each operand.",
 [X], [("printing", X + ":*.__repr__, _repr")])
prop("C16", "The LaTeX output denotes the expression",
 "The LaTeX produced for an expression is syntactically well formed (balanced groups and delimiters) and, read with ordinary mathematical conventions, denotes an expression with the same value as the original. Producing it never raises for a finite expression.",
 ["inputs", "programs"], "all finite expressions",
 "Tests check a handful of LaTeX strings.",
 [X, "src/simpy/latex.py"], [("LaTeX output", X + ":*.latex"), ("bracketing helpers", "src/simpy/latex.py")])
prop("C17", "Pattern matches are sound and found regardless of order",
 "When an expression is reported to match a pattern with wildcards, filling the wildcards with the reported pieces rebuilds the expression (up to the reported common factor or leftover); a wildcard used twice stands for one expression, and the order of the two arguments does not matter. A pattern filled with arbitrary pieces is recognised in the basic shapes (function of a wildcard, power of a wildcard, constant multiple), and a pattern without wildcards matches exactly itself.",
 ["inputs"], "all patterns over the wildcards and all expressions built by filling them or chosen independently",
 "Tests try about ten pattern/expression pairs.",
 ["src/simpy/regex.py"], [("pattern matching", "src/simpy/regex.py:eq, any_, Any_")])
prop("C18", "Polynomial and linear-algebra helpers are exact",
 "Converting an expression to polynomial coefficients and back is exact and rejects non-polynomials; polynomial division returns quotient and remainder with dividend = quotient*divisor + remainder and remainder degree below the divisor's; partial fractions sum to the original fraction; completing the square and inverting a matrix are exact, singular matrices being rejected.",
 ["inputs"], "all univariate polynomials and rational functions with rational coefficients, all square rational matrices",
 "Tests try a few low-degree instances.",
 ["src/simpy/polynomial.py", "src/simpy/linalg.py", "src/simpy/transforms.py", "src/simpy/simplify/simplify.py"], [("coefficient conversion and factoring", "src/simpy/polynomial.py"), ("matrix inverse", "src/simpy/linalg.py"), ("division, partial fractions, completing the square", "src/simpy/transforms.py:PolynomialDivision, PartialFractions, CompleteTheSquare")])
prop("C19", "Combinatorial helpers enumerate and count exactly",
 "Enumerating the exponent tuples of a given length and total yields every tuple of non-negative integers with that total exactly once and nothing else, and the multinomial coefficient of each is the exact integer n!/(k1!...km!), for arguments of any size. Summed over the enumeration the coefficients give the length to the power of the total.",
 ["inputs"], "all lengths and totals; all part lists",
 "Tests check one or two small cases.",
 ["src/simpy/combinatorics.py"], [("enumeration and coefficients", "src/simpy/combinatorics.py")])
prop("C20", "Infinities and floating-point numbers follow extended real arithmetic",
 "Arithmetic that mixes exact numbers, floating-point numbers and positive or negative infinity follows the extended real line: determinate results have the right sign and magnitude, a float combined with an exact number gives the float result, division by zero gives infinity, and comparisons with infinities order correctly. Absolute value, negation and reciprocal of infinities are right.",
 ["inputs"], "all pairs of exact, float and infinite numbers under all operators",
 "Tests try a few combinations.",
 [X], [("number classes", X + ":Float, Infinity, NegInfinity, Rat"), ("accumulation", X + ":accumulate, _accumulate_power")])
prop("C21", "Targeted rewriters apply their identity exactly",
 "The rewriters offered on their own - expanding logarithms, Pythagorean simplification, reciprocal rewriting, product-to-sum and sum-to-product style trigonometric rewriting, and putting terms over a common form - return expressions with the same value wherever the original is defined, never raise, and leave alone what they do not recognise. Each achieves its documented effect on the plain instances of its identity, whatever the arguments and surrounding terms.",
 ["inputs", "programs"], "all expressions for the value part; all instances of each identity with arbitrary arguments and coefficients for the effect part",
 "Tests check one or two instances of each identity.",
 ["src/simpy/simplify/simplify.py", "src/simpy/simplify/product_to_sum.py"], [("rewriters", "src/simpy/simplify/simplify.py"), ("product to sum", "src/simpy/simplify/product_to_sum.py")])
prop("C22", "Structural queries, replacement and counting agree with the tree",
 "Questions about an expression - which symbols occur, whether a symbol or a kind of function occurs, how many times a sub-expression or symbol occurs, how deeply a variable is nested, whether a property holds everywhere or somewhere - agree with its tree. Replacing sub-expressions or function kinds changes exactly the occurrences, leaves none behind unless the replacement contains one, and gives an expression whose value is the original's with the piece revalued.",
 ["inputs", "programs"], "all expressions, all sub-expressions of them and foreign expressions as targets",
 "Tests ask a few questions of small expressions.",
 ["src/simpy/regex.py", X, "src/simpy/debug/utils.py"], [("queries and replacement", "src/simpy/regex.py:count, contains_cls, general_contains, general_count, replace, replace_class, replace_factory"), ("symbols, contains, nesting", X + ":Expr.symbols, Expr.contains, nesting")])
prop("C23", "Taking an expression apart loses nothing",
 "Splitting an expression gives parts that make it up again: numerator over denominator, constant factor times the rest, base to its exponent, the terms of a sum or the factors of a product as iterated. Numerator and denominator have no negative powers and no fractional coefficients and hold exactly the factors that belong there; the constant factor holds exactly the factors without symbols; the sign test and the integer test agree with the expression, an expression and its negation are never both counted as negative; a rational number's numerator, denominator, sign, reciprocal and absolute value are exact at any size.",
 ["inputs", "programs"], "all expressions, every sub-expression of them; all rational numbers",
 "Tests take a few simple quotients apart; the parts are used by every other component, where a wrong part shows only in a wrong overall answer.",
 [X], [("numerator and denominator", X + ":Prod.numerator_denominator, Rat.numerator, Rat.denominator"), ("constant factor, base and exponent", X + ":remove_const_factor, deconstruct_power"), ("sign", X + ":is_subtraction, Expr.__neg__, Rat.sign, Rat.reciprocal")])
prop("C24", "Every way of saying the same thing gives the same answer, and what is not a value is refused",
 "The same request in any of its spellings has the same result: Python ints, fractions and floats or the expressions for them; operators, constructors or library functions; methods or functions; positional or keyword arguments; the variable named or left out when only one symbol occurs; bounds as numbers or expressions. Where the variable is not determined and not named the request raises an error instead of guessing. None (such as the answer of an integral that could not be solved), strings, complex numbers, containers and other objects that are not numbers are refused with an error as operands, and never become part of an expression. Symbols made by name are equal exactly when the names are.",
 ["inputs", "programs"], "all expressions, all numbers, all spellings offered by the public interface",
 "Tests use one spelling for each request, and hardly ever a wrong operand.",
 ["src/simpy/__init__.py", X, "src/simpy/integration.py"], [("casting of operands and arguments", X + ":_cast, cast"), ("functions of the public interface", X + ":diff, symbols, sqrt, latex, log"), ("bounds and variable", "src/simpy/integration.py:integrate")])
prop("C25", "Answers are reproducible",
 "The same question always has the same answer, term for term and in the same printed form: in another run of the interpreter with any hash seed, with any state of the random number generator, in a fresh process as after any number of other questions. This covers construction, printing, expansion, factoring, simplification, differentiation, substitution, evaluation, matching and integration (as far as the search is not cut off by its time limit).",
 ["inputs", "histories", "schedules"], "all formulas and integrands; all hash seeds, random states and earlier computations of the process",
 "Tests run once, in one process, in one order; an answer that depends on the order of a set, on a random name or on a leftover of an earlier question passes them.",
 [X, "src/simpy/transforms.py", "src/simpy/integration.py", "src/simpy/regex.py", "src/simpy/utils.py"], [("names of intermediate variables and wildcards", "src/simpy/utils.py:random_id; src/simpy/transforms.py:generate_intermediate_var; src/simpy/regex.py:Any_"), ("canonical order of terms", X + ":Associative._sort_terms"), ("choice of the next step", "src/simpy/integration.py:Integration._cycle, _get_best_leaf")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
