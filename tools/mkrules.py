"""Writes harness/rules.json: per property the deciding technique, level note, non-triviality rule and assumptions."""
import json

R = {}


def r(pid, technique, note, rule, assumptions=()):
    R[pid] = {"technique": technique, "level_note": note, "rule": rule, "assumptions": list(assumptions)}


PBT = "property-based testing (generated inputs, shrinking): "
r("C01", PBT + "generated and exhaustively enumerated small formulas against an independent real evaluator",
  "Generated-input search (Hypothesis, shrinking) plus every formula of a small scope; each node of each formula is evaluated by independent arithmetic (floats, mismatches re-decided at 60 digits) at six points. Trusts the reference evaluator and mpmath; principal-domain restrictions are listed in DESIGN.md.",
  "a case is non-trivial when its formula has at least 5 instructions (leaves included) and at least 6 (node, point) values were compared inside the domain",
  ["fractional powers and logarithms are checked where every multiplicative factor of their argument is positive",
   "inverse-of-trigonometric compositions are checked on the principal range",
   "a result whose magnitude exceeds 1e13 at a point is not compared there"])
r("C02", PBT + "exact rational arithmetic against Python fractions and integer roots as the reference model",
  "Generated-input search over rationals of up to hundreds of digits, structured near perfect powers, plus an exhaustive small scope of powers; the oracle is exact arithmetic on Python Fractions and integer root extraction.",
  "arithmetic: an operand is not an integer or exceeds 2^53; powers: base other than -1,0,1 with exponent other than 0,1; ordering: at least three distinct numbers",
  ["exponents are limited so that results stay below a few thousand digits", "negative bases under even-numerator exponents are known finding F-NEGROOT"])
r("C03", PBT + "metamorphic relations (permutations, groupings) and equality laws over generated sums and products",
  "Generated-input search: the same multiset of terms or factors is combined in many orders, groupings and through different operators and the results compared structurally; equality is compared with an independent structural serialisation, hash and reference values.",
  "at least three terms or factors (or five expressions / six equal-valued forms in the equality sub-checks)",
  ["numeric radicals (roots of rational numbers) are exempt from canonicity, as their simplification is documented to depend on grouping"])
r("C04", "stateful property-based testing (operation histories, snapshots of every live expression, fresh-rebuild comparison)",
  "Generated operation histories over a pool of expressions: after each operation every live expression is compared with a structural snapshot taken at its creation and its derived answers with those of an identical expression built afresh; includes every public operation of the library (simplify, integrate under a simulated clock, matching, replacement, printing).",
  "a history in which at least four operations were applied and returned (or at least four instructions for the repeat check)",
  ["integration runs under a simulated clock that expires after a fixed number of readings"])
r("C05", PBT + "reference model (exact polynomial arithmetic in normal form) and independent real evaluation",
  "Generated polynomials are expanded and compared coefficient by coefficient with an independent exact polynomial model; general formulas are compared by value; expandable()/expand() agreement and idempotence are checked on both.",
  "at least one point compared and (polynomials) at least three monomials in the normal form, (formulas) a sum inside the formula", [])
r("C06", PBT + "exact monomial model of the common factor, round trip through expansion, and independent real evaluation",
  "Generated sums of monomials over symbols, functions, roots and sums with planted common factors: value, round trip and extraction of the smallest shared power and shared coefficient are checked; sums from arbitrary formulas are checked by value.",
  "at least one point compared, more than one term, and a shared base or coefficient (monomials) or a changed form (formulas)",
  ["extraction clause relaxed to 'at least' when a term contains a sum as a factor, since what is left in brackets may combine further"])
r("C07", PBT + "value preservation of simplify() under an independent real evaluator, on formulas with planted identities",
  "Generated-input search over general formulas and over sums and products in which instances of trigonometric, logarithmic and algebraic identities are planted among random surroundings, for simplify() and each of its strategies; values at six points are compared with an independent evaluator of the input formula.",
  "the simplified expression differs from the input and at least one point was compared", ["inverse-of-trigonometric compositions are checked on the principal range"])
r("C08", PBT + "reference values of the trigonometric functions at exact rational multiples of pi, period and parity metamorphic relations",
  "Exhaustive over all multiples of pi/12 in many turns plus generated multiples of hundreds of digits; generated arguments for period/parity; compositions against their algebraic value in floats re-decided at 60 digits.",
  "multiples of pi: a non-zero multiple; period and parity: at least six values compared for an argument with a symbol; compositions: a value compared at a point inside the principal range", [])
r("C09", PBT + "forward-mode automatic differentiation of the input formula as the oracle, plus linearity and mixed-partial relations",
  "Generated formulas differentiated by the library and independently by dual-number evaluation at six points (mismatches re-decided at 60 digits); metamorphic relations of linearity, absent symbol and mixed partials.",
  "at least three points compared (linearity and mixed partials: six values) and a formula of at least four instructions",
  ["the derivative of abs() is checked where its argument is not 0"])
r("C10", PBT + "composition of formulas as the reference model of substitution, floats re-decided at 60 digits for evaluation",
  "Generated formulas and simultaneous substitutions (including symbol swaps, expressions containing other substituted symbols, floats): compared with evaluating the original under the composed assignment; evalf compared with direct evaluation.",
  "at least one substituted symbol occurs in a formula of at least three instructions and values were compared (disjoint steps: at least five instructions)", [])
r("C21", PBT + "value preservation and effect of each rewriter on planted identity instances",
  "Generated general formulas and planted instances of each rewriter's identity (random arguments, multiples, surroundings); independent evaluation at six points for value, and structural test of the documented effect.",
  "the rewriter changed the expression (or an instance was planted) and at least one point was compared", [])
r("C23", PBT + "putting the parts together again, and the multiset of factors read off the tree, as the oracle",
  "Generated formulas; each sub-expression is split in every way offered, the parts are put together by independent arithmetic at six points and compared factor by factor with the tree; rationals of up to 70 bits against Fraction.",
  "formulas: at least one product, four sub-expressions and six compared values; rationals: neither an integer nor of numerator +-1", [])
r("C24", PBT + "differential comparison of all spellings of one request, and must-raise cases",
  "Generated formulas written with Python numbers and with expressions, each public request in all its spellings (compared structurally), definite and indefinite integrals in all call forms over all integrand families, eleven kinds of non-values as operands of every operator and constructor.",
  "numbers: at least two instructions with a bare Python number; methods: a symbol and four nodes; integrals: solved; refused: at least two nodes; symbols: two names",
  ["a Fraction to the power of an expression is computed by Python's Fraction itself, through a float, and is left out"])
r("C25", PBT + "differential comparison of the answers given by three interpreters with different hash seeds, random states and histories",
  "Generated formulas and integrands; the answers to up to 40 questions on each are compared, as printed and as trees, between the checking process, a second interpreter with another hash seed and random state that repeats earlier questions in between, and a freshly forked one that has computed nothing before.",
  "formulas: at least 12 answers compared; integrals: solved and compared",
  ["integrals are bounded by search steps instead of wall time; those that run out of CPU time are left out"])
r("C18", PBT + "exact polynomial and matrix arithmetic on Fractions as the reference model, independent evaluation of the results",
  "Generated polynomials in many written shapes, non-polynomials, fractions, quadratics and 2x2 matrices; coefficients, quotients, remainders and inverses are compared exactly with a Fraction model, partial fractions and completed squares by value at rational points and by shape.",
  "conversion: at least three non-zero coefficients; arrays: trailing zeros present; division: quotient and divisor of degree at least one and two; fractions: split; square: a value compared; matrices: no zero entry or singular",
  ["matrix inversion supports 2x2 only (documented)", "roots of perfect squares are compared where the square's base is positive"])
r("C19", PBT + "exact integer arithmetic (products of binomials) as the reference model, plus Pascal's rule and exhaustive small scope",
  "Exhaustive over every length and total with at most 4000 (60000 in the thorough tier) tuples, generated exponent lists of up to 8 parts of up to 300, and powers of sums expanded with them.",
  "enumeration: length and total at least two; coefficients: at least two positive parts", [])
r("C20", "stateful property-based testing (arithmetic histories over exact, floating and infinite numbers against an extended-real reference model, shrinking)",
  "Every operation on every pair of a set of 30 numbers, generated histories of arithmetic, and generated comparisons; the model carries exact Fractions, floats with error bounds, and signed infinities; indeterminate forms are outside the domain.",
  "pairs: a determinate result; histories: at least three determinate operations; comparisons: at least three distinct numbers",
  ["indeterminate forms (inf - inf, 0*inf, 1^inf, ...) and results beyond 1e280 are outside the domain"])
r("C22", PBT + "independent walk over the expression tree as the reference model of queries, and revaluation of the tree as the model of replacement",
  "Generated formulas; every query is compared with an independent traversal of the node fields; replacements (of sub-expressions, function kinds, first-match and stopping variants) are compared by value with the original tree in which the piece is revalued, and for leftovers and untouched inputs.",
  "at least six (replacement of function kinds: five) nodes, and for replacements a value compared and something replaced",
  ["fractional powers and logarithms are compared where all factors of their argument are positive"])
r("C17", PBT + "filling the reported pieces back into the pattern and evaluating as the oracle, plus must-match families built by filling patterns",
  "Generated patterns with one or two wildcards against the same formula filled with pieces, against independent formulas, and sums of wildcard terms with common factors and extra terms in any order; each reported match is evaluated at six points with the pieces filled in; arguments swapped and repeated calls must agree; the basic shapes filled with arbitrary pieces must be found with exactly that piece.",
  "a match was reported for a pattern with wildcards and compared at two points at least (must-match shapes: at least four nodes; sums: extra terms or a factor; plain: six different pairs)",
  ["NotImplementedError (ambiguous pattern, or a pattern up to a sum that is no sum) is a documented refusal", "a common factor of several factors may go unrecognised (documented in the tests)"])
r("C15", PBT + "an independent parser of the printed text as the oracle (value of what is read, and what is entered again)",
  "Every binary operator over every ordered pair of about 95 operand shapes and every unary one (28 thousand expressions), plus generated formulas, their derivatives, expansions, negations, inverses and substitutions, floats and longer symbol names; the text is parsed with ordinary precedence and evaluated at six points against the expression's own value, and entered again through the operators it must print the same.",
  "systematic: at least three nodes and a value compared; formulas: at least four points compared and four nodes; re-entry: at least four nodes",
  ["symbols are not named like a function or constant", "entering a power of a rational number may merge a constant factor into it"])
r("C16", PBT + "an independent LaTeX reader as the oracle",
  "The same expressions as C15; the LaTeX is tokenised and parsed (single-token arguments, groups, delimiters in pairs, superscripts on the preceding atom) and evaluated at six points against the expression's own value.",
  "systematic: at least three nodes and a value compared; formulas: at least four points compared and four nodes",
  ["symbol names are written to LaTeX as they are; the reader knows the names"])
r("C11", PBT + "forward-mode differentiation of the returned tree against direct evaluation of the integrand formula as the oracle, with the search order itself randomised (heuristics shuffled, breadth first)",
  "Integrands from 36 parametric families and arbitrary products, sums and quotients of elementary pieces, over any variable name; the integrator runs with its clock replaced by a bound on search steps and CPU time; every answer is differentiated independently and compared with the integrand at up to three points (mismatches re-decided at 60 digits), and searched for foreign symbols, infinities and NaN.",
  "an antiderivative was returned and compared at one point at least",
  ["trigonometric arguments are sampled in the first quadrant: substitutions by trigonometric functions promise nothing elsewhere", "where the answer has no real value the point is inconclusive (finding F-TRIGSUB), except in the families that need no such substitution", "ln is read as ln|.|"])
r("C12", PBT + "Gauss-Legendre quadrature of the integrand formula as the oracle",
  "Integrands from 30 parametric families over intervals between 30 kinds of bounds (integers, fractions, floats, multiples of pi, roots, e, ln 2) on which two quadratures of different order agree; plain, swapped, equal, symbolic bounds (put in afterwards), across an intermediate point, and linear combinations of two integrands.",
  "the integral was solved, its value is real and compared, and is not 0 (or the bounds are equal)",
  ["intervals on which the integrand is smooth with trigonometric arguments in the first quadrant", "an answer without a real value is inconclusive (finding F-TRIGSUB) except in the families that need no substitution by a trigonometric function"])
r("C13", PBT + "the requirement to solve every member of parametric families as the oracle, and absence of exceptions for arbitrary integrands",
  "22 families with all rational parameters, orders of terms, constant factors, variable names and pairwise sums, depth-first and breadth-first, each answer checked as in C11; and arbitrary integrands (undifferentiable, variable powers, nested functions, absolute values, floats, no variable at all) which must give an expression or None within a bound on search steps.",
  "families: solved and compared at a point; arbitrary: solved, or at least three search steps taken",
  ["the 2 s limit is replaced by 60 search steps (8 s of CPU), respectively 8 steps", "powers of linear terms are not combined with other families (simplification multiplies them out next to products of sines)"])
r("C14", PBT + "a numerical stand-in relation for each step as the oracle (children solved by K*u with K the child's integrand at the corresponding point; the undone step must have the parent's integrand as derivative there), and a monotone-formula reference model for the status of search trees",
  "Every step of the trees of real searches, including failed branches, and steps taken in random order on random integrands; statuses of all nodes of those trees and of random trees whose leaves are decided one by one in random order; solutions carried up partially solved trees; repeated integrals.",
  "tree: at least three steps decided; walk: one; status: decided before the last leaf", 
  ["a step is decided only at points where all trigonometric arguments lie in the first quadrant"])
json.dump(R, open("/verif/harness/rules.json", "w"), indent=1)
