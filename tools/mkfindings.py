"""Writes known_findings.txt from the list below and /repo's fix commits (author-time tool; no check runs it)."""
import subprocess

KNOWN = [
    "known: property=C11 id=F-TRIGSUB the antiderivative of a rational or root integrand whose quadratic has real roots, found by completing the square and substituting a sine, is real only in part of the integrand's domain, e.g. that of 1/(x^2+3*x+2) is not real at x=1 (factoring quadratics is an open TODO of the library)",
    "known: property=C12 id=F-TRIGSUB a definite integral evaluated through such an antiderivative is not real, e.g. that of 1/(x^2+3*x+2) over [1, 2] comes out as a difference of logarithms of non-real numbers",
    "known: property=C01 id=F-ATANCOT atan(cot(u)) is simplified to 1/u (true value pi/2 - u on the principal range); pinned by tests/test_exprs.py, which must pass unedited",
    "known: property=C02 id=F-NEGROOT a negative rational to an even-numerator odd-denominator power comes out negative, e.g. (-8)^(2/3) = -4 instead of 4; pinned by tests/test_exprs.py ((-3/2)^(-2/3) must be a subtraction)",
    "known: property=C17 id=F-EQFACTOR matching a query that is one term with its own constant up to a factor reports that constant instead of its inverse, e.g. eq(tan(x), 3*tan(any_), up_to_factor=True) gives factor 3 instead of 1/3; pinned by tests/test_regex.py, which must pass unedited",
]
P = {}
for line in open("/verif/tools/fixes.txt"):
    h, p = line.split()
    P[h] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = list(KNOWN)
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if h not in P:
            print("no property for", l)
            continue
        out.append("fixed: property=%s %s %s" % (P[h], h, s[5:]))
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
