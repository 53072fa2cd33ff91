"""C16: the LaTeX, read with ordinary conventions, denotes the expression."""
from ..common import *
from ..engine import Sub
from .c15 import P, P_A, check, check_systematic, dec, show_case, strat, systematic


def check_latex(case, rec):
    check(case, rec, form="latex")


def check_sys(case, rec):
    check_systematic(case, rec, form="latex")


SUBS = [
    Sub("systematic", check_sys, None, None, cases=systematic, show=show_case),
    Sub("formulas", check_latex, strat(P), dec(P), quick=7000, show=show_case),
    Sub("algebra", check_latex, strat(P_A), dec(P_A), quick=7000, show=show_case),
]
