"""C32 - the linear solver is exact."""
from ..ctx import *
from . import scheme as S
from . import solver

RULE = ("The loops of span_coefs keep an invariant of Gauss-Jordan elimination: the system is the given rows with a target of ones; each step "
        "takes a non-zero entry of an unused row as pivot whenever the column has one, and replaces every other row by the row minus its entry times "
        "the pivot row divided by the pivot, in every column; elimination ends only after the last column or row; no coefficients are returned "
        "exactly when the target column held a pivot; otherwise there is one coefficient per row, the target of the equation whose pivot is in that "
        "column, or zero; and no operation of the loops can fail in such a state.")
ASSUME = ["the matrix given is rectangular (C03: rows of one access structure)", "scalars are a field (C01, C02)"]
TECHNIQUE = "inductive-invariant analysis of the solver's loops over MIR: closed forms of the array cells one iteration writes, compared with the row operation by a linear-arithmetic normaliser"
LEVEL = ("every iteration from an arbitrary state satisfying the invariant, hence every matrix and every sequence of pivots; the step from the invariant "
         "to the solution is the textbook argument given in vf/props/solver.py")


def check(ctx):
    S.init(ctx)
    ctx.guard("linear solver", solver.check, ctx)
