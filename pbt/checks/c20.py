"""C20: one-constraint OccBin paths satisfy the regime actually in force"""
from pbt import models as M, occ
from pbt.harness import Part

PARTS = [
    Part('one', occ.cases(1), occ.decide, 'the constraint binds in some period and guess-and-verify settles; distinct by model shape, form of the '
         'alternative, threshold, shocked variables', quick=600, thorough=9000),
    Part('small', occ.cases(1, max_n=1, max_exog=1), occ.decide, 'as above, one variable besides the constrained one', quick=200, thorough=3000),
    Part('attempts', occ.cases(1), occ.attempts, 'one guess, two, three and sixty per period; non-trivial: the constraint binds on the first guess and guess-and-verify settles', quick=150, thorough=2000),
    Part('larger', occ.cases(1, mixes=[m for m in M.MIXES + M.WIDE if 4 <= sum(m) <= 8], max_n=8, max_exog=3), occ.decide, 'four to eight variables besides the constrained one; the constraint binds and guess-and-verify settles', quick=60, thorough=900),
]
