"""C21: two-constraint OccBin paths satisfy the regimes actually in force"""
from pbt import models as M, occ
from pbt.harness import Part

PARTS = [
    Part('two', occ.cases(2), occ.decide, 'a constraint binds in some period and guess-and-verify settles; distinct by model shape, forms of the '
         'alternatives, thresholds, shocked variables', quick=600, thorough=9000),
    Part('attempts', occ.cases(2), occ.attempts, 'one guess, two, three and sixty per period; non-trivial: a constraint binds on the first guess and guess-and-verify settles', quick=150, thorough=2000),
    Part('larger', occ.cases(2, mixes=[m for m in M.MIXES + M.WIDE if 4 <= sum(m) <= 7], max_n=7, max_exog=3), occ.decide, 'four to seven variables besides the constrained ones; a constraint binds and guess-and-verify settles', quick=60, thorough=900),
]
