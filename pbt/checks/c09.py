"""C09: the first-order solution solves the linearized model and is stable"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M
from pbt.harness import Part, Violation, Skip, sut

ASSUMPTIONS = ['models have planted solutions: coefficients are exact decimals, roots at least 0.05 away from the unit circle']


def decide(spec):
    p = M.Planted(spec)
    f = M.build(p)
    md = M.load(f)
    with sut('solving a determinate model\n' + M.text(f)):
        sol = md.solve(order=1)
    G, H = M.policy(md, sol)
    A, B, C = (Z[:, p.perm] for Z in (p.A, p.B, p.C))
    r = M.linear_residual(A, B, C, p.D, G, H)
    if not r < 1e-7:
        raise Violation(f'linearized equations not solved: residual {r:.2e}\n{M.text(f)}gy=\n{G}\ngu=\n{H}')
    rho = max(np.abs(np.linalg.eigvals(G)), default=0.)
    if rho > 1 + 1e-6:
        raise Violation(f'unstable transition: modulus {rho}\n{M.text(f)}')
    # reported state labels: everything that is not a reported state must have no lagged effect
    nb = len(p.back)
    cplx = any(len(b) == 2 for b in spec['T'] + spec['S'])
    return p.n > 1 or nb > 0, f"{spec['mix']}{p.ne}{cplx}{[len(p.back), len(p.fwd)]}{hash(tuple(map(tuple, spec['T'] + spec['S'])))}"


ONE = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]
PARTS = [
    Part('linear', M.planted(nonlinear=False), decide, 'linear model with at least two variables or a lag; distinct by variable mix, shocks and roots', quick=900, thorough=20000),
    Part('nonlinear', M.planted(), decide, 'nonlinear model with at least two variables or a lag; distinct by variable mix, shocks and roots', quick=900, thorough=20000),
    Part('noshock', M.planted(min_exog=0, max_exog=0), decide, 'model without shocks', quick=200, thorough=4000),
    Part('single', M.planted(mixes=ONE, max_n=1), decide, 'one-variable model', quick=200, thorough=3000),
    Part('larger', M.planted(max_n=6, max_exog=4), decide, 'up to six variables and four shocks', quick=300, thorough=8000),
    Part('wide', M.planted(mixes=M.WIDE, max_n=14, max_exog=6, nonlinear=False), decide, 'linear models of seven to fourteen variables and up to six shocks', quick=160, thorough=2500),
]
