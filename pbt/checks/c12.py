"""C12: the second-order solution solves the second-order approximation"""
import numpy as np
from pbt import models as M
from pbt.harness import Part, Violation, Skip, sut


def decide(spec):
    p = M.Planted(spec)
    f = M.build(p)
    V, J, Hs = M.expand_planted(p, f)
    md = M.load(f)
    with sut('second-order solution of a determinate model\n' + M.text(f)):
        sol = md.solve(order=2)
        low = sol.lower_solution
    G, H = M.policy(md, low)
    Gw, Hw = p.ordered(p.G), p.H[p.perm]
    if not (M.near(G, Gw, 1e-5) and M.near(H, Hw, 1e-5)):
        raise Violation(f'first-order part of the second-order solution is wrong\n{M.text(f)}')
    T = M.second_policy(md, sol)
    r = M.second_residual(J, Hs, p.sigma(), Gw, Hw, *T)
    if not r < 1e-6:
        raise Violation(f'second-order terms do not vanish: residual {r:.2e}\n{M.text(f)}')
    lin = not np.any(Hs)
    if lin and not all(np.all(np.abs(t) < 1e-8) for t in T):
        raise Violation(f'linear model has nonzero second-order coefficients\n{M.text(f)}')
    big = any(np.max(np.abs(t), initial=0.) > 1e-6 for t in T)
    return big, f"{spec['mix']}{p.ne}{spec['tr']}{spec['etr']}{len(spec['quad'])}{hash(tuple(map(tuple, spec['T'] + spec['S'])))}"


PARTS = [
    Part('nonlinear', M.planted(quad=5), decide, 'model with a nonzero second-order coefficient; distinct by variable mix, transforms and roots', quick=900, thorough=20000),
    Part('linear', M.planted(nonlinear=False), decide, 'linear model: all second-order coefficients must be zero (counted only if one is not)', quick=100, thorough=1500),
    Part('larger', M.planted(max_n=6, max_exog=4, quad=6), decide, 'up to six variables and four shocks, with a nonzero second-order coefficient', quick=200, thorough=5000),
    Part('wide', M.planted(mixes=M.WIDE, max_n=9, max_exog=4, quad=12), decide, 'seven to nine variables, with a nonzero second-order coefficient', quick=64, thorough=900),
]
