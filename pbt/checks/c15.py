"""C15: second-order simulation follows the second-order policy rule"""
import numpy as np
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut
from pbt.checks.c14 import cases, run


def decide(case):
    s, z, ss, init, paths = run(case, 2, unit=0.02)
    sp = case['spec']
    innov = z @ S.factor(s.sigma).T
    first = S.path(ss, s.G, s.H, init, innov)
    curved = bool(len(z) > 1 and np.max(np.abs(paths - first)) > 1e-7)
    return curved, f"{sp['mix']}{sp['ne']}{case['init']}{sp['perm']}{len(z)}{case['shocks']}"


def decide_linear(case):
    s, z, ss, init, paths = run(case, 2)
    innov = z @ S.factor(s.sigma).T
    S.same(paths, S.path(ss, s.G, s.H, init, innov), 1e-7, f'second-order path of a linear model\n{s.text}')
    kw = {} if case['init'] == 'none' else {'init': init}
    with sut('first-order simulation'):
        one = np.array(s.md.simulate(shocks=z, order=1, **kw).paths, dtype=float)
    S.same(paths, one, 1e-7, f'second-order against first-order simulation of a linear model\n{s.text}')
    sp = case['spec']
    moved = bool(np.max(np.abs(paths[1:] - ss), initial=0.) > 1e-9)
    return moved, f"{sp['mix']}{sp['ne']}{case['init']}{sp['perm']}{len(z)}{case['shocks']}"


PARTS = [
    Part('rule', cases(quad=5), decide, 'path that differs from the first-order path; distinct by mix, order of declaration and shocks', quick=500, thorough=10000),
    Part('small', cases(max_n=2, min_exog=0, max_exog=2, quad=4), decide, 'one or two variables, none to two shocks; path that differs from the first-order path', quick=250, thorough=4000),
    Part('linear', cases(nonlinear=False, max_n=4, min_exog=0), decide_linear, 'path of a linear model that leaves the steady state', quick=120, thorough=2000),
    Part('wide', cases(mixes=M.WIDE, max_n=9, max_exog=4, quad=10), decide, 'seven to nine variables; path that differs from the first-order path', quick=40, thorough=600),
]
