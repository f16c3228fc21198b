"""C10: results depend on the model, not on how it is written down"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut

FRESH = ['alpha', 'zz', 'B', 'b', 'ab', 'a_b', 'x', 'y', 'k1', 'k', 'm', 'Zed', 'lam', 'pi_t', 'n0', 'e1', 'shock', 'eta', 'xx', 'X', 'qq', 'r', 'rr', 'g', 't1',
         'u', 'v', 'w', 'v_', 'h', 'hh', 'U']


def walk(t, ren):
    if t[0] == 'v':
        return ['v', ren.get(t[1], t[1])]
    if t[0] == 'p':
        return ['p', ren.get(t[1], t[1]), t[2]]
    if t[0] == 'n':
        return t
    return [t[0], t[1]] + [walk(x, ren) for x in t[2:]]


def perm_of(draw, k):
    return draw(st.permutations(range(k)))


@st.composite
def cases(draw, order=1, **kw):
    spec = draw(M.planted(**kw))
    n, ne = sum(spec['mix']), spec['ne']
    return dict(spec=spec, order=order, eq=perm_of(draw, n), endog=perm_of(draw, n), exog=perm_of(draw, ne),
                pseed=draw(st.integers(0, 5)), names=draw(st.one_of(st.none(), st.permutations(FRESH))),
                forms=draw(st.lists(st.tuples(st.sampled_from(['keep', 'swap', 'left', 'right', 'scale', 'scale']),
                                              st.sampled_from(['2', '-3', '0.5', '10', '-0.1', '-1', '7', '0.0001', '10000', '-0.0003'])), min_size=n, max_size=n)))


def rewrite(f, case):
    """(new file, new name of each old name)"""
    old = list(f['endog']) + list(f['exog']) + [k for k, v in f['params']]
    ren = {}
    if case['names']:
        ren = dict(zip(old, case['names']))
    nm = lambda x: ren.get(x, x)
    eqs = []
    for (lhs, rhs), (form, c) in zip(f['eqs'], case['forms']):
        lhs, rhs = walk(lhs, ren), (walk(rhs, ren) if rhs is not None else None)
        zero = ['n', '0']
        full = lhs if rhs is None else ['b', '-', lhs, rhs]
        k = ['u', '-', ['n', c[1:]]] if c[0] == '-' else ['n', c]
        if form == 'swap':
            lhs, rhs = (rhs if rhs is not None else zero), lhs
        elif form == 'left':
            lhs, rhs = full, None
        elif form == 'right':
            lhs, rhs = zero, ['b', '-', rhs if rhs is not None else zero, lhs]
        elif form == 'scale':
            lhs, rhs = ['b', '*', k, lhs], (['b', '*', rhs, k] if rhs is not None else None)
        eqs.append([lhs, rhs])
    params = [[nm(k), walk(v, ren)] for k, v in f['params']]
    m = len(params)
    if m:
        s = case['pseed'] % m
        params = params[s:] + params[:s]
        if case['pseed'] > 2:
            params.reverse()
    return dict(endog=[nm(f['endog'][i]) for i in case['endog']], exog=[nm(f['exog'][j]) for j in case['exog']],
                params=params, locals=[], eqs=[eqs[i] for i in case['eq']],
                init=[[nm(k), v] for k, v in f['init']][::-1 if case['pseed'] % 2 else 1],
                shocks=[[a, nm(b), nm(c) if c is not None else None, v] for a, b, c, v in f['shocks']]), ren


def results(f, order, correlated):
    md = M.load(f)
    n, ne = len(f['endog']), len(f['exog'])
    with sut(f'results of\n{M.text(f)}'), np.errstate(all='ignore'):
        sol = md.solve(order=order)
        low = sol if order == 1 else sol.lower_solution
        out = dict(ss=np.array(md.ss.values, dtype=float), sigma=np.array(md.sigma, dtype=float).reshape(ne, ne))
        eig = np.absolute(np.array(md.statespace.eigen, dtype=complex))
        for a in ('mean', 'var', 'cov', 'corr'):
            out[a] = np.array(getattr(md.stats, a)(), dtype=float)
        out['autocov'] = np.moveaxis(np.array(md.stats.autocov(p=3), dtype=float), 0, 2)
        if not correlated:
            out['decomp'] = np.array(md.stats.var_decomp(), dtype=float)
            out['irf'] = np.stack([np.array(md.impulse_response(exog=e, periods=5).impulse, dtype=float).T for e in f['exog']], axis=1)
    out['gy'], out['gu'] = M.policy(md, low)
    if order == 2:
        out['gxx'], out['gxu'], out['guu'], out['gss'] = M.second_policy(md, sol)
    groups = {}
    with sut('reading the variable groups'):
        for g in ('static_vars', 'pure_backward_vars', 'mixed_vars', 'pure_forward_vars', 'state_vars'):
            groups[g] = {str(v.name) for v in getattr(md, g)}
    return out, np.sort(eig), groups


AXES = dict(ss='y', sigma='ee', mean='y', var='y', cov='yy', corr='yy', autocov='yy.', decomp='ye', irf='ye.', gy='yy', gu='ye',
            gxx='yyy', gxu='yye', guu='yee', gss='y')


def decide(case):
    p = M.Planted(case['spec'])
    f = M.build(p)
    f2, ren = rewrite(f, case)
    correlated = any(s[0] in ('corr', 'cov') for s in f['shocks'])
    order = case['order']
    a, ea, ga = results(f, order, correlated)
    b, eb, gb = results(f2, order, correlated)
    texts = f'{M.text(f)}--- and\n{M.text(f2)}'
    nm = lambda x: ren.get(x, x)
    for g in ga:
        if {nm(x) for x in ga[g]} != gb[g]:
            raise Violation(f'{g} are {ga[g]} and {gb[g]} in\n{texts}')
    fin = lambda e: e[np.isfinite(e) & (e < 1e6)]
    if len(ea) != len(eb) or len(fin(ea)) != len(fin(eb)) or (len(fin(ea)) and np.max(np.abs(fin(ea) - fin(eb)) / (1 + fin(ea))) > 2e-2):
        raise Violation(f'moduli of the eigenvalues are {ea} and {eb} in\n{texts}')
    yi = [f2['endog'].index(nm(v)) for v in f['endog']]
    ei = [f2['exog'].index(nm(v)) for v in f['exog']]
    live = a['var'] > 1e-8 * max(float(np.max(a['var'], initial=0.)), 1e-4)
    for k, ax in AXES.items():
        if k not in a:
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            raise Violation(f'{k} has shapes {x.shape} and {y.shape} in\n{texts}')
        for d, c in enumerate(ax):
            if c != '.':
                y = np.take(y, yi if c == 'y' else ei, axis=d)
        if k == 'corr':
            x, y = x[np.ix_(live, live)], y[np.ix_(live, live)]
        if k == 'decomp':
            x, y = x[live], y[live]
        scale = 1 + float(np.max(np.abs(x), initial=0.))
        tol = {'ss': 1e-7, 'sigma': 1e-12}.get(k, 1e-5)
        if not np.all(np.abs(x - y) <= tol * scale):
            raise Violation(f'{k} is\n{x}\nand (same variables)\n{y}\nin\n{texts}')
    moved = case['eq'] != sorted(case['eq']) or case['endog'] != sorted(case['endog']) or bool(case['names']) \
        or case['exog'] != sorted(case['exog']) or any(fm != 'keep' for fm, c in case['forms'])
    return p.n > 1 and moved, f"{case['spec']['mix']}{p.ne}{case['spec']['T']}{case['eq']}{case['endog']}{case['forms']}{case['names'] is None}"


PARTS = [
    Part('first', cases(order=1), decide, 'a model of two or more variables and a different way of writing it; distinct by mix, roots, orders and forms', quick=400, thorough=9000),
    Part('wide', cases(order=1, mixes=M.WIDE, max_n=14, nonlinear=False), decide, 'linear models of seven to fourteen variables', quick=64, thorough=1200),
    Part('second', cases(order=2, max_n=4, corr=False), decide, 'as above, second order', quick=200, thorough=4000),
    Part('uncorrelated', cases(order=1, corr=False, max_exog=4, max_n=4), decide, 'as above, with impulse responses and variance decomposition for every shock', quick=250, thorough=5000),
]
