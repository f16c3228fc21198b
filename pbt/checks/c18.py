"""C18: variance decomposition shares are exact and complete"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut


@st.composite
def cases(draw, order=1, corr=False, **kw):
    spec = draw(M.planted(zero_var=True, corr=corr, **kw))
    n, ne = sum(spec['mix']), spec['ne']
    some = lambda k: draw(st.one_of(st.none(), st.lists(st.integers(0, k - 1), min_size=1, max_size=k, unique=True)))
    return dict(spec=spec, order=order, endog=some(n), stoch=some(ne), solved=draw(st.booleans()),
                one=draw(st.booleans()))


def decide(case):
    order = case['order']
    s = S.Solved(case['spec'], order)
    md, p = s.md if case['solved'] or order == 2 else s.fresh(), s.p
    n, ne = p.n, p.ne
    L = S.factor(s.sigma)
    parts = np.array([np.diag(S.variance(s.G, np.outer(s.H @ L[:, j], s.H @ L[:, j]))) for j in range(ne)]).T.reshape(n, ne)
    total = parts.sum(axis=1)
    live = total > 1e-10 * max(float(np.max(total, initial=0.)), 1e-6)
    with sut(f'variance decomposition\n{s.text}'):
        full = np.array(md.stats.var_decomp(), dtype=float)
    if full.shape != (n, ne):
        raise Violation(f'decomposition of shape {full.shape} for {n} variables and {ne} shocks')
    want = parts[live] / total[live][:, None]
    S.same(full[live], want, 1e-6, f'variance shares\n{s.text}')
    if live.any():
        if np.min(full[live]) < -1e-12 or np.max(full[live]) > 1 + 1e-12:
            raise Violation(f'share outside [0, 1]\n{full}\n{s.text}')
        if np.max(np.abs(full[live].sum(axis=1) - 1)) > 1e-9:
            raise Violation(f'shares do not sum to one\n{full}\n{s.text}')
    kw, rows, cols = {}, list(range(n)), list(range(ne))
    if case['endog'] is not None:
        rows = case['endog']
        kw['endog'] = [p.declared[i] for i in rows]
        if len(rows) == 1 and case['one']:
            kw['endog'] = kw['endog'][0]
    if case['stoch'] is not None and ne > 1:
        cols = case['stoch']
        kw['stoch'] = [p.enames[j] for j in cols]
        if len(cols) == 1 and case['one']:
            kw['stoch'] = kw['stoch'][0]
    if kw:
        with sut(f'variance decomposition for {kw}\n{s.text}'):
            part = np.array(md.stats.var_decomp(**kw), dtype=float)
        pick = full[np.ix_(rows, cols)]
        ok = np.isfinite(pick)
        if part.shape != pick.shape or not np.allclose(part[ok], pick[ok], rtol=0, atol=1e-12):
            raise Violation(f'decomposition for {kw}\n{part}\ninstead of\n{pick}\n{s.text}')
    return bool(live.any() and ne > 1 and np.sum(np.diag(s.sigma) > 0) > 1), f"{case['spec']['mix']}{ne}{case['spec']['T']}{case['spec']['H']}{kw}"


@st.composite
def scaled(draw):
    return dict(spec=draw(M.planted(corr=False, max_n=4)), k=draw(st.sampled_from([2, 3, 5, 0.1, 0.001, 1e-4, 1e-6, 1e3])), sd=draw(st.lists(st.integers(1, 20), min_size=6, max_size=6)))


def decide_scaled(case):
    """shares do not depend on the unit of the shocks"""
    p = M.Planted(case['spec'])
    f = M.build(p)
    out = []
    sd = np.array([v / 10 for v in case['sd'][:p.ne]])
    for k in (1, case['k']):
        f['shocks'] = [['stderr', nm, None, M.lit(v * k, 12)] for nm, v in zip(p.enames, sd)]
        text = M.text(f)
        md = M.load(f)
        with sut(f'variance decompositions\n{text}'), np.errstate(all='ignore'):
            G, H = M.policy(md, md.solve(order=1))
            out.append(np.array(md.stats.var_decomp(), dtype=float))
    parts = np.array([np.diag(S.variance(G, s * s * np.outer(H[:, j], H[:, j]))) for j, s in enumerate(sd)]).T.reshape(p.n, p.ne)
    v = parts.sum(axis=1)
    live = v > 1e-8 * max(float(np.max(v, initial=0.)), 1e-6)
    S.same(out[1][live], parts[live] / v[live][:, None], 1e-5, f'shares when shocks are scaled by {case["k"]}\n{text}')
    S.same(out[0][live], out[1][live], 1e-5, f'shares before and after all shocks are scaled by {case["k"]}\n{text}')
    return bool(live.any() and p.ne > 1), f"{case['spec']['mix']}{case['spec']['H']}{case['spec']['T']}{case['k']}"


@st.composite
def unknown(draw):
    return dict(spec=draw(M.planted(max_n=3, nonlinear=False)), how=draw(st.sampled_from(['endog', 'stoch'])), lst=draw(st.booleans()))


def decide_unknown(case):
    s = S.Solved(case['spec'], 1)
    name = s.p.enames[0] if case['how'] == 'endog' else s.p.names[0]
    try:
        s.md.stats.var_decomp(**{case['how']: [name] if case['lst'] else name})
    except Exception:
        return True, f"{case}"
    raise Violation(f'a decomposition for {case["how"]}={name!r} was returned\n{s.text}')


PARTS = [
    Part('shares', cases(max_exog=4), decide, 'two or more uncorrelated shocks with variance, at least one variable that moves; distinct by mix, roots, loadings, selection', quick=500, thorough=12000),
    Part('wide', cases(mixes=M.WIDE, max_n=14, max_exog=6, nonlinear=False), decide, 'linear models of seven to fourteen variables and up to six shocks', quick=96, thorough=1500),
    Part('correlated', cases(max_exog=4, corr=True, max_n=4), decide, 'correlated shocks, attributed in the order of the shocks (triangular factor of the covariance)', quick=150, thorough=3000),
    Part('second', cases(order=2, max_n=3), decide, 'a model solved at second order', quick=80, thorough=1500),
    Part('scaled', scaled(), decide_scaled, 'shocks scaled together by factors from 1e-6 to 1000, two or more shocks', quick=120, thorough=2500),
    Part('unknown', unknown(), decide_unknown, 'a name of the wrong kind is refused', quick=50, thorough=600),
]
