"""C17: theoretical moments are those of the solved linear process"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut


@st.composite
def cases(draw, order=1, **kw):
    spec = draw(M.planted(zero_var=True, **kw))
    return dict(spec=spec, order=order, lags=draw(st.sampled_from([None, 1, 2, 3, 5, 8])), positional=draw(st.booleans()),
                solved=draw(st.sampled_from(['yes', 'yes', 'no', 'each'])) if order == 2 else 'yes',
                ask=draw(st.permutations(['var', 'std', 'cov', 'corr', 'autocov', 'autocorr', 'mean'])))


def decide(case):
    order = case['order']
    s = S.Solved(case['spec'], order)
    md = s.md
    ss = s.steady()
    n = s.p.n
    G, H, Q = s.G, s.H, s.sigma
    V = S.variance(G, H @ Q @ H.T)
    scale = np.sqrt(np.abs(np.diag(V)))
    top = float(np.max(scale, initial=0.))
    live = scale > 1e-5 * max(top, 1e-3)
    p = case['lags'] or 5
    got = {}
    with sut(f'moments at order {order}\n{s.text}'), np.errstate(all='ignore'):
        if case['solved'] == 'no':
            md = s.fresh()
        for a in case['ask']:
            if case['solved'] == 'each':
                md = s.fresh()
            f = getattr(md.stats, a)
            if a in ('autocov', 'autocorr') and case['lags'] is not None:
                r = f(p) if case['positional'] else f(p=p)
            else:
                r = f()
            got[a] = np.array(r, dtype=float)
    tol = 1e-7
    unit = max(top, 1e-3) ** 2
    S.same(got['cov'] / unit, V / unit, tol, f'covariance\n{s.text}')
    S.same(got['var'] / unit, np.diag(V) / unit, tol, f'variance\n{s.text}')
    S.same(got['std'][live] / scale[live], np.ones(live.sum()), 1e-4, f'standard deviations (relative)\n{s.text}')
    S.same(got['std'][live], np.sqrt(got['var'][live]), 1e-9, f'standard deviation against variance\n{s.text}')
    if got['corr'].shape != (n, n) or got['std'].shape != (n,) or got['mean'].shape != (n,):
        raise Violation('shape of a table')
    lv = np.ix_(live, live)
    C = V[lv] / np.outer(scale[live], scale[live])
    S.same(got['corr'][lv], C, 1e-4, f'correlation\n{s.text}')
    if live.any() and (np.max(np.abs(np.diag(got['corr'][lv]) - 1)) > 1e-9 or np.max(np.abs(got['corr'][lv])) > 1 + 1e-9):
        raise Violation(f'correlations outside [-1, 1] or a diagonal other than one\n{got["corr"]}\n{s.text}')
    if got['autocov'].shape != (p, n, n) or got['autocorr'].shape != (p, n, n):
        raise Violation(f'{p} lags give tables of shape {got["autocov"].shape}, {got["autocorr"].shape}')
    A = V
    for k in range(p):
        A = G @ A
        S.same(got['autocov'][k] / unit, A / unit, tol, f'autocovariance at lag {k + 1}\n{s.text}')
        S.same(got['autocorr'][k][lv], A[lv] / np.outer(scale[live], scale[live]), 1e-4, f'autocorrelation at lag {k + 1}\n{s.text}')
    with sut(f'the transition of the state variables\n{s.text}'):
        idx, nm = md.indexes, [str(x) for x in md.endog.names]
        has = {str(x) for x in md.state_vars.names} if len(md.state_vars) else set()
        at = [int(i) for i in idx.dr_order if nm[int(i)] in has]
        if at:
            sv = np.array(md.statespace.sigma, dtype=float)
            tr, im = (np.array(x, dtype=float) for x in md.statespace.kalman_transition)
    if at:
        ss_ = np.ix_(at, at)
        S.same(sv / unit, V[ss_] / unit, tol, f'covariance of the state variables\n{s.text}')
        S.same(tr, G[ss_], 1e-8, f'transition of the state variables\n{s.text}')
        S.same(im.reshape(len(at), -1), H[at].reshape(len(at), -1), 1e-8, f'impact of the shocks on the state variables\n{s.text}')
    if order == 1:
        S.same(got['mean'], ss, 1e-12, f'mean at first order\n{s.text}')
        Gw, Hw = s.Gw, s.Hw
        Vw = S.variance(Gw, Hw @ Q @ Hw.T)
        S.same(got['cov'] / unit, Vw / unit, 1e-3, f'covariance against the planted solution\n{s.text}')
        curved = True
    else:
        Gxx, Gxu, Guu, Gss = s.T2
        k = 0.5 * (Gss + np.einsum('iab,ab->i', Gxx, V) + np.einsum('iab,ab->i', Guu, Q))
        shift = np.linalg.solve(np.eye(n) - G, k)
        S.same(got['mean'], ss + shift, 1e-7, f'mean at second order\n{s.text}')
        curved = bool(np.max(np.abs(shift)) > 1e-6)
    off = bool(live.sum() > 1) or n == 1
    return bool(live.any() and off and curved), f"{case['spec']['mix']}{s.p.ne}{s.p.perm}{case['spec']['T']}{p}{case['ask'][:2]}"


@st.composite
def scaled(draw):
    return dict(spec=draw(M.planted(max_n=4, corr=False)), unit=draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e3])), sd=draw(st.lists(st.integers(1, 20), min_size=6, max_size=6)))


def decide_scaled(case):
    """shocks far smaller or larger than one: covariances scale with them, correlations do not change"""
    p = M.Planted(case['spec'])
    f = M.build(p)
    sd = [v / 10 * case['unit'] for v in case['sd'][:p.ne]]
    f['shocks'] = [['stderr', nm, None, M.lit(v, 12)] for nm, v in zip(p.enames, sd)]
    text = M.text(f)
    md = M.load(f)
    with sut(f'solving and moments\n{text}'), np.errstate(all='ignore'):
        G, H = M.policy(md, md.solve(order=1))
        got = {k: np.array(getattr(md.stats, k)(), dtype=float) for k in ('cov', 'var', 'std', 'corr', 'autocorr', 'autocov')}
    V = S.variance(G, H @ np.diag(np.square(sd)) @ H.T)
    unit = max(float(np.max(np.diag(V), initial=0.)), (case['unit'] * 1e-3) ** 2)
    live = np.diag(V) > 1e-8 * unit
    lv = np.ix_(live, live)
    dev = np.sqrt(np.abs(np.diag(V)))
    S.same(got['cov'] / unit, V / unit, 1e-7, f'covariance of shocks of size {case["unit"]}\n{text}')
    S.same(got['var'] / unit, np.diag(V) / unit, 1e-7, f'variance of shocks of size {case["unit"]}\n{text}')
    S.same(got['std'][live] / dev[live], np.ones(live.sum()), 1e-5, f'standard deviation of shocks of size {case["unit"]}\n{text}')
    S.same(got['corr'][lv], V[lv] / np.outer(dev[live], dev[live]), 1e-5, f'correlation under shocks of size {case["unit"]}\n{text}')
    A = V
    for k in range(len(got['autocov'])):
        A = G @ A
        S.same(got['autocov'][k] / unit, A / unit, 1e-7, f'autocovariance of shocks of size {case["unit"]}\n{text}')
        S.same(got['autocorr'][k][lv], A[lv] / np.outer(dev[live], dev[live]), 1e-5, f'autocorrelation under shocks of size {case["unit"]}\n{text}')
    return bool(live.sum() > 1), f"{case['spec']['mix']}{case['unit']}{case['spec']['T']}{sd}"


PARTS = [
    Part('scaled', scaled(), decide_scaled, 'two moving variables under shocks with standard deviations from 1e-7 to 2000', quick=160, thorough=3000),
    Part('first', cases(order=1), decide, 'model with at least two variables that move (or of one variable that does); distinct by mix, order, roots, lags', quick=500, thorough=12000),
    Part('second', cases(order=2, max_n=4, quad=5), decide, 'second-order model whose mean differs from its steady state', quick=250, thorough=5000),
    Part('small', cases(order=1, max_n=2, min_exog=0, max_exog=2), decide, 'one or two variables', quick=150, thorough=2500),
    Part('wide', cases(order=1, mixes=M.WIDE, max_n=14, max_exog=6, nonlinear=False), decide, 'linear models of seven to fourteen variables and up to six shocks', quick=96, thorough=1500),
]
