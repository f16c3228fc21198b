"""C16: impulse responses trace one shock from the steady state"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut


@st.composite
def cases(draw, order=1, **kw):
    spec = draw(M.planted(zero_var=True, **kw))
    ne = spec['ne']
    which = draw(st.one_of(st.none(), st.integers(0, ne - 1), st.lists(st.integers(0, ne - 1), min_size=1, max_size=ne, unique=True)))
    return dict(spec=spec, which=which, periods=draw(st.sampled_from([6, 3, 2, 1, 9, 20, None])), order=order,
                size=draw(st.sampled_from([None, 1, 2, -1, 0.5, -0.25, 3, 0])), unsolved=draw(st.integers(0, 3)) == 0)


def decide(case):
    order = case['order']
    s = S.Solved(case['spec'], order)
    md, p = s.md, s.p
    ss = s.steady()
    ne = p.ne
    w = case['which']
    kw = {}
    if w is not None:
        kw['exog'] = p.enames[w] if isinstance(w, int) else [p.enames[k] for k in w]
    if case['periods'] is not None:
        kw['periods'] = case['periods']
    if case['size'] is not None:
        kw['size'] = case['size']
    T = 20 if case['periods'] is None else case['periods']
    size = 1 if case['size'] is None else case['size']
    with sut(f'impulse response {kw}\n{s.text}'):
        r = md.impulse_response(**kw)
        got = np.array(r.impulse, dtype=float)
        n_periods = r.periods
    if n_periods != T:
        raise Violation(f'impulse response over {n_periods} periods instead of {T}')
    hit = [0] if w is None else [w] if isinstance(w, int) else w
    z = np.zeros((T, ne))
    z[0, hit] = size
    if order == 2:
        z *= 1.
    innov = z @ S.factor(s.sigma).T
    want = S.path(ss, s.G, s.H, ss, innov, s.T2) - ss
    S.same(got, want, 1e-9, f'impulse response {kw} at order {order}\n{s.text}')
    if order == 1:
        planted = S.path(s.ss, s.Gw, s.Hw, s.ss, innov) - s.ss
        S.same(got, planted, 1e-4, f'impulse response {kw} against the planted solution\n{s.text}')
        with sut('impulse response of twice the size'):
            twice = np.array(md.impulse_response(**{**kw, 'size': 2 * size}).impulse, dtype=float)
        S.same(twice, 2 * got, 1e-9, f'impulse response of twice the size\n{s.text}')
    moved = bool(np.max(np.abs(got), initial=0.) > 1e-9) and T > 2
    return moved, f"{case['spec']['mix']}{ne}{w}{T}{size}{case['spec']['H']}"


@st.composite
def unknown(draw):
    return dict(spec=draw(M.planted(max_n=3, nonlinear=False)), how=draw(st.sampled_from(['endog', 'fresh', 'list'])))


def decide_unknown(case):
    s = S.Solved(case['spec'], 1)
    name = s.p.names[0] if case['how'] == 'endog' else 'nosuchshock'
    arg = [s.p.enames[0], name] if case['how'] == 'list' else name
    try:
        s.md.impulse_response(exog=arg)
    except Exception:
        return True, f"{case['how']}{s.p.names}{s.p.enames}{case['spec']['mix']}"
    raise Violation(f'an impulse response to {arg!r} was returned\n{s.text}')


PARTS = [
    Part('first', cases(order=1), decide, 'first-order response over three or more periods that is not zero; distinct by mix, shocks hit, horizon, size', quick=600, thorough=14000),
    Part('second', cases(order=2, max_n=4, quad=4), decide, 'second-order response that is not zero', quick=200, thorough=4000),
    Part('wide', cases(order=1, mixes=M.WIDE, max_n=14, max_exog=6, nonlinear=False), decide, 'linear models of seven to fourteen variables and up to six shocks', quick=96, thorough=1500),
    Part('unknown', unknown(), decide_unknown, 'a name that is not a shock of the model', quick=60, thorough=800),
]
