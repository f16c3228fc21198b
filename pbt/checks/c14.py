"""C14: first-order simulation follows the linear policy rule"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut

ORDER = 1


def cases(order_linear=True, **kw):
    @st.composite
    def strat(draw):
        spec = draw(M.planted(zero_var=True, **kw))
        n, ne = sum(spec['mix']), spec['ne']
        T = draw(st.sampled_from([3, 4, 5, 6, 7, 8, 2, 1]))
        tenth = lambda m: draw(st.lists(st.integers(-20, 20), min_size=m, max_size=m))
        return dict(spec=spec, shocks=[tenth(ne) for _ in range(T)],
                    init=draw(st.sampled_from(['none', 'array', 'list', 'zero'])), dev=tenth(n),
                    how=draw(st.sampled_from(['solved', 'order', 'default'])), flat=draw(st.booleans()))
    return strat()


def run(case, order, unit=0.1):
    s = S.Solved(case['spec'], order)
    md, ne = s.md, s.p.ne
    ss = s.steady()
    z = np.array(case['shocks'], dtype=float).reshape(len(case['shocks']), ne) * unit
    arg = z[:, 0].copy() if ne == 1 and case['flat'] else z.copy()
    kw = {}
    init = ss
    if case['init'] != 'none':
        init = s.ss + np.array(case['dev'], dtype=float) * unit
        if case['init'] == 'zero':                      # zeros are values like any others
            init = np.zeros(len(s.ss))
        kw['init'] = init.copy() if case['init'] in ('array', 'zero') else [float(v) for v in init]
    if case['how'] == 'order':
        kw['order'] = order
    keep = arg.copy()
    with sut(f'simulating at order {order}\n{s.text}'):
        r = md.simulate(shocks=arg, **kw)
        paths, used = np.array(r.paths, dtype=float), np.array(r.shocks, dtype=float)
    if not np.array_equal(arg, keep):
        raise Violation('simulate changed the shock paths it was given')
    if 'init' in kw and not np.array_equal(np.asarray(kw['init']), init):
        raise Violation('simulate changed the initial values it was given')
    L = S.factor(s.sigma)
    innov = z @ L.T
    S.same(used, innov, 1e-9, f'innovations of the simulation\n{s.text}')
    own = S.path(ss, s.G, s.H, init, innov, s.T2)
    S.same(paths, own, 1e-9, f'simulated path at order {order}\n{s.text}')
    with sut('simulating again'):
        again = np.array(md.simulate(shocks=keep, **kw).paths, dtype=float)
    if not np.array_equal(again, paths):
        raise Violation(f'the same simulation run twice differs\n{s.text}')
    return s, z, ss, init, paths


def decide(case):
    s, z, ss, init, paths = run(case, 1)
    L = S.factor(s.sigma)
    S.same(paths, S.path(s.ss, s.Gw, s.Hw, init, z @ L.T), 1e-4, f'simulated path against the planted solution\n{s.text}')
    with sut('simulating without shocks'):
        still = np.array(s.md.simulate(shocks=np.zeros((3, s.p.ne))).paths, dtype=float)
    S.same(still, np.tile(ss, (3, 1)), 1e-10, f'zero shocks from the steady state\n{s.text}')
    moved = bool(np.max(np.abs(paths[1:] - ss), initial=0.) > 1e-9)
    sp = case['spec']
    return moved and len(z) > 2, f"{sp['mix']}{sp['ne']}{case['init']}{sp['perm']}{len(z)}{case['shocks']}"


# ----------------------------------------------------------------------------------- far below the size of the steady state
@st.composite
def minute(draw):
    return dict(spec=draw(M.planted(max_n=4, zero_var=False)), unit=draw(st.sampled_from([1e-4, 1e-6, 1e-8, 1e3, 1e6])), what=draw(st.sampled_from(['init', 'shocks', 'both'])),
                dev=draw(st.lists(st.integers(-20, 20), min_size=8, max_size=8)), T=draw(st.sampled_from([3, 4, 6])))


def decide_minute(case):
    s = S.Solved(case['spec'], 1)
    ss, ne, u = s.steady(), s.p.ne, case['unit']
    dev = np.resize(np.array(case['dev'], dtype=float), len(ss)) * (case['what'] != 'shocks') / 10 * u
    z = np.resize(np.array(case['dev'][::-1], dtype=float), (case['T'], ne)) * (case['what'] != 'init') / 10 * u
    with sut(f'simulating deviations of size {u}\n{s.text}'):
        paths = np.array(s.md.simulate(shocks=z, init=ss + dev).paths, dtype=float)
    own = S.path(np.zeros(len(ss)), s.G, s.H, (ss + dev) - ss, z @ S.factor(s.sigma).T)
    # the steady state is only as exact as its representation
    err = np.max(np.abs((paths - ss) - own), initial=0.)
    if not err <= 64 * np.finfo(float).eps * (np.max(np.abs(ss), initial=0.) + 1) * case['T'] + 1e-9 * np.max(np.abs(own), initial=0.):
        raise Violation(f'deviations of size {u} from the steady state {ss} follow\n{paths - ss}\ninstead of\n{own}\n{s.text}')
    return bool(np.max(np.abs(own[1:]), initial=0.) > 0.01 * u), f"{case['spec']['mix']}{u}{case['what']}{case['dev']}"


# ----------------------------------------------------------------------------------- drawn innovations
@st.composite
def drawn(draw):
    return dict(spec=draw(M.planted(max_n=3, min_exog=0, max_exog=3, nonlinear=False, zero_var=True)),
                periods=draw(st.sampled_from([3, 4, 7, 12, 2, 1])), seed=draw(st.integers(0, 2 ** 31 - 1)), big=draw(st.integers(0, 5)) == 0)


def decide_drawn(case):
    s = S.Solved(case['spec'], 1)
    md, ne = s.md, s.p.ne
    ss = s.steady()
    T = 3000 if case['big'] else case['periods']
    np.random.seed(case['seed'])
    with sut(f'simulating random shocks\n{s.text}'):
        r = md.simulate(periods=T)
        paths, e = np.array(r.paths, dtype=float), np.array(r.shocks, dtype=float)
        r2 = md.simulate(periods=T)
        e2 = np.array(r2.shocks, dtype=float)
    if paths.shape != (T, s.p.n) or e.shape != (T, ne):
        raise Violation(f'{T} periods give paths {paths.shape} and shocks {e.shape}\n{s.text}')
    S.same(paths, S.path(ss, s.G, s.H, ss, e), 1e-9, f'path of drawn innovations\n{s.text}')
    live = np.diag(s.sigma) > 0
    if np.any(np.abs(e[:, ~live]) > 1e-12):
        raise Violation(f'innovations of a shock without variance\n{s.text}')
    if live.any() and np.array_equal(e, e2):
        raise Violation(f'two random simulations drew the same innovations\n{s.text}')
    if case['big'] and live.any():
        sd = np.sqrt(np.diag(s.sigma)[live])
        x = e[:, live] / sd
        C = s.sigma[np.ix_(live, live)] / np.outer(sd, sd)
        bound = 9 / np.sqrt(T)            # nine standard errors
        m, V = x.mean(axis=0), x.T @ x / T
        if np.max(np.abs(m)) > bound:
            raise Violation(f'drawn innovations have mean {m} (standard deviations)\n{s.text}')
        if np.max(np.abs(V - C)) > bound * 1.5:
            raise Violation(f'drawn innovations have correlation\n{V}\ninstead of\n{C}\n{s.text}')
        lag = x[1:].T @ x[:-1] / T
        if np.max(np.abs(lag)) > bound:
            raise Violation(f'drawn innovations are serially correlated:\n{lag}\n{s.text}')
    return bool(live.any() and T > 2), f"{case['seed']}{T}{case['spec']['mix']}"


PARTS = [
    Part('rule', cases(), decide, 'path longer than two rows that leaves the steady state; distinct by mix, order of declaration and shocks', quick=500, thorough=12000),
    Part('small', cases(max_n=2, min_exog=0, max_exog=2), decide, 'one or two variables, none to two shocks, path that leaves the steady state', quick=250, thorough=5000),
    Part('wide', cases(mixes=M.WIDE, max_n=14, max_exog=6, nonlinear=False), decide, 'linear models of seven to fourteen variables and up to six shocks', quick=96, thorough=1500),
    Part('minute', minute(), decide_minute, 'deviations and shocks from 1e-8 to 1e6, so that the rule is linear at every size', quick=160, thorough=3000),
    Part('drawn', drawn(), decide_drawn, 'random simulation of more than two periods with a live shock; every sixth one has 3000 periods and is compared with the covariance', quick=250, thorough=5000),
]
