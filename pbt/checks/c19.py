"""C19: statistics of simulated paths are the sample statistics"""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt.harness import Part, Violation, Skip, sut


@st.composite
def cases(draw, **kw):
    spec = draw(M.planted(max_n=4, max_exog=2, **kw))
    T = draw(st.integers(4, 25))
    drop = draw(st.sampled_from([0, 0, 1, 2, 3, 7, 12]))
    return dict(spec=spec, T=T, drop=drop, p=draw(st.sampled_from([None, 1, 2, 3, 5, 9])), order=draw(st.sampled_from([1, 1, 2])),
                seed=draw(st.integers(0, 2 ** 31 - 1)), own=draw(st.booleans()), first=draw(st.booleans()))


def mean(v):
    return math.fsum(v) / len(v)


def decide(case):
    s = S.Solved(case['spec'], case['order'])
    md, n = s.md, s.p.n
    np.random.seed(case['seed'])
    T, drop, p = case['T'], case['drop'], case['p']
    z = 0.05 * np.random.normal(size=(T, s.p.ne))
    with sut(f'simulation\n{s.text}'):
        r = md.simulate(shocks=z)
    if case['own']:
        # any paths: the statistics are those of the paths held by the simulation
        r.paths[:] = np.random.randint(-9, 10, size=r.paths.shape) * np.random.choice([1., .01, 100.], size=n)
    keep = np.array(r.paths, dtype=float)
    if keep.shape != (T, n):
        raise Violation('shape of the path')
    if not np.all(np.isfinite(keep)) or np.max(np.abs(keep)) > 1e8:
        raise Skip('explosive path')
    P = [[float(v) for v in row] for row in keep]
    lags = 5 if p is None else p
    kc = {'drop': drop} if drop or case['first'] else {}
    ka = dict(kc) if p is None else {'p': p, **kc}
    refuse_corr, refuse_auto = drop > T, drop > T or lags > T - drop
    for name, kw, refuse in (('corr', kc, refuse_corr), ('autocorr', ka, refuse_auto)):
        if refuse:
            try:
                with np.errstate(all='ignore'):
                    getattr(r, name)(**kw)
            except Exception:
                continue
            raise Violation(f'{name}({kw}) of {T} periods was not refused')
    Q = P[drop:]
    m = len(Q)
    if m < 2:
        return False, None
    col = [[row[i] for row in Q] for i in range(n)]
    dev = [[v - mean(c) for v in c] for c in col]
    var = [math.fsum(v * v for v in d) / m for d in dev]
    live = [i for i in range(n) if var[i] > 1e-12 * (1 + max(abs(v) for v in col[i])) ** 2]
    with sut(f'correlation of a simulation with {kc}\n{s.text}'), np.errstate(all='ignore'):
        c = r.corr(**kc)
        names = ([str(x) for x in c.index], [str(x) for x in c.columns])
        c = np.array(c, dtype=float)
    if names != (s.names, s.names) or c.shape != (n, n):
        raise Violation(f'correlation table labelled {names} instead of {s.names}')
    for i in live:
        for j in live:
            want = math.fsum(a * b for a, b in zip(dev[i], dev[j])) / m / math.sqrt(var[i] * var[j])
            if not abs(c[i, j] - want) <= 1e-6:
                raise Violation(f'sample correlation of {s.names[i]}, {s.names[j]} after dropping {drop} of {T}: {c[i, j]} instead of {want}')
            if not abs(c[i, j]) <= 1 + 1e-9 or (i == j and abs(c[i, i] - 1) > 1e-6):
                raise Violation(f'correlation {c[i, j]} at {i}, {j}')
    if not refuse_auto and lags < m:
        with sut(f'autocorrelation of a simulation with {ka}\n{s.text}'), np.errstate(all='ignore'):
            a = r.autocorr(**ka)
            rows = [str(x) for x in a.index]
            a = np.array(a, dtype=float)
        if rows != s.names or a.shape != (n, lags):
            raise Violation(f'autocorrelation table {a.shape} labelled {rows}')
        for i in live:
            for k in range(1, lags + 1):
                want = math.fsum(dev[i][t] * dev[i][t - k] for t in range(k, m)) / (m - k) / var[i]
                if not abs(a[i, k - 1] - want) <= 1e-6 * (1 + abs(want)):
                    raise Violation(f'sample autocorrelation of {s.names[i]} at lag {k} after dropping {drop} of {T}: {a[i, k - 1]} instead of {want}')
    if not np.array_equal(keep, np.array(r.paths, dtype=float)):
        raise Violation('the statistics changed the simulated path')
    return len(live) > 0 and m > 3, f"{case['spec']['mix']}{T}{drop}{p}{case['seed']}"


PARTS = [
    Part('sample', cases(), decide, 'a path with a variable that moves and more than three periods left after dropping; distinct by mix, length, drop, lags and draw', quick=700, thorough=15000),
    Part('one', cases(mixes=[(0, 1, 0, 0), (1, 0, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)], min_exog=1), decide, 'one-variable models', quick=120, thorough=2500),
]
