"""C07: model derivatives equal the true derivatives at the steady state"""
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M, observe as O
from pbt.harness import Part, Violation, Skip, sut, cpu_limit


@st.composite
def case(draw):
    f = draw(G.files(max_endog=4, max_exog=2, max_params=3, boundaries=False, shocks=False, helpers=False,
                     max_leaves=draw(st.sampled_from([3, 6, 10]))))
    return dict(file=f, scale=draw(st.sampled_from([1, 1, 10])))


def steady_scope(f, ss):
    q = {}
    for e in f['endog']:
        for k in (-1, 0, 1):
            q[(e, k)] = ss[e]
        q[e] = ss[e]
    for e in f['exog']:
        q[e] = 0.
    return q


def anchor(f):
    """make the point's current values an exact steady state"""
    p = G.pt(f)
    ss = {e: p[(e, 0)] for e in f['endog']}
    q = {**G.scope_of(f), **steady_scope(f, ss)}
    eqs = []
    for l, r in f['eqs']:
        l, r = X.repair(l, q), (X.repair(r, q) if r is not None else None)
        try:
            v = X.value(l, q)[0] - (X.value(r, q)[0] if r is not None else 0.)
        except X.Domain as e:
            raise Skip(str(e))
        if abs(v) > 1e5:
            raise Skip('range')
        c = M.lit(v, 13)
        eqs.append([l, c if r is None else ['b', '+', r, c]])
    used = set()
    for l, r in eqs:
        X.names(l, used)
        X.names(r, used)
    for e in f['endog']:
        if e not in used:
            raise Skip('unused')
    return dict(f, eqs=eqs, init=[[e, M.lit(ss[e])] for e in f['endog']]), ss


def decide(c):
    f, ss0 = anchor(c['file'])
    src = G.text(f)
    with cpu_limit(30, src):
        md = M.load(src)
        with sut(f'steady state\n{src}'):
            ssv = np.asarray(md.ss.values, dtype=float)
    ss = dict(zip(f['endog'], ssv))
    if any(not np.isfinite(v) or abs(v - ss0[e]) > 1e-2 for e, v in ss.items()):
        raise Violation(f'steady state {ss} although the search started at the steady state {ss0}\n{src}')
    cols, sh = O.columns(f)
    n, m = len(f['endog']), len(cols) + len(sh)
    scope = dict(G.param_values(f))
    for i, (v, k) in enumerate(cols):
        t = X.Taylor.var(ss[v], i, m)
        scope[(v, k)] = t
        if k == 0:
            scope[v] = t
    for j, e in enumerate(sh):
        scope[e] = X.Taylor.var(0., len(cols) + j, m)
    try:
        for k, t in f['locals']:
            scope[k] = X.taylor(t, scope, m)
        want = [X.taylor(['b', '-', l, r], scope, m) for l, r in f['eqs']]
    except X.Domain as e:
        raise Skip(str(e))
    J = np.array([t.g for t in want]).reshape(n, m)
    H = np.array([t.h for t in want]).reshape(n, m * m)
    if not (np.isfinite(J).all() and np.isfinite(H).all()) or max(np.abs(J).max(), np.abs(H).max()) > 1e6:
        raise Skip('range')
    with sut(f'jacobian\n{src}'), cpu_limit(30, src):
        j = np.asarray(md.jacobian.array, dtype=float)
    with sut(f'hessian\n{src}'), cpu_limit(30, src):
        h = np.asarray(md.hessian.array, dtype=float)
    for what, got, ref in (('Jacobian', j, J), ('Hessian', h, H)):
        if got.shape != ref.shape:
            raise Violation(f'{what} has shape {got.shape}, expected {ref.shape}\n{src}')
        tol = 1e-7 * (1 + np.abs(ref)) + 1e-9 * np.abs(ref).max(axis=1, keepdims=True)
        bad = ~(np.abs(got - ref) <= tol)
        if bad.any():
            i, k = np.argwhere(bad)[0]
            lab = [str(x) for x in cols] + sh
            where = lab[k] if what == 'Jacobian' else f'{lab[k // m]}, {lab[k % m]}'
            raise Violation(f'{what} of equation {i + 1} with respect to {where} is {got[i, k]!r}, true derivative {ref[i, k]!r}\n{src}')
    # the static system: a variable moves at all its timings at once, shocks stay away
    S = np.zeros((n, n))
    for k, (v, _) in enumerate(cols):
        S[:, f['endog'].index(v)] += J[:, k]
    size = np.abs(J).max(axis=1, initial=0., keepdims=True)
    with sut(f'steady-state jacobian\n{src}'), cpu_limit(30, src):
        s = np.asarray(md.ss.jacobian.array, dtype=float)
    if s.shape != S.shape:
        raise Violation(f'steady-state Jacobian has shape {s.shape}, expected {S.shape}\n{src}')
    bad = ~(np.abs(s - S) <= 1e-7 * (1 + np.abs(S)) + 1e-9 * size)
    if bad.any():
        i, k = np.argwhere(bad)[0]
        raise Violation(f'steady-state Jacobian of equation {i + 1} with respect to {f["endog"][k]} is {s[i, k]!r}, true derivative {S[i, k]!r}\n{src}')
    return bool(np.count_nonzero(H)) and n >= 2, None


PARTS = [
    Part('derivatives', case(), decide,
         'random systems of equations shifted so that a random point is their steady state; Jacobian and Hessian compared with '
         'second-order forward-mode Taylor arithmetic on the generated trees at the reported steady state, and the steady-state '
         'Jacobian with their sums over the timings of a variable; non-trivial: two '
         'equations and a nonzero second derivative', quick=1200, thorough=30000),
]
ASSUMPTIONS = ['derivatives beyond 1e6 and points outside the smooth domain of the functions are outside the search']
