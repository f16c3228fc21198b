"""C06: model equations evaluate to left minus right at every point"""
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M, observe as O
from pbt.harness import Part, Violation, Skip, sut, cpu_limit


@st.composite
def case(draw):
    f = draw(G.files(max_endog=5, boundaries=False, shocks=False, max_leaves=draw(st.sampled_from([3, 8, 14]))))
    return dict(file=f, jit=draw(st.lists(st.integers(-40, 40), min_size=5, max_size=23)), prog=draw(st.booleans()))


def points(f, jit):
    """the generated point, a perturbed one, and a steady one"""
    p = G.pt(f)
    out = [p]
    q = {}
    for i, k in enumerate(sorted(p, key=str)):
        q[k] = p[k] * (1 + jit[i % len(jit)] / 100) + jit[(3 * i + 1) % len(jit)] / 400
    for e in f['endog']:
        q[e] = q[(e, 0)]
    out.append(q)
    s = {}
    for i, e in enumerate(f['endog']):
        for k in (-1, 0, 1):
            s[(e, k)] = p[(e, 0)] * (1 + jit[(i + 2) % len(jit)] / 200)
        s[e] = s[(e, 0)]
    for e in f['exog']:
        s[e] = 0.
    out.append(s)
    return out


def build(f, prog):
    src = G.text(f)
    if not prog:
        return M.load(src), src
    import pynare
    pv = G.param_values(f)
    strs = [X.text(l, '^') + (' = ' + X.text(r, '^') if r is not None else '') for l, r in f['eqs']]
    src = f'Model(endog={f["endog"]}, stoch={f["exog"]}, params={pv}, exprs={strs})'
    with sut(src):
        md = pynare.Model(endog=list(f['endog']), stoch=list(f['exog']), params=dict(pv), exprs=strs,
                          local_params={k: X.text(t, '^') for k, t in f['locals']})
    return md, src


def decide(c):
    f = c['file']
    with cpu_limit(20):
        md, src = build(f, c['prog'])
    cols, sh = O.columns(f)
    good = 0
    for n_pt, p in enumerate(points(f, c['jit'])):
        for static in (False, True):
            q = dict(p)
            if static:
                for e in f['endog']:
                    for k in (-1, 0, 1):
                        q[(e, k)] = p[(e, 0)]
                for e in f['exog']:
                    q[e] = 0.
            try:
                want = O.residual(f, q)
            except X.Domain:
                continue
            calls = []
            if static:
                calls.append(('static', md.steady_repr, [q[e] for e in f['endog']]))
            calls.append(('dynamic', md.dynamic_repr, [q[k] for k in cols] + [q[e] for e in sh]))
            if static and sh:
                calls.append(('dynamic without shocks', md.dynamic_repr, [q[k] for k in cols]))
            for what, fn, vec in calls:
                with sut(f'{what} form at {vec}\n{src}'):
                    got = np.asarray(fn(np.array(vec, dtype=float)))
                    ok = got.shape == (len(want),)
                if not ok:
                    raise Violation(f'{what} form returns shape {got.shape}, {len(want)} equations\n{src}')
                for i, (v, e) in enumerate(want):
                    if not O.close(got[i], v, e):
                        raise Violation(f'{what} form of equation {i + 1} at {dict(zip([str(k) for k in cols] + sh, vec))}: '
                                        f'{float(got[i])!r}, left minus right is {v!r}\n{src}')
            good += 1
    if not good:
        raise Skip('outside the domain')
    return good >= 2 and len(f['eqs']) >= 2, None


PARTS = [
    Part('equations', case(), decide,
         'random systems of equations (lags, leads, shocks, parameters, locals, functions, with and without equals sign) '
         'loaded from a file or built from texts, static and dynamic form compared with the reference evaluator at random and '
         'steady points; non-trivial: two or more equations and points', quick=1600, thorough=40000),
]
