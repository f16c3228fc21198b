"""C13: the reported steady state satisfies the model"""
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S
from pbt import expr as X
from pbt.harness import Part, Violation, Skip, sut

ASSUMPTIONS = ['the smallest singular value of the steady-state Jacobian is at least 0.1; tolerances follow from the gradient '
               'tolerance 1e-5 of the minimizer']


def tolerance(J):
    """the minimizer stops at a gradient 2 J' r of at most 1e-5"""
    smin = float(np.linalg.svd(J, compute_uv=False).min())
    if smin < 0.1:
        raise Skip('ill-conditioned steady state')
    r = 4e-5 * np.sqrt(len(J)) / smin
    return min(r, 2e-3), min(4 * r / smin, 0.02)


@st.composite
def near(draw, exact=False, **kw):
    spec = draw(M.planted(min_exog=0, **kw))
    n = sum(spec['mix'])
    return dict(spec=spec, off=[0] * n if exact else draw(st.lists(st.sampled_from([30, -30, 17, -9, 5, -42, 50, 1, 0]), min_size=n, max_size=n)),
                method=draw(st.sampled_from(['plain', 'plain', 'none', '8', 'solve'])), code=draw(st.booleans()))


def make(p, f, case):
    """from a file, or in code"""
    if not case['code']:
        return M.load(f)
    import pynare
    pv = {k: float(v) for k, v in M.param_scope(f).items()}
    exprs = [X.text(l) + ('' if r is None else ' = ' + X.text(r)) for l, r in f['eqs']]
    init = {k: float(X.value(t, {})[0]) for k, t in f['init']}
    with sut(f'building the model in code\n{exprs}'):
        return pynare.Model(endog=list(f['endog']), stoch=list(f['exog']), params=pv, exprs=exprs, initial=init,
                            shocks={e: {'variance': 1.} for e in f['exog']})


def decide(case):
    p = M.Planted(case['spec'])
    f = M.build(p)
    perm = list(p.perm)
    J = (p.A + p.B + p.C)[:, perm]
    tr, tx = tolerance(J)
    star = np.array([p.ss[i] for i in perm])
    start = {i: round(p.ss[i] + case['off'][k] / 1000, 6) for k, i in enumerate(perm)}
    f['init'] = [[p.names[i], M.lit(start[i], 6)] for i in perm]
    md = make(p, f, case)
    text = M.text(f)
    with sut(f'steady state\n{text}'):
        if case['method'] == 'plain':
            x = md.ss.values
        elif case['method'] == 'solve':
            try:
                md.solve(order=1)
            except Exception:
                pass            # the derivatives are those at the computed point
            x = md.ss.values
        else:
            x = md.ss.compute(method=None if case['method'] == 'none' else 8)
        x = np.array(x, dtype=float)
        again = np.array(md.ss.values, dtype=float)
        initial = np.array(md.initial, dtype=float)
        reported = np.array(md.steady_repr(x), dtype=float)
    if x.shape != (p.n,):
        raise Violation(f'steady state of shape {x.shape} for {p.n} variables')
    if not np.array_equal(x, again):
        raise Violation(f'the steady state changes when it is read again\n{text}')
    if not np.array_equal(initial, np.array([start[i] for i in perm])):
        raise Violation(f'initial values {initial} instead of {start} after finding the steady state\n{text}')
    scope = dict(M.param_scope(f))
    for k, i in enumerate(perm):
        scope[p.names[i]] = scope[(p.names[i], -1)] = scope[(p.names[i], 1)] = float(x[k])
    for e in p.enames:
        scope[e] = 0.
    for r, (lhs, rhs) in enumerate(f['eqs']):
        v = X.value(lhs, scope)[0] - (X.value(rhs, scope)[0] if rhs is not None else 0.)
        if not abs(v) <= tr:
            raise Violation(f'equation {r} has residual {v:.3e} (tolerance {tr:.1e}) at the reported steady state {x}\n{text}')
        if not abs(float(reported[r]) - v) <= 1e-9 * (1 + abs(v)):
            raise Violation(f'equation {r}: the static form reports {float(reported[r])} where the residual is {v}\n{text}')
    exact = not any(case['off'])
    if exact and not np.max(np.abs(x - star)) <= 1e-7:
        raise Violation(f'started at the steady state {star}, {x} is reported\n{text}')
    if not np.max(np.abs(x - star)) <= tx:
        raise Violation(f'started within 0.05 of the steady state {star}, {x} is reported (tolerance {tx:.1e})\n{text}')
    return (p.n > 1 and (not exact or np.max(np.abs(star)) > 0)), f"{case['spec']['mix']}{case['spec']['ss']}{case['spec']['perm']}{case['off']}{case['method']}"


# ------------------------------------------------------------------------- parameter changes, linear models
@st.composite
def moving(draw):
    n = draw(st.integers(1, 4))
    off = draw(st.lists(st.lists(st.integers(-3, 3), min_size=n, max_size=n), min_size=n, max_size=n))
    when = draw(st.lists(st.lists(st.sampled_from([-1, 0, 1]), min_size=n, max_size=n), min_size=n, max_size=n))
    edits = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(-40, 40), st.sampled_from(['item', 'update', 'add'])), min_size=1, max_size=4))
    return dict(n=n, off=off, when=when, b=draw(st.lists(st.integers(-30, 30), min_size=n, max_size=n)),
                edits=[list(e) for e in edits], names=draw(st.permutations(M.VNAMES))[:n], derived=draw(st.booleans()))


def decide_moving(case):
    import pynare
    n, names = case['n'], case['names']
    K = np.array(case['off'], dtype=float).reshape(n, n) / 10
    K[np.diag_indices(n)] = 1.5
    tr, tx = tolerance(K)
    b = [v / 10 for v in case['b']]
    exprs = []
    for r in range(n):
        ts = []
        for j in range(n):
            k = 0 if r == j else case['when'][r][j]
            if K[r, j]:
                ts.append(f"({K[r, j]:.1f})*{names[j]}" + (f'({k:+d})' if k else ''))
        exprs.append(' + '.join(ts) + f" = {'2*' if case['derived'] else ''}b{r}")
    two = 2 if case['derived'] else 1
    solve = lambda: np.linalg.solve(K, two * np.array(b))
    init0 = [round(float(v), 2) for v in solve()]
    with sut(f'building\n{exprs}'):
        md = pynare.Model(endog=names, stoch=['shk_'], params={f'b{r}': b[r] for r in range(n)},
                          exprs=[exprs[0].replace(' = ', ' + shk_ = ')] + exprs[1:], initial=dict(zip(names, init0)),
                          shocks={'shk_': {'variance': 1.}})
    seen = 0
    for step in [None] + case['edits']:
        if step is not None:
            i, v, how = step
            before = solve()
            b[i] = round(b[i] + v / 100, 2)
            with sut(f'changing b{i}'):
                if how == 'item':
                    md.params[f'b{i}'] = b[i]
                elif how == 'update':
                    md.params.update({f'b{i}': b[i]})
                else:
                    md.add_params(**{f'b{i}': b[i]})
            seen += bool(np.max(np.abs(solve() - before)) > tx * 2)
        with sut(f'steady state of\n{exprs}\nwith b = {b}'):
            x = np.array(md.ss.values, dtype=float)
            initial = [float(v) for v in md.initial]
        if not np.max(np.abs(K @ x - two * np.array(b))) <= tr:
            raise Violation(f'steady state {x} of\n{exprs}\nwith b = {b} (changed from {case["b"]} in tenths): residual {K @ x - two * np.array(b)}')
        if not np.max(np.abs(x - solve())) <= tx:
            raise Violation(f'steady state {x} instead of {solve()} of\n{exprs}\nwith b = {b}')
        if initial != init0:
            raise Violation(f'initial values {initial} instead of {init0} after parameter changes')
    return seen > 0, f"{n}{case['off']}{case['edits']}"


# ------------------------------------------------------------------------------------------ other algorithms
@st.composite
def algorithms(draw):
    c = draw(near(max_n=4))
    n = sum(c['spec']['mix'])
    return dict(c, off=draw(st.one_of(st.just([0] * n), st.just(c['off']))), start=draw(st.sampled_from([None, 8, '', 8.0])),
                options=draw(st.sampled_from([{}, {}, {'tol': 1e-9}, {'options': {'maxiter': 400}}, {'options': {'maxfev': 3}}, {'options': {'maxiter': 2}}])),
                absent=draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, -1, 'simplex', 'x']), min_size=1, max_size=3)))


def decide_algorithms(case):
    """the simplex search never leaves a steady state and never ends at a worse point than the start; algorithms that are not there leave everything as it was"""
    p = M.Planted(case['spec'])
    f = M.build(p)
    perm = list(p.perm)
    tr, tx = tolerance((p.A + p.B + p.C)[:, perm])
    star = np.array([p.ss[i] for i in perm])
    start = np.array([round(p.ss[i] + case['off'][k] / 1000, 6) for k, i in enumerate(perm)])
    f['init'] = [[p.names[i], M.lit(start[k], 6)] for k, i in enumerate(perm)]
    md = make(p, f, case)
    with sut('the steady state object'):
        ss = md.ss            # a new one every time
    text = M.text(f)

    def size(x):
        scope = dict(M.param_scope(f))
        for k, i in enumerate(perm):
            scope[p.names[i]] = scope[(p.names[i], -1)] = scope[(p.names[i], 1)] = float(x[k])
        for e in p.enames:
            scope[e] = 0.
        return sum((X.value(l, scope)[0] - (X.value(r, scope)[0] if r is not None else 0.)) ** 2 for l, r in f['eqs'])

    with sut(f"simplex search with {case['options']}\n{text}"):
        x = np.array(ss.compute(method='nelder-mead', **case['options']), dtype=float)
        again = np.array(ss.values, dtype=float)
        at = np.array(ss.results.x, dtype=float)
    if x.shape != (p.n,) or not np.array_equal(x, again) or not np.array_equal(x, at):
        raise Violation(f'the steady state is returned as {x}, then read as {again} and {at}\n{text}')
    try:
        a, b = size(start), size(x)
    except X.Domain:
        raise Violation(f'started at {start}, the simplex search reports {x}, where the model has no value\n{text}')
    if not b <= a + 1e-12:
        raise Violation(f'the simplex search ends at {x} (squared residuals {b:.3e}), worse than the start {start} ({a:.3e})\n{text}')
    exact = np.array_equal(start, star)
    if exact and not np.max(np.abs(x - star)) <= 1e-4:
        raise Violation(f'started at the steady state {star}, the simplex search reports {x}\n{text}')
    with sut(f"steady state by {case['start']!r}\n{text}"):
        y = np.array(ss.compute(method=case['start']), dtype=float)
    if not np.max(np.abs(y - star)) <= tx:
        raise Violation(f'started within 0.05 of the steady state {star}, {y} is reported (tolerance {tx:.1e}) by method {case["start"]!r} after a simplex search\n{text}')
    for m in case['absent']:
        try:
            z = np.array(ss.compute(method=m), dtype=float)
        except Exception:
            with sut('reading the steady state after a refused method'):
                z = np.array(ss.values, dtype=float)
            if not np.array_equal(y, z):
                raise Violation(f'method {m!r} is refused, but the steady state {y} is now {z}\n{text}')
        else:
            if not size(z) <= len(z) * tr ** 2:
                raise Violation(f'method {m!r} reports {z}, where the squared residuals are {size(z):.3e}\n{text}')
            y = z
    with sut('reading the initial values'):
        initial = np.array(md.initial, dtype=float)
    if not np.array_equal(initial, start):
        raise Violation(f'initial values {initial} instead of {start} after finding the steady state\n{text}')
    return p.n > 1, f"{case['spec']['mix']}{case['spec']['ss']}{case['off']}{case['options']}"


# ------------------------------------------------------------------------------- models with several steady states
WRITINGS = ['{x}^2 = {a}^2', '{x}*{x} - ({a})*({a})', '{x}(-1)*{x}(+1) = ({a})^2', '{x}^3 = ({a})^2*{x}', '({x} - ({a}))*({x}(+1) - ({b})) = 0', '0 = ({x}(-1) - ({b}))*({x} - ({a}))',
            '{x} = ({a})^2/{x}(-1)', '{x}^2 - ({a} + ({b}))*{x} + ({a})*({b}) = 0', 'exp({x}^2) = exp(({a})^2)', '{x} = {a}']


@st.composite
def several(draw):
    n = draw(st.integers(1, 4))
    val = st.integers(-20, 20).filter(lambda v: abs(v) >= 4)
    a = draw(st.lists(val, min_size=n, max_size=n))
    return dict(names=draw(st.permutations(M.VNAMES))[:n], a=a, b=draw(st.lists(val, min_size=n, max_size=n)), kind=draw(st.lists(st.integers(0, len(WRITINGS) - 1), min_size=n, max_size=n)),
                link=draw(st.lists(st.tuples(st.integers(-1, n - 1), st.integers(-9, 9), st.sampled_from(['', '(-1)', '(+1)'])), min_size=n, max_size=n)),
                order=draw(st.permutations(range(n))), off=draw(st.one_of(st.just([0] * n), st.lists(st.integers(-2, 2), min_size=n, max_size=n))),
                method=draw(st.sampled_from(['plain', 'plain', 8, None, 'nelder-mead'])), code=draw(st.booleans()))


def decide_several(case):
    """of several steady states, the one reported is the one the search was started at"""
    n, names = len(case['a']), case['names']
    star = np.array([v / 10 for v in case['a']])
    J = np.zeros((n, n))
    eqs = []
    for i in range(n):
        x, a, b = names[i], case['a'][i] / 10, case['b'][i] / 10
        w = WRITINGS[case['kind'][i]]
        if '{b}' in w and abs(a - b) < 0.6:
            b = a + 1.0
        t = w.format(x=x, a=f'({a:.1f})', b=f'({b:.1f})')
        J[i, i] = {'{x}^2 = {a}^2': 2 * a, '{x}*{x} - ({a})*({a})': 2 * a, '{x}(-1)*{x}(+1) = ({a})^2': 2 * a, '{x}^3 = ({a})^2*{x}': 2 * a * a, '{x} = ({a})^2/{x}(-1)': 2.,
                   'exp({x}^2) = exp(({a})^2)': 2 * a * np.exp(a * a), '{x} = {a}': 1.}.get(w, a - b)
        j, k, when = case['link'][i]
        if 0 <= j < i and k:
            # a term that vanishes at the chosen steady state
            lhs, eq, rhs = t.partition(' = ')
            t = f'{lhs} + ({k / 10:.1f})*({names[j]}{when} - ({case["a"][j] / 10:.1f}))' + (eq + rhs)
            J[i, j] = k / 10
        eqs.append(t)
    if np.max(np.abs(J)) > 60:
        raise Skip('steep')
    tr, tx = tolerance(J)
    start = np.round(star + np.array(case['off']) / 1000, 6)
    # an exogenous shock in one of them
    eqs[0] = eqs[0].replace(' = ', ' + shk_ = ', 1) if ' = ' in eqs[0] else eqs[0] + ' + shk_'
    eqs = [eqs[i] for i in case['order']]
    text = '\n'.join(eqs)
    if case['code']:
        import pynare
        with sut(f'building\n{text}'):
            md = pynare.Model(endog=list(names), stoch=['shk_'], exprs=eqs, initial=dict(zip(names, [float(v) for v in start])), shocks={'shk_': {'variance': 1.}})
    else:
        md = M.load('var ' + ' '.join(names) + '; varexo shk_; model; ' + ' '.join(e + ';' for e in eqs) + ' end; initval; ' +
                    ' '.join(f'{v} = {s:.6f};' for v, s in zip(names, start)) + ' end; shocks; var shk_ = 1; end;')
    with sut(f'steady state of\n{text}\nstarted at {start}'):
        ss = md.ss
        x = np.array(ss.values if case['method'] == 'plain' else ss.compute(method=case['method']), dtype=float)
        initial = np.array(md.initial, dtype=float)
    if not np.array_equal(initial, start):
        raise Violation(f'initial values {initial} instead of {start} after finding the steady state of\n{text}')
    exact = not any(case['off'])
    limit = 1e-7 if exact else tx
    if case['method'] == 'nelder-mead':
        if not exact:
            return False, None
        limit = 1e-4
    if x.shape != (n,) or not np.max(np.abs(x - star)) <= limit:
        raise Violation(f'started at {start}, by the steady state {star}, {x} is reported for {names} in\n{text}')
    return any(k < len(WRITINGS) - 1 for k in case['kind']) and np.min(star) < 0, f"{case['a']}{case['kind']}{case['link']}{case['off']}"


PARTS = [
    Part('near', near(), decide, 'search started off the planted steady state, two or more variables; distinct by mix, steady state, order and start', quick=500, thorough=10000),
    Part('exact', near(exact=True), decide, 'search started at the planted, nonzero steady state', quick=250, thorough=5000),
    Part('moving', moving(), decide_moving, 'parameter changes that move the steady state by more than the tolerance', quick=300, thorough=6000),
    Part('algorithms', algorithms(), decide_algorithms, 'the simplex search, exact and off the steady state, and methods that are not there, two or more variables', quick=200, thorough=3000),
    Part('several', several(), decide_several, 'models with several steady states, a negative one chosen, started at it or within 0.002', quick=400, thorough=8000),
]
