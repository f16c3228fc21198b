"""
arbitrary structured model files (any equations; nothing is known about their solution)

file := endog, exog, params [[name, tree]], helpers [[name, tree]] (undeclared assigned names), locals [[name, tree]],
        eqs [[lhs, rhs|None]], init/terminal/hist [[name, tree]] | None, shocks [[kind, a, b, tree]] | None, order [block]
"""
from __future__ import annotations
import math
from hypothesis import strategies as st

from pbt import expr as X
from pbt.harness import Skip
from pbt.strategies import trees, num, NUMTEXT, SIMPLENUM, distinct_names

BLOCKS = ['initval', 'endval', 'histval', 'shocks']
MORE = ['lag', 'lead', 'for', 'lambda1', 'self', 'if1', 'T', 'N_x', 'xm1', 'x_m1', 'x_p1', 'y_m1', 'k_p1', 'xp1']
# names that Python (but not the model language) reserves
PYTHON = ['lambda', 'if', 'for', 'in', 'is', 'def', 'None', 'True', 'class', 'self', 'args', 'ss', 'dyn', 'pass']


def resolve(defs, scope=None):
    """values of definitions that may refer to each other in any order"""
    vals, todo = dict(scope or {}), [list(d) for d in defs]
    while todo:
        rest = []
        for k, t in todo:
            if X.names(t) <= set(vals):
                try:
                    vals[k] = X.value(t, vals)[0]
                except X.Domain as e:
                    raise Skip(str(e))
            else:
                rest.append([k, t])
        if len(rest) == len(todo):
            raise Skip('circular')
        todo = rest
    return vals


@st.composite
def dag(draw, names, scope=None, shuffle=True, max_leaves=4, funs=('exp', 'log', 'sqrt', 'abs', 'sin'), literal=2):
    """definitions of `names`, each by numbers and earlier ones, in any order of appearance"""
    vals = dict(scope or {})
    out = []
    for n in names:
        if vals and draw(st.integers(0, literal)) == 0 or not vals:
            t = draw(num(SIMPLENUM))
            if draw(st.integers(0, 4)) == 0:
                t = ['u', '-', t]
        else:
            pool = sorted(vals)
            leaves = st.one_of(num(SIMPLENUM), st.sampled_from(pool).map(lambda v: ['v', v]),
                               st.sampled_from(pool).map(lambda v: ['v', v]))
            t = X.repair(draw(trees(leaves, funs=funs, max_leaves=max_leaves)), vals)
        try:
            v, _ = X.value(t, vals)
            if abs(v) > 1e4:
                raise X.Domain
        except X.Domain:
            t = ['n', '0.5']
            v = .5
        vals[n] = v
        out.append([n, t])
    if shuffle and draw(st.booleans()):
        out = list(draw(st.permutations(out)))
    return out


@st.composite
def files(draw, max_endog=4, max_exog=3, max_params=4, max_locals=2, funs=None, boundaries=True, shocks=True, helpers=True,
          use_all=True, max_leaves=8, lags=(-1, 0, 1), python_names=True):
    n = draw(st.integers(1, max_endog))
    ne = draw(st.integers(0, max_exog))
    npar = draw(st.integers(0, max_params))
    nh = draw(st.sampled_from([0, 0, 0, 1])) if helpers else 0
    nl = draw(st.sampled_from([0, 0, 1, max_locals])) if max_locals else 0
    pool = draw(distinct_names(n + ne + npar + nh + nl, MORE + (PYTHON if python_names else [])))
    it = iter(pool)
    take = lambda k: [next(it) for _ in range(k)]
    endog, exog, par, hel, loc = take(n), take(ne), take(npar), take(nh), take(nl)
    # an undeclared helper is assigned before it is used; parameters come in any order
    hdefs = draw(dag(hel, shuffle=False))
    params = hdefs + draw(dag(par, resolve(hdefs)))
    pscope = resolve(params)
    locs = draw(dag(loc, {k: pscope[k] for k in par}, shuffle=False)) if loc else []
    scope = dict(resolve(locs, {k: pscope[k] for k in par}))
    point = {}
    for e in endog:
        for k in (-1, 0, 1):
            point[(e, k)] = draw(st.integers(3, 25)) / 10
        point[e] = point[(e, 0)]
    for e in exog:
        point[e] = draw(st.integers(-5, 5)) / 10
    full = {**scope, **point}
    var = []
    if any(lags):
        var.append(st.tuples(st.just('p'), st.sampled_from(endog), st.sampled_from([k for k in lags if k])).map(list))
    if 0 in lags:
        var.append(st.sampled_from(endog).map(lambda v: ['v', v]))
    leaves = [num(SIMPLENUM)] + var + var
    if exog:
        leaves.append(st.sampled_from(exog).map(lambda v: ['v', v]))
    if scope:
        leaves.append(st.sampled_from(sorted(scope)).map(lambda v: ['v', v]))
    if 0 in lags and draw(st.integers(0, 3)) == 0:
        leaves.append(st.sampled_from(endog).map(lambda v: ['p', v, 0]))
    tr = trees(st.one_of(*leaves), funs=X.SMOOTH if funs is None else funs, max_leaves=max_leaves)
    eqs = []
    for i in range(n):
        shape = draw(st.integers(0, 5))
        lhs = X.repair(draw(tr), full) if shape else ['v', endog[i]]
        rhs = None if shape == 1 else X.repair(draw(tr), full)
        eqs.append([lhs, rhs])
    if use_all:
        used = set()
        for lhs, rhs in eqs:
            X.names(lhs, used)
            if rhs:
                X.names(rhs, used)
        for i, e in enumerate(endog):
            if e not in used:
                k = draw(st.sampled_from(list(lags)))
                x = ['p', e, k] if k else ['v', e]
                j = draw(st.integers(0, n - 1))
                eqs[j][0] = ['b', draw(st.sampled_from('+-')), eqs[j][0] if X.level(eqs[j][0]) else ['g', eqs[j][0]], x]
    f = dict(endog=endog, exog=exog, params=params, helpers=hel, locals=locs, eqs=eqs)
    if boundaries:
        for key in ('init', 'terminal', 'hist'):
            if draw(st.integers(0, 2 if key == 'init' else 3)):
                f[key] = draw(boundary(endog, {k: pscope[k] for k in par}))
            else:
                f[key] = None
        f['order'] = list(draw(st.permutations(BLOCKS)))
    else:
        f['init'] = None
    f['shocks'] = draw(shock_statements(exog, {k: pscope[k] for k in par})) if shocks and draw(st.integers(0, 4)) else None
    f['point'] = [[list(k) if isinstance(k, tuple) else [k], v] for k, v in sorted(point.items(), key=str)]
    return f


@st.composite
def boundary(draw, endog, scope):
    k = draw(st.integers(0, len(endog)))
    which = list(draw(st.permutations(endog)))[:k]
    vals, out = dict(scope), []
    for e in which:
        leaves = [num()]
        if vals:
            leaves.append(st.sampled_from(sorted(vals)).map(lambda v: ['v', v]))
        t = X.repair(draw(trees(st.one_of(*leaves), max_leaves=4, funs=('exp', 'log', 'sqrt'))), vals)
        try:
            v, err = X.value(t, vals)
            if abs(v) > 1e4:
                raise X.Domain
        except X.Domain:
            t, v = ['n', '1.5'], 1.5
        vals[e] = v
        out.append([e, t])
    return out


@st.composite
def shock_statements(draw, exog, scope):
    """statements on distinct shocks and pairs, in any order"""
    out = []
    leaves = [num(SIMPLENUM)]
    pos = [k for k, v in scope.items() if 0.05 < v < 5]
    def val(sign=False):
        if pos and draw(st.integers(0, 3)) == 0:
            t = ['v', draw(st.sampled_from(sorted(pos)))]
            return ['b', '*', t, ['n', '0.5']] if draw(st.booleans()) else t
        if draw(st.integers(0, 3)) == 0:
            return ['b', draw(st.sampled_from('*/+')), ['n', str(draw(st.integers(1, 9)))], ['n', f'{draw(st.integers(11, 29)) / 10}']]
        return ['n', f'{draw(st.integers(1, 300)) / 100}']
    for e in exog:
        kind = draw(st.sampled_from(['variance', 'stderr', 'none', 'bare0']))
        if kind in ('variance', 'stderr'):
            out.append([kind, e, None, val()])
    for i, a in enumerate(exog):
        for b in exog[:i]:
            kind = draw(st.sampled_from(['corr', 'cov', None, None]))
            if kind == 'corr':
                t = ['n', f'{draw(st.integers(0, 100)) / 100}']
            elif kind == 'cov':
                t = ['n', f'{draw(st.integers(1, 99)) / 1000}']
            else:
                continue
            if draw(st.booleans()):
                t = ['u', '-', t]
            x, y = (a, b) if draw(st.booleans()) else (b, a)
            out.append([kind, x, y, t])
    return list(draw(st.permutations(out)))


def pt(f):
    return {(tuple(k) if len(k) > 1 else k[0]): v for k, v in f['point']}


def declared(f):
    return [k for k, v in f['params'] if k not in f.get('helpers', [])]


def param_values(f):
    v = resolve(f['params'])
    return {k: v[k] for k in declared(f)}


def scope_of(f):
    """parameters and locals"""
    return resolve(f['locals'], param_values(f))


def boundary_values(f, key):
    """dict of stated boundary values"""
    if f.get(key) is None:
        return None
    vals = dict(param_values(f))
    out = {}
    for k, t in f[key]:
        try:
            out[k] = vals[k] = X.value(t, vals)[0]
        except X.Domain as e:
            raise Skip(str(e))
    return out


def sigma(f):
    import numpy as np
    ex = f['exog']
    S = np.eye(len(ex))
    sc = param_values(f)
    st_ = [(k, a, b, X.value(t, sc)[0]) for k, a, b, t in (f['shocks'] or [])]
    for k, a, b, v in st_:
        if k in ('variance', 'stderr'):
            S[ex.index(a), ex.index(a)] = v if k == 'variance' else v * v
    for k, a, b, v in st_:
        if k in ('corr', 'cov'):
            i, j = ex.index(a), ex.index(b)
            S[i, j] = S[j, i] = v if k == 'cov' else v * math.sqrt(S[i, i] * S[j, j])
    return S


# ---------------------------------------------------------------------------------------------- rendering
def sections(f, power='^'):
    """list of [kind, tokens] statements; kinds group what must stay together"""
    D, A = [], []
    decl = declared(f)
    D.append(['var'] + list(f['endog']))
    if f['exog']:
        D.append(['varexo'] + list(f['exog']))
    if f.get('det'):
        D.append(['varexo_det'] + list(f['det']))
    if decl:
        D.append(['parameters'] + decl)
    for k, t in f['params']:
        A.append([k, '='] + X.tokens(t, power) + [';'])
    M = [['model', ';']]
    for k, t in f.get('locals', []):
        M.append(['#', k, '='] + X.tokens(t, power) + [';'])
    for lhs, rhs in f['eqs']:
        M.append(X.tokens(lhs, power) + (['='] + X.tokens(rhs, power) if rhs is not None else []) + [';'])
    M.append(['end', ';'])
    B = {}
    for blk, key in (('initval', 'init'), ('endval', 'terminal'), ('histval', 'hist')):
        if f.get(key) is not None:
            B[blk] = [blk, ';']
            for k, t in f[key]:
                B[blk] += [k, '='] + X.tokens(t, power) + [';']
            B[blk] += ['end', ';']
    if f.get('shocks') is not None:
        T = ['shocks', ';']
        for kind, a, b, t in f['shocks']:
            T += shock_tokens(kind, a, b, X.tokens(t, power))
        B['shocks'] = T + ['end', ';']
    return D, A, M, B


def shock_tokens(kind, a, b, val):
    if kind == 'variance':
        return ['var', a, '='] + val + [';']
    if kind == 'stderr':
        return ['var', a, ';', 'stderr'] + val + [';']
    if kind == 'corr':
        return ['corr', a, ',', b, '='] + val + [';']
    return ['var', a, ',', b, '='] + val + [';']


def tokens(f, power='^'):
    D, A, M, B = sections(f, power)
    T = []
    for d in D:
        T += d + [';']
    for a in A:
        T += a
    for m in M:
        T += m
    for blk in f.get('order', BLOCKS):
        T += B.get(blk, [])
    return T


def lines(toks):
    out, line = [], []
    for t in toks:
        line.append(t)
        if t == ';':
            out.append(X.glue(line))
            line = []
    if line:
        out.append(X.glue(line))
    return '\n'.join(out) + '\n'


def text(f):
    return lines(tokens(f))
