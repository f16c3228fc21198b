"""C24: printed summaries show the model's own numbers, each under its own label"""
import math
import re
import numpy as np
from hypothesis import strategies as st
from pbt import models as M, sim as S, observe as O
from pbt.checks.c08 import want as timings
from pbt.harness import Part, Violation, Skip, sut

MODEL = ['variables', 'eigen', 'stoch', 'params']
STATS = ['moments', 'corr', 'autocorr', 'decomp']
HEAD = {'variables:': 'variables', 'steady-state eigenvalues:': 'eigen', 'covariance of stoch shocks:': 'stoch',
        'model calibration:': 'params', 'partial model calibration:': 'params',
        'model moments:': 'moments', 'correlation:': 'corr', 'autocorrelation of endogenous variables:': 'autocorr',
        'variance decomposition:': 'decomp'}


def show(x, what):
    with sut(f'printing {what}'), np.errstate(all='ignore'):
        return str(x)


def number(tok, sig, what, text):
    """value of a printed number, which must carry `sig` digits after the point"""
    try:
        v = float(tok)
    except ValueError:
        raise Violation(f'{what}: {tok!r} is not a number\n{text}')
    if math.isfinite(v) and len(tok.partition('.')[2]) != sig:
        raise Violation(f'{what}: {tok!r} does not have {sig} decimals\n{text}')
    return v


def agree(got, want, sig):
    if math.isnan(want) or math.isnan(got):
        return math.isnan(want) and math.isnan(got)
    if math.isinf(want):
        return got == want
    return abs(got - want) <= 0.5 * 10. ** -sig * (1 + 1e-6) + 1e-9 * abs(want) + 1e-12


def table(lines, ncols, sig, what, text):
    """column names and {row label: numbers} of a block of lines, heading line first"""
    if not lines:
        raise Violation(f'{what}: no heading\n{text}')
    head = lines[0]
    rows = {}
    for l in lines[1:]:
        toks = l.split()
        if toks == ['+']:
            continue
        lab = ' '.join(toks[:len(toks) - ncols])
        if len(toks) < ncols or lab in rows:
            raise Violation(f'{what}: row {l!r} is short or double\n{text}')
        rows[lab] = [number(t, sig, what, text) for t in toks[len(toks) - ncols:]]
    return head, rows


def ends(line):
    return [m.end() for m in re.finditer(r'\S+', line)]


def under(lines, cols, what, text):
    """every number stands under the name of its column: both end at the same place"""
    at, e, k = [], ends(lines[0]), 0
    for c in cols:
        k += len(c.split())
        at.append(e[k - 1])
    for l in lines[1:]:
        if l.split() != ['+'] and ends(l)[-len(cols):] != at:
            raise Violation(f'{what}: the numbers of {l!r} do not stand under the names of their columns\n{text}')


def compare(lines, cols, rows, sig, what, text, need=None, may=()):
    """`rows`: {label: numbers}; `need`: labels that must appear (default: all); `may`: labels that may be either"""
    head, got = table(lines, len(cols), sig, what, text)
    if head.split() != [t for c in cols for t in c.split()]:
        raise Violation(f'{what}: columns {head.split()}, expected {list(cols)}\n{text}')
    if cols:
        under(lines, cols, what, text)
    need = set(rows) if need is None else set(need)
    if need - set(got) or set(got) - need - set(may):
        raise Violation(f'{what}: missing rows {sorted(need - set(got))}, extra rows {sorted(set(got) - need - set(may))}\n{text}')
    for k, v in got.items():
        for c, a, b in zip(cols, v, rows[k]):
            if not agree(a, float(b), sig):
                raise Violation(f'{what}: {k!r}, {c!r} shows {a!r}, the model reports {float(b)!r}\n{text}')


def blocks(text, title, keys, pad):
    """{feature: lines after its heading}"""
    parts = text.split('\n\n')
    if parts[0] != title:
        raise Violation(f'title {parts[0]!r} instead of {title!r}\n{text}')
    out = {}
    for b in parts[1:]:
        lines = b.split('\n')
        k = HEAD.get(lines[0])
        if k is None or k in out or k not in keys:
            raise Violation(f'unexpected block {lines[0]!r}\n{text}')
        for l in lines[1:]:
            if not l.startswith(' ' * pad):
                raise Violation(f'line {l!r} is not padded by {pad}\n{text}')
        out[k] = [l[pad:] for l in lines[1:]]
    return out


def selected(keys, off, only, whole):
    """features that should appear under the options"""
    pick = whole if not only else ([only] if isinstance(only, str) else only)
    return [k for k in keys if k in pick and k not in off]


@st.composite
def options(draw, keys):
    o = dict(off=draw(st.lists(st.sampled_from(keys), unique=True, max_size=2)),
             only=draw(st.sampled_from(['', '', '', 'one', 'many', 'bad', 'badtype'])),
             pick=draw(st.lists(st.sampled_from(keys), unique=True, min_size=1)))
    for k in ('sig', 'pad'):
        if draw(st.booleans()):
            o[k] = draw(st.integers(1, 11)) if k == 'sig' else draw(st.integers(0, 9))
    return o


def kwargs(o):
    kw = {k: o[k] for k in ('sig', 'pad') if k in o}
    for k in o['off']:
        kw[k] = False if k != 'params' else ''
    if o['only'] == 'one':
        kw['only'] = o['pick'][0]
    elif o['only'] == 'many':
        kw['only'] = list(o['pick'])
    elif o['only'] == 'bad':
        kw['only'] = [o['pick'][0], 'nothing']
    elif o['only'] == 'badtype':
        kw['only'] = 3
    return kw


def make(f, o, kw, what):
    """summary object, or None when the options are refused as they should be"""
    if o['only'] in ('bad', 'badtype'):
        try:
            f(**kw)
        except (ValueError, TypeError):
            return None
        raise Violation(f'{what}: only={kw["only"]!r} is not refused')
    with sut(f'{what}({kw})'):
        return f(**kw)


@st.composite
def cases(draw, order=1, **kw):
    return dict(spec=draw(M.planted(zero_var=True, **kw)), order=order, model=draw(options(MODEL)), stats=draw(options(STATS)),
                lags=draw(st.sampled_from([None, 1, 2, 4, 7])), names=draw(st.integers(0, 99)),
                sol={k: v for k, v in dict(sig=draw(st.sampled_from([None, 2, 4, 8])), pad=draw(st.sampled_from([None, 0, 3])),
                                           thresh=draw(st.sampled_from([None, None, 0, 2, -2, -4, -5]))).items() if v is not None},
                stale=draw(st.booleans()), solved=draw(st.integers(0, 3)) > 0 or order == 2)


def model_summary(s, case):
    md, o = s.md if case['solved'] else s.fresh(), case['model']
    kw = kwargs(o)
    pv = M.param_scope(s.f)
    names = list(pv)
    if 'params' not in o['off'] and names and case['names'] % 3:
        sub = names[case['names'] % len(names):][:2] if case['names'] % 3 == 1 else names[case['names'] % len(names)]
        kw['params'] = sub
        pv = {k: pv[k] for k in ([sub] if isinstance(sub, str) else sub)}
    x = make(md.summary, o, kw, 'Model.summary')
    if x is None:
        return
    text = show(x, f'the model summary {kw}\n{s.text}')
    sig, pad = o.get('sig', 6), o.get('pad', 4)
    got = blocks(text, 'model summary:', MODEL, pad)
    exp = selected(MODEL, o['off'], kw.get('only'), MODEL)
    if sorted(got) != sorted(exp):
        raise Violation(f'blocks {sorted(got)} for {kw}, expected {exp}\n{text}')
    if 'variables' in got:
        w = timings(s.f)
        cnt = {'variables': len(s.names), 'stochastic shocks': s.p.ne, 'state vars': len(w['state_vars']),
               'forward-looking vars': len(w['forward_vars']), 'static vars': len(w['static_vars'])}
        seen = {}
        for l in got['variables']:
            a, _, b = l.partition(':')
            seen[a.strip().replace('number of ', '')] = b.strip()
        if seen != {k: str(v) for k, v in cnt.items() if v}:
            raise Violation(f'counts {seen}, the model has {cnt}\n{text}')
    if 'eigen' in got:
        head, *rows = got['eigen']
        if head.split() != ['real', 'imag', 'mod']:
            raise Violation(f'heading {head}\n{text}')
        with sut('eigenvalues'):
            todo = [complex(e) for e in md.statespace.eigen]
        if len(rows) != len(todo):
            raise Violation(f'{len(rows)} eigenvalues shown, the model has {len(todo)}\n{text}')
        prev = None
        for l in rows:
            r, i, m = (number(t, sig, 'eigenvalues', text) for t in l.split())
            hit = [e for e in todo if agree(r, e.real, sig) and agree(i, e.imag, sig) and agree(m, abs(e), sig)]
            if not hit:
                raise Violation(f'{l!r} is none of the eigenvalues {todo}\n{text}')
            todo.remove(hit[0])
            if prev is not None and m < prev and not agree(m, prev, sig):
                raise Violation(f'the eigenvalues are not listed by increasing modulus\n{text}')
            prev = m
    if 'stoch' in got and s.p.ne:
        compare(got['stoch'], s.p.enames, dict(zip(s.p.enames, s.sigma)), sig, 'covariance', text)
    if 'params' in got:
        calibration(got['params'], pv, sig, text)


def calibration(lines, pv, sig, text):
    seen = {}
    for l in lines:
        k, eq, v = l.partition('=')
        if k.strip() in seen:
            raise Violation(f'{k} shown twice\n{text}')
        seen[k.strip()] = number(v.strip(), sig, 'calibration', text)
    if set(seen) != set(pv) or any(not agree(seen[k], pv[k], sig) for k in pv):
        raise Violation(f'calibration {seen}, the model has {pv}\n{text}')


def stats_summary(s, case):
    md, o = s.md if case['solved'] else s.fresh(), case['stats']
    kw = kwargs(o)
    lags = 5
    if case['lags'] is not None and 'autocorr' not in o['off']:
        kw['autocorr'] = lags = case['lags']
    x = make(md.stats.summary, o, kw, 'ModelStatistics.summary')
    if x is None:
        return
    text = show(x, f'the statistics summary {kw}\n{s.text}')
    sig, pad = o.get('sig', 6), o.get('pad', 4)
    got = blocks(text, 'statistics summary:', STATS, pad)
    exp = selected(STATS, o['off'], kw.get('only'), STATS)
    if sorted(got) != sorted(exp):
        raise Violation(f'blocks {sorted(got)} for {kw}, expected {exp}\n{text}')
    nm = s.names
    with sut('statistics'), np.errstate(all='ignore'):
        if 'moments' in got:
            sd = np.array(md.stats.std(), dtype=float)
            mom = np.transpose([md.stats.mean(), sd, sd ** 2])
            compare([got['moments'][0].replace('std dev', 'std_dev')] + got['moments'][1:], ['mean', 'std_dev', 'var'],
                    dict(zip(nm, mom)), sig, 'moments', text)
        if 'corr' in got:
            compare(got['corr'], nm, dict(zip(nm, np.array(md.stats.corr()))), sig, 'correlation', text)
        if 'autocorr' in got:
            ac = np.array(md.stats.autocorr(p=lags))
            compare(got['autocorr'], [f'p = {k + 1}' for k in range(lags)],
                    {v: [ac[k, i, i] for k in range(lags)] for i, v in enumerate(nm)}, sig, 'autocorrelation', text)
        if 'decomp' in got:
            compare(got['decomp'], s.p.enames, dict(zip(nm, np.array(md.stats.var_decomp()))), sig, 'decomposition', text)


def solution_summary(s, sol, case, order):
    kw = case['sol']
    with sut(f'solution summary {kw}'):
        x = sol.summary(**kw)
    text = show(x, f'the solution summary {kw}\n{s.text}')
    sig, pad = kw.get('sig', 6), kw.get('pad', 4)
    lines = text.split('\n')
    title = ('first' if order == 1 else 'second') + ' order policy and transition functions:'
    if lines[0] != title:
        raise Violation(f'title {lines[0]!r}\n{text}')
    if any(not l.startswith(' ' * pad) for l in lines[1:]):
        raise Violation(f'lines are not padded by {pad}\n{text}')
    nm, en = s.names, s.p.enames
    w = timings(s.f)
    state = w['state_vars']
    G, H = M.policy(s.md, s.low)
    pos = {v: i for i, v in enumerate(nm)}
    lag = lambda v: f'{v}(-1)'
    rows = {'steady': np.array(s.md.ss.values, dtype=float)}
    for v in state:
        rows[lag(v)] = G[:, pos[v]]
    for j, e in enumerate(en):
        rows[e] = H[:, j]
    keep = {'steady'}
    if order == 2:
        Gxx, Gxu, Guu, Gss = s.T2
        for a in state:
            for b in state:
                rows[f'{lag(a)}, {lag(b)}'] = Gxx[:, pos[a], pos[b]] / 2
            for j, e in enumerate(en):
                rows[f'{lag(a)}, {e}'] = Gxu[:, pos[a], j]
        for j, e in enumerate(en):
            for k, g in enumerate(en):
                rows[f'{e}, {g}'] = Guu[:, j, k] / 2
        rows['del2'] = Gss / 2
        keep.add('del2')
    thr = kw.get('thresh')
    if order == 1 and thr is None:
        need, may = None, ()
    else:
        t = 10. ** -(sig + (thr or 0))
        big = {k: float(np.max(np.abs(v), initial=0.)) for k, v in rows.items()}
        need = {k for k in rows if k in keep or not big[k] < t * (1 + 1e-9)}
        may = {k for k in rows if k not in need and not big[k] < t * (1 - 1e-9)}
    compare(lines[1:], nm, rows, sig, f'order {order} policy', text, need, may)


def decide(case):
    order = case['order']
    s = S.Solved(case['spec'], order)
    if float(np.max(np.abs(s.G), initial=0.)) > 1e6:
        raise Skip('too large')
    if case['stale']:
        # the same summary again after it was printed
        show(s.md.summary(), 'a summary')
        show(s.sol.summary(), 'a summary')
    model_summary(s, case)
    solution_summary(s, s.sol, case, order)
    if order == 2:
        solution_summary(s, s.low, case, 1)
    stats_summary(s, case)
    w = timings(s.f)
    return bool(w['state_vars']) and s.p.ne >= 1, f"{case['spec']['mix']}{s.p.ne}{s.p.perm}{sorted(case['model'].items())}{sorted(case['stats'].items())}{case['sol']}"


@st.composite
def calibs(draw):
    x = st.one_of(st.just(0.), st.integers(-3, 3), st.floats(-1, 1, width=32), st.floats(-1e7, 1e7, width=32), st.sampled_from([1e-9, -1e-4, 9.9999999, 1e12, 10, 100., -99.99]))
    names = draw(st.lists(st.sampled_from(['a', 'bb', 'rho', 'sigma_long_name', 'x1', 'B', 'z']), unique=True, max_size=5))
    return dict(vals={n: draw(x) for n in names}, sig=draw(st.integers(1, 9)), var=draw(x))


def decide_calib(case):
    import pynare
    vals, sig = case['vals'], case['sig']
    var = abs(case['var'])
    with sut('a model'):
        md = pynare.Model(endog=['q'], stoch=['u'], params=dict(vals), exprs=['q = 0.5*q(-1) + u'], shocks={'u': {'variance': var}})
        md.solve(order=1)
    text = show(md.summary(sig=sig), 'the summary')
    got = blocks(text, 'model summary:', MODEL, 4)
    calibration(got['params'], vals, sig, text)
    compare(got['stoch'], ['u'], {'u': [var]}, sig, 'covariance', text)
    text = show(md.params, 'the calibration')
    head, *lines = text.split('\n')
    calibration(lines, vals, 6, text)
    return bool(vals), None


EQS = ['x = 0.5*x(-1) + e', 'y = x', 'x(+1) - y', 'z=a*y(-1)', 'exp(x) = y + z(+1)', '-x(-1)  =  -(a + 1)*e', 'a*(x - y) = 0', 'y  +  z', '0 = z', 'x^2 = y', 'z = z(-1)', 'y*x']


@st.composite
def equations(draw):
    eq = st.integers(0, len(EQS) - 1)
    op = st.tuples(st.sampled_from(['append', 'insert', 'insert', 'set', 'set', 'del', 'pop', 'extend', 'iadd', 'add', 'tree']), st.integers(-9, 9), eq, eq)
    return dict(start=draw(st.lists(eq, max_size=5)), ops=[list(o) for o in draw(st.lists(op, max_size=8))], file=draw(st.booleans()))


def decide_equations(case):
    """the equations are displayed as they were given, in order, whatever was done to their list"""
    import pynare
    from pynare.core.expressions import ModelExprs
    texts = (['x = 0.5*x(-1) + e', 'y = a*x', 'z=y(+1)'] if case['file'] else []) + [EQS[i] for i in case['start']]
    with sut('equations'):
        if case['file']:
            holder = pynare.Model(endog=['x', 'y', 'z'], stoch=['e'], params={'a': 1.}, exprs=list(texts))
        else:
            class holder: exprs = ModelExprs(list(texts))
    want, log = list(texts), []
    for kind, k, a, b in case['ops']:
        n = len(want)
        if kind in ('set', 'del', 'pop', 'tree') and not n:
            continue
        i = k % n - (n if k % 2 and n else 0) if n else 0
        log.append((kind, i, EQS[a], EQS[b]))
        with sut(f'{kind} {i} on the equations {want}'):
            ex = holder.exprs
            if kind == 'append':
                ex.append(EQS[a]); want.append(EQS[a])
            elif kind == 'insert':
                ex.insert(k, EQS[a]); want.insert(k, EQS[a])
            elif kind == 'set':
                ex[i] = EQS[a]; want[i] = EQS[a]
            elif kind == 'del':
                del ex[i]; del want[i]
            elif kind == 'pop':
                ex.pop(i); want.pop(i)
            elif kind == 'extend':
                ex.extend([EQS[a], EQS[b]]); want.extend([EQS[a], EQS[b]])
            elif kind == 'iadd':
                ex += [EQS[a], EQS[b]]; want += [EQS[a], EQS[b]]
            elif kind == 'add' and case['file']:
                holder.add_exprs(EQS[a] if k % 2 else [EQS[a], EQS[b]]); want += [EQS[a]] if k % 2 else [EQS[a], EQS[b]]
            elif kind == 'tree':
                # given as a tree, it has no text
                ex.append(ex[i]); want.append(None)
    text = show(holder.exprs, 'the equations')
    head, *lines = text.split('\n')
    tight = lambda t: t.replace(' ', '')
    if len(lines) != len(want) or any(w is not None and tight(l) != tight(w) for l, w in zip(lines, want)):
        raise Violation(f'after {log} on {texts} the equations {want} are displayed as\n{text}')
    return len(log) > 1, None


PARTS = [
    Part('first', cases(order=1), decide, 'model with a state variable and a shock; all three summaries with random options; distinct by model shape and options', quick=450, thorough=9000),
    Part('second', cases(order=2, max_n=4, quad=5), decide, 'second-order model with a state variable and a shock', quick=300, thorough=5000),
    Part('small', cases(order=2, max_n=2, min_exog=0, max_exog=2), decide, 'one or two variables, possibly no shock', quick=200, thorough=3000),
    Part('calibration', calibs(), decide_calib, 'calibrations with values of all magnitudes, zeros and integers', quick=300, thorough=4000),
    Part('equations', equations(), decide_equations, 'lists of equations after two or more operations on them', quick=300, thorough=4000),
]
