"""histories of edits and queries on a model, next to a description of what the model is"""
from __future__ import annotations
import copy
import numpy as np
from hypothesis import strategies as st
from pbt import models as M
from pbt.harness import Skip, Violation, sut

VARS = ['x', 'y', 'z', 'k', 'c', 'aa', 'q1', 'X']
EXOG = ['e', 'u', 'eps', 'E1']
DETERM = ['d', 'd2', 'tau']
PARS = ['rho', 'b', 'sig', 'phi_1', 'a', 'lam']


# ------------------------------------------------------------------------------------------------ generators
coef = st.sampled_from([3, -2, 5, 1, -6, 4])
term = st.tuples(st.integers(0, 9), st.sampled_from([-1, 0, 1, -1]), st.integers(-12, 12), st.sampled_from(['lin', 'lin', 'sq', 'exp', 'par'])).map(list)
equation = st.fixed_dictionaries(dict(
    own=st.one_of(st.none(), st.tuples(st.sampled_from([-1, 1, -1]), coef, st.booleans()).map(list)),
    terms=st.lists(term, max_size=2),
    shock=st.lists(st.tuples(st.integers(0, 9), st.integers(1, 15)).map(list), max_size=2),
    const=st.sampled_from([0, 0, 3, -5]), par=st.integers(0, 9), bare=st.booleans()))
moments = st.fixed_dictionaries(dict(variance=st.sampled_from([None, 0.25, 1.0, 2, 0.04, 0.0]), kind=st.sampled_from(['', '', 'corr', 'cov']), other=st.integers(0, 9),
                                     value=st.sampled_from([0.3, -0.5, 0.1])))
QUERIES = ['solve1', 'solve2', 'ss', 'jacobian', 'hessian', 'sigma', 'groups', 'cov', 'mean', 'irf', 'sim', 'eigen', 'summary', 'solsummary', 'statsum', 'repr', 'indexes',
           'initial', 'bounds', 'solution', 'copy', 'params', 'decomp', 'autocorr', 'dynamic', 'exog', 'steadyjac']
query = st.tuples(st.just('query'), st.sampled_from(QUERIES)).map(list)
op = st.one_of(
    st.tuples(st.just('param'), st.integers(0, 9), st.integers(-9, 9), st.sampled_from(['item', 'update', 'add'])).map(list),
    st.tuples(st.just('pstr'), st.integers(0, 9), st.integers(0, 9), st.sampled_from(['item', 'add'])).map(list),
    st.tuples(st.just('pnew'), st.integers(0, 9), st.integers(-9, 9), st.sampled_from(['item', 'update', 'add'])).map(list),
    st.tuples(st.just('eq'), st.integers(0, 9), equation, st.sampled_from(['item', 'slice', 'pop', 'popneg'])).map(list),
    st.tuples(st.just('move'), st.integers(0, 9)).map(list),
    st.tuples(st.just('var'), st.integers(0, 9), equation, st.sampled_from(['endog', 'exprs', 'endogq', 'exprsq', 'endogo', 'exprso']), st.sampled_from([0, 0.1, -0.2])).map(list),
    st.tuples(st.just('stoch'), st.integers(0, 9), moments, st.integers(0, 9), equation, st.sampled_from(['shock', 'shock', 'alone', 'eq', 'eqq', 'shockq'])).map(list),
    st.tuples(st.just('break'), st.integers(0, 9), st.sampled_from(QUERIES)).map(list),
    st.tuples(st.just('determ'), st.integers(0, 2), st.lists(st.integers(-5, 9), max_size=3), st.booleans()).map(list),
    st.tuples(st.just('dval'), st.integers(0, 9), st.integers(-9, 9), st.sampled_from(['add', 'set'])).map(list),
    st.tuples(st.just('bad'), st.integers(0, 9), st.sampled_from(['syntax', 'param', 'name'])).map(list),
)


@st.composite
def histories(draw, copies=False, max_ops=8):
    n = draw(st.integers(1, 3))
    ne = draw(st.integers(0, 2))
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        ops.append(draw(st.one_of(op, op, query) if not copies else st.one_of(op, op, query, st.just(['fork']), st.just(['check']))))
        if draw(st.integers(0, 3)) == 0:
            ops.append(draw(st.one_of(query, st.just(['check']))))
    return dict(endog=draw(st.permutations(VARS))[:n], exog=draw(st.permutations(EXOG))[:ne],
                params=[[k, draw(st.integers(-9, 9))] for k in draw(st.permutations(PARS))[:draw(st.integers(0, 3))]],
                eqs=[draw(equation) for _ in range(n)], moments=[draw(moments) for _ in range(ne)],
                init=[draw(st.sampled_from([0, 0.1, -0.2])) for _ in range(n)],
                bounds=[[draw(st.sampled_from([None, None, 0, 0.3, -1])) for _ in range(2)] for _ in range(n)], local=draw(st.integers(0, 2)) == 0,
                determ=draw(st.lists(st.integers(-5, 9), max_size=3)) if draw(st.integers(0, 2)) == 0 else None,
                how=draw(st.sampled_from(['code', 'file', 'steps', 'code', 'file', 'objects'])), ops=ops, which=[draw(st.integers(0, 5)) for _ in ops])


# ----------------------------------------------------------------------------------------------- description
def eq_text(d, v, q, locs=()):
    """text of an equation for variable v"""
    E, S, P = d['endog'], [s[0] for s in d['stoch']], sorted(d['params'])
    out = []
    at = lambda w, k: w if not k else f'{w}({k:+d})'
    if q['own']:
        k, c, par = q['own']
        out.append(f'{c / 10}*{at(v, k)}')
        if par and locs:
            out.append(f'0.1*{locs[0]}*{at(v, -1)}')
    for j, k, c, kind in q['terms']:
        w = E[j % len(E)]
        if w == v and k == 0 or not c:
            continue
        if kind == 'lin':
            out.append(f'{c / 100}*{at(w, k)}')
        elif kind == 'sq':
            out.append(f'{c / 100}*{at(w, k)}^2')
        elif kind == 'exp':
            out.append(f'{c / 100}*(exp({at(w, k)}) - 1)')
        elif P:
            out.append(f'0.1*{P[(q["par"] + j) % len(P)]}*{at(w, k)}')
    for j, s in q['shock']:
        if S:
            out.append(f'{s / 10}*{S[j % len(S)]}')
    if q['const']:
        out.append(str(q['const'] / 10))
    rhs = ' + '.join(out) or '0'
    return f'{v} - ({rhs})' if q['bare'] else f'{v} = {rhs}'


def attrs_of(d, m, names):
    """StochVar attributes of a shock"""
    a = {}
    if m['variance'] is not None:
        a['variance'] = m['variance']
    if m['kind'] and names:
        var = lambda n: dict(d['stoch'])[n].get('variance', 1.0)
        o = names[m['other'] % len(names)]
        a['other'] = o
        a[m['kind']] = m['value'] if m['kind'] == 'corr' else round(m['value'] * (var(o) * a.get('variance', 1.0)) ** .5, 6)
    return a


def start(case):
    """description of the initial model"""
    d = dict(endog=list(case['endog']), stoch=[], params={k: v / 10 for k, v in case['params']}, exprs=[], locals={}, initial={})
    for e, m in zip(case['exog'], case['moments']):
        d['stoch'].append([e, attrs_of(d, m, [s[0] for s in d['stoch']])])
    if case['local'] and d['params'] and case['how'] != 'steps':
        d['locals'] = {'loc_': f'2*{sorted(d["params"])[0]}'}
    # files cannot define deterministic shocks yet
    d['determ'] = [[DETERM[0], list(range(1, len(case['determ']) + 1)), [v / 10 for v in case['determ']]]] \
        if case.get('determ') is not None and case['how'] != 'file' else []
    d['exprs'] = [eq_text(d, v, q, list(d['locals'])) for v, q in zip(d['endog'], case['eqs'])]
    d['initial'] = {v: i for v, i in zip(d['endog'], case['init'])}
    for j, k in enumerate(('terminal', 'historical')):
        d[k] = {v: b[j] for v, b in zip(d['endog'], case['bounds']) if b[j] is not None}
    return d


def file_text(d):
    T = [f"var {' '.join(d['endog'])};"]
    if d['stoch']:
        T.append(f"varexo {' '.join(s[0] for s in d['stoch'])};")
    if d['params']:
        T.append(f"parameters {' '.join(d['params'])};")
        T += [f'{k} = {v};' for k, v in d['params'].items()]
    T.append('model;')
    T += [f'#{k} = {v};' for k, v in d['locals'].items()]
    T += [e + ';' for e in d['exprs']] + ['end;', 'initval;']
    T += [f'{v} = {i};' for v, i in d['initial'].items()] + ['end;']
    for b, k in (('endval', 'terminal'), ('histval', 'historical')):
        if d[k]:
            T += [b + ';'] + [f'{v} = {i};' for v, i in d[k].items()] + ['end;']
    lines = []
    for n, a in d['stoch']:
        if 'variance' in a:
            lines.append(f"var {n} = {a['variance']};")
        for k in ('corr', 'cov'):
            if k in a:
                lines.append(f"{'corr' if k == 'corr' else 'var'} {n}, {a['other']} = {a[k]};")
    if lines:
        T += ['shocks;'] + lines + ['end;']
    return '\n'.join(T) + '\n'


def definitions(d):
    """of the exogenous variables, as a model takes them"""
    return {**{n: dict(a) for n, a in d['stoch']}, **{n: dict(periods=list(p), values=list(v)) for n, p, v in d['determ']}}


def fresh(d, how='code'):
    """a model written in this form from the start"""
    import pynare
    if how == 'file' and not d['determ']:
        return M.read(file_text(d))
    return pynare.Model(endog=list(d['endog']), stoch=[s[0] for s in d['stoch']], params=dict(d['params']), exprs=list(d['exprs']),
                        determ=[s[0] for s in d['determ']], shocks=definitions(d), initial=dict(d['initial']), terminal=dict(d['terminal']), historical=dict(d['historical']),
                        local_params=dict(d['locals']))


def from_objects(d):
    """the same model, with the variables defined beforehand"""
    import pynare
    endog = [endog_var(v, d['initial'].get(v, 0), **{k: d[k][v] for k in ('terminal', 'historical') if v in d[k]}) for v in d['endog']]
    return pynare.Model(endog=endog, stoch=[stoch_var(n, a) for n, a in d['stoch']], determ=[determ_var(*v) for v in d['determ']], params=dict(d['params']), exprs=list(d['exprs']),
                        local_params=dict(d['locals']))


def endog_var(v, initial, **kw):
    from pynare.core.variables import EndogVar
    return EndogVar(v, initial=initial, **kw)


def stoch_var(n, a):
    from pynare.core.variables import StochVar
    return StochVar(n, **{'variance': 1.0, **a})


def determ_var(n, p, v):
    from pynare.core.variables import DetermVar
    return DetermVar(n, periods=list(p), values=list(v))


def stepwise(d):
    """the same model, put together through the interface"""
    import pynare
    md = pynare.Model()
    for v in d['endog']:
        md.add_endog(v, initial=d['initial'].get(v, 0), **{k: d[k][v] for k in ('terminal', 'historical') if v in d[k]})
    md.add_params(**d['params'])
    for n, a in d['stoch']:
        md.add_stoch(n, **a)
    for n, p, v in d['determ']:
        md.add_determ(n, periods=list(p), values=list(v))
    md.add_exprs(list(d['exprs']))
    return md


# --------------------------------------------------------------------------------------------------- queries
def shocks_for(md):
    n = len(md.stoch)
    return np.array([[((3 * t + 2 * j) % 5 - 2) / 20 for j in range(n)] for t in range(4)]).reshape(4, n)


def ask(md, q):
    """answer of one query, as plain data"""
    A = lambda x: np.array(x, dtype=float)
    if q == 'solve1':
        s = md.solve(order=1)
        return [A(s.gy), A(s.gu)]
    if q == 'solve2':
        s = md.solve(order=2)
        return [A(s.lower_solution.gy), A(s.lower_solution.gu), A(s.ghxx), A(s.ghxu), A(s.ghuu), A(s.del2)]
    if q == 'solve0':
        s = md.solve()
        return [s.order, A(s.ghxx)] if s.order == 2 else [s.order, A(s.gy)]
    if q == 'ss':
        return A(md.ss.values)
    if q == 'jacobian':
        return A(md.jacobian.array)
    if q == 'steadyjac':
        return A(md.ss.jacobian.array)
    if q == 'hessian':
        return A(md.hessian.array)
    if q == 'sigma':
        return A(md.sigma)
    if q == 'groups':
        return [[str(v.name) for v in getattr(md, g)] for g in ('static_vars', 'pure_backward_vars', 'mixed_vars', 'pure_forward_vars', 'state_vars')]
    if q == 'cov':
        return A(md.stats.cov())
    if q == 'mean':
        return A(md.stats.mean())
    if q == 'decomp':
        return A(md.stats.var_decomp()) if len(md.stoch) else None
    if q == 'autocorr':
        return A(md.stats.autocov(p=2))
    if q == 'irf':
        return A(md.impulse_response(periods=4).impulse) if len(md.stoch) else None
    if q == 'sim':
        return A(md.simulate(shocks=shocks_for(md)).paths)
    if q == 'eigen':
        e = np.absolute(np.array(md.statespace.eigen, dtype=complex))
        return np.sort(np.where(e < 1e6, e, 1e6))
    if q == 'indexes':
        i = md.indexes
        return [A(i.dr_order), A(i.dc_order), i.n_static, i.n_forward]
    if q == 'initial':
        return A(md.initial)
    if q == 'bounds':
        return [A(md.terminal), A(md.historical)]
    if q == 'exog':
        return [[str(v) for v in md.exog], [str(v) for v in md.stoch]] + [[str(v), A(v.periods), A(v.values)] for v in md.determ]
    if q == 'params':
        return {**{str(k): float(v) for k, v in dict(md.params).items()}, **{'#' + str(k): float(v) for k, v in dict(md.local_params).items()}}
    if q == 'solution':
        return md.solution.order
    if q == 'dynamic':
        n, m = len(md.endog), md.jacobian.array.shape[1]
        return [A(md.steady_repr(np.array([0.1 * (1 + k) for k in range(n)]))), A(md.dynamic_repr(np.array([0.1 * (1 + k % 4) for k in range(m)])))]
    if q == 'summary':
        md.summary()
        return None
    if q == 'solsummary':
        md.solution.summary()
        return None
    if q == 'statsum':
        md.stats.summary()
        return None
    if q == 'repr':
        repr(md), repr(md.exprs), repr(md.params), repr(md.endog)
        return None
    if q == 'copy':
        md.copy()
        return None
    raise AssertionError(q)


SILENT = ('summary', 'solsummary', 'statsum', 'repr', 'copy')
REPORT = [q for q in QUERIES if q not in SILENT and q != 'solution']


def answer(md, q):
    try:
        with np.errstate(all='ignore'):
            return 'value', ask(md, q)
    except (Violation, Skip):
        raise
    except Exception as e:
        return 'error', type(e).__name__


def equal(a, b, tol=1e-7):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        fa, fb = np.isfinite(a), np.isfinite(b)
        return bool(np.array_equal(fa, fb) and np.all(np.abs(a[fa] - b[fb]) <= tol * (1 + np.max(np.abs(b[fb]), initial=0.))))
    if isinstance(a, float):
        return abs(a - b) <= tol * (1 + abs(b)) or (a != a and b != b)
    return a == b


def rotate(k):
    """an order of the queries of a report: solution-dependent ones come after a solve"""
    base = ['solve1', 'ss', 'jacobian', 'sigma', 'groups', 'cov', 'irf', 'sim', 'eigen', 'indexes', 'initial', 'bounds', 'params', 'decomp', 'autocorr', 'dynamic', 'mean', 'exog', 'steadyjac']
    k %= len(base)
    order = base[k:] + base[:k]
    # which solution is there decides some answers
    return ['solve0'] * (k % 3 == 0) + ['solve1'] + [q for q in order if q != 'solve1'] + ['hessian', 'solve2', 'mean', 'sim']


def check(md, d, log, k, how):
    """everything the model reports equals what a model written in this form reports"""
    with sut(f'a model in the final form\n{file_text(d)}'):
        ref = fresh(d, how)
    listing(md, d, log)
    good = 0
    for q in rotate(k):
        got, want = answer(md, q), answer(ref, q)
        if got[0] != want[0] or not equal(got[1], want[1]):
            raise Violation(f'{q} is {got[1]}\nbut {want[1]} for a model written as\n{file_text(d)}after {log}')
        good += got[0] == 'value'
    return good


def listing(md, d, log):
    """the printed equations are those of the model, in order (those read from a file have no text)"""
    with sut(f'printing the equations of\n{file_text(d)}after {log}'):
        text = str(md.exprs)
    lines = text.split('\n')[1:]
    flat = lambda t: ''.join(t.split())
    if len(lines) != len(d['exprs']) or d.get('written') and any(
            flat(l) != flat(t) and t not in d.get('moved', []) for l, t in zip(lines, d['exprs'])):
        raise Violation(f'the equations are printed as\n{text}\nfor a model written as\n{file_text(d)}after {log}')


    with sut(f'listing the variables of\n{file_text(d)}after {log}'):
        names = [str(v) for v in md.endog], [str(v) for v in md.exog], [str(v) for v in md.exog.names]
    exog = [s[0] for s in d['stoch']] + [s[0] for s in d['determ']]
    if names != (d['endog'], exog, exog):
        raise Violation(f'the variables are listed as {names}; {d["endog"]} and {exog} expected\n{file_text(d)}after {log}')
    stoch, determ = [s[0] for s in d['stoch']], [s[0] for s in d['determ']]
    for what, want in (('endog', d['endog']), ('exog', exog), ('stoch', stoch), ('determ', determ)):
        with sut(f'looking for variables in {what} of\n{file_text(d)}after {log}'):
            got = [n for n in VARS + EXOG + DETERM + PARS if n in getattr(md, what)]
        if sorted(got) != sorted(want):
            raise Violation(f'{what} is said to contain {got}; {want} expected\n{file_text(d)}after {log}')
        with sut(f'get_loc of {what} of\n{file_text(d)}after {log}'):
            each, back = [int(getattr(md, what).get_loc(n)) for n in want], [int(i) for i in getattr(md, what).get_loc(want[::-1])]
        if each != list(range(len(want))) or back != each[::-1]:
            raise Violation(f'{what}.get_loc puts {want} at {each}, and {want[::-1]} at {back}\n{file_text(d)}after {log}')


# ------------------------------------------------------------------------------------------------------ edits
def apply(md, d, o, log):
    """one edit on the model and on the description (the caller keeps them in step); False if it does not apply"""
    kind = o[0]
    if kind == 'query':
        log.append(f'query {o[1]}')
        answer(md, o[1])
        return False
    if kind in ('param', 'pnew', 'pstr'):
        if kind == 'pnew':
            name = PARS[o[1] % len(PARS)]
        elif not d['params']:
            return False
        else:
            name = sorted(d['params'])[o[1] % len(d['params'])]
        if kind == 'pstr':
            nums = [p for p in sorted(d['params']) if p != name and not isinstance(d['params'][p], str)]
            if not nums or any(isinstance(v, str) and name in v for v in d['params'].values()):
                return False
            val = f'0.5*{nums[o[2] % len(nums)]}'
        else:
            val = o[2] / 10
        log.append(f'{o[3]}: {name} = {val!r}')
        with sut(log[-1] + f' in\n{file_text(d)}after {log}'):
            if o[3] == 'item':
                md.params[name] = val
            elif o[3] == 'update':
                md.params.update({name: val})
            else:
                md.add_params(**{name: val})
        d['params'][name] = val
        return True
    if kind == 'eq':
        i = o[1] % len(d['exprs'])
        t = eq_text(d, d['exprs_of'][i], o[2], list(d['locals']))
        log.append(f'{o[3]}: exprs[{i}] = {t!r}')
        with sut(log[-1]):
            if o[3] == 'pop':
                md.exprs.pop(i)
                md.exprs.insert(i, t)
            elif o[3] == 'popneg':          # a position counted from the end
                n = len(d['exprs'])
                del md.exprs[i - n]
                md.exprs.insert(i - n + 1 if i < n - 1 else n + 3, t)
            elif o[3] == 'slice':
                md.exprs[i - len(d['exprs'])] = t
            else:
                md.exprs[i] = t
        d['exprs'][i] = t
        return True
    if kind == 'move':
        i = o[1] % len(d['exprs'])
        log.append(f'exprs.append(exprs.pop({i}))')
        with sut(log[-1]):
            md.exprs.append(md.exprs.pop(i))
        for k in ('exprs', 'exprs_of'):
            d[k].append(d[k].pop(i))
        d.setdefault('moved', []).append(d['exprs'][-1])       # handed over as a parsed equation, without a text
        return True
    if kind == 'var':
        name = VARS[o[1] % len(VARS)]
        if name in d['endog'] or len(d['endog']) >= 5:
            return False
        d['endog'].append(name)
        t = eq_text(d, name, o[2], list(d['locals']))
        log.append(f'{o[3]}: add {name} (initial {o[4]}) with {t!r}')
        with sut(log[-1]):
            if o[3].startswith('endog'):
                md.add_endog(endog_var(name, o[4])) if o[3].endswith('o') else md.add_endog(name, initial=o[4])
            else:
                md.add_exprs(t)
        if o[3].endswith('q'):
            for q in ('ss', 'jacobian', 'groups'):
                answer(md, q)
        with sut(log[-1]):
            if o[3].startswith('endog'):
                md.add_exprs([t])
            else:
                md.add_endog([endog_var(name, o[4])]) if o[3].endswith('o') else md.add_endog([name], initial=o[4])
        d['exprs'].append(t)
        d['exprs_of'].append(name)
        d['initial'][name] = o[4]
        return True
    if kind == 'stoch':
        name = EXOG[o[1] % len(EXOG)]
        if name in [s[0] for s in d['stoch']]:
            return False
        a = attrs_of(d, o[2], [s[0] for s in d['stoch']])
        d['stoch'].append([name, a])
        i = o[3] % len(d['exprs'])
        q = dict(o[4])
        q['shock'] = [[len(d['stoch']) - 1, 7]]
        t = eq_text(d, d['exprs_of'][i], q, list(d['locals']))
        log.append(f'{o[5]}: add shock {name} {a} with exprs[{i}] = {t!r}')
        if o[5].startswith('eq'):
            with sut(log[-1]):
                md.exprs[i] = t
        else:
            with sut(log[-1]):
                md.add_stoch(stoch_var(name, a)) if o[3] >= 7 else md.add_stoch(name, **a)
        if o[5] == 'alone':                 # in no equation
            return True
        if o[5].endswith('q'):
            for q in ('sigma', 'jacobian', 'ss'):
                answer(md, q)
        if o[5].startswith('eq'):
            with sut(log[-1]):
                md.add_stoch(stoch_var(name, a)) if o[3] >= 7 else md.add_stoch(name, **a)
        else:
            with sut(log[-1]):
                md.exprs[i] = t
        d['exprs'][i] = t
        return True
    if kind == 'determ':
        name = DETERM[o[1]]
        if name in [s[0] for s in d['determ']]:
            return False
        new = [name, list(range(2, len(o[2]) + 2)), [v / 10 for v in o[2]]]
        d['determ'].append(new)
        log.append(f'add deterministic {new}')
        with sut(log[-1]):
            md.add_determ(determ_var(*new)) if o[3] and o[1] == 2 else md.add_determ([name] if o[3] else name, periods=list(new[1]), values=list(new[2]))
        return True
    if kind == 'dval':
        if not d['determ']:
            return False
        v = d['determ'][o[1] % len(d['determ'])]
        log.append(f'{o[3]} a value {o[2]} of {v[0]}')
        with sut(log[-1]):
            got = md.determ[o[1] % len(d['determ'])]
            if o[3] == 'add' or not v[2]:
                got.periods.append(99)
                got.values.append(float(o[2]))
                v[1].append(99)
                v[2].append(float(o[2]))
            else:
                got.values[-1] = float(o[2])
                v[2][-1] = float(o[2])
        return True
    if kind == 'break':
        free = [k for k in sorted(d['params']) if not any(isinstance(v, str) and k in v for v in d['params'].values())
                and not any(k in v for v in d['locals'].values())]
        if not free:
            return False
        k = free[o[1] % len(free)]
        log.append(f'delete {k}, query {o[2]}, define {k} again')
        with sut(log[-1]):
            del md.params[k]
        answer(md, o[2])
        answer(md, 'jacobian')
        with sut(log[-1]):
            md.params[k] = d['params'][k]
        return True
    if kind == 'bad':
        i = o[1] % len(d['exprs'])
        log.append(f'rejected edit ({o[2]})')
        try:
            if o[2] == 'syntax':
                md.exprs[i] = f"{d['endog'][0]} = = 2"
            elif o[2] == 'param':
                md.params['new_'] = 'not_defined_anywhere + 1'
            else:
                md.add_exprs('(' + d['endog'][0])
        except Exception:
            return True
        raise Violation(f'{log[-1]} was accepted; {log}')
    raise AssertionError(o)


def begin(case):
    d = start(case)
    d['exprs_of'] = list(d['endog'])
    how = case['how']
    d['written'] = how != 'file'
    with sut(f'building ({how})\n{file_text(d)}'):
        md = stepwise(d) if how == 'steps' else from_objects(d) if how == 'objects' else fresh(d, how)
    return md, d


def decide(case):
    """C22"""
    md, d = begin(case)
    log, n = [f"start ({case['how']})"], 0
    hows = ['code', 'file']
    for k, o in enumerate(case['ops']):
        if o == ['check']:
            check(md, d, log, k + len(case['ops']), hows[case['which'][k % len(case['which'])] % 2])
            continue
        did = apply(md, d, o, log)
        n += bool(did)
        if did and case['which'][k % len(case['which'])] == 0:
            # without solving first: the default solution, not one of the model before the edit
            with sut('final form'):
                ref = fresh(d)
            for q in ('sim', 'mean'):
                a, b = answer(md, q), answer(ref, q)
                if a[0] != b[0] or not equal(a[1], b[1]):
                    raise Violation(f'{q} right after an edit is {a[1]}\nbut {b[1]} for a model written as\n{file_text(d)}after {log}')
    good = check(md, d, log, len(case['ops']), hows[sum(case['which']) % 2])
    return n > 0 and good > 8, f"{[o[0] for o in case['ops']]}{case['endog']}{case['how']}"


def decide_fork(case):
    """C23"""
    md, d = begin(case)
    group = [[md, d, [f"start ({case['how']})"]]]
    forks = 0
    for k, o in enumerate(case['ops']):
        w = case['which'][k]
        g = group[w % len(group)]
        if o == ['fork']:
            if len(group) >= 3:
                continue
            with sut(f'copying\n{file_text(g[1])}after {g[2]}'):
                c = g[0].copy()
            g[2].append('copied')
            group.append([c, copy.deepcopy(g[1]), g[2] + ['(this is the copy)']])
            forks += 1
            continue
        if o == ['check']:
            check(*g, k, 'code')
            continue
        apply(*g[:2], o, g[2])
    if not forks:
        raise Skip('no copy')
    good = 0
    for k, g in enumerate(group):
        good += check(*g, k + sum(case['which']), 'code')
    return good > 16, f"{[o[0] for o in case['ops']]}{case['which']}{case['endog']}"
