"""C28: requests for what is not there are refused and change nothing"""
import re
import warnings
import numpy as np
from hypothesis import strategies as st
from pbt import edits as E, models as M
from pbt.harness import Part, Violation, Skip, sut


def fresh_name(d, k):
    taken = set(d['endog']) | {s[0] for s in d['stoch']} | set(d['params']) | set(d['locals'])
    pool = ['zz', 'w', 'shock', 'x0', 'E', 'Rho', 'endog', 'order', 'k_1', 'T'] + [v.upper() for v in d['endog']] + [v + '_' for v in d['endog']] + [v[:1] for v in taken]
    free = [v for v in pool if v not in taken]
    return free[k % len(free)]


def pick(seq, k):
    if not seq:
        raise Skip('nothing of the kind')
    return seq[k % len(seq)]


def exog(d):
    return [s[0] for s in d['stoch']]


def other(d, k):
    """a name that is not a shock: undeclared, or of something else"""
    return pick([fresh_name(d, k)] + d['endog'] + sorted(d['params']), k)


def need(c):
    if not c:
        raise Skip('no such model')


def sim(md, T=6):
    return md.simulate(shocks=np.resize(E.shocks_for(md), (T, len(md.stoch))))


def regime(md, **kw):
    from pynare.regimes import RegimeSwitchingModel
    return RegimeSwitchingModel(md, **kw)


def occ(md, d, con=None, **kw):
    x, y = d['endog'][0], d['endog'][-1]
    kw = dict(dict(exprs={0: d['exprs'][0]}, shocks=np.array([0.1, 0., 0.])), **kw)
    return md.solve(constraint=(f'{x} < -50', f'{y} > -50') if con is None else con, **kw)


def occ_fine(md, d, k):
    return occ(md, d, exog=pick([exog(d)[0], None, [exog(d)[0]]], k) if exog(d) else None, shocks=np.ones((3, 1)) / 10, periods=pick([None, 3, 4, 20], k))


def mismatch(md, d, k):
    """a regime with other variables, shocks or parameters than the reference"""
    from pynare.core.solve import Constraint, solve_occbin_one_constraint
    x = d['endog'][0]
    z = fresh_name(d, k)
    alt = md.copy()
    what = k % 4
    if what == 0:
        alt.add_endog(z)
        alt.add_exprs(f'{z} = 0.5*{x}')
    elif what == 1:
        alt.add_stoch(z)
    elif what == 2:
        alt.add_params(**{z: 1})
    else:
        need(len(d['endog']) > 1)
        alt = E.fresh(dict(d, endog=d['endog'][::-1]))
    return solve_occbin_one_constraint(md, alt, Constraint((f'{x} < -50', f'{x} > -50'), endog=md.endog, params=md.params, exog=md.stoch), shocks=np.ones(3) / 10)


def plain(d, **kw):
    import pynare
    return pynare.Model(**{**dict(endog=list(d['endog']), stoch=exog(d), params=dict(d['params']), exprs=list(d['exprs']), local_params=dict(d['locals'])), **kw})


# name: (bad request, good neighbour), each of (model, description, a number)
REQUESTS = {
    'order': (lambda md, d, k: md.solve(order=pick([3, -1, 4, -2, '2', 2.5, 'first', 10], k)), lambda md, d, k: md.solve(order=1 + k % 2)),
    'order of a simulation': (lambda md, d, k: md.simulate(order=pick([3, 4, -1, 7], k)), lambda md, d, k: md.simulate(order=1)),
    'columns of shocks': (lambda md, d, k: md.simulate(shocks=np.ones((4, pick([j for j in range(1, 5) if j != len(md.stoch)], k)))), lambda md, d, k: md.simulate(shocks=np.ones((4, len(md.stoch))))),
    'length of initial values': (lambda md, d, k: md.simulate(shocks=E.shocks_for(md), init=np.ones(pick([j for j in range(2, 6) if j != len(md.endog)], k))),
                                 lambda md, d, k: md.simulate(shocks=E.shocks_for(md), init=np.ones(len(md.endog)))),
    'negative periods of a simulation': (lambda md, d, k: md.simulate(periods=-1 - k), lambda md, d, k: md.simulate(periods=1 + k)),
    'negative periods of a response': (lambda md, d, k: md.impulse_response(pick(exog(d), k), periods=-1 - k), lambda md, d, k: md.impulse_response(pick(exog(d), k), periods=1 + k)),
    'shock of a response': (lambda md, d, k: md.impulse_response(other(d, k)), lambda md, d, k: md.impulse_response(pick(exog(d), k))),
    'shocks of a response': (lambda md, d, k: md.impulse_response([pick(exog(d), k), other(d, k)]), lambda md, d, k: md.impulse_response([pick(exog(d), k)])),
    'statistic': (lambda md, d, k: getattr(md.stats, pick(['skewness', 'median', 'covariance', 'acf', 'Mean', 'autocorrelation', 'decomp'], k))(),
                  lambda md, d, k: getattr(md.stats, pick(['cov', 'corr', 'std', 'var', 'mean'], k))()),
    'variable of a decomposition': (lambda md, d, k: md.stats.var_decomp(endog=pick([fresh_name(d, k)] + exog(d), k)), lambda md, d, k: md.stats.var_decomp(endog=pick(d['endog'], k))),
    'shock of a decomposition': (lambda md, d, k: md.stats.var_decomp(stoch=pick([fresh_name(d, k)] + d['endog'], k)), lambda md, d, k: md.stats.var_decomp(stoch=pick(exog(d), k))),
    'lags of a simulation': (lambda md, d, k: sim(md).autocorr(p=pick([7, -1, 9, -3], k)), lambda md, d, k: sim(md).autocorr(p=1 + k % 5)),
    'lags after dropping': (lambda md, d, k: sim(md).autocorr(p=1 + k % 6, drop=6 - k % 6), lambda md, d, k: sim(md).autocorr(p=1, drop=k % 4)),
    'dropped periods': (lambda md, d, k: sim(md).corr(drop=pick([7, -1, 8, -5], k)), lambda md, d, k: sim(md).corr(drop=k % 4)),
    'dropped periods of autocorrelations': (lambda md, d, k: sim(md).autocorr(p=1, drop=pick([7, -1, 8, -5], k)), lambda md, d, k: sim(md).autocorr(p=1, drop=k % 4)),
    'negative lags': (lambda md, d, k: getattr(md.stats, pick(['autocorr', 'autocov'], k))(p=-1 - k // 2), lambda md, d, k: md.stats.autocov(p=1 + k % 4)),
    'language': (lambda md, d, k: plain(d, language=pick(['matlab', 'iris', 'Dynare', 'dynare++', 'gensys'], k)), lambda md, d, k: plain(d, language='dynare')),
    'method for the steady state': (lambda md, d, k: md.ss.compute(method=pick([0, 1, 'bfgs', 9, 12, -1, 'newton', 4, 2, 3], k)), lambda md, d, k: md.ss.compute(method=pick([8, None, 'nelder-mead'], k))),
    'block of a summary': (lambda md, d, k: md.summary(only=pick(['zzz', 'statistics', ['eigen', 'nothing'], 3, 'variable'], k)), lambda md, d, k: md.summary(only=pick(['variables', 'stoch', 'params'], k))),
    'option of a summary': (lambda md, d, k: md.summary(nothing=True), lambda md, d, k: md.summary(eigen=False)),
    'point of the static form': (lambda md, d, k: md.steady_repr(np.zeros(pick([j for j in range(6) if j != len(d['endog'])], k))), lambda md, d, k: md.steady_repr(np.zeros(len(d['endog'])))),
    'point of the dynamic form': (lambda md, d, k: md.dynamic_repr(np.zeros(pick([j for j in range(1, 14) if j not in (md.jacobian.array.shape[1], md.jacobian.array.shape[1] - len(md.stoch))], k))),
                                  lambda md, d, k: md.dynamic_repr(np.zeros(md.jacobian.array.shape[1]))),
    'parameter': (lambda md, d, k: md.params[pick([fresh_name(d, k)] + d['endog'], k)], lambda md, d, k: md.params[pick(sorted(d['params']), k)]),
    'deleting a parameter': (lambda md, d, k: md.params.__delitem__(fresh_name(d, k)), None),
    'value of a parameter': (lambda md, d, k: md.add_params(**{pick(sorted(d['params']) + ['zz'], k): pick([None, [1, 2], {}, (1,), np.ones(2)], k)}), None),
    'text of a parameter': (lambda md, d, k: md.params.__setitem__(pick(sorted(d['params']) + ['zz'], k), pick(['1 +', '2 * nothing_', '(3', '', '1 2', 'x = 3;'], k)), None),
    'circular parameter': (lambda md, d, k: md.params.__setitem__(pick(sorted(d['params']), k), f"1 + {pick(sorted(d['params']), k)}"), None),
    'several parameters': (lambda md, d, k: md.params.__setitem__('zz', f"{pick(sorted(d['params']), k)} * nothing_"), None),
    'equation': (lambda md, d, k: md.exprs.append(pick([3, None, 'x = = 2', '(', 2.5, ['x = 1']], k)), None),
    'replaced equation': (lambda md, d, k: md.exprs.__setitem__(k % len(d['exprs']), pick([3, None, 'x = = 2', '(', 2.5], k)), None),
    'place of an equation': (lambda md, d, k: md.exprs.__setitem__(len(d['exprs']) + k, d['exprs'][0]), lambda md, d, k: md.exprs.__setitem__(0, d['exprs'][0])),
    'name of a variable': (lambda md, d, k: md.add_endog(pick([3, 2.5, [1]], k)), None),
    'name of a shock': (lambda md, d, k: md.add_stoch(pick([3, 2.5, [1]], k)), None),
    'attribute of a variable': (lambda md, d, k: md.add_endog('zz', **{pick(['foo', 'variance', 'steady'], k): 1}), None),
    'attribute of a shock': (lambda md, d, k: md.add_stoch('zz', **{pick(['foo', 'initial', 'stderr_'], k): 1}), None),
    'regimes of nothing': (lambda md, d, k: regime(md), lambda md, d, k: regime(md, exprs={0: d['exprs'][0]})),
    'regimes of covariances': (lambda md, d, k: regime(md, sigma={0: 1.0}), lambda md, d, k: regime(md, exprs={0: d['exprs'][0]})),
    'equation of a regime': (lambda md, d, k: regime(md, exprs={len(d['exprs']) + k: d['exprs'][0]}), lambda md, d, k: regime(md, exprs={0: d['exprs'][0]})),
    'condition of a constraint': (lambda md, d, k: occ(md, d, (lambda x, z: pick([f'{x} < -1', (f'{x} < -1',), (f'{x} < -1', f'{x} > -1', f'{x} > 0'), (f'{x} <', f'{x} > -1'), (f'{x} < -1', f'({x} > -1'),
                                                          (f'{z} < -1', f'{x} > -1'), (f'{x} < -1', f'{x} > {z}'), ((f'{x} < -1', f'{x} > -1'), (f'{x} < -1',)), (3, 4), (f'{x} < = -1', f'{x} > 2')], k))(d['endog'][0], fresh_name(d, k))), occ_fine),
    'number of constraints': (lambda md, d, k: occ(md, d, [(f"{d['endog'][0]} < -1", f"{d['endog'][0]} > -1")] * pick([2, 3, 4], k), **pick([{}, dict(exprs=[{0: d['exprs'][0]}] * 2), dict(exprs=[{0: d['exprs'][0]}])], k // 3)), occ_fine),
    'more constraints than two': (lambda md, d, k: occ(md, d, [(f"{d['endog'][0]} < -1", f"{d['endog'][0]} > -1")] * (3 + k % 2), exprs=[{0: d['exprs'][0]}] * (3 + k // 2 % 3)), occ_fine),
    'shock of a constrained solution': (lambda md, d, k: occ(md, d, exog=other(d, k) if k % 2 else [other(d, k)], shocks=np.ones((3, 1))), occ_fine),
    'columns of a constrained solution': (lambda md, d, k: (need(exog(d)), occ(md, d, exog=pick([exog(d)[0], [exog(d)[0]], None], k), shocks=np.ones((3, 2 + k % 3)))), occ_fine),
    'vector for a list of shocks': (lambda md, d, k: (need(len(exog(d)) > 1), occ(md, d, exog=exog(d)[:2], shocks=np.ones(3))), occ_fine),
    'text of a constrained solution': (lambda md, d, k: occ(md, d, shocks=pick(['abc', ['a', 'b'], None, {}], k)), occ_fine),
    'start of a constrained solution': (lambda md, d, k: occ(md, d, init=np.ones(pick([j for j in range(2, 6) if j != len(md.endog)], k))), occ_fine),
    'periods of a constrained solution': (lambda md, d, k: occ(md, d, periods=pick([-1, -4, 1, 2], k)), occ_fine),
    'option of a constrained solution': (lambda md, d, k: occ(md, d, **{pick(['foo', 'order_', 'bounds', 'period'], k): 1}), occ_fine),
    'unknown name in a regime': (lambda md, d, k: occ(md, d, exprs={0: f"{d['endog'][0]} = {fresh_name(d, k)}"}), occ_fine),
    'constrained solution without a regime': (lambda md, d, k: occ(md, d, exprs={}), occ_fine),
    'regimes that differ': (lambda md, d, k: mismatch(md, d, k), occ_fine),
    'text of a regime': (lambda md, d, k: regime(md, exprs={0: pick(['x = = 2', '(', 'x +'], k)}), lambda md, d, k: regime(md, exprs={0: d['exprs'][0]})),
}


@st.composite
def requests(draw):
    c = draw(E.histories(max_ops=1))
    c['ops'], c['which'] = [], []
    c['request'] = draw(st.lists(st.tuples(st.sampled_from(sorted(REQUESTS)), st.integers(0, 9)).map(list), min_size=1, max_size=3))
    c['solved'] = draw(st.sampled_from([0, 1, 2, 1, 2]))
    return c


AFTER = ['solution', 'mean', 'sim', 'irf', 'cov', 'params', 'groups', 'ss', 'sigma', 'jacobian', 'initial', 'bounds']


def decide(case):
    md, d = E.begin(case)
    if case['solved']:
        E.answer(md, 'solve%d' % case['solved'])
    before = [E.answer(md, q) for q in AFTER]
    n = 0
    for name, k in case['request']:
        bad, good = REQUESTS[name]
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = bad(md, d, k)
        except Skip:
            continue
        except Exception:
            pass
        else:
            raise Violation(f'{name} ({k}): the request was not refused but gave {str(got)[:300]}\nin\n{E.file_text(d)}')
        after = [E.answer(md, q) for q in AFTER]
        for q, a, b in zip(AFTER, after, before):
            if a[0] != b[0] or not E.equal(a[1], b[1]):
                raise Violation(f'{q} was {b[1]}\nand is {a[1]} after a refused request ({name}, {k}) to\n{E.file_text(d)}')
        if good is None:
            n += 1
            continue
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                good(E.fresh(d), d, k)
            n += 1
        except Skip:
            pass
        except Exception:
            pass
    E.check(md, d, ['refused requests', case['request']], case['solved'], 'code')
    return n > 0 and before[3][0] == 'value' or n > 1, f"{case['request']}{case['solved']}{case['endog']}"


@st.composite
def incomplete(draw):
    c = draw(E.histories(max_ops=1))
    c['ops'], c['which'] = [], []
    c['defects'] = draw(st.lists(st.tuples(st.sampled_from(['missing', 'surplus', 'name', 'timed name', 'parameter', 'double']), st.integers(0, 9), E.equation).map(list), min_size=1, max_size=2))
    c['solved'] = draw(st.booleans())
    return c


CLOSED = ['solve1', 'cov', 'sim', 'irf', 'solve2', 'autocorr', 'mean', 'decomp']


def decide_incomplete(case):
    """a model with a missing or surplus equation, or an unknown name in one, has no solution until it is repaired"""
    md, d = E.begin(case)
    if case['solved']:
        E.answer(md, 'solve1')
    n = 0
    log = []
    for kind, k, q in case['defects']:
        i = k % len(d['exprs'])
        old = d['exprs'][i]
        bad = fresh_name(d, k)
        log.append(kind)
        used = [p for p in sorted(d['params']) if any(re.search(rf'\b{p}\b', e) for e in d['exprs']) and not any(p in v for v in d['locals'].values())]
        if kind in ('parameter',) and not used:
            continue
        if kind == 'missing' and len(d['endog']) > 1:
            # every variable keeps occurring
            if k % 3 == 0:
                md.exprs.pop(i)
            else:
                del md.exprs[i if k % 3 == 1 else i - len(d['exprs'])]
            a = E.answer(md, CLOSED[k % 2])
            if a[0] == 'value':
                raise Violation(f'{CLOSED[k % 2]} is {a[1]} for a model without its equation {i}: {case["defects"]}\n{E.file_text(d)}')
            j = i % len(md.exprs)
            keep = [e for m, e in enumerate(d['exprs']) if m != i]
            md.exprs[j] = keep[j].replace(' - (', ' - (0.1*%s + ' % d['endog'][i], 1) if ' - (' in keep[j] else keep[j] + f" + 0.1*{d['endog'][i]}"
        elif kind in ('surplus', 'missing'):
            md.add_exprs(old)
        elif kind == 'double':
            md.exprs.insert(i, E.eq_text(d, d['endog'][k % len(d['endog'])], q))
        elif kind == 'name':
            md.exprs[i] = f'{old} + {bad}' if '=' in old else f'{old} - {bad}'
        elif kind == 'timed name':
            md.exprs[i] = f'{old} + 0.1*{bad}({"+" if k % 2 else "-"}1)'
        else:
            p = used[k % len(used)]
            del md.params[p]
        for q2 in CLOSED:
            # all the variance is due to the only shock, whatever the solution
            if q2 == 'irf' and not d['stoch'] or q2 == 'decomp' and len(d['stoch']) < 2:
                continue
            a = E.answer(md, q2)
            if a[0] == 'value':
                raise Violation(f'{q2} is {a[1]} for a model with a defect ({kind}): {case["defects"]}\n{E.file_text(d)}')
        n += 1
        if kind == 'parameter':
            md.params[p] = d['params'][p]
        else:
            while len(md.exprs):
                md.exprs.pop()
            md.add_exprs(list(d['exprs']))
    good = E.check(md, d, ['repaired', log], case['solved'], 'code')
    return n > 0 and good > 8, f"{log}{case['endog']}{[e['terms'] for e in case['eqs']]}"


PARTS = [
    Part('incomplete', incomplete(), decide_incomplete, 'a model with a missing or surplus equation or an unknown name, solvable when repaired', quick=300, thorough=6000),
    Part('requests', requests(), decide, 'a refused request whose acceptable neighbour is answered, in a model with a solution; distinct by requests', quick=1300, thorough=24000),
]
