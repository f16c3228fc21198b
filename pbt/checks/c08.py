"""C08: variables are classified by the timings at which they occur"""
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M, observe as O
from pbt.harness import Part, Violation, Skip, sut, cpu_limit, quiet

CLASSES = ['static_vars', 'pure_backward_vars', 'mixed_vars', 'pure_forward_vars']


@st.composite
def case(draw):
    lags = draw(st.sampled_from([(-1, 0, 1), (-1, 0, 1), (-1, 0), (0, 1), (0,), (-1, 1)]))
    f = draw(G.files(max_endog=7, max_exog=1, max_params=1, max_locals=0, boundaries=False, shocks=False, helpers=False,
                     max_leaves=5, lags=lags))
    return dict(file=f, perm=draw(st.permutations(range(len(f['endog'])))), eqperm=draw(st.permutations(range(len(f['eqs'])))),
                bad=draw(st.sampled_from(['no', 'no', 'far', 'unused'])), k=draw(st.sampled_from([-2, 2, 3, -3, -4, 12])),
                at=draw(st.integers(0, 999)), prog=draw(st.booleans()))


def want(f):
    occ = {e: set() for e in f['endog']}
    for l, r in f['eqs']:
        for t in (l, r):
            if t is not None:
                for v, k in X.timed(t):
                    if v in occ:
                        occ[v].add(k)
    out = {c: [] for c in CLASSES}
    for e in f['endog']:
        out[CLASSES[(1 if -1 in occ[e] else 0) if 1 not in occ[e] else (2 if -1 in occ[e] else 3)]].append(e)
    out['state_vars'] = [e for e in f['endog'] if -1 in occ[e]]
    out['backward_vars'] = out['state_vars']
    out['forward_vars'] = [e for e in f['endog'] if 1 in occ[e]]
    return out


def load(f, prog, read=False):
    src = G.text(f)
    if not prog:
        return (M.read(src) if read else M.load(src)), src
    import pynare
    pv = G.param_values(f)
    strs = [X.text(l, '^') + (' = ' + X.text(r, '^') if r is not None else '') for l, r in f['eqs']]
    src = f'Model(endog={f["endog"]}, stoch={f["exog"]}, params={pv}, exprs={strs})'
    kw = dict(endog=list(f['endog']), stoch=list(f['exog']), params=dict(pv), exprs=strs)
    if read:
        return pynare.Model(**kw), src
    with sut(src):
        return pynare.Model(**kw), src


def observed(md):
    return {c: [str(x) for x in np.atleast_1d(getattr(md, c).names)] if len(getattr(md, c)) else []
            for c in CLASSES + ['state_vars', 'backward_vars', 'forward_vars']}


TIMED = dict(state='state_vars', backward='state_vars', static='static_vars', forward='forward_vars', pure_forward='pure_forward_vars',
             pure_backward='pure_backward_vars', mixed='mixed_vars', cont='all', dynamic='dynamic')


def indexes(md, w, src):
    """positions of the groups in either order, and their columns of the jacobian by period"""
    names = [str(e) for e in md.endog.names]
    g = dict(w, all=names, dynamic=[e for e in names if e not in w['static_vars']])
    cols = ([(e, -1) for e in names if e in w['state_vars']] + [(e, 0) for e in names] + [(e, 1) for e in names if e in w['forward_vars']])
    with sut(f'indexes of\n{src}'):
        ix = md.indexes
        order = [names[i] for i in np.atleast_1d(ix.dr_order)]
        if [order[i] for i in np.atleast_1d(ix.dc_order)] != names:
            raise Violation(f'dc_order = {ix.dc_order} does not undo dr_order = {ix.dr_order}\n{src}')
        if order != [e for k in CLASSES for e in w[k]]:
            raise Violation(f'decision-rule order {order}, the timings say {[w[k] for k in CLASSES]}\n{src}')
        for typer, o in ((ix, names), (ix.dr, order)):
            for k, v in TIMED.items():
                members = [e for e in o if e in g[v]]
                got = [o[i] for i in np.atleast_1d(getattr(typer, k))]
                if got != members:
                    raise Violation(f'{"dr." if typer is not ix else ""}{k} is {got}, the timings say {members}\n{src}')
                t = getattr(typer, k + '_timed')
                for p, key in ((-1, 't-1'), (0, 't'), (1, 't+1')):
                    got = [cols[i] for i in t[p]]
                    exp = [(e, p) for e in members if (e, p) in cols]
                    if got != exp or list(t[key]) != list(t[p]):
                        raise Violation(f'{"dr." if typer is not ix else ""}{k}_timed[{p}] is {got}, the timings say {exp}\n{src}')


def query(md):
    """everything that depends on the classification"""
    observed(md)
    md.indexes.llx
    md.dynamic_repr


def decide(c):
    f = c['file']
    if c['bad'] == 'no':
        g = dict(f, endog=[f['endog'][i] for i in c['perm']], eqs=[f['eqs'][i] for i in c['eqperm']])
        for h in (f, g):
            md, src = load(h, c['prog'])
            with sut(f'classes of\n{src}'):
                got = observed(md)
                cnt = {k: getattr(md.indexes, 'n_' + k, None) for k in ('static', 'pure_backward', 'mixed', 'pure_forward')}
            w = want(h)
            for k in w:
                if got[k] != w[k]:
                    raise Violation(f'{k} = {got[k]}, the timings say {w[k]}\n{src}')
            for k, v in cnt.items():
                if v is not None and int(v) != len(w[k + '_vars']):
                    raise Violation(f'n_{k} = {v}, the timings say {len(w[k + "_vars"])}\n{src}')
            indexes(md, w, src)
        return len(f['endog']) >= 3, None
    if c['bad'] == 'far':
        i = c['at'] % len(f['eqs'])
        v = f['endog'][(c['at'] // 7) % len(f['endog'])]
        eq = list(f['eqs'][i])
        eq[0] = ['b', '+', ['g', eq[0]], ['b', '*', ['n', '0.1'], ['p', v, c['k']]]]
        g = dict(f, eqs=[eq if j == i else e for j, e in enumerate(f['eqs'])])
        msg = f'{v}({c["k"]})'
    else:
        pos = c['at'] % (len(f['endog']) + 1)
        g = dict(f, endog=f['endog'][:pos] + ['unused_v'] + f['endog'][pos:])
        msg = 'an unused variable'
    try:
        with quiet(), cpu_limit(20):
            md, src = load(g, c['prog'], read=True)
            query(md)
    except Exception:
        return True, None
    raise Violation(f'{msg} is not refused: {observed(md)}\n{src}')


PARTS = [
    Part('timings', case(), decide,
         'random systems over up to seven variables with random timings, loaded in two orders of declarations and equations, '
         'class lists compared with the timings of the generated trees; one in two with a variable at an unsupported distance '
         'or not occurring, which must be refused; non-trivial: three variables, or a refusal', quick=1600, thorough=40000),
]
