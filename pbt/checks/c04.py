"""C04: names are checked when a model is read"""
import re
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M
from pbt.harness import Part, Violation, Skip, sut, cpu_limit, quiet

KINDS = ['eq', 'eq_period', 'local', 'param', 'bound_expr', 'shock_expr', 'bound_target', 'shock_target', 'assign_var', 'dup',
         'dup_local', 'param_period', 'local_period']


@st.composite
def case(draw):
    f = draw(G.files(max_leaves=5))
    f['det'] = draw(st.sampled_from([[], [], ['det_x'], ['det_x', 'd0']]))
    if set(f['det']) & (set(f['endog']) | set(f['exog']) | {x if isinstance(x, str) else x[0] for x in f['params'] + f['locals'] + f.get('helpers', [])}):
        f['det'] = []
    return dict(file=f, kind=draw(st.sampled_from(KINDS)), a=draw(st.integers(0, 10 ** 6)), b=draw(st.integers(0, 10 ** 6)),
                new=draw(st.sampled_from(['zzz', 'undeclared_1', 'xq', 'Q', 'lam_bda', 'exps', 'x0', 'e_', 'ss', 'k_1'])))


def leaves(t, path=()):
    if t[0] in 'nvp':
        yield path
    for i, c in enumerate(t):
        if isinstance(c, list):
            yield from leaves(c, path + (i,))


def put(t, path, new):
    if not path:
        return new
    t = list(t)
    t[path[0]] = put(t[path[0]], path[1:], new)
    return t


def replace_leaf(t, k, new):
    ps = list(leaves(t))
    p = ps[k % len(ps)]
    return put(t, p, new)


def pick(seq, k):
    if not seq:
        raise Skip('nothing to spoil')
    return seq[k % len(seq)]


def spoil(f, kind, a, b, new):
    """(tokens of the spoilt file, offending name)"""
    f = {k: (list(v) if isinstance(v, list) else v) for k, v in f.items()}
    allnames = set(f['endog']) | set(f['exog']) | {k for k, v in f['params']} | {k for k, v in f['locals']}
    if new in allnames:
        new += '9'
    decl = G.declared(f)
    if kind in ('eq', 'eq_period', 'param_period', 'local_period'):
        i = a % len(f['eqs'])
        side = b % 2 if f['eqs'][i][1] is not None else 0
        k = (-1, 1)[(a + b) % 2]
        if kind == 'eq':
            leaf, name = ['v', new], new
        elif kind == 'eq_period':
            leaf, name = ['p', new, k], new
        elif kind == 'param_period':
            name = pick(decl, a // 3)
            leaf = ['p', name, k]
        else:
            name = pick([k_ for k_, v in f['locals']], a // 3)
            leaf = ['p', name, k]
        eq = list(f['eqs'][i])
        eq[side] = replace_leaf(eq[side], b // 2, leaf)
        f['eqs'][i] = eq
        return G.tokens(f), name
    if kind == 'local':
        if not f['locals']:
            raise Skip('no local')
        i = a % len(f['locals'])
        f['locals'][i] = [f['locals'][i][0], replace_leaf(f['locals'][i][1], b, ['v', new])]
        return G.tokens(f), new
    if kind == 'param':
        if not f['params']:
            raise Skip('no parameter')
        i = a % len(f['params'])
        f['params'][i] = [f['params'][i][0], replace_leaf(f['params'][i][1], b, ['v', new])]
        return G.tokens(f), new
    if kind in ('bound_expr', 'bound_target'):
        key = pick([k for k in ('init', 'terminal', 'hist') if f.get(k)], a)
        i = b % len(f[key])
        if kind == 'bound_expr':
            f[key][i] = [f[key][i][0], replace_leaf(f[key][i][1], b // 7, ['v', new])]
            return G.tokens(f), new
        name = pick([new] + decl + f['exog'] + f['det'] + [k for k, v in f['locals']], b // 7)
        f[key].insert(i, [name, ['n', '1']])
        return G.tokens(f), name
    if kind in ('shock_expr', 'shock_target'):
        sh = f.get('shocks')
        if kind == 'shock_expr':
            if not sh:
                raise Skip('no shocks')
            i = a % len(sh)
            k, x, y, t = sh[i]
            sh[i] = [k, x, y, replace_leaf(t, b, ['v', new])]
            return G.tokens(f), new
        name = pick([new] + decl + f['endog'] + [k for k, v in f['locals']], b // 7)
        sh = list(sh or [])
        k = ['variance', 'stderr', 'corr', 'cov', 'corr2', 'cov2'][b % 6]
        if k in ('corr', 'cov', 'corr2', 'cov2'):
            other = pick(f['exog'], a)
            x, y = (name, other) if len(k) < 5 and k != 'cov2' else (other, name)
            st_ = [k.rstrip('2'), x, y, ['n', '0.1']]
        else:
            st_ = [k, name, None, ['n', '1']]
        sh.insert(a % (len(sh) + 1), st_)
        f['shocks'] = sh
        return G.tokens(f), name
    D, A, Md, B = G.sections(f)
    rest = []
    for blk in f.get('order', G.BLOCKS):
        rest += B.get(blk, [])
    if kind == 'assign_var':
        name = pick(f['endog'] + f['exog'] + f['det'], a)
        A.insert(b % (len(A) + 1), [name, '=', '1', ';'])
    elif kind == 'dup':
        name = pick(f['endog'] + f['exog'] + f['det'] + decl, a)
        j = b % (len(D) + 1)
        if j == len(D):
            D.append([['var', 'varexo', 'parameters'][(a + b) % 3], name])
        else:
            d = list(D[j])
            d.insert(1 + (b // 5) % len(d), name)
            D[j] = d
    elif kind == 'dup_local':
        if not f['locals'] or b % 2:
            name = pick(f['endog'] + f['exog'] + f['det'] + decl, a)
        else:
            name = pick([k for k, v in f['locals']], a)
        nl = len(f['locals'])
        Md.insert(1 + nl, ['#', name, '=', '1', ';'])
    T = []
    for d in D:
        T += d + [';']
    for s in A + Md:
        T += s
    return T + rest, name


def decide(c):
    f = c['file']
    toks, name = spoil(f, c['kind'], c['a'], c['b'], c['new'])
    good, bad = G.text(f), G.lines(toks)
    if bad == good:
        raise Skip('not spoilt')
    with cpu_limit(20, 'reading'):
        M.load(good)
    try:
        with cpu_limit(20, f'reading\n{bad}'), quiet():
            M.read(bad)
    except Exception as e:
        msg = str(e)
        if not re.search(r'(?<![A-Za-z0-9_])' + re.escape(name) + r'(?![A-Za-z0-9_])', msg):
            raise Violation(f'{c["kind"]}: rejected, but {type(e).__name__}({msg!r}) does not identify {name!r}\n{bad}')
    else:
        raise Violation(f'{c["kind"]}: accepted, although {name!r} is not valid there\n{bad}')
    return True, None


PARTS = [
    Part('names', case(), decide,
         'one name error of each kind (undeclared name in an equation, local, parameter, boundary or shock expression; value '
         'for a non-endogenous variable; shock for a non-exogenous one; value assigned to a variable; name declared twice; '
         'lead or lag of a parameter or local) put at a random place of a random valid file: the original must be accepted, '
         'the spoilt file rejected naming the offender; non-trivial: all', quick=2000, thorough=40000),
]
