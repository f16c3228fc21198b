"""C05: parameters defined by expressions take the value the definitions imply"""
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M, observe as O
from pbt.harness import Part, Violation, Skip, sut, cpu_limit, quiet
from pbt.strategies import trees, num, SIMPLENUM, distinct_names

from pynare.core.variables import ModelCalibration

# far from one, or with more digits than are usually written
UNUSUAL = [12345678.9, 16777217, 123456789, 1 / 3, 0.1 + 0.2, 1e-9, 3e-13, -2.5e-7, 2 ** 40 + 1, 9007199254740991, 1e15]
OPS = ['num', 'num', 'expr', 'expr', 'new', 'circular', 'undefined', 'delete']


@st.composite
def ops(draw, names, extra, k=5):
    """edits whose expressions are given as trees over names; meaning is decided when they are applied"""
    out = []
    for _ in range(draw(st.integers(0, k))):
        op = draw(st.sampled_from(OPS))
        leaves = st.one_of(num(SIMPLENUM), st.integers(0, 9).map(lambda i: ['v', str(i)]))
        t = draw(trees(leaves, funs=('exp', 'sqrt', 'log'), max_leaves=4))
        x = draw(st.sampled_from(UNUSUAL)) if draw(st.integers(0, 5)) == 0 else draw(st.integers(-30, 60)) / 10
        out.append([op, draw(st.integers(0, 99)), t, x, draw(st.integers(0, 2))])
    return out


@st.composite
def case(draw, via):
    if via == 'calib':
        nms = draw(distinct_names(draw(st.integers(1, 7)), G.PYTHON))
        f = None
        defs = draw(G.dag(nms, literal=1, max_leaves=5))
    else:
        f = draw(G.files(max_leaves=4, max_params=6, max_endog=2, max_exog=1, boundaries=False, shocks=False))
        defs = None
    extra = ['new1', 'new2', 'zeta']
    return dict(file=f, defs=defs, ops=draw(ops(None, extra)), forms=draw(st.integers(0, 10 ** 6)))


def solve(defs):
    """reference calibration: dict name -> tree or float; None if circular or undefined; Skip outside the domain"""
    vals, errs = {}, {}
    todo = dict(defs)
    while todo:
        done = False
        for k in list(todo):
            t = todo[k]
            if not isinstance(t, list):
                vals[k] = float(t)
                del todo[k]
                done = True
            elif X.names(t) <= set(vals):
                try:
                    vals[k], e = X.value(t, vals)
                except X.Domain as ex:
                    raise Skip(str(ex))
                del todo[k]
                done = True
        if not done:
            return None
    return vals


def depends(defs, a, b):
    """does a depend on b"""
    seen, stack = set(), [a]
    while stack:
        x = stack.pop()
        if x in seen or x not in defs:
            continue
        seen.add(x)
        if isinstance(defs[x], list):
            stack += list(X.names(defs[x]))
    return b in seen


def bind(t, pool, off=0):
    """replace the digit variables of an op tree by names of the pool"""
    if t[0] == 'v':
        return ['v', pool[(int(t[1]) + off) % len(pool)]] if pool else ['n', '2']
    return [t[0]] + [bind(c, pool, off) if isinstance(c, list) else c for c in t[1:]]


def form(v, k):
    """the value handed to the interface: a text, or a number"""
    if isinstance(v, list):
        if v[0] == 'n' and k % 3 == 0:
            return float(v[1])
        if v[0] == 'n' and k % 3 == 1 and float(v[1]) == int(float(v[1])):
            return int(float(v[1]))
        return X.text(v, '^', None if k % 2 else [' ', ''])
    return v


def compare(what, got, want, log):
    try:
        g = {k: float(v) for k, v in dict(got).items()}
    except Exception as e:
        raise Violation(f'{what}: {type(e).__name__} {e} reading the parameters; {log}')
    if set(g) != set(want):
        raise Violation(f'{what}: parameters {sorted(g)}, expected {sorted(want)}; {log}')
    for k, v in want.items():
        if not O.close(g[k], v, rel=1e-8):
            raise Violation(f'{what}: {k} = {g[k]!r}, the definitions imply {v!r}; {log}')


def drive(defs, target, setp, delp, oplist, log, forms, extra_check=None):
    """apply the ops to the reference and the code under test"""
    n = 0
    for i, (op, j, t, x, how) in enumerate(oplist):
        names = sorted(defs)
        new = dict(defs)
        if op == 'delete':
            if not names or delp is None:
                continue
            k = names[j % len(names)]
            del new[k]
            what = f'deleting {k}'
            val = None
        else:
            if op == 'new' or not names:
                k = ['new1', 'new2', 'zeta'][j % 3]
                if k in defs and False:
                    continue
            else:
                k = names[j % len(names)]
            if op == 'num':
                val = x
            elif op == 'circular':
                pool = [m for m in names if depends(defs, m, k)] or [k]
                val = ['b', '+', bind(t, pool, j), ['v', pool[j % len(pool)]]]
            elif op == 'undefined':
                val = ['b', '*', bind(t, names, j), ['v', 'undefd']]
            else:
                pool = [m for m in names if m != k and not depends(defs, m, k)]
                val = bind(t, pool, j)
                sc = solve(defs)
                val = X.repair(val, sc)
                if abs(X.value(val, sc)[0]) > 1e4:
                    continue
            new[k] = val
            what = f'{k} = {form(val, forms + i)!r}'
        want = solve(new)
        log.append(what)
        try:
            if op == 'delete':
                delp(k)
            else:
                setp(k, form(val, forms + i), how)
        except Exception as e:
            if want is not None:
                raise Violation(f'{what}: {type(e).__name__}: {e}; {log}')
            log[-1] += ' (rejected)'
        else:
            if want is None:
                raise Violation(f'{what}: accepted, although circular or undefined; {log}')
            defs = new
        n += 1
        compare(what, target(), solve(defs), log)
        if extra_check:
            extra_check(defs, log)
    return n


def decide_calib(c):
    defs = {k: t for k, t in c['defs']}
    given = {k: form(t, c['forms'] + i) for i, (k, t) in enumerate(c['defs'])}
    log = [str(given)]
    with sut(f'ModelCalibration({given})'), cpu_limit(10):
        mc = ModelCalibration(given)
    compare('ModelCalibration', mc, solve(defs), log)
    n = drive(defs, lambda: mc, lambda k, v, how: mc.__setitem__(k, v) if how else mc.update({k: v}),
              lambda k: mc.__delitem__(k), c['ops'], log, c['forms'])
    if given != {k: form(t, c['forms'] + i) for i, (k, t) in enumerate(c['defs'])}:
        raise Violation(f'the dictionary of definitions passed in was changed; {log}')
    # the same through an empty model
    import pynare
    with sut('Model.add_params'):
        md = pynare.Model()
        for k, v in sorted(given.items(), key=lambda kv: list(solve_order(defs)).index(kv[0])):
            if k == 'self':
                md.params[k] = v
            else:
                md.add_params(**{k: v})
    compare('add_params', md.params, solve(defs), log)
    return n >= 2 or len(defs) >= 3, None


def solve_order(defs):
    done, todo = [], dict(defs)
    while todo:
        for k in list(todo):
            if X.names(todo[k]) <= set(done):
                done.append(k)
                del todo[k]
    return done


def decide_file(c):
    f = c['file']
    src = G.text(f)
    with cpu_limit(20):
        md = M.load(src)
    pv = G.param_values(f)
    log = [src]
    # helpers are not parameters: their definitions are part of those that use them
    hel = {k: t for k, t in f['params'] if k in f['helpers']}

    def inline(t):
        if t[0] == 'v' and t[1] in hel:
            return ['g', inline(hel[t[1]])]
        return [t[0]] + [inline(x) if isinstance(x, list) else x for x in t[1:]]
    defs = {k: inline(t) for k, t in f['params'] if k not in f['helpers']}
    compare('file', md.params, solve(defs), log)
    locs = {k: t for k, t in f['locals']}
    pt = G.pt(f)
    cols, sh = O.columns(f)

    def downstream(defs, log):
        sc = solve(defs)
        try:
            lv = G.resolve(f['locals'], sc)
            full = {**lv, **pt}
            res = []
            for l, r in f['eqs']:
                a, ea = X.value(l, full)
                b, eb = X.value(r, full) if r is not None else (0., 0.)
                res.append((a - b, ea + eb))
        except X.Domain:
            return
        with sut(f'evaluating the model after {log}'):
            lp = {k: float(v) for k, v in md.local_params.items()}
            got = md.dynamic_repr(np.array([pt[c] for c in cols] + [pt[e] for e in sh]))
        for k in locs:
            if not O.close(lp[k], lv[k], rel=1e-8):
                raise Violation(f'local {k} = {lp[k]}, its definition implies {lv[k]}; {log}')
        if any(not O.close(g, v, e, rel=1e-9) for g, (v, e) in zip(got, res)):
            raise Violation(f'equations evaluate to {list(map(float, got))} with the changed parameters, expected '
                            f'{[r[0] for r in res]}; {log}')

    def setp(k, v, how):
        if how == 1 and k != 'self':
            md.add_params(**{k: v})
        else:
            md.params[k] = v
    taken = set(f['endog'] + f['exog'] + list(locs))
    used = set()
    for l, r in f['eqs']:
        X.names(l, used)
        if r is not None:
            X.names(r, used)
    for k, t in f['locals']:
        X.names(t, used)
    n = drive(defs, lambda: md.params, setp, None, c['ops'], log, c['forms'], downstream)
    return n >= 1 and len(defs) >= 2, None


@st.composite
def circular(draw):
    """a file whose parameter block is circular"""
    f = draw(G.files(max_leaves=4, max_params=6, max_endog=2, max_exog=1, boundaries=False, shocks=False, helpers=False))
    return dict(file=f, a=draw(st.integers(0, 999)), b=draw(st.integers(0, 999)))


def decide_circular(c):
    f = c['file']
    defs = {k: t for k, t in f['params']}
    if not defs:
        raise Skip('no parameters')
    names = sorted(defs)
    k = names[c['a'] % len(names)]
    pool = [m for m in names if depends(defs, m, k)]
    o = pool[c['b'] % len(pool)]
    g = dict(f, params=[[m, t if m != k else ['b', '+-*'[c['a'] % 3], ['g', t], ['v', o]]] for m, t in f['params']])
    src = G.text(g)
    try:
        with cpu_limit(20, src), quiet():
            M.read(src)
    except Exception:
        return True, None
    raise Violation(f'accepted, although the definition of {k} is circular\n{src}')


@st.composite
def chains(draw):
    """many definitions, each by the one before (and perhaps others), appearing in any order"""
    n = draw(st.integers(5, 24))
    width = draw(st.sampled_from([1, 1, 2, 5]))
    order = draw(st.sampled_from(['reversed', 'reversed', 'any', 'given', 'halves']))
    defs = [['q0', ['n', '0.5']]]
    for i in range(1, n):
        prev = ['v', f'q{max(0, i - draw(st.integers(1, width)))}']
        more = draw(st.integers(0, 3))
        other = ['v', f'q{draw(st.integers(0, i - 1))}'] if more == 0 else ['n', draw(st.sampled_from(['0.25', '0.1', '0.7']))]
        defs.append([f'q{i}', ['b', '+', ['b', '*', ['n', draw(st.sampled_from(['0.5', '0.9', '0.3']))], prev], other]])
    if order == 'reversed':
        defs.reverse()
    elif order == 'any':
        defs = list(draw(st.permutations(defs)))
    elif order == 'halves':
        defs = defs[n // 2:] + defs[:n // 2]
    return dict(defs=defs, forms=draw(st.integers(0, 99)), rename=draw(st.booleans()))


def decide_chains(c):
    defs = {k: t for k, t in c['defs']}
    if c['rename']:                                  # names whose alphabetical order is not that of the definitions
        to = {k: chr(97 + (7 * int(k[1:])) % 26) + k for k in defs}
        ren = lambda t: ['v', to[t[1]]] if t[0] == 'v' else [t[0]] + [ren(x) if isinstance(x, list) else x for x in t[1:]]
        defs = {to[k]: ren(t) for k, t in defs.items()}
    want = solve(defs)
    given = {k: form(t, c['forms'] + i) for i, (k, t) in enumerate(defs.items())}
    with sut(f'ModelCalibration({given})'), cpu_limit(10):
        mc = ModelCalibration(given)
    compare('ModelCalibration', mc, want, [str(given)])
    last = list(defs)[-1]
    src = (f"var x; varexo e; parameters {' '.join(defs)};\n"
           + ''.join(f"{k} = {X.text(t, '^')};\n" for k, t in defs.items())
           + f"model; x = 0.5*x(-1) + {last}*e; end;\nshocks; var e; stderr 1; end;\n")
    with cpu_limit(20):
        md = M.load(src)
    compare('file', md.params, want, [src])
    # changing the first link moves all that follow
    root = next(k for k, t in defs.items() if t[0] == 'n')
    new = dict(defs, **{root: 1.5})
    for what, p in (('calibration', mc), ('model', md.params)):
        with sut(f'changing {root}'):
            p[root] = 1.5
        compare(f'{what} after {root} = 1.5', p, solve(new), [src])
    return len(defs) >= 8, src


PARTS = [
    Part('chains', chains(), decide_chains,
         'five to 24 definitions, each by the one before, appearing in any order: from a dictionary, from a file, and after a '
         'change of the first one; non-trivial: at least eight definitions', quick=250, thorough=6000),
    Part('calibration', case('calib'), decide_calib,
         'acyclic definitions in any order as numbers and texts, then a random sequence of changes (numbers, expressions, new, '
         'deleted, circular and undefined definitions), every parameter compared with the reference after each; non-trivial: '
         'three definitions or two changes', quick=1600, thorough=40000),
    Part('file', case('file'), decide_file,
         'parameter blocks of random files (any order, undeclared helpers), then changes through md.params and add_params, with '
         'local definitions and equation values following; non-trivial: two parameters and a change', quick=800, thorough=20000),
    Part('circular', circular(), decide_circular,
         'files whose parameter definitions contain one cycle must be rejected; non-trivial: all with a parameter',
         quick=300, thorough=4000),
]
