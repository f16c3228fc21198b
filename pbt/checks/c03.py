"""C03: a model file is read faithfully, whatever its layout"""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M
from pbt import observe as O
from pbt.harness import Part, Violation, Skip, sut, cpu_limit

COMMENTS = ['// a comment\n', '%% heading\n', '%%%%\n', '//// x\n', '%// y\n', '%{ z = 1; %}\n', '% another = 1;\n', '//\n', '% end;\n', '/* c */', '/* a * b ; \n var z; */', '/***/', '/* // */',
            '// x /* y\n', '/* it\'s "open */', '/**//**/', '/*/ */', "% don't\n", '/* ** / */', '// form\x0cfeed = 1;\n', '% caf\u00e9 \u2028 z;\n', '/* \x0b\u03b1 */']
# spelled as tokens; none of them changes what the model is
OPTIONS = [['linear'], ['block', ',', 'bytecode'], ['cutoff', '=', '0.01'], ['mfs', '=', '2', '+', '1', ',', 'linear'], ['name', '=', "'a; b'"], ['kind', '=', 'fast'],
           ['file', '=', '"x /* y"', ',', 'use_dll', ',', 'n', '=', '(', '3', ')'], ['all_values_required']]
TAGS = [['name', '=', "'eq; x = /* y'"], ['name', '=', '"// it"', ',', 'mcp', '=', "'r > -1'"], ['name', '=', "'y[1]; z'"], ['static'], ['dynamic', ',', 'name', '=', "'b'"]]
SEPS = ['', ' ', ' ', ' ', '\n', '\t', '\n\n  ', '\r\n']


@st.composite
def case(draw):
    f = draw(G.files(max_leaves=5))
    # declared beside the stochastic ones, in no equation
    f['det'] = draw(st.sampled_from([[], [], [], ['det_x'], ['det_x', 'd0'], ['det_b', 'det_a', 'det_c']]))
    if set(f['det']) & (set(f['endog']) | set(f['exog']) | {x if isinstance(x, str) else x[0] for x in f['params'] + f['locals'] + f.get('helpers', [])}):
        f['det'] = []
    lay = dict(
        seps=draw(st.lists(st.integers(0, 999), min_size=1, max_size=12)),
        dens=draw(st.sampled_from([0, 0, 1, 3])),
        commas=draw(st.integers(0, 2)), split=draw(st.integers(0, 15)), interleave=draw(st.integers(0, 10 ** 6)),
        tail=draw(st.sampled_from(['', '\n', '  ', '// end', '% end', '/* end */', '\n// a\n/* b */ % c'])),
        head=draw(st.sampled_from(['', '\n', '// head\n', '/* head */', '% h\n/* x */\n'])),
        repeat=draw(st.integers(0, 3)), tags=draw(st.integers(0, 7)), options=draw(st.integers(0, 4095)),
        single=draw(st.integers(0, 3)))
    return dict(file=f, layout=lay)


def lay_out(f, L):
    """tokens of the file in a different but equivalent arrangement"""
    D, A, Md, B = G.sections(f)
    decls = []
    for i, d in enumerate(D):
        kw, nms = d[0], d[1:]
        parts = [nms]
        if (L['split'] >> i) & 1 and len(nms) > 1:
            cut = 1 + L['interleave'] % (len(nms) - 1)
            parts = [nms[:cut], nms[cut:]]
        for p in parts:
            tk = [kw]
            for j, n in enumerate(p):
                if j and (L['commas'] == 1 or (L['commas'] == 2 and j % 2)):
                    tk.append(',')
                tk.append(n)
            decls.append((i, tk + [';']))
    T = []
    # statements of different kinds may be interleaved as long as each kind keeps its order
    # (assignments after the parameter declarations)
    queues = [[d for i, d in decls if i == k] for k in range(len(D))] + [list(A)]
    params = [k for k in range(len(D)) if D[k][0] == 'parameters']
    bits = L['interleave']
    if not bits % 2:
        for q in queues:
            for d in q:
                T += d
    else:
        while any(queues):
            ok = [k for k, q in enumerate(queues) if q and not (k == len(D) and any(queues[p] for p in params))]
            bits = (bits * 1103515245 + 12345) % 2 ** 31
            T += queues[ok[(bits >> 8) % len(ok)]].pop(0)
    opt = lambda i: ['('] + OPTIONS[(L.get('options', 0) // 3 + i) % len(OPTIONS)] + [')'] if L.get('options', 0) % 3 == 0 and (L['tags'] + i) % 2 else []
    T += ['model'] + opt(0) + [';']
    for i, m in enumerate(Md[1:-1]):
        if L['tags'] & 2 and i % 2 == 0 and m[0] != '#':
            T += ['['] + TAGS[(i + L.get('options', 0)) % len(TAGS)] + [']']
        T += m
    T += Md[-1]
    for blk in f.get('order', G.BLOCKS):
        b = B.get(blk, [])
        if b and L['repeat'] == 1:
            # two blocks instead of one
            stmts, cur = [], []
            for t in b[2:-2]:
                cur.append(t)
                if t == ';' and not (blk == 'shocks' and len(cur) == 3):
                    stmts.append(cur)
                    cur = []
            if len(stmts) > 1:
                c = len(stmts) // 2
                for part in (stmts[:c], stmts[c:]):
                    T += [blk] + opt(c) + [';'] + [t for s in part for t in s] + ['end', ';']
                continue
        T += [blk] + opt(len(b)) + b[1:] if b else []
    return T


def render(toks, L):
    out = [L['head']]
    k = 0
    seps = L['seps']

    def sep():
        nonlocal k
        v = seps[k % len(seps)] + 31 * (k // len(seps))
        k += 1
        s = SEPS[v % len(SEPS)]
        if L['dens'] and (v // 7) % (6 - L['dens']) == 0:
            c = COMMENTS[(v // 3) % len(COMMENTS)]
            s = s + c
            if (v // 5) % 2:
                s += SEPS[(v // 11) % len(SEPS)]
        return s
    word = lambda c: c.isalnum() or c in '_.'
    prev = None
    for t in toks:
        if prev is not None:
            s = sep()
            if prev == '/' and s[:1] in '/*%' and s:
                s = ' ' + s
            if prev == '/' and t in ('/', '*') and not s:
                s = ' '
            if not s and word(prev[-1]) and word(t[0]):
                s = ' '
            out.append(s)
        out.append(t)
        prev = t
    tail = L['tail']
    out.append(tail)
    return ''.join(out)


def expect(f):
    pv = G.param_values(f)
    want = dict(params=pv, sigma=G.sigma(f))
    for k in ('init', 'terminal', 'hist'):
        want[k] = G.boundary_values(f, k)
    return want


def examine(md, f, want, src):
    with sut(f'reading the loaded model\n{src}'):
        endog, exog = O.names(md.endog), (O.names(md.stoch) if len(md.stoch) else [])
        params = {k: float(v) for k, v in md.params.items()}
        sig = np.asarray(md.sigma, dtype=float)
        init, term, hist = (np.asarray(a, dtype=float) for a in (md.initial, md.terminal, md.historical))
        neq = len(md.exprs)
        det = O.names(md.determ) if len(md.determ) else []
        every = O.names(md.exog) if len(md.exog) else []
    if det != f.get('det', []) or sorted(every) != sorted(exog + det):
        raise Violation(f'deterministic variables {det} among {every}, declared {f.get("det", [])} beside {f["exog"]}\n{src}')
    if endog != f['endog'] or exog != f['exog']:
        raise Violation(f'variables {endog} {exog}, declared {f["endog"]} {f["exog"]}\n{src}')
    if set(params) != set(want['params']):
        raise Violation(f'parameters {sorted(params)}, declared {sorted(want["params"])}\n{src}')
    for k, v in want['params'].items():
        if not O.close(params[k], v, rel=1e-9):
            raise Violation(f'parameter {k} = {params[k]}, file says {v}\n{src}')
    if neq != len(f['eqs']):
        raise Violation(f'{neq} equations, file has {len(f["eqs"])}\n{src}')
    n, ne = len(endog), len(exog)
    if sig.shape != (ne, ne) or not np.allclose(sig, want['sigma'], rtol=1e-9, atol=1e-12):
        raise Violation(f'sigma {sig.tolist()}, file says {want["sigma"].tolist()}\n{src}')
    for what, got, vals in (('initial', init, want['init']), ('terminal', term, want['terminal']),
                            ('historical', hist, want['hist'])):
        if len(got) != n:
            raise Violation(f'{len(got)} {what} values for {n} variables\n{src}')
        for i, v in enumerate(endog):
            if v in (vals or {}):
                if not O.close(got[i], vals[v], rel=1e-9):
                    raise Violation(f'{what} value of {v}: {got[i]}, file says {vals[v]}\n{src}')
            elif got[i] != 0 and (what == 'initial' or not np.isnan(got[i])):
                raise Violation(f'{what} value of {v}: {got[i]}, none given\n{src}')


def decide(c):
    f, L = c['file'], c['layout']
    want = expect(f)
    if L['single'] == 0:
        src = G.text(f)
    else:
        src = render(lay_out(f, L), L)
    with cpu_limit(20, f'reading\n{src}'):
        md = M.load(src)
    examine(md, f, want, src)
    # the equations: one point is enough here, see C06
    pt = G.pt(f)
    cols, sh = O.columns(f)
    try:
        res = O.residual(f, pt)
    except X.Domain:
        res = None
    if res is not None:
        with sut(f'evaluating the loaded model\n{src}'):
            got = md.dynamic_repr(np.array([pt[c] for c in cols] + [pt[e] for e in sh]))
        if len(got) != len(res) or any(not O.close(g, v, e) for g, (v, e) in zip(got, res)):
            raise Violation(f'equations evaluate to {list(map(float, got))}, file says {[r[0] for r in res]}\n{src}')
    return L['dens'] > 0 or L['single'] > 0, None


PARTS = [
    Part('layout', case(), decide,
         'random structured files (declarations, parameter and boundary expressions, equations, shock statements of every '
         'kind) written with random comments, spacing, commas, split declarations, split blocks, tags and block order; the '
         'loaded model is compared with the structure, equations at one point; non-trivial: not the plain layout',
         quick=1600, thorough=40000),
]
ASSUMPTIONS = ['a terminal or historical value the file does not state is 0 or not a number']
