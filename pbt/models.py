"""
models with a planted solution

The linear part of a model is  (I - F L^-1)(x_t - G x_{t-1}) = H e_t  mixed by an invertible integer matrix:
its unique stable solution is x_t = G x_{t-1} + H e_t when all eigenvalues of G and F lie inside the unit circle;
its eigenvalues are those of the state block of G and the reciprocals of those of the forward block of F.
All coefficients are exact four-digit decimals.
"""
from __future__ import annotations
import itertools, math, os
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st

from pbt import expr as X
from pbt import env
from pbt.harness import Skip, Violation, sut

UNIT = 10000


# ------------------------------------------------------------------------------------------- planted spec
def _blocks(draw, n, radius, complex_ok=True):
    """block list of dimension n; entries in twentieths with modulus <= radius/20"""
    out, left = [], n
    while left:
        if left >= 2 and complex_ok and draw(st.integers(0, 3)) == 0:
            re = draw(st.integers(-13, 13))
            im = draw(st.integers(1, 13))
            if math.hypot(re, im) > radius:
                re, im = re // 2, max(1, im // 2)
            out.append([re, im])
            left -= 2
        else:
            out.append([draw(st.one_of(st.integers(1, radius), st.integers(-radius, radius)))])
            left -= 1
    return out


def _unimod(draw, n, k=1):
    """elementary integer operations [i, j, c]: row_i += c row_j"""
    if n < 2:
        return []
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([-1, 1, 1, 2][:2 + k])),
                        max_size=2 * n))
    return [list(o) for o in ops if o[0] != o[1]]


MIXES = [(ns, nb, nm, nf) for ns in range(3) for nb in range(4) for nm in range(4) for nf in range(4)
         if 1 <= ns + nb + nm + nf <= 6]

# models of seven to fourteen variables
WIDE = [(ns, nb, nm, nf) for ns in range(4) for nb in range(5) for nm in range(5) for nf in range(5)
        if 7 <= ns + nb + nm + nf <= 14]

TRANSFORMS = ['lin', 'lin', 'exp', 'log', 'sin', 'quad', 'pow', 'inv', 'erf']


@st.composite
def planted(draw, mixes=None, max_n=5, nonlinear=True, min_exog=1, max_exog=3, ss=True, eig=19, fill=True, quad=3,
            complex_ok=True, need_state=False, corr=True, zero_var=False):
    pool = [m for m in (mixes or MIXES) if sum(m) <= max_n and (not need_state or m[1] + m[2] > 0)]
    ns, nb, nm, nf = draw(st.sampled_from(pool))
    n, nx, nw = ns + nb + nm + nf, nb + nm, nm + nf
    ne = draw(st.integers(min_exog, max_exog))
    ints = lambda k, m, lo=-9, hi=9: draw(st.lists(st.lists(st.integers(lo, hi), min_size=m, max_size=m), min_size=k, max_size=k)) if k and m else [[] for _ in range(k)]
    spec = dict(
        mix=[ns, nb, nm, nf], ne=ne,
        T=_blocks(draw, nx, eig, complex_ok), P=_unimod(draw, nx),
        S=_blocks(draw, nw, eig, complex_ok), Q=_unimod(draw, nw),
        Gx=ints(n - nx, nx), Fx=ints(n - nw, nw), H=ints(n, ne), M=_unimod(draw, n),
        perm=draw(st.permutations(range(n))), eqperm=draw(st.permutations(range(n))),
        names=draw(st.permutations(VNAMES))[:n], enames=draw(st.permutations(ENAMES))[:ne],
        ss=draw(st.lists(st.integers(-20, 30), min_size=n, max_size=n)) if ss else [0] * n,
        tr=[draw(st.sampled_from(TRANSFORMS)) if nonlinear else 'lin' for _ in range(n)],
        etr=[draw(st.sampled_from(['lin', 'lin', 'exp', 'sin'])) if nonlinear else 'lin' for _ in range(ne)],
        quad=[], pmode=draw(st.integers(0, 3)), sides=draw(st.integers(0, 2)),
        shocks=[])
    if nonlinear:
        spec['quad'] = [list(q) for q in draw(st.lists(st.tuples(
            st.integers(0, n - 1), st.integers(0, 99), st.integers(0, 99), st.integers(-9, 9)), max_size=quad))]
    # shock moments: std in tenths, kind; optional correlations in tenths between pairs (ring-free: with the next)
    for j in range(ne):
        kind = draw(st.sampled_from(['variance', 'stderr', 'none', 'variance'] + (['corr', 'cov'] if corr and j else [])))
        spec['shocks'].append([kind, draw(st.integers(1, 25)) if not zero_var or draw(st.integers(0, 3)) else 0, draw(st.integers(-8, 8)), draw(st.integers(0, max(j - 1, 0)))])
    return spec


VNAMES = ['x', 'y', 'z', 'k', 'c', 'aa', 'X', 'q1', 'y_1', 'rr', 'infl', 'xx', 'w', 'hours', 'i2']
ENAMES = ['e', 'eps', 'u1', 'E', 'e_x', 'shk']


def _dense(blocks):
    n = sum(len(b) for b in blocks)
    T = np.zeros((n, n), dtype=object)
    i = 0
    for b in blocks:
        if len(b) == 1:
            T[i, i] = b[0]
            i += 1
        else:
            T[i:i + 2, i:i + 2] = [[b[0], b[1]], [-b[1], b[0]]]
            i += 2
    return T


def _apply(ops, T):
    """similarity P T P^-1 with P the product of elementary operations"""
    T = T.copy()
    for i, j, c in ops:
        T[i, :] = T[i, :] + c * T[j, :]
        T[:, j] = T[:, j] - c * T[:, i]
    return T


def eigs(blocks):
    out = []
    for b in blocks:
        out += [b[0] / 20] if len(b) == 1 else [complex(b[0], b[1]) / 20, complex(b[0], -b[1]) / 20]
    return np.array(out)


class Planted:
    """all derived quantities, canonical variable order [static, backward, mixed, forward]"""

    def __init__(self, spec):
        self.spec = spec
        ns, nb, nm, nf = spec['mix']
        self.n, self.ne = n, ne = ns + nb + nm + nf, spec['ne']
        X_ = list(range(ns, ns + nb + nm))
        W_ = list(range(ns + nb, n))
        G = np.zeros((n, n), dtype=object)      # in twentieths
        F = np.zeros((n, n), dtype=object)
        if X_:
            Gs = _apply(spec['P'], _dense(spec['T']))
            for a, i in enumerate(X_):
                for b, j in enumerate(X_):
                    G[i, j] = Gs[a, b]
            for r, row in zip([i for i in range(n) if i not in X_], spec['Gx']):
                for j, v in zip(X_, row):
                    G[r, j] = 2 * v
        if W_:
            Fs = _apply(spec['Q'], _dense(spec['S']))
            for a, i in enumerate(W_):
                for b, j in enumerate(W_):
                    F[i, j] = Fs[a, b]
            for r, row in zip([i for i in range(n) if i not in W_], spec['Fx']):
                for j, v in zip(W_, row):
                    F[r, j] = 2 * v
        H = np.array(spec['H'], dtype=object).reshape(n, ne) * 2
        I = np.eye(n, dtype=int).astype(object)
        # units of 1/400
        A, B, C, D = -20 * F, 400 * I + F.dot(G), -20 * G, -20 * H
        M = I.copy()
        for i, j, c in spec['M']:
            M[i, :] = M[i, :] + c * M[j, :]
        A, B, C, D = (M.dot(Z) * (UNIT // 400) for Z in (A, B, C, D))
        ep = spec['eqperm']
        self.Ai, self.Bi, self.Ci, self.Di = (Z[ep, :] for Z in (A, B, C, D))   # integers, units of 1/UNIT
        self.A, self.B, self.C, self.D = (np.array(Z, dtype=float) / UNIT for Z in (self.Ai, self.Bi, self.Ci, self.Di))
        self.G, self.F, self.H = (np.array(Z, dtype=float) / 20 for Z in (G, F, H))
        self.names = spec['names']
        self.enames = spec['enames']
        self.perm = spec['perm']
        self.declared = [self.names[i] for i in self.perm]      # declaration order
        tr = spec['tr']
        self.ss = [s / 10 for s in spec['ss']]
        for i in range(n):
            if tr[i] in ('log', 'pow', 'inv') and self.ss[i] < 0.3:
                self.ss[i] = round(abs(self.ss[i]) + 0.5, 1)
        self.back = [i for i in range(n) if any(self.Ci[:, i])]
        self.fwd = [i for i in range(n) if any(self.Ai[:, i])]
        self.now = [i for i in range(n) if any(self.Bi[:, i])]

    # sigma from the shock statements, in the order of enames
    def sigma(self):
        ne = self.ne
        S = np.eye(ne)
        sh = self.spec['shocks']
        for j, (kind, s, r, o) in enumerate(sh):
            if kind != 'none':
                S[j, j] = (s / 10) ** 2 if kind != 'variance' else s / 10
        for j, (kind, s, r, o) in enumerate(sh):
            if kind in ('corr', 'cov') and o < j:
                c = self.corr_of(r) if kind == 'corr' else None
                if kind == 'corr':
                    S[j, o] = S[o, j] = c * math.sqrt(S[j, j] * S[o, o])
                else:
                    S[j, o] = S[o, j] = self.cov_of(j, o)
        return S

    def corr_of(self, r):
        return r / 10 / max(1, self.ne - 1)

    def cov_of(self, j, o):
        sh = self.spec['shocks']
        var = lambda k: 1. if sh[k][0] == 'none' else ((sh[k][1] / 10) ** 2 if sh[k][0] != 'variance' else sh[k][1] / 10)
        return round(self.corr_of(sh[j][2]) * math.sqrt(var(j) * var(o)) * 0.9, 4)

    def ordered(self, M):
        """canonical -> declaration order for an n x n matrix"""
        return M[np.ix_(self.perm, self.perm)]


def dec(k):
    """exact decimal text of k/UNIT, k > 0"""
    s = f'{k // UNIT}.{k % UNIT:04d}'.rstrip('0')
    return s[:-1] if s.endswith('.') else s


def lit(x, places=10):
    """literal tree of a decimal float (no exponent form)"""
    s = f'{abs(x):.{places}f}'.rstrip('0').rstrip('.')
    t = ['n', s or '0']
    return ['u', '-', t] if x < 0 and float(s) != 0 else t


def deviation(name, k, kind, c):
    """tree u(x) with u(c) = 0, u'(c) = 1"""
    x = ['p', name, k] if k else ['v', name]
    num = lambda v: lit(v)
    d = x if c == 0 else (['b', '-', x, num(c)] if c > 0 else ['b', '+', x, num(-c)])
    if kind == 'lin':
        return d
    if kind == 'exp':
        return ['b', '-', ['f', 'exp', d], ['n', '1']]
    if kind == 'sin':
        return ['f', 'sin', d]
    if kind == 'erf':   # tan keeps slope 1 at 0; erf would not
        return ['f', 'tan', d]
    if kind == 'quad':
        return ['b', '+', d, ['b', '*', ['n', '0.7'], ['b', '^', d, ['n', '2']]]]
    if kind == 'log':
        return ['b', '*', num(c), ['f', 'log', ['b', '/', x, num(c)]]]
    if kind == 'pow':
        return ['b', '/', ['b', '-', ['b', '^', x, ['n', '2']], ['b', '^', num(c), ['n', '2']]], ['b', '*', ['n', '2'], num(c)]]
    if kind == 'inv':
        return ['b', '-', num(c), ['b', '/', ['b', '^', num(c), ['n', '2']], x]]
    raise AssertionError(kind)


def add(a, b):
    return b if a is None else ['b', '+', a, b]


def build(p):
    """the structured model file of a Planted"""
    spec = p.spec
    if isinstance(p, dict):
        p = Planted(p)
    n, ne = p.n, p.ne
    params, eqs = [], []
    atoms = []          # (tree of a timed deviation or shock)
    for i in range(n):
        for k, idx in ((-1, p.back), (0, p.now), (1, p.fwd)):
            if i in idx:
                atoms.append(deviation(p.names[i], k, spec['tr'][i], p.ss[i]))
    etree = []
    for j in range(ne):
        v = ['v', p.enames[j]]
        etree.append({'lin': v, 'exp': ['b', '-', ['f', 'exp', v], ['n', '1']], 'sin': ['f', 'sin', v]}[spec['etr'][j]])
    atoms += [etree[j] for j in range(ne)]
    pc = itertools.count()

    def coef(k, tree):
        """k/UNIT * tree, as (sign, tree)"""
        a = abs(k)
        use = spec['pmode'] and next(pc) % (spec['pmode'] + 1) == 1
        if use:
            nm = f'par{len(params)}'
            params.append([nm, lit(k / UNIT, 4)])
            return 1, ['b', '*', ['v', nm], tree]
        if a == UNIT:
            return (1 if k > 0 else -1), tree
        return (1 if k > 0 else -1), ['b', '*', ['n', dec(a)], tree]

    for r in range(n):
        lhs = rhs = None
        terms = []
        for i in range(n):
            for k, Z in ((0, p.Bi), (-1, p.Ci), (1, p.Ai)):
                if Z[r, i]:
                    terms.append((Z[r, i], deviation(p.names[i], k, spec['tr'][i], p.ss[i])))
        for j in range(ne):
            if p.Di[r, j]:
                terms.append((p.Di[r, j], etree[j]))
        for (er, a, b, q) in spec['quad']:
            if er == r and q:
                terms.append((q * UNIT // 10, ['b', '*', atoms[a % len(atoms)], atoms[b % len(atoms)]]))
        for t_i, (k, tree) in enumerate(terms):
            s, t = coef(int(k), tree)
            # which side it is written on
            left = {0: t_i == 0, 1: t_i % 2 == 0, 2: True}[spec['sides']]
            if not left:
                s = -s
            cur = lhs if left else rhs
            if cur is None:
                cur = t if s > 0 else ['u', '-', t]
            else:
                cur = ['b', '+' if s > 0 else '-', cur, t]
            if left:
                lhs = cur
            else:
                rhs = cur
        if lhs is None:
            raise Skip('empty equation')
        eqs.append([lhs, rhs if rhs is not None else (None if spec['sides'] == 2 and r % 2 else ['n', '0'])])
    shocks = []
    for j, (kind, s, rr, o) in enumerate(spec['shocks']):
        nm = p.enames[j]
        if kind == 'variance':
            shocks.append(['variance', nm, None, lit(s / 10)])
        elif kind == 'stderr':
            shocks.append(['stderr', nm, None, lit(s / 10)])
        elif kind in ('corr', 'cov'):
            shocks.append(['stderr', nm, None, lit(s / 10)])
    for j, (kind, s, rr, o) in enumerate(spec['shocks']):
        if kind in ('corr', 'cov') and o < j:
            v = p.corr_of(rr) if kind == 'corr' else p.cov_of(j, o)
            shocks.append([kind, p.enames[j], p.enames[o], lit(v)])
    # a later shock may carry only one statement of that kind; see DESIGN
    return dict(endog=p.declared, exog=list(p.enames), params=params, locals=[], eqs=eqs,
                init=[[p.names[i], lit(p.ss[i])] for i in p.perm if p.ss[i] != 0 or True], shocks=shocks)


# ---------------------------------------------------------------------------------------------- rendering
def file_tokens(f):
    """token list of a structured model file"""
    T = []
    def decl(kw, names):
        if names:
            T.extend([kw] + list(names) + [';'])
    decl('var', f['endog'])
    decl('varexo', f['exog'])
    decl('parameters', [k for k, v in f['params']])
    for k, v in f['params']:
        T.extend([k, '='] + X.tokens(v) + [';'])
    T.extend(['model', ';'])
    for k, v in f.get('locals', []):
        T.extend(['#', k, '='] + X.tokens(v) + [';'])
    for lhs, rhs in f['eqs']:
        T.extend(X.tokens(lhs))
        if rhs is not None:
            T.extend(['='] + X.tokens(rhs))
        T.append(';')
    T.extend(['end', ';'])
    for blk in f.get('order', ['initval', 'endval', 'histval', 'shocks']):
        key = {'initval': 'init', 'endval': 'terminal', 'histval': 'hist', 'shocks': 'shocks'}[blk]
        v = f.get(key)
        if v is None or (not v and blk != 'shocks'):
            continue
        T.extend([blk, ';'])
        if blk != 'shocks':
            for k, t in v:
                T.extend([k, '='] + X.tokens(t) + [';'])
        else:
            for kind, a, b, t in v:
                if kind == 'variance':
                    T.extend(['var', a, '='])
                elif kind == 'stderr':
                    T.extend(['var', a, ';', 'stderr'])
                elif kind == 'corr':
                    T.extend(['corr', a, ',', b, '='])
                else:
                    T.extend(['var', a, ',', b, '='])
                T.extend(X.tokens(t) + [';'])
        T.extend(['end', ';'])
    return T


def text(f):
    out, line = [], []
    for t in file_tokens(f):
        line.append(t)
        if t == ';':
            out.append(X.glue(line))
            line = []
    if line:
        out.append(X.glue(line))
    return '\n'.join(out) + '\n'


_count = itertools.count()


def write(txt, suffix='.mod', stem='m'):
    path = os.path.join(env.scratch(), f'{stem}{next(_count)}{suffix}')
    with open(path, 'w') as fh:
        fh.write(txt)
    return path


def read(txt):
    """Model.from_path on a scratch file"""
    import pynare
    path = write(txt)
    try:
        return pynare.Model.from_path(path)
    finally:
        os.unlink(path)


def load(f_or_text):
    txt = f_or_text if isinstance(f_or_text, str) else text(f_or_text)
    with sut(f'loading the model\n{txt}'):
        return read(txt)


# -------------------------------------------------------------------------------------------- observation
def policy(md, sol):
    """first-order response in declaration order: n x n (by lagged variable) and n x ne"""
    with sut('reading the policy matrices'):
        idx = md.indexes
        order = [int(i) for i in idx.dr_order]
        n, ne = len(md.endog), len(md.stoch)
        state = {str(s) for s in md.state_vars.names} if len(md.state_vars) else set()
        nm = [str(x) for x in md.endog.names]
        cols = [i for i in order if nm[i] in state]
        gy = np.asarray(sol.gy, dtype=float).reshape(n, len(cols))
        gu = np.asarray(sol.gu, dtype=float).reshape(n, ne)
    G, H = np.zeros((n, n)), np.zeros((n, ne))
    for a, i in enumerate(order):
        for b, j in enumerate(cols):
            G[i, j] = gy[a, b]
        H[i, :] = gu[a, :]
    return G, H


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ------------------------------------------------------------------------------- reference local expansions
def param_scope(f):
    """values of the parameters of a structured file (definitions may refer to each other in any order)"""
    vals, todo = {}, list(f['params'])
    while todo:
        rest = []
        for k, t in todo:
            try:
                vals[k] = X.value(t, vals)[0]
            except KeyError:
                rest.append((k, t))
        if len(rest) == len(todo):
            raise Skip('circular')
        todo = rest
    return vals


def expansion(f, ss):
    """value, jacobian and hessian of every equation over [lag n | now n | lead n | shocks], by the tree evaluator"""
    endog, exog = f['endog'], f['exog']
    n, ne = len(endog), len(exog)
    m = 3 * n + ne
    scope = dict(param_scope(f))
    for b, k in enumerate((-1, 0, 1)):
        for i, v in enumerate(endog):
            t = X.Taylor.var(ss[v], b * n + i, m)
            scope[(v, k)] = t
            if k == 0:
                scope[v] = t
    for j, e in enumerate(exog):
        scope[e] = X.Taylor.var(0., 3 * n + j, m)
    for k, t in f.get('locals', []):
        scope[k] = X.taylor(t, scope, m)
    V, J, Hs = [], [], []
    for lhs, rhs in f['eqs']:
        a = X.taylor(lhs, scope, m)
        if rhs is not None:
            b = X.taylor(rhs, scope, m)
            a = X.Taylor(a.v - b.v, a.g - b.g, a.h - b.h)
        V.append(a.v)
        J.append(a.g)
        Hs.append(a.h)
    return np.array(V), np.array(J).reshape(len(V), m), np.array(Hs).reshape(len(V), m, m)


def expand_planted(p, f):
    """expansion at the planted steady state; the linear part is known, which checks the harness itself"""
    ss = {p.names[i]: p.ss[i] for i in range(p.n)}
    V, J, Hs = expansion(f, ss)
    perm = list(p.perm)
    want = np.hstack([p.C[:, perm], p.B[:, perm], p.A[:, perm], p.D])
    assert np.allclose(V, 0, atol=1e-9), 'harness: residual'
    assert np.allclose(J, want, atol=1e-8), 'harness: jacobian'
    return V, J, Hs


def linear_residual(A, B, C, D, G, H):
    """scaled size of the linearized equations under x = G x(-1) + H e"""
    r1 = A @ G @ G + B @ G + C
    r2 = (A @ G + B) @ H + D
    s1 = np.abs(A) @ np.abs(G) @ np.abs(G) + np.abs(B) @ np.abs(G) + np.abs(C) + 1
    s2 = (np.abs(A) @ np.abs(G) + np.abs(B)) @ np.abs(H) + np.abs(D) + 1
    e1 = np.max(np.abs(r1) / s1) if r1.size else 0.
    e2 = np.max(np.abs(r2) / s2) if r2.size else 0.
    return float(max(e1, e2)) if np.isfinite(e1) and np.isfinite(e2) else math.inf


def second_policy(md, sol):
    """second-order coefficients as derivative tensors in declaration order:
    Gxx (n, n, n), Gxu (n, n, ne), Guu (n, ne, ne), Gss (n)"""
    with sut('reading the second-order policy arrays'):
        order = [int(i) for i in md.indexes.dr_order]
        n, ne = len(md.endog), len(md.stoch)
        state = {str(s) for s in md.state_vars.names} if len(md.state_vars) else set()
        nm = [str(x) for x in md.endog.names]
        cols = [i for i in order if nm[i] in state]
        nt = len(cols)
        xx = 2 * np.asarray(sol.ghxx, dtype=float).reshape(n, nt, nt)
        xu = np.asarray(sol.ghxu, dtype=float).reshape(n, nt, ne)
        uu = 2 * np.asarray(sol.ghuu, dtype=float).reshape(n, ne, ne)
        ss = 2 * np.asarray(sol.del2, dtype=float).reshape(n)
    Gxx, Gxu, Guu, Gss = np.zeros((n, n, n)), np.zeros((n, n, ne)), np.zeros((n, ne, ne)), np.zeros(n)
    for a, i in enumerate(order):
        Gss[i] = ss[a]
        Guu[i] = uu[a]
        for b, j in enumerate(cols):
            Gxu[i, j] = xu[a, b]
            for c, k in enumerate(cols):
                Gxx[i, j, k] = xx[a, b, c]
    return Gxx, Gxu, Guu, Gss


def second_residual(J, Hs, Sigma, G, H, Gxx, Gxu, Guu, Gss):
    """scaled size of all second-order terms of E f(x(-1), g, g(g, e'), e); J, Hs over [lag|now|lead|e]"""
    n, ne = H.shape
    C, B, A, D = J[:, :n], J[:, n:2 * n], J[:, 2 * n:3 * n], J[:, 3 * n:]
    m = n + ne
    W = np.hstack([G, H])                                      # dx_t / d(x, e)
    S2 = np.zeros((n, m, m))
    S2[:, :n, :n] = Gxx
    S2[:, :n, n:] = Gxu
    S2[:, n:, :n] = np.transpose(Gxu, (0, 2, 1))
    S2[:, n:, n:] = Guu
    Z = np.vstack([np.hstack([np.eye(n), np.zeros((n, ne))]), W, G @ W, np.hstack([np.zeros((ne, n)), np.eye(ne)])])

    def terms(ab):
        f = (lambda x: np.abs(x)) if ab else (lambda x: x)
        lead2 = np.einsum('ij,jab->iab', f(G), f(S2)) + np.einsum('ijk,ja,kb->iab', f(Gxx), f(W), f(W))
        r = np.einsum('ij,jab->iab', f(A), lead2) + np.einsum('ij,jab->iab', f(B), f(S2)) \
            + np.einsum('ipq,pa,qb->iab', f(Hs), f(Z), f(Z))
        uu = np.einsum('iab,ab->i', f(Guu), f(Sigma))
        HSH = f(H) @ f(Sigma) @ f(H).T
        c = f(A) @ (f(G) @ f(Gss) + f(Gss) + uu) + f(B) @ f(Gss) \
            + np.einsum('ipq,pq->i', f(Hs[:, 2 * n:3 * n, 2 * n:3 * n]), HSH)
        return r, c
    (r, c), (sr, sc) = terms(False), terms(True)
    e1 = np.abs(r) / (sr + 1)
    e2 = np.abs(c) / (sc + 1)
    worst = max(float(e1.max()) if e1.size else 0., float(e2.max()) if e2.size else 0.)
    return worst if np.isfinite(worst) else math.inf


def second_reference(J, Hs, Sigma, G, H):
    """solve the second-order system by vectorization (reference coefficients, declaration order)"""
    n, ne = H.shape
    C, B, A = J[:, :n], J[:, n:2 * n], J[:, 2 * n:3 * n]
    W = np.hstack([G, H])
    m = n + ne
    Z = np.vstack([np.hstack([np.eye(n), np.zeros((n, ne))]), W, G @ W, np.hstack([np.zeros((ne, n)), np.eye(ne)])])
    R = np.einsum('ipq,pa,qb->iab', Hs, Z, Z)
    L = A @ G + B
    # xx block: L X + A X (G kron G) = -R
    K = np.kron(L, np.eye(n * n)) + np.kron(A, np.kron(G, G).T)
    Gxx = np.linalg.solve(K, -R[:, :n, :n].reshape(-1)).reshape(n, n, n)
    full = np.einsum('ijk,ja,kb->iab', Gxx, W, W)
    rest = -R - np.einsum('ij,jab->iab', A, full)
    S2 = np.einsum('ij,jab->iab', np.linalg.inv(L), rest)
    Gxu, Guu = S2[:, :n, n:], S2[:, n:, n:]
    c = A @ np.einsum('iab,ab->i', Guu, Sigma) + np.einsum('ipq,pq->i', Hs[:, 2 * n:3 * n, 2 * n:3 * n], H @ Sigma @ H.T)
    Gss = np.linalg.solve(L + A, -c)
    return Gxx, Gxu, Guu, Gss
