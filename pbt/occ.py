"""occasionally binding constraints on planted models, with a reference guess-and-verify solver"""
from __future__ import annotations
import warnings
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, models as M
from pbt.harness import Skip, Violation, sut

FORMS = ['bound', 'bound', 'bound', 'exp', 'slope', 'lag', 'lead', 'shock']


@st.composite
def constraint(draw):
    return dict(j=draw(st.integers(0, 9)), r=draw(st.integers(0, 9)), q=draw(st.integers(-9, 9)), form=draw(st.sampled_from(FORMS)),
                m=draw(st.integers(-9, 9)), y=draw(st.integers(0, 9)), k=draw(st.integers(0, 3)), sign=draw(st.sampled_from([-1, -1, 1])),
                frac=draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9, 12, 500])), gap=draw(st.sampled_from([0, 0, 0, 1])), param=draw(st.booleans()),
                at=draw(st.integers(0, 9)), eqat=draw(st.integers(0, 9)), curved=draw(st.sampled_from(['no', 'no', 'exp', 'inv'])),
                extra=draw(st.sampled_from([0, 0, 3, -4])), flip=draw(st.booleans()), strict=draw(st.booleans()))


@st.composite
def cases(draw, n_con=1, **kw):
    kw = dict(dict(max_n=3, quad=2, eig=14, zero_var=False, max_exog=2, corr=False, nonlinear=True), **kw)
    spec = draw(M.planted(**kw))
    T = draw(st.sampled_from([1, 2, 3, 4]))
    ne = spec['ne']
    return dict(spec=spec, con=[draw(constraint()) for _ in range(n_con)],
                shocks=draw(st.lists(st.lists(st.integers(-20, 20), min_size=ne, max_size=ne), min_size=T, max_size=T)),
                exog=draw(st.sampled_from(['all', 'all', 'none', 'name', 'list1', 'reversed'])), column=draw(st.booleans()),
                init=draw(st.one_of(st.none(), st.lists(st.integers(-20, 20), min_size=9, max_size=9))), initlist=draw(st.booleans()),
                periods=draw(st.sampled_from([0, 12, 20, 40, 40])), single=draw(st.booleans()), restrained=draw(st.booleans()),
                before=draw(st.sampled_from(['no', 'no', 1, 2])), dbl=draw(st.sampled_from([0, 0, 1])))


class Occ:
    """builds the model, the regimes and their linearizations in declaration order"""

    def __init__(self, case, use=None):
        self.case = case
        p = self.p = M.Planted(case['spec'])
        f = self.f = M.build(p)
        cons = case['con']
        ssd = {p.names[i]: p.ss[i] for i in range(p.n)}
        self.cons = []
        nominal = []
        for c, con in enumerate(cons):
            z = f'zb{c}'
            x = p.names[con['j'] % p.n]
            s = ssd[x]
            ssd[z] = s
            f['endog'].insert(con['at'] % (len(f['endog']) + 1), z)
            f['init'].append([z, M.lit(s)])
            # z - x enters one of the equations, where it vanishes unless the constraint binds
            r = con['r'] % p.n
            if con['q']:
                d = ['b', '-', ['v', z], ['v', x]]
                l, rr = f['eqs'][r]
                f['eqs'][r] = [['b', '+' if con['q'] > 0 else '-', l, ['b', '*', M.lit(abs(con['q']) / 20), ['g', d]]], rr]
            if con['curved'] == 'exp' and abs(s) < 3:
                ref = [['f', 'exp', ['v', z]], ['f', 'exp', ['v', x]]]
            elif con['curved'] == 'inv' and s > 0.25:
                ref = [['n', '1'], ['b', '/', ['v', x], ['v', z]]]
            else:
                ref = [['v', z], ['v', x]] if not con['flip'] else [['b', '-', ['v', x], ['v', z]], ['n', '0']]
            self.cons.append(dict(z=z, x=x, s=s, ref=ref, r=r))
        # the constrained equations are put in at their places
        tags = [None] * len(f['eqs'])
        for c, (con, k) in enumerate(zip(cons, self.cons)):
            i = con['eqat'] % (len(f['eqs']) + 1)
            f['eqs'].insert(i, k['ref'])
            tags.insert(i, c)
        self.pos = [tags.index(c) for c in range(len(cons))]
        self.main = [i for i, t in enumerate(tags) if t is None]
        self.ssd = ssd
        self.names = list(f['endog'])
        self.exog = list(f['exog'])
        self.n, self.ne = len(self.names), len(self.exog)
        self.ss = np.array([ssd[v] for v in self.names])
        # first-order response in declaration order
        can = {p.names[i]: i for i in range(p.n)}
        col = {v: i for i, v in enumerate(self.names)}
        row = lambda v: can[v] if v in can else can[next(k['x'] for k in self.cons if k['z'] == v)]
        self.G, self.H = np.zeros((self.n, self.n)), np.zeros((self.n, self.ne))
        for a, v in enumerate(self.names):
            for w, b in can.items():
                self.G[a, col[w]] = p.G[row(v), b]
            self.H[a] = p.H[row(v)].reshape(self.ne)
        # shocks, initial position and thresholds
        T = len(case['shocks'])
        sh = np.array(case['shocks'], dtype=float).reshape(T, self.ne) / 10
        how = case['exog']
        if how == 'none':
            self.which, self.exog_arg = [0], None
        elif how == 'name':
            self.which, self.exog_arg = [self.ne - 1], self.exog[-1]
        elif how == 'list1':
            self.which, self.exog_arg = [self.ne - 1], [self.exog[-1]]
        elif how == 'reversed':
            self.which = list(range(self.ne))[::-1]
            self.exog_arg = [self.exog[i] for i in self.which]
        else:
            self.which = list(range(self.ne))
            self.exog_arg = list(self.exog)
        self.given = sh[:, self.which]
        if how in ('none', 'name') and not case['column']:
            self.given = self.given[:, 0]
        self.innov = np.zeros((T, self.ne))
        self.innov[:, self.which] = sh[:, self.which]
        i0 = case['init']
        self.init = None if i0 is None else np.array([i0[i % 9] for i in range(self.n)], dtype=float) / 20
        self.y0 = np.zeros(self.n) if self.init is None else self.init
        lin = self.linear(40)
        self.pairs, self.thr, self.relax = [], [], []
        alts, alts2 = [], []
        for c, (con, k) in enumerate(zip(cons, self.cons)):
            reach = lin[:, col[k['z']]] * con['sign']
            top = float(np.max(reach, initial=0.))
            b = round(max(top, 0.05) * con['frac'] / 10, 3) or 0.001
            thr = con['sign'] * b
            gap = round(b / 8, 3) * con['gap'] * con['sign']
            if con['param']:
                nm = f'lim{c}'
                f['params'].append([nm, M.lit(thr)])
                t = nm
            else:
                t = X.text(M.lit(thr))
            lo, hi = ('<', '>') if con['sign'] < 0 else ('>', '<')
            if con['strict']:
                lo, hi = lo + '=', hi
            back = k['x'] if not gap else f"{k['x']} + {X.text(['g', M.lit(gap)])}"
            self.pairs.append((f"{k['z']} {lo} {t}", f'{back} {hi} {t}'))
            self.thr.append(thr)
            self.relax.append(thr - gap)
            alts.append(self.alternative(con, k, thr, 0))
            alts2.append(self.alternative(con, k, thr, 0.01 * case['dbl']))
        self.text = M.text(f)
        self.zc = [col[k['z']] for k in self.cons]
        self.xc = [col[k['x']] for k in self.cons]
        self.alts = []
        for which in ([0],) if len(cons) == 1 else ([0], [1], [0, 1]):
            d = {}
            for c in which:
                d[self.pos[c]] = (alts if len(which) == 1 else alts2)[c]
                if cons[c]['extra']:
                    i = self.main[self.cons[c]['r']]
                    l, rr = d.get(i, f['eqs'][i])
                    v = self.names[cons[c]['y'] % self.n]
                    d[i] = [['b', '+', l, ['b', '*', M.lit(cons[c]['extra'] / 40), ['g', M.deviation(v, 0, 'lin', self.ssd[v])]]], rr]
            self.alts.append(d)
        self.blocks = [self.expand({})] + [self.expand(d) for d in self.alts]

    def alternative(self, con, k, thr, extra):
        z, s, p = k['z'], k['s'], self.p
        lev = lambda t: t if s == 0 else ['b', '+', t, M.lit(s)] if s > 0 else ['b', '-', t, M.lit(-s)]
        b = thr + extra
        m = M.lit(con['m'] / 20)
        y = p.names[con['y'] % p.n]
        form = con['form']
        if form == 'bound' or not con['m']:
            return [['v', z], lev(M.lit(b))]
        if form == 'exp':
            return [['f', 'exp', ['g', M.deviation(z, 0, 'lin', s)]], ['f', 'exp', M.lit(b)]]
        if form == 'shock':
            u = ['v', self.f['exog'][con['k'] % len(self.f['exog'])]]
        elif form == 'slope':
            u = ['g', ['b', '-', ['g', M.deviation(k['x'], 0, 'lin', s)], M.lit(b)]]
        else:
            u = ['g', M.deviation(y, -1 if form == 'lag' else 1, 'lin', self.ssd[y])]
        return [['v', z], ['b', '+', lev(M.lit(b)), ['b', '*', m, u]]]

    def expand(self, d):
        """(lag, now, lead, shock, constant) of the equations with those of d replaced"""
        f = dict(self.f, eqs=[d.get(i, e) for i, e in enumerate(self.f['eqs'])])
        V, J, _ = M.expansion(f, self.ssd)
        n = self.n
        if not np.all(np.isfinite(J)):
            raise Skip('singular')
        return J[:, :n], J[:, n:2 * n], J[:, 2 * n:3 * n], J[:, 3 * n:], V

    def exprs(self):
        out = []
        for d in self.alts:
            out.append({i: X.text(l, '^') + (' = ' + X.text(r, '^') if r is not None else '') for i, (l, r) in d.items()})
        return out[0] if len(out) == 1 and self.case['single'] else out

    def linear(self, T):
        y, out = self.y0, []
        for t in range(T):
            y = self.G @ y + (self.H @ self.innov[t] if t < len(self.innov) else 0)
            out.append(y)
        return np.array(out)

    # ---------------------------------------------------------------- reference guess-and-verify
    def binds(self, y):
        """per period and constraint: switch to the alternative, switch back"""
        out = np.zeros((len(y), len(self.zc), 2), dtype=bool)
        near = False
        for c, con in enumerate(self.case['con']):
            a = y[:, self.zc[c]] - self.thr[c]
            b = y[:, self.xc[c]] - self.relax[c]
            s = con['sign']
            out[:, c, 0] = s * a > 0 if not con['strict'] else s * a >= 0
            out[:, c, 1] = s * b < 0
            self.close = min(self.close, float(np.min(np.abs(b))), float(np.min(np.abs(a)[np.abs(a) > 1e-12], initial=1)))
        return out

    def regime(self, row):
        k = len(row)
        return self.blocks[0 if not row.any() else 1 if k == 1 else (3 if row.all() else 1 if row[0] else 2)]

    def guess(self, hypo, y0, e, N):
        last = max((i for i in range(len(hypo)) if hypo[i].any()), default=-1)
        P, D, Q = [None] * (last + 1), [None] * (last + 1), None
        Pn, Dn = self.G, np.zeros(self.n)
        for i in range(last, -1, -1):
            C, B, A, E, V = self.regime(hypo[i])
            Z = A @ Pn + B
            if not np.all(np.isfinite(Z)) or np.linalg.cond(Z) > 1e7:
                raise Skip('singular regime')
            Pn, Dn, Q = -np.linalg.solve(Z, C), -np.linalg.solve(Z, A @ Dn + V), -np.linalg.solve(Z, E)
            P[i], D[i] = Pn, Dn
        y, out = y0, []
        for i in range(N):
            y = (P[i] @ y + D[i] if i <= last else self.G @ y) + ((Q if last >= 0 else self.H) @ e if i == 0 else 0)
            out.append(y)
        return np.array(out)

    def reference(self, N, max_iter=20):
        """(rows, settled, ever bound)"""
        k = len(self.zc)
        self.close = 1.
        hypo = np.zeros((N + 1, k), dtype=bool)
        y, rows, settled, bound, spells = self.y0, [], True, False, 0
        g = None
        for e in self.innov:
            for it in range(max_iter):
                if hypo[-1].any():
                    return None, False, True
                g = self.guess(hypo, y, e, N + 1)
                if not np.all(np.isfinite(g)) or np.max(np.abs(g)) > 1e5:
                    raise Skip('explodes')
                c = self.binds(g)
                new = (hypo | c[:, :, 0]) & ~(hypo & c[:, :, 1])
                if (new == hypo).all():
                    break
                hypo = new
            else:
                return None, False, True
            bound |= bool(hypo.any())
            y = g[0]
            rows.append(y)
            hypo = np.vstack([hypo[1:], np.zeros((1, k), dtype=bool)])
        rows += list(g[1:N - len(self.innov) + 1])
        return np.array(rows).reshape(N, self.n), True, bound

    # ---------------------------------------------------------------- judging a path
    def judge(self, y, start, what):
        """rows from the last shock on satisfy the equations of an admissible regime, given the next row"""
        N = len(y)
        nxt = self.G @ y[-1]
        tail = np.array([np.linalg.matrix_power(self.G, i) @ y[-1] for i in range(N)])
        c = self.close
        ends = not self.binds(tail)[1:].any()
        self.close = c
        k = len(self.zc)
        for t in range(start, N if ends else N - 1):
            before = y[t - 1] if t else self.y0
            after = y[t + 1] if t + 1 < N else nxt
            e = self.innov[t] if t < len(self.innov) else np.zeros(self.ne)
            tol = 1e-6
            best, why = None, []
            for combo in range(2 ** k):
                row = np.array([(combo >> c) & 1 for c in range(k)], dtype=bool)
                ok = True
                for c, con in enumerate(self.case['con']):
                    a = con['sign'] * (y[t, self.zc[c]] - self.thr[c])
                    b = con['sign'] * (y[t, self.xc[c]] - self.relax[c])
                    ok &= (b >= -tol) if row[c] else (a <= tol)
                C, B, A, E, V = self.regime(row)
                res = A @ after + B @ y[t] + C @ before + E @ e + V
                size = 1 + np.abs(A) @ np.abs(after) + np.abs(B) @ np.abs(y[t]) + np.abs(C) @ np.abs(before) + np.abs(E) @ np.abs(e) + np.abs(V)
                r = float(np.max(np.abs(res) / size))
                why.append(f'constrained {row.astype(int).tolist()}: {"agrees" if ok else "disagrees"} with the path, residual {r:.2e}')
                if ok and (best is None or r < best):
                    best = r
            if best is None or not best <= 1e-7:
                raise Violation(f'{what}: period {t} satisfies no regime that agrees with the path\n' + '\n'.join(why)
                                + f'\nbefore {before}\nhere {y[t]}\nafter {after}\n{self.describe()}')
        return ends

    def describe(self):
        return f'{self.pairs} {self.exprs()} shocks {self.given.tolist()} to {self.exog_arg} from {self.y0.tolist()} ({self.names})\n{self.text}'

    # ---------------------------------------------------------------- running
    def load(self):
        self.md = M.load(self.text)
        if self.case['before'] != 'no':
            with sut('solving the reference model'):
                self.md.solve(order=self.case['before'])

    def run(self, rows=None, periods=0, pairs=None, exprs=None, **more):
        """(paths, shocks, warned)"""
        given = self.given if rows is None else self.given[:rows]
        keep = given.copy()
        init = self.init if self.init is None or not self.case['initlist'] else self.init.tolist()
        kw = dict(exprs=self.exprs() if exprs is None else exprs, shocks=given, **more)
        if self.exog_arg is not None:
            kw['exog'] = self.exog_arg
        if init is not None:
            kw['init'] = init
        if periods:
            kw['periods'] = periods
        if len(self.pairs) > 1 and self.case['restrained'] and pairs is None:
            kw['restrained'] = True
        con = pairs if pairs is not None else (self.pairs if len(self.pairs) > 1 else self.pairs[0])
        with sut(f'occbin solution\n{self.describe()}', allow=(np.linalg.LinAlgError,)), warnings.catch_warnings(record=True) as ws, np.errstate(all='ignore'):
            warnings.simplefilter('always')
            sol = self.md.solve(constraint=con, **kw)
            y, sh = np.array(sol.paths, dtype=float), np.array(sol.shocks, dtype=float)
        if not np.array_equal(given, keep) or (self.init is not None and not np.array_equal(self.y0, np.array(init))):
            raise Violation('the shocks or initial values passed were changed')
        N = periods or len(given)
        want = np.zeros((N,) + given.shape[1:])
        want[:len(given)] = given
        if y.shape != (N, self.n) or sh.shape != want.shape or not np.array_equal(sh, want):
            raise Violation(f'paths of shape {y.shape} and shocks {sh.tolist()} for {given.tolist()} over {N} periods\n{self.describe()}')
        warned = [str(w.message) for w in ws if 'converge' in str(w.message) or 'periods' in str(w.message)]
        return y, sh, warned


def decide(case):
    o = Occ(case)
    A, B, C = o.blocks[0][2], o.blocks[0][1], o.blocks[0][0]
    assert np.max(np.abs(o.blocks[0][4])) < 1e-9 and M.linear_residual(A, B, C, o.blocks[0][3], o.G, o.H) < 1e-9, 'harness: reference regime'
    T = len(o.innov)
    N = case['periods'] if case['periods'] >= T else 0
    full = N or T
    ref, settled, bound = o.reference(full)
    fragile = o.close < 1e-7
    o.load()
    y, _, warned = o.run(periods=N)
    if fragile:
        raise Skip('on the threshold')
    if settled and warned:
        raise Violation(f'guess and verify settles, but a warning is given: {warned}\n{o.describe()}')
    if not settled:
        # nothing is promised about a path that comes with a warning
        if not warned:
            o.judge(y, T - 1, 'path without a warning')
        return False, None
    lin = o.linear(full)
    scale = 1 + float(np.max(np.abs(ref)))
    if not bound and not np.all(np.abs(y - lin) <= 1e-7 * scale):
        raise Violation(f'no constraint ever binds, but the path is not the linear one\n{y}\n{lin}\n{o.describe()}')
    o.judge(y, T - 1, f'path of {T} shocks over {full} periods')
    # earlier periods: expectations are those of a run that ends there
    for t in range(1, T):
        z, _, w = o.run(rows=t, periods=full)
        if w:
            continue
        if not np.all(np.abs(z[:t] - y[:t]) <= 1e-8 * scale):
            raise Violation(f'later shocks change the first {t} periods\n{z[:t]}\n{y[:t]}\n{o.describe()}')
        keep = o.innov
        o.innov = keep[:t]
        try:
            o.judge(z, t - 1, f'path of the first {t} shocks')
        finally:
            o.innov = keep
    if len(o.pairs) == 2 and case['con'][1]['frac'] >= 500:
        one, _, w = o.run(periods=N, pairs=o.pairs[0], exprs=o.exprs()[0])
        if not w and not np.all(np.abs(one - y) <= 1e-8 * scale):
            raise Violation(f'the second constraint never binds, but the path is not that of the first\n{y}\n{one}\n{o.describe()}')
    # the model itself is still the reference one
    with sut('solving the reference model afterwards'):
        o.md.solve(order=1)
    G, H = M.policy(o.md, o.md.solution)
    if not (M.near(G, o.G, 1e-5) and M.near(H, o.H, 1e-5)):
        raise Violation(f'the reference model is another one afterwards\n{o.describe()}')
    return bound, None


def attempts(case):
    """max_iter bounds the number of guesses per period: one guess is the reference path, and a warning says if it is not the answer"""
    o = Occ(case)
    N = case['periods'] or 12
    o.innov, given = o.innov[:1], o.given[:1]
    o.close = 1.
    first = o.binds(o.linear(N + 1))[:, :, 0].any()
    if o.close < 1e-7:
        raise Skip('on the threshold')
    ref, settled, _ = o.reference(N)
    if o.close < 1e-7:
        raise Skip('on the threshold')
    o.load()
    y, _, warned = o.run(rows=1, periods=N, max_iter=1)
    if first and not warned:
        raise Violation(f'one guess (max_iter=1) violates the constraints, but no warning is given\n{o.describe()}')
    if not first and warned:
        raise Violation(f'no constraint binds on the first guess, but a warning is given: {warned}\n{o.describe()}')
    z, _, w = o.run(rows=1, periods=N)
    if settled and w:
        raise Violation(f'guess and verify settles, but a warning is given: {w}\n{o.describe()}')
    scale = 1 + float(np.max(np.abs(z)))
    for m in (2, 3, 60):
        u, _, wm = o.run(rows=1, periods=N, max_iter=m)
        if not wm and not w and not np.all(np.abs(u - z) <= 1e-9 * scale):
            raise Violation(f'max_iter={m} changes the path although neither gives a warning\n{u}\n{z}\n{o.describe()}')
        if m == 60 and settled and wm:
            raise Violation(f'guess and verify settles, but with max_iter=60 a warning is given: {wm}\n{o.describe()}')
    return bool(first and settled), None
