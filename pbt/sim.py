"""reference dynamics of a solved model, in declaration order"""
from __future__ import annotations
import numpy as np
from pbt import models as M
from pbt.harness import Skip, Violation, sut


class Solved:
    """a planted model, loaded and solved, with the arrays a reference recursion needs"""

    def __init__(self, spec, order, check=True):
        self.p = p = M.Planted(spec)
        self.f = M.build(p)
        self.text = M.text(self.f)
        self.md = M.load(self.f)
        with sut(f'solving a determinate model at order {order}\n{self.text}'):
            self.sol = self.md.solve(order=order)
            self.low = self.sol if order == 1 else self.sol.lower_solution
        self.order = order
        self.ss = np.array([p.ss[i] for i in p.perm])
        self.G, self.H = M.policy(self.md, self.low)
        self.Gw, self.Hw = p.ordered(p.G), p.H[p.perm].reshape(p.n, p.ne)
        if check and not (M.near(self.G, self.Gw, 1e-5) and M.near(self.H, self.Hw, 1e-5)):
            raise Violation(f'the first-order solution is not that of the model\n{self.text}')
        self.sigma = p.sigma()
        self.T2 = M.second_policy(self.md, self.sol) if order == 2 else None

    def fresh(self):
        """the same model, not solved yet"""
        return M.load(self.f)

    @property
    def names(self):
        return self.p.declared

    def steady(self):
        with sut('reading the steady state'):
            ss = np.array(self.md.ss.values, dtype=float)
        if not M.near(ss, self.ss, 1e-5):
            raise Violation(f'steady state {ss} instead of {self.ss}\n{self.text}')
        return ss


def factor(S):
    """lower-triangular L with L L' = S, by plain elimination; S positive semi-definite"""
    n = len(S)
    L = np.zeros((n, n))
    for j in range(n):
        d = S[j, j] - sum(L[j, k] ** 2 for k in range(j))
        if d > 1e-9 * (S[j, j] if S[j, j] > 0 else 1):
            L[j, j] = d ** 0.5
            for i in range(j + 1, n):
                L[i, j] = (S[i, j] - sum(L[i, k] * L[j, k] for k in range(j))) / L[j, j]
    return L


def path(ss, G, H, init, innov, T2=None):
    """row 0 is init; row t responds to row t-1 and innov[t-1]; there is a row per row of innov"""
    out = [np.array(init, dtype=float)]
    for t in range(1, len(innov)):
        d, e = out[-1] - ss, innov[t - 1]
        y = ss + G @ d + H @ e
        if T2 is not None:
            Gxx, Gxu, Guu, Gss = T2
            y = y + 0.5 * Gss + 0.5 * np.einsum('iab,a,b->i', Gxx, d, d) \
                + np.einsum('iab,a,b->i', Gxu, d, e) + 0.5 * np.einsum('iab,a,b->i', Guu, e, e)
        out.append(y)
    return np.array(out).reshape(len(innov), len(ss))


def same(a, b, tol, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} instead of {b.shape}')
    scale = 1 + float(np.max(np.abs(b), initial=0.))
    if not np.all(np.isfinite(b)) or scale > 1e9:
        raise Skip('too large')
    bad = ~(np.abs(a - b) <= tol * scale)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f'{what}: entry {i} is {a[i]!r} instead of {b[i]!r}\ngot\n{a}\nwant\n{b}')


def variance(G, Q):
    n = len(G)
    return np.linalg.solve(np.eye(n * n) - np.kron(G, G), Q.reshape(-1)).reshape(n, n)
