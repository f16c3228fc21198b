"""C27: the linear-algebra helpers satisfy their defining equations"""
import numpy as np
from hypothesis import strategies as st
from pbt.harness import Part, Violation, Skip, sut


def un():
    import pynare.utils.numpy as u
    return u


def mat(draw, r, c, lo=-9, hi=9):
    return draw(st.lists(st.lists(st.integers(lo, hi), min_size=c, max_size=c), min_size=r, max_size=r))


def ops(draw, n):
    return [list(o) for o in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([-1, 1, 2])), max_size=2 * n)) if o[0] != o[1]]


def unimodular(n, ops):
    M = np.eye(n)
    for i, j, c in ops:
        M[i, :] += c * M[j, :]
    return M


# ------------------------------------------------------------------------------------------------ sylvester
@st.composite
def sylv(draw):
    m, n = draw(st.sampled_from([1, 2, 3, 4, 5])), draw(st.sampled_from([1, 2, 3, 4, 6, 9]))
    return dict(m=m, n=n, A=mat(draw, m, m), B=mat(draw, n, n), C=mat(draw, m, m), D=mat(draw, n, n), X=mat(draw, m, n),
                kind=draw(st.sampled_from(['dense', 'dense', 'lead', 'rot', 'singular'])))


def decide_sylv(case):
    m, n = case['m'], case['n']
    A, B, C, D, X = (np.array(case[k], dtype=float).reshape(s) / 4 for k, s in
                     (('A', (m, m)), ('B', (n, n)), ('C', (m, m)), ('D', (n, n)), ('X', (m, n))))
    if case['kind'] == 'lead':             # the shape of the second-order system: A X + C X D = E
        B = np.eye(n)
    if case['kind'] == 'rot':              # many complex pairs
        D = np.zeros((n, n))
        for k in range(0, n - 1, 2):
            a, b = case['D'][k][0] / 8, (abs(case['D'][k][1]) + 1) / 8
            D[k:k + 2, k:k + 2] = [[a, b], [-b, a]]
        U = unimodular(n, [(k, (k + 2) % n, 1) for k in range(n) if k != (k + 2) % n])
        D, B = U @ D @ np.linalg.inv(U), np.eye(n)
    if case['kind'] == 'singular':
        C[:, 0] = 0
        B = np.eye(n)
    K = np.kron(A, B) + np.kron(C, D)      # row-major vec
    sv = np.linalg.svd(K, compute_uv=False)
    if sv[-1] < 1e-3 * max(sv[0], 1):
        raise Skip('nearly singular equation')
    E = A @ X @ B.T + C @ X @ D.T
    args = [A.copy(), B.copy(), C.copy(), D.copy(), E.copy()]
    with sut(f'generalized_sylvester {case}'):
        Y = np.array(un().generalized_sylvester(*args), dtype=float)
    if Y.shape != E.shape:
        raise Violation(f'solution of shape {Y.shape} for a constant of shape {E.shape}')
    if not np.all(np.abs(Y - X) <= 1e-7 * (1 + np.abs(X).max())):
        raise Violation(f'solution of the Sylvester equation\n{Y}\ninstead of\n{X}\n{case}')
    for was, now in zip((A, B, C, D, E), args):
        if not np.array_equal(was, now):
            raise Violation('the arguments were changed')
    return m * n > 1, str(case)


# ------------------------------------------------------------------------------------------------ kronecker
@st.composite
def kron(draw):
    b, c = (draw(st.integers(0, 3)), draw(st.integers(0, 3))), (draw(st.integers(0, 3)), draw(st.integers(0, 3)))
    own = draw(st.booleans())
    c = b if own else c
    a = draw(st.integers(0, 4))
    return dict(own=own, b=b, c=c, a=a, A=mat(draw, a, b[0] * c[0]), B=mat(draw, *b), C=None if own else mat(draw, *c))


def decide_kron(case):
    b, c, a = case['b'], case['c'], case['a']
    A = np.array(case['A'], dtype=float).reshape(a, b[0] * c[0])
    B = np.array(case['B'], dtype=float).reshape(b)
    C = B if case['own'] else np.array(case['C'], dtype=float).reshape(c)
    with sut(f'matrix_kronecker_product {case}'):
        R = np.array(un().matrix_kronecker_product(A, B) if case['own'] else un().matrix_kronecker_product(A, B, C), dtype=float)
    W = np.einsum('ars,rk,sl->akl', A.reshape(a, b[0], c[0]), B, C).reshape(a, b[1] * c[1])
    if R.shape != W.shape or not np.allclose(R, W, rtol=0, atol=1e-9):
        raise Violation(f'A (B kron C) is\n{R}\ninstead of\n{W}\n{case}')
    return W.size > 1, str(case)


# ------------------------------------------------------------------------------------------------------- qz
@st.composite
def pencil(draw):
    blocks = draw(st.lists(st.one_of(
        st.tuples(st.just('r'), st.integers(-60, 60).filter(lambda v: abs(v) != 20)),
        st.tuples(st.just('inf'), st.just(0)),
        st.tuples(st.just('c'), st.integers(-40, 40), st.integers(1, 40)).filter(lambda t: abs(t[1] ** 2 + t[2] ** 2 - 400) > 30)),
        min_size=1, max_size=5))
    n = sum(2 if b[0] == 'c' else 1 for b in blocks)
    return dict(blocks=[list(b) for b in blocks], n=n, L=ops(draw, n), R=ops(draw, n))


def decide_pencil(case):
    n = case['n']
    a, b = np.eye(n), np.zeros((n, n))
    want, i = [], 0
    for blk in case['blocks']:
        if blk[0] == 'r':
            b[i, i] = blk[1] / 20
            want.append(abs(blk[1]) / 20)
        elif blk[0] == 'inf':
            a[i, i], b[i, i] = 0., 1.
            want.append(np.inf)
        else:
            x, y = blk[1] / 20, blk[2] / 20
            b[i:i + 2, i:i + 2] = [[x, y], [-y, x]]
            want += [np.hypot(x, y)] * 2
            i += 1
        i += 1
    L, R = unimodular(n, case['L']), unimodular(n, case['R'])
    if np.linalg.cond(L) * np.linalg.cond(R) > 1e3:
        raise Skip('ill-conditioned')
    A, B = L @ a @ R, L @ b @ R
    with sut(f'partitioned_qz {case}'):
        out = un().partitioned_qz(A.copy(), B.copy())
    eig, Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22 = out
    k = sum(w < 1 for w in want)
    mod = np.absolute(np.array(eig, dtype=complex))
    mod[~np.isfinite(mod)] = np.inf
    if len(mod) != n:
        raise Violation(f'{len(mod)} eigenvalues of a pencil of dimension {n}')
    # repeated or infinite eigenvalues of a defective pencil move by the root of the rounding error
    cap = lambda v: sorted(min(float(x), 1e3) for x in v)
    if any((x < 1e2 or w < 1e2) and abs(x - w) > 1e-2 * (1 + w) for x, w in zip(cap(mod), cap(want))):
        raise Violation(f'eigenvalues of modulus {sorted(mod)} instead of {sorted(want)}\n{case}')
    if not (np.all(mod[:k] < 1) and np.all(mod[k:] > 1)):
        raise Violation(f'eigenvalues are not ordered with the stable ones first: {mod}\n{case}')
    shapes = [np.shape(x) for x in (Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22)]
    r = n - k
    if shapes != [(k, k), (k, r), (r, k), (r, r), (k, k), (k, r), (r, r), (k, k), (k, r), (r, r)]:
        raise Violation(f'{k} stable of {n} eigenvalues, but blocks of shapes {shapes}\n{case}')
    Z = np.block([[Z11, Z12], [Z21, Z22]])
    T = np.block([[T11, T12], [np.zeros((r, k)), T22]])
    S = np.block([[S11, S12], [np.zeros((r, k)), S22]])
    scale = 1 + np.abs(A).max() ** 2 + np.abs(B).max() ** 2
    if not np.allclose(Z @ Z.conj().T, np.eye(n), rtol=0, atol=1e-9):
        raise Violation(f'Z is not unitary\n{Z}\n{case}')
    # A = Q T Z and B = Q S Z for a unitary Q exactly when these Gram matrices agree
    AZ, BZ = A @ Z.conj().T, B @ Z.conj().T
    for nm, x, y in (('A,A', AZ.T @ AZ, T.T @ T), ('A,B', AZ.T @ BZ, T.T @ S), ('B,B', BZ.T @ BZ, S.T @ S)):
        if not np.allclose(x, y, rtol=0, atol=1e-8 * scale):
            raise Violation(f'the factors do not reproduce the pair ({nm})\n{case}')
    if np.max(np.abs(np.tril(T, -1)), initial=0.) > 1e-9 * scale and np.max(np.abs(np.tril(S, -2)), initial=0.) > 1e-9 * scale:
        raise Violation(f'the factors are not triangular\n{case}')
    return 0 < k < n, str(case)


# ------------------------------------------------------------------------------------------------ the rest
@st.composite
def misc(draw):
    n = draw(st.integers(1, 5))
    k0, k1, w = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    return dict(n=n, M=mat(draw, n, n), order=draw(st.sampled_from(['ascending', 'descending'])), k=draw(st.one_of(st.none(), st.integers(0, 5))),
                a0=mat(draw, k0, w), a1=mat(draw, k1, w), over=draw(st.integers(0, 4)), cols=draw(st.integers(1, 5)), W=mat(draw, n, 5), frac=draw(st.sampled_from([(1, 1), (1, 4), (4, 1), (4, 4)])))


def decide_misc(case):
    u, n = un(), case['n']
    M = np.array(case['M'], dtype=float) / 3
    with sut(f'eigvals_sorted {case}'):
        e = np.array(u.eigvals_sorted(M, order=case['order'], k=case['k']))
    m = np.absolute(e)
    full = n if case['k'] is None else min(n, case['k'])
    ref = np.sort(np.absolute(np.linalg.eigvals(M)))
    ref = (ref[::-1] if case['order'] == 'descending' else ref)[:full]
    if len(m) != full or not np.allclose(m, ref, rtol=0, atol=1e-6 * (1 + np.abs(M).max())):
        raise Violation(f'sorted eigenvalues {m}, {ref}\n{case}')
    a0, a1 = (np.array(case[k]) / q if q > 1 else np.array(case[k]) for k, q in zip(('a0', 'a1'), case['frac']))
    ov = min(case['over'], len(a0), len(a1))
    with sut(f'array_shingle {case}'):
        s = np.array(u.array_shingle(a0, a1, ov))
    want = np.concatenate((a0, a1[ov:]))
    if s.shape != want.shape or not np.array_equal(s, want):
        raise Violation(f'shingle\n{s}\ninstead of\n{want}\n{case}')
    W = np.array(case['W'], dtype=float)[:, :case['cols']] / 3
    P = W @ W.T
    top = 1 + np.abs(P).max()
    Q = P + np.eye(n)
    keep = Q.copy()
    with sut(f'inv_sym_pd {case}'):
        I = np.array(u.inv_sym_pd(Q))
    if not np.allclose(I @ keep, np.eye(n), rtol=0, atol=1e-7 * top ** 2) or not np.array_equal(Q, keep):
        raise Violation(f'inverse\n{I}\nof\n{keep}')
    return n > 1, str(case)


PARTS = [
    Part('sylvester', sylv(), decide_sylv, 'a uniquely solvable equation with more than one unknown', quick=700, thorough=15000),
    Part('kronecker', kron(), decide_kron, 'a product with more than one entry (empty and one-dimensional factors included)', quick=400, thorough=8000),
    Part('pencil', pencil(), decide_pencil, 'a pencil with both stable and unstable eigenvalues (negative, complex, zero and infinite included)', quick=700, thorough=15000),
    Part('misc', misc(), decide_misc, 'sorted eigenvalues, overlapping rows and inverse of matrices of dimension two or more', quick=300, thorough=5000),
]
