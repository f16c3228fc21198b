"""C11: Blanchard-Kahn conditions decide whether a solution is returned"""
import itertools
import re
import numpy as np
from hypothesis import strategies as st
from pbt import models as M
from pbt.harness import Part, Violation, Skip, sut

from pynare.errors import ModelIdentificationError

ASSUMPTIONS = ['roots are at least 1e-4 away from the unit circle (0.05 where roots repeat); cases whose rank condition is numerically undecidable are outside the quantifier']


def flip(block, k):
    """make a planted block explosive, modulus in 1.05 .. 3.2"""
    if len(block) == 1:
        v = abs(block[0])
        return [(22 + 2 * v + k) * (1 if block[0] >= 0 else -1)]
    re, im = block
    while re * re + im * im < 22 * 22:
        re, im = 2 * re + (1 if re > 0 else -1), 2 * im
    return [re, im]


@st.composite
def case(draw, which, **kw):
    spec = draw(M.planted(**(kw or dict(nonlinear=draw(st.booleans()), max_n=5))))
    nT, nS = len(spec['T']), len(spec['S'])
    sizes = lambda bl: [len(b) for b in bl]
    fT = draw(st.lists(st.booleans(), min_size=nT, max_size=nT)) if which != 'determinate' else [False] * nT
    fS = draw(st.lists(st.booleans(), min_size=nS, max_size=nS)) if which != 'determinate' else [False] * nS
    spec['T'] = [flip(b, i % 3) if x else b for i, (b, x) in enumerate(zip(spec['T'], fT))]
    spec['S'] = [flip(b, i % 3) if x else b for i, (b, x) in enumerate(zip(spec['S'], fS))]
    return spec


@st.composite
def swapped(draw):
    """one explosive backward root and one stable forward root: the counts agree, the rank condition decides"""
    spec = draw(M.planted(nonlinear=draw(st.booleans()), max_n=5, complex_ok=False,
                          mixes=[m for m in M.MIXES if m[1] + m[2] and m[2] + m[3]]))
    i = draw(st.integers(0, len(spec['T']) - 1))
    j = draw(st.integers(0, len(spec['S']) - 1))
    spec['T'][i] = flip(spec['T'][i], draw(st.integers(0, 2)))
    spec['S'][j] = flip(spec['S'][j], draw(st.integers(0, 2)))
    if draw(st.booleans()):
        spec['Fx'] = [[0] * len(r) for r in spec['Fx']]
    return spec


def shape(p):
    bad_t = int(np.sum(np.abs(M.eigs(p.spec['T'])) > 1))
    bad_s = int(np.sum(np.abs(M.eigs(p.spec['S'])) > 1))
    return bad_t, bad_s


def stable_space(p):
    """smallest singular value of the projection of the stable subspace on the state variables; dense pencil"""
    import scipy.linalg as sl
    n = p.n
    A, B, C = p.A, p.B, p.C
    L = np.block([[np.zeros((n, n)), np.eye(n)], [-C, -B]])
    R = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), A]])
    S_, T_, al, be, Q, Z = sl.ordqz(L, R, sort='iuc', output='complex')
    k = int(np.sum(np.abs(al) < np.abs(be)))
    # stable directions in (x(-1), x); for them x(-1) must be free in the state coordinates
    Zs = Z[:n, :k][p.back, :]
    s = np.linalg.svd(Zs, compute_uv=False) if Zs.size else np.array([1.])
    return k, (s.min() if len(s) == min(Zs.shape) else 0.)


def check_eigs(p, md):
    with sut('reading the eigenvalues'):
        got = np.asarray(md.statespace.eigen).ravel()
        total = len(md.state_vars) + len(md.forward_vars)
    if len(got) != total:
        raise Violation(f'{len(got)} eigenvalues reported, {total} dynamic variables')
    t, s = M.eigs(p.spec['T']), M.eigs(p.spec['S'])
    t, s = t[np.abs(t) > 0], s[np.abs(s) > 0]
    want = np.concatenate([t, 1 / s])
    got_f = [complex(z) for z in got if np.isfinite(z)]
    mult = max([sum(abs(a - b) < 0.02 for b in want) for a in want], default=1)
    tol = {1: 1e-6, 2: 1e-4, 3: 2e-3}.get(mult, 2e-2)
    left = list(got_f)
    for w in sorted(want, key=abs):
        if not left:
            raise Violation(f'eigenvalue {w} not reported: {got}')
        j = int(np.argmin([abs(z - w) for z in left]))
        if abs(left[j] - w) > tol * (1 + abs(w)):
            raise Violation(f'eigenvalue {w} not reported: {got}')
        left.pop(j)
    small = 1e-2
    for z in left:
        if small < abs(z) < 1 / small:
            raise Violation(f'reported eigenvalue {z} is not one of the model: {sorted(want, key=abs)}')


def check_message(msg, want, p, k1, k2, txt):
    """the error says which condition fails and with which numbers"""
    if want not in msg:
        raise Violation(f'the {want} condition fails, the error says: {msg}\n{txt}')
    fore = sum(any(C) for C in np.abs(p.A.T) > 0)
    nums = [int(z) for z in re.findall(r'(?<![\w(])\d+(?![\w)])', msg)]
    if want == 'order' and nums and nums != [fore - k2 + k1, fore]:
        raise Violation(f'{fore - k2 + k1} explosive eigenvalues and {fore} forward-looking variables, '
                        f'the error says: {msg}\n{txt}')


def decide(spec):
    p = M.Planted(spec)
    f = M.build(p)
    k1, k2 = shape(p)
    md = M.load(f)
    txt = M.text(f)
    if k1 != k2:
        want = 'order'
    elif k1 == 0:
        want = 'solve'
    else:
        nst, sv = stable_space(p)
        if sv > 1e-5:
            want = 'solve'
        elif sv < 1e-9:
            want = 'rank'
        else:
            raise Skip('rank undecidable')
    with sut(f'solving (expected: {want})\n{txt}', allow=(ModelIdentificationError,)):
        try:
            sol = md.solve(order=1)
        except ModelIdentificationError as e:
            if want == 'solve':
                raise Violation(f'determinate model refused: {e}\n{txt}')
            check_message(str(e), want, p, k1, k2, txt)
            sol = None
    if sol is not None:
        if want != 'solve':
            raise Violation(f'a solution was returned although the {want} condition fails '
                            f'({k1} explosive backward, {k2} stable forward roots)\n{txt}')
        G, H = M.policy(md, sol)
        A, B, C = (Z[:, p.perm] for Z in (p.A, p.B, p.C))
        r = M.linear_residual(A, B, C, p.D, G, H)
        rho = max(np.abs(np.linalg.eigvals(G)), default=0.)
        if not r < 1e-5 or rho > 1 + 1e-6:
            raise Violation(f'returned solution is not the stable one: residual {r}, modulus {rho}\n{txt}')
    check_eigs(p, md)
    # refused stays refused, returned stays returned
    with sut('solving again', allow=(ModelIdentificationError,)):
        try:
            md.solve(order=1)
            again = True
        except ModelIdentificationError:
            again = False
    if again != (sol is not None):
        raise Violation(f'second call to solve decides differently\n{txt}')
    return True, f"{want}{spec['mix']}{spec['T']}{spec['S']}"


NEAR = [0.99, 0.999, 0.9999, 1.0001, 1.001, 1.01]
POOL = ['x', 'k', 'y', 'c', 'a1', 'z_', 'w']


@st.composite
def near(draw):
    nb, nf = draw(st.sampled_from([(1, 0), (0, 1), (1, 1), (1, 1), (2, 1), (2, 1), (1, 2), (1, 2), (2, 2), (3, 1), (2, 3)]))
    back = [draw(st.sampled_from([0, 0, 1])) and draw(st.sampled_from(NEAR)) or draw(st.integers(-19, 18)) / 20 + 0.013 * (i + 1) for i in range(nb)]
    fore = [draw(st.sampled_from([0, 0, 1])) and draw(st.sampled_from(NEAR)) or draw(st.sampled_from([-1, 1])) * draw(st.integers(11, 40)) / 10 - 0.0171 * (i + 1) for i in range(nf)]
    if draw(st.integers(0, 3)):
        (back if (nb and draw(st.booleans())) or not nf else fore)[0] = draw(st.sampled_from(NEAR)) * draw(st.sampled_from([1, 1, -1]))
    n = nb + nf
    return dict(nb=nb, roots=back + fore, mix=[[draw(st.integers(-4, 4)) / 4 for _ in range(n)] for _ in range(n)],
                shock=[draw(st.integers(-3, 3)) / 2 for _ in range(n)], scale=[draw(st.sampled_from([1, 1, 0.1, 5, -2])) for _ in range(n)],
                names=draw(st.permutations(POOL)), eqs=draw(st.permutations(range(n))), decl=draw(st.permutations(range(n))), declared=draw(st.booleans()))


def num(x):
    t = f'{abs(x):.10f}'.rstrip('0').rstrip('.') or '0'
    return f'(-{t})' if x < 0 else t


def decide_near(c):
    nb, roots = c['nb'], c['roots']
    n = len(roots)
    if min((abs(a - b) for i, a in enumerate(roots) for b in roots[:i]), default=1) < 1e-4:
        raise Skip('repeated root')
    nm = c['names'][:n]
    # backward: x(t) = r x(t-1) + earlier ones now;  forward: x(t+1) = r x(t) + anything earlier
    A, B, C, D = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, 1))
    lines = []
    for i in range(n):
        s, r = c['scale'][i], roots[i]
        others = [(nm[j], s * c['mix'][i][j]) for j in range(i)]
        tail = ''.join(f' + {num(k)}*{v}' for v, k in others if k) + (f" + {num(s * c['shock'][i])}*eps" if c['shock'][i] else '')
        lead = f'{nm[i]}(+1)' if i >= nb else nm[i]
        rest = nm[i] if i >= nb else f'{nm[i]}(-1)'
        lines.append(f'{num(s)}*{lead} = {num(s * r)}*{rest}{tail};')
        (A if i >= nb else B)[i, i] += s
        (B if i >= nb else C)[i, i] -= s * r
        for j, (_, k) in enumerate(others):
            B[i, j] -= k
        D[i, 0] = -s * c['shock'][i]
    txt = f"var {', '.join(nm[i] for i in c['decl'])};\nvarexo eps;\nmodel(linear);\n" + '\n'.join(lines[i] for i in c['eqs']) + '\nend;\n'
    up = sum(abs(r) > 1 for r in roots)
    bad_b, bad_f = sum(abs(r) > 1 for r in roots[:nb]), sum(abs(r) < 1 for r in roots[nb:])
    want = 'order' if up != n - nb else 'rank' if bad_b else 'solve'
    md = M.load(txt)
    with sut(f'solving (expected: {want})\n{txt}', allow=(ModelIdentificationError,)):
        try:
            sol = md.solve(order=1)
        except ModelIdentificationError as e:
            if want == 'solve':
                raise Violation(f'determinate model refused: {e}\n{txt}')
            if want == 'order':
                nums = [int(z) for z in re.findall(r'(?<![\w(])\d+(?![\w)])', str(e))]
                if 'order' not in str(e) or (nums and nums != [up, n - nb]):
                    raise Violation(f'{up} explosive eigenvalues and {n - nb} forward-looking variables, the error says: {e}\n{txt}')
            sol = None
    if sol is not None:
        if want != 'solve':
            raise Violation(f'a solution was returned although the {want} condition fails, roots {roots[:nb]} backward, {roots[nb:]} forward\n{txt}')
        G, H = M.policy(md, sol)
        col = [c['decl'].index(i) for i in range(n)]
        G, H = G[np.ix_(col, col)], H[col]
        r = M.linear_residual(A, B, C, D, G, H)
        rho = sorted(np.abs(np.linalg.eigvals(G)))[::-1][:nb]
        if not r < 1e-7 or not np.allclose(rho, sorted(np.abs(roots[:nb]))[::-1], atol=1e-5):
            raise Violation(f'returned solution is not the stable one: residual {r}, moduli {rho}\n{txt}')
    with sut('reading the eigenvalues'):
        got = np.asarray(md.statespace.eigen).ravel()
    if len(got) != n or any(min(abs(got - r)) > 1e-7 for r in roots):
        raise Violation(f'eigenvalues {got} reported, the model has {roots}\n{txt}')
    return any(abs(abs(r) - 1) < 0.02 for r in roots), f'{want}{nb}{roots}'


@st.composite
def weak(draw):
    return dict(a=draw(st.integers(21, 60)) / 20 * draw(st.sampled_from([1, 1, -1])), r=draw(st.integers(-18, 18)) / 20,
                c=draw(st.sampled_from([0, 0, 1, -1, 0.1, 0.01, -0.01, 0.001, 0.001, 0.0001, -0.0001])) * draw(st.sampled_from([1, 2, 5])),
                d=draw(st.integers(-2, 2)), g=draw(st.integers(-2, 2)), s1=draw(st.sampled_from([1, 0.5, 3, -1])), s2=draw(st.sampled_from([1, 0.5, 3, -1])),
                names=draw(st.permutations(POOL)), flip=draw(st.booleans()), static=draw(st.booleans()), order=draw(st.permutations(range(3))))


def decide_weak(k):
    """x = a x(-1) + c y + d e with |a| > 1 and y(+1) = r y + g e with |r| < 1: solvable exactly if c is not zero, however small"""
    x, y, z = k['names'][:3]
    a, r, c, d, g = (k[i] for i in 'arcdg')
    e1 = f"{num(k['s1'])}*{x} = {num(k['s1'] * a)}*{x}(-1) + {num(k['s1'] * c)}*{y} + {num(k['s1'] * d)}*e;"
    e2 = f"{num(k['s2'])}*{y}(+1) = {num(k['s2'] * r)}*{y} + {num(k['s2'] * g)}*e;"
    names, eqs = [x, y], [e1, e2]
    if k['static']:
        names, eqs = names + [z], eqs + [f'{z} = {x} + {y};']
    at = [i for i in k['order'] if i < len(names)]
    txt = f"var {', '.join(names[i] for i in at)};\nvarexo e;\nmodel(linear);\n" + '\n'.join(eqs[::-1] if k['flip'] else eqs) + '\nend;\n'
    md = M.load(txt)
    with sut(f'solving\n{txt}', allow=(ModelIdentificationError,)):
        try:
            sol = md.solve(order=1)
        except ModelIdentificationError as err:
            if c:
                raise Violation(f'determinate model refused: {err}\n{txt}')
            if 'rank' not in str(err):
                raise Violation(f'the rank condition fails, the error says: {err}\n{txt}')
            return True, f'rank{a}{r}'
    if not c:
        raise Violation(f'a solution was returned although the rank condition fails\n{txt}')
    G, H = M.policy(md, sol)
    kk = (r - a) / c
    # x = r x(-1) + u e, y = kk x(-1) + v e;  x: u = c v + d;  y(+1): kk u = r v + g
    v = (g - kk * d) / (kk * c - r)
    u = c * v + d
    i, j = at.index(0), at.index(1)
    want = {(i, i): r, (j, i): kk}
    big = 1 + abs(kk)
    for (p_, q_), w in want.items():
        if not abs(G[p_, q_] - w) <= 1e-6 * (1 + abs(w)):
            raise Violation(f'coefficient of {names[at[p_]]} on the lag of {x}: {G[p_, q_]} instead of {w}\n{txt}')
    if not abs(H[i, 0] - u) <= 1e-6 * big or not abs(H[j, 0] - v) <= 1e-6 * big * (1 + abs(v)):
        raise Violation(f'response to the shock {H[i, 0]}, {H[j, 0]} instead of {u}, {v}\n{txt}')
    return True, f'{a}{r}{c}'


@st.composite
def static(draw):
    k, nd = draw(st.integers(1, 3)), draw(st.integers(0, 2))
    n = k + nd
    m = draw(st.sampled_from([k] + list(range(k)) * 3))
    quarter = st.integers(-4, 4).map(lambda v: v / 4)
    mat = lambda r, c: [[draw(quarter) for _ in range(c)] for _ in range(r)]
    return dict(k=k, nd=nd, load=mat(n, m), comb=mat(m, k), lead=[draw(st.booleans()) for _ in range(nd)],
                roots=[draw(st.sampled_from([0.5, -0.3, 0.8, 0.2])) for _ in range(nd)], dyn=mat(n, nd), shock=[draw(quarter) for _ in range(n)],
                names=draw(st.permutations(POOL)), decl=draw(st.permutations(range(n))), eqs=draw(st.permutations(range(n))))


def decide_static(c):
    """k static variables that enter the equations only through m of their combinations"""
    k, nd = c['k'], c['nd']
    n = k + nd
    load = np.array(c['load'], dtype=float).reshape(n, -1)
    S = load @ np.array(c['comb'], dtype=float).reshape(load.shape[1], k)
    rank = int(np.linalg.matrix_rank(S)) if S.size else 0
    sv = np.linalg.svd(S, compute_uv=False)
    if rank and sv[rank - 1] < 1e-3:
        raise Skip('rank undecidable')
    st_, dy = c['names'][:k], c['names'][k:n]
    lines = []
    A, B, C, D = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, 1))
    for i in range(n):
        t = ''
        for j in range(k):
            # a variable that has no influence is still written down
            t += f' + {num(S[i, j])}*{st_[j]}'
        B[i, :k] = S[i]
        for j in range(nd):
            t += f" + {num(c['dyn'][i][j])}*{dy[j]}"
            B[i, k + j] = c['dyn'][i][j]
        if i < nd:
            # dynamics of one variable each: stable backward, explosive forward
            r = c['roots'][i]
            t += f" + {dy[i]} - {num(r)}*{dy[i]}({'+' if c['lead'][i] else '-'}1)"
            B[i, k + i] += 1
            (A if c['lead'][i] else C)[i, k + i] = -r
        t += f" + {num(c['shock'][i])}*e"
        D[i, 0] = c['shock'][i]
        lines.append('0' + t + ' = 0;')
    nm = st_ + dy
    txt = f"var {', '.join(nm[i] for i in c['decl'])};\nvarexo e;\nmodel(linear);\n" + '\n'.join(lines[i] for i in c['eqs']) + '\nend;\n'
    md = M.load(txt)
    with sut(f'solving\n{txt}', allow=(ModelIdentificationError,)):
        try:
            sol = md.solve(order=1)
        except ModelIdentificationError as err:
            msg = str(err)
            nums = [int(z) for z in re.findall(r'(?<![\w(])\d+(?![\w)])', msg)]
            if rank < k and ('rank' not in msg or nums and nums != [rank, k]):
                raise Violation(f'the {k} static variables have rank {rank}, the error says: {msg}\n{txt}')
            return rank < k, f"{k}{rank}{nd}{c['load']}"
        except np.linalg.LinAlgError:
            # a system without any dynamics or with singular equations has no eigenvalues to count
            if rank < k:
                raise
            raise Skip('singular dynamics')
    if rank < k:
        raise Violation(f'a solution was returned although the {k} static variables have rank {rank}\n{txt}')
    G, H = M.policy(md, sol)
    col = [c['decl'].index(i) for i in range(n)]
    G, H = G[np.ix_(col, col)], H[col]
    r = M.linear_residual(A, B, C, D, G, H)
    big = 1 + max(np.abs(G).max(initial=0.), np.abs(H).max(initial=0.))
    if big < 1e6 and not r < 1e-6 * big ** 2:
        raise Violation(f'linearized equations not solved: residual {r}\n{txt}')
    return False, None


PARTS = [
    Part('static', static(), decide_static, 'static variables that enter only through fewer combinations than there are variables; distinct by their loadings', quick=300, thorough=5000),
    Part('flipped', case('flipped'), decide, 'some roots moved across the unit circle; distinct by verdict, mix and roots', quick=1200, thorough=25000),
    Part('swapped', swapped(), decide, 'one explosive backward and one stable forward root, so that the rank condition decides; distinct by verdict, mix and roots', quick=500, thorough=8000),
    Part('determinate', case('determinate'), decide, 'determinate models must be solved; distinct by mix and roots', quick=500, thorough=8000),
    Part('wide', case('flipped', mixes=M.WIDE, max_n=14, nonlinear=False), decide, 'linear models of seven to fourteen variables, some roots moved across the unit circle', quick=160, thorough=2500),
    Part('near', near(), decide_near, 'linear models whose roots are known one by one, some within 0.0001 to 0.01 of the unit circle; distinct by verdict and roots', quick=400, thorough=8000),
    Part('weak', weak(), decide_weak, 'an explosive backward and a stable forward root, joined by a coefficient from 5 down to 0.0001 or by none, against the closed form', quick=300, thorough=5000),
]
