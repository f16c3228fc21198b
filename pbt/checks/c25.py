"""C25: plots draw every series exactly once, with its own values, under its own label"""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import models as M
from pbt.harness import Part, Violation, Skip, sut

NAMES = ['x', 'y', 'gdp', 'C', 'infl', 'k_1', 'rate', 'zz', 'w', 'hours', 'b2', 'pi']
KINDS = ['rect', 'square', 'column', 'row', 'tuple', 'one', 'none']
BAD = ['rows', '', 'Rect', 'grid', 3, [2, 2, 2], [4], 'columnar']


@st.composite
def arrangements(draw, n):
    k = draw(st.sampled_from(KINDS + ['tuple', 'bad']))
    if k == 'tuple':
        return ['tuple', draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    if k == 'bad':
        return ['bad', draw(st.sampled_from(BAD))]
    return [k]


@st.composite
def paths(draw):
    n = draw(st.integers(1, 11))
    t = draw(st.sampled_from([1, 2, 3, 5, 12]))
    how = draw(st.sampled_from(['free', 'positive', 'constant', 'tiny', 'equal']))
    x = {'free': st.integers(-99, 99), 'positive': st.integers(1, 99), 'constant': st.just(4), 'tiny': st.integers(-3, 3), 'equal': st.integers(-5, 5)}[how]
    data = draw(st.lists(st.lists(x, min_size=t, max_size=t), min_size=n, max_size=n))
    if how == 'equal':
        data = [data[0]] * n
    return dict(data=data, scale=1e-9 if how == 'tiny' else 0.37, names=draw(st.permutations(NAMES))[:n], kind=draw(arrangements(n)),
                style=draw(st.sampled_from([{}, {}, {'linestyle': '--'}, {'figsize': [4, 3]}, {'sharex': True}, {'linewidth': 2}, {'marker': 'o'}, {'alpha': 0.5}])),
                labels=draw(st.sampled_from(['list', 'array', 'list', 'none'])))


@st.composite
def counts(draw):
    # few choices, so that every number of series meets every arrangement
    n = draw(st.integers(1, 50))
    return dict(data=[[i % 7 - 3, i + 1] for i in range(n)], scale=0.5, names=[f'v{i}' for i in range(n)], labels='list',
                kind=[draw(st.sampled_from(['square', 'rect', 'square', 'column', 'row', 'none']))])


@st.composite
def runs(draw):
    n = draw(st.integers(1, 8))
    m = draw(st.integers(1, 3))
    return dict(names=draw(st.permutations(NAMES))[:n], rho=draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)),
                link=draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)),
                load=draw(st.lists(st.lists(st.integers(-9, 9), min_size=m, max_size=m), min_size=n, max_size=n)), m=m,
                what=draw(st.sampled_from(['irf', 'sim', 'irf', 'sim', 'default'])), shock=draw(st.integers(0, m - 1)),
                periods=draw(st.sampled_from([2, 3, 9, 20])), kind=draw(arrangements(n)), order=draw(st.sampled_from([1, 1, 2])),
                seed=draw(st.integers(0, 99)))


def call(f, case, n, what):
    """axes returned, and the grid they should form (None: unspecified)"""
    k = case['kind']
    kw = {a: (tuple(b) if a == 'figsize' else b) for a, b in case.get('style', {}).items()}
    if k[0] == 'bad':
        lay = tuple(k[1]) if isinstance(k[1], list) else k[1]
        try:
            f(layout=lay, **kw)
        except (ValueError, TypeError):
            return None, None
        raise Violation(f'{what}: layout {lay!r} is not refused')
    if k[0] == 'none':
        kw['subplots'], grid = False, (1, 1)
    elif k[0] == 'tuple':
        kw['layout'] = grid = (k[1], k[2])
    elif k[0] == 'one':
        kw['layout'] = grid = (1, 1)
    else:
        kw['layout'] = k[0]
        side = math.isqrt(n - 1) + 1
        rows = max(d for d in range(1, n + 1) if n % d == 0 and d * d <= n)
        grid = {'rect': (rows, n // rows), 'square': (side, side), 'column': (n, 1), 'row': (1, n)}[k[0]]
    with sut(f'{what}: plotting {n} series with {kw}'):
        return f(**kw), grid


def inspect(axes, grid, data, names, what):
    """every column of data once, drawn under its own name"""
    import matplotlib.pyplot as plt
    n = data.shape[1]
    axs = [a for a in np.ravel(np.array(axes, dtype=object))]
    with sut('reading the figure'):
        for f in {id(a.figure): a.figure for a in axs}.values():
            if len(f.axes) != len(axs) or {id(a) for a in f.axes} != {id(a) for a in axs}:
                raise Violation(f'{what}: {len(axs)} axes returned, the figure has {len(f.axes)}')
        g = axs[0].get_subplotspec().get_gridspec()
        if (g.nrows, g.ncols) != tuple(grid) or len(axs) != grid[0] * grid[1]:
            raise Violation(f'{what}: {g.nrows} by {g.ncols} panels ({len(axs)} axes) instead of {grid}')
        left = list(range(n))
        panels = 0
        for a in axs:
            lines = [l for l in a.lines if l.get_transform() == a.transData]
            leg = a.get_legend()
            texts = [t.get_text() for t in leg.get_texts()] if leg is not None else []
            if len(texts) != len(lines):
                raise Violation(f'{what}: a panel of {len(lines)} lines has the legend {texts}')
            panels += bool(lines)
            free = list(lines)
            for h, t in zip(leg.legend_handles if leg is not None else [], texts):
                ok = None
                for l in free:
                    if l.get_color() != h.get_color():
                        continue
                    y, x = np.asarray(l.get_ydata(), dtype=float), np.asarray(l.get_xdata(), dtype=float)
                    if len(y) != len(data) or list(x) != list(range(len(y))):
                        raise Violation(f'{what}: line over {x} of {len(y)} periods, the series has {len(data)}')
                    for c in left:
                        if (names is None or names[c] == t) and np.array_equal(y, data[:, c]):
                            ok = (l, c)
                            break
                    if ok:
                        break
                if not ok:
                    raise Violation(f'{what}: the line labelled {t!r} does not show an undrawn series of that name\n'
                                    f'{[(list(l.get_ydata())) for l in lines]}\n{data.T.tolist()}\n{names}')
                free.remove(ok[0])
                left.remove(ok[1])
    if left:
        raise Violation(f'{what}: series {[names[c] if names else c for c in left]} not drawn')
    if panels < min(n, len(axs)):
        raise Violation(f'{what}: {n} series on {panels} of {len(axs)} panels')
    return len(axs)


def decide_paths(case):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pynare.plotting import PathPlot
    data = np.array(case['data'], dtype=float).T * case['scale']
    keep = data.copy()
    names = list(case['names'])
    what = f'PathPlot {case["kind"]}'
    try:
        with sut(what):
            lab = {'list': names, 'array': np.array(names), 'none': None}[case['labels']]
            p = PathPlot(data, lab)
        axes, grid = call(p.plot, case, data.shape[1], what)
        if axes is None:
            return True, None
        inspect(axes, grid, keep, None if lab is None else names, what)
        if not np.array_equal(data, keep):
            raise Violation(f'{what}: the data was changed')
    finally:
        plt.close('all')
    return data.shape[1] > 1, None


def decide_runs(case):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pynare
    names, m = case['names'], case['m']
    sh = [f'e{j}' for j in range(m)]
    eqs = []
    for i, v in enumerate(names):
        t = f'{v} = {case["rho"][i] / 10}*{v}(-1)'
        if i:
            t += f' + {case["link"][i] / 10}*{names[i - 1]}(-1)'
        eqs.append(t + ''.join(f' + {c / 10}*{s}' for c, s in zip(case['load'][i], sh)))
    what = f'{case["what"]} of {eqs}'
    try:
        with sut(what):
            md = pynare.Model(endog=names, stoch=sh, exprs=eqs, shocks={s: {'variance': 1.} for s in sh})
            md.solve(order=case['order'])
        T = case['periods']
        with sut(what):
            if case['what'] == 'sim':
                ob = md.simulate(shocks=np.random.RandomState(case['seed']).normal(size=(T, m)))
                data = np.array(ob.paths, dtype=float)
            else:
                ob = md.impulse_response(*([] if case['what'] == 'default' else [sh[case['shock']]]), periods=T)
                data = np.array(ob.impulse, dtype=float)
        if data.shape != (T, len(names)):
            raise Violation(f'{what}: shape {data.shape}')
        if case['what'] == 'default' and case['kind'][0] == 'rect':
            case = dict(case, kind=['rect'])
            f = lambda layout=None, **kw: ob.plot(**kw)      # the layout used when none is given
        else:
            f = ob.plot
        axes, grid = call(f, case, len(names), what)
        if axes is None:
            return True, None
        inspect(axes, grid, data, names, what)
    finally:
        plt.close('all')
    return len(names) > 1, None


PARTS = [
    Part('paths', paths(), decide_paths, 'two or more series drawn, or an unknown arrangement refused', quick=700, thorough=9000),
    Part('counts', counts(), decide_paths, 'two or more series, up to fifty', quick=300, thorough=2000),
    Part('model', runs(), decide_runs, 'simulations and impulse responses of models with two or more variables', quick=400, thorough=5000),
]
