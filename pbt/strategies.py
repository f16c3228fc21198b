"""Hypothesis strategies shared by the checks"""
from __future__ import annotations
from hypothesis import strategies as st
from pbt import expr as X

# names that are close to each other, to keywords and to functions
NAMES = ['x', 'y', 'z', 'k', 'c', 'a', 'b', 'X', 'Y', 'x1', 'x2', 'y_1', 'x_', 'e1', 'exp1', 'logx', 'abs_', 'var1', 'varx',
         'endx', 'model1', 'pi', 'rho', 'corr1', 'stderr_', 'alpha', 'w', 'lam', 'xy', 'E', 'inf1', 'nan1', 'p1', 'm1',
         'steady1', 'initval1', 'q', 's', 'g', 'h', 'n', 'r', 'u', 'v', 't']


def distinct_names(n, extra=()):
    return st.permutations(sorted(set(NAMES) | set(extra))).map(lambda p: p[:n])


NUMTEXT = st.one_of(
    st.integers(0, 9).map(str),
    st.integers(1, 40).map(lambda i: f'{i / 10:.1f}'),
    st.integers(1, 999).map(lambda i: f'0.{i:03d}'),
    st.integers(1, 99).map(lambda i: f'.{i:02d}'),
    st.integers(1, 30).map(lambda i: f'{i}.'),
    st.integers(10, 5000).map(str),
    st.sampled_from(['0.0', '1.0', '00.5', '1.50', '3.14159265358979', '0.000125']),
    st.sampled_from(['0.3333333333333333333333', '100000000000000000000', '0.00000000000000000012', '0000000000000000001.5', '123456789.123456789123', '00000000000000000000',
                     '1.00000000000000000001', '.14285714285714285714285', '9007199254740993']))

SIMPLENUM = st.one_of(st.integers(0, 5).map(str), st.integers(1, 30).map(lambda i: f'{i / 10:.1f}'))


def trees(leaves, funs=X.FUN1, ops='+-*/^', max_leaves=12, signs='+-', groups=True):
    def ext(ch):
        opts = [st.tuples(st.just('b'), st.sampled_from(list(ops)), ch, ch).map(list),
                st.tuples(st.just('b'), st.sampled_from(list(ops)), ch, ch).map(list)]
        if signs:
            opts.append(st.tuples(st.just('u'), st.sampled_from(list(signs)), ch).map(list))
        if funs:
            opts.append(st.tuples(st.just('f'), st.sampled_from(list(funs)), ch).map(list))
        if groups:
            opts.append(ch.map(lambda c: ['g', c]))
        return st.one_of(*opts)
    return st.recursive(leaves, ext, max_leaves=max_leaves)


def num(text=NUMTEXT):
    return text.map(lambda s: ['n', s])


VALUES = st.one_of(st.integers(-4, 4).map(float), st.integers(-300, 300).map(lambda i: i / 100),
                   st.sampled_from([0.5, 2.0, 1.0, -1.0, 0.25, 1.7]))
SPACES = st.lists(st.sampled_from(['', '', '', ' ', '  ', '\t', '\n']), min_size=1, max_size=7)
