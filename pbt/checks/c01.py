"""C01: expression text evaluates to the value its notation denotes"""
from hypothesis import strategies as st
from pbt import expr as X
from pbt.harness import Part, Violation, Skip, sut
from pbt.strategies import trees, num, VALUES, SPACES, NUMTEXT, distinct_names

from pynare.parsing import evaluate
from pynare.parsing.api import parse_string


@st.composite
def case(draw):
    nms = draw(distinct_names(4, ['_u', 'lnx', 'max1', 'e']))
    scope = {n: draw(VALUES) for n in nms}
    leaves = st.one_of(num(), st.sampled_from(nms).map(lambda n: ['v', n]))
    leaves = st.one_of(leaves, st.sampled_from(nms).map(lambda n: ['v', n]))
    t = X.repair(draw(trees(leaves, max_leaves=draw(st.sampled_from([4, 9, 16])))), scope)
    if draw(st.integers(0, 5)) == 0:
        t = ['c', draw(st.sampled_from(['<', '<=', '>', '>=', '=='])), t,
             X.repair(draw(trees(leaves, max_leaves=4)), scope)]
    second = {n: draw(VALUES) for n in nms}
    return dict(tree=t, scope=scope, second=second, spaces=draw(SPACES))


def reference(t, scope):
    try:
        return X.value(t, scope)
    except X.Domain as e:
        raise Skip(str(e))


def close(got, want, err):
    if isinstance(want, bool):
        return bool(got) == want
    return abs(float(got) - want) <= 16 * err + 1e-12 * abs(want)


def decide(c):
    t, scope = c['tree'], c['scope']
    want, err = reference(t, scope)
    plain = X.text(t, '^', None)
    texts = [(plain, 'standard'), (X.text(t, '^', c['spaces']), 'standard'), (X.text(t, '**', c['spaces']), 'python')]
    for s, exp in texts:
        with sut(f'evaluate({s!r}, exp={exp!r})'):
            got = evaluate(s, dict(scope), exp=exp)
            ok = close(got, want, err)
        if not ok:
            raise Violation(f'evaluate({s!r}, {scope}, exp={exp!r}) = {got!r}, notation denotes {want!r}')
    with sut(f'parse_string({plain!r})'):
        tree = parse_string(plain)
    for sc in (scope, c['second'], scope):
        try:
            w, e = X.value(t, sc)
        except X.Domain:
            continue
        with sut(f'evaluate(parsed {plain!r})'):
            got = evaluate(tree, dict(sc))
        if not close(got, w, e):
            raise Violation(f'parsed {plain!r} evaluated at {sc}: {got!r}, notation denotes {w!r}')
    return X.size(t) >= 4 and bool(X.names(t)), None


# ---------------------------------------------------------------------------------------------------------
# small expressions enumerated densely: every pair of operators with a sign in every position
ATOMS = [['v', 'a'], ['v', 'b'], ['v', 'c'], ['v', 'd']]


@st.composite
def small(draw):
    ops = draw(st.lists(st.sampled_from('+-*/^'), min_size=1, max_size=3))
    sg = draw(st.lists(st.sampled_from(['', '', '-', '+', '--', '-+']), min_size=len(ops) + 1, max_size=len(ops) + 1))
    pw = draw(st.lists(st.booleans(), min_size=len(ops) + 1, max_size=len(ops) + 1))
    return dict(ops=ops, signs=sg, funs=pw)


SC = dict(a=1.37, b=0.83, c=2.11, d=0.59)


def py_text(ops, signs, funs):
    """the same flat text in Python's own notation, where sign/power/left-associativity agree with the property"""
    import math
    out = ''
    for i in range(len(ops) + 1):
        v = 'abcd'[i]
        if funs[i]:
            v = f'log({v})' if i % 2 else f'exp({v})'
        out += signs[i] + v + (ops[i] if i < len(ops) else '')
    return out


def decide_small(c):
    import math
    s = py_text(c['ops'], c['signs'], c['funs'])
    py = s.replace('^', '**')
    try:
        want = eval(py, dict(SC, log=math.log, exp=math.exp))
    except (OverflowError, ZeroDivisionError):
        raise Skip
    if isinstance(want, complex) or abs(want) > 1e9:
        raise Skip
    with sut(f'evaluate({s!r})'):
        got = evaluate(s, SC)
        ok = abs(got - want) <= 1e-11 * (1 + abs(want))
    if not ok:
        raise Violation(f'evaluate({s!r}, {SC}) = {got!r}, expected {want!r}')
    return len(c['ops']) >= 2, s


@st.composite
def nearly(draw):
    return dict(x=draw(VALUES), k=draw(st.sampled_from([0, 0, 1, 1, 2, 8, 1000, 10 ** 6, 10 ** 9])), up=draw(st.booleans()), op=draw(st.sampled_from(['<', '<=', '>', '>=', '=='])),
                how=draw(st.sampled_from(['names', 'sign', 'paren', 'array'])))


def decide_nearly(c):
    """a comparison of two numbers that are equal or apart by very few units in the last place"""
    import math
    import numpy as np
    x = y = float(c['x'])
    y += (c['k'] if c['up'] else -c['k']) * math.ulp(x)
    a, b = {'sign': ('-u', '-v'), 'paren': ('(u)', '(v)')}.get(c['how'], ('u', 'v'))
    s = f"{a} {c['op']} {b}"
    l, r = (-x, -y) if c['how'] == 'sign' else (x, y)
    want = {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r, '==': l == r}[c['op']]
    sc = dict(u=x, v=y) if c['how'] != 'array' else dict(u=np.array([x, y, x]), v=np.array([y, y, y]))
    with sut(f'evaluate({s!r})'):
        got = evaluate(s, sc)
    if c['how'] == 'array':
        eq = c['op'] in ('<=', '>=', '==')
        if [bool(g) for g in np.asarray(got).ravel()] != [want, eq, want]:
            raise Violation(f'evaluate({s!r}, {sc}) = {got!r}, expected {[want, eq, want]}')
    elif bool(got) != want:
        raise Violation(f'evaluate({s!r}, {sc}) = {got!r}, expected {want}')
    return True, f"{c['x']}{c['k']}{c['op']}{c['up']}{c['how']}"


PARTS = [
    Part('trees', case(), decide,
         'random expression trees (numbers, variables, + - * / power, signs, functions, comparison) rendered with minimal '
         'and redundant parentheses and random spacing, evaluated in both power notations and against several scopes; '
         'non-trivial: at least 4 nodes and a variable', quick=3200, thorough=60000),
    Part('flat', small(), decide_small,
         'flat operator chains with signs in every position compared with the Python interpreter; non-trivial: two or '
         'more operators', quick=1600, thorough=20000),
    Part('nearly', nearly(), decide_nearly, 'comparison of two numbers that are equal or differ by few units in the last place', quick=400, thorough=4000),
]
ASSUMPTIONS = ['comparisons whose sides are closer than the floating-point error bound, and operations outside a '
               'comfortable real domain, are outside the search']
