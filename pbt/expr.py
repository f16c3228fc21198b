"""
expression trees, their text, and their value - independent of pynare

tree := ["n", "0.25"] | ["v", name] | ["p", name, k] | ["u", op, t] | ["b", op, t, t] | ["f", name, t]
      | ["g", t]  (redundant parentheses) | ["c", op, t, t]  (comparison, top level only)
"""
from __future__ import annotations
import math
import numpy as np

from pbt.harness import Skip

EPS = 2.3e-16


class Domain(Skip):
    """outside the domain on which values are compared"""


# ---------------------------------------------------------------------------------------------- rendering
LEVEL = {'+': 1, '-': 1, '*': 2, '/': 2}


def level(t):
    k = t[0]
    if k == 'c':
        return 0
    if k == 'b':
        return LEVEL.get(t[1], 3)
    if k == 'u':
        return 3
    return 4


def tokens(t, power='^', need=0):
    """list of token texts, parentheses only where the grammar needs them"""
    if level(t) < need:
        return ['('] + tokens(t, power) + [')']
    k = t[0]
    if k == 'n':
        return [t[1]]
    if k == 'v':
        return [t[1]]
    if k == 'p':
        return [t[1], '(', '+' if t[2] >= 0 else '-', str(abs(t[2])), ')']
    if k == 'g':
        return ['('] + tokens(t[1], power) + [')']
    if k == 'f':
        return [t[1], '('] + tokens(t[2], power) + [')']
    if k == 'u':
        return [t[1]] + tokens(t[2], power, 3)
    if k == 'c':
        return tokens(t[2], power, 1) + [t[1]] + tokens(t[3], power, 1)
    op = t[1]
    if op == '^':
        # a signed or power left operand needs parentheses, a right one does not
        return tokens(t[2], power, 4) + [power] + tokens(t[3], power, 3)
    lv = LEVEL[op]
    return tokens(t[2], power, lv) + [op] + tokens(t[3], power, lv + 1)


def glue(toks, spaces=None, default=' '):
    """join tokens; `spaces` cycles through separators, kept wherever two words would fuse"""
    out = []
    for i, tk in enumerate(toks):
        if i:
            sep = default if not spaces else spaces[i % len(spaces)]
            a, b = toks[i - 1][-1], tk[0]
            word = lambda c: c.isalnum() or c in '_.'
            if not sep and ((word(a) and word(b)) or (a in '<>=*/' and b in '<>=*/')):
                sep = ' '
            out.append(sep)
        out.append(tk)
    return ''.join(out)


def text(t, power='^', spaces=None):
    return glue(tokens(t, power), spaces, '')


def names(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] in 'vp':
        acc.add(t[1])
    for c in t[1:]:
        if isinstance(c, list):
            names(c, acc)
    return acc


def timed(t, acc=None):
    """(name, period) pairs"""
    acc = set() if acc is None else acc
    if t[0] == 'v':
        acc.add((t[1], 0))
    elif t[0] == 'p':
        acc.add((t[1], t[2]))
    for c in t[1:]:
        if isinstance(c, list):
            timed(c, acc)
    return acc


def size(t):
    return 1 + sum(size(c) for c in t[1:] if isinstance(c, list))


# ------------------------------------------------------------------------------------- value + error bound
FUN1 = ['exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf']
SMOOTH = ['exp', 'log', 'ln', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf']
BIG = 1e7


def _fun(name, x):
    """value, first and second derivative"""
    try:
        if name == 'exp':
            if x > 16:
                raise Domain('exp')
            e = math.exp(x)
            return e, e, e
        if name in ('log', 'ln'):
            if x < 1e-6:
                raise Domain('log')
            return math.log(x), 1 / x, -1 / x ** 2
        if name == 'log10':
            if x < 1e-6:
                raise Domain('log10')
            c = math.log(10)
            return math.log10(x), 1 / x / c, -1 / x ** 2 / c
        if name == 'sqrt':
            if x < 1e-6:
                raise Domain('sqrt')
            s = math.sqrt(x)
            return s, .5 / s, -.25 / s ** 3
        if name == 'abs':
            return abs(x), math.copysign(1, x), 0.
        if name == 'sign':
            return float((x > 0) - (x < 0)), 0., 0.
        if name == 'sin':
            return math.sin(x), math.cos(x), -math.sin(x)
        if name == 'cos':
            return math.cos(x), -math.sin(x), -math.cos(x)
        if name == 'tan':
            if abs(math.cos(x)) < 1e-3:
                raise Domain('tan')
            t = math.tan(x)
            return t, 1 + t * t, 2 * t * (1 + t * t)
        if name in ('asin', 'acos'):
            if abs(x) > 0.999:
                raise Domain(name)
            d, dd = (1 - x * x) ** -.5, x * (1 - x * x) ** -1.5
            return (math.asin(x), d, dd) if name == 'asin' else (math.acos(x), -d, -dd)
        if name == 'atan':
            return math.atan(x), 1 / (1 + x * x), -2 * x / (1 + x * x) ** 2
        if name == 'erf':
            d = 2 / math.sqrt(math.pi) * math.exp(-x * x)
            return math.erf(x), d, -2 * x * d
    except (OverflowError, ValueError, ZeroDivisionError):
        raise Domain(name)
    raise AssertionError(name)


def _pow(a, b):
    """value and partials of a**b; Domain where it is not smooth real"""
    if b == int(b) and abs(b) <= 64:
        if a == 0 and b <= 0:
            raise Domain('0**')
    elif a < 1e-6:
        raise Domain('pow')
    try:
        v = a ** b
    except (OverflowError, ZeroDivisionError):
        raise Domain('pow')
    if isinstance(v, complex) or abs(v) > BIG:
        raise Domain('pow')
    return v


def value(t, scope):
    """(value, error bound) by forward error analysis; Domain outside the comfortable real domain"""
    k = t[0]
    if k == 'n':
        return float(t[1]), 0.
    if k == 'v':
        return float(scope[t[1]]), 0.
    if k == 'p':
        return float(scope[(t[1], t[2])]), 0.
    if k == 'g':
        return value(t[1], scope)
    if k == 'u':
        v, e = value(t[2], scope)
        return (-v if t[1] == '-' else v), e
    if k == 'f':
        x, e = value(t[2], scope)
        if t[1] in ('abs', 'sign') and e and abs(x) <= 2 * e:
            raise Domain('kink')
        if t[1] == 'sign':
            return _fun('sign', x)[0], 0.
        v, d, dd = _fun(t[1], x)
        v2 = v
        e = abs(d) * e + abs(dd) * e * e + 8 * EPS * abs(v2)
    elif k == 'c':
        a, ea = value(t[2], scope)
        b, eb = value(t[3], scope)
        if a != b and abs(a - b) <= 4 * (ea + eb) or (a == b and ea + eb > 0):
            raise Domain('tie')
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[t[1]], 0.
    else:
        a, ea = value(t[2], scope)
        b, eb = value(t[3], scope)
        op = t[1]
        if op == '+':
            v, e = a + b, ea + eb
        elif op == '-':
            v, e = a - b, ea + eb
        elif op == '*':
            v, e = a * b, abs(a) * eb + abs(b) * ea + ea * eb
        elif op == '/':
            if abs(b) < 1e-6:
                raise Domain('div')
            v = a / b
            e = (ea + abs(v) * eb) / abs(b) * 1.1
        else:
            v = _pow(a, b)
            if b == int(b) and eb == 0:
                da = abs(b) * abs(a) ** (abs(b) - 1 if b >= 1 else b - 1) if a else 1.
                e = da * ea * 1.5
            else:
                e = abs(v) * (abs(b) / abs(a) * ea + abs(math.log(abs(a) or 1)) * eb) * 1.5 if a > 0 else 1.
            e += 8 * EPS * abs(v)
        e += 2 * EPS * abs(v)
    if not math.isfinite(v) or abs(v) > BIG or not e < 1e-4 * (1 + abs(v)):
        raise Domain('range')
    return v, e


def repair(t, scope):
    """rewrite a tree so that value() is defined at `scope`"""
    k = t[0]
    if k in 'nvp':
        return t
    if k == 'g':
        return ['g', repair(t[1], scope)]
    if k == 'u':
        return ['u', t[1], repair(t[2], scope)]
    if k == 'c':
        return ['c', t[1], repair(t[2], scope), repair(t[3], scope)]
    if k == 'f':
        u = ['f', t[1], repair(t[2], scope)]
        alts = [u, ['f', t[1], ['b', '+', ['n', '0.5'], ['b', '^', u[2], ['n', '2']]]],
                ['f', t[1], ['b', '/', ['f', 'sin', u[2]], ['n', '2']]],
                ['f', t[1], ['b', '+', ['f', 'sin', u[2]], ['n', '1.5']]]]
    else:
        a, b = repair(t[2], scope), repair(t[3], scope)
        u = ['b', t[1], a, b]
        sq = lambda x: ['b', '+', ['n', '0.5'], ['b', '^', x, ['n', '2']]]
        sn = lambda x: ['f', 'sin', x]
        alts = [u, ['b', t[1], a, sq(b)], ['b', t[1], sq(sn(a)), b], ['b', t[1], sq(sn(a)), sn(b)],
                ['b', t[1], sq(sn(a)), sq(sn(b))]]
    for alt in alts:
        try:
            value(alt, scope)
            return alt
        except Domain:
            continue
    return ['n', '1']


# ------------------------------------------------------------------------------ second-order Taylor values
class Taylor:
    """value, gradient and Hessian with respect to m variables"""
    __slots__ = ('v', 'g', 'h')

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def const(v, m):
        return Taylor(float(v), np.zeros(m), np.zeros((m, m)))

    @staticmethod
    def var(v, i, m):
        g = np.zeros(m)
        g[i] = 1.
        return Taylor(float(v), g, np.zeros((m, m)))

    def chain(self, f, d, dd):
        return Taylor(f, d * self.g, d * self.h + dd * np.outer(self.g, self.g))


def taylor(t, scope, m):
    k = t[0]
    if k == 'n':
        return Taylor.const(float(t[1]), m)
    if k in 'vp':
        x = scope[t[1]] if k == 'v' else scope[(t[1], t[2])]
        return x if isinstance(x, Taylor) else Taylor.const(x, m)
    if k == 'g':
        return taylor(t[1], scope, m)
    if k == 'u':
        x = taylor(t[2], scope, m)
        return Taylor(-x.v, -x.g, -x.h) if t[1] == '-' else x
    if k == 'f':
        x = taylor(t[2], scope, m)
        return x.chain(*_fun(t[1], x.v))
    a, b = taylor(t[2], scope, m), taylor(t[3], scope, m)
    op = t[1]
    if op == '+':
        return Taylor(a.v + b.v, a.g + b.g, a.h + b.h)
    if op == '-':
        return Taylor(a.v - b.v, a.g - b.g, a.h - b.h)
    if op == '*':
        o = np.outer(a.g, b.g)
        return Taylor(a.v * b.v, a.v * b.g + b.v * a.g, a.v * b.h + b.v * a.h + o + o.T)
    if op == '/':
        if abs(b.v) < 1e-9:
            raise Domain('div')
        r = b.chain(1 / b.v, -1 / b.v ** 2, 2 / b.v ** 3)
        o = np.outer(a.g, r.g)
        return Taylor(a.v / b.v, a.v * r.g + r.v * a.g, a.v * r.h + r.v * a.h + o + o.T)
    # power
    _pow(a.v, b.v)
    if not b.g.any() and not b.h.any():
        n = b.v
        f = a.v ** n
        d = n * a.v ** (n - 1) if n != 0 else 0.
        dd = n * (n - 1) * a.v ** (n - 2) if n not in (0., 1.) else 0.
        if a.v == 0 and n < 2 and n not in (0., 1.):
            raise Domain('pow0')
        return a.chain(f, d, dd)
    if a.v < 1e-6:
        raise Domain('pow')
    la = a.chain(math.log(a.v), 1 / a.v, -1 / a.v ** 2)
    o = np.outer(la.g, b.g)
    x = Taylor(la.v * b.v, la.v * b.g + b.v * la.g, la.v * b.h + b.v * la.h + o + o.T)
    e = math.exp(x.v)
    return x.chain(e, e, e)
