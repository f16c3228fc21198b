"""C02: malformed text is rejected, and reading always terminates"""
import numpy as np
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M, observe as O, grammar as GR
from pbt.harness import Part, Violation, Skip, sut, cpu_limit, quiet
from pbt.strategies import trees, num, NUMTEXT, SPACES

from pynare.parsing.api import parse_string
from pynare.parsing import evaluate

EXTRA = ['(', ')', ';', ',', '=', '==', '+', '-', '*', '/', '^', '**', 'end', 'end;', 'var', 'model', 'model;', 'initval;', 'shocks;',
         'corr', 'stderr', '1', '2.5', '.', '1.2.3', 'x', 'zz', 'exp', 'log(', '#', '[', ']', "'", '"', '/*', '*/', '//', '%', '@', '{',
         '}', ':', '!', '~', '&', '|', '\\', '<', '>=', 'steady;', 'stoch_simul;', 'check;', 'parameters', 'varexo', 'x = 1;', '\x00',
         '$', 'é', '²', '\n', '_', '(-1)', '(+1)', '(1)', '(-1.5)', 'periods', 'values', "'a'", '3x', 'end', 'sin', 'varexo_det',
         'trend_var w;', 'predetermined_variables', '-1', '+0', '\u3000', 'model(linear);']
CHARS = list(';,()=+-*/^%#[]\'".:<>@!&|~$ \n\t_ax1') + ['/*', '*/', '//', '²', 'é', '\x00', '\\']

INNUM = ['_', '_0', '.', 'e', 'E', 'e5', 'E-3', 'e+', 'x', 'j', 'L', "'", ',', ' ', ' 1', '..', '0b1', '0x', '\u0663', '\u00b2', '1_0']
MUT = st.tuples(st.sampled_from(['del', 'dup', 'ins', 'ins', 'swap', 'rep', 'cdel', 'cins', 'crep', 'trunc', 'ctrunc', 'delspan', 'move', 'num']),
                st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)).map(list)


def mutate(toks, muts, spaces=(' ', '', '\n', ' ')):
    toks = list(toks)
    tail = []
    for op, a, b in muts:
        n = len(toks)
        if not n:
            break
        i = a % n
        if op == 'del':
            del toks[i]
        elif op == 'dup':
            toks.insert(i, toks[i])
        elif op == 'ins':
            toks.insert(a % (n + 1), EXTRA[b % len(EXTRA)])
        elif op == 'rep':
            toks[i] = EXTRA[b % len(EXTRA)]
        elif op == 'swap':
            j = (i + 1 + b % 3) % n
            toks[i], toks[j] = toks[j], toks[i]
        elif op == 'trunc':
            toks = toks[:i]
        elif op == 'delspan':
            del toks[i:i + 1 + b % 6]
        elif op == 'move':
            t = toks.pop(i)
            toks.insert(b % n, t)
        elif op == 'num':                   # something inside or beside a number
            at = [j for j, t in enumerate(toks) if t[:1].isdigit() or t[:1] == '.' and len(t) > 1]
            if at:
                j = at[a % len(at)]
                k = (a // 7) % (len(toks[j]) + 1)
                toks[j] = toks[j][:k] + INNUM[b % len(INNUM)] + toks[j][k:]
        else:
            tail.append((op, a, b))
    s = X.glue(toks, spaces)
    for op, a, b in tail:
        n = len(s)
        if not n:
            break
        i = a % n
        if op == 'cdel':
            s = s[:i] + s[i + 1:]
        elif op == 'cins':
            s = s[:i] + CHARS[b % len(CHARS)] + s[i:]
        elif op == 'crep':
            s = s[:i] + CHARS[b % len(CHARS)] + s[i + 1:]
        else:
            s = s[:i]
    return s


@st.composite
def file_case(draw):
    f = draw(G.files(max_leaves=4, max_endog=2, max_exog=2, max_params=2, max_locals=1, python_names=False))
    return dict(toks=G.tokens(f), muts=draw(st.lists(MUT, min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 4])))))


def decide_file(c):
    src = mutate(c['toks'], c['muts'])
    try:
        want = GR.model_file(src)
    except GR.Bad as e:
        want, why = None, str(e)
    try:
        with cpu_limit(10, f'reading {src!r}'), quiet():
            md = M.read(src)
    except Exception:
        return want is None, None
    if want is None:
        raise Violation(f'accepted, although malformed ({why})\n{src}')
    with sut(f'reading the loaded model\n{src}'):
        got = dict(var=O.names(md.endog), varexo=O.names(md.stoch) if len(md.stoch) else [],
                   varexo_det=O.names(md.determ) if len(md.determ) else [], parameters=sorted(md.params), eqs=len(md.exprs),
                   locals=sorted(md.local_params))
    for k, v in got.items():
        w = want[k]
        if k in ('parameters', 'locals'):
            w = sorted(w)
        if v != w:
            raise Violation(f'accepted with {k} = {v}, the text has {w}\n{src}')
    # every boundary statement is used
    for k, attr in (('init', 'initial'), ('term', 'terminal'), ('hist', 'historical')):
        for nm in want[k]:
            if getattr(md.endog[got['var'].index(nm)], attr) is None:
                raise Violation(f'accepted, but the {k} value of {nm} is ignored\n{src}')
    return True, None


@st.composite
def expr_case(draw):
    leaves = st.one_of(num(), st.sampled_from(['x', 'y', 'e1', 'abs1', 'x_']).map(lambda v: ['v', v]))
    t = draw(trees(leaves, max_leaves=6))
    if draw(st.integers(0, 3)) == 0:
        t = ['c', draw(st.sampled_from(['<', '<=', '>', '>=', '=='])), t, draw(trees(leaves, max_leaves=3))]
    return dict(toks=X.tokens(t), py=draw(st.booleans()), muts=draw(st.lists(MUT, max_size=draw(st.sampled_from([1, 2, 3])))))


def decide_expr(c):
    exp = 'python' if c['py'] else 'standard'
    toks = [('**' if t == '^' else t) for t in c['toks']] if c['py'] else c['toks']
    s = mutate(toks, c['muts'])
    try:
        GR.expression(s, exp)
        ok = True
    except GR.Bad as e:
        ok, why = False, str(e)
    try:
        with cpu_limit(10, f'parsing {s!r}'), quiet():
            parse_string(s, exp=exp)
    except Exception as e:
        if ok:
            raise Violation(f'{s!r} ({exp}) is rejected although well-formed: {type(e).__name__}: {e}')
        return True, None
    if not ok:
        raise Violation(f'{s!r} ({exp}) is accepted although malformed ({why})')
    return bool(c['muts']), None


ALPHABET = ['x', 'e', '1', '2', '.', '+', '-', '*', '/', '^', '(', ')', ' ', 'exp', 'log(', '<', '>', '=', ',', ';', '%', "'", '"', '\n', '_',
            '#', '[', '{', '$', '²', '!', '&', '\\', 'ln', 'max(', '\x1f']


def decide_soup(c):
    s = ''.join(ALPHABET[i % len(ALPHABET)] for i in c['chars'])
    exp = 'python' if c['py'] else 'standard'
    return decide_text(s, exp)


def decide_text(s, exp):
    try:
        GR.expression(s, exp)
        ok = True
    except GR.Bad:
        ok = False
    try:
        with cpu_limit(10, f'parsing {s!r}'), quiet():
            parse_string(s, exp=exp)
        got = True
    except Exception:
        got = False
    if got != ok:
        raise Violation(f'{s!r} ({exp}) is {"accepted" if got else "rejected"} although {"well" if ok else "mal"}-formed')
    return len(s) >= 3, None


SOUP = st.fixed_dictionaries(dict(chars=st.lists(st.integers(0, 300), min_size=1, max_size=14), py=st.booleans()))

MODELWORDS = ['var', 'x', 'y', ';', 'varexo', 'e', 'parameters', 'a', '=', '0.5', 'model', 'end', 'x(-1)', '+', '*', 'initval', 'shocks',
              'stderr', '1', ',', '(', ')', '#', 'corr', 'var e', 'var x y;', 'varexo e;', 'parameters a;', 'a = 0.5;', 'model;',
              'x = a*x(-1) + e;', 'y = x;', 'end;', 'initval;', 'x = 1;', 'shocks;', 'var e; stderr 1;', 'var e = 1;', '/*', '*/', '//',
              '\n', "'", '%', 'endval;', 'histval;', 'steady;']


def decide_msoup(c):
    pre = ['', 'var x y; varexo e; parameters a; a = 0.5; ', 'var x y; varexo e; parameters a; a=.5; model; x = a*x(-1)+e; y = x; end; '][c['pre'] % 3]
    src = pre + ' '.join(MODELWORDS[i % len(MODELWORDS)] for i in c['words'])
    try:
        want = GR.model_file(src)
    except GR.Bad as e:
        want, why = None, str(e)
    try:
        with cpu_limit(10, f'reading {src!r}'), quiet():
            md = M.read(src)
    except Exception:
        return True, None
    if want is None:
        raise Violation(f'accepted, although malformed ({why})\n{src}')
    if O.names(md.endog) != want['var'] or len(md.exprs) != want['eqs']:
        raise Violation(f'accepted, but part of it is ignored\n{src}')
    return True, None


MSOUP = st.fixed_dictionaries(dict(words=st.lists(st.integers(0, 500), max_size=12), pre=st.integers(0, 2)))

PARTS = [
    Part('files', file_case(), decide_file,
         'valid random model files with one to four token or character edits (deleted, doubled, inserted, swapped, replaced, '
         'moved, truncated); accepted only if an independent recogniser accepts the text, and then with the structure it finds; '
         'non-trivial: malformed, or accepted after an edit', quick=2400, thorough=60000),
    Part('expressions', expr_case(), decide_expr,
         'valid random expressions with edits, accepted exactly when an independent recogniser accepts; non-trivial: edited',
         quick=3200, thorough=80000),
    Part('symbols', SOUP, decide_soup,
         'random strings over an alphabet of symbols, words and unusual characters, accepted exactly when the recogniser accepts; '
         'non-trivial: three or more characters', quick=3200, thorough=80000),
    Part('words', MSOUP, decide_msoup,
         'random sequences of statement fragments after a valid beginning, accepted only if the recogniser accepts and nothing is '
         'lost; non-trivial: all', quick=1600, thorough=40000),
]
ASSUMPTIONS = ['termination is observed as at most 10 s of CPU time per text']
