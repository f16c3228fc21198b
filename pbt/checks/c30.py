"""C30: an error in a text names the symbol that is wrong and the place where it stands"""
import re
from hypothesis import strategies as st
from pbt import expr as X, gen as G, models as M, grammar as GR
from pbt.harness import Part, Violation, Skip, cpu_limit, quiet
from pbt.checks import c02, c04

from pynare.parsing.api import parse_string

SEPS = [' ', ' ', '  ', '\n', '\n', '\t', '\n\n', ' // a, b = c;\n', ' % var x;\n', ' /* end; */ ', ' /* a\n b */ ', '\n\n\n    ']
GAPS = st.lists(st.sampled_from(SEPS), min_size=1, max_size=9)
PLAIN = st.lists(st.sampled_from([' ', '', '\n', '   ', '\t', '']), min_size=1, max_size=7)


def place(text, off):
    return text.count('\n', 0, off) + 1, off - (text.rfind('\n', 0, off) + 1)


def stands(text, span, line, col):
    """is this line and column within the symbol?  Columns may be counted from zero or one, to its beginning or its end"""
    (l0, c0), (l1, c1) = place(text, span[0]), place(text, span[1])
    if l0 == l1:
        return line == l0 and c0 <= col <= c1
    return l0 <= line <= l1


def named(message):
    """(kind of message, name of the symbol, line, column), as far as a message has them"""
    for kind, pat in (('symbol', r'syntax error: (.*) in line (\d+) in column (-?\d+)'),
                      ('char', r'unrecognized symbol: (.*) in line (\d+), column (-?\d+)'),
                      ('token', r'Token\[.*?, (.*), (\d+), (-?\d+)\]')):
        m = re.fullmatch(pat, message, re.S)
        if m:
            return kind, m[1], int(m[2]), int(m[3])
    m = re.match(r'row (\d+), column (-?\d+)\. ', message)
    return ('name', None, int(m[1]), int(m[2])) if m else None


def shown(kind, value):
    if kind == 'end':
        return {'None', 'EOF', 'end of file', 'the end'}
    out = {repr(value), value}
    if kind == 'num':
        out |= {repr(float(value)), str(float(value))}
    if kind == 'sym' and value in ('^', '**'):
        out |= {"'**'", "'^'", '**', '^'}
    if kind == 'str':
        out |= {repr(value[1:-1]), value[1:-1]}
    return out


def judge(text, message, exp=None):
    """compare the message with where the reader of pbt/grammar.py stops; True where there was something to compare"""
    got = named(message)
    if got is None:
        if re.match(r'syntax error|unrecognized symbol|row ', message):
            raise Violation(f'{message!r} names no place\n{text}')
        return False
    what, value, line, col = got
    if what == 'name':
        at = []
        try:
            toks = GR.tokenize(text, exp is None, exp or 'standard', at)
        except GR.Bad:
            raise Violation(f'{message!r}, although the text cannot be split into symbols\n{text}')
        if not any(k in ('id', 'kw', 'fn') and stands(text, s, line, col) and
                   re.search(r'(?<!\w)' + re.escape(v) + r'(?!\w)', message) for (k, v), s in zip(toks, at)):
            raise Violation(f'{message!r}: no such name stands there\n{text}')
        return True
    own = GR.stops(text, exp)
    if own is None:
        return False
    if own[0] == 'char':
        off = own[1]
        if what != 'char':
            raise Violation(f'{message!r}, but reading stops at the character {text[off]!r}\n{text}')
        if value not in (repr(text[off]), text[off]) or not stands(text, (off, off + 1), line, col):
            raise Violation(f'{message!r}: the character {text[off]!r} stands in line {place(text, off)[0]} after '
                            f'{place(text, off)[1]} others\n{text}')
        return True
    if what == 'char':
        raise Violation(f'{message!r}: every character begins a symbol\n{text}')
    at = []
    toks = GR.tokenize(text, exp is None, exp or 'standard', at) + [('end', None)]
    at.append((at[-1][1] if at else 0, len(text)))
    i = at.index(own[3])
    there = [j for j in range(len(toks)) if value in shown(*toks[j]) and stands(text, at[j], line, col)]
    if not there:
        raise Violation(f'{message!r}: no such symbol stands there\n{text}')
    if i in there:
        return True
    if exp is None and toks[i][0] in ('id', 'kw') and (not i or toks[i - 1][1] == ';') and there[-1] > i:
        # an unknown word can begin an assignment, so that reading can go on
        return True
    if exp is None and there[0] < i and toks[there[0]][0] == 'kw':
        # a statement that is not supported
        return True
    raise Violation(f'{message!r}, but reading stops at {toks[i][1]!r} in line {place(text, at[i][0])[0]} '
                    f'(columns {place(text, at[i][0])[1]} to {place(text, at[i][1])[1]})\n{text}')


@st.composite
def file_case(draw):
    f = draw(G.files(max_leaves=4, max_endog=2, max_exog=2, max_params=2, max_locals=1, python_names=False))
    return dict(toks=G.tokens(f), muts=draw(st.lists(c02.MUT, min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 2])))), gaps=draw(GAPS))


def decide_file(c):
    text = c02.mutate(c['toks'], c['muts'], c['gaps'])
    try:
        with cpu_limit(10, f'reading {text!r}'), quiet():
            M.read(text)
    except Exception as e:
        message = str(e)
    else:
        return False, None
    return judge(text, message), None


@st.composite
def expr_case(draw):
    c = draw(c02.expr_case())
    c['gaps'] = draw(PLAIN)
    return c


def decide_expr(c):
    exp = 'python' if c['py'] else 'standard'
    toks = [('**' if t == '^' else t) for t in c['toks']] if c['py'] else c['toks']
    text = c02.mutate(toks, c['muts'], c['gaps'])
    try:
        with cpu_limit(10, f'parsing {text!r}'), quiet():
            parse_string(text, exp=exp)
    except Exception as e:
        message = str(e)
    else:
        return False, None
    return judge(text, message, exp), None


@st.composite
def name_case(draw):
    c = draw(c04.case())
    c['gaps'] = draw(GAPS)
    return c


UNIQUE = ('eq', 'eq_period', 'local', 'param', 'bound_expr', 'shock_expr')


def suspects(toks, kind, name):
    """the symbols that the message may point to"""
    idx = [i for i, (k, v) in enumerate(toks) if v == name and k != 'str']
    nxt = lambda i: toks[i + 1][1] if i + 1 < len(toks) else None
    if kind in UNIQUE or len(idx) == 1:
        return idx
    begin = min(i for i, (k, v) in enumerate(toks) if k == 'kw' and v == 'model')
    end = min(i for i, (k, v) in enumerate(toks) if k == 'kw' and v == 'end' and i > begin)
    if kind in ('param_period', 'local_period'):
        return [i for i in idx if begin < i < end and nxt(i) == '(']
    if kind == 'bound_target':
        return [i for i in idx if i > end and nxt(i) == '=']
    if kind == 'shock_target':
        return [i for i in idx if i > end and toks[i - 1][1] in ('var', 'corr', ',')]
    if kind == 'assign_var':
        return [i for i in idx if i < begin and nxt(i) == '=']
    if kind == 'dup_local':
        return [i for i in idx if toks[i - 1][1] == '#']
    if kind == 'dup':
        return [i for i in idx[1:] if i < begin]
    return idx


def decide_name(c):
    f = c['file']
    toks, name = c04.spoil(f, c['kind'], c['a'], c['b'], c['new'])
    if G.lines(toks) == G.text(f):
        raise Skip('not spoilt')
    text = X.glue(toks, c['gaps'])
    try:
        with cpu_limit(20, f'reading\n{text}'), quiet():
            M.read(text)
    except Exception as e:
        message = str(e)
    else:
        raise Skip('accepted, which is decided elsewhere')
    got = named(message)
    if got is None and message.startswith('row '):
        raise Violation(f'{message!r} names no place\n{text}')
    if got is None or got[0] != 'name':
        return False, None
    at = []
    toks = GR.tokenize(text, True, 'standard', at)
    sus = suspects(toks, c['kind'], name)
    if not any(stands(text, at[i], *got[2:]) for i in sus):
        raise Violation(f'{c["kind"]}: {message!r}, but the name stands in '
                        + ' or '.join('row {} after {} characters'.format(*place(text, at[i][0])) for i in sus) + f'\n{text}')
    return sum(v == name for k, v in toks) > 1 or '\n' in text.strip(), None


PARTS = [
    Part('files', file_case(), decide_file,
         'random model files over many lines with comments, with one or two token or character edits: the symbol, the line and '
         'the column that a syntax error names are where an independent reader stops (columns counted from zero or one, to the '
         'beginning or end of the symbol); non-trivial: rejected with a place', quick=2400, thorough=60000),
    Part('expressions', expr_case(), decide_expr,
         'the same for single expressions with both exponent signs; non-trivial: rejected with a place', quick=2400, thorough=60000),
    Part('names', name_case(), decide_name,
         'a name error of each kind put at a random place of a random valid file over many lines: the row and column of the '
         'message are those of the name where it is wrong, not of another appearance; non-trivial: the message has a place and '
         'the text several lines', quick=2000, thorough=40000),
]
ASSUMPTIONS = ['errors that name no place are not judged here (that the text is rejected is decided by C02 and C04)']
