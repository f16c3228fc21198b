"""an independent tokenizer and recogniser of model files and expressions; returns the structure or raises Bad"""
from __future__ import annotations

FUNCS = {'exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'max', 'min',
         'normcdf', 'normpdf', 'erf'}
DECLS = {'var', 'varexo', 'varexo_det', 'parameters'}
KEYWORDS = DECLS | {'model', 'end', 'initval', 'endval', 'histval', 'shocks', 'periods', 'values', 'corr', 'stderr', 'steady',
                    'check', 'simul', 'stoch_simul', 'resid', 'estimation', 'forecast', 'trend_var', 'log_trend_var',
                    'predetermined_variables', 'change_type', 'steady_state_model'}
SYMBOLS2 = ['<=', '>=', '==']
SYMBOLS = list(',.;:#&|@!~%<>\\^+-*/()[]{}=')


class Bad(Exception):
    pass


def tokenize(text, dynare=True, exp='standard', at=None):
    """list of (kind, text); kinds: id, fn, kw, num, str, sym.  `at` is filled with the (first, past-the-last) offsets"""
    out, i, n = [], 0, len(text)
    at, start = [] if at is None else at, 0
    while i < n:
        if len(out) > len(at):
            at.append((start, i))
        start = i
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if dynare and (c == '%' or text.startswith('//', i)):
            while i < n and text[i] != '\n':
                i += 1
            continue
        if dynare and text.startswith('/*', i):
            j = text.find('*/', i + 2)
            if j < 0:
                raise Bad('unclosed comment')
            i = j + 2
            continue
        if c.isalpha() or (not dynare and c == '_'):
            j = i
            while j < n and (text[j].isalnum() or text[j] == '_'):
                j += 1
            w = text[i:j]
            out.append(('fn' if w in FUNCS else 'kw' if dynare and w in KEYWORDS else 'id', w))
            i = j
            continue
        if c.isdigit() or c == '.':
            j = i
            while j < n and (text[j].isdigit() or text[j] == '.'):
                j += 1
            w = text[i:j]
            if w.count('.') > 1 or w == '.':
                raise Bad('number')
            try:
                float(w)
            except ValueError:
                raise Bad('number')
            out.append(('num', w))
            i = j
            continue
        if c in '\'"':
            j = text.find(c, i + 1)
            if j < 0:
                raise Bad('unclosed string')
            out.append(('str', text[i + 1:j]))
            i = j + 1
            continue
        if text[i:i + 2] in SYMBOLS2:
            out.append(('sym', text[i:i + 2]))
            i += 2
            continue
        if exp == 'python' and text.startswith('**', i):
            out.append(('sym', '^'))
            i += 2
            continue
        if c in SYMBOLS and not (c == '^' and exp == 'python'):
            out.append(('sym', c))
            i += 1
            continue
        raise Unknown(i)
    if len(out) > len(at):
        at.append((start, n))
    return out


class Unknown(Bad):
    """a character that begins no symbol; `args[0]` is its offset"""


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def at(self, *texts, k=0):
        j = self.i + k
        return j < len(self.t) and self.t[j][0] in ('sym', 'kw') and self.t[j][1] in texts

    def kind(self, kind, k=0):
        j = self.i + k
        return j < len(self.t) and self.t[j][0] == kind

    def eat(self, text):
        if not self.at(text):
            raise Bad(f'expected {text}')
        self.i += 1

    def take(self, kind):
        if not self.kind(kind):
            raise Bad(f'expected {kind}')
        self.i += 1
        return self.t[self.i - 1][1]

    def end(self):
        if self.i != len(self.t):
            raise Bad('trailing')

    # expressions; m: with leads and lags
    def expr(self, m=False):
        self.term(m)
        while self.at('+', '-'):
            self.i += 1
            self.term(m)

    def term(self, m):
        self.power(m)
        while self.at('*', '/'):
            self.i += 1
            self.power(m)

    def power(self, m):
        self.atom(m)
        while self.at('^'):
            self.i += 1
            self.atom(m)

    def atom(self, m):
        while self.at('+', '-'):
            self.i += 1
        if self.kind('fn'):
            self.i += 1
            self.eat('(')
            self.expr(m)
            self.eat(')')
        elif self.kind('id'):
            self.i += 1
            if m and self.at('('):
                self.i += 1
                if not self.at('+', '-'):
                    raise Bad('offset')
                self.i += 1
                v = self.take('num')
                if float(v) != int(float(v)):
                    self.i -= 1
                    raise Bad('offset')
                self.eat(')')
        elif self.kind('num'):
            self.i += 1
        elif self.at('('):
            self.i += 1
            self.expr(m)
            self.eat(')')
        else:
            raise Bad('atom')

    def comparison(self):
        self.expr()
        if self.at('<', '<=', '>', '>=', '=='):
            self.i += 1
            self.expr()

    def args(self):
        if self.at('('):
            self.i += 1
            while True:
                self.take('id')
                if self.at('='):
                    self.i += 1
                    if self.kind('str'):
                        self.i += 1
                    elif self.kind('id') and (self.at(',', k=1) or self.at(')', k=1)):
                        self.i += 1
                    else:
                        self.expr()
                if not self.at(','):
                    break
                self.i += 1
            self.eat(')')

    def file(self):
        s = dict(var=[], varexo=[], varexo_det=[], parameters=[], eqs=0, locals=[], assigned=[], init=[], term=[], hist=[],
                 shocks=[])
        while not self.at('model'):
            if self.at(*DECLS):
                kw = self.t[self.i][1]
                self.i += 1
                s[kw].append(self.take('id')) if not self.at(';') else None
                while not self.at(';'):
                    if self.at(','):
                        self.i += 1
                    s[kw].append(self.take('id'))
                self.eat(';')
            else:
                s['assigned'].append(self.take('id'))
                self.eat('=')
                self.expr()
                self.eat(';')
        self.eat('model')
        self.args()
        self.eat(';')
        while not self.at('end'):
            if self.at('#'):
                self.i += 1
                s['locals'].append(self.take('id'))
                self.eat('=')
                self.expr(True)
            else:
                if self.at('['):
                    self.i += 1
                    while True:
                        self.take('id')
                        if self.at('='):
                            self.i += 1
                            self.take('str')
                        if not self.at(','):
                            break
                        self.i += 1
                    self.eat(']')
                self.expr(True)
                if self.at('='):
                    self.i += 1
                    self.expr(True)
                s['eqs'] += 1
            self.eat(';')
        self.eat('end')
        self.eat(';')
        while self.i < len(self.t):
            if self.at('initval', 'endval', 'histval'):
                key = {'initval': 'init', 'endval': 'term', 'histval': 'hist'}[self.t[self.i][1]]
                self.i += 1
                self.args()
                self.eat(';')
                while not self.at('end'):
                    s[key].append(self.take('id'))
                    self.eat('=')
                    self.expr()
                    self.eat(';')
                self.i += 1
                self.eat(';')
            elif self.at('shocks'):
                self.i += 1
                self.args()
                self.eat(';')
                while not self.at('end'):
                    if self.at('corr'):
                        self.i += 1
                        a = self.take('id')
                        self.eat(',')
                        b = self.take('id')
                        self.eat('=')
                        self.expr()
                        s['shocks'].append(('corr', a, b))
                    else:
                        self.eat('var')
                        a = self.take('id')
                        if self.at(','):
                            self.i += 1
                            b = self.take('id')
                            self.eat('=')
                            self.expr()
                            s['shocks'].append(('cov', a, b))
                        elif self.at('='):
                            self.i += 1
                            self.expr()
                            s['shocks'].append(('variance', a, None))
                        else:
                            self.eat(';')
                            self.eat('stderr')
                            self.expr()
                            s['shocks'].append(('stderr', a, None))
                    self.eat(';')
                self.eat('end')
                self.eat(';')
            else:
                raise Bad('statement')
        return s


def model_file(text):
    p = P(tokenize(text))
    return p.file()


def expression(text, exp='standard'):
    p = P(tokenize(text, False, exp))
    p.comparison()
    p.end()


def stops(text, exp=None):
    """where a reader that goes from left to right must stop: None (the text is well-formed, or its symbols cannot be told
    apart for a reason that has no place), ('char', offset), or ('symbol', kind, text, (first, past-the-last))"""
    at = []
    try:
        toks = tokenize(text, exp is None, exp or 'standard', at)
    except Unknown as e:
        return 'char', e.args[0]
    except Bad:
        return None
    p = P(toks)
    try:
        if exp is None:
            p.file()
        else:
            p.comparison()
            p.end()
    except Bad as e:
        if p.i < len(toks):
            return 'symbol', *toks[p.i], at[p.i]
        return 'symbol', 'end', None, (at[-1][1] if at else 0, len(text))
