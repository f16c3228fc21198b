"""
development tool, never used by a check: mutation sampling.

    mutate.py run N SEED OUT.jsonl [FILE...]   sample N mutants, test, decide by the checks that execute the line
    needs /tmp/cov.json from cov.py
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: '*', ast.FloorDiv: '*', ast.Mod: '*'}

def mutants(src):
    """(start, end, replacement, description) in character offsets"""
    tree = ast.parse(src)
    lines = src.split('\n'); off = [0]
    for l in lines: off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln-1] + len(lines[ln-1].encode()[:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)) and n.name in ('__repr__', '__str__', 'describe', '__print__'):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for a in [n.returns] + [x.annotation for x in n.args.args + n.args.kwonlyargs]:
                if a: skip.update(id(m) for m in ast.walk(a))
        if isinstance(n, ast.AnnAssign): skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.ImportFrom) or isinstance(n, ast.Import): skip.add(id(n))
    out = []
    def add(n, rep, d): 
        a, b = span(n); out.append((n.lineno, a, b, rep, d))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        seg = lambda m: src[slice(*span(m))]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f'{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f'{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}', 'bin')
            if isinstance(n.op, (ast.Add, ast.Sub)): add(n, f'{seg(n.left)}', 'dropright')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, o.join('(' + seg(v) + ')' for v in n.values), 'bool')
            for v in n.values: add(n, seg(v), 'onlybool')
        elif isinstance(n, ast.UnaryOp):
            add(n, '(' + seg(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False: add(n, str(not n.value), 'const')
            elif isinstance(n.value, int): add(n, str(n.value + 1), 'const'); add(n, str(n.value - 1), 'const')
            elif isinstance(n.value, float): add(n, repr(n.value * 2 + 1), 'const')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f'not ({seg(n.test)})', 'negate')
            if isinstance(n, ast.If): add(n.test, 'False', 'never'); add(n.test, 'True', 'always')
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), 'ifexp'); add(n, seg(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), (ast.Constant, ast.Yield)):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Break): add(n, 'pass', 'delete')
        elif isinstance(n, ast.Continue): add(n, 'pass', 'delete')
        elif isinstance(n, ast.Call):
            if n.keywords:
                k = n.keywords
                for kw in k:
                    if kw.arg is None: continue
                    rest = [seg(a) for a in n.args] + [(f'{q.arg}=' if q.arg else '**') + seg(q.value) for q in k if q is not kw]
                    add(n, f"{seg(n.func)}({', '.join(rest)})", 'dropkw')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, f"{seg(n.func)}({', '.join([seg(n.args[1]), seg(n.args[0])] + [(f'{q.arg}=' if q.arg else '**') + seg(q.value) for q in n.keywords])})", 'swapargs')
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                add(n, '(' + seg(n.args[0]) + ')', 'unwrap')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            e = n.slice.elts
            add(n, f'{seg(n.value)}[{seg(e[1])}, {seg(e[0])}]', 'swapidx')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, 'return None', 'retnone')
    res = []
    for ln, a, b, rep, d in out:
        if src[a:b] == rep: continue
        new = src[:a] + rep + src[b:]
        try: ast.parse(new)
        except SyntaxError: continue
        res.append((ln, d, src[a:b], rep, new))
    return res

PRIMARY = {
    'parsing/lexer': '1 2 3 6', 'parsing/parser': '2 1 3 4 6', 'parsing/base': '1 6 5 7 2', 'parsing/semantics': '4 3 5 2', 'parsing/factory': '3 5 4 6 29',
    'parsing/': '2 1 3 4', 'core/variables': '8 5 3 4 28 22 16', 'core/generic': '28 22 3 23 29 10', 'core/model': '28 22 26 29 23 14', 'core/expressions': '6 7 28 22 13',
    'core/linearizing': '7 9 22', 'core/steady': '13 28', 'solve/binding': '20 21 28', 'solve/second': '12 15', 'core/solve/': '9 11 12 8', 'simul': '14 15 19 28', 'impulse': '16 28 25',
    'stats/': '17 18 28 24', 'utils/numpy': '27 12 9 14 18', 'io/summary': '24 28', 'io/': '26 29', 'examples': '26', 'plotting': '25', 'regimes': '23 28', 'utils/dtypes': '22 18 28 23 16'}

def primary(f):
    for k, v in PRIMARY.items():
        if k in f: return ['C%02d' % int(x) for x in v.split()]
    return ['C22', 'C28']


import warnings; warnings.simplefilter('ignore')
def main():
    N, seed, outp = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    cov = json.load(open('/tmp/cov.json'))
    files = sys.argv[5:] or [f for f in sorted({f for d in cov.values() for f in d})
                             if 'filters' not in f and 'observation' not in f and 'errors' not in f]
    rnd = random.Random(seed)
    pool = []
    size = {p: sum(len(v) for v in d.values()) for p, d in cov.items()}
    per_line = {}
    for p, d in cov.items():
        for f, ls in d.items():
            for l in ls: per_line.setdefault((f, l), []).append(p)
    for f in files:
        src = open(f'{REPO}/{f}').read()
        for ln, d, old, rep, new in mutants(src):
            # the statement's line may be an earlier one
            ps = per_line.get((f, ln)) or per_line.get((f, ln-1)) or per_line.get((f, ln-2))
            if not ps: continue
            pool.append((f, ln, d, old, rep, new, ps))
    # at most one mutant a line, files in proportion
    rnd.shuffle(pool)
    seen = set(); pick = []
    done = set()
    if os.path.exists(outp):
        done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open(outp))}
    for m in pool:
        if (m[0], m[1]) in seen: continue
        seen.add((m[0], m[1])); pick.append(m)
        if len(pick) >= N: break
    print(len(pool), 'mutants', len(pick), 'picked', flush=True)
    q = queue.Queue()
    for m in pick:
        if (m[0], m[1], m[4]) not in done: q.put(m)
    lock = threading.Lock()
    J = int(os.environ.get('MUT_JOBS', '7'))
    vdir = tempfile.mkdtemp(prefix='mutv_', dir='/tmp')
    subprocess.run(f'cp -a {V}/pbt {V}/check.sh {V}/known_findings.txt {vdir}/; [ -d {V}/corpus ] && cp -a {V}/corpus {vdir}/', shell=True)
    stable = json.load(open('/opt/vp/BASELINE.json'))
    def work(k):
        d = tempfile.mkdtemp(prefix=f'mut{k}_', dir='/tmp'); r = f'{d}/repo'
        subprocess.run(f'cp -a {REPO} {r}', shell=True)
        while True:
            try: f, ln, desc, old, rep, new, ps = q.get_nowait()
            except queue.Empty: break
            t0 = time.time()
            orig = open(f'{r}/{f}').read()
            open(f'{r}/{f}', 'w').write(new)
            rec = dict(file=f, line=ln, op=desc, old=old[:200], new=rep[:200])
            try:
                try:
                    t = subprocess.run(f'timeout 120 {PY} -W ignore -m pytest -q -x -p no:cacheprovider tests', cwd=r, shell=True, capture_output=True, text=True,
                                   env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'})
                    ok = t.returncode == 0
                except Exception: ok = False
                if not ok: rec['result'] = 'tests'
                else:
                    rec['result'] = 'SURVIVED'; rec['checks'] = []
                    for p in primary(f):
                        c = subprocess.run(f'{vdir}/check.sh {p}', shell=True, capture_output=True, text=True,
                             env={**os.environ, 'PBT_REPO': r, 'PBT_EVIDENCE': f'{d}/ev', 'PBT_REPLAYS': f'{d}/rp', 'PBT_JOBS': '1',
                                  'PBT_SHRINK': '0', 'PBT_BUDGET': '75', 'VERIF_SEED': '1'})
                        rec['checks'].append([p, c.returncode])
                        if c.returncode == 1:
                            rec['result'] = 'caught'; rec['by'] = p; break
                        if c.returncode != 0: rec['err'] = (c.stderr + c.stdout)[-300:]
                rec['t'] = round(time.time() - t0)
            finally:
                open(f'{r}/{f}', 'w').write(orig)
            with lock:
                open(outp, 'a').write(json.dumps(rec) + '\n')
        shutil.rmtree(d)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(J)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(vdir)
    print('done')
main()
