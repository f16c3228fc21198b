"""
development tool for planted bugs, never used by a check.

    plant.py new SPEC.py      make /verif/seeded/<id>/ from the entries of SPEC.py
    plant.py verify [ID...]   apply, test, demonstrate and check the planted bugs

a spec is a list BUGS of dicts: id, property, edits [(file, old, new)], needs, breaks, demo
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# run in the repository: 0 when the property holds for the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, capture_output=True,
                          env={**os.environ, **(env or {})})

def copy():
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    sh(f'cp -a /repo {d}/repo')
    sh('git checkout -q -- . ', cwd=f'{d}/repo')
    return d

def new(spec):
    for b in runpy.run_path(spec)['BUGS']:
        d = copy(); r = f'{d}/repo'
        for f, old, nw in b['edits']:
            t = open(f'{r}/{f}').read()
            assert t.count(old) == 1, (b['id'], f, t.count(old))
            open(f'{r}/{f}', 'w').write(t.replace(old, nw))
        o = f"{S}/{b['id']}"; os.makedirs(o, exist_ok=True)
        open(f'{o}/patch.diff', 'w').write(sh('git diff', cwd=r).stdout)
        open(f'{o}/demo.sh', 'w').write(DEMO); os.chmod(f'{o}/demo.sh', 0o755)
        open(f'{o}/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
        shutil.rmtree(d)
        print('new', b['id'])

def original(r):
    """whether the (uncommitted) changes in r replace lines of the first commit"""
    base = sh('git rev-list --max-parents=0 HEAD', cwd=r).stdout.strip()[:7]
    f = None; hit = False
    for line in sh('git diff -U0', cwd=r).stdout.split('\n'):
        if line.startswith('--- a/'): f = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                bl = sh(f'git blame -s --abbrev=7 -L{a},{a+n-1} HEAD -- {f}', cwd=r).stdout
                hit |= any(l.lstrip('^').startswith(base) for l in bl.split('\n'))
    return hit

def verify(i, tier='quick', others=()):
    o = f'{S}/{i}'; d = copy(); r = f'{d}/repo'
    prop = json.load(open(f'{o}/meta.json'))['property']
    out = [i, prop]
    p = sh(f'bash {o}/demo.sh', cwd=r)
    out.append('demo0=%d' % p.returncode)
    if p.returncode: out.append(p.stderr[-300:])
    a = sh(f'git apply {o}/patch.diff', cwd=r)
    if a.returncode: out.append('NOAPPLY ' + a.stderr[-200:])
    if not original(r): out.append('NOT AN ORIGINAL LINE')
    t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests', cwd=r)
    out.append('tests:' + t.stdout.strip().split('\n')[-1][:40])
    p = sh(f'bash {o}/demo.sh', cwd=r)
    out.append('demo1=%d %s' % (p.returncode, (p.stderr.strip().split('\n')[-1])[-90:]))
    for q in (prop, *others):
        if not os.path.exists(f'{V}/pbt/checks/{q.lower()}.py'):
            out.append(f'{q}:nocheck'); continue
        c = sh(f'{V}/check.sh {q} {tier}', env={'PBT_REPO': r, 'PBT_EVIDENCE': f'{d}/ev',
                                              'VERIF_SEED': '1', 'PBT_REPLAYS': f'{d}/rp'})
        out.append(f'{q}:{"CAUGHT" if c.returncode == 1 and "VIOLATION property=" + q in c.stdout else "MISSED rc=%d" % c.returncode}')
        if c.returncode not in (0, 1): out.append(c.stderr[-300:])
    shutil.rmtree(d)
    return ' | '.join(out)

if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids:
            print(verify(i), flush=True)
