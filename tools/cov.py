"""development tool: which lines of pynare does each check execute (one shard of the quick run)
   cov.py OUT.json [ID...]"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD = r'''
import sys, json, os
sys.path.insert(0, %r)
pid, out = sys.argv[1:3]
from pbt import env
hit = {}
mon = sys.monitoring
mon.use_tool_id(3, 'cov')
def line(code, n):
    f = code.co_filename
    if f.startswith(env.REPO + '/pynare/'):
        hit.setdefault(f[len(env.REPO)+1:], set()).add(n)
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
from pbt import run
run.worker(pid, 'quick', 0, 8, out + '.w', 120)
json.dump({f: sorted(s) for f, s in hit.items()}, open(out, 'w'))
'''
def one(pid):
    out = f'/tmp/cov_{pid}.json'
    p = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', CHILD % V, pid, out], capture_output=True, text=True)
    if p.returncode: print(pid, p.stderr[-500:])
    r = json.load(open(out))
    for e in ('', '.w'):
        if os.path.exists(out + e): os.unlink(out + e)
    return pid, r
if __name__ == '__main__':
    ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 31)]
    with ThreadPoolExecutor(4) as ex:
        json.dump(dict(ex.map(one, ids)), open(sys.argv[1], 'w'))
