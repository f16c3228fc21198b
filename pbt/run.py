"""
run.py <ID> [quick|thorough] [--replay FILE]      (parent: shards the search over processes)
"""
from __future__ import annotations
import argparse, hashlib, importlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pbt import env


def load(pid):
    return importlib.import_module(f'pbt.checks.{pid.lower()}')


def known(pid):
    """the recorded (unrepaired) findings of a property: list of dicts"""
    out = []
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: ') and f'property={pid} ' in line:
                body = line.split(f'property={pid} ', 1)[1]
                assert body.startswith('replay=')
                rep, text = body[len('replay='):].split(' ', 1)
                out.append(dict(replay=rep, text=text))
    return out


def worker(pid, tier, shard, nshards, out, budget):
    env.setup()
    from pbt.harness import run_part
    mod = load(pid)
    res = dict(parts={}, failure=None)
    parts = mod.PARTS
    only = os.environ.get('PBT_PART')
    if only:
        parts = [p for p in parts if p.name == only]
    t_end = time.monotonic() + budget
    for i, part in enumerate(parts):
        left = t_end - time.monotonic()
        share = max(left / (len(parts) - i), 1.0)
        n = max(1, -(-part.n[tier] // nshards))
        st, fail = run_part(part, tier, (env.SEED * 1000003 + shard * 101 + i), share, n=n)
        res['parts'][part.name] = st.as_json()
        if fail:
            res['failure'] = fail
            break
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def regressions(pid):
    d = os.path.join(env.VERIF, 'corpus', pid)
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.json'):
                yield os.path.join('corpus', pid, fn)


def save_replay(pid, fail):
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(fail['case'], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{h}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, **fail), f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--worker', nargs=4)
    ap.add_argument('--corpus', help='decide corpus cases, results to this file')
    ap.add_argument('--jobs', type=int, default=0)
    a = ap.parse_args()
    pid = a.pid.upper()

    if a.worker:
        shard, nshards, out, budget = a.worker
        return worker(pid, a.tier, int(shard), int(nshards), out, float(budget))

    if a.replay:
        env.setup()
        from pbt.harness import decide_once
        mod = load(pid)
        rep = json.load(open(a.replay))
        part = {p.name: p for p in mod.PARTS}[rep['part']]
        msg = decide_once(part, rep['case'])
        if msg:
            print(f'VIOLATION property={pid} replay={a.replay}')
            print(msg)
            return 1
        print('replay passes')
        return 0

    t0 = time.time()
    kn = known(pid)
    if a.corpus:
        env.setup()
        from pbt.harness import decide_once
        mod = load(pid)
        res = []
        parts = {p.name: p for p in mod.PARTS}
        for rel in list(regressions(pid)) + [k['replay'] for k in kn]:
            rep = json.load(open(os.path.join(env.VERIF, rel)))
            msg = decide_once(parts[rep['part']], rep['case'])
            res.append(dict(file=rel, part=rep['part'], case=rep['case'], message=msg))
        json.dump(res, open(a.corpus, 'w'))
        return 0

    jobs = a.jobs or int(os.environ.get('PBT_JOBS', '0')) or min(8, os.cpu_count() or 4)
    budget = float(os.environ.get('PBT_BUDGET', '0')) or (90 if a.tier == 'quick' else 600)
    tmp = env.scratch()
    base = [sys.executable, '-W', 'ignore', os.path.abspath(__file__), pid, a.tier]
    procs = []
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.pop('PYTHONPYCACHEPREFIX', None)
    corpus_out = os.path.join(tmp, 'corpus.json')
    procs.append((None, corpus_out, subprocess.Popen(base + ['--corpus', corpus_out], env=e,
                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    for s in range(jobs):
        out = os.path.join(tmp, f'w{s}.json')
        procs.append((s, out, subprocess.Popen(base + ['--worker', str(s), str(jobs), out, str(budget)], env=e,
                      stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    results, corpus, broken = [], [], []
    hard = time.time() + budget + 120
    for s, out, p in procs:
        try:
            so, se = p.communicate(timeout=max(5, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            broken.append(f'shard {s}: timed out')
            continue
        if p.returncode != 0 or not os.path.exists(out):
            broken.append(f'shard {s}: rc={p.returncode}\n' + se.decode()[-3000:])
            continue
        (results if s is not None else corpus).append(json.load(open(out)))
    corpus = corpus[0] if corpus else []

    failures = []
    kn_files = {k['replay']: k for k in kn}
    for c in corpus:
        if c['file'] in kn_files:
            if c['message']:
                print(f"KNOWN-FINDING: property={pid} {kn_files[c['file']]['text']}")
        elif c['message']:
            failures.append(dict(part=c['part'], case=c['case'], message='(corpus) ' + c['message']))
    failures += [r['failure'] for r in results if r['failure']]

    ev, skipped, odd, keys, samples, per = 0, 0, 0, set(), [], {}
    for r in results:
        for name, s in r['parts'].items():
            ev += s['evaluations']
            skipped += s['skipped']
            odd += s.get('errors', 0)
            keys |= {f'{name}:{k}' for k in s['keys']}
            q = per.setdefault(name, dict(evaluations=0, skipped=0, nontrivial=0))
            q['evaluations'] += s['evaluations']
            q['skipped'] += s['skipped']
            samples += [dict(part=name, case=c) for c in s['samples'][:1]]
    for k in keys:
        per[k.split(':', 1)[0]]['nontrivial'] += 1
    seen, smp = set(), []
    for s in samples:
        if s['part'] not in seen:
            seen.add(s['part'])
            smp.append(s)
    mod_rule = '; '.join(f'{n}: {r}' for n, r in rules(pid))
    evidence = dict(property=pid, tier=a.tier, seed=env.SEED, level='exploration',
                    coverage=dict(evaluations=ev + len(corpus), distinct_nontrivial=len(keys), rule=mod_rule,
                                  samples=smp or [dict(note='none')], outside_quantifier=skipped, undecided=odd,
                                  per_part=per, corpus_cases=len(corpus)),
                    assumptions=assumptions(pid), wall_s=round(time.time() - t0, 2), violations=len(failures))
    evd = os.environ.get('PBT_EVIDENCE', os.path.join(env.VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if failures:
        failures.sort(key=lambda x: len(json.dumps(x['case'])))
        path = save_replay(pid, failures[0])
        print(f'VIOLATION property={pid} replay={path}')
        print(f"part={failures[0]['part']}: {failures[0]['message']}")
        return 1
    if broken:
        print('BROKEN', *broken, sep='\n')
        return 2
    print(f'ok property={pid} tier={a.tier} evaluations={ev} nontrivial={len(keys)} skipped={skipped} undecided={odd} '
          f'wall={time.time() - t0:.1f}s')
    return 0


def rules(pid):
    import ast
    # read without importing the code under test in the parent
    src = open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()
    out = []
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'Part':
            name = ast.literal_eval(node.args[0])
            rule = ast.literal_eval(node.args[3])
            out.append((name, rule))
    return out


def assumptions(pid):
    import ast
    src = open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'ASSUMPTIONS':
            return ast.literal_eval(node.value)
    return []


if __name__ == '__main__':
    sys.exit(main())
