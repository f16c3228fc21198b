"""writes /verif/MANIFEST.json from the checks that exist in pbt/checks"""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = {
 'C01': 'own expression evaluator as oracle, with an error bound',
 'C02': 'own recogniser of the grammar as oracle, CPU-time limit for termination',
 'C03': 'oracle is the structure the text was rendered from',
 'C04': 'oracle is the injected error; the file without it must be accepted',
 'C05': 'own resolution of the definitions as oracle',
 'C06': 'own expression evaluator as oracle',
 'C07': 'own second-order Taylor arithmetic as oracle',
 'C08': 'oracle is the set computation on the timings written',
 'C09': 'planted models; residual of the linearized equations and stability of the transition',
 'C10': 'metamorphic: labelled results before and after meaning-preserving rewrites',
 'C11': 'planted roots decide the verdict expected',
 'C12': 'residual of every second-order term, with derivatives from own Taylor arithmetic',
 'C13': 'planted steady state; residuals by own evaluator',
 'C14': 'reference recursion from the planted solution',
 'C15': 'reference recursion from an independently solved second-order system',
 'C16': 'reference recursion from the planted solution',
 'C17': 'moments by a vectorized Lyapunov equation on the planted solution',
 'C18': 'per-shock variances of the planted solution',
 'C19': 'own sample statistics of the returned paths',
 'C20': 'period-by-period equations and regime agreement; never-binding differential',
 'C21': 'period-by-period equations and regime agreement; never-binding differentials',
 'C22': 'differential against a model loaded in its final form, after every step of a random history',
 'C23': 'differential of copy, original and regimes against freshly loaded models',
 'C24': 'printed numbers are parsed back and compared with the reported ones',
 'C25': 'lines and titles of the axes are read back',
 'C26': 'metamorphic over spellings and working directories',
 'C27': 'defining identities of each helper',
 'C28': 'a refusal is expected; answers before and after are compared, the acceptable neighbour must be answered to count',
 'C30': 'own reader from left to right stops at the symbol expected; misused names are put at a known place',
 'C29': 'differential of every model of an interleaved history against a model loaded in its final form',
}
have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'pbt', 'checks')) if f.startswith('c') and f.endswith('.py')}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
            evidence_file=f'evidence/{i}.json', technique='property-based testing (Hypothesis): ' + NOTE[i], level='exploration',
            level_note='random structured search with shrinking, no exhaustiveness claimed; trusts the oracle in pbt/ ('
                       + NOTE[i] + ') and numpy/scipy used by it'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, pandas, matplotlib"', checks=checks, not_applicable=na,
               notes='Every check: ./check.sh <ID> [quick|thorough] [--replay FILE]; see DESIGN.md. No hooks are needed in /repo.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
