"""writes the fixed: lines of /verif/known_findings.txt (development tool; run by hand, never by a check)"""
import os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PROP = {
'the search for a steady state backs off': 'C13', 'a sign binds tighter than': 'C01', 'a single-line comment may end': 'C02', 'a multi-line comment ends': 'C02', 'skip a single-line comment': 'C03',
'an unexpected symbol before': 'C02', 'text after a complete': 'C02', 'partition generalized': 'C09', 'count a static variable': 'C08',
'report the ranks': 'C11', 'state space of models without': 'C09', 'check the Blanchard-Kahn conditions before': 'C11', 'solve models that have no exogenous': 'C09',
'solve models that only have static': 'C09', 'keep the variable axis': 'C09', 'second-order solution for any': 'C12', 'keep refusing a model': 'C11',
'allow for rounding errors': 'C11', 'read model files without a shocks': 'C03', 'historical values': 'C03', 'report undeclared names': 'C04',
'report the name when': 'C04', 'undeclared variables that are assigned': 'C04', 'calibrations own': 'C05', 'parameters of a model file may': 'C05',
'local model variables follow': 'C06', 'boundary values may use': 'C03', 'deterministic shocks': 'C04', 'names of leads and lags cannot': 'C06',
'leads and lags are a whole': 'C08', 'refuse unsupported leads': 'C08', 'models can be built step': 'C22', 'variables can be added': 'C22',
'moments of a new exogenous': 'C22', 'a shock may be correlated': 'C03', 'locate several variables': 'C22', 'initial values default': 'C03',
'number of regimes': 'C23', 'notice changes made': 'C22', 'a failed update': 'C22', 'the solution of a model is dropped': 'C22',
'consecutive function calls': 'C02', 'a declaration cannot begin': 'C02', 'blocks that appear more': 'C03', 'differentiate equations': 'C07',
'derivatives of powers': 'C07', 'simulate the solution that': 'C14', 'reading the shock covariance': 'C22', 'second-order terms of a simulation': 'C15',
'simulate models with one state': 'C14', 'simulate models whose shock': 'C14', 'mean of a model': 'C17', 'number of autocorrelations': 'C17',
'shocks without variance': 'C18', 'name of the shock is checked': 'C18', 'bundled examples': 'C26', 'model files can be given': 'C26',
'policy summaries do not rely': 'C24', 'second-order summary shows': 'C24', 'summary thresholds': 'C24', 'summaries and calibrations': 'C24',
'summary of part of a calibration': 'C24', 'autocorrelations are displayed': 'C24', 'plots of one series': 'C25', 'plots can be arranged': 'C25',
'rectangular plots': 'C25', 'occbin assigns the columns': 'C20', 'occbin linearizes': 'C20', 'occbin accepts': 'C20', 'occbin solutions can start': 'C20',
'the equations of a model can be printed': 'C22', 'a failed occasionally-binding': 'C28', 'variables given as objects': 'C22', 'every appearance of a reserved': 'C30', 'stochastic and deterministic variables can be listed': 'C22', 'definitions of exogenous': 'C23', 'occbin warns': 'C20', 'occbin reports': 'C20',
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.strip().split('\n')
out = ['# fixed: repaired by the named commit in /repo (suppresses nothing); finding: a recorded defect that is left', '']
for line in log:
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        k = [p for p in PROP if s[5:].startswith(p)]
        assert len(k) == 1, (s, k)
        out.append(f'fixed: property={PROP[k[0]]} {h} {s[5:]}')
p = os.path.join(V, 'known_findings.txt')
if os.path.exists(p):
    out += [l.rstrip('\n') for l in open(p) if l.startswith('finding: ')]
open(p, 'w').write('\n'.join(out) + '\n')
