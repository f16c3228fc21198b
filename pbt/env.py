"""interpreter set-up shared by every check: which pynare is under test, where Hypothesis comes from"""
import os, sys, tempfile, atexit, shutil, warnings

REPO = os.environ.get('PBT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
HYPO = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

_scratch = None


def scratch():
    """a directory of this process' own, removed at exit"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='pbt-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def setup():
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch(), 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    sys.dont_write_bytecode = True
    sys.path[:] = [REPO] + [p for p in sys.path if p not in ('', REPO)]
    if HYPO not in sys.path:
        sys.path.append(HYPO)          # last: numpy, scipy ... come from /opt/venv
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import pynare
    f = os.path.realpath(pynare.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'pynare imported from {f}, not {REPO}')
