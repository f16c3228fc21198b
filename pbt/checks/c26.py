"""C26: model files and bundled examples load from anywhere"""
import contextlib, itertools, os, pathlib, shutil
import numpy as np
from hypothesis import strategies as st
from pbt import env, models as M
from pbt.harness import Part, Violation, Skip, sut

_n = itertools.count()
EXAMPLES = {'simple_rbc': '.mod', 'simple_linear': '.mod', 'optim_ck': '.mod', 'basic_nk': '.mod', 'four_eq_nk': '.txt', 'herbst_schorfheide': '.txt'}
STEMS = ['m', 'model_1', 'RBC', 'my-model', 'a b', 'x1', 'größe', 'basic_nk', 'MODEL', 'end', '_private', '1st']
DIRS = ['d', 'sub dir', 'mods', 'ü', 'x.y', 'deep', '.hidden']
SUFFIX = ['.mod', '.txt', '', '.dyn', '.MOD', '.mod.txt']


@contextlib.contextmanager
def area():
    top = os.path.join(env.scratch(), f'files{next(_n)}')
    os.makedirs(top)
    old = os.getcwd()
    try:
        yield top
    finally:
        os.chdir(old)
        shutil.rmtree(top)


@st.composite
def cases(draw):
    dirs = st.lists(st.sampled_from(DIRS), max_size=3)
    return dict(spec=draw(M.planted(max_n=2, max_exog=1, nonlinear=False)), spec2=draw(M.planted(max_n=3, max_exog=2, nonlinear=False)),
                home=draw(dirs), cwd=draw(dirs), stem=draw(st.sampled_from(STEMS)), suffix=draw(st.sampled_from(SUFFIX)),
                spell=draw(st.sampled_from(['absolute', 'relative', 'dotted', 'link', 'twisted', 'alias'])), kind=draw(st.sampled_from(['str', 'path', 'purepath'])),
                decoy=draw(st.booleans()), pad=draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 70, 300])))


def fingerprint(md):
    with sut('reading the loaded model'):
        n, m = len(md.endog), md.jacobian.array.shape
        return dict(endog=[str(x) for x in md.endog.names], stoch=[str(x) for x in md.stoch.names], params={k: float(v) for k, v in dict(md.params).items()},
                    static=[float(v) for v in np.array(md.steady_repr(np.arange(1., n + 1) / 7), dtype=float)], shape=list(m),
                    initial=[float(v) for v in md.initial], sigma=np.array(md.sigma, dtype=float).tolist())


def decide(case):
    import pynare
    f, g = (M.text(M.build(M.Planted(case[k]))) for k in ('spec', 'spec2'))
    want = fingerprint(M.read(f))
    if case['pad']:            # a long file: comments before the last statement
        i = f.rstrip().rfind(';', 0, len(f.rstrip()) - 1) + 1
        f = f[:i] + ('\n// ' + 'x = 1; ' * 140) * case['pad'] + '\n' + f[i:]
    with area() as top:
        home, cwd = os.path.join(top, *case['home']), os.path.join(top, *case['cwd'])
        os.makedirs(home, exist_ok=True)
        os.makedirs(cwd, exist_ok=True)
        name = case['stem'] + case['suffix']
        full = os.path.join(home, name)
        if case['decoy']:          # files of the same name elsewhere
            for d in {top, cwd, os.path.dirname(home)} - {home, os.path.dirname(top), env.scratch()}:
                if d.startswith(top):
                    with open(os.path.join(d, name), 'w') as fh:
                        fh.write(g)
        with open(full, 'w') as fh:
            fh.write(f)
        os.chdir(cwd)
        rel = os.path.relpath(full, cwd)
        s = {'absolute': full, 'relative': rel, 'dotted': './' + rel, 'link': full, 'twisted': os.path.join(home, '..', os.path.basename(home), name), 'alias': full}[case['spell']]
        if case['spell'] == 'link':
            s = os.path.join(top, 'link_to')
            os.symlink(home, s)
            s = os.path.join(s, name)
        stem = case['stem']
        if case['spell'] == 'alias':      # a link to the file, under another name
            stem = 'other_name'
            s = os.path.join(top, stem + case['suffix'])
            os.symlink(full, s)
        arg = {'str': s, 'path': pathlib.Path(s), 'purepath': pathlib.PurePath(s)}[case['kind']]
        with sut(f'Model.from_path({arg!r}) in {cwd}'):
            md = pynare.Model.from_path(arg)
        got = fingerprint(md)
        if got != want:
            raise Violation(f'from_path({arg!r}) in {cwd}: another model than that of the file\n{got}\n{want}')
        ok = {stem} if '.' not in case['suffix'][1:] else {stem, stem + '.mod'}
        if str(md.name) not in ok:
            raise Violation(f'the model of {name!r} is named {md.name!r}')
        if os.getcwd() != os.path.realpath(cwd):
            raise Violation('loading changed the working directory')
        with open(full) as fh:
            if fh.read() != f:
                raise Violation('loading changed the file')
        # the same file again, after its content changed
        with open(full, 'w') as fh:
            fh.write(g)
        with sut('loading the changed file'):
            md2 = pynare.Model.from_path(arg)
        if fingerprint(md2) != fingerprint(M.read(g)):
            raise Violation('loading a file that changed gives another model than the file')
    far = case['home'] != case['cwd']
    return far or case['spell'] != 'relative', f"{case['home']}{case['cwd']}{case['stem']}{case['suffix']}{case['spell']}{case['kind']}"


# ------------------------------------------------------------------------------------------------- examples
@st.composite
def examples(draw):
    return dict(name=draw(st.sampled_from(sorted(EXAMPLES))), form=draw(st.sampled_from(['bare', 'suffix'])), kind=draw(st.sampled_from(['str', 'path'])),
                cwd=draw(st.one_of(st.just(None), st.lists(st.sampled_from(DIRS), max_size=2))), shadow=draw(st.integers(0, 3)) == 0,
                spec=draw(M.planted(max_n=2, max_exog=1, nonlinear=False)))


def outcome(arg):
    import pynare
    try:
        md = pynare.Model.from_path(arg)
    except (FileNotFoundError, OSError) as e:
        raise Violation(f'from_path({arg!r}) in {os.getcwd()}: {type(e).__name__}: {e}')
    except Exception as e:
        return ('error', type(e).__name__)
    n = len(md.endog)
    return ('model', str(md.name), [str(x) for x in md.endog.names], {k: float(v) for k, v in dict(md.params).items()},
            repr(np.array(md.steady_repr(np.arange(1., n + 1) / 7), dtype=float)), repr(md.sigma))


def decide_example(case):
    import pynare
    home = os.path.join(os.path.dirname(pynare.__file__), 'examples', 'pynare')
    name = case['name'] + (EXAMPLES[case['name']] if case['form'] == 'suffix' else '')
    arg = pathlib.Path(name) if case['kind'] == 'path' else name
    with area() as top, np.errstate(all='ignore'):
        want = outcome(os.path.join(home, case['name'] + EXAMPLES[case['name']]))
        if case['name'] not in ('optim_ck',) and want[0] != 'model':
            raise Violation(f'the bundled example {case["name"]} does not load: {want}')
        cwd = os.path.join(top, *(case['cwd'] or []))
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        if case['shadow']:         # a file of that name in the working directory is the file meant
            f = M.text(M.build(M.Planted(case['spec'])))
            with open(name, 'w') as fh:
                fh.write(f)
            with sut(f'a file with the name {name!r} of an example'):
                got = fingerprint(pynare.Model.from_path(arg))
            if got != fingerprint(M.read(f)):
                raise Violation(f'the file {name!r} in the working directory is not the model loaded')
        else:
            got = outcome(arg)
            if got != want:
                raise Violation(f'example {arg!r} from {cwd} is\n{got}\nbut its file gives\n{want}')
    return True, f"{name}{case['kind']}{case['cwd']}{case['shadow']}"


@st.composite
def missing(draw):
    return dict(dirs=draw(st.lists(st.sampled_from(DIRS), max_size=2)), kind=draw(st.sampled_from(['str', 'path'])), made=draw(st.booleans()),
                name=draw(st.one_of(st.sampled_from(['Basic_NK', 'SIMPLE_RBC', 'nope', 'nope.mod', 'basic', 'simple', 'basic_nk2', 'sub/basic_nk.mod', './x/simple_rbc', 'dynare', 'x.basic_nk', '']),
                                    st.text('abcxyz_.-', min_size=1, max_size=6).filter(lambda s: s.strip('.')))))


def decide_missing(case):
    import pynare
    with area() as top:
        d = os.path.join(top, *case['dirs'])
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        name = case['name'] if case['name'] else 'absent.mod'
        arg = pathlib.Path(name) if case['kind'] == 'path' else name
        try:
            pynare.Model.from_path(arg)
        except FileNotFoundError as e:
            if os.path.basename(name) not in str(e):
                raise Violation(f'the error about the missing file {name!r} does not name it: {e}')
        except Exception as e:
            raise Violation(f'from_path({arg!r}) of a missing file: {type(e).__name__}: {e}')
        else:
            raise Violation(f'from_path({arg!r}) returned a model for a missing file')
    return True, f"{case['name']}{case['kind']}{len(case['dirs'])}"


PARTS = [
    Part('files', cases(), decide, 'a path that is not simply the name of a file in the working directory; distinct by directories, name and spelling', quick=400, thorough=6000),
    Part('examples', examples(), decide_example, 'a registered example name, from another working directory or shadowed by a file there', quick=160, thorough=1500),
    Part('missing', missing(), decide_missing, 'a name that is neither a file nor an example', quick=200, thorough=2000),
]
