"""C29: models built from the same material do not influence one another, nor the material"""
import copy, os, tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import edits as E, models as M
from pbt.harness import Part, Violation, Skip, sut


@st.composite
def cases(draw, material):
    c = draw(E.histories(max_ops=8))
    c['material'] = material
    c['how'] = 'code' if material in ('objects', 'exprs') else 'file'
    c['n'] = draw(st.integers(2, 3))
    c['late'] = draw(st.booleans())
    c['order'] = draw(st.integers(0, 5))
    return c


def builder(case, d):
    """() -> a new model from the same material, (() -> whether the material is as it was), (() -> spoil the material)"""
    import pynare
    how = case['material']
    if how == 'objects':
        m = dict(endog=list(d['endog']), stoch=[s[0] for s in d['stoch']], params=dict(d['params']), exprs=list(d['exprs']),
                 determ=[s[0] for s in d['determ']], shocks=E.definitions(d), initial=dict(d['initial']), terminal=dict(d['terminal']), historical=dict(d['historical']),
                 local_params=dict(d['locals']))
        keep = copy.deepcopy(m)

        def spoil():
            m['endog'].append('spoilt'), m['stoch'].append('spoilt2'), m['exprs'].clear()
            for k in m['params']:
                m['params'][k] = 123.
            m['params']['spoilt3'] = 1.
            for k in ('initial', 'terminal', 'historical'):
                for v in m[k]:
                    m[k][v] = 55.
            for k in m['local_params']:
                m['local_params'][k] = 77.
            for k, a in m['shocks'].items():
                if 'values' in a:
                    a['values'].append(99.)
                    a['periods'].clear()
                elif k != 'spoilt2':
                    a['variance'] = 99.
        return (lambda: pynare.Model(**m)), (lambda: m == keep), spoil
    if how == 'exprs':
        # the same parsed equations and the same calibration
        first = E.fresh(d)
        m = dict(endog=list(d['endog']), stoch=[s[0] for s in d['stoch']], params=first.params, exprs=first.exprs,
                 determ=[s[0] for s in d['determ']], shocks=E.definitions(d), initial=dict(d['initial']), terminal=dict(d['terminal']), historical=dict(d['historical']),
                 local_params=dict(d['locals']))
        keep = [dict(first.params), list(first.exprs)]

        def same():
            return dict(first.params) == keep[0] and len(first.exprs) == len(keep[1]) and all(a is b for a, b in zip(first.exprs, keep[1]))

        def spoil():
            for k in list(first.params):
                first.params[k] = 123.
            while len(first.exprs):
                first.exprs.pop()
        return (lambda: pynare.Model(**m)), same, spoil
    tmp = tempfile.mkdtemp(dir=M.env.scratch())
    path = os.path.join(tmp, 'same.mod')
    text = E.file_text(d)
    with open(path, 'w') as f:
        f.write(text)
    if how == 'outline':
        from pynare.parsing import read_model
        out = read_model(text, 'dynare')
        return (lambda: pynare.Model.from_outline(out)), (lambda: True), (lambda: None)

    def spoil():
        with open(path, 'w') as f:
            f.write('var spoilt; model; spoilt = 0.5*spoilt(-1) + 1; end;')
    return (lambda: pynare.Model.from_path(path)), (lambda: open(path).read() == text), spoil


def decide(case):
    d0 = E.start(case)
    d0['exprs_of'] = list(d0['endog'])
    d0['written'] = case['material'] in ('objects', 'exprs')
    make, intact, spoil = builder(case, d0)
    with sut(f'building from the same {case["material"]}\n{E.file_text(d0)}'):
        group = [[make(), copy.deepcopy(d0), ['first']]]
        if not case['late']:
            group += [[make(), copy.deepcopy(d0), [f'number {k}']] for k in range(2, case['n'] + 1)]
    done = 0
    for k, o in enumerate(case['ops']):
        g = group[case['which'][k] % len(group)]
        if o == ['check']:
            E.check(*g, k, 'code')
        else:
            done += bool(E.apply(*g[:2], o, g[2]))
        if case['late'] and len(group) < case['n'] and k % 2:
            with sut(f'building again from the same {case["material"]}, after {g[2]}\n{E.file_text(d0)}'):
                group.append([make(), copy.deepcopy(d0), [f'built after {g[2]} of another']])
    if not intact():
        raise Violation(f'the {case["material"]} a model was built from changed; edits {[g[2] for g in group]}\n{E.file_text(d0)}')
    spoil()
    good = 0
    order = group if case['order'] % 2 else group[::-1]
    for k, g in enumerate(order):
        good += E.check(*g, k + case['order'], 'code')
    return done > 0 and len(group) > 1 and good > 16, f"{[o[0] for o in case['ops']]}{case['which']}{case['endog']}{case['n']}"


PARTS = [
    Part('file', cases('file'), decide, 'two or more models, an effective edit of one of them, most queries have values; distinct by operations', quick=150, thorough=3750),
    Part('objects', cases('objects'), decide, 'two or more models, an effective edit of one of them, most queries have values; distinct by operations', quick=150, thorough=3750),
    Part('exprs', cases('exprs'), decide, 'two or more models, an effective edit of one of them, most queries have values; distinct by operations', quick=120, thorough=3000),
    Part('outline', cases('outline'), decide, 'two or more models, an effective edit of one of them, most queries have values; distinct by operations', quick=120, thorough=3000),
]
