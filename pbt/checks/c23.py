"""C23: copies and regimes are independent of the model they came from"""
import copy
from hypothesis import strategies as st
from pbt import edits as E
from pbt.harness import Part, Violation, Skip, sut


@st.composite
def regimes(draw):
    c = draw(E.histories(max_ops=3))
    n = len(c['endog'])
    one = st.lists(st.tuples(st.integers(0, n - 1), E.equation).map(list), min_size=1, max_size=n)
    c['regimes'] = draw(st.lists(one, min_size=1, max_size=3))
    c['single'] = draw(st.booleans())
    return c


def decide_regimes(case):
    from pynare.regimes import RegimeSwitchingModel
    md, d = E.begin(case)
    log = [f"start ({case['how']})"]
    cut = len(case['ops']) // 2
    for o in case['ops'][:cut]:
        if o != ['check']:
            E.apply(md, d, o, log)
    dicts, descs = [], [copy.deepcopy(d)]
    for reg in case['regimes']:
        e = copy.deepcopy(d)
        dd = {}
        for i, q in reg:
            i %= len(e['exprs'])
            t = E.eq_text(e, e['exprs_of'][i], q, list(e['locals']))
            dd[i] = e['exprs'][i] = t
        dicts.append(dd)
        descs.append(e)
    arg = dicts
    if case['single']:
        arg, descs = dicts[0], descs[:2]
    keep = copy.deepcopy(arg)
    with sut(f'RegimeSwitchingModel(exprs={arg}) of\n{E.file_text(d)}'):
        rs = RegimeSwitchingModel(md, exprs=arg)
        k = len(rs)
        models = [rs[j] for j in range(k)]
    if k != len(descs):
        raise Violation(f'{k} regimes instead of {len(descs)} for {arg}')
    if arg != keep:
        raise Violation('the dictionary of alternative equations was changed')
    log.append(f'regimes {arg}')
    good = 0
    for j, (m, e) in enumerate(zip(models, descs)):
        good += E.check(m, e, log + [f'(regime {j})'], sum(case['which']) + j, 'code')
    # the baseline, and its edits, are not affected; nor are the alternatives by edits of the baseline
    good += E.check(md, descs[0], log + ['(baseline)'], sum(case['which']), 'code')
    d2 = copy.deepcopy(descs[0])
    for o in case['ops'][cut:]:
        if o != ['check']:
            E.apply(md, d2, o, log)
    for j, (m, e) in list(enumerate(zip(models, descs)))[1:]:
        E.check(m, e, log + [f'(regime {j})'], j, 'code')
    # and edits of an alternative leave the others alone
    last, dl = models[-1], copy.deepcopy(descs[-1])
    for o in case['ops'][:cut + 1]:
        if o != ['check'] and o[0] != 'query':
            E.apply(last, dl, o, log + ['(last regime)'])
    E.check(last, dl, log + ['(last regime, edited)'], 0, 'code')
    E.check(md, d2, log + ['(baseline after edits of the last regime)'], 1, 'code')
    differ = any(e['exprs'] != descs[0]['exprs'] for e in descs[1:])
    return differ and good > 16, f"{case['endog']}{arg}{case['how']}"


PARTS = [
    Part('copies', E.histories(copies=True, max_ops=10).filter(lambda c: ['fork'] in c['ops']), E.decide_fork,
         'a history with a copy and edits on either side, compared at the end with models written that way; distinct by operations', quick=400, thorough=7000),
    Part('regimes', regimes(), decide_regimes, 'regimes that differ from the baseline in at least one equation, most queries have values', quick=250, thorough=4500),
]
