"""reading what a model reports, by variable name"""
from __future__ import annotations
import numpy as np
from pbt.harness import Violation, sut
from pbt import expr as X
from pbt import gen as G


def names(va):
    return [str(x) for x in va.names]


def columns(f, reported=None):
    """dynamic columns in the order the property states: [(name, period)], then shocks"""
    occ = set()
    for l, r in f['eqs']:
        X.timed(l, occ)
        if r is not None:
            X.timed(r, occ)
    cols = [(v, -1) for v in f['endog'] if (v, -1) in occ] + [(v, 0) for v in f['endog']] \
        + [(v, 1) for v in f['endog'] if (v, 1) in occ]
    return cols, list(f['exog'])


def residual(f, scope, static=False):
    """(value, error) of left minus right of every equation"""
    out = []
    sc = {**G.scope_of(f), **scope}
    for l, r in f['eqs']:
        a, ea = X.value(l, sc)
        b, eb = X.value(r, sc) if r is not None else (0., 0.)
        out.append((a - b, ea + eb + 3e-16 * (abs(a) + abs(b))))
    return out


def close(got, want, err=0., rel=1e-11):
    try:
        g = float(got)
    except Exception:
        return False
    return abs(g - want) <= 16 * err + rel * (1 + abs(want))
