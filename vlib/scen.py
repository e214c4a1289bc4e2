"""Windows of the pymgrid25 benchmark scenarios."""
import copy
import functools

import numpy as np
from hypothesis import strategies as st


@functools.lru_cache(maxsize=None)
def _loaded(n):
    from pymgrid import Microgrid
    return Microgrid.from_scenario(n)


def fresh(n):
    """A private copy of a freshly loaded scenario."""
    return copy.deepcopy(_loaded(n))


def scenario_at(n, start, length=None):
    mg = fresh(n)
    mg.initial_step = start
    if length is not None:
        mg.final_step = start + length
    mg.reset()
    return mg


@st.composite
def window(draw, max_len=12):
    n = draw(st.integers(0, 24))
    start = draw(st.one_of(st.integers(0, 8700), st.sampled_from([0, 8758, 8750, 24 * 31])))
    ns = draw(st.integers(1, max_len))
    acts = [[draw(st.integers(-120, 120)) / 100.0 for _ in range(3)] + [draw(st.sampled_from([0, 1]))]
            for _ in range(ns)]
    return {'scenario': n, 'start': start, 'actions': acts}


def control(mg, u):
    """u = [battery, grid, genset, genset status], fractions of the ratings."""
    c = {}
    if 'battery' in mg.modules.names():
        b = mg.modules['battery'][0]
        c['battery'] = [u[0] * max(b.max_charge, b.max_discharge)]
    if 'grid' in mg.modules.names():
        g = mg.modules['grid'][0]
        c['grid'] = [u[1] * max(g.max_import, g.max_export)]
    if 'genset' in mg.modules.names():
        g = mg.modules['genset'][0]
        c['genset'] = [np.array([u[3], abs(u[2]) * g.running_max_production])]
    return c
