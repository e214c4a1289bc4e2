"""C18: the microgrid generator."""
import functools
import glob
import math
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c17 import check_modular
from checks.c24 import CONTROL, Model, control_of, spec_of
from vlib import scen
from vlib.core import Facet, Violation
from vlib.drive import energies, need, need_close, need_same

PROPERTY = 'C18'
QUICK_FACTOR = 2
RULE = ('Random seeds and numbers of microgrids; each is generated twice (and in both forms) and compared, every '
        'parameter is compared with the documented sizing rules and the data files, and the microgrids are run at the '
        'start, inside and at the end of the year. Non-trivial: every generated set (architectures are labelled).')
ASSUMPTIONS = []


@functools.lru_cache(maxsize=None)
def sources(kind):
    import pymgrid
    d = os.path.join(os.path.dirname(pymgrid.__file__), 'data', kind)
    return {os.path.basename(f): pd.read_csv(f).values[:, 0].astype(float) for f in sorted(glob.glob(d + '/*.csv'))}


def generate(seed, n, modular, **kw):
    from pymgrid import MicrogridGenerator
    g = MicrogridGenerator(nb_microgrid=n, random_seed=seed, **kw)
    out = g.generate_microgrid(modular=modular)
    need(out is g and len(g.microgrids) == n, 'asked for %d microgrids, got %d', n, len(g.microgrids))
    return g.microgrids


def scaled_copy_of(series, kind, what):
    series = np.asarray(series, dtype=float)
    for name, src in sources(kind).items():
        if src.shape == series.shape and np.allclose(series * src.max(), src * series.max(), rtol=1e-9, atol=1e-9):
            return name
    raise Violation(f'{what} is not a scaled copy of a data file')


def check_valid(nm, what):
    s = spec_of(nm)
    p = {k: v.item() for k, v in nm.parameters.items()}
    need(s['n'] == 8760 and len(s['pv']) == 8760, '%s: series of %d and %d steps', what, s['n'], len(s['pv']))
    for k in ('load', 'pv'):
        need(np.isfinite(s[k]).all() and (s[k] >= 0).all(), '%s: %s series has bad values', what, k)
        scaled_copy_of(s[k], k, f'{what}: {k} series')
    peak = s['load'].max()
    need_close(peak, p['load'], f'{what}: peak load', peak)
    need(100 <= p['load'] <= 100000, '%s: peak load %r', what, p['load'])
    ratio = s['pv'].max() / peak
    need(0.3 - 1e-9 <= ratio <= 1.5 + 1e-9, '%s: renewable peak is %r of the peak load', what, ratio)
    need(abs(p['PV_rated_power'] - s['pv'].max()) <= 0.0051, '%s: rated renewable power %r', what, p['PV_rated_power'])
    b = s['battery']
    need(b is not None, '%s: no battery', what)
    hours = b['cap'] / s['load'].mean()
    need(any(b['cap'] == math.ceil(h * s['load'].mean() - 1e-9) or abs(b['cap'] - h * s['load'].mean()) <= 1
             for h in (3, 4, 5)), '%s: battery of %r hours', what, hours)
    need(b['soc_min'] == 0.2 and b['soc_max'] == 1 and b['eff'] == 0.9 and b['cost'] == 0.02, '%s: battery %r', what, b)
    need(b['soc_min'] <= b['soc'] <= b['soc_max'], '%s: initial state of charge %r', what, b['soc'])
    for k in ('charge', 'discharge'):
        need(b[k] == math.ceil(b['cap'] / 4), '%s: battery %s power %r, capacity %r', what, k, b[k], b['cap'])
    need(s['genset'] or s['grid'], '%s: neither grid nor genset', what)
    g, r = s['genset'], s['grid']
    if g:
        need(peak <= g['rated'] * g['pmax'] + 1e-6 and (g['rated'] - 1) * 0.9 < peak + 1e-6,
             '%s: genset of %r for a peak load of %r', what, g, peak)
        need(g['pmin'] == 0.05 and g['pmax'] == 0.9 and g['fuel'] == 0.4 and g['co2'] == 2, '%s: genset %r', what, g)
    if r:
        need(len(r['status']) == 8760 and set(np.unique(r['status'])) <= {0.0, 1.0}, '%s: grid status', what)
        need(p['grid_weak'] in (0, 1), '%s: grid_weak %r', what, p['grid_weak'])
        if p['grid_weak']:
            need(g is not None, '%s: weak grid without genset', what)
        else:
            need((r['status'] == 1).all(), '%s: a grid that is not weak has outages', what)
        need(peak <= r['imp_max'] + 1e-6 and r['imp_max'] == r['exp_max'] and abs(r['imp_max'] - 2 * peak) <= 1,
             '%s: grid of %r / %r for a peak of %r', what, r['imp_max'], r['exp_max'], peak)
        h = np.arange(8760) % 24
        a6 = np.where((h >= 12) & (h < 18), 0.59, np.where((h < 8) | (h >= 21), 0.22, 0.29))
        fr = np.where((h < 5) | ((h >= 14) & (h < 17)), 0.08, 0.11)
        need(np.array_equal(r['imp'], a6) or np.array_equal(r['imp'], fr), '%s: unknown import tariff', what)
        need((np.asarray(r['exp']) == 0).all(), '%s: export is paid', what)
        need(any(np.array_equal(r['co2'], c) for c in sources('co2').values()), '%s: unknown grid emissions', what)
    need(s['llc'] == 10 and s['ogc'] == 1 and s['co2_cost'] == 0.1, '%s: costs', what)
    need(nm.architecture['PV'] == 1, '%s: architecture', what)
    return s


def snapshot(nm):
    s = spec_of(nm)
    st0 = {k: v[0] for k, v in nm._df_record_state.items()}
    return {**{k: s[k] for k in s}, 'status': st0, 'arch': dict(nm.architecture),
            'params': {k: v.item() for k, v in nm.parameters.items()}}


def check_generate(case, ctx):
    n, seed = case['n'], case['seed']
    a = generate(seed, n, False)
    np.random.seed(case['noise'])
    np.random.rand(case['noise'] % 7)
    b = generate(seed, n, False)
    c = generate(seed, n, True)
    d = generate(seed, n, True)
    other = 0
    for i in range(n):
        what = f'seed {seed}, microgrid {i}'
        s = check_valid(a[i], what)
        need_same(snapshot(a[i]), snapshot(b[i]), f'{what}: generated again')
        check_modular(c[i], dict(s, horizon=a[i].horizon))
        need_same(c[i].state_dict(), d[i].state_dict(), f'{what}: modular form generated again')
        ctx.label('grid', bool(s['grid']))
        ctx.label('genset', bool(s['genset']))
        ctx.label('weak', bool(s['grid']) and min(s['grid']['status']) < 1)
        # in both forms, microgrids run
        m = Model(s, a[i])
        for u in case['controls']:
            m.step(control_of(s, u))
    for i in range(n):
        for j in range(i):
            other += not np.array_equal(a[i]._load_ts.values, a[j]._load_ts.values)
            need(a[i]._load_ts is not a[j]._load_ts, 'microgrids share series')
    need(n < 4 or other > 0, 'seed %d: all microgrids have the same load', seed)
    ctx.nontrivial(True)


@st.composite
def gen_cases(draw):
    return {'seed': draw(st.integers(0, 2 ** 31)), 'n': draw(st.integers(1, 4)), 'noise': draw(st.integers(0, 10 ** 6)),
            'controls': draw(st.lists(CONTROL, min_size=1, max_size=3))}


def check_directory(case, ctx):
    """The data directory may be elsewhere, and list its files in any order (tmpfs: by creation)."""
    import pymgrid
    data = os.path.join(os.path.dirname(pymgrid.__file__), 'data')
    base = tempfile.mkdtemp(prefix='verif_c18_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        out = []
        for i in range(2):
            rs = random.Random(case['order'] + i)
            for kind in ('load', 'pv', 'co2'):
                d = os.path.join(base, str(i), 'data', kind)
                os.makedirs(d)
                files = sorted(glob.glob(os.path.join(data, kind, '*.csv')))
                rs.shuffle(files)
                for f in files:
                    os.symlink(f, os.path.join(d, os.path.basename(f)))
            out.append(generate(case['seed'], case['n'], False, path=os.path.join(base, str(i))))
        for i, (a, b) in enumerate(zip(*out)):
            check_valid(a, f'microgrid {i}')
            need_same(snapshot(a), snapshot(b), f'seed {case["seed"]}, microgrid {i}: files listed in another order')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ctx.nontrivial(True)


@st.composite
def dir_cases(draw):
    return {'seed': draw(st.integers(0, 2 ** 31)), 'n': draw(st.integers(1, 3)), 'order': draw(st.integers(0, 999))}


def names(mg):
    out = {}
    for nm, lst in mg.modules.iterdict():
        out[{'LoadModule': 'load', 'RenewableModule': 'pv', 'BatteryModule': 'battery', 'GensetModule': 'genset',
             'GridModule': 'grid', 'UnbalancedEnergyModule': 'slack'}[type(lst[0]).__name__]] = nm
    return out


def check_run(case, ctx):
    mg = generate(case['seed'], 1, True)[0]
    final = mg.final_step
    need(mg.initial_step == 0 and final == 8760, 'steps %r to %r', mg.initial_step, final)
    for start in (0, case['start'], final - len(case['actions'])):
        mg.initial_step = start
        mg.reset()
        for k, u in enumerate(case['actions']):
            obs, reward, done, info = mg.run(scen.control(mg, u), normalized=False)
            tot = [0.0, 0.0]
            for lst in info.values():
                for i in lst:
                    e = energies(i)
                    tot[0] += e[0]
                    tot[1] += e[1]
            need(np.isfinite(reward), 'reward %r', reward)
            need_close(tot[0], tot[1], f'step {start + k}: energy balance', max(tot), 1e-9)
            soc = mg.modules['battery'][0].soc
            need(0.2 - 1e-9 <= soc <= 1 + 1e-9, 'state of charge %r', soc)
            need(bool(done) == (start + k + 1 == final), 'done %r after step %d of %d', done, start + k, final)
    ctx.nontrivial(len(case['actions']) > 1)


@st.composite
def run_cases(draw):
    acts = draw(st.lists(st.tuples(*[st.integers(-120, 120).map(lambda i: i / 100.0)] * 3, st.sampled_from([0, 1]))
                         .map(list), min_size=1, max_size=12))
    return {'seed': draw(st.integers(0, 2 ** 31)), 'start': draw(st.integers(0, 8700)), 'actions': acts}


FACETS = [
    Facet('generate', gen_cases, check_generate, 200),
    Facet('directory', dir_cases, check_directory, 40),
    Facet('run', run_cases, check_run, 120),
]
