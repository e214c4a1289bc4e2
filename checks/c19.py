"""C19: the pymgrid25 benchmark scenarios."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import scen, scenref
from vlib.core import Facet, Violation
from vlib.drive import energies, need, need_close, need_same

PROPERTY = 'C19'
QUICK_FACTOR = 2
RULE = ('Scenarios are loaded in random orders, run and tampered with in between, from different directories and by '
        'different entry points; each load is compared with the scenario files read without pymgrid and with committed '
        'reference parameters and digests. Windows of the year are run with random controls against a '
        'reference simulation built from the files. Non-trivial: at least two loads, or two steps.')
ASSUMPTIONS = ['data/scenarios.json holds the parameters and digests of the 25 scenarios as published']

SKIP = {'battery_transition_model', 'forecaster', 'forecaster_increase_uncertainty', 'forecaster_relative_noise',
        'init_charge', 'init_soc', 'init_start_up', 'provided_energy_name', 'raise_errors', 'absorbed_energy_name'}


def check_files(n):
    need_same(scenref.reference()[n], scenref.summary(n), f'files of scenario {n}')


def check_loaded(mg, n, what):
    ref = scenref.read(n)
    got = [(nm, j, m) for nm, lst in mg.modules.iterdict() for j, m in enumerate(lst)]
    need(sorted(nm for nm, j, m in got) == sorted(m['name'] for m in ref['modules']), '%s: modules %r', what,
         [nm for nm, _, _ in got])
    need(mg.initial_step == ref['initial_step'] and mg.final_step == ref['final_step'] and mg.current_step == 0 and
         mg.trajectory_func is None and mg.reward_shaping_func is None, '%s: steps or functions', what)
    for r in ref['modules']:
        m = mg.modules[r['name']][0]
        w = f'{what}: {r["name"]}'
        need(type(m).yaml_tag.lstrip('!') == r['class'], '%s is a %s', w, type(m).__name__)
        for k, v in r['params'].items():
            if k in SKIP:
                continue
            need_same(v, getattr(m, k), f'{w}: {k}')
        need(bool(m.raise_errors) == bool(r['params'].get('raise_errors')), '%s: raise_errors', w)
        if r['class'] == 'BatteryModule':
            need_close(m.soc, r['params']['init_soc'], f'{w}: soc')
            need_close(m.current_charge, r['params']['init_soc'] * r['params']['max_capacity'], f'{w}: charge')
        if r['class'] == 'Genset':
            need(bool(m.current_status) == bool(r['params']['init_start_up']), '%s: status', w)
        if r['ts'] is not None:
            need(m.time_series.shape == r['ts'].shape, '%s: series of shape %r', w, m.time_series.shape)
            ts = m.time_series
            ok = np.allclose(np.abs(ts), np.abs(r['ts']), rtol=1e-12, atol=0) if r['class'] == 'LoadModule' else \
                np.allclose(ts, r['ts'], rtol=1e-12, atol=0)
            need(ok and np.isfinite(ts).all(), '%s: series differs from the file', w)
        need(len(m.log) == 0, '%s: log is not empty', w)


def check_load(case, ctx):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    cls = {'m': Microgrid, 'd': DiscreteMicrogridEnv, 'c': ContinuousMicrogridEnv}
    cwd = os.getcwd()
    live = []
    with tempfile.TemporaryDirectory(prefix='vp_c19_') as d:
        try:
            for n, kind, where, spoil in case['loads']:
                check_files(n)
                os.chdir(d if where else cwd)
                mg = cls[kind].from_scenario(n)
                need(type(mg) is cls[kind], 'loaded as %r', type(mg))
                check_loaded(mg, n, f'scenario {n}')
                for m0, n0, before in live:
                    need_same(before, m0.state_dict(), f'scenario {n0} after loading {n}')
                if spoil == 'run':
                    for k in range(3):
                        Microgrid.run(mg, scen.control(mg, [0.5, -0.3, 0.7, 1]), normalized=False)
                elif spoil == 'tamper':
                    for m in mg.modules.iterlist():
                        if hasattr(m, 'time_series'):
                            m.time_series[:] = 1.0
                        if hasattr(m, 'max_capacity'):
                            m.max_capacity = 1.0
                live.append((mg, n, mg.state_dict()))
        finally:
            os.chdir(cwd)
    ctx.nontrivial(len(case['loads']) > 1)


@st.composite
def load_cases(draw):
    k = draw(st.integers(1, 4))
    first = draw(st.integers(0, 24))
    loads = []
    for i in range(k):
        n = draw(st.sampled_from([first, draw(st.integers(0, 24))]))
        loads.append([n, draw(st.sampled_from('mmdc')), draw(st.booleans()),
                      draw(st.sampled_from(['none', 'run', 'tamper']))])
    return {'loads': loads}


def check_run(case, ctx):
    n, start = case['scenario'], case['start']
    ref = {m['name']: m for m in scenref.read(n)['modules']}
    final = scenref.read(n)['final_step']
    start = min(start, final - 1)
    mg = scen.scenario_at(n, start)
    if 'battery' in ref and case['soc'] is not None:
        b = mg.modules['battery'][0]
        b.soc = b.min_soc + case['soc'] * (1 - b.min_soc)
    charge = float(mg.modules['battery'][0].current_charge)
    bp = ref['battery']['params']
    up = ref['unbalanced_energy']['params']
    steps = 0
    for k, u in enumerate(case['actions']):
        t = start + k
        if t >= final:
            break
        control = scen.control(mg, u)
        want = {}
        load, pv = abs(ref['load']['ts'][t, 0]), ref['pv']['ts'][t, 0]
        cost = 0.0
        eff = bp['efficiency']
        e = control['battery'][0]
        hi = min(bp['max_discharge'], charge - bp['min_capacity']) * eff
        lo = -min(bp['max_charge'], bp['max_capacity'] - charge) / eff
        e = min(max(e, lo), hi)
        inner = e / eff if e > 0 else e * eff
        charge -= inner
        cost += bp['battery_cost_cycle'] * abs(inner)
        want['battery'] = e
        net = load - e
        if 'grid' in ref:
            p = ref['grid']['params']
            imp, exp, co2, on = ref['grid']['ts'][t]
            e = min(max(control['grid'][0], -p['max_export'] * on), p['max_import'] * on)
            cost += e * imp + co2 * e * p['cost_per_unit_co2'] if e > 0 else e * exp
            want['grid'] = e
            net -= e
        if 'genset' in ref:
            p = ref['genset']['params']
            on, e = control['genset'][0]
            e = min(max(e, p['running_min_production']), p['running_max_production']) if on else 0.0
            cost += e * (p['genset_cost'] + p['co2_per_unit'] * p['cost_per_unit_co2'])
            want['genset'] = e
            net -= e
        want['load'] = -load
        want['pv'] = min(max(net, 0.0), pv)
        loss, over = max(0.0, net - pv), max(0.0, -net)
        want['unbalanced_energy'] = loss - over
        cost += loss * up['loss_load_cost'] + over * up['overgeneration_cost']
        obs, reward, done, info = mg.run(control, normalized=False)
        w = f'scenario {n}, step {t}'
        sc = load + pv + bp['max_capacity']
        for nm in want:
            a, c = energies(info[nm][0])
            need_close(a - c, want[nm], f'{w}: energy of {nm}', sc)
        need_close(reward, -cost, f'{w}: reward', sc * 10)
        need(np.isfinite(reward), '%s: reward %r', w, reward)
        need_close(mg.modules['battery'][0].current_charge, charge, f'{w}: charge', sc)
        need(bool(done) == (t + 1 == final), '%s: done %r, last step is %d', w, done, final)
        need(mg.current_step == t + 1, '%s: clock %r', w, mg.current_step)
        steps += 1
    ctx.nontrivial(steps > 1)
    ctx.label('last step', start + steps == final)
    ctx.label('outage', 'grid' in ref and (ref['grid']['ts'][start:start + steps, 3] == 0).any())


@st.composite
def run_cases(draw):
    c = draw(scen.window(10))
    c['soc'] = draw(st.one_of(st.none(), st.integers(0, 100).map(lambda i: i / 100.0)))
    weak = outage_starts().get(c['scenario'])
    if weak and draw(st.booleans()):
        c['start'] = int(draw(st.sampled_from(weak)))
    elif draw(st.integers(0, 9)) == 0:
        c['start'] = 8759 - draw(st.integers(1, 8))
    return c


_OUT = {}


def outage_starts():
    """{scenario: some steps just before an outage}"""
    if not _OUT:
        for n in range(25):
            for m in scenref.read(n)['modules']:
                if m['class'] == 'GridModule':
                    off = np.flatnonzero(m['ts'][:, 3] == 0)
                    if len(off):
                        _OUT[n] = [max(0, int(x) - 2) for x in off[::max(1, len(off) // 40)] if x < 8755]
        _OUT.setdefault(None, None)
    return _OUT


def check_refuse(case, ctx):
    from pymgrid import Microgrid
    try:
        mg = Microgrid.from_scenario(case['n'])
    except Exception:                               # any exception is a refusal
        pass
    else:
        raise Violation(f'scenario {case["n"]!r} was loaded: {mg!r}')
    ctx.nontrivial(True)


def refuse_cases():
    return st.one_of(st.integers(25, 10 ** 6), st.integers(-10 ** 6, -1), st.sampled_from([0.5, 'a', '', 24.5, -1, 25]),
                     ).map(lambda n: {'n': n})


def check_all(case, ctx):
    from pymgrid import MicrogridGenerator
    g = MicrogridGenerator.load('pymgrid25')
    need(len(g.microgrids) == 25, '%d microgrids', len(g.microgrids))
    for n, mg in enumerate(g.microgrids):
        check_loaded(mg, n, f'generator: scenario {n}')
    ctx.nontrivial(True)


def all_cases():
    return st.just({'all': True})


FACETS = [
    Facet('load', load_cases, check_load, 150),
    Facet('run', run_cases, check_run, 800),
    Facet('refuse', refuse_cases, check_refuse, 60),
    Facet('all', all_cases, check_all, 2),
]
