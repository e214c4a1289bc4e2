"""C17: conversion between modular and non-modular microgrids."""
import copy
import pickle
import random

import numpy as np
from hypothesis import strategies as st

from checks.c24 import spec_of
from vlib import gen, nonmod, scen
from vlib.core import Facet, Violation
from vlib.drive import energies, need, need_close, need_same

PROPERTY = 'C17'
QUICK_FACTOR = 2.5
RULE = ('Random non-modular microgrids converted to modular ones, random modular ones (and benchmark scenarios) converted '
        'to non-modular ones, and both converted back; all parameters and series are compared with the specification, '
        'and both forms run side by side with the same feasible control. Non-trivial: at least two steps side by '
        'side with energy from a controllable module.')
ASSUMPTIONS = ['conversion needs a load, a renewable and a genset or grid, at most one of each kind',
               'the two forms count battery cost on different sides of the efficiency, so battery cost is only '
               'compared at efficiency 1; all energies and states are compared at every efficiency',
               'a grid and genset with different carbon prices cannot be represented non-modularly and are not generated',
               'only products of genset rating and fraction are comparable (p_max is not stored by gensets)']


def snapshot_nm(nm):
    return pickle.dumps((nm.parameters, nm.architecture, nm._load_ts, nm._pv_ts,
                         [getattr(nm, a, None) for a in ('_grid_status_ts', '_grid_price_import', '_grid_price_export',
                                                         '_grid_co2')],
                         nm._df_record_state, nm._df_record_control_dict, nm._df_record_actual_production,
                         nm._df_record_cost, nm._df_record_co2, nm.horizon, nm._tracking_timestep, nm.load, nm.pv,
                         nm.done, nm._data_length))


class Unaffected:
    """The global random states stay as they are."""

    def __enter__(self):
        self.np, self.py = np.random.get_state(), random.getstate()

    def __exit__(self, *exc):
        if exc[0] is None:
            now = np.random.get_state()
            need(now[0] == self.np[0] and np.array_equal(now[1], self.np[1]) and now[2:] == self.np[2:] and
                 random.getstate() == self.py, 'the global random state changed')


def series_close(a, b, what):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    need(a.shape == b.shape, '%s: %d values, expected %d', what, len(a), len(b))
    need(np.allclose(a, b, rtol=1e-12, atol=1e-12), '%s differs', what)


def check_modular(mg, s):
    """mg describes the system s (non-modular specification)."""
    from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule,
                                 UnbalancedEnergyModule)
    by = {}
    for mod in mg.modules.iterlist():
        by.setdefault(type(mod), []).append(mod)
    want = [LoadModule, RenewableModule, UnbalancedEnergyModule] + [c for c, k in (
        (BatteryModule, 'battery'), (GensetModule, 'genset'), (GridModule, 'grid')) if s[k]]
    need(set(by) == set(want) and all(len(v) == 1 for v in by.values()), 'modules %r',
         {k.__name__: len(v) for k, v in by.items()})
    load, pv, slack = by[LoadModule][0], by[RenewableModule][0], by[UnbalancedEnergyModule][0]
    series_close(-load.time_series, s['load'], 'load series')
    series_close(pv.time_series, s['pv'], 'renewable series')
    need_close(slack.loss_load_cost, s['llc'], 'loss load cost')
    need_close(slack.overgeneration_cost, s['ogc'], 'overgeneration cost')
    b, g, r = s['battery'], s['genset'], s['grid']
    if b:
        m = by[BatteryModule][0]
        for a, v in (('max_capacity', b['cap']), ('min_capacity', b['cap'] * b['soc_min']), ('max_charge', b['charge']),
                     ('max_discharge', b['discharge']), ('efficiency', b['eff']), ('battery_cost_cycle', b['cost']),
                     ('soc', b['soc'])):
            need_close(getattr(m, a), v, f'battery {a}')
    if g:
        m = by[GensetModule][0]
        for a, v in (('running_min_production', g['rated'] * g['pmin']), ('running_max_production', g['rated'] * g['pmax']),
                     ('genset_cost', g['fuel']), ('co2_per_unit', g['co2']), ('cost_per_unit_co2', s['co2_cost']),
                     ('start_up_time', 0), ('wind_down_time', 0)):
            need_close(getattr(m, a), v, f'genset {a}')
    if r:
        m = by[GridModule][0]
        for a, v in (('max_import', r['imp_max']), ('max_export', r['exp_max']), ('cost_per_unit_co2', s['co2_cost'])):
            need_close(getattr(m, a), v, f'grid {a}')
        need(m.time_series.shape == (s['n'], 4), 'grid series %r', m.time_series.shape)
        for i, k in enumerate(('imp', 'exp', 'co2', 'status')):
            series_close(m.time_series[:, i], r[k], f'grid series {k}')
    for m in [load, pv] + by.get(GridModule, []):
        need(m.forecast_horizon == s['horizon'] - 1, 'forecast horizon %r, non-modular horizon %r', m.forecast_horizon,
             s['horizon'])
    return by


def check_nonmodular(nm, s):
    """nm describes the system s."""
    got = spec_of(nm)
    need(nm.architecture == {'PV': 1, 'battery': int(bool(s['battery'])), 'genset': int(bool(s['genset'])),
                             'grid': int(bool(s['grid']))}, 'architecture %r', nm.architecture)
    for k in ('load', 'pv'):
        series_close(got[k], s[k], k + ' series')
    for k in ('llc', 'ogc', 'co2_cost', 'horizon'):
        need_close(got[k], s[k], k)
    b, g, r = s['battery'], s['genset'], s['grid']
    if b:
        for k in b:
            need_close(got['battery'][k], b[k], 'battery ' + k)
        need_close(nm.battery.soc, b['soc'], 'battery.soc')
    if g:
        for k in ('fuel', 'co2'):
            need_close(got['genset'][k], g[k], 'genset ' + k)
        for k in ('pmin', 'pmax'):
            need_close(got['genset'][k] * got['genset']['rated'], g[k] * g['rated'], 'genset limit ' + k)
    if r:
        for k in ('imp_max', 'exp_max'):
            need_close(got['grid'][k], r[k], 'grid ' + k)
        for k in ('imp', 'exp', 'co2', 'status'):
            series_close(got['grid'][k], r[k], f'grid series {k}')
        weak = nm.parameters['grid_weak'].values[0]
        need(bool(weak) == bool(min(r['status']) < 1), 'grid_weak is %r for a grid whose lowest status is %r', weak,
             min(r['status']))
    need_close(nm.load, s['load'][0], 'current load')
    need_close(nm.pv, s['pv'][0], 'current renewable')


def side_by_side(nm, mg, s, controls, names, what):
    """Run the same feasible control on both forms. Returns the number of steps with controllable energy."""
    active = 0
    b, g, r = s['battery'], s['genset'], s['grid']
    sc = s['scale']
    for k, u in enumerate(controls):
        if nm.done or mg.current_step >= mg.final_step:
            break
        t = mg.current_step
        cn, cm = {}, {}
        if b:
            bm = mg.modules[names['battery']][0]
            soc = bm.soc
            if u[0] >= 0:
                e = u[0] * min(bm.max_production, b['discharge'], max(0.0, (soc - b['soc_min']) * b['cap'] * b['eff']))
                cn.update(battery_charge=0.0, battery_discharge=e)
                cm[names['battery']] = [e]
            else:
                e = -u[0] * min(bm.max_consumption, b['charge'], max(0.0, (b['soc_max'] - soc) * b['cap'] * b['eff']))
                cn.update(battery_charge=e, battery_discharge=0.0)
                cm[names['battery']] = [-e]
        if r:
            on = r['status'][t]
            e = u[1] * on * (r['imp_max'] if u[1] >= 0 else r['exp_max'])
            cn.update(grid_import=max(0.0, e), grid_export=max(0.0, -e))
            cm[names['grid']] = [e]
        if g:
            lo, hi = g['rated'] * g['pmin'], g['rated'] * g['pmax']
            on = u[2] > 0
            e = lo + u[2] * (hi - lo) if on else 0.0
            cn['genset'] = e
            cm[names['genset']] = [np.array([float(on), e])]
        nm.run(cn)
        obs, reward, done, info = mg.run(cm, normalized=False)
        w = f'{what}: step {k}'
        p = {a: v[-1] for a, v in nm._df_record_actual_production.items()}
        tol = max(2.5e-3, 1e-7 * sc)

        def same(x, y, name, factor=1.0):
            need(abs(float(x) - float(y)) <= tol * max(1.0, factor), '%s: %s: modular %r, non-modular %r', w, name,
                 float(x), float(y))
        prov, absd = {}, {}
        for nm_, lst in info.items():
            for i in lst:
                a, c = energies(i)
                prov[nm_] = prov.get(nm_, 0.0) + a
                absd[nm_] = absd.get(nm_, 0.0) + c
        if b:
            same(prov[names['battery']], p['battery_discharge'], 'discharge')
            same(absd[names['battery']], p['battery_charge'], 'charge')
            same(mg.modules[names['battery']][0].soc, nm._df_record_state['battery_soc'][-1], 'state of charge')
        if r:
            same(prov[names['grid']], p['grid_import'], 'import')
            same(absd[names['grid']], p['grid_export'], 'export')
        if g:
            same(prov[names['genset']], p['genset'], 'genset')
        same(prov[names['pv']], p['pv_consummed'], 'renewable used')
        same(prov[names['slack']], p['loss_load'], 'loss load')
        same(absd[names['slack']], p['overgeneration'], 'overgeneration')
        same(absd[names['load']], s['load'][t], 'load')
        if not b or b['eff'] == 1.0:
            same(-reward, nm.get_cost(), 'cost', s['llc'] + s['ogc'])
        else:
            rec = {a: v[-1] for a, v in nm._df_record_cost.items()}
            rest = sum(v for a, v in rec.items() if a not in ('total_cost', 'battery'))
            c = b['cost'] * (p['battery_discharge'] / b['eff'] + p['battery_charge'] * b['eff'])
            same(-reward, rest + c, 'cost', s['llc'] + s['ogc'])
        active += any(p.get(a, 0) > 0 for a in ('battery_discharge', 'battery_charge', 'grid_import', 'grid_export', 'genset'))
        if done:
            break
    return active


NAMES = {'load': 'load', 'pv': 'pv', 'battery': 'battery', 'genset': 'genset', 'grid': 'grid',
         'slack': 'unbalanced_energy'}


def names_by_class(mg):
    out = {}
    kinds = {'LoadModule': 'load', 'RenewableModule': 'pv', 'BatteryModule': 'battery', 'GensetModule': 'genset',
             'GridModule': 'grid', 'UnbalancedEnergyModule': 'slack'}
    for nm, lst in mg.modules.iterdict():
        for m in lst:
            out[kinds[type(m).__name__]] = nm
    return out


def check_to_modular(case, ctx):
    from pymgrid import Microgrid
    s = case['spec']
    nm = nonmod.build(s)
    before = snapshot_nm(nm)
    with Unaffected():
        mg = Microgrid.from_nonmodular(nm) if case['via'] else nm.to_modular()
    need(snapshot_nm(nm) == before, 'conversion changed the non-modular microgrid')
    need(type(mg) is Microgrid, 'converted to %r', type(mg))
    check_modular(mg, s)
    nm2 = mg.to_nonmodular()
    check_nonmodular(nm2, s)
    mg2 = nm2.to_modular()
    check_modular(mg2, s)
    a = side_by_side(nm, mg, s, case['controls'], names_by_class(mg), 'to modular')
    # a conversion of the same microgrid later starts again from its series and its present charge
    if s['battery']:
        b2 = [m for m in nm.to_modular().modules.iterlist() if type(m).__name__ == 'BatteryModule'][0]
        need_close(b2.soc, nm.battery.soc, 'state of charge after running', tol=1e-6)
    side_by_side(nm2, mg2, s, case['controls'], names_by_class(mg2), 'round trip')
    ctx.nontrivial(a > 1)


CTRL = st.lists(st.integers(-100, 100).map(lambda i: i / 100.0), min_size=3, max_size=3)


@st.composite
def nm_cases(draw):
    s = draw(nonmod.spec(soc_max=False))
    if not s['genset'] and not s['grid']:
        s['genset'] = {'rated': s['scale'], 'pmin': 0.05, 'pmax': 0.9, 'fuel': 0.4, 'co2': 2.0}
    return {'spec': s, 'via': draw(st.booleans()), 'controls': draw(st.lists(CTRL, min_size=1, max_size=8))}


def to_spec(spec):
    """Non-modular specification of a modular one."""
    s = {'n': spec['n'], 'scale': spec['scale'], 'llc': spec['llc'], 'ogc': spec['ogc'], 'battery': None, 'genset': None,
         'grid': None, 'co2_cost': None, 'horizon': None}
    for m in spec['modules']:
        k = m['kind']
        if k in ('load', 'pv'):
            s[k] = m['ts']
            s['horizon'] = (m['fc']['h'] if m['fc'] else 0) + 1
        elif k == 'battery':
            soc = m['init_soc'] if m['init_soc'] is not None else m['init_charge'] / m['max_capacity']
            s['battery'] = {'cap': m['max_capacity'], 'soc_min': m['min_capacity'] / m['max_capacity'], 'soc_max': 1.0,
                            'soc': soc, 'charge': m['max_charge'], 'discharge': m['max_discharge'],
                            'eff': m['efficiency'], 'cost': m['cost']}
        elif k == 'genset':
            s['genset'] = {'rated': m['max'] / 0.9, 'pmin': m['min'] / (m['max'] / 0.9), 'pmax': 0.9, 'fuel': m['cost'],
                           'co2': m['co2']}
            s['co2_cost'] = m['co2_cost']
        elif k == 'grid':
            s['grid'] = {'imp_max': m['max_import'], 'exp_max': m['max_export'], 'imp': m['imp'], 'exp': m['exp'],
                         'co2': m['co2'], 'status': m['status'] or [1.0] * spec['n']}
            s['co2_cost'] = m['co2_cost']
    return s


def check_to_nonmodular(case, ctx):
    from pymgrid import NonModularMicrogrid
    spec = case['spec']
    mg = gen.build(spec)
    before = mg.dump(), copy.deepcopy(mg.state_dict()), mg.current_step
    with Unaffected():
        nm = NonModularMicrogrid.from_modular(mg) if case['via'] else mg.to_nonmodular()
    need(mg.dump() == before[0] and mg.current_step == before[2], 'conversion changed the modular microgrid')
    need_same(before[1], mg.state_dict(), 'state of the converted microgrid')
    s = to_spec(spec)
    check_nonmodular(nm, s)
    need_close(nm.parameters['PV_rated_power'].values[0], max(s['pv']), 'rated power of the renewable')
    need_close(nm.parameters['load'].values[0], max(s['load']), 'peak load')
    mg2 = nm.to_modular()
    check_modular(mg2, s)
    a = side_by_side(nm, mg, s, case['controls'], names_by_class(mg), 'to non-modular')
    nm.reset()
    side_by_side(nm, mg2, s, case['controls'], names_by_class(mg2), 'round trip')
    ctx.nontrivial(a > 1)


@st.composite
def mod_cases(draw):
    spec = draw(gen.microgrid_spec(min_n=3, max_n=8, max_loads=1, min_loads=1, max_pv=1, min_pv=1, max_batt=1,
                                   max_genset=1, max_grid=1, min_ctrl=0, forecasts=True, steps=False,
                                   simple_genset=True))
    if not any(m['kind'] in ('genset', 'grid') for m in spec['modules']):
        spec['modules'].append(draw(gen.grid_spec(spec['n'], spec['scale'], spec['modules'][0].get('fc'))))
    fc = draw(st.one_of(st.none(), st.integers(1, 5).map(lambda h: {'kind': 'oracle', 'h': h})))
    cc = draw(st.sampled_from([0.0, 0.1, 2.0]))
    for m in spec['modules']:
        if 'fc' in m:
            m['fc'] = fc
        if 'co2_cost' in m:
            m['co2_cost'] = cc
        if m['kind'] == 'genset':
            m['init_up'] = True
    if draw(st.integers(0, 5)) == 0:  # longer series with a single outage
        spec['n'] *= 5
        for m in spec['modules']:
            for k in ('ts', 'imp', 'exp', 'co2', 'status'):
                if isinstance(m.get(k), list):
                    m[k] = m[k] * 5
            if m['kind'] == 'grid' and m.get('status') is not None:
                m['status'] = [1] * spec['n']
                m['status'][draw(st.integers(0, spec['n'] - 1))] = 0
    return {'spec': spec, 'via': draw(st.booleans()), 'controls': draw(st.lists(CTRL, min_size=1, max_size=8))}


def check_refuse(case, ctx):
    """Systems the non-modular form cannot express are refused, not silently truncated."""
    spec = case['spec']
    mg = gen.build(spec)
    kinds = [m['kind'] for m in spec['modules']]
    bad = 'load' not in kinds or any(kinds.count(k) > 1 for k in kinds)
    if not bad:
        return
    try:
        mg.to_nonmodular()
    except ValueError:
        pass
    else:
        raise Violation(f'a microgrid with modules {kinds} was converted')
    ctx.nontrivial(True)


def refuse_cases():
    return gen.microgrid_spec(min_n=3, max_n=5, max_ctrl=4, steps=False).map(lambda s: {'spec': s})


def check_scenario(case, ctx):
    mg = scen.fresh(case['scenario'])
    with Unaffected():
        nm = mg.to_nonmodular()
    s = spec_of(nm)
    names = names_by_class(mg)
    m = mg.modules
    series_close(s['load'], -m[names['load']][0].time_series, 'load series')
    series_close(s['pv'], m[names['pv']][0].time_series, 'renewable series')
    for k in ('battery', 'genset', 'grid'):
        need(bool(s[k]) == (k in names), 'converted %s: %r', k, bool(s[k]))
    # the modular microgrid is described by what its conversion says
    back = nm.to_modular()
    check_modular(back, s)
    check_modular(mg, s)
    a = side_by_side(nm, mg, s, case['controls'], names, f'scenario {case["scenario"]}')
    ctx.nontrivial(a > 1)


@st.composite
def scen_cases(draw):
    return {'scenario': draw(st.integers(0, 24)), 'controls': draw(st.lists(CTRL, min_size=2, max_size=10))}


FACETS = [
    Facet('to_modular', nm_cases, check_to_modular, 600),
    Facet('to_nonmodular', mod_cases, check_to_nonmodular, 600),
    Facet('refuse', refuse_cases, check_refuse, 300),
    Facet('scenario', scen_cases, check_scenario, 40),
]
