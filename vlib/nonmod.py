"""Non-modular (legacy) microgrids: specifications, builders, and a reference simulation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen


@st.composite
def spec(draw, min_n=3, max_n=8, unit_eff=None, max_horizon=6, soc_max=True):
    n = draw(st.integers(min_n, max_n))
    scale = draw(st.sampled_from([10.0, 10.0, 100.0, 1000.0]))
    s = {'n': n, 'scale': scale, 'load': draw(gen.series(n, scale)), 'pv': draw(gen.series(n, scale)),
         'llc': draw(st.sampled_from([10.0, 0.0, 1.5, 100.0])), 'ogc': draw(st.sampled_from([1.0, 0.0, 0.5, 20.0])),
         'co2_cost': draw(st.sampled_from([0.1, 0.0, 2.0])), 'horizon': draw(st.integers(1, max_horizon)),
         'battery': None, 'genset': None, 'grid': None}
    arch = draw(st.integers(1, 7))
    if arch & 1:
        cap = draw(gen.pos(0.2 * scale, 4 * scale))
        lo = draw(st.sampled_from([0.0, 0.2, 0.5]))
        hi = draw(st.sampled_from([1.0, 1.0, 0.9])) if soc_max else 1.0
        s['battery'] = {'cap': cap, 'soc_min': lo, 'soc_max': hi, 'soc': min(hi, lo + draw(gen.LEVEL) * (hi - lo)),
                        'charge': draw(gen.pos(0.05 * cap, 1.2 * cap)),
                        'discharge': draw(gen.pos(0.05 * cap, 1.2 * cap)),
                        'eff': draw(st.sampled_from([1.0, 0.9, 0.7, 0.5])) if unit_eff is None else unit_eff,
                        'cost': draw(st.sampled_from([0.02, 0.0, 1.0]))}
    if arch & 2 or not arch & 4:
        s['genset'] = {'rated': draw(gen.pos(0.2 * scale, 2 * scale)), 'pmin': draw(st.sampled_from([0.0, 0.05, 0.3])),
                       'pmax': draw(st.sampled_from([0.9, 1.0, 0.5])), 'fuel': draw(st.sampled_from([0.4, 0.0, 3.0])),
                       'co2': draw(st.sampled_from([2.0, 0.0, 0.3]))}
    if arch & 4:
        s['grid'] = {'imp_max': draw(gen.qty(2 * scale)), 'exp_max': draw(gen.qty(2 * scale)),
                     'imp': draw(gen.series(n, 1.0)), 'exp': draw(gen.series(n, 0.5)), 'co2': draw(gen.series(n, 1.0)),
                     'status': draw(st.one_of(st.just([1.0] * n), st.lists(st.sampled_from([1.0, 1.0, 0.0]),
                                                                           min_size=n, max_size=n)))}
    return s


def build(s):
    from pymgrid import NonModularMicrogrid
    p = {'load': max(s['load']), 'cost_loss_load': s['llc'], 'cost_overgeneration': s['ogc'], 'cost_co2': s['co2_cost'],
         'PV_rated_power': max(s['pv'])}
    status = {'load': s['load'][0], 'hour': 0, 'pv': s['pv'][0]}
    prod = ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed']
    act = ['load', 'pv_consummed', 'pv_curtailed', 'pv']
    cost = ['loss_load', 'overgeneration', 'co2']
    b, g, r = s['battery'], s['genset'], s['grid']
    params = {'grid_ts': [], 'grid_price_import': [], 'grid_price_export': [], 'grid_co2': [], 'grid_spec': 0}
    if b:
        p.update(battery_soc_0=b['soc'], battery_power_charge=b['charge'], battery_power_discharge=b['discharge'],
                 battery_capacity=b['cap'], battery_efficiency=b['eff'], battery_soc_min=b['soc_min'],
                 battery_soc_max=b['soc_max'], battery_cost_cycle=b['cost'])
        status.update(battery_soc=b['soc'], capa_to_charge=max((b['soc_max'] - b['soc']) * b['cap'] * b['eff'], 0),
                      capa_to_discharge=max((b['soc'] - b['soc_min']) * b['cap'] * b['eff'], 0))
        prod += ['battery_charge', 'battery_discharge']
        act += ['battery_charge', 'battery_discharge']
        cost += ['battery']
    if r:
        p.update(grid_weak=int(min(r['status']) < 1), grid_power_import=r['imp_max'], grid_power_export=r['exp_max'])
        status.update(grid_status=r['status'][0], grid_co2=r['co2'][0], grid_price_import=r['imp'][0],
                      grid_price_export=r['exp'][0])
        prod += ['grid_import', 'grid_export']
        act += ['grid_import', 'grid_export']
        cost += ['grid_import', 'grid_export']
        params.update(grid_ts=pd.DataFrame({'grid_status': r['status']}), grid_price_import=pd.DataFrame(r['imp']),
                      grid_price_export=pd.DataFrame(r['exp']), grid_co2=pd.DataFrame(r['co2']))
    if g:
        p.update(genset_polynom_order=3, genset_polynom_0=1.0, genset_polynom_1=0.5, genset_polynom_2=0.01,
                 genset_rated_power=g['rated'], genset_pmin=g['pmin'], genset_pmax=g['pmax'], fuel_cost=g['fuel'],
                 genset_co2=g['co2'])
        prod += ['genset']
        act += ['genset']
        cost += ['genset']
    params.update(parameters=pd.DataFrame({k: [v] for k, v in p.items()}), df_actions={k: [] for k in act},
                  architecture={'PV': 1, 'battery': int(bool(b)), 'genset': int(bool(g)), 'grid': int(bool(r))},
                  df_status={k: [v] for k, v in status.items()}, df_actual_generation={k: [] for k in prod},
                  df_cost={k: [] for k in cost + ['total_cost']}, df_co2={'co2': []},
                  pv=pd.DataFrame(s['pv']), load=pd.DataFrame(s['load']), control_dict=act)
    return NonModularMicrogrid(params, horizon=s['horizon'])


def clip(x, lo, hi):
    return min(max(x, lo), hi)


def expected(s, t, soc, control, series=None):
    """(productions, costs, co2, new soc) of one step; ``genset`` below the minimum and at most 1 is kept as it is.

    Productions of the renewable and the balance are None when demand is met within the documented 1e-3."""
    ser = series or s
    b, g, r = s['battery'], s['genset'], s['grid']
    prod, cost = {}, {}
    sources, sinks = 0.0, ser['load'][t]
    co2 = 0.0
    new = soc
    if b:
        c = clip(control['battery_charge'], 0.0, min(b['charge'], max(0.0, (b['soc_max'] - soc) * b['cap'] * b['eff'])))
        d = clip(control['battery_discharge'], 0.0,
                 min(b['discharge'], max(0.0, (soc - b['soc_min']) * b['cap'] * b['eff'])))
        prod.update(battery_charge=c, battery_discharge=d)
        sources += d
        sinks += c
        cost['battery'] = (c + d) * b['cost']
        new = soc + (c * b['eff'] - d / b['eff']) / b['cap']
    if r:
        i, e = clip(control['grid_import'], 0.0, r['imp_max']), clip(control['grid_export'], 0.0, r['exp_max'])
        prod.update(grid_import=i, grid_export=e)
        sources += i
        sinks += e
        rr = ser['grid'] if series else r
        cost['grid_import'] = i * rr['imp'][t]
        cost['grid_export'] = -e * rr['exp'][t]
        co2 += i * rr['co2'][t]
    if g:
        x = max(0.0, control['genset'])
        if 1 < x < g['rated'] * g['pmin']:
            x = g['rated'] * g['pmin']
        x = min(x, g['rated'] * g['pmax'])
        prod['genset'] = x
        sources += x
        cost['genset'] = x * g['fuel']
        co2 += x * g['co2']
    req, avail = sinks - sources, ser['pv'][t]
    bal = {'pv_consummed': clip(req, 0.0, avail), 'loss_load': max(0.0, req - avail), 'overgeneration': max(0.0, -req)}
    bal['pv_curtailed'] = avail - bal['pv_consummed']
    prod.update(bal)
    cost['loss_load'] = bal['loss_load'] * s['llc']
    cost['overgeneration'] = bal['overgeneration'] * s['ogc']
    cost['co2'] = co2 * s['co2_cost']
    cost['total_cost'] = sum(cost.values())
    return prod, cost, co2, new


def n_steps(length, horizon):
    return length - horizon + 1 if horizon <= length else length
