"""C24: legacy non-modular microgrids."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, nonmod
from vlib.core import Facet, Violation
from vlib.drive import need, need_close, need_same

PROPERTY = 'C24'
QUICK_FACTOR = 3
RULE = ('Random non-modular microgrids (all architectures with a battery, genset and/or grid) and generated ones are run '
        'with in-range, out-of-range and negative controls over several episodes and train/test splits; every recorded '
        'production, cost, emission and state is compared with a reference simulation. Non-trivial: at least two '
        'steps with a non-zero production.')
ASSUMPTIONS = ['a demand met within 1e-3 counts as met (documented tolerance)',
               'genset requests of at most 1 below the minimum are left as they are, so they are compared either way',
               'grid outages are information for the controller: the legacy model does not clip on grid status']


def rec_last(d):
    return {k: (v[-1] if len(v) else None) for k, v in d.items()}


def rec_len(d):
    return {k: len(v) for k, v in d.items()}


class Model:
    """Follows one non-modular microgrid."""

    def __init__(self, s, mg):
        self.s, self.mg, self.split, self.mode = s, mg, None, 'all'
        self.start()

    def start(self):
        self.t = 0
        s = self.s
        self.soc = s['battery']['soc'] if s['battery'] else None
        lo, hi = {'all': (0, s['n']), 'training': (0, self.split), 'testing': (self.split, s['n'])}[self.mode]
        self.series = {'load': s['load'][lo:hi], 'pv': s['pv'][lo:hi],
                       'grid': {k: s['grid'][k][lo:hi] for k in ('imp', 'exp', 'co2', 'status')} if s['grid'] else None}
        self.length = hi - lo
        self.steps = nonmod.n_steps(self.length, s['horizon'])
        self.k = 0

    def check_start(self, what):
        mg = self.mg
        need(not mg.done, '%s: done', what)
        for rec in (mg._df_record_control_dict, mg._df_record_actual_production, mg._df_record_cost, mg._df_record_co2):
            need(all(len(v) == 0 for v in rec.values()), '%s: records are not empty: %r', what, rec_len(rec))
        need(all(len(v) == 1 for v in mg._df_record_state.values()), '%s: states %r', what, rec_len(mg._df_record_state))
        self.check_now(what)

    def check_now(self, what):
        mg, t = self.mg, self.t
        need_close(mg.load, self.series['load'][t], f'{what}: load')
        need_close(mg.pv, self.series['pv'][t], f'{what}: renewable')
        if self.s['grid']:
            for a, k in (('status', 'status'), ('price_import', 'imp'), ('price_export', 'exp'), ('co2', 'co2')):
                need_close(getattr(mg.grid, a), self.series['grid'][k][t], f'{what}: grid {a}')
        if self.s['battery']:
            need_close(mg.battery.soc, self.soc, f'{what}: state of charge')
            need_close(mg.get_updated_values()['battery_soc'], self.soc, f'{what}: recorded state of charge')
        end = min(t + self.s['horizon'], self.length)
        fc = mg.forecast_all()
        need(np.array_equal(fc['load'], np.array(self.series['load'][t:end])), '%s: load forecast %r', what, fc['load'])
        need(np.array_equal(fc['pv'], np.array(self.series['pv'][t:end])), '%s: renewable forecast %r', what, fc['pv'])
        if self.s['grid']:
            for a, k in (('grid_status', 'status'), ('grid_import', 'imp'), ('grid_export', 'exp'), ('grid_co2', 'co2')):
                need(np.array_equal(fc[a], np.array(self.series['grid'][k][t:end])), '%s: %s forecast %r', what, a, fc[a])

    def step(self, control):
        mg, s, t = self.mg, self.s, self.t
        given = copy.deepcopy(control)
        out = mg.run(given)
        need_same(given, control, 'the control passed to run')
        self.k += 1
        what = f'{self.mode} step {t}'
        exp = [nonmod.expected(s, t, self.soc, control, self.series)]
        g = s['genset']
        if g and 0 < control['genset'] <= 1 and control['genset'] < g['pmin'] * g['rated']:
            exp.append(nonmod.expected(s, t, self.soc, dict(control, genset=g['pmin'] * g['rated']), self.series))
        got = rec_last(mg._df_record_actual_production)
        if len(exp) > 1 and abs(got['genset'] - exp[0][0]['genset']) > 1e-9:
            exp = exp[1:]
        prod, cost, co2, new = exp[0]
        sc = s['scale']
        need(set(got) == set(prod), '%s: recorded %r', what, sorted(got))
        # demand within 1e-3 of what is available is met: the difference is dropped
        sinks = self.series['load'][t] + got.get('battery_charge', 0) + got.get('grid_export', 0)
        src = got.get('battery_discharge', 0) + got.get('grid_import', 0) + got.get('genset', 0)
        tol = {k: 1e-9 * sc for k in prod}
        if abs(sinks - src - self.series['pv'][t]) < 1.1e-3:
            tol.update(pv_consummed=1.2e-3, loss_load=1.2e-3, pv_curtailed=1.2e-3, overgeneration=1.2e-3)
        for k in prod:
            need(got[k] >= 0, '%s: negative production %s = %r', what, k, got[k])
            need(abs(got[k] - prod[k]) <= max(tol[k], 1e-9), '%s: %s is %r, expected %r', what, k, got[k], prod[k])
        need(abs(src + got['pv_consummed'] + got['loss_load'] - sinks - got['overgeneration']) <= 1.2e-3,
             '%s: energy does not balance: %r', what, got)
        need_close(got['pv_consummed'] + got['pv_curtailed'], self.series['pv'][t], f'{what}: renewable split', sc,
                   1e-9 if tol['pv_consummed'] < 1e-4 else 1.2e-3)
        c = rec_last(mg._df_record_cost)
        need(set(c) == set(cost), '%s: costs of %r', what, sorted(c))
        price = {'loss_load': s['llc'], 'overgeneration': s['ogc']}
        for k in cost:
            if k in price:
                need_close(c[k], got[k] * price[k], f'{what}: cost {k}', sc)
            elif k != 'total_cost':
                need_close(c[k], cost[k], f'{what}: cost {k}', sc)
        need_close(c['total_cost'], sum(v for k, v in c.items() if k != 'total_cost'), f'{what}: total cost', sc)
        need_close(mg.get_cost(), c['total_cost'], f'{what}: get_cost')
        need_close(mg.get_co2(), co2, f'{what}: emissions', sc)
        last = self.k >= self.steps
        need(mg.done == last, '%s: done is %r after %d of %d steps', what, mg.done, self.k, self.steps)
        if s['battery']:
            b = s['battery']
            need(b['soc_min'] - 1e-9 <= out['battery_soc'] <= b['soc_max'] + 1e-9, '%s: state of charge %r', what,
                 out['battery_soc'])
            need_close(out['battery_soc'], new, f'{what}: new state of charge')
            self.soc = new
        for rec in (mg._df_record_control_dict, mg._df_record_actual_production, mg._df_record_cost, mg._df_record_co2):
            need(all(len(v) == self.k for v in rec.values()), '%s: records %r', what, rec_len(rec))
        for k in control:
            if k in mg._df_record_control_dict and k != 'pv_consummed':
                need(mg._df_record_control_dict[k][-1] == control[k], '%s: control %s recorded as %r', what, k,
                     mg._df_record_control_dict[k][-1])
        rec = {k: v[-1] for k, v in mg._df_record_control_dict.items()}
        for k in rec:
            if k not in control and k not in ('load', 'pv'):
                need(not isinstance(rec[k], dict) and rec[k] == 0, '%s: control %s, not given, recorded as %r', what, k, rec[k])
        need_close(rec['load'], self.series['load'][t], f'{what}: load recorded with the control')
        need_close(rec['pv'], self.series['pv'][t], f'{what}: renewable recorded with the control')
        need_close(mg.penalty(coef=2.0), 2.0 * sum(abs(float(rec[k]) - float(got[k])) for k in rec if k in got), f'{what}: penalty', sc)
        if t + 1 < self.length:
            need_close(out['load'], self.series['load'][t + 1], f'{what}: next load')
            need_close(out['pv'], self.series['pv'][t + 1], f'{what}: next renewable')
            need(out['hour'] == (t + 1) % 24, '%s: next hour %r', what, out['hour'])
            if s['grid']:
                for a, k in (('grid_status', 'status'), ('grid_price_import', 'imp'), ('grid_price_export', 'exp'),
                             ('grid_co2', 'co2')):
                    need_close(out[a], self.series['grid'][k][t + 1], f'{what}: next {a}')
        if not last:
            self.t += 1
            self.check_now(f'{what} done')
        return got


def control_of(s, u):
    """u: fractions in [-0.2, 1.3] of the ratings."""
    c = {}
    if s['battery']:
        c['battery_charge'] = u[0] * s['battery']['charge']
        c['battery_discharge'] = u[1] * s['battery']['discharge']
    if s['grid']:
        c['grid_import'] = u[2] * max(s['grid']['imp_max'], 0.3 * s['scale'])
        c['grid_export'] = u[3] * max(s['grid']['exp_max'], 0.3 * s['scale'])
    if s['genset']:
        c['genset'] = u[4] * s['genset']['rated']
    if u[5] > 0.5:
        c['pv_consummed'] = 1.0
    return c


def check_run(case, ctx):
    s = case['spec']
    mg = nonmod.build(s)
    m = Model(s, mg)
    need(mg._data_length == s['n'], 'data length')
    moved = 0
    for op, arg in case['ops']:
        if op == 'reset':
            mg.reset()
            m.start()
            m.check_start('reset')
        elif op == 'split':
            mg.train_test_split(train_size=arg)
            if m.split is None:
                m.split = int(np.ceil(s['n'] * arg))
            m.mode = 'training'
            m.start()
            m.check_start('split')
            k, *parts = mg.get_training_testing_data()
            need(k == m.split, 'split at %r, expected %r', k, m.split)
            for got, want in zip(parts, (s['load'][:k], s['pv'][:k], s['load'][k:], s['pv'][k:])):
                need(np.array_equal(np.asarray(got).reshape(-1), np.array(want)), 'split data %r, expected %r', got, want)
        elif op == 'horizon':
            mg.set_horizon(arg)
            s = m.s = dict(s, horizon=arg)
            mg.reset()
            m.mode = 'training' if m.split is not None else 'all'
            m.start()
            m.check_start('new horizon')
        elif op == 'co2':
            mg.set_cost_co2(arg)
            s = m.s = dict(s, co2_cost=arg)
        elif op == 'test':
            mg.reset(testing=True)
            m.mode = 'testing' if m.split is not None else 'all'
            m.start()
            m.check_start('testing')
        elif op == 'train':
            mg.reset()
            m.mode = 'training' if m.split is not None else 'all'
            m.start()
            m.check_start('training')
        elif op == 'cancel':
            if m.split is not None:
                mg.train_test_split(cancel=True)
                m.split, m.mode = None, 'all'
                m.start()
                m.check_start('cancel')
        else:
            for u in arg:
                if m.k >= m.steps:
                    break
                got = m.step(control_of(s, u))
                moved += any(got[k] > 0 for k in got if k not in ('loss_load', 'pv_curtailed'))
    ctx.nontrivial(moved > 1)
    ctx.label('split', any(op == 'split' for op, _ in case['ops']))


U = st.integers(-20, 130).map(lambda i: i / 100.0)
CONTROL = st.lists(st.one_of(U, st.just(0.0)), min_size=6, max_size=6)


@st.composite
def run_cases(draw):
    s = draw(nonmod.spec(min_n=4, max_n=9))
    ops = []
    is_split = False
    for _ in range(draw(st.integers(1, 4))):
        ops.append(['run', draw(st.lists(CONTROL, min_size=1, max_size=s['n']))])
        op = draw(st.sampled_from(['reset', 'split', 'test', 'train', 'cancel', 'none', 'horizon', 'co2']))
        if op == 'reset':
            op = 'train'
        arg = None
        if op == 'split':
            # both parts keep at least two steps
            k = draw(st.integers(2, s['n'] - 2))
            arg = k / s['n']
            if int(np.ceil(s['n'] * arg)) != k:
                arg = (k - 0.5) / s['n']
        if op == 'horizon':
            arg = draw(st.integers(1, 4))
        if op == 'co2':
            arg = draw(st.sampled_from([0.0, 0.3, 2.0]))
        if op != 'none':
            ops.append([op, arg])
    ops.append(['run', draw(st.lists(CONTROL, min_size=1, max_size=s['n']))])
    return {'spec': s, 'ops': ops}


def spec_of(mg):
    """The specification of an existing non-modular microgrid, from its parameters and series."""
    p = {k: v.item() for k, v in mg.parameters.items()}
    s = {'n': mg._load_ts.shape[0], 'scale': max(1.0, float(mg._load_ts.values.max())),
         'load': mg._load_ts.values[:, 0], 'pv': mg._pv_ts.values[:, 0], 'llc': p['cost_loss_load'],
         'ogc': p['cost_overgeneration'], 'co2_cost': p['cost_co2'], 'horizon': mg.horizon, 'battery': None,
         'genset': None, 'grid': None}
    if mg.architecture['battery']:
        s['battery'] = {'cap': p['battery_capacity'], 'soc_min': p['battery_soc_min'], 'soc_max': p['battery_soc_max'],
                        'soc': p['battery_soc_0'], 'charge': p['battery_power_charge'],
                        'discharge': p['battery_power_discharge'], 'eff': p['battery_efficiency'],
                        'cost': p['battery_cost_cycle']}
    if mg.architecture['genset']:
        s['genset'] = {'rated': p['genset_rated_power'], 'pmin': p['genset_pmin'], 'pmax': p['genset_pmax'],
                       'fuel': p['fuel_cost'], 'co2': p['genset_co2']}
    if mg.architecture['grid']:
        s['grid'] = {'imp_max': p['grid_power_import'], 'exp_max': p['grid_power_export'],
                     'imp': mg._grid_price_import.values[:, 0], 'exp': mg._grid_price_export.values[:, 0],
                     'co2': mg._grid_co2.values[:, 0], 'status': mg._grid_status_ts.values[:, 0]}
    return s


def check_generated(case, ctx):
    from pymgrid import MicrogridGenerator
    state = np.random.get_state()
    try:
        mg = MicrogridGenerator(nb_microgrid=1, random_seed=case['seed']) \
            .generate_microgrid(modular=False).microgrids[0]
    finally:
        np.random.set_state(state)
    s = spec_of(mg)
    m = Model(s, mg)
    for rnd in range(2):
        for u in case['controls']:
            m.step(control_of(s, u))
        mg.reset()
        m.start()
        m.check_start('reset')
    ctx.nontrivial(len(case['controls']) > 1)


@st.composite
def gen_cases(draw):
    return {'seed': draw(st.integers(0, 10 ** 6)), 'controls': draw(st.lists(CONTROL, min_size=1, max_size=12))}


FACETS = [
    Facet('run', run_cases, check_run, 1500),
    Facet('generated', gen_cases, check_generated, 100),
]
