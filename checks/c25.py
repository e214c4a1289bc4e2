"""C25: legacy control algorithms on non-modular microgrids, and the results they record."""
import contextlib
import copy
import io
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c15, c23
from vlib import gen, nonmod
from vlib.core import Facet, Violation
from vlib.drive import need, need_close, need_same

PROPERTY = 'C25'
QUICK_FACTOR = 2
RULE = ('Random non-modular microgrids with a battery and a genset and/or grid (random series, outages, prices, horizons, '
        'limits): rule-based control is compared with a reference of its rule, sample average approximation with '
        'an independent MILP over every sample, and the records of both, and of model predictive control, with a '
        'reference simulation of the recorded actions. Horizon outputs with random plans and percentiles are ranked '
        'against a sorted list; benchmark reports against sums of the records. Non-trivial: two steps with a non-zero '
        'action.')
ASSUMPTIONS = ['all algorithms need a battery; started on a microgrid that has not been run',
               'a demand met within 1e-3 counts as met', 'comparisons within rounding of a threshold of the rule accept '
               'both branches', 'exporting at more than the import price is excluded for the optimizing algorithms']


def quiet(fn, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()) as f:
        r = fn(*args, **kw)
    return r, f.getvalue()


def snapshot(mg):
    return copy.deepcopy({k: getattr(mg, k) for k in ('_df_record_control_dict', '_df_record_actual_production',
                                                      '_df_record_cost', '_df_record_co2', '_df_record_state')}), \
        mg._tracking_timestep, mg.battery.soc, mg._load_ts.copy(), mg._pv_ts.copy()


def unchanged(before, mg, what):
    after = snapshot(mg)
    need(before[0] == after[0], '%s changed the records of the microgrid', what)
    need(before[1] == after[1], '%s moved the clock of the microgrid', what)
    need_close(after[2], before[2], f'{what}: state of charge of the microgrid')
    need(before[3].equals(after[3]) and before[4].equals(after[4]), '%s changed the series of the microgrid', what)


def check_records(s, out, steps, what):
    """Records of ``steps`` steps are what the microgrid gives for the recorded actions."""
    b, g, r = s['battery'], s['genset'], s['grid']
    act, prod, cost, co2, status = (out[k] for k in ('action', 'production', 'cost', 'co2', 'status'))
    for name, rec, n in (('action', act, steps), ('production', prod, steps), ('cost', cost, steps), ('co2', co2, steps),
                         ('status', status, steps + 1)):
        for k, v in rec.items():
            need(len(v) == n, '%s: %s %s has %d rows, expected %d', what, name, k, len(v), n)
    sc = s['scale']
    for t in range(steps):
        w = f'{what}, step {t}'
        soc = float(status['battery_soc'][t])
        control = {k: float(act[k][t]) for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export',
                                                 'genset') if k in act}
        need_close(act['load'][t], s['load'][t], f'{w}: load in the action', sc)
        need_close(act['pv'][t], s['pv'][t], f'{w}: renewable in the action', sc)
        exp = nonmod.expected(s, t, soc, control)
        got = {k: float(v[t]) for k, v in prod.items()}
        if g and 0 < control['genset'] <= 1 and abs(got['genset'] - exp[0]['genset']) > 1e-9:
            exp = nonmod.expected(s, t, soc, dict(control, genset=g['pmin'] * g['rated']))
        eprod, ecost, eco2, new = exp
        need(set(got) == set(eprod), '%s: productions of %r', w, sorted(got))
        sinks = s['load'][t] + got.get('battery_charge', 0) + got.get('grid_export', 0)
        src = got.get('battery_discharge', 0) + got.get('grid_import', 0) + got.get('genset', 0)
        loose = abs(sinks - src - s['pv'][t]) < 1.1e-3
        for k in eprod:
            tol = 1.2e-3 if loose and k in ('pv_consummed', 'loss_load', 'pv_curtailed', 'overgeneration') else 1e-9 * sc
            need(abs(got[k] - eprod[k]) <= tol, '%s: production %s is %r, expected %r for %r', w, k, got[k], eprod[k],
                 control)
        c = {k: float(v[t]) for k, v in cost.items()}
        need(set(c) == set(ecost), '%s: costs of %r', w, sorted(c))
        price = {'loss_load': s['llc'], 'overgeneration': s['ogc']}
        for k in ecost:
            if k != 'total_cost':
                need_close(c[k], got[k] * price[k] if k in price else ecost[k], f'{w}: cost {k}', sc)
        need_close(c['total_cost'], sum(v for k, v in c.items() if k != 'total_cost'), f'{w}: total cost', sc)
        need_close(co2['co2'][t], eco2, f'{w}: emissions', sc)
        nxt = {k: v[t + 1] for k, v in status.items()}
        need_close(nxt['battery_soc'], new, f'{w}: next state of charge')
        need_close(nxt['load'], s['load'][t + 1], f'{w}: next load', sc)
        need_close(nxt['pv'], s['pv'][t + 1], f'{w}: next renewable', sc)
        need_close(nxt['hour'], (t + 1) % 24, f'{w}: next hour')
        if r:
            for k, q in (('grid_status', 'status'), ('grid_price_import', 'imp'), ('grid_price_export', 'exp'),
                         ('grid_co2', 'co2')):
                need_close(nxt[k], r[q][t + 1], f'{w}: next {k}')


def rule(s, t, soc, gen_needed=None, battery_first=None):
    """Reference of the rule; (action, whether a threshold was within rounding)."""
    b, g, r = s['battery'], s['genset'], s['grid']
    load, pv = s['load'][t], s['pv'][t]
    out = {k: 0.0 for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset',
                            'pv_consummed')}
    grid_on = bool(r) and r['status'][t] > 0
    dis = max(0.0, (soc - b['soc_min']) * b['cap'] * b['eff'])
    margin = load - pv - min(dis, b['discharge'])
    if gen_needed is None:
        gen_needed = margin > 0
    order = ['battery']
    pm = 1.0
    if grid_on:
        pm = r['imp'][t] - r['exp'][t] / b['eff'] ** 2
        if battery_first is None:
            battery_first = pm > 0
        order = ['battery', 'grid'] if battery_first else ['grid', 'battery']
    close = abs(margin) < 1e-9 * s['scale'] or abs(pm) < 1e-9
    rest, mn = load, 0.0
    if g and gen_needed and not grid_on:
        mn = g['rated'] * g['pmin']
        close = close or abs(mn - load) < 1e-9 * s['scale']
        if mn > load:
            out.update(genset=mn, load=load, pv=pv, pv_curtailed=pv)
            return out, close
        rest -= mn
    used = min(rest, pv)
    rest, excess = rest - used, pv - used
    out['pv_consummed'] = used
    for x in order:
        if x == 'battery':
            if rest > 0:
                out['battery_discharge'] = min(dis, b['discharge'], rest)
                rest -= out['battery_discharge']
            elif excess > 0:
                c = min(max(0.0, (b['soc_max'] - soc) * b['cap'] / b['eff']), b['charge'], excess)
                out['battery_charge'] = c
                out['pv_consummed'] += c
                excess -= c
        elif rest > 0:
            out['grid_import'], rest = rest, 0.0
        elif excess > 0:
            out['grid_export'] = excess
            out['pv_consummed'] += excess
            excess = 0.0
    if g:
        out['genset'] = rest + mn
    out.update(load=load, pv=pv, pv_curtailed=pv - out['pv_consummed'])
    return out, close


def matches(s, ref, act, t):
    tol = 1e-9 * s['scale']
    for k, v in act.items():
        if abs(float(v[t]) - ref[k]) > tol:
            return k, float(v[t]), ref[k]
    return None


def check_rbc(case, ctx):
    from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
    s = case['spec']
    mg = nonmod.build(s)
    before = snapshot(mg)
    length = case['length']
    out, _ = quiet(NonModularRuleBasedControl(mg).run_rule_based, length=length)
    need(out.alg_name == 'rbc', 'named %r', out.alg_name)
    unchanged(before, mg, 'rule-based control')
    steps = max(0, (s['n'] if length is None else min(length, s['n'])) - s['horizon'])
    check_records(s, out, steps, 'rule-based control')
    active = 0
    for t in range(steps):
        soc = float(out['status']['battery_soc'][t])
        ref, close = rule(s, t, soc)
        bad = matches(s, ref, out['action'], t)
        if bad and close:
            bad = all(matches(s, rule(s, t, soc, a, c)[0], out['action'], t) for a in (True, False)
                      for c in (True, False)) and bad
        need(not bad, 'step %d: rule-based control applied %s, its rule gives %r (state of charge %r)', t,
             bad and '%s = %r' % bad[:2], ref, soc)
        active += any(ref[k] > 0 for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset'))
    ctx.nontrivial(active > 1)
    ctx.label('genset needed', any(x > 0 for x in out['action'].get('genset', [])))
    ctx.label('export', any(x > 0 for x in out['action'].get('grid_export', [])))


@st.composite
def legacy_spec(draw, cheap_export=False, **kw):
    s = draw(nonmod.spec(**kw))
    if not s['battery']:
        s['battery'] = draw(nonmod.spec(**kw).filter(lambda x: x['battery'] is not None))['battery']
        f = s['scale'] / max(1e-9, s['battery']['cap'])
        for k in ('cap', 'charge', 'discharge'):
            s['battery'][k] *= f
    if s['grid'] and cheap_export:
        s['grid']['exp'] = [min(e, 0.9 * i) for e, i in zip(s['grid']['exp'], s['grid']['imp'])]
    return s


@st.composite
def rbc_cases(draw):
    s = draw(legacy_spec(min_n=4, max_n=30, max_horizon=3))
    return {'spec': s, 'length': draw(st.one_of(st.none(), st.integers(s['horizon'], s['n'] + 2)))}


def problem(s, load, pv, status, i, soc):
    b, g, r = s['battery'], s['genset'], s['grid']
    H = s['horizon']
    w = slice(i, i + H)
    return {'H': H, 'load': list(load), 'pv': list(pv), 'eta': b['eff'], 'cap': b['cap'], 'soc': soc,
            'soc_min': b['soc_min'], 'soc_max': b['soc_max'], 'ch_max': b['charge'], 'dis_max': b['discharge'],
            'cycle': b['cost'], 'loss_cost': s['llc'], 'fuel': g['fuel'] if g else 0.0, 'gen_co2': g['co2'] if g else 0.0,
            'gen_co2_cost': s['co2_cost'], 'gen_max': g['rated'] * g['pmax'] if g else 0.0,
            'gen_min': g['rated'] * g['pmin'] if g else 0.0, 'imp_max': r['imp_max'] if r else 0.0,
            'exp_max': r['exp_max'] if r else 0.0, 'status': list(status) if r else [0.0] * H,
            'imp_price': r['imp'][w] if r else [0.0] * H, 'exp_price': r['exp'][w] if r else [0.0] * H,
            'grid_co2': r['co2'][w] if r else [0.0] * H, 'grid_co2_cost': s['co2_cost']}


def action_control(s, act, i):
    c = {'battery': float(act['battery_discharge'][i]) - float(act['battery_charge'][i])}
    if s['grid']:
        c['grid'] = float(act['grid_import'][i]) - float(act['grid_export'][i])
    if s['genset']:
        e = float(act['genset'][i])
        c['genset'] = [[1 if e > 1e-9 or s['genset']['pmin'] == 0 else 0, e]]
    return c


def names(s):
    return {'battery': 'battery', 'grid': 'grid' if s['grid'] else None, 'genset': 'genset' if s['genset'] else None}


def check_mpc_records(case, ctx):
    from pymgrid.algos import ModelPredictiveControl
    s = case['spec']
    mg = nonmod.build(s)
    before = snapshot(mg)
    steps = s['n'] - s['horizon'] if case['steps'] is None else min(case['steps'], s['n'] - s['horizon'])
    out, _ = quiet(ModelPredictiveControl(mg, solver='GLPK_MI').run, max_steps=case['steps'] and steps)
    need(out.alg_name == 'mpc', 'named %r', out.alg_name)
    unchanged(before, mg, 'model predictive control')
    check_records(s, out, steps, 'model predictive control')
    ctx.nontrivial(steps > 1 and any(float(v[i]) > 0 for k, v in out['action'].items() for i in range(steps)
                                     if k not in ('load', 'pv', 'pv_consummed', 'pv_curtailed')))


@st.composite
def mpc_cases(draw):
    s = draw(legacy_spec(cheap_export=True, min_n=4, max_n=8, max_horizon=3))
    return {'spec': s, 'steps': draw(st.one_of(st.none(), st.integers(1, 4)))}


def saa_of(mg, mpc, underlying):
    """A SampleAverageApproximation without the (tested elsewhere) forecasting of a year of data."""
    from pymgrid.algos.saa.saa import SampleAverageApproximation
    x = SampleAverageApproximation.__new__(SampleAverageApproximation)
    x.microgrid, x.mpc, x.underlying_data, x.samples, x.forecasts = mg, mpc, underlying, None, None
    return x


def check_saa(case, ctx):
    from pymgrid.algos import ModelPredictiveControl
    from pymgrid.algos.saa.saa import SampleAverageApproximation
    from pymgrid.utils.DataGenerator import return_underlying_data
    s = case['spec']
    n, H = s['n'], s['horizon']
    mg = nonmod.build(s)
    under = return_underlying_data(mg)
    for col, ref in (('load', s['load']), ('pv', s['pv']), ('grid', s['grid']['status'] if s['grid'] else [0] * n)):
        need_same(np.asarray(under[col], dtype=float), np.asarray(ref, dtype=float), f'underlying {col}')
    before = snapshot(mg)
    saa = saa_of(mg, ModelPredictiveControl(mg, solver='GLPK_MI'), under.copy())
    samples = []
    for d in case['samples']:
        samples.append(pd.DataFrame({'pv': [x * f for x, f in zip(s['pv'], d['pv'])],
                                     'load': [x * f for x, f in zip(s['load'], d['load'])],
                                     'grid': [float(x) for x in d['grid']]}))
    steps = n - H if case['steps'] is None else min(case['steps'], n - H)
    mine = [x.copy() for x in samples]
    plans = {}
    single = getattr(saa.mpc, 'mpc_single_step', None)
    if single is not None:
        def recording(*args, **kw):
            h = single(*args, **kw)
            plans.setdefault(getattr(h, 'current_step', None), []).append(h)
            return h
        saa.mpc.mpc_single_step = recording
    if case['mode'] == 'group':
        out, _ = quiet(saa.run_mpc_on_group, samples, forecast_steps=case['steps'] and steps,
                       optimal_percentile=case['pct'])
    elif case['mode'] == 'run':
        saa.samples = samples
        out, _ = quiet(saa.run, forecast_steps=case['steps'] and steps, optimal_percentile=case['pct'])
    else:
        saa.forecasts = samples[0]
        mine = mine[:1]
        out, _ = quiet(saa.run_deterministic_on_forecast, forecast_steps=case['steps'] and steps)
        need(samples[0].equals(mine[0]), 'deterministic control changed the forecast')
    unchanged(before, mg, 'sample average approximation')
    need(saa.underlying_data.equals(under), 'underlying data changed')
    check_records(s, out, steps, 'sample average approximation')
    active = 0
    for i in range(steps):
        soc = float(out['status']['battery_soc'][i])
        control = action_control(s, out['action'], i)
        errors, ok = [], False
        for x in mine:
            x.iloc[i] = [s['pv'][i], s['load'][i], s['grid']['status'][i] if s['grid'] else 0.0]
            w = slice(i, i + H)
            try:
                c15.verify(problem(s, x['load'][w], x['pv'][w], x['grid'][w], i, soc), control, names(s), f'step {i}')
            except c15.Inconclusive:
                ctx.label('reference solver failed')
                ok = True
            except Violation as e:
                errors.append(str(e))
            else:
                ok = True
        need(ok, 'the applied action is optimal for no sample: %s', errors[:1])
        here = plans.get(i, [])
        if len(here) == len(mine):
            costs = sorted(h.cost for h in here)
            want = costs[min(len(costs) - 1, int(np.floor(len(costs) * case['pct'])))] if len(costs) > 1 else costs[0]
            need(any(abs(h.cost - want) <= 1e-9 * max(1.0, abs(want)) and
                     all(abs(float(h.first_dict[k]) - float(out['action'][k][i])) <= 1e-9 * s['scale']
                         for k in out['action'] if k in h.first_dict) for h in here),
                 'step %d: the applied action is not that of the plan at percentile %r of costs %r', i, case['pct'], costs)
            ctx.label('percentile choice seen', costs[0] < costs[-1] - 1e-6)
        active += any(abs(v) > 1e-9 for k, v in control.items() if k != 'genset') or \
            ('genset' in control and control['genset'][0][1] > 1e-9)
    ctx.nontrivial(active > 1)
    ctx.label('samples', len(samples) > 1)


@st.composite
def saa_cases(draw):
    s = draw(legacy_spec(cheap_export=True, min_n=4, max_n=7, max_horizon=3))
    n = s['n']
    fac = st.lists(st.sampled_from([1.0, 1.0, 0.5, 0.0, 1.5]), min_size=n, max_size=n)
    samples = draw(st.lists(st.fixed_dictionaries({'pv': fac, 'load': fac, 'grid': st.lists(
        st.sampled_from([1, 1, 0]), min_size=n, max_size=n)}), min_size=1, max_size=3))
    return {'spec': s, 'samples': samples, 'pct': draw(st.sampled_from([0.5, 0.0, 1.0, 0.25])),
            'steps': draw(st.one_of(st.none(), st.integers(1, 3))),
            'mode': draw(st.sampled_from(['group', 'group', 'run', 'forecast']))}


def horizon_cost(s, plan, i):
    cost = sum(d['loss_load'] for d in plan) * s['llc']
    if s['genset']:
        cost += sum(d['genset'] for d in plan) * s['genset']['fuel']
    if s['grid']:
        for j, d in enumerate(plan):
            cost += s['grid']['imp'][i + j] * d['grid_import'] - s['grid']['exp'][i + j] * d['grid_export']
    return cost


def check_rank(case, ctx):
    """Plans are ranked by their cost; the percentile picks from the sorted list."""
    from pymgrid.algos.Control import HorizonOutput
    s = case['spec']
    mg = nonmod.build(s)
    i = min(case['at'], s['n'] - s['horizon'])
    plans = [[dict(d) for d in p[:s['horizon']]] for p in case['plans']]
    outs = [HorizonOutput(copy.deepcopy(p), mg, i) for p in plans]
    costs = [horizon_cost(s, p, i) for p in plans]
    for p, o, c in zip(plans, outs, costs):
        need_close(o.cost, c, 'cost over the horizon', s['scale'])
        need(o.first_dict == p[0], 'first action of the plan is %r, expected %r', o.first_dict, p[0])
    for a, x in zip(outs, costs):
        for b, y in zip(outs, costs):
            if abs(x - y) > 1e-9 * max(1.0, abs(x)):
                need((a < b) == (x < y) and (a > b) == (x > y) and not a == b, 'comparison of costs %r and %r', x, y)
    chosen, _ = quiet(saa_of(mg, None, None).determine_optimal_actions, outputs=list(outs), percentile=case['pct'])
    want = sorted(costs)[min(len(costs) - 1, int(np.floor(len(costs) * case['pct'])))]
    need(any(chosen is o for o in outs), 'the chosen output is none of those given')
    need_close(chosen.cost, want, f'cost at percentile {case["pct"]} of {sorted(costs)}', s['scale'])
    for bad in (-0.1, 1.1):
        try:
            saa_of(mg, None, None).determine_optimal_actions(outputs=list(outs), percentile=bad)
        except ValueError:
            pass
        else:
            raise Violation(f'percentile {bad} accepted')
    ctx.nontrivial(len(set(costs)) > 1)


@st.composite
def rank_cases(draw):
    s = draw(legacy_spec(min_n=4, max_n=8, max_horizon=3))
    q = gen.qty(s['scale'])
    d = {'loss_load': q, 'battery_charge': q, 'battery_discharge': q}
    if s['genset']:
        d['genset'] = q
    if s['grid']:
        d.update(grid_import=q, grid_export=q)
    plan = st.lists(st.fixed_dictionaries(d), min_size=s['horizon'], max_size=s['horizon'])
    return {'spec': s, 'at': draw(st.integers(0, 5)), 'plans': draw(st.lists(plan, min_size=1, max_size=5)),
            'pct': draw(st.sampled_from([0.5, 0.0, 1.0, 0.25, 0.9, 0.33]))}


def report(text):
    return [(a, float(b)) for a, b in re.findall(r'using ([^:\n]*): (-?[0-9.e+]+)', text)]


def check_benchmarks(case, ctx):
    from pymgrid.algos.Control import Benchmarks
    s = case['spec']
    mg = nonmod.build(s)
    b = Benchmarks(mg)
    total = {}
    for algo in case['algos']:
        quiet(b.run_benchmarks, algo=algo)
        out = {'mpc': b.mpc_output, 'rbc': b.rule_based_output}[algo]
        need(b.outputs_dict[algo] is out, 'output of %s not kept', algo)
        T = s['n'] - s['horizon']
        check_records(s, out, T, f'benchmark {algo}')
        total[algo] = np.array([float(x) for x in out['cost']['total_cost']])
    need(set(b.outputs_dict) == set(case['algos']), 'outputs of %r', set(b.outputs_dict))
    label = {'mpc': 'MPC', 'rbc': 'rule-based control'}
    _, text = quiet(b.describe_benchmarks)
    need_same(dict(sorted(report(text))), {label[a]: round(float(total[a].sum()), 2) for a in sorted(total)}, 'reported costs', 1e-2)
    _, text = quiet(b.describe_benchmarks, test_split=True, test_ratio=case['ratio'])
    first = int(np.ceil(T * (1 - case['ratio'])))
    need_same(dict(sorted(report(text))), {label[a]: round(float(total[a][first:].sum()), 2) for a in sorted(total)},
              f'reported costs of the last {case["ratio"]}', 1e-2)
    k = min(case['index'], T)
    _, text = quiet(b.describe_benchmarks, test_split=True, test_index=k)
    got = re.findall(r'(Test|Train) set cost using (\w+): (-?[0-9.e+]+)', text)
    need(len(got) == 2 * len(total), 'reported %r', got)
    for kind, a, v in got:
        c = total[a.lower()]
        need_close(float(v), round(float((c[k:] if kind == 'Test' else c[:k]).sum()), 2), f'{kind} cost of {a}', 1.0, 1.1e-2)
    if len(total) == 2:
        x, y = b.mpc_output, b.rule_based_output
        cx, cy = total['mpc'].sum(), total['rbc'].sum()
        if abs(cx - cy) > 1e-6 * max(1.0, abs(cx)):
            need((x < y) == (cx < cy) and (x > y) == (cx > cy) and (x == y) is not True and not x == y,
                 'comparison of outputs with costs %r and %r', cx, cy)
    frame = out.to_frame()
    need(len(frame) == T + 1 and ('cost', 'total_cost') in frame.columns, 'frame of the output has shape %r', frame.shape)
    need_same(frame[('cost', 'total_cost')].to_numpy(dtype=float)[:T], total[case['algos'][-1]], 'total cost in the frame')
    need_same(frame[('status', 'battery_soc')].to_numpy(dtype=float), np.array(out['status']['battery_soc'], dtype=float),
              'state of charge in the frame')
    ctx.nontrivial(len(total) == 2 and all(abs(v.sum()) > 0 for v in total.values()))


@st.composite
def benchmark_cases(draw):
    s = draw(legacy_spec(cheap_export=True, min_n=5, max_n=8, max_horizon=3))
    return {'spec': s, 'algos': draw(st.sampled_from([['mpc', 'rbc'], ['rbc', 'mpc'], ['rbc']])),
            'ratio': draw(st.sampled_from([0.5, 0.25, 1.0, 0.33])), 'index': draw(st.integers(0, 7))}


def days_spec(case):
    """A system with the pv data of whole days."""
    s = dict(case['spec'])
    n = 24 * len(case['pv_days'])
    reps = -(-n // s['n'])
    s.update(n=n, pv=[float(x) for r in case['pv_days'] for x in r], load=[max(0.5, x) for x in (s['load'] * reps)[:n]])
    if s['grid']:
        s['grid'] = dict(s['grid'], **{k: (s['grid'][k] * reps)[:n] for k in ('imp', 'exp', 'co2', 'status')})
    return s


def check_full(case, ctx):
    """Sample average approximation with its own forecasts and samples."""
    from pymgrid.algos import ModelPredictiveControl
    from pymgrid.algos.saa.saa import SampleAverageApproximation
    s = days_spec(case)
    mg = nonmod.build(s)
    before = snapshot(mg)
    preset = {'preset_to_use': case['preset']} if case['preset'] else {}

    def run():
        saa, _ = quiet(SampleAverageApproximation, mg, **preset)
        if case['preset'] == 85:
            need_same(np.asarray(saa.forecasts['pv'], dtype=float), np.array(s['pv']), 'pv forecast pushed to the data')
        for col, f in zip(('pv', 'load', 'grid'), saa.forecasts.columns):
            need(f == col and len(saa.forecasts) == s['n'] and np.all(np.asarray(saa.forecasts[f], dtype=float) >= 0),
                 'forecast %r', f)
        saa.mpc = ModelPredictiveControl(mg, solver='GLPK_MI')
        out, _ = quiet(saa.run, n_samples=case['k'], forecast_steps=case['steps'], optimal_percentile=case['pct'])
        need(len(saa.samples) == case['k'], '%d samples, expected %d', len(saa.samples), case['k'])
        if case['again']:
            old = [x.copy() for x in saa.samples]
            quiet(saa.run, n_samples=case['k'] + 1, forecast_steps=1)
            need(len(saa.samples) == len(old) and all(np.array_equal(x, y) for x, y in zip(old, saa.samples)),
                 'a second run did not use the samples of the first')
            k = case['k'] + case['again'] - 1
            quiet(saa.run, n_samples=k, forecast_steps=1, use_previous_samples=False)
            need(len(saa.samples) == k, '%d new samples, expected %d', len(saa.samples), k)
            need(not any(x['pv'].sum() > 0 and np.array_equal(x['pv'], y['pv']) for x in old for y in saa.samples),
                 'a run asked for new samples reused earlier ones')
        return out

    out = c23.seeded(case['seed'], run)
    unchanged(before, mg, 'sample average approximation')
    check_records(s, out, case['steps'], 'sample average approximation')
    again = c23.seeded(case['seed'], run)
    need_same(dict(out['production']), dict(again['production']), 'productions of a second run with the same random state')
    ctx.nontrivial(case['k'] > 1)
    ctx.label('preset', bool(preset))


def check_all_benchmarks(case, ctx):
    """All three benchmarks at once, and their reports."""
    from pymgrid.algos.Control import Benchmarks
    case = dict(case, pv_days=case['pv_days'][:1])
    s = days_spec(case)
    mg = nonmod.build(s)
    before = snapshot(mg)
    b = Benchmarks(mg)
    try:
        c23.seeded(case['seed'], lambda: quiet(b.run_benchmarks, preset_to_use=case['preset'] or 85))
    except RuntimeError as e:                       # without MOSEK a mixed-integer problem may be refused
        if 'mixed integer' not in str(e):
            raise
        ctx.label('no solver')
        return
    unchanged(before, mg, 'benchmarks')
    outs = {'mpc': b.mpc_output, 'rbc': b.rule_based_output, 'saa': b.saa_output}
    need(set(b.outputs_dict) == set(outs), 'outputs of %r', set(b.outputs_dict))
    T = s['n'] - s['horizon']
    total = {}
    for algo, out in outs.items():
        need(b.outputs_dict[algo] is out and out.alg_name == algo, 'output of %s not kept', algo)
        check_records(s, out, T, f'benchmark {algo}')
        total[algo] = np.array([float(x) for x in out['cost']['total_cost']])
    label = {'mpc': 'MPC', 'rbc': 'rule-based control', 'saa': 'sample-average MPC control'}
    for algos in (None, ['saa'], ['mpc', 'saa'], ['rbc']):
        listed = algos or list(outs)
        _, text = quiet(b.describe_benchmarks, test_split=True, test_ratio=case['ratio'], algorithms=algos)
        first = int(np.ceil(T * (1 - case['ratio'])))
        need_same(dict(sorted(report(text))), {label[a]: round(float(total[a][first:].sum()), 2) for a in
                                               sorted(listed, key=lambda a: label[a])}, f'reported costs of {listed}', 1e-2)
        k = min(case['index'], T)
        _, text = quiet(b.describe_benchmarks, test_split=True, test_index=k, algorithms=algos)
        got = re.findall(r'(Test|Train) set cost using (\w+): (-?[0-9.e+]+)', text)
        need(sorted(a.lower() for _, a, _ in got) == sorted(2 * listed), 'reported %r for %r', got, listed)
        for kind, a, v in got:
            c = total[a.lower()]
            need_close(float(v), round(float((c[k:] if kind == 'Test' else c[:k]).sum()), 2), f'{kind} cost of {a}', 1.0,
                       1.1e-2)
    for bad in ({'algorithms': ['mpc', 'nope']}, {'test_split': True}, {'test_split': True, 'test_ratio': 1.5},
                {'test_split': True, 'test_ratio': 0.5, 'test_index': 1}, {'test_split': True, 'test_index': T + 1}):
        try:
            quiet(b.describe_benchmarks, **bad)
        except ValueError:
            pass
        else:
            raise Violation(f'describe_benchmarks accepted {bad}')
    ctx.nontrivial(all(abs(v.sum()) > 0 for v in total.values()))


@st.composite
def full_cases(draw):
    c = draw(c23.pv_cases())
    return {'spec': draw(legacy_spec(cheap_export=True, max_horizon=3)), 'pv_days': c['days'], 'seed': c['seed'],
            'k': draw(st.integers(1, 3)), 'steps': draw(st.integers(1, 3)), 'pct': draw(st.sampled_from([0.5, 0.0, 1.0])),
            'again': draw(st.integers(0, 2)), 'preset': draw(st.sampled_from([None, 50, 70, 85])), 'ratio': draw(st.sampled_from([0.5, 0.25, 1.0, 0.33])),
            'index': draw(st.integers(0, 24))}


FACETS = [
    Facet('sample-average-full', full_cases, check_full, 24),
    Facet('all-benchmarks', full_cases, check_all_benchmarks, 24),
    Facet('rule-based', rbc_cases, check_rbc, 600),
    Facet('mpc-records', mpc_cases, check_mpc_records, 60),
    Facet('sample-average', saa_cases, check_saa, 160),
    Facet('ranking', rank_cases, check_rank, 250),
    Facet('benchmarks', benchmark_cases, check_benchmarks, 60),
]
