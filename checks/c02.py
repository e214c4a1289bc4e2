"""C02: loads always absorb their demand; flexible modules close the balance in a fixed order."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import energies, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C02'
RULE = ('Random microgrids with 0-3 loads and 0-3 renewables (shared, custom and interleaved names) plus controllable '
        'modules, driven by random requests, with the balancing module added or passed in, and windows of the benchmark '
        'scenarios. Non-trivial: a step in which a renewable had energy available and the controllable modules left '
        'either a shortfall or an excess.')
ASSUMPTIONS = ['renewables are deployed in the order in which their names were first passed, modules sharing a name '
               'together', 'tolerance 1e-9 relative to the energies of the step']


def dispatch_order(spec):
    names, by = [], {}
    for nm, j, m in gen.index(spec):
        if m['kind'] == 'pv':
            if nm not in by:
                names.append(nm)
            by.setdefault(nm, []).append((nm, j, m))
    return [x for nm in names for x in by[nm]]


def flex_grids(spec):
    return [(nm, j, m) for nm, j, m in gen.index(spec) if m.get('flex')]


def check(case, ctx):
    spec = case['spec']
    for mg, rec in run_episode(case):
        scale = scale_of(spec, rec)
        tol = 1e-9 * max(1.0, scale)
        infos = {(nm, j): info for nm, j, m, info in module_infos(spec, rec)}
        need_before = 0.0
        for nm, j, m in gen.index(spec):
            p, a = energies(infos[nm, j])
            if m['kind'] == 'load':
                demand = m['ts'][rec.t]
                need_close(a, demand, f'step {rec.t}: load {nm}[{j}] absorbed', scale)
                need(p == 0, 'load %s[%d] provided energy', nm, j)
            if m['kind'] != 'pv' and not m.get('flex'):
                need_before += a - p
        remaining = max(0.0, need_before)
        for nm, j, m in dispatch_order(spec):
            p, a = energies(infos[nm, j])
            avail = m['ts'][rec.t]
            want = min(avail, remaining)
            need_close(p, want, f'step {rec.t}: renewable {nm}[{j}] used ({avail!r} available, {remaining!r} needed)',
                       scale)
            need(a == 0, 'renewable %s[%d] absorbed energy', nm, j)
            need('curtailment' in infos[nm, j], 'renewable reports no curtailment: %r', infos[nm, j])
            need_close(infos[nm, j]['curtailment'], avail - p, f'step {rec.t}: curtailment of {nm}[{j}]', scale)
            remaining = max(0.0, remaining - want)
            ctx.nontrivial(avail > tol and abs(need_before) > tol)
        excess = max(0.0, -need_before)
        for nm, j, m in flex_grids(spec):
            p, a = energies(infos[nm, j])
            on = 1 if m['status'] is None else m['status'][rec.t]
            imp, exp = min(on * m['max_import'], remaining), min(on * m['max_export'], excess)
            need_close(p, imp, f'step {rec.t}: import of the flexible {nm}[{j}]', scale)
            need_close(a, exp, f'step {rec.t}: export of the flexible {nm}[{j}]', scale)
            remaining, excess = max(0.0, remaining - imp), max(0.0, excess - exp)
            ctx.nontrivial(imp + exp > tol)
            ctx.label('flexible grid used', imp + exp > tol)
        p, a = energies(infos['balancing', 0])
        need_close(p, remaining, f'step {rec.t}: loss load', scale)
        need_close(a, excess, f'step {rec.t}: overgeneration', scale)
        need(p <= tol or a <= tol, 'step %d: loss load %r and overgeneration %r in the same step', rec.t, p, a)
        need(p >= 0 and a >= 0, 'negative loss load or overgeneration')
        ctx.label('loss load', p > tol)
        ctx.label('overgeneration', a > tol)
        ctx.label('curtailed', any(infos[nm, j]['curtailment'] > tol for nm, j, m in dispatch_order(spec)))
    # the same amounts are logged
    log = mg.get_log()
    last = log.iloc[-1]
    for nm, j, m in gen.index(spec):
        p, a = energies(infos[nm, j])
        if m['kind'] == 'load':
            need_close(last[(nm, j, 'load_met')], a, 'logged load_met', scale)
        elif m['kind'] == 'pv':
            need_close(last[(nm, j, 'renewable_used')], p, 'logged renewable_used', scale)
            need_close(last[(nm, j, 'curtailment')], infos[nm, j]['curtailment'], 'logged curtailment', scale)
    p, a = energies(infos['balancing', 0])
    need_close(last[('balancing', 0, 'loss_load')], p, 'logged loss_load', scale)
    need_close(last[('balancing', 0, 'overgeneration')], a, 'logged overgeneration', scale)


def check_scenario(case, ctx):
    mg = scen.scenario_at(case['scenario'], case['start'])
    for k, u in enumerate(case['actions']):
        t = mg.current_step
        ren = [n for n in mg.modules.names() if n in ('pv', 'renewable', 'PV')]
        load = [n for n in mg.modules.names() if 'load' in n.lower()]
        slack = [n for n in mg.modules.names() if 'balanc' in n]
        need(len(load) == 1 and len(ren) == 1 and len(slack) == 1, 'unexpected modules %r', mg.modules.names())
        demand = abs(float(mg.modules[load[0]][0].time_series[t, 0]))
        avail = float(mg.modules[ren[0]][0].time_series[t, 0])
        _, _, done, info = mg.run(scen.control(mg, u), normalized=False)
        need_close(energies(info[load[0]][0])[1], demand, 'load absorbed', 1e4)
        nb = demand
        for n in ('battery', 'grid', 'genset'):
            if n in info:
                p, a = energies(info[n][0])
                nb += a - p
        used = min(avail, max(0.0, nb))
        need_close(energies(info[ren[0]][0])[0], used, 'renewable used', 1e4)
        need_close(info[ren[0]][0]['curtailment'], avail - used, 'curtailment', 1e4)
        p, a = energies(info[slack[0]][0])
        need_close(p, max(0.0, nb - used), 'loss load', 1e4)
        need_close(a, max(0.0, -nb), 'overgeneration', 1e4)
        ctx.nontrivial(avail > 0)
        if done:
            break


@st.composite
def interleaved(draw):
    c = draw(gen.episode(max_loads=3, max_pv=3, min_pv=2, max_batt=1, max_genset=1, max_grid=1, max_ctrl=2))
    pvs = [m for m in c['spec']['modules'] if m['kind'] == 'pv']
    names = draw(st.sampled_from([['a', 'b', 'a'], ['b', 'a', 'b'], ['z', 'm', 'a']]))
    for m, n in zip(pvs, names):
        m['name'] = 'pv_' + n
    return c


@st.composite
def flexible_grids(draw):
    c = draw(gen.episode(min_grid=1, max_grid=2, max_batt=1, max_genset=1))
    grids = [m for m in c['spec']['modules'] if m['kind'] == 'grid']
    for m in grids[:draw(st.integers(1, 2))]:
        m.update(flex=True, name='flexible', raise_errors=False)
    for step in c['actions']:                       # actions are keyed by name
        pool = [a for nm in step for a in step[nm]]
        step.clear()
        for nm, j, m in gen.index(c['spec']):
            if m['kind'] in ('battery', 'genset', 'grid'):
                a = pool.pop(0)
                a = a[1] if isinstance(a, list) and a[0] not in ('near', 'frac') else a
                step.setdefault(nm, []).append([1.0, a] if m['kind'] == 'genset' else a)
    return c


FACETS = [
    Facet('random', lambda: gen.episode(max_loads=3, max_pv=3), check, 3600),
    Facet('interleaved-names', interleaved, check, 1600),
    Facet('flexible-grids', flexible_grids, check, 800),
    Facet('long', gen.long_episode, check, 120),
    Facet('scenario-windows', scen.window, check_scenario, 160),
]
