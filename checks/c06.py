"""C06: grid limits, outages, prices and emissions."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import energies, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C06'
QUICK_FACTOR = 1.5
RULE = ('Grids with random limits, import/export prices, emissions and outage patterns (3- and 4-column series, '
        'forecasts included), alone, in microgrids and in benchmark scenarios, driven by random import/export '
        'requests. Non-trivial: a step imported or exported energy, or was blocked by an outage.')
ASSUMPTIONS = ['tolerance 1e-9 relative to price times energy']


def check_step(m, t, e, info, reward, scale, what):
    on = 1 if m['status'] is None else m['status'][t]
    p, a = energies(info)
    wp = min(max(e, 0.0), m['max_import'] * on)
    wa = min(max(-e, 0.0), m['max_export'] * on)
    need_close(p, wp, f'{what}: import for request {e!r} (status {on})', scale)
    need_close(a, wa, f'{what}: export for request {e!r} (status {on})', scale)
    if not on:
        need(p == 0 and a == 0, '%s: energy exchanged during an outage', what)
    co2 = m['co2'][t] * p
    need('co2_production' in info, '%s: no co2_production reported', what)
    need_close(info['co2_production'], co2, f'{what}: co2_production', scale)
    need_close(reward, -m['imp'][t] * p + m['exp'][t] * a - m['co2_cost'] * co2, f'{what}: reward', scale * 10)
    return p, a, on


def check_views(m, mod, t, what):
    n = len(m['imp'])
    h = m['fc']['h'] if m['fc'] else 0
    on = 1 if m['status'] is None else m['status'][t]
    need_close(mod.current_status, on, f'{what}: status')
    need_close(mod.max_production, m['max_import'] * on, f'{what}: import limit', m['max_import'])
    need_close(mod.max_consumption, m['max_export'] * on, f'{what}: export limit', m['max_export'])
    sd = mod.state_dict()
    for attr, key, col in (('import_price', 'import_price', m['imp']), ('export_price', 'export_price', m['exp']),
                           ('co2_per_kwh', 'co2_per_kwh', m['co2'])):
        arr = np.asarray(getattr(mod, attr), dtype=float)
        need(arr.shape == (1 + h,), '%s: %s has shape %r', what, attr, arr.shape)
        need_close(arr[0], col[t], f'{what}: current {attr}')
        if h and m['fc']['kind'] == 'oracle':
            for j in range(h):
                if t + 1 + j < n:
                    need_close(arr[1 + j], col[t + 1 + j], f'{what}: forecast {attr} {j + 1} ahead')
    need_close(mod.production_marginal_cost, m['imp'][t], f'{what}: marginal cost of importing')
    need(bool(mod.weak_grid) == bool(m['status'] is not None and min(m['status']) < 1), '%s: weak_grid', what)


def check_module(case, ctx):
    m = case['module']
    n = len(m['imp'])
    init, final = case.get('window') or (0, n)
    mod = gen.build_module(m, init, -1 if final == n else final)
    for t, u in zip(range(init, final), case['requests']):
        what = f'step {t}'
        check_views(m, mod, t, what)
        rating = max(m['max_import'], m['max_export'], 0.3 * case['scale'])
        e = {'max': m['max_import'], 'min': -m['max_export']}[u] if isinstance(u, str) else u * rating
        obs, reward, done, info = mod.step(float(e), normalized=False)
        p, a, on = check_step(m, t, e, info, reward, max(1.0, rating), what)
        log = mod.log_dict()
        need(float(log['grid_import'][-1]) == p and float(log['grid_export'][-1]) == a, '%s: logged energies', what)
        need_close(log['co2_production'][-1], info['co2_production'], f'{what}: logged co2', rating)
        need_close(log['reward'][-1], reward, f'{what}: logged reward', rating)
        need(done == (t >= final - 1), '%s of %d: done is %r', what, n, done)
        ctx.nontrivial(p > 0 or a > 0 or (not on and e != 0))
        ctx.label('outage', not on)
        ctx.label('export', a > 0)


def check_microgrid(case, ctx):
    spec = case['spec']
    for mg, rec in run_episode(case):
        scale = scale_of(spec, rec)
        for nm, j, m, info in module_infos(spec, rec):
            if m is None or m['kind'] != 'grid':
                continue
            reward = mg.modules[nm][j].log_dict()['reward'][-1]
            p, a, on = check_step(m, rec.t, float(rec.control[nm][j]), info, reward, scale, f'step {rec.t} {nm}[{j}]')
            ctx.nontrivial(p > 0 or a > 0 or not on)


def check_scenario(case, ctx):
    mg = scen.scenario_at(case['scenario'], case['start'])
    if 'grid' not in mg.modules.names():
        return
    g = mg.modules['grid'][0]
    ts = np.array(g.time_series)
    m = {'max_import': g.max_import, 'max_export': g.max_export, 'imp': ts[:, 0], 'exp': ts[:, 1], 'co2': ts[:, 2],
         'status': ts[:, 3], 'co2_cost': g.cost_per_unit_co2}
    for k, u in enumerate(case['actions']):
        c = scen.control(mg, u)
        t = mg.current_step
        _, _, done, info = mg.run(c, normalized=False)
        p, a, on = check_step(m, t, float(c['grid'][0]), info['grid'][0], g.log_dict()['reward'][-1], 1e4,
                              f'scenario {case["scenario"]} step {t}')
        ctx.nontrivial(p > 0 or a > 0 or not on)
        ctx.label('outage', not on)
        if done:
            break


@st.composite
def module_case(draw):
    n = draw(st.integers(2, 10))
    scale = draw(gen.SCALES)
    fc = draw(gen.forecast_spec(max_h=4))
    m = draw(gen.grid_spec(n, scale, fc))
    req = st.one_of(st.integers(-150, 150).map(lambda i: i / 100), st.sampled_from(['max', 'min', 0.0]))
    return {'module': m, 'scale': scale, 'requests': draw(st.lists(req, min_size=1, max_size=n)),
            'window': draw(st.one_of(st.none(), st.integers(0, n - 1).flatmap(
                lambda a: st.tuples(st.just(a), st.integers(a + 1, n)).map(list))))}


FACETS = [
    Facet('grid-history', module_case, check_module, 4000),
    Facet('microgrid', lambda: gen.episode(min_grid=1, max_grid=2, max_batt=1, max_genset=1), check_microgrid, 1600),
    Facet('long', lambda: gen.long_episode(min_grid=1, max_batt=1, max_genset=1), check_microgrid, 120),
    Facet('scenario-windows', scen.window, check_scenario, 160),
]
