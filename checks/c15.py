"""C15: model predictive control against an independently written MILP."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import Bounds, LinearConstraint, milp

from vlib import gen, scen
from vlib.core import Facet, Violation
from vlib.drive import need

PROPERTY = 'C15'
QUICK_FACTOR = 2.5
RULE = ('Random microgrids with one load, renewable and battery and a grid and/or genset (random series, outages, '
        'limits, horizons 1-6, initial charge) and benchmark scenario windows; every control that model predictive '
        'control applies is fixed in an independently written MILP over the same forecasts, whose optimal cost must '
        'not rise above the unconstrained optimum. Non-trivial: horizon above 1, non-zero optimal cost and a non-zero '
        'control.')
ASSUMPTIONS = ['documented scope: one load, renewable, battery, grid and/or genset; gensets without start-up or '
               'wind-down time', 'battery cycles are priced per unit of external energy, overgeneration is not planned',
               'optimal plans may differ; only the optimal cost with the applied first action is compared',
               'GLPK_MI solves the problem of the implementation (no MOSEK licence here), HiGHS the reference']


class Inconclusive(Exception):
    pass


def build_milp(p, fix=None, presolve=True, on_off=None):
    """p: dict of forecasts and parameters. Variables per step: gen, imp, exp, ch, dis, curt, loss, soc, on."""
    H, nv = p['H'], 9
    N = H * nv
    c = np.zeros(N)
    lb, ub = np.zeros(N), np.zeros(N)
    integrality = np.zeros(N)
    rows, lo, hi = [], [], []

    def row(entries, a, b):
        r = np.zeros(N)
        for i, v in entries:
            r[i] += v
        rows.append(r)
        lo.append(a)
        hi.append(b)

    for t in range(H):
        g, im, ex, ch, di, cu, ls, so, on = range(t * nv, t * nv + nv)
        c[g] = p['fuel'] + p['gen_co2'] * p['gen_co2_cost']
        c[im] = p['imp_price'][t] + p['grid_co2'][t] * p['grid_co2_cost']
        c[ex] = -p['exp_price'][t]
        c[ch] = c[di] = p['cycle']
        c[ls] = p['loss_cost']
        ub[g] = p['gen_max']
        ub[im] = p['imp_max'] * p['status'][t]
        ub[ex] = p['exp_max'] * p['status'][t]
        ub[ch], ub[di] = p['ch_max'], p['dis_max']
        ub[cu], ub[ls] = p['pv'][t], p['load'][t]
        lb[so], ub[so] = p['soc_min'], p['soc_max']
        ub[on] = 1 if p['gen_max'] > 0 else 0
        integrality[on] = int(p['gen_min'] > 0 and on_off is None)
        if on_off is not None:
            lb[on] = ub[on] = on_off[t]
        row([(g, 1), (im, 1), (di, 1), (ls, 1), (ex, -1), (ch, -1), (cu, -1)], *[p['load'][t] - p['pv'][t]] * 2)
        prev = [] if t == 0 else [(so - nv, -1.0)]
        rhs = p['soc'] if t == 0 else 0.0
        row([(so, 1.0), (ch, -p['eta'] / p['cap']), (di, 1 / (p['eta'] * p['cap']))] + prev, rhs, rhs)
        row([(g, 1), (on, -p['gen_max'])], -np.inf, 0.0)
        row([(g, 1), (on, -p['gen_min'])], 0.0, np.inf)
    if fix is not None:
        eps = fix['eps']
        if 'battery' in fix:
            row([(4, 1), (3, -1)], fix['battery'] - eps, fix['battery'] + eps)
        if 'grid' in fix:
            row([(1, 1), (2, -1)], fix['grid'] - eps, fix['grid'] + eps)
        if 'genset' in fix:
            row([(0, 1)], fix['genset'] - eps, fix['genset'] + eps)
            if p['gen_max'] > 0:
                if on_off is not None and on_off[0] != fix['on']:
                    return 'infeasible', None
                lb[8] = ub[8] = fix['on']
    r = milp(c, constraints=LinearConstraint(np.array(rows), lo, hi), bounds=Bounds(lb, ub), integrality=integrality,
             options={'mip_rel_gap': 1e-9, 'presolve': presolve})
    return ('ok', float(r.fun)) if r.status == 0 and r.x is not None else ('infeasible' if r.status == 2 else 'error', None)


def rescale(p, fix):
    """The same problem in a unit of energy in which its quantities are of the order of 1 (solver tolerances are
    absolute)."""
    unit = max(p['load'] + p['pv'] + [p['gen_max'], p['imp_max'], p['exp_max'], p['ch_max'], p['dis_max']]) or 1.0
    p = dict(p, load=[x / unit for x in p['load']], pv=[x / unit for x in p['pv']],
             **{k: p[k] / unit for k in ('cap', 'ch_max', 'dis_max', 'gen_max', 'gen_min', 'imp_max', 'exp_max')})
    if fix is not None:
        fix = dict(fix, **{k: fix[k] / unit for k in ('eps', 'battery', 'grid', 'genset') if k in fix})
    return p, fix, unit


def solve(p, fix=None):
    """Optimal cost; None if infeasible. HiGHS reports occasional solve errors on thin ranges: retried, then given up
    (raising Inconclusive)."""
    p, fix, unit = rescale(p, fix)
    last = None
    for factor, presolve in ((1, True), (1, False), (10, True), (10, False)):
        last, val = build_milp(p, None if fix is None else dict(fix, eps=fix['eps'] * factor), presolve)
        if last == 'ok':
            return val * unit
    if last == 'infeasible':
        return None
    raise Inconclusive()


def second_opinion(p, fix):
    """Lowest cost that any of several ways of solving finds: HiGHS occasionally calls a plan optimal that is not."""
    scaled = rescale(p, fix)
    found = []
    for q, f, unit in (scaled, (p, fix, 1.0)):
        for factor in (1, 10):
            f2 = dict(f, eps=f['eps'] * factor)
            ways = [(presolve, None) for presolve in (True, False)]
            if p['gen_min'] > 0 and p['H'] <= 6:
                ways += [(True, on_off) for on_off in itertools.product((0, 1), repeat=p['H'])]
            for presolve, on_off in ways:
                status, val = build_milp(q, f2, presolve, on_off)
                if status == 'ok':
                    found.append(val * unit)
    return min(found) if found else None


def forecasts(mod, comp, H):
    sd = mod.state_dict()
    return [float(sd[f'{comp}_current'])] + [float(sd[f'{comp}_forecast_{j}']) for j in range(H - 1)]


def problem(mg, H, names):
    by = {k: mg.modules[v][0] for k, v in names.items() if v}
    b = by['battery']
    p = {'H': H, 'load': [-x for x in forecasts(by['load'], 'load', H)],
         'pv': forecasts(by['pv'], 'renewable', H),
         'eta': b.efficiency, 'cap': b.max_capacity, 'soc': b.soc, 'soc_min': b.min_soc, 'soc_max': 1.0,
         'ch_max': b.max_charge / b.efficiency, 'dis_max': b.max_discharge * b.efficiency,
         'cycle': b.battery_cost_cycle, 'loss_cost': by['slack'].loss_load_cost,
         'fuel': 0.0, 'gen_co2': 0.0, 'gen_co2_cost': 0.0, 'gen_max': 0.0, 'gen_min': 0.0,
         'imp_max': 0.0, 'exp_max': 0.0, 'status': [0.0] * H, 'imp_price': [0.0] * H, 'exp_price': [0.0] * H,
         'grid_co2': [0.0] * H, 'grid_co2_cost': 0.0}
    if 'genset' in by:
        g = by['genset']
        p.update(fuel=g.genset_cost, gen_co2=g.co2_per_unit, gen_co2_cost=g.cost_per_unit_co2,
                 gen_max=g.running_max_production, gen_min=g.running_min_production)
    if 'grid' in by:
        g = by['grid']
        p.update(imp_max=g.max_import, exp_max=g.max_export, status=forecasts(g, 'grid_status', H),
                 imp_price=forecasts(g, 'import_price', H), exp_price=forecasts(g, 'export_price', H),
                 grid_co2=forecasts(g, 'co2_per_kwh', H), grid_co2_cost=g.cost_per_unit_co2)
    return p


def scalar(x):
    return float(np.ravel(x[0] if isinstance(x, (list, tuple)) else x)[-1])


def verify(p, control, names, what):
    scale = max([1.0, p['gen_max'], p['imp_max'], p['exp_max']] + p['load'] + p['pv'])
    fix = {'eps': 1e-6 * scale}
    need(names['battery'] in control, '%s: no control for the battery', what)
    fix['battery'] = scalar(control[names['battery']])
    if names.get('grid'):
        need(names['grid'] in control, '%s: no control for the grid', what)
        fix['grid'] = scalar(control[names['grid']])
    if names.get('genset'):
        need(names['genset'] in control, '%s: no control for the genset', what)
        on, e = np.ravel(control[names['genset']][0])
        fix['genset'], fix['on'] = float(e), int(round(float(on)))
    best = solve(p)
    if best is None:
        raise Inconclusive()
    mine = solve(p, fix)
    prices = max([p['loss_cost'], p['fuel'] + p['gen_co2'] * p['gen_co2_cost'], 1.0] + p['imp_price'] + p['exp_price'])
    tol = 1e-4 * scale * prices + 1e-6 * abs(best)
    if mine is None or mine > best + tol:
        mine = second_opinion(p, fix)
    if mine is None:
        raise Violation(f'{what}: the applied control {fix!r} is not the first action of any feasible plan ({p!r})')
    if mine > best + tol:
        raise Violation(f'{what}: the applied control {fix!r} leads to a cost of {mine!r} over the horizon, the optimum '
                        f'is {best!r} ({p!r})')
    return best, fix, scale


def run_mpc(mg, H, names, steps, what, exact, ctx):
    from pymgrid.algos import ModelPredictiveControl
    mpc = ModelPredictiveControl(mg, solver='GLPK_MI')
    need(mpc.microgrid is mg or mpc.microgrid.state_dict() is not None, 'no microgrid')
    target = mpc.microgrid
    orig = target.run
    seen = []

    def recording_run(*args, **kwargs):
        control = args[0] if args else kwargs['control']
        t = target.current_step
        try:
            best, fix, scale = verify(problem(target, H, names), control, names, f'{what}, step {t}')
        except Inconclusive:
            ctx.label('reference solver failed')
            seen.append(t)
            return orig(*args, **kwargs)
        res = orig(*args, **kwargs)
        info = res[3]
        if exact:
            for k in ('battery', 'grid', 'genset'):
                if names.get(k):
                    d = info[names[k]][0]
                    got = d.get('provided_energy', 0.0) - d.get('absorbed_energy', 0.0)
                    need(abs(got - fix[k]) <= 1e-5 * scale, '%s, step %d: %s was asked for %r and delivered %r', what, t,
                         k, fix[k], got)
        seen.append(t)
        ctx.nontrivial(H > 1 and abs(best) > 1e-9 and any(abs(fix[k]) > 1e-9 for k in fix if k not in ('eps', 'on')))
        return res

    target.run = recording_run
    try:
        log = mpc.run(max_steps=steps)
    finally:
        del target.run
    return log, seen


def check_small(case, ctx):
    spec = case['spec']
    mg = gen.build(spec)
    names = {'slack': 'balancing'}
    for nm, j, m in gen.index(spec):
        names[m['kind']] = nm
    b = next(m for m in spec['modules'] if m['kind'] == 'battery')
    g = next((m for m in spec['modules'] if m['kind'] == 'genset'), None)
    exact = b['efficiency'] == 1 or (b['cost'] > 0 and (g is None or g['min'] == 0))
    log, seen = run_mpc(mg, case['h'] + 1, names, case['steps'], 'mpc', exact, ctx)
    avail = gen.n_steps_available(spec)
    want = avail if case['steps'] is None else min(case['steps'], avail)
    need(len(seen) == want and len(log) == want, 'model predictive control ran %d steps and logged %d, expected %d',
         len(seen), len(log), want)
    ctx.label('grid', 'grid' in names)
    ctx.label('genset', 'genset' in names)
    ctx.label('executability checked', exact)


@st.composite
def small_cases(draw):
    kind = draw(st.sampled_from(['grid', 'genset', 'both', 'both']))
    h = draw(st.integers(1, 5))
    spec = draw(gen.microgrid_spec(min_n=2, max_n=7, min_loads=1, max_loads=1, min_pv=1, max_pv=1, min_batt=1,
                                   max_batt=1, min_genset=int(kind != 'grid'), max_genset=int(kind != 'grid'),
                                   min_grid=int(kind != 'genset'), max_grid=int(kind != 'genset'),
                                   simple_genset=True, names=False))
    for m in spec['modules']:
        if m['kind'] in ('load', 'pv', 'grid'):
            m['fc'] = {'kind': 'oracle', 'h': h}
        if m['kind'] == 'grid':
            # exporting at more than the import price is excluded: the plan would trade with itself
            m['exp'] = [min(e, 0.9 * i) for e, i in zip(m['exp'], m['imp'])]
            if m['status'] is None and draw(st.booleans()):
                m['status'] = [1] * spec['n']
        if m['kind'] == 'pv' and draw(st.booleans()):
            m['name'] = 'pv'
        if m['kind'] == 'load' and draw(st.integers(0, 3)) == 0:
            m['name'] = 'demand'
    avail = gen.n_steps_available(spec)
    return {'spec': spec, 'h': h, 'steps': draw(st.one_of(st.none(), st.integers(1, min(avail, 4))))}


def check_nonmodular(case, ctx):
    """The same problem on the converted (legacy) microgrid; series and parameters from the specification."""
    from pymgrid.algos import ModelPredictiveControl
    spec, h = case['spec'], case['h']
    H = h + 1
    mg = gen.build(spec)
    by = {m['kind']: m for m in spec['modules']}
    b, g, gr = by['battery'], by.get('genset'), by.get('grid')
    nm = mg.to_nonmodular()
    steps = min(case['steps'] or 3, spec['n'] - H)
    out = ModelPredictiveControl(nm, solver='GLPK_MI').run(max_steps=steps)
    act, status = out['action'], out['status']
    need(len(list(act['load'])) == steps, 'ran %d steps instead of %d', len(list(act['load'])), steps)
    names = {'battery': 'battery', 'grid': 'grid' if gr else None, 'genset': 'genset' if g else None}
    for i in range(steps):
        w = slice(i, i + H)
        p = {'H': H, 'load': by['load']['ts'][w], 'pv': by['pv']['ts'][w], 'eta': b['efficiency'],
             'cap': b['max_capacity'], 'soc': float(status['battery_soc'][i]), 'soc_min': b['min_capacity'] /
             b['max_capacity'], 'soc_max': 1.0, 'ch_max': b['max_charge'], 'dis_max': b['max_discharge'],
             'cycle': b['cost'], 'loss_cost': spec['llc'], 'fuel': g['cost'] if g else 0.0,
             'gen_co2': g['co2'] if g else 0.0, 'gen_co2_cost': g['co2_cost'] if g else 0.0,
             'gen_max': g['max'] if g else 0.0, 'gen_min': g['min'] if g else 0.0,
             'imp_max': gr['max_import'] if gr else 0.0, 'exp_max': gr['max_export'] if gr else 0.0,
             'status': (gr['status'] or [1] * spec['n'])[w] if gr else [0.0] * H,
             'imp_price': gr['imp'][w] if gr else [0.0] * H, 'exp_price': gr['exp'][w] if gr else [0.0] * H,
             'grid_co2': gr['co2'][w] if gr else [0.0] * H, 'grid_co2_cost': gr['co2_cost'] if gr else 0.0}
        control = {'battery': float(act['battery_discharge'][i]) - float(act['battery_charge'][i])}
        if gr:
            control['grid'] = float(act['grid_import'][i]) - float(act['grid_export'][i])
        if g:
            e = float(act['genset'][i])
            control['genset'] = [[1 if e > 1e-9 or g['min'] == 0 else 0, e]]
        try:
            best, fix, _ = verify(p, control, names, f'non-modular, step {i}')
        except Inconclusive:
            ctx.label('reference solver failed')
            continue
        ctx.nontrivial(abs(best) > 1e-9 and any(abs(fix[k]) > 1e-9 for k in fix if k not in ('eps', 'on')))


@st.composite
def nonmodular_cases(draw):
    case = draw(small_cases())
    spec = case['spec']
    spec['init'], spec['final'] = 0, -1
    n = case['h'] + 2 + draw(st.integers(0, 3))
    for m in spec['modules']:
        for k in ('ts', 'imp', 'exp', 'co2', 'status'):
            if isinstance(m.get(k), list):
                m[k] = (m[k] * n)[:n]
        if 'co2_cost' in m:
            m['co2_cost'] = 0.1
    spec['n'] = n
    return case


def check_scenario(case, ctx):
    n = case['scenario']
    mg = scen.fresh(n)
    h = case['h']
    for mod in mg.modules.iterlist():
        if hasattr(mod, 'time_series'):
            mod.set_forecaster('oracle', forecast_horizon=h)
    mg.initial_step = case['start']
    mg.final_step = min(8759, case['start'] + 3)
    mg.reset()
    b = mg.modules['battery'][0]
    b.soc = b.min_soc + case['soc'] * (1 - b.min_soc)
    names = {'load': 'load', 'pv': 'pv', 'battery': 'battery', 'slack': 'unbalanced_energy'}
    for k in ('grid', 'genset'):
        if k in mg.modules.names():
            names[k] = k
    exact = 'genset' not in names or mg.modules['genset'][0].running_min_production == 0
    exact = exact and b.battery_cost_cycle > 0
    run_mpc(mg, h + 1, names, 2, f'scenario {n}', exact, ctx)


@st.composite
def scen_cases(draw):
    return {'scenario': draw(st.integers(0, 24)), 'start': draw(st.integers(0, 8700)), 'h': draw(st.one_of(st.integers(1, 8), st.sampled_from([12, 23]))),
            'soc': draw(gen.LEVEL)}


FACETS = [
    Facet('small', small_cases, check_small, 400),
    Facet('nonmodular', nonmodular_cases, check_nonmodular, 200),
    Facet('scenario', scen_cases, check_scenario, 48, 1000),
]
