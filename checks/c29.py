"""C29: equality tells same from different and never fails."""
import copy
import pickle

from hypothesis import strategies as st

from checks.c12 import make_traj, seed_all
from vlib import gen
from vlib.core import Facet
from vlib.drive import need

PROPERTY = 'C29'
RULE = ('Pairs of modules, microgrids and environments built from the same random specification with the same history, '
        'and pairs that differ in one random respect (a parameter, a value or the length of a series, forecaster, '
        'horizon, noise, window, state, step, log, module, name, trajectory, class). Non-trivial: the pair differs, or '
        'both have run.')
ASSUMPTIONS = ['numbers differ by at least a tenth of their scale (arrays are compared up to rounding)',
               'callable costs, transition models and user-defined forecasters are compared by the == of the callable',
               'reward shaping functions and the order of differently named modules are not part of equality']


def equal(a, b, what):
    need((a == b) is True or (a == b) == True, '%s are not equal', what)  # noqa: E712
    need(not (a != b), '%s are equal and different', what)
    need(b == a, '%s: equality is not symmetric', what)


def different(a, b, what):
    need(not (a == b), '%s are equal', what)
    need(a != b, '%s are neither equal nor different', what)
    need(not (b == a), '%s: equality is not symmetric', what)


def vary(m, how, u, n, scale):
    """A module specification that differs from m in one respect; None if it cannot."""
    m = copy.deepcopy(m)
    k = m['kind']
    size = 1e-3 if u // 7 % 3 == 0 else 1.0  # of a difference
    if how == 'raise':
        m['raise_errors'] = not m.get('raise_errors', False)
        return m
    if how == 'value' and k in ('load', 'pv'):
        m['ts'][u % n] += 0.5 * scale * size
        return m
    if how == 'value' and k == 'grid':
        col = ['imp', 'exp', 'co2'][u % 3]
        m[col][u % n] += 0.5 * size
        return m
    if how == 'longer' and k in ('load', 'pv'):
        m['ts'] = m['ts'] + [m['ts'][-1]]
        return m
    if how == 'longer' and k == 'grid':
        for c in ('imp', 'exp', 'co2'):
            m[c] = m[c] + [m[c][-1]]
        if m['status'] is not None:
            m['status'] = m['status'] + [1]
        return m
    if how == 'status' and k == 'grid' and m['status'] is not None:
        m['status'][u % n] = 1 - m['status'][u % n]
        return m
    if how == 'forecast' and k in ('load', 'pv', 'grid'):
        old = m.get('fc')
        opts = [None, {'kind': 'oracle', 'h': 2}, {'kind': 'oracle', 'h': 3},
                {'kind': 'gauss', 'h': 3, 'std': 0.25, 'inc': False, 'rel': False},
                {'kind': 'gauss', 'h': 3, 'std': 0.25, 'inc': True, 'rel': False}]
        if old and old['kind'] == 'gauss' and u % 2:
            opts = [dict(old, std=old['std'] + 0.7), dict(old, inc=not old['inc']), dict(old, h=old['h'] + 1)]
        new = opts[u % len(opts)]
        if new == old:
            return None
        m['fc'] = new
        return m
    if how == 'param':
        p = {'battery': ['max_charge', 'max_discharge', 'max_capacity', 'cost', 'efficiency', 'init'],
             'genset': ['max', 'cost', 'co2', 'co2_cost', 'start_up', 'wind_down', 'abort', 'init_up', 'min'],
             'grid': ['max_import', 'max_export', 'co2_cost'],
             'unbalanced': ['llc', 'ogc']}.get(k)
        if not p:
            return None
        p = p[u % len(p)]
        if p in ('abort', 'init_up'):
            m[p] = not m[p]
        elif p in ('start_up', 'wind_down'):
            m[p] += 1
        elif p == 'efficiency':
            m[p] = 0.8 if m[p] != 0.8 else 0.6
        elif p == 'init':
            mid = (m['min_capacity'] + m['max_capacity']) / 2
            now = m['init_charge'] if m['init_soc'] is None else m['init_soc'] * m['max_capacity']
            m['init_charge'], m['init_soc'] = (m['max_capacity'] if now <= mid else m['min_capacity']), None
        elif p == 'min':
            m['min'] = 0.0 if m['min'] >= 0.5 * m['max'] else m['max']
        elif p in ('max', 'max_charge', 'max_discharge', 'max_capacity', 'max_import', 'max_export'):
            m[p] += scale * size
        else:
            m[p] += size
        return m
    return None


HOWS = ['param', 'param', 'value', 'longer', 'status', 'forecast', 'raise']


def two(fn):
    out = []
    for _ in range(2):
        seed_all(5)
        out.append(fn())
    return out


def check_module(case, ctx):
    m, init, final = case['m'], case['init'], case['final']
    a, b = two(lambda: gen.build_module(m, init, final))
    equal(a, a, 'a module and itself')
    equal(a, b, f'two {m["kind"]} modules built alike')
    equal(a, copy.deepcopy(a), f'a {m["kind"]} module and its copy')
    equal(a, pickle.loads(pickle.dumps(a)), f'a {m["kind"]} module and its pickled copy')
    need(not (a == 3) and a != 'x' and not (a == None), 'a module equals a number')  # noqa: E711
    v = vary(m, case['how'], case['u'], case['n'], case['scale'])
    if v is None:
        return
    seed_all(5)
    c = gen.build_module(v, init, final)
    different(a, c, f'{m["kind"]} modules that differ in {case["how"]} {case["u"]}')
    other = gen.build_module(case['other'], init, final)
    if type(other) is not type(a):
        different(a, other, 'modules of different classes')
    ctx.nontrivial(True)


@st.composite
def module_cases(draw):
    n = draw(st.integers(2, 8))
    scale = draw(gen.SCALES)

    def one(kind):
        fc = draw(gen.forecast_spec()) if kind in ('load', 'pv', 'grid') else None
        re = draw(st.booleans())
        if kind == 'load':
            return draw(gen.load_spec(n, scale, fc, re))
        if kind == 'pv':
            return draw(gen.pv_spec(n, scale, fc, re))
        if kind == 'grid':
            return draw(gen.grid_spec(n, scale, fc, re))
        if kind == 'battery':
            return draw(gen.battery_spec(scale, re))
        return draw(gen.genset_spec(scale, re))
    kinds = ['load', 'pv', 'battery', 'genset', 'grid']
    init = draw(st.integers(0, n - 1))
    final = draw(st.one_of(st.just(-1), st.integers(init + 1, n)))
    return {'m': one(draw(st.sampled_from(kinds))), 'other': one(draw(st.sampled_from(kinds))), 'n': n, 'scale': scale,
            'init': init, 'final': final, 'how': draw(st.sampled_from(HOWS)), 'u': draw(st.integers(0, 29))}


def run_all(spec, mg, steps):
    k = 0
    for i, s in enumerate(steps):
        if mg.current_step >= mg.final_step:
            break
        seed_all(100 + i)
        mg.run(gen.resolve(spec, mg, s), normalized=False)
        k += 1
    return k


def check_microgrid(case, ctx):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    cls = {'m': Microgrid, 'd': DiscreteMicrogridEnv, 'c': ContinuousMicrogridEnv}
    spec = case['spec']
    t1 = {'trajectory_func': make_traj(case['traj'], spec)}
    a, b = two(lambda: gen.build(spec, cls=cls[case['cls']], trajectory_func=make_traj(case['traj'], spec)))
    equal(a, b, 'two microgrids built alike')
    for x in (a, b):
        seed_all(6)
        x.reset()
    equal(a, b, 'two microgrids built and reset alike')
    k = run_all(spec, a, case['steps'])
    if k:
        different(a, b, f'a fresh microgrid and one that has run {k} steps')
    run_all(spec, b, case['steps'])
    equal(a, b, f'two microgrids with the same history of {k} steps')
    for x, y in zip(a.modules.iterlist(), b.modules.iterlist()):
        equal(x, y, f'modules {x.name} with the same history')
    equal(a, copy.deepcopy(a), 'a microgrid and its copy')
    equal(a, pickle.loads(pickle.dumps(a)), 'a microgrid and its pickled copy')
    need(not (a == 3) and a != 'x' and not (a == None), 'a microgrid equals a number')  # noqa: E711

    how, u = case['how'], case['u']
    s2 = copy.deepcopy(spec)
    kw = dict(t1)
    c2 = case['cls']
    if how == 'reset':
        if k:
            seed_all(5)
            b.reset()
            different(a, b, 'microgrids, one of them reset')
        ctx.nontrivial(k > 0)
        return
    if how == 'battery':
        bats = [m for m in b.modules.iterlist() if hasattr(m, 'current_charge')]
        if bats:
            m = bats[u % len(bats)]
            m.current_charge = m.max_capacity if m.current_charge <= (m.min_capacity + m.max_capacity) / 2 \
                else m.min_capacity
            different(a, b, 'microgrids that differ in a charge')
        ctx.nontrivial(len(bats) > 0)
        return
    i = u % len(s2['modules'])
    if how == 'fewer':
        if sum(m['kind'] in ('load', 'pv', 'grid') for m in s2['modules']) < 2 or \
                sum(m['kind'] in ('battery', 'grid', 'genset') for m in s2['modules']) < 2:
            return
        del s2['modules'][i]
    elif how == 'more':
        s2['modules'].append(copy.deepcopy(s2['modules'][i]))
    elif how == 'rename':
        s2['modules'][i]['name'] = 'another'
    elif how == 'llc':
        s2['llc'] += 1.0
    elif how == 'ogc':
        s2['ogc'] += 1.0
    elif how == 'traj':
        kw['trajectory_func'] = make_traj(case['traj2'], spec)
        if repr(kw['trajectory_func']) == repr(t1['trajectory_func']):
            return
    elif how == 'window':
        last = s2['final'] if s2['final'] > 0 else s2['n']
        if last - s2['init'] < 2:
            return
        s2['final'] = last - 1
        if case['traj']:
            return
    elif how == 'class':
        c2 = {'m': 'c', 'c': 'm', 'd': 'm'}[c2]
    else:
        v = vary(s2['modules'][i], how, u, spec['n'], spec['scale'])
        if v is None or how == 'longer' and len(s2['modules']) > 1 and spec['final'] <= 0:
            return
        s2['modules'][i] = v
    seed_all(5)
    a = gen.build(spec, cls=cls[case['cls']], **t1)
    seed_all(5)
    different(a, gen.build(s2, cls=cls[c2], **kw), f'microgrids that differ in {how}')
    ctx.nontrivial(True)
    ctx.label(how)


DET = st.tuples(st.just('det'), gen.LEVEL, gen.LEVEL).map(list)
FIXED = st.tuples(st.just('fixed'), gen.LEVEL).map(list)
TRAJS = st.one_of(st.none(), DET, DET, FIXED, st.just(['stoch']))
MG_HOWS = HOWS + ['reset', 'battery', 'fewer', 'more', 'rename', 'llc', 'ogc', 'traj', 'traj', 'traj', 'window', 'class']


@st.composite
def mg_cases(draw):
    cls = draw(st.sampled_from('mmdc'))
    spec = draw(gen.microgrid_spec(min_n=3, max_n=7, max_ctrl=3, min_ctrl=1, min_loads=1, forecasts=True,
                                   max_genset=1 if cls == 'd' else None))
    return {'spec': spec, 'cls': cls, 'steps': draw(gen.action_seq(spec, draw(st.integers(0, 4)))),
            'traj': draw(TRAJS), 'traj2': draw(TRAJS),
            'how': draw(st.sampled_from(MG_HOWS)), 'u': draw(st.integers(0, 29))}


FACETS = [
    Facet('module', module_cases, check_module, 1600),
    Facet('microgrid', mg_cases, check_microgrid, 1200),
]
