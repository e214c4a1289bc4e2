"""C27: specifications that make no sense are refused where they are made; sensible ones are accepted."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Facet, Violation
from vlib.drive import need, need_same

PROPERTY = 'C27'
QUICK_FACTOR = 2.5
RULE = ('A random valid module, microgrid, environment or control, and one drawn defect in it (or a drawn edge case that '
        'is still valid). The valid form must be accepted, the defective one refused with an exception, leaving '
        'everything that existed before as it was. Non-trivial: a defect was refused, or an edge case accepted.')
ASSUMPTIONS = ['the kind of exception is only checked where the library documents it by raising it explicitly',
               'a step that is refused midway (raise_errors) may leave modules that already stepped ahead; see DESIGN.md']


def refused(f, what, kinds=Exception):
    try:
        r = f()
    except kinds:
        return
    except Exception as e:
        raise Violation(f'{what}: refused with {type(e).__name__}: {str(e)[:150]}')
    raise Violation(f'{what}: accepted, giving {str(r)[:100]}')


# ------------------------------------------------------------------------------------------------- modules

def kwargs_of(m, init, final):
    """Class and constructor arguments of a module specification."""
    from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule
    k = m['kind']
    if k in ('load', 'pv'):
        return (LoadModule if k == 'load' else RenewableModule,
                dict(time_series=np.array(m['ts']), initial_step=init, final_step=final, **gen.fc_kwargs(m.get('fc'))))
    if k == 'grid':
        return GridModule, dict(max_import=m['max_import'], max_export=m['max_export'], time_series=gen.grid_ts(m),
                                initial_step=init, final_step=final, **gen.fc_kwargs(m.get('fc')))
    if k == 'battery':
        return BatteryModule, dict(min_capacity=m['min_capacity'], max_capacity=m['max_capacity'],
                                   max_charge=m['max_charge'], max_discharge=m['max_discharge'],
                                   efficiency=m['efficiency'], init_charge=m['init_charge'], init_soc=m['init_soc'])
    return GensetModule, dict(running_min_production=m['min'], running_max_production=m['max'], genset_cost=m['cost'])


def mixed(ts, at, u):
    ts = np.array(ts, dtype=float)
    ts[:] = np.abs(ts) + 0.5
    if u < 0.5:
        # One value of the other sign in a series as long as a year's data rather than as long as the generated ones.
        ts = np.tile(ts, 1 + (at * 37) % 400)
    ts[(at * 7919) % len(ts)] *= -(u + 0.01)
    return ts if at % 3 else -ts


def wrong_sign(val_c, val_c_n, n):
    return -val_c_n


def shifted_sign(val_c, val_c_n, n):
    """Right sign almost everywhere."""
    out = np.array(val_c_n, dtype=float)
    out[-1] = -out[-1]
    return out


def wrong_shape(val_c, val_c_n, n):
    return np.abs(np.ones(7 * len(val_c_n) + 1))


def not_number(val_c, val_c_n, n):
    return np.full(np.shape(val_c_n), 'x', dtype=object)


def failing(val_c, val_c_n, n):
    raise RuntimeError('no forecast')


BAD_FC = {'wrong-sign': wrong_sign, 'shifted-sign': shifted_sign, 'shape': wrong_shape, 'not-number': not_number,
          'failing': failing, 'name': 'orakel', 'list': [1.0], 'dict': {}}


def break_module(kw, kind, d, at, u):
    """Put defect d into the arguments; returns False when it does not apply."""
    n = len(kw['time_series']) if 'time_series' in kw else 0
    if d == 'mixed-series' and kind in ('load', 'pv') and n > 1:
        kw['time_series'] = mixed(kw['time_series'], at, u)
    elif d == 'empty-series' and n:
        kw['time_series'] = kw['time_series'][:0]
    elif d == 'fractional-final' and n:
        kw['final_step'] = kw['initial_step'] + 1.0 + 0.25 + u / 2
    elif d == 'final-before' and n and kw['initial_step'] > 0:
        kw['final_step'] = 1 + at % kw['initial_step']
    elif d == 'negative-import' and kind == 'grid':
        kw['max_import'] = -1e-6 - u
    elif d == 'negative-export' and kind == 'grid':
        kw['max_export'] = -1e-6 - u
    elif d == 'columns' and kind == 'grid':
        c = [1, 2, 5, 6][at % 4]
        kw['time_series'] = np.ones((n, c))
    elif d == 'flat' and kind == 'grid':
        kw['time_series'] = kw['time_series'][:, 0]
    elif d == 'negative-entry' and kind == 'grid':
        kw['time_series'][at % n, at % 3] = -1e-9 - u
    elif d == 'status' and kind == 'grid' and kw['time_series'].shape[1] == 4:
        kw['time_series'][at % n, 3] = [0.5, 2, -1, 0.999][at % 4]
    elif d == 'range' and kind == 'genset':
        kw['running_min_production'] = kw['running_max_production'] * (1 + 1e-6 + u)
    elif d == 'no-charge' and kind == 'battery':
        kw['init_charge'] = kw['init_soc'] = None
    elif d == 'efficiency' and kind == 'battery':
        kw['efficiency'] = [0.0, -0.5, 1.0 + 1e-6 + u, 2.0][at % 4]
    elif d.startswith('fc-') and n - kw['initial_step'] >= 3:
        if d == 'fc-shifted-sign' and kind == 'grid':
            return False
        kw['time_series'] = np.abs(kw['time_series']) * (kw['time_series'] > 0) + 1.0 * (kw['time_series'] <= 0)
        if kind == 'grid' and kw['time_series'].shape[1] == 4:
            kw['time_series'][:, 3] = 1
        kw['final_step'] = -1
        kw.update(forecaster=BAD_FC[d[3:]], forecast_horizon=2)
        kw.pop('forecaster_increase_uncertainty', None)
        kw.pop('forecaster_relative_noise', None)
    else:
        return False
    return True


DEFECTS = ['mixed-series', 'empty-series', 'fractional-final', 'final-before', 'negative-import', 'negative-export',
           'columns', 'flat', 'negative-entry', 'status', 'range', 'no-charge', 'efficiency'] + ['fc-' + k for k in BAD_FC]
EXPLICIT = {'mixed-series', 'fractional-final', 'final-before', 'negative-import', 'negative-export', 'columns',
            'negative-entry', 'status', 'range', 'no-charge', 'fc-name', 'fc-list', 'fc-dict', 'fc-wrong-sign',
            'fc-shifted-sign', 'fc-shape'}


def check_module(case, ctx):
    m = case['module']
    cls, kw = kwargs_of(m, case['init'], case['final'])
    cls(**copy.deepcopy(kw))
    if break_module(kw, m['kind'], case['defect'], case['at'], case['u']):
        refused(lambda: cls(**kw), f'{m["kind"]} with defect {case["defect"]}',
                ValueError if case['defect'] in EXPLICIT else Exception)
        ctx.nontrivial()
        ctx.label(case['defect'])


def check_edges(case, ctx):
    """Edge cases that are valid."""
    from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule
    e, u = case['edge'], case['u']
    if e == 'zero-limits':
        g = GridModule(max_import=0, max_export=0, time_series=np.ones((3, 4)))
        need(g.max_production == 0 and g.max_consumption == 0, 'limits of a grid without capacity')
    elif e == 'list-series':
        rows = [[0.1 + u, 0.2, 0.3] + ([1.0] if case['at'] % 2 else []) for _ in range(4)]
        g = GridModule(max_import=1, max_export=1, time_series=rows)
        need_same(np.asarray(g.time_series), np.array([[0.1 + u, 0.2, 0.3, 1.0]] * 4), 'series given as lists')
        mod = LoadModule(time_series=[1.0 + u, 2.0])
        need_same(np.abs(np.asarray(mod.time_series)), np.array([[1.0 + u], [2.0]]), 'load given as a list')
        mod = RenewableModule(time_series=[1, 2, 0])
        need_same(np.asarray(mod.time_series, dtype=float), np.array([[1.0], [2.0], [0.0]]), 'integers')
    elif e == 'one-step':
        mod = RenewableModule(time_series=np.array([1.0, 2.0, 3.0]), initial_step=2, final_step=3)
        need(mod.step(1.0, normalized=False)[2], 'an episode of one step is done after it')
    elif e == 'negative-load':
        a, b = (LoadModule(time_series=s * np.array([1.0 + u, 0.0, 2.0])) for s in (1, -1))
        need_same(np.asarray(a.time_series), np.asarray(b.time_series), 'load given as negative values')
        need(a.max_consumption == 1.0 + u, 'demand %r', a.max_consumption)
    elif e == 'point-genset':
        g = GensetModule(running_min_production=1.0 + u, running_max_production=1.0 + u, genset_cost=0.1)
        need(g.max_production == g.min_production == 1.0 + u, 'genset that runs at one level')
    elif e == 'both-inits':
        b = BatteryModule(min_capacity=0, max_capacity=10, max_charge=1, max_discharge=1, efficiency=1.0,
                          init_charge=10 * u, init_soc=0.123)
        need_same(b.soc, u, 'the initial charge wins over the initial soc')
    elif e == 'final-minus-one':
        mod = LoadModule(time_series=np.ones(4), final_step=[-1, 0, -7][case['at'] % 3])
        need(mod.final_step == 4, 'final step %r', mod.final_step)
    ctx.nontrivial()
    ctx.label(e)


EDGES = ['zero-limits', 'list-series', 'one-step', 'negative-load', 'point-genset', 'both-inits', 'final-minus-one']


def check_setters(case, ctx):
    """Assignments to a module in use."""
    m, u, at = case['module'], case['u'], case['at']
    mod = gen.build_module(m, case['init'], case['final'])
    n = len(mod.time_series)
    last = mod.final_step
    for _ in range(min(case['steps'], last - case['init'])):
        mod.step(0.0 if m['kind'] != 'pv' else 0.0, normalized=False)
    before = copy.deepcopy((np.array(mod.time_series), dict(mod.state_dict()), mod.final_step, mod.initial_step,
                            mod.current_step, mod.log_dict()))
    d = case['what']
    if d == 'final':
        bad = [1.5, mod.initial_step + 0.5 + 1][at % 2]
        if mod.initial_step > 0 and at % 3 == 0:
            bad = 1 + at % mod.initial_step
        refused(lambda: setattr(mod, 'final_step', bad), f'final step {bad} with initial step {mod.initial_step}', ValueError)
    elif d == 'series' and m['kind'] == 'grid':
        ts = np.array(mod.time_series, dtype=float)
        j = at % 3
        if j == 0:
            ts[at % n, at % 3] = -1 - u
        elif j == 1:
            ts[at % n, 3] = 0.5
        else:
            ts = np.ones((n, 2))
        refused(lambda: setattr(mod, 'time_series', ts), 'invalid grid series', ValueError)
    elif d == 'series' and n > 1:
        ts = mixed(np.asarray(mod.time_series)[:, 0], at, u)
        refused(lambda: setattr(mod, 'time_series', ts), 'series of mixed sign', ValueError)
    elif d == 'good-grid-series' and m['kind'] == 'grid':
        ts = np.random.RandomState(at).rand(n, 3)
        mod.time_series = ts
        need_same(np.asarray(mod.time_series), np.hstack([ts, np.ones((n, 1))]), 'three-column series set later')
        if mod.current_step < n:
            need_same(float(mod.max_production), float(m['max_import']), 'import limit without outages')
            st_ = mod.state_dict()
            need_same([st_[k + '_current'] for k in ('import_price', 'export_price', 'co2_per_kwh', 'grid_status')],
                      [*ts[mod.current_step], 1.0], 'state after setting the series')
        ctx.nontrivial()
        return
    else:
        return
    after = (np.array(mod.time_series), dict(mod.state_dict()), mod.final_step, mod.initial_step, mod.current_step,
             mod.log_dict())
    for a, b, w in zip(before, after, ('series', 'state', 'final step', 'initial step', 'current step', 'log')):
        need_same(b, a, f'{w} after a refused assignment')
    ctx.nontrivial()
    ctx.label(d)


# ------------------------------------------------------------------------------------------------- microgrids

def check_microgrid(case, ctx):
    from pymgrid import Microgrid
    spec, d = case['spec'], case['defect']
    gen.build(spec)
    ts = [m for m in spec['modules'] if m['kind'] in ('load', 'pv', 'grid')]
    mods = gen.build_modules(spec)
    ok = True
    if d == 'clock':
        kinds = {'load', 'pv', 'grid'}
        i = [i for i, m in enumerate(spec['modules']) if m['kind'] in kinds][case['at'] % len(ts)]
        if len(spec['modules']) < 2 or gen.n_steps_available(spec) < 2:
            return
        m = spec['modules'][i]
        mod = gen.build_module(m, spec['init'] + 1, spec['final'])
        mods[i] = (m['name'], mod) if m.get('name') else mod
        refused(lambda: Microgrid(mods), 'modules with different initial steps', ValueError)
    elif d == 'end':
        if len(ts) < 2 or gen.n_steps_available(spec) < 2:
            return
        i = [i for i, m in enumerate(spec['modules']) if m['kind'] in ('load', 'pv', 'grid')][case['at'] % len(ts)]
        m = spec['modules'][i]
        last = spec['final'] if spec['final'] > 0 else spec['n']
        mod = gen.build_module(m, spec['init'], last - 1)
        mods[i] = (m['name'], mod) if m.get('name') else mod
        refused(lambda: Microgrid(mods), 'modules with different final steps', ValueError)
    elif d == 'not-list':
        one = mods[0][1] if isinstance(mods[0], tuple) else mods[0]
        refused(lambda: Microgrid(one), 'a single module', TypeError)
    elif d == 'not-module':
        bad = [3, None, 'battery', ('battery', 3), object()][case['at'] % 5]
        refused(lambda: Microgrid(mods + [bad]), f'{bad!r} as a module')
    elif d == 'trajectory':
        refused(lambda: gen.build(spec, trajectory_func=7), 'a trajectory that is not callable', TypeError)
    else:
        mg = gen.build(spec)
        before = mg.state_dict()
        if d == 'attribute':
            refused(lambda: mg.set_module_attr('no_such_attribute', 1), 'setting an unknown attribute', AttributeError)
        elif d == 'forecaster-name':
            refused(lambda: mg.set_forecaster({'no_such_module': 'oracle'}), 'forecaster of an unknown module', NameError)
        elif d == 'module-name':
            refused(lambda: mg.modules['no_such_module'], 'unknown module', KeyError)
            refused(lambda: mg.modules.no_such_module, 'unknown module', AttributeError)
            refused(lambda: mg.no_such_module, 'unknown module', AttributeError)
        elif d == 'query':
            refused(lambda: mg.modules.get_attrs(), 'a query for nothing', ValueError)
            refused(lambda: mg.modules.get_attrs('no_such_attribute'), 'a query for an unknown attribute', AttributeError)
            vals = [getattr(x, 'is_source') for x in mg.modules.iterlist()]
            if len(set(vals)) > 1:
                refused(lambda: mg.modules.get_attrs('is_source', unique=True), 'a unique value of differing ones',
                        ValueError)
        else:
            ok = False
        need_same(mg.state_dict(), before, 'state after a refused request')
    if ok:
        ctx.nontrivial()
        ctx.label(d)


MG_DEFECTS = ['clock', 'end', 'not-list', 'not-module', 'trajectory', 'attribute', 'forecaster-name', 'module-name', 'query']


def check_extra(case, ctx):
    """Controls for modules that take none are ignored (with a warning)."""
    spec = case['spec']
    a, b = gen.build(spec), gen.build(spec)
    for k, step in enumerate(case['actions']):
        control = gen.resolve(spec, a, step)
        more = dict(control)
        for nm in case['extra']:
            if nm not in control:
                more = {nm: [0.7], **more} if case['first'] else {**more, nm: [0.7]}
        ra = a.run(copy.deepcopy(control), normalized=False)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            rb = b.run(copy.deepcopy(more), normalized=False)
        need_same(list(ra), list(rb), f'step {k} with controls for {sorted(set(more) - set(control))}')
        if len(more) > len(control):
            need(any(nm in str(x.message) for x in w for nm in case['extra']), 'ignored controls are not mentioned')
            ctx.nontrivial()
        if ra[2]:
            break
    need_same(a.state_dict(), b.state_dict(), 'state')


def check_env(case, ctx):
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec, d = case['spec'], case['defect']
    if sum(m['kind'] in ('battery', 'genset', 'grid') for m in spec['modules']) == 0:
        return
    cls = DiscreteMicrogridEnv if case['discrete'] else ContinuousMicrogridEnv
    if d == 'keys':
        good = []
        for m in spec['modules']:
            good += {'load': ['load_current'], 'pv': ['renewable_current'], 'battery': ['soc']}.get(m['kind'], [])
        gen.build(spec, cls=cls, observation_keys=good[:2])
        keys = good[:1] + ['no_such_key'] if case['at'] % 2 else ['no_such_key'] + good
        refused(lambda: gen.build(spec, cls=cls, observation_keys=keys), f'observation keys {keys}', NameError)
        ctx.nontrivial()
        return
    env = gen.build(spec, cls=cls)
    env.reset()
    before = env.state_dict()
    step = env.current_step
    if case['discrete']:
        n = env.action_space.n
        bad = [-1, n, n + 7, n + 0.5, 0.5, None, 'x'][case['at'] % 7]
        refused(lambda: env.step(bad), f'action {bad!r} of {n}', ValueError)
        if d == 'remove':
            bad = [-1, n, n + 1][case['at'] % 3]
            refused(lambda: env.remove_action(bad), f'removing action {bad} of {n}', ValueError)
            need(env.action_space.n == n, 'actions after a refused removal')
    else:
        dim = env.action_space.shape[0]
        rs = np.random.RandomState(case['at'])
        act = rs.rand(dim)
        j = case['at'] % 4
        if j == 0:
            act[rs.randint(dim)] = 1.0 + 0.05 + rs.rand()
        elif j == 1:
            act[rs.randint(dim)] = -0.05 - rs.rand()
        elif j == 2:
            act = np.append(act, 0.5)
        else:
            act = act[:-1]
        refused(lambda: env.step(act), f'action {act} of dimension {dim}')
    need_same(env.state_dict(), before, 'state after a refused action')
    need(env.current_step == step, 'step after a refused action')
    ctx.nontrivial()


def check_values(case, ctx):
    """Values of the wrong length are refused by (un-)normalization; lists and arrays are equivalent."""
    mod = gen.build_module(case['module'], 0, -1)
    rs = np.random.RandomState(case['at'])
    for kw in ({'act': True}, {'obs': True}):
        space = mod.action_space if 'act' in kw else mod.observation_space
        dim = space.shape[0]
        if dim == 0 or not np.all(np.isfinite(space.unnormalized.low)):
            continue
        for f in (mod.to_normalized, mod.from_normalized):
            bad = rs.rand(dim + 1 + case['at'] % 3)
            refused(lambda: f(bad, **kw), f'{f.__name__} of {len(bad)} values, space of {dim}', TypeError)
            if dim > 1:
                refused(lambda: f(0.5, **kw), f'{f.__name__} of one value, space of {dim}', TypeError)
            good = rs.rand(dim)
            if f == mod.to_normalized:
                good = space.unnormalized.low + good * (space.unnormalized.high - space.unnormalized.low)
            need_same(np.asarray(f(list(good), **kw)), np.asarray(f(good, **kw)), f'{f.__name__} of a list')
    refused(lambda: mod.to_normalized(np.zeros(mod.action_space.shape[0])), 'neither act nor obs')
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------- strategies

@st.composite
def a_module(draw, kinds=('load', 'pv', 'grid', 'battery', 'genset'), fc=True):
    n = draw(st.integers(1, 9))
    scale = draw(gen.SCALES)
    k = draw(st.sampled_from(list(kinds)))
    f = draw(gen.forecast_spec()) if fc else None
    m = draw({'load': gen.load_spec(n, scale, f), 'pv': gen.pv_spec(n, scale, f), 'grid': gen.grid_spec(n, scale, f),
              'battery': gen.battery_spec(scale), 'genset': gen.genset_spec(scale)}[k])
    init = draw(st.integers(0, n - 1))
    return {'module': m, 'init': init, 'final': draw(st.sampled_from([-1, n])), 'at': draw(st.integers(0, 40)),
            'u': draw(gen.LEVEL)}


PER_KIND = {'load': ['mixed-series', 'empty-series', 'fractional-final', 'final-before'] + ['fc-' + k for k in BAD_FC],
            'grid': [d for d in DEFECTS if d not in ('mixed-series', 'range', 'no-charge', 'efficiency')],
            'battery': ['no-charge', 'efficiency'], 'genset': ['range']}
PER_KIND['pv'] = PER_KIND['load']


@st.composite
def module_cases(draw):
    c = draw(a_module(kinds=('load', 'load', 'pv', 'pv', 'grid', 'grid', 'grid', 'battery', 'genset')))
    c['defect'] = draw(st.sampled_from(PER_KIND[c['module']['kind']]))
    return c


@st.composite
def edge_cases(draw):
    return {'edge': draw(st.sampled_from(EDGES)), 'u': draw(gen.LEVEL), 'at': draw(st.integers(0, 40))}


@st.composite
def setter_cases(draw):
    c = draw(a_module(kinds=('load', 'pv', 'grid', 'grid')))
    c['what'] = draw(st.sampled_from(['final', 'series', 'series', 'good-grid-series']))
    c['steps'] = draw(st.integers(0, 6))
    return c


@st.composite
def mg_cases(draw):
    return {'spec': draw(gen.microgrid_spec(min_ctrl=1, min_loads=1)), 'defect': draw(st.sampled_from(MG_DEFECTS)),
            'at': draw(st.integers(0, 40))}


@st.composite
def extra_cases(draw):
    c = draw(gen.episode(max_steps=4))
    names = sorted({gen.mod_name(m) for m in c['spec']['modules'] if m['kind'] in ('load', 'pv')}) + ['balancing', 'ghost']
    c['extra'] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))
    c['first'] = draw(st.booleans())
    return c


@st.composite
def env_cases(draw):
    return {'spec': draw(gen.microgrid_spec(min_ctrl=1, max_ctrl=3, min_loads=1, simple_genset=True)),
            'defect': draw(st.sampled_from(['keys', 'action', 'action', 'remove'])), 'discrete': draw(st.booleans()),
            'at': draw(st.integers(0, 40))}


FACETS = [
    Facet('module', module_cases, check_module, 1600),
    Facet('edges', edge_cases, check_edges, 200),
    Facet('setters', setter_cases, check_setters, 800),
    Facet('microgrid', mg_cases, check_microgrid, 600),
    Facet('extra-controls', extra_cases, check_extra, 300),
    Facet('environment', env_cases, check_env, 300),
    Facet('values', a_module, check_values, 600),
]
