"""C12: YAML round trip of modules, microgrids and environments, at any point of an episode."""
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import frames_same, need, need_same

PROPERTY = 'C12'
QUICK_FACTOR = 1.3
RULE = ('Random microgrids (all module kinds, names, forecasters, trajectories, shapers), single modules and '
        'environments run for a random prefix, dumped inline or to a file (temporary directory) and loaded; the loaded '
        'object is compared with the original, then both continue with the same controls, and both are reset and '
        'replayed. Non-trivial: at least one step before the dump and one after it.')
ASSUMPTIONS = ['callable costs and forecasters, which YAML cannot represent, are excluded',
               'noisy forecasters redraw the current forecast on loading, so forecasts are compared in shape only',
               'soc and charge of a battery are restored from each other, so == is only required without batteries',
               'array files go through CSV, so file round trips are compared with tolerance 1e-9',
               'actions removed by DiscreteMicrogridEnv.remove_action are not part of the round trip']


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_c12_')
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def round_trip(obj, mode, cls):
    if mode == 'inline':
        text = obj.dump()
        need(isinstance(text, str) and text, 'dump() returned %r', type(text))
        return cls.load(text)
    with Scratch() as d:
        f = d / 'x.yaml'
        with open(f, 'w') as fh:
            obj.dump(fh)
        with open(f) as fh:
            return cls.load(fh)


PARAMS = {
    'load': ('raise_errors', 'forecast_horizon', 'initial_step', 'final_step', 'forecaster_increase_uncertainty',
             'forecaster_relative_noise'),
    'pv': ('raise_errors', 'provided_energy_name', 'forecast_horizon', 'initial_step', 'final_step',
           'forecaster_increase_uncertainty', 'forecaster_relative_noise'),
    'battery': ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency', 'battery_cost_cycle',
                'init_charge', 'init_soc', 'min_soc', 'max_soc', 'raise_errors', 'initial_step'),
    'genset': ('running_min_production', 'running_max_production', 'genset_cost', 'co2_per_unit', 'cost_per_unit_co2',
               'start_up_time', 'wind_down_time', 'allow_abortion', 'init_start_up', 'raise_errors', 'initial_step',
               'provided_energy_name', 'current_status', 'goal_status'),
    'grid': ('max_import', 'max_export', 'cost_per_unit_co2', 'raise_errors', 'forecast_horizon', 'initial_step',
             'final_step', 'forecaster_increase_uncertainty', 'forecaster_relative_noise'),
    'unbalanced': ('loss_load_cost', 'overgeneration_cost', 'raise_errors', 'initial_step'),
}


def strip(d, noisy):
    """State without forecasts where those are random."""
    return {k: v for k, v in d.items() if not (noisy and '_forecast_' in k)}


def same_module(kind, a, b, what, noisy, logs=True):
    need(type(a) is type(b), '%s: loaded as %r, was %r', what, type(b), type(a))
    need(tuple(a.name) == tuple(b.name), '%s: loaded name %r, was %r', what, b.name, a.name)
    for p in PARAMS[kind]:
        need_same(getattr(a, p), getattr(b, p), f'{what}: parameter {p} (original vs loaded)')
    if hasattr(a, 'time_series'):
        x, y = np.asarray(a.time_series, dtype=float), np.asarray(b.time_series, dtype=float)
        need(x.shape == y.shape, '%s: series of shape %r loaded as %r', what, x.shape, y.shape)
        need_same(x, y, f'{what}: time series')
        need(type(a.forecaster) is type(b.forecaster), '%s: forecaster loaded as %r, was %r', what,
             type(b.forecaster), type(a.forecaster))
        if hasattr(a.forecaster, 'input_noise_std'):
            need_same(a.forecaster.input_noise_std, b.forecaster.input_noise_std, f'{what}: forecaster noise')
    need(a.current_step == b.current_step, '%s: loaded at step %r, was at %r', what, b.current_step, a.current_step)
    x, y = a.state_dict(), b.state_dict()
    need(list(x) == list(y), '%s: state components %r loaded as %r', what, list(x), list(y))
    need_same(strip(x, noisy), strip(y, noisy), f'{what}: state')
    for p in ('max_production', 'min_production', 'max_consumption'):
        if a.current_step >= len(getattr(a, 'time_series', range(10 ** 9))):
            break
        if (p == 'max_consumption' and a.is_sink) or (p != 'max_consumption' and a.is_source):
            need_same(getattr(a, p), getattr(b, p), f'{what}: {p}')
    if logs:
        la, lb = a.log_dict(), b.log_dict()
        need(set(la) == set(lb), '%s: log fields differ by %r', what, set(la) ^ set(lb))
        for k in strip(la, noisy):
            need_same(np.asarray(la[k], dtype=float), np.asarray(lb[k], dtype=float), f'{what}: log field {k}')


def has_battery(mg):
    """soc and charge are restored from each other, so == on batteries may fail by rounding."""
    from pymgrid.modules import BatteryModule
    return any(isinstance(m, BatteryModule) for m in mg.modules.iterlist())


def kinds_of(spec):
    d = {(nm, j): m['kind'] for nm, j, m in gen.index(spec)}
    d['balancing', 0] = 'unbalanced'
    return d


def noisy_mod(spec):
    return any((m.get('fc') or {}).get('kind') == 'gauss' for m in spec['modules'])


def same_grid(spec, a, b, what, noisy, logs=True):
    need(type(a) is type(b), '%s: loaded as %r, was %r', what, type(b), type(a))
    ka, kb = [m.name for m in a.modules.iterlist()], [m.name for m in b.modules.iterlist()]
    need(ka == kb, '%s: module order %r loaded as %r', what, ka, kb)
    need(list(a.modules.names()) == list(b.modules.names()), '%s: names differ', what)
    ks = kinds_of(spec)
    for x, y in zip(a.modules.iterlist(), b.modules.iterlist()):
        same_module(ks[tuple(x.name)], x, y, f'{what}: module {x.name}', noisy, logs)
    for p in ('current_step', 'initial_step', 'final_step'):
        need(getattr(a, p) == getattr(b, p), '%s: %s is %r, was %r', what, p, getattr(b, p), getattr(a, p))
    need(len(a) == len(b), '%s: length %d, was %d', what, len(b), len(a))
    need(type(a.reward_shaping_func) is type(b.reward_shaping_func), '%s: shaper loaded as %r, was %r', what,
         b.reward_shaping_func, a.reward_shaping_func)
    need(type(a.trajectory_func) is type(b.trajectory_func) and a.trajectory_func == b.trajectory_func,
         '%s: trajectory loaded as %r, was %r', what, b.trajectory_func, a.trajectory_func)
    if logs:
        x, y = a.get_log(), b.get_log()
        if noisy:
            x = x[[c for c in x.columns if '_forecast_' not in str(c[-1])]]
            y = y[[c for c in y.columns if '_forecast_' not in str(c[-1])]]
        frames_same(x, y, f'{what}: log')


def seed_all(s):
    np.random.seed(s)
    random.seed(s)


def obs_clean(mg, obs, noisy):
    """Observations without the forecast entries."""
    if not noisy:
        return {nm: obs[nm] for nm in mg.modules.names()}
    out = {}
    for nm, lst in mg.modules.iterdict():
        out[nm] = [np.asarray([v for k, v in zip(mod.state_dict(), np.atleast_1d(o)) if '_forecast_' not in k])
                   for mod, o in zip(lst, obs[nm])]
    return out


def continue_both(spec, a, b, actions, what, noisy):
    k = -1
    for k, act in enumerate(actions):
        if a.current_step >= a.final_step or a.current_step >= spec['n']:
            return k
        c = gen.resolve(spec, a, act)
        c2 = gen.resolve(spec, b, act)
        need_same(c, c2, f'{what}: limits before step {k}')
        seed_all(k)
        ra = a.run(c, normalized=False)
        seed_all(k)
        rb = b.run(c2, normalized=False)
        need_same(obs_clean(a, ra[0], noisy), obs_clean(b, rb[0], noisy), f'{what}: observation of step {k}')
        need_same(ra[1], rb[1], f'{what}: reward of step {k}')
        need(bool(ra[2]) == bool(rb[2]), '%s: done of step %d: %r, original %r', what, k, rb[2], ra[2])
        need_same(ra[3], rb[3], f'{what}: info of step {k}')
        if ra[2]:
            return k + 1
    return k + 1


def make_traj(t, spec):
    from pymgrid.microgrid.trajectory import (DeterministicTrajectory, FixedLengthStochasticTrajectory,
                                              StochasticTrajectory)
    if t is None:
        return None
    lo, hi = spec['init'], (spec['final'] if spec['final'] > 0 else spec['n'])
    if t[0] == 'det':
        a = lo + int(t[1] * (hi - lo - 1))
        return DeterministicTrajectory(a, a + 1 + int(t[2] * (hi - a - 1)))
    if t[0] == 'stoch':
        return StochasticTrajectory()
    return FixedLengthStochasticTrajectory(1 + int(t[1] * (hi - lo - 2)) if hi - lo > 1 else 1)


def make_shaper(s):
    from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper, PVCurtailmentShaper
    return None if s is None else {'pv': PVCurtailmentShaper, 'battery': BatteryDischargeShaper}[s]()


def run_prefix(spec, mg, actions):
    k = 0
    for act in actions:
        if mg.current_step >= mg.final_step or mg.current_step >= spec['n']:
            break
        _, _, done, _ = mg.run(gen.resolve(spec, mg, act), normalized=False)
        k += 1
        if done:
            break
    return k


def build_case(case, cls=None, **kw):
    spec = case['spec']
    seed_all(1)
    tr = make_traj(case['traj'], spec)
    mg = gen.build(spec, cls=cls, trajectory_func=tr, reward_shaping_func=make_shaper(case['shaper']), **kw)
    if case['traj']:
        mg.reset()
    return mg


def check_microgrid(case, ctx):
    from pymgrid import Microgrid
    spec = case['spec']
    noisy = noisy_mod(spec)
    mg = build_case(case)
    k = run_prefix(spec, mg, case['pre'])
    before = (mg.state_dict(), mg.get_log().copy(), mg.current_step)
    before_text = mg.dump()
    loaded = round_trip(mg, case['mode'], Microgrid)
    need_same(before[0], mg.state_dict(), 'state after dumping')
    frames_same(before[1], mg.get_log(), 'log after dumping')
    need(mg.current_step == before[2], 'dumping moved the clock to %r', mg.current_step)
    need(mg.dump() == before_text, 'dumping twice gives different documents')
    same_grid(spec, mg, loaded, 'after loading', noisy)
    if not noisy and not has_battery(mg):
        need(mg == loaded and loaded == mg, 'the loaded microgrid does not equal the original')
    if case['twice']:
        loaded = round_trip(loaded, 'inline' if case['mode'] == 'file' else 'file', Microgrid)
        same_grid(spec, mg, loaded, 'after loading twice', noisy)
    n = continue_both(spec, mg, loaded, case['post'], 'after loading', noisy)
    same_grid(spec, mg, loaded, 'after continuing', noisy)
    for rnd in range(2):
        seed_all(rnd + 5)
        oa = mg.reset()
        seed_all(rnd + 5)
        ob = loaded.reset()
        need_same(obs_clean(mg, oa, noisy), obs_clean(loaded, ob, noisy), f'observation of reset {rnd}')
        same_grid(spec, mg, loaded, f'after reset {rnd}', noisy)
        continue_both(spec, mg, loaded, case['pre'], f'after reset {rnd}', noisy)
    ctx.nontrivial(k > 0 and n > 0)
    ctx.label('file', case['mode'] == 'file')
    ctx.label('trajectory', case['traj'] is not None)
    ctx.label('shaper', case['shaper'] is not None)
    ctx.label('noisy', noisy)


TRAJ = st.one_of(st.none(), st.none(), st.tuples(st.just('det'), gen.LEVEL, gen.LEVEL).map(list),
                 st.just(['stoch']), st.tuples(st.just('fixed'), gen.LEVEL).map(list))


@st.composite
def mg_cases(draw, **kw):
    args = dict(max_n=8, forecasts=True, raise_errors=False, min_ctrl=1)
    args.update(kw)
    spec = draw(gen.microgrid_spec(**args))
    if draw(st.booleans()):
        for m in spec['modules']:
            m['raise_errors'] = False
    if draw(st.integers(0, 3)) == 0:
        for m in [m for m in spec['modules'] if m['kind'] == 'grid'][:1]:
            m.update(flex=True, name='flexible')
    ns = gen.n_steps_available(spec)
    return {'spec': spec, 'pre': draw(gen.action_seq(spec, draw(st.integers(0, min(5, ns))))),
            'post': draw(gen.action_seq(spec, draw(st.integers(1, 4)))),
            'traj': draw(TRAJ) if ns > 2 else None, 'shaper': draw(st.sampled_from([None, None, 'pv', 'battery'])),
            'mode': draw(st.sampled_from(['inline', 'inline', 'file'])), 'twice': draw(st.integers(0, 3)) == 0}


@st.composite
def long_cases(draw):
    c = draw(gen.long_episode(forecasts=True, min_ctrl=1, max_n=60))
    c['post'] = c['actions'][-3:]
    c['pre'] = c.pop('actions')[:-3]
    c.update(traj=None, shaper=draw(st.sampled_from([None, 'pv', 'battery'])),
             mode=draw(st.sampled_from(['inline', 'file'])), twice=draw(st.integers(0, 3)) == 0)
    return c


# ------------------------------------------------------------------------------------------------- single modules


def check_module(case, ctx):
    from pymgrid.modules.base import BaseMicrogridModule
    m = case['m']
    mod = gen.build_module(m, case['init'], case['final'])
    noisy = (m.get('fc') or {}).get('kind') == 'gauss'
    kind = m['kind']
    last = (case['final'] if case['final'] > 0 else case['n'])

    def act(mod, u, g):
        if kind == 'load':
            return np.array([])
        if kind == 'pv':
            return np.array([abs(u) * mod.max_production])
        if kind == 'genset':
            return np.array([g, abs(u) * m['max']])
        r = max(m['max_charge'], m['max_discharge']) if kind == 'battery' else \
            max(m['max_import'], m['max_export']) if kind == 'grid' else case['scale']
        return np.array([u * r])

    def step(mod, u, g):
        a = act(mod, u, g)
        return mod.step(a if a.size != 1 else float(a[0]), normalized=False)

    k = 0
    for u, g in case['pre']:
        if mod.current_step >= last:
            break
        step(mod, u, g)
        k += 1
    x = dict(mod.state_dict())
    loaded = round_trip(mod, case['mode'], BaseMicrogridModule)
    need_same(x, dict(mod.state_dict()), 'state after dumping')
    same_module(kind, mod, loaded, 'after loading', noisy)
    if not noisy and kind != 'battery':
        need(mod == loaded, 'the loaded module does not equal the original')
    n = 0
    for u, g in case['post']:
        if mod.current_step >= last:
            break
        seed_all(n)
        ra = step(mod, u, g)
        seed_all(n)
        rb = step(loaded, u, g)
        if not noisy:
            need_same(np.atleast_1d(ra[0]), np.atleast_1d(rb[0]), f'observation of step {n}')
        need_same(ra[1], rb[1], f'reward of step {n}')
        need(bool(ra[2]) == bool(rb[2]), 'done of step %d: %r, original %r', n, rb[2], ra[2])
        need_same(ra[3], rb[3], f'info of step {n}')
        n += 1
    same_module(kind, mod, loaded, 'after continuing', noisy)
    mod.reset()
    loaded.reset()
    same_module(kind, mod, loaded, 'after reset', noisy)
    ctx.nontrivial(k > 0 and n > 0)
    ctx.label(kind)


@st.composite
def mod_cases(draw):
    n = draw(st.integers(2, 8))
    scale = draw(gen.SCALES)
    fc = draw(gen.forecast_spec())
    kind = draw(st.sampled_from(['load', 'pv', 'battery', 'genset', 'grid', 'unbalanced']))
    init = draw(st.integers(0, n - 1))
    final = draw(st.sampled_from([-1, n, min(n, init + 1)]))
    if draw(st.booleans()):
        init, final = 0, -1
    if kind == 'load':
        m = draw(gen.load_spec(n, scale, fc))
    elif kind == 'pv':
        m = draw(gen.pv_spec(n, scale, fc))
    elif kind == 'battery':
        m = draw(gen.battery_spec(scale))
    elif kind == 'genset':
        m = draw(gen.genset_spec(scale))
    elif kind == 'grid':
        m = draw(gen.grid_spec(n, scale, fc))
    else:
        m = {'kind': kind, 'llc': draw(gen.qty(10)), 'ogc': draw(gen.qty(10))}
    acts = st.lists(st.tuples(st.integers(-120, 120).map(lambda i: i / 100), st.sampled_from([0.0, 1.0])), max_size=4)
    m['raise_errors'] = False
    return {'n': n, 'scale': scale, 'm': m, 'init': init, 'final': final, 'pre': draw(acts), 'post': draw(acts),
            'mode': draw(st.sampled_from(['inline', 'inline', 'file']))}


# --------------------------------------------------------------------------------------------------- environments


def space_repr(s):
    return repr(s)


def env_step(env, u):
    from pymgrid.envs import DiscreteMicrogridEnv
    if isinstance(env, DiscreteMicrogridEnv):
        return env.step(int(u * (env.action_space.n - 1) + 0.5))
    env.action_space.seed(int(u * 1000))
    return env.step(env.action_space.sample())


def check_env(case, ctx):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec = case['spec']
    cls = DiscreteMicrogridEnv if case['env'] == 'discrete' else ContinuousMicrogridEnv
    kw = {'flat_spaces': case['flat']}
    if case['keys']:
        keys = []
        for nm, j, m in gen.index(spec):
            keys += {'load': ['load_current'], 'pv': ['renewable_current'], 'battery': ['soc', 'current_charge'],
                     'genset': ['current_status'], 'grid': ['grid_status_current', 'import_price_current']}[m['kind']]
        keys = sorted(set(keys))
        kw['observation_keys'] = [k for i, k in enumerate(keys) if case['keys'][i % len(case['keys'])]] or keys[:1]
        if case['keys'][0]:
            kw['observation_keys'].reverse()
    if cls is DiscreteMicrogridEnv:
        kw['remove_redundant_gensets'] = case['rrg']
    env = build_case(case, cls=cls, **kw)
    k = 0
    for u in case['pre']:
        if env.current_step >= env.final_step:
            break
        env_step(env, u)
        k += 1
    loader = {'cls': cls, 'mg': Microgrid}[case['loader']]
    loaded = round_trip(env, case['mode'], loader)
    need(type(loaded) is cls, 'loaded as %r, was %r', type(loaded), cls)
    same_grid(spec, env, loaded, 'after loading', False)
    need(has_battery(env) or env == loaded, 'the loaded environment does not equal the original')
    need(env.flat_spaces == loaded.flat_spaces, 'flat_spaces loaded as %r', loaded.flat_spaces)
    need(list(env.observation_keys or []) == list(loaded.observation_keys or []), 'observation keys loaded as %r',
         loaded.observation_keys)
    need(env.observation_space == loaded.observation_space, 'observation space loaded as %r, was %r',
         loaded.observation_space, env.observation_space)
    need(env.action_space == loaded.action_space, 'action space loaded as %r, was %r', loaded.action_space,
         env.action_space)
    n = 0
    for rnd in range(2):
        for u in case['post']:
            if env.current_step >= env.final_step:
                break
            ra, rb = env_step(env, u), env_step(loaded, u)
            for x, y, what in zip(ra, rb, ('observation', 'reward', 'done', 'info')):
                need_same(x, y, f'{what} of step {n}')
            n += 1
        same_grid(spec, env, loaded, 'after continuing', False)
        seed_all(rnd)
        oa = env.reset()
        seed_all(rnd)
        need_same(oa, loaded.reset(), 'reset observation')
    ctx.nontrivial(k > 0 and n > 0)
    ctx.label(case['env'])
    ctx.label('keys', bool(case['keys']))


@st.composite
def env_cases(draw):
    case = draw(mg_cases(max_ctrl=3, max_n=6))
    ctrl = [m for m in case['spec']['modules'] if m['kind'] in ('battery', 'genset', 'grid')]
    if all(m.get('flex') for m in ctrl):
        for m in ctrl:
            m['name'] = 'backup'
            m['flex'] = False
    for m in case['spec']['modules']:
        if (m.get('fc') or {}).get('kind') == 'gauss':
            m['fc'] = {'kind': 'oracle', 'h': m['fc']['h']}
    u = st.lists(gen.LEVEL, max_size=3)
    case.update(pre=draw(u), post=draw(u), env=draw(st.sampled_from(['discrete', 'continuous'])),
                flat=draw(st.booleans()), keys=draw(st.lists(st.booleans(), max_size=3)), rrg=draw(st.booleans()),
                loader=draw(st.sampled_from(['cls', 'cls', 'mg'])))
    return case


def check_wrap(case, ctx):
    """Loading a dumped microgrid through an environment class wraps the same microgrid."""
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec = case['spec']
    cls = DiscreteMicrogridEnv if case['env'] == 'discrete' else ContinuousMicrogridEnv
    mg = build_case(case)
    env = round_trip(mg, case['mode'], cls)
    need(type(env) is cls, 'loaded as %r, expected %r', type(env), cls)
    need([m.name for m in mg.modules.iterlist()] == [m.name for m in env.modules.iterlist()], 'module order changed')
    ks = kinds_of(spec)
    for x, y in zip(mg.modules.iterlist(), env.modules.iterlist()):
        same_module(ks[tuple(x.name)], x, y, f'module {x.name}', False, logs=False)
    ctx.nontrivial(True)


def check_neighbours(case, ctx):
    """Several documents in one directory: each loads back as what was dumped into it."""
    from pymgrid import Microgrid
    grids = []
    with Scratch() as d:
        for i, c in enumerate(case['grids']):
            if i and case['same']:                      # the same microgrid, later in its episode
                spec, mg = grids[0][:2]
                ctx.nontrivial(run_prefix(spec, mg, case['grids'][0]['post']) > 0)
            else:
                spec, mg = c['spec'], build_case(c)
                run_prefix(spec, mg, c['pre'])
            f = d / case['files'][i]
            with open(f, 'w') as fh:
                mg.dump(fh)
            grids.append((spec, mg, f, mg.dump()))
        for spec, mg, f, text in grids:
            with open(f) as fh:
                loaded = Microgrid.load(fh)
            same_grid(spec, Microgrid.load(text), loaded, f'{f.name} next to {len(grids) - 1} other document(s)',
                      noisy_mod(spec))
    ctx.nontrivial(not case['same'])
    ctx.label('one microgrid, two times', case['same'])


@st.composite
def neighbour_cases(draw):
    grids = [draw(mg_cases(max_n=5, max_ctrl=2)) for _ in range(2)]
    return {'grids': grids, 'same': draw(st.booleans()),
            'files': draw(st.sampled_from([['a.yaml', 'b.yaml'], ['x.1.yaml', 'x.2.yaml'], ['m_1.yaml', 'm_10.yaml'],
                                           ['b.yml', 'a.yml']]))}


# --------------------------------------------------------------------------------------------------- scenarios

def check_scenario(case, ctx):
    from pymgrid import Microgrid
    mg = scen.scenario_at(case['scenario'], case['start'])
    cut = case['cut'] % (len(case['actions']) + 1)
    for u in case['actions'][:cut]:
        if mg.current_step < mg.final_step:
            mg.run(scen.control(mg, u), normalized=False)
    loaded = round_trip(mg, case['mode'], Microgrid)
    need(has_battery(mg) or mg == loaded, 'the loaded scenario does not equal the original')
    frames_same(mg.get_log(), loaded.get_log(), 'log after loading')
    need_same(mg.state_dict(), loaded.state_dict(), 'state after loading')
    k = 0
    for u in case['actions'][cut:]:
        if mg.current_step >= mg.final_step:
            break
        c = scen.control(mg, u)
        ra, rb = mg.run(c, normalized=False), loaded.run(c, normalized=False)
        for x, y, what in zip(ra, rb, ('observation', 'reward', 'done', 'info')):
            need_same(x, y, f'{what} of step {k}')
        k += 1
    frames_same(mg.get_log(), loaded.get_log(), 'log after continuing')
    ctx.nontrivial(cut > 0 and k > 0)


@st.composite
def scen_cases(draw):
    c = draw(scen.window(8))
    c['cut'] = draw(st.integers(0, 7))
    c['mode'] = 'file'
    return c


DROP = {'load': ('raise_errors', 'forecaster_relative_noise', 'final_step', 'initial_step'),
        'pv': ('raise_errors', 'provided_energy_name', 'final_step', 'initial_step'),
        'battery': ('battery_cost_cycle', 'raise_errors', 'initial_step'),
        'genset': ('co2_per_unit', 'cost_per_unit_co2', 'start_up_time', 'wind_down_time', 'allow_abortion',
                   'init_start_up', 'raise_errors', 'initial_step', 'provided_energy_name'),
        'grid': ('cost_per_unit_co2', 'raise_errors', 'final_step', 'initial_step'),
        'unbalanced': ('loss_load_cost', 'overgeneration_cost', 'initial_step')}
DEFAULT = {'battery_cost_cycle': 0.0, 'raise_errors': False, 'initial_step': 0, 'co2_per_unit': 0.0, 'start_up_time': 0,
           'cost_per_unit_co2': 0.0, 'wind_down_time': 0, 'allow_abortion': True, 'init_start_up': True,
           'forecaster_relative_noise': False, 'loss_load_cost': 10, 'overgeneration_cost': 2.0}
REQUIRED = {'load': ('time_series',), 'pv': ('time_series',), 'grid': ('time_series', 'max_import', 'max_export'),
            'battery': ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency'),
            'genset': ('running_min_production', 'running_max_production', 'genset_cost'), 'unbalanced': ('raise_errors',)}


def check_documents(case, ctx):
    """Documents that leave out parameters with defaults, or required ones, and documents that name a scenario."""
    import warnings

    import yaml
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    from pymgrid.modules.base import BaseMicrogridModule
    if case['scenario'] is not None:
        n = case['scenario']
        tag = {'Microgrid': Microgrid, 'DiscreteMicrogridEnv': DiscreteMicrogridEnv,
               'ContinuousMicrogridEnv': ContinuousMicrogridEnv}
        cls = tag[case['tag']]
        got = Microgrid.load(f'!{case["tag"]}\nscenario: {n}\n')
        want = cls.from_scenario(n)
        need(type(got) is cls and got == want, 'a document that names scenario %d loads as something else', n)
        need_same(got.state_dict(), want.state_dict(), f'state of scenario {n}')
        ctx.label('scenario')
        return
    m = case['m']
    kind = m['kind']
    mod = gen.build_module(m, case['init'], case['final'])
    doc = yaml.compose(mod.dump())
    params = next(v for k, v in doc.value if k.value == 'cls_params')
    dropped = [k for i, k in enumerate(DROP[kind]) if case['drop'] >> i & 1]
    missing = REQUIRED[kind][case['req'] % len(REQUIRED[kind])] if case['req'] else None
    params.value = [(k, v) for k, v in params.value if k.value not in dropped and k.value != missing]
    text = yaml.serialize(doc)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if missing:
            try:
                got = BaseMicrogridModule.load(text)
            except KeyError as e:
                need(missing in str(e), 'the refusal does not name %r: %s', missing, e)
                ctx.label('required parameter missing')
                ctx.nontrivial()
                return
            need(False, 'a document without %s was loaded as %r', missing, got)
        got = BaseMicrogridModule.load(text)
    need(type(got) is type(mod), 'loaded as %r', type(got))
    for p in PARAMS[kind]:
        want = getattr(mod, p)
        if p in dropped:
            want = DEFAULT.get(p, want) if p not in ('final_step', 'provided_energy_name') else \
                case['n'] if p == 'final_step' else {'pv': 'renewable_used', 'genset': 'genset_production'}[kind]
        if p in ('current_status', 'goal_status', 'forecaster_increase_uncertainty'):
            continue
        need_same(getattr(got, p), want, f'{p} with {dropped} left out of the document')
    if kind in ('load', 'pv', 'grid'):
        need_same(np.asarray(got.time_series), np.asarray(mod.time_series), 'series')
    if (m.get('fc') or {}).get('kind') != 'gauss' and not set(dropped) & {'start_up_time', 'wind_down_time'}:
        need_same(got.state_dict(), mod.state_dict(), 'state')
    ctx.nontrivial(bool(dropped))


@st.composite
def doc_cases(draw):
    if draw(st.integers(0, 20)) == 0:
        return {'scenario': draw(st.integers(0, 24)),
                'tag': draw(st.sampled_from(['Microgrid', 'DiscreteMicrogridEnv', 'ContinuousMicrogridEnv']))}
    case = draw(mod_cases())
    return {'scenario': None, 'm': case['m'], 'init': case['init'], 'final': case['final'], 'n': case['n'],
            'drop': draw(st.integers(0, 511)), 'req': draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


FACETS = [
    Facet('documents', doc_cases, check_documents, 300),
    Facet('microgrid', mg_cases, check_microgrid, 360),
    Facet('long', long_cases, check_microgrid, 40),
    Facet('module', mod_cases, check_module, 700),
    Facet('env', env_cases, check_env, 200),
    Facet('wrap', env_cases, check_wrap, 60),
    Facet('neighbours', neighbour_cases, check_neighbours, 80),
    Facet('scenario', scen_cases, check_scenario, 16, 400),
]
