"""C28: looking at a microgrid changes nothing, and what it hands out belongs to the caller."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st

from checks.c08 import no_noise
from checks.c12 import TRAJ, make_shaper, make_traj, seed_all
from vlib import gen, nonmod
from vlib.core import Facet, Violation
from vlib.drive import frames_same, need, need_same

PROPERTY = 'C28'
RULE = ('Random microgrids and environments are run twice with the same controls and random state: once plainly, once '
        'with random sequences of read-only calls (state, logs, costs, samples, limits, every public property, '
        'representations, comparisons, copies, dumps, conversions, wrappers) between the steps and with everything '
        'returned overwritten by the caller. Non-trivial: at least one step was run after at least two reads.')
ASSUMPTIONS = ['the random state is set before each step, so that sampling, which legitimately draws random numbers, does '
               'not change noise; properties that hand out the live object itself (modules, series, loggers, '
               'spaces) are read but not overwritten']


def spoil(x):
    """Overwrite everything mutable in a returned value."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 77
    elif isinstance(x, (pd.DataFrame, pd.Series)):
        if isinstance(x, pd.DataFrame):
            x.iloc[:, :] = 77
        else:
            x.iloc[:] = 77
    elif isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            x[k] = 'spoilt'
        x['other'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append('spoilt')
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)


def public(obj):
    """Read every public attribute."""
    for a in dir(obj):
        if not a.startswith('_'):
            try:
                getattr(obj, a)
            except Exception:  # refused here
                pass


def modules(mg):
    return list(mg.modules.iterlist())


def q_module(mg, u):
    ms = modules(mg)
    m = ms[u % len(ms)]
    public(m)
    for norm in (True, False):
        spoil(m.state_dict(normalized=norm))
    spoil(m.log_frame())
    spoil(m.log)
    m.log_dict().clear()
    if len(m.logger):
        spoil(m.logger_last)
    repr(m), str(m), m == m, m == ms[-1]
    pickle.loads(pickle.dumps(m))
    copy.copy(m), copy.deepcopy(m)
    try:
        m.dump()
    except yaml.YAMLError:  # a callable cost
        pass


def q_space(mg, u):
    ms = modules(mg)
    m = ms[u % len(ms)]
    for space in (m.action_space, m.observation_space):
        for k in ('normalized', 'unnormalized'):
            s = space[k]
            spoil(s.sample())
        lo, hi = np.array(space['unnormalized'].low, dtype=float), np.array(space['unnormalized'].high, dtype=float)
        if lo.size:
            spoil(space.normalize(lo.copy())), spoil(space.denormalize(np.ones_like(hi)))
    spoil(m.sample_action()), spoil(m.sample_action(strict_bound=True))


def q_limits(mg, u):
    for m in modules(mg):
        for a in ('max_production', 'min_production', 'max_consumption', 'marginal_cost', 'production_marginal_cost',
                  'absorption_marginal_cost', 'min_obs', 'max_obs', 'min_act', 'max_act', 'is_source', 'is_sink', 'module_type',
                  'state', 'state_components', 'name', 'forecast_horizon'):
            getattr(m, a, None)
        if hasattr(m, 'next_max_production'):
            for g in (0, 1):
                m.next_status(g), m.next_max_production(g), m.next_min_production(g)


def q_forecast(mg, u):
    for m in modules(mg):
        if hasattr(m, 'forecast') and callable(m.forecast):
            spoil(m.forecast())


def q_log(mg, u):
    spoil(mg.get_log(as_frame=bool(u & 1), drop_singleton_key=bool(u & 2)))
    spoil(mg.log)


def q_dump(mg, u):
    mg.dump()
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'mg.yaml'), 'w') as f:
            mg.dump(f)
    s = io.StringIO()
    mg.dump(s)


def q_env(mg, u):
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    for cls in (DiscreteMicrogridEnv, ContinuousMicrogridEnv)[u % 2:u % 2 + 1]:
        if cls is DiscreteMicrogridEnv and len(list(mg.controllable.iterlist())) > 3:
            continue
        env = cls.from_microgrid(mg)
        env.reset()


def q_rbc(mg, u):
    from pymgrid.algos import RuleBasedControl
    if hasattr(mg.modules, 'load'):
        c = RuleBasedControl(mg)
        repr(c.priority_list)


def q_nonmodular(mg, u):
    try:
        mg.to_nonmodular()
    except Exception:  # most systems have no non-modular form
        pass


def q_roundtrip(mg, u):
    a = mg.sample_action(strict_bound=bool(u & 1))
    if isinstance(a, dict):  # an environment samples its own actions
        b = copy.deepcopy(a)
        n = mg.to_normalized(a, act=True)
        spoil(mg.from_normalized(n, act=True))
        need_same(b, a, 'action passed to to_normalized')
        spoil(n)
    s = {nm: [np.array([float(x) for x in d.values()]) for d in lst] for nm, lst in mg.state_dict().items()}
    t = copy.deepcopy(s)
    spoil(mg.from_normalized(mg.to_normalized(s, obs=True), obs=True))
    need_same(t, s, 'observations passed to to_normalized')


def q_container(mg, u):
    mc = mg.modules
    for c in (mc, mg.fixed, mg.flex, mg.controllable, mc.fixed, mc.flex, mc.controllable):
        for a in ('to_list', 'to_tuples', 'names', 'iterdict', 'iterlist', 'keys', 'items', 'values'):
            f = getattr(c, a, None)
            if f is not None:
                list(f())
        len(c), repr(c), str(c)
        public(c)
    for c in (mc.fixed, mc.flex, mc.controllable):
        public(c.sources), public(c.sinks), public(c.source_and_sinks)
    spoil(mg.modules.get_attrs('current_step', 'marginal_cost', as_pandas=bool(u & 1)))
    spoil(mg.modules.get_attrs('initial_step', unique=True, as_pandas=bool(u & 1)))


def simple(*fns):
    def f(mg, u):
        for g in fns:
            spoil(g(mg))
    return f


QUERIES = {
    'state_dict': simple(lambda m: m.state_dict(), lambda m: m.state_dict(normalized=True)),
    'state_series': simple(lambda m: m.state_series(), lambda m: m.state_series(normalized=True)),
    'cost': simple(lambda m: m.get_cost_info()),
    'sample': simple(lambda m: m.sample_action(), lambda m: m.sample_action(strict_bound=True),
                     lambda m: m.sample_action(sample_flex_modules=True)),
    'empty': simple(lambda m: m.get_empty_action(), lambda m: m.get_empty_action(sample_flex_modules=True)),
    'horizon': simple(lambda m: m.get_forecast_horizon()),
    'basics': simple(len, repr, str, dir, lambda m: m == m, lambda m: m != copy.deepcopy(m), lambda m: (
        m.current_step, m.initial_step, m.final_step, m.n_modules, m.trajectory_func, m.reward_shaping_func)),
    'list': simple(lambda m: m.module_list and None),
    'public': lambda m, u: public(m),
    'copy': lambda m, u: (copy.deepcopy(m).reset(), pickle.loads(pickle.dumps(m)).reset(), copy.copy(m)) and None,
    'module': q_module, 'space': q_space, 'limits': q_limits, 'log': q_log, 'dump': q_dump, 'env': q_env, 'rbc': q_rbc,
    'nonmodular': q_nonmodular, 'roundtrip': q_roundtrip, 'container': q_container, 'forecast': q_forecast,
}
MAY_REFUSE = ('horizon', 'dump', 'env', 'rbc')


def look(mg, qs, names=QUERIES):
    n = 0
    for q, u in qs:
        try:
            names[q](mg, u)
        except Violation:
            raise
        except Exception:
            # a query that is refused for this microgrid must not change anything either
            if q not in MAY_REFUSE and mg.current_step < len(mg):
                raise
        n += 1
    return n


def check_microgrid(case, ctx):
    spec = case['spec']
    runs, controls = [], []
    for how in ('resolve', 'plain', 'watched'):
        watched = how == 'watched'
        kw = {}
        if case['traj'] is not None:
            kw['trajectory_func'] = make_traj(case['traj'], spec)
        if case['shaper'] is not None:
            kw['reward_shaping_func'] = make_shaper(case['shaper'])
        seed_all(case['seed'])
        mg = gen.build(spec, **kw)
        res, looks, ran_after = [], 0, 0
        seed_all(case['seed'] + 1)
        first = mg.reset() if case['reset'] else None
        res.append(copy.deepcopy(first))
        if watched:
            spoil(first)
        k = 0
        for i, (op, qs) in enumerate(case['ops']):
            if watched:
                looks += look(mg, qs)
            seed_all(case['seed'] + 2 + i)
            if op == 'reset' or mg.current_step >= mg.final_step:
                out = mg.reset()
            else:
                if how == 'resolve':
                    # the controls depend on the live limits; finding them is itself a series of reads
                    control = gen.resolve(spec, mg, case['steps'][k % len(case['steps'])])
                    if i % 2:
                        control = mg.to_normalized(control, act=True)
                    controls.append(copy.deepcopy(control))
                    seed_all(case['seed'] + 2 + i)
                else:
                    need(k < len(controls), 'more steps than when the controls were found')
                    control = copy.deepcopy(controls[k])
                k += 1
                out = mg.run(control, normalized=bool(i % 2))
                ran_after += looks > 1
            res.append((op, mg.current_step, copy.deepcopy(out)))
            if watched:
                spoil(out)
        seed_all(case['seed'])
        res.append(mg.state_dict())
        runs.append((res, mg.get_log(), mg))
    for (a, la, ma), (b, lb, mb) in ((runs[1], runs[0]), (runs[1], runs[2])):
        same_runs(a, la, ma, b, lb, mb)
    ctx.nontrivial(ran_after > 0)


def same_runs(a, la, ma, b, lb, mb):
    for i, (x, y) in enumerate(zip(a, b)):
        need_same(x, y, f'result {i}: unwatched and watched differ: ')
    frames_same(la, lb, 'log of the watched microgrid')
    need((ma.initial_step, ma.final_step) == (mb.initial_step, mb.final_step), 'window %r, %r',
         (ma.initial_step, ma.final_step), (mb.initial_step, mb.final_step))
    need(len(ma) == len(mb) and ma.n_modules == mb.n_modules, 'length')
    for m, n in zip(modules(ma), modules(mb)):
        if hasattr(m, 'time_series'):
            need(np.array_equal(m.time_series, n.time_series), 'the series of %r has changed', m.name)


@st.composite
def mg_cases(draw):
    spec = draw(gen.microgrid_spec(min_n=3, max_n=8, max_ctrl=4, min_ctrl=1, forecasts=True, callable_cost=True))
    traj = draw(TRAJ) if draw(st.integers(0, 3)) == 0 else None
    shaper = None
    if draw(st.integers(0, 3)) == 0:
        shaper = draw(st.sampled_from(['pv', 'battery']))
    n = draw(st.integers(2, 8))
    names = sorted(QUERIES) + ['limits', 'limits', 'module', 'rbc', 'log', 'cost']
    ops = [[draw(st.sampled_from(['run'] * 6 + ['reset'])),
            draw(st.lists(st.tuples(st.sampled_from(names), st.integers(0, 7)).map(list), min_size=0, max_size=6))]
           for _ in range(n)]
    return {'spec': spec, 'traj': traj, 'shaper': shaper, 'reset': draw(st.booleans()), 'ops': ops,
            'steps': draw(gen.action_seq(spec, n)), 'seed': draw(st.integers(0, 1000))}


# ------------------------------------------------------------------------------------------------- environments


def e_spaces(env, u):
    for s in (env.action_space, env.observation_space):
        x = s.sample()
        need(s.contains(x), 'sample')
        spoil(x)
        repr(s), s == s


def e_render(env, u):
    try:
        env.render()
    except NotImplementedError:
        pass
    env.unwrapped, env.metadata, env.spec
    repr(getattr(env, 'actions_list', None))


ENV_QUERIES = {**{k: v for k, v in QUERIES.items() if k not in ('nonmodular', 'rbc')},
               'spaces': e_spaces, 'render': e_render}


def env_action(env, u, discrete):
    if discrete:
        return int(u * env.action_space.n) % env.action_space.n
    low = env.action_space
    import gym.spaces
    flat = gym.spaces.flatten_space(low)
    rs = np.random.RandomState(int(u * 1000))
    x = flat.low + (flat.high - flat.low) * np.round(rs.rand(*flat.shape), 3)
    return gym.spaces.unflatten(low, x.astype(flat.dtype))


def check_env(case, ctx):
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    cls = DiscreteMicrogridEnv if case['discrete'] else ContinuousMicrogridEnv
    spec = case['spec']
    runs = []
    for watched in (False, True):
        seed_all(case['seed'])
        kw = {} if case['discrete'] else {'flat_spaces': case['flat']}
        env = gen.build(spec, cls=cls, reward_shaping_func=make_shaper(case['shaper']),
                        trajectory_func=make_traj(case['traj'], spec), **kw)
        res, looks, ran = [], 0, 0
        seed_all(case['seed'] + 1)
        out = env.reset()
        res.append(copy.deepcopy(out))
        if watched:
            spoil(out)
        for i, (op, qs, u) in enumerate(case['ops']):
            if watched:
                looks += look(env, qs, ENV_QUERIES)
            seed_all(case['seed'] + 2 + i)
            if op == 'reset' or env.current_step >= env.final_step:
                out = env.reset()
            else:
                out = env.step(env_action(env, u, case['discrete']))
                ran += looks > 1
            res.append((op, env.current_step, copy.deepcopy(out)))
            if watched:
                spoil(out)
        runs.append((res, env.state_dict(), env.get_log()))
    for i, (x, y) in enumerate(zip(runs[0][0], runs[1][0])):
        need_same(x, y, f'result {i}: unwatched and watched environment differ: ')
    need_same(runs[0][1], runs[1][1], 'final state of the watched environment')
    frames_same(runs[0][2], runs[1][2], 'log of the watched environment')
    ctx.nontrivial(ran > 0)


@st.composite
def env_cases(draw):
    spec = draw(gen.microgrid_spec(min_n=3, max_n=8, max_ctrl=3, min_ctrl=1, min_loads=1, forecasts=True, max_genset=1,
                                   simple_genset=draw(st.booleans())))
    names = sorted(ENV_QUERIES) + ['limits', 'limits', 'module', 'log', 'spaces']
    return {'spec': spec, 'discrete': draw(st.booleans()), 'flat': draw(st.booleans()), 'seed': draw(st.integers(0, 1000)),
            'shaper': draw(st.sampled_from([None, None, 'pv', 'battery'])),
            'traj': draw(TRAJ) if draw(st.integers(0, 3)) == 0 else None,
            'ops': [[draw(st.sampled_from(['run'] * 6 + ['reset'])),
                     draw(st.lists(st.tuples(st.sampled_from(names), st.integers(0, 7)).map(list), max_size=4)),
                     draw(st.integers(0, 999)) / 1000] for _ in range(draw(st.integers(2, 8)))]}


# ------------------------------------------------------------------------------------------------- legacy form


def n_prints(mg, u):
    mg.print_info(), mg.print_control_info(), mg.print_updated_parameters()


def n_last(mg, u):
    if mg._df_record_cost['total_cost']:
        mg.get_cost(), mg.get_co2(), mg.penalty(), mg.penalty(coef=2)


def n_modular(mg, u):
    if mg.architecture['battery'] and (mg.architecture['genset'] or mg.architecture['grid']):
        m = mg.to_modular()
        m.run(m.sample_action(strict_bound=True))


def n_rule(mg, u):
    from pymgrid.algos.Control import Benchmarks
    if mg.architecture['battery'] and (mg.architecture['genset'] or mg.architecture['grid']):
        Benchmarks(mg).run_rule_based_benchmark()


LEGACY = {
    'forecast': simple(lambda m: m.forecast_all(), lambda m: m.forecast_pv(), lambda m: m.forecast_load()),
    'values': simple(lambda m: m.get_updated_values()),
    'reads': lambda m, u: (m.get_data(), m.get_parameters(), m.get_control_dict(), m.get_training_testing_data(), repr(m)),
    'public': lambda m, u: public(m), 'last': n_last, 'prints': n_prints, 'modular': n_modular, 'rule': n_rule,
    'copy': lambda m, u: copy.deepcopy(m).reset(),
}


def check_legacy(case, ctx):
    import contextlib
    from checks.c24 import control_of
    s = case['spec']
    runs = []
    for watched in (False, True):
        with contextlib.redirect_stdout(io.StringIO()):
            mg = nonmod.build(s)
            if case['split']:
                mg.train_test_split(train_size=0.5)
            res, looks, ran = [], 0, 0
            for i, (u, qs) in enumerate(case['ops']):
                if watched:
                    for q, v in qs:
                        LEGACY[q](mg, v)
                        looks += 1
                if mg.done or i == case['reset']:
                    mg.reset(testing=case['split'] and i % 2 == 1)
                    continue
                out = mg.run(control_of(s, u))
                res.append((copy.deepcopy(out), mg.done))
                if watched:
                    spoil(out)
                ran += looks > 1
        runs.append((res, mg))
    need_same(runs[0][0], runs[1][0], 'unwatched and watched microgrid: ')
    a, b = runs[0][1], runs[1][1]
    for k in ('_df_record_control_dict', '_df_record_actual_production', '_df_record_cost', '_df_record_co2',
              '_df_record_state'):
        need_same(getattr(a, k), getattr(b, k), f'{k} of the watched microgrid: ')
    for k in ('_load_ts', '_pv_ts'):
        need(np.array_equal(getattr(a, k).values, getattr(b, k).values), '%s has changed', k)
    need_same({k: v.item() for k, v in a.parameters.items()}, {k: v.item() for k, v in b.parameters.items()}, 'parameters')
    need(a.architecture == b.architecture, 'architecture')
    ctx.nontrivial(ran > 0)


@st.composite
def legacy_cases(draw):
    from checks.c24 import CONTROL
    s = draw(nonmod.spec(min_n=4, max_n=9))
    qs = st.lists(st.tuples(st.sampled_from(sorted(LEGACY)), st.integers(0, 3)).map(list), max_size=4)
    return {'spec': s, 'split': draw(st.booleans()), 'reset': draw(st.integers(0, 8)),
            'ops': [[draw(CONTROL), draw(qs)] for _ in range(draw(st.integers(2, 9)))]}


FACETS = [
    Facet('microgrid', mg_cases, check_microgrid, 800),
    Facet('environment', env_cases, check_env, 400),
    Facet('legacy', legacy_cases, check_legacy, 300),
]
