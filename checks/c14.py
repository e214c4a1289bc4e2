"""C14: gym environments: observations, spaces, actions, wrapping."""
import copy
import warnings

import gym.spaces
import numpy as np
from hypothesis import strategies as st

from checks import c13
from checks.c12 import TRAJ, make_shaper, make_traj, seed_all
from vlib import gen, nonmod, scen
from vlib.core import Facet, Violation
from vlib.drive import frames_same, need, need_close, need_same

PROPERTY = 'C14'
QUICK_FACTOR = 2
RULE = ('Random microgrids (all module kinds, names, forecasts, outages, trajectories, shapers) and benchmark scenarios '
        'as discrete and continuous environments, flat and nested, with and without observation keys; every '
        'observation is compared with the normalized module states, and every step with running the equivalent control '
        'on a twin microgrid. Non-trivial: at least two steps and two modules.')
ASSUMPTIONS = ['membership in the observation space is tested up to rounding of 1e-9',
               'a flat observation without keys is gym\'s flattening of the nested one; with keys it is ordered by key',
               'noisy forecasters excluded from the twin comparison']

KEYS = {'load': ['load_current'], 'pv': ['renewable_current'], 'battery': ['soc', 'current_charge'],
        'genset': ['current_status', 'goal_status'], 'grid': ['grid_status_current', 'import_price_current']}


def pick_keys(spec, bits):
    if not bits:
        return None
    keys = []
    for nm, j, m in gen.index(spec):
        for k in KEYS[m['kind']]:
            if k not in keys:
                keys.append(k)
        if m.get('fc') and m['kind'] in ('load', 'pv'):
            k = ('load' if m['kind'] == 'load' else 'renewable') + '_forecast_0'
            if k not in keys:
                keys.append(k)
    sel = [k for i, k in enumerate(keys) if bits[i % len(bits)]] or keys[:1]
    return sel[::-1] if len(bits) % 2 else sel


def norm_states(mg):
    """{name: [{key: normalized value}]} computed module by module from bounds and state."""
    out = {}
    for nm, lst in mg.modules.iterdict():
        out[nm] = []
        for mod in lst:
            sd = mod.state_dict()
            v = np.atleast_1d(np.asarray(mod.to_normalized(mod.state, obs=True), dtype=float)) if len(sd) else []
            out[nm].append(dict(zip(sd.keys(), v)))
    return out


def expected_obs(mg, flat, keys, space_names):
    ns = norm_states(mg)
    if flat and keys:
        return np.array([d[k] for k in keys for nm in ns for d in ns[nm] if k in d])
    if keys:
        return {nm: [np.array([d[k] for k in keys if k in d]) for d in ns[nm] if any(k in d for k in keys)]
                for nm in ns if any(k in d for d in ns[nm] for k in keys)}
    nested = {nm: [np.array(list(d.values())) for d in ns[nm]] for nm in ns}
    if flat:
        return np.concatenate([x for nm in space_names for x in nested[nm]] or [np.zeros(0)])
    return nested


def clipped(obs):
    """Rounding within 1e-9 of [0, 1] is tolerated; anything else is left outside the space."""
    if isinstance(obs, dict):
        return {k: clipped(v) for k, v in obs.items()}
    if isinstance(obs, (list, tuple)):
        return type(obs)(clipped(v) for v in obs)
    if isinstance(obs, np.ndarray) and np.issubdtype(obs.dtype, np.floating):
        return np.where((obs < 0) & (obs > -1e-9), 0.0, np.where((obs > 1) & (obs < 1 + 1e-9), 1.0, obs))
    return obs


def check_obs(env, obs, flat, keys, what):
    need(env.observation_space.contains(clipped(obs)), '%s: observation %r is not in %r', what, obs, env.observation_space)
    exp = expected_obs(env, flat, keys, sorted(env.modules.names()))
    if flat:
        need(isinstance(obs, np.ndarray) and obs.shape == env.observation_space.shape, '%s: shape of %r', what, obs)
        need(len(obs) == len(exp), '%s: %d entries, expected %d', what, len(obs), len(exp))
        need_same(obs, exp, f'{what}: observation')
    else:
        need(set(obs) == set(exp), '%s: observation for %r, expected for %r', what, set(obs), set(exp))
        for nm in exp:
            need(len(obs[nm]) == len(exp[nm]), '%s: %d observations for %s, expected %d', what, len(obs[nm]), nm,
                 len(exp[nm]))
            for j, (x, y) in enumerate(zip(obs[nm], exp[nm])):
                need(np.shape(x) == np.shape(y), '%s: observation of %s[%d] has shape %r, expected %r', what, nm, j,
                     np.shape(x), np.shape(y))
                need_same(x, y, f'{what}: observation of {nm}[{j}]')


def corner(space, u, rnd):
    """A point of a flat Box, often on its corners."""
    x = rnd.uniform(size=space.shape)
    if u < 0.25:
        x = (x > 0.5).astype(float)
    elif u < 0.35:
        x = np.zeros_like(x)
    elif u < 0.45:
        x = np.ones_like(x)
    low, high = np.asarray(space.low, dtype=float), np.asarray(space.high, dtype=float)
    return (low + x * (high - low)).astype(space.dtype)


def draw_action(nested, u, s):
    rnd = np.random.RandomState(s)
    return {nm: tuple(corner(b, u, rnd) for b in tup) for nm, tup in nested.items()}


def make(case, cls=None, **kw):
    spec = case['spec']
    seed_all(1)
    mg = gen.build(spec, cls=cls, trajectory_func=make_traj(case['traj'], spec),
                   reward_shaping_func=make_shaper(case['shaper']), **kw)
    return mg


def check_continuous(case, ctx):
    from pymgrid.envs import ContinuousMicrogridEnv
    spec = case['spec']
    keys = pick_keys(spec, case['keys'])
    env = make(case, ContinuousMicrogridEnv, flat_spaces=case['flat'], observation_keys=keys or ())
    nested_env = make(case, ContinuousMicrogridEnv, flat_spaces=False)
    need(isinstance(nested_env.action_space, gym.spaces.Dict), 'nested action space is %r', nested_env.action_space)
    ctrl = [nm for nm, j, m in gen.index(spec) if m['kind'] in ('battery', 'genset', 'grid')]
    need(set(nested_env.action_space.keys()) == set(ctrl), 'action space covers %r, controllable modules are %r',
         set(nested_env.action_space.keys()), set(ctrl))
    twin = make(case)
    steps = 0
    for rnd in range(2):
        seed_all(7 + rnd)
        obs = env.reset()
        seed_all(7 + rnd)
        twin.reset()
        check_obs(env, obs, case['flat'], keys, f'reset {rnd}')
        need_same(env.state_dict(), twin.state_dict(), f'state after reset {rnd}')
        for k, u in enumerate(case['actions']):
            if env.current_step >= env.final_step:
                break
            act = draw_action(nested_env.action_space, u, int(u * 997) + k)
            given = gym.spaces.flatten(nested_env.action_space, act) if case['flat'] else act
            need(env.action_space.contains(given), 'step %d: %r is not in the action space %r', k, given,
                 env.action_space)
            control = {nm: [np.asarray(a, dtype=float) if a.size > 1 else float(a[0]) for a in tup]
                       for nm, tup in act.items()}
            obs, reward, done, info = env.step(given)
            tobs, treward, tdone, tinfo = twin.run(control, normalized=True)
            what = f'step {k}'
            need_same(info, tinfo, f'{what}: info', 1e-6)
            need_close(reward, treward, f'{what}: reward', tol=1e-6)
            need(bool(done) == bool(tdone), '%s: done %r, microgrid %r', what, done, tdone)
            need_same(env.state_dict(), twin.state_dict(), f'{what}: state', 1e-6)
            check_obs(env, obs, case['flat'], keys, what)
            steps += 1
            if done:
                break
    if case['flat']:
        for s in range(3):
            env.action_space.seed(s)
            need(env.action_space.contains(env.action_space.sample()), 'sampled action not in space')
    ctx.nontrivial(steps > 1 and len(spec['modules']) > 1)
    ctx.label('flat', case['flat'])
    ctx.label('keys', keys is not None)


def episode_end(env):
    return min(m.final_step for m in env.modules.iterlist() if hasattr(m, 'time_series'))


def check_discrete(case, ctx):
    from pymgrid.envs import DiscreteMicrogridEnv
    spec = case['spec']
    keys = pick_keys(spec, case['keys'])
    env = make(case, DiscreteMicrogridEnv, flat_spaces=case['flat'], observation_keys=keys)
    other = make(case, DiscreteMicrogridEnv, flat_spaces=not case['flat'])
    lists = [tuple(pl) for pl in env.actions_list]
    if case['remove'] is not None and len(lists) > 1:
        r = min(len(lists) - 1, int(case['remove'] * len(lists)))
        env.remove_action(r)
        other.remove_action(r)
        del lists[r]
        ctx.label('action removed')
    need(env.action_space.n == len(lists), '%d actions for %d lists', env.action_space.n, len(lists))
    steps = 0
    for rnd in range(2):
        seed_all(7 + rnd)
        obs = env.reset()
        seed_all(7 + rnd)
        other.reset()
        check_obs(env, obs, case['flat'], keys, f'reset {rnd}')
        taken = []
        for k, u in enumerate(case['actions']):
            if env.current_step >= env.final_step:
                break
            a = min(env.action_space.n - 1, int(u * env.action_space.n))
            need(env.action_space.contains(a), 'action %r not in %r', a, env.action_space)
            last = env.current_step + 1 >= episode_end(env)
            lim, net = c13.limits(env), c13.spec_net(spec, env.current_step)
            obs, reward, done, info = env.step(a)
            taken.append(a)
            c13.compare(list(lists[a]), lim, net, info, env, f'step {k}, action {a}')
            o2, r2, d2, i2 = other.step(a)
            what = f'step {k}'
            need(bool(done) == last == bool(d2), '%s: done %r / %r, final step reached: %r', what, done, d2, last)
            need_close(reward, r2, f'{what}: reward of flat and nested environment')
            need_same(info, i2, f'{what}: info of flat and nested environment')
            if not case['shaper']:
                total = sum(float(r) for nm in env.modules.names() for mod in env.modules[nm]
                            for r in mod.log_dict()['reward'][-1:])
                need_close(reward, total, f'{what}: reward', tol=1e-6)
            check_obs(env, obs, case['flat'], keys, what)
            check_obs(other, o2, not case['flat'], None, what + ' (other)')
            steps += 1
            if done:
                break
        log = env.get_log()
        need(len(log) == len(taken), 'log has %d rows after %d steps', len(log), len(taken))
        if taken:
            col = [c for c in log.columns if c[0] == 'action']
            need(len(col) == 1 and [int(v) for v in log[col[0]]] == taken, 'logged actions differ from %r', taken)
        for s in range(3):
            need(env.action_space.contains(env.sample_action()), 'sampled action not in space')
    ctx.nontrivial(steps > 1 and len(spec['modules']) > 1)
    ctx.label('flat', case['flat'])
    ctx.label('keys', keys is not None)
    ctx.label('over 100 actions', len(lists) > 100)


@st.composite
def env_cases(draw, **sizes):
    spec = draw(gen.microgrid_spec(**{**dict(max_n=7, max_ctrl=3, min_ctrl=1, forecasts=True), **sizes}))
    for m in spec['modules']:
        if (m.get('fc') or {}).get('kind') == 'gauss':
            m['fc'] = {'kind': 'oracle', 'h': m['fc']['h']}
    return {'spec': spec, 'traj': draw(TRAJ) if gen.n_steps_available(spec) > 2 else None,
            'shaper': draw(st.sampled_from([None, None, 'pv', 'battery'])), 'flat': draw(st.booleans()),
            'remove': draw(st.one_of(st.none(), gen.LEVEL)),
            'keys': draw(st.one_of(st.just([]), st.lists(st.booleans(), min_size=1, max_size=4))),
            'actions': draw(st.lists(gen.LEVEL, min_size=1, max_size=6))}


def many_cases():
    """More than a hundred priority lists."""
    return env_cases(max_n=4, min_ctrl=4, max_ctrl=4, min_genset=3, max_genset=3, forecasts=False)


def check_wrap(case, ctx):
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec = case['spec']
    cls = DiscreteMicrogridEnv if case['cls'] == 'd' else ContinuousMicrogridEnv
    mg = make(dict(case, traj=None))
    k = 0
    for act in case['pre']:
        if mg.current_step < mg.final_step:
            mg.run(gen.resolve(spec, mg, act), normalized=False)
            k += 1
    before = copy.deepcopy(mg.state_dict()), mg.get_log().copy(), mg.current_step, mg.dump()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env = cls.from_microgrid(mg, flat_spaces=case['flat']) if not case['old'] else cls(mg, flat_spaces=case['flat'])
        if case['old']:
            # a second construction, from modules, is not affected
            again = make(dict(case, traj=None), cls)
            need(again.current_step == spec['init'] and again.action_space is not None, 'next construction is broken')
    need(type(env) is cls, 'wrapped as %r', type(env))
    need_same(mg.state_dict(), env.state_dict(), 'state of the new environment')
    need(env.flat_spaces == case['flat'], 'flat_spaces ignored')
    need(len(env.get_log()) == 0 and all(len(m.log) == 0 for m in env.modules.iterlist()),
         'the new environment has log entries')
    need(env.initial_step == mg.initial_step and env.final_step == mg.final_step and
         env.current_step == mg.current_step, 'steps of the new environment: %r %r %r', env.initial_step,
         env.final_step, env.current_step)
    need(type(env.reward_shaping_func) is type(mg.reward_shaping_func), 'shaping function lost')
    if not case['old']:
        for own in (None, make_shaper('pv'), make_shaper('battery')):
            other = cls.from_microgrid(mg, reward_shaping_func=own)
            need(type(other.reward_shaping_func) is type(own), 'environment asked to have the shaping function %r has %r',
                 own, other.reward_shaping_func)
    steps = 0
    for u in case['actions']:
        if env.current_step >= env.final_step:
            break
        if case['cls'] == 'd':
            env.step(min(env.action_space.n - 1, int(u * env.action_space.n)))
        else:
            env.action_space.seed(int(u * 1000))
            env.step(env.action_space.sample())
        steps += 1
    env.reset()
    need_same(before[0], mg.state_dict(), 'state of the wrapped microgrid')
    frames_same(before[1], mg.get_log(), 'log of the wrapped microgrid')
    need(mg.current_step == before[2], 'clock of the wrapped microgrid moved')
    need(mg.dump() == before[3], 'the wrapped microgrid changed')
    ctx.nontrivial(k > 0 and steps > 0)


@st.composite
def wrap_cases(draw):
    case = draw(env_cases())
    ns = gen.n_steps_available(case['spec'])
    case['pre'] = draw(gen.action_seq(case['spec'], draw(st.integers(0, min(3, ns)))))
    case['cls'] = draw(st.sampled_from('dc'))
    case['old'] = draw(st.integers(0, 3)) == 0
    return case


def check_scenario(case, ctx):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    cls = DiscreteMicrogridEnv if case['scenario'] % 2 == case['start'] % 2 else ContinuousMicrogridEnv
    env = cls.from_scenario(case['scenario'])
    need(type(env) is cls, 'scenario loaded as %r', type(env))
    need_same(Microgrid.from_scenario(case['scenario']).state_dict(), env.state_dict(), 'state of the scenario')
    env.initial_step = min(case['start'], 8750)
    obs = env.reset()
    check_obs(env, obs, True, None, 'reset')
    for k, u in enumerate(case['actions']):
        if env.current_step >= env.final_step:
            break
        if cls is DiscreteMicrogridEnv:
            a = min(env.action_space.n - 1, int((u[0] + 1.2) / 2.4 * env.action_space.n))
        else:
            a = corner(env.action_space, (u[0] + 1.2) / 2.4, np.random.RandomState(k))
        obs, reward, done, info = env.step(a)
        need(np.isfinite(reward), 'reward %r', reward)
        check_obs(env, obs, True, None, f'step {k}')
        if done:
            break
    ctx.nontrivial(len(case['actions']) > 1)


def scen_cases():
    return scen.window(6)


def check_construct(case, ctx):
    """Every way of constructing an environment gives the same environment."""
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    cls = DiscreteMicrogridEnv if case['cls'] == 'd' else ContinuousMicrogridEnv
    kw = {'flat_spaces': case['flat']}
    keys = None
    if case['src'] == 'nonmodular':
        source = nonmod.build(case['nm'])
        ref = Microgrid.from_nonmodular(source)
        make = {'new': lambda **kw: cls.from_microgrid(source, **kw), 'direct': lambda **kw: cls.from_nonmodular(source, **kw),
                'old': lambda **kw: cls(source, **kw)}[case['how']]
    else:
        ref = Microgrid.from_scenario(case['n'])
        make = {'new': lambda **kw: cls.from_microgrid(Microgrid.from_scenario(case['n']), **kw),
                'direct': lambda **kw: cls.from_scenario(case['n'], **kw), 'old': lambda **kw: cls(case['n'], **kw)}[case['how']]
    if case['keys']:
        keys = list(ref.state_series().index.get_level_values(-1).unique())
        keys = [k for k in keys if '_forecast_' not in k]
        keys = [k for i, k in enumerate(keys) if case['keys'][i % len(case['keys'])]] or keys[:1]
        kw['observation_keys'] = keys
    if case['traj']:
        from pymgrid.microgrid.trajectory import DeterministicTrajectory
        end = min(ref.final_step, ref.initial_step + case['traj'])
        kw['trajectory_func'] = DeterministicTrajectory(ref.initial_step, end)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env = make(**kw)
        nested = make(**dict(kw, flat_spaces=False)).action_space
    need(type(env) is cls, 'constructed a %r', type(env))
    need(env.flat_spaces == case['flat'], 'flat_spaces is %r', env.flat_spaces)
    need((env.initial_step, env.final_step) == (ref.initial_step, ref.final_step), 'steps %r to %r, expected %r to %r',
         env.initial_step, env.final_step, ref.initial_step, ref.final_step)
    need_same(env.state_dict(), ref.state_dict(), 'state of the new environment')
    need([tuple(m.name) for m in env.modules.iterlist()] == [tuple(m.name) for m in ref.modules.iterlist()],
         'modules %r, expected %r', env.modules.names(), ref.modules.names())
    obs = env.reset()
    ref.reset()
    check_obs(env, obs, case['flat'], keys, 'reset')
    steps = 0
    for k, u in enumerate(case['actions']):
        what = f'step {k}'
        if cls is ContinuousMicrogridEnv:
            act = draw_action(nested, u, k)
            given = gym.spaces.flatten(nested, act) if case['flat'] else act
            control = {nm: [np.asarray(a, dtype=float) if a.size > 1 else float(a[0]) for a in tup]
                       for nm, tup in act.items()}
            obs, reward, done, info = env.step(given)
            _, r2, d2, i2 = ref.run(control, normalized=True)
            need_same(info, i2, f'{what}: info', 1e-6)
            need_close(reward, r2, f'{what}: reward', tol=1e-6)
            need_same(env.state_dict(), ref.state_dict(), f'{what}: state', 1e-6)
        else:
            a = min(env.action_space.n - 1, int(u * env.action_space.n))
            lim, net = c13.limits(env), sum(float(v.current_load) for v in env.modules.load) - \
                sum(float(v.current_renewable) for nm, vs in env.modules.iterdict() for v in vs
                    if hasattr(v, 'current_renewable'))
            pl = list(env.actions_list[a])
            obs, reward, done, info = env.step(a)
            c13.compare(pl, lim, net, info, env, f'{what}, action {a}')
        check_obs(env, obs, case['flat'], keys, what)
        steps += 1
        end = kw['trajectory_func'].final_step if case['traj'] else ref.final_step
        need(bool(done) == (env.current_step >= end), '%s: done is %r at step %d of %d', what, done, env.current_step, end)
        if done:
            break
    ctx.nontrivial(steps > 1)
    ctx.label(case['src'])
    ctx.label(case['how'])


@st.composite
def construct_cases(draw):
    src = draw(st.sampled_from(['nonmodular'] * 3 + ['scenario']))
    case = {'src': src, 'cls': draw(st.sampled_from('dc')), 'how': draw(st.sampled_from(['new', 'direct', 'old'])),
            'flat': draw(st.booleans()), 'keys': draw(st.one_of(st.just([]), st.lists(st.booleans(), min_size=1, max_size=4))),
            'traj': draw(st.sampled_from([None, None, 1, 2])),
            'actions': draw(st.lists(gen.LEVEL, min_size=1, max_size=4))}
    if src == 'scenario':
        case['n'] = draw(st.integers(0, 24))
    else:
        case['nm'] = draw(nonmod.spec(soc_max=False))
    return case


FACETS = [
    Facet('construct', construct_cases, check_construct, 160),
    Facet('continuous', env_cases, check_continuous, 300),
    Facet('discrete', env_cases, check_discrete, 300),
    Facet('many', many_cases, check_discrete, 8),
    Facet('wrap', wrap_cases, check_wrap, 150),
    Facet('scenario', scen_cases, check_scenario, 40),
]
