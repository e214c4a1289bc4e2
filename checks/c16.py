"""C16: trajectories bound each episode."""
import numpy as np
from hypothesis import strategies as st

from checks.c12 import seed_all
from vlib import gen, scen
from vlib.core import Facet, Violation
from vlib.drive import need, need_close

PROPERTY = 'C16'
QUICK_FACTOR = 2.5
RULE = ('Random microgrids (plain, discrete, continuous) with scripted and built-in trajectory functions over several '
        'episodes, some abandoned midway; every call, clock value, served series value and episode length is compared '
        'with the script. Built-in functions also on bare ranges, with full coverage of small ranges. Non-trivial: at '
        'least two different windows in one microgrid, or a range with at least two windows.')
ASSUMPTIONS = ['the function is also called once at construction, for validation',
               'returned windows are only validated at construction']


class Script:
    def __init__(self, windows):
        self.windows, self.calls, self.results = windows, [], []

    def __call__(self, initial_step, final_step):
        a, b = self.windows[len(self.calls) % len(self.windows)]
        self.calls.append((initial_step, final_step))
        i = initial_step + int(a * (final_step - initial_step - 1))
        self.results.append((i, i + 1 + int(b * (final_step - i - 1))))
        return self.results[-1]


class Recorder:
    """Wraps a built-in function and records calls and results."""

    def __init__(self, func):
        self.func, self.calls, self.results = func, [], []

    def __call__(self, initial_step, final_step):
        self.calls.append((initial_step, final_step))
        self.results.append(tuple(self.func(initial_step, final_step)))
        return self.results[-1]


def builtin(t, lo, hi):
    from pymgrid.microgrid.trajectory import (DeterministicTrajectory, FixedLengthStochasticTrajectory,
                                              StochasticTrajectory)
    if t[0] == 'det':
        a = lo + int(t[1] * (hi - lo - 1))
        return DeterministicTrajectory(a, a + 1 + int(t[2] * (hi - a - 1)))
    if t[0] == 'stoch':
        return StochasticTrajectory()
    return FixedLengthStochasticTrajectory(1 + int(t[1] * (hi - lo - 1)))


def step_env(env, kind, spec, mg_step, u):
    if kind == 'mg':
        return env.run(gen.resolve(spec, env, mg_step), normalized=False)
    if kind == 'd':
        return env.step(min(env.action_space.n - 1, int(u * env.action_space.n)))
    env.action_space.seed(int(u * 1000))
    return env.step(env.action_space.sample())


def check_episodes(case, ctx):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec = case['spec']
    lo, hi = spec['init'], (spec['final'] if spec['final'] > 0 else spec['n'])
    seed_all(case['seed'])
    if case['func'][0] == 'script':
        f = Script(case['func'][1])
    else:
        f = Recorder(builtin(case['func'], lo, hi))
    cls = {'mg': Microgrid, 'd': DiscreteMicrogridEnv, 'c': ContinuousMicrogridEnv}[case['cls']]
    if case['wrap'] and cls is not Microgrid:
        if case.get('inside') is None:
            env = cls.from_microgrid(gen.build(spec), trajectory_func=f)
        else:
            # the microgrid is inside an episode of the same or another function when it is wrapped
            mg = gen.build(spec, trajectory_func=f if case['inside'] == 'same' else Script([[0.6, 0.2]]))
            mg.reset()
            if case['episodes'][0][0]:
                mg.run(gen.resolve(spec, mg, case['actions'][0]), normalized=False)
            env = cls.from_microgrid(mg) if case['inside'] == 'same' else cls.from_microgrid(mg, trajectory_func=f)
            need(env.initial_step == lo and env.final_step == hi, 'range of the environment (%r, %r) instead of (%d, %d)',
                 env.initial_step, env.final_step, lo, hi)
            ctx.label('wrapped inside an episode')
    else:
        env = gen.build(spec, cls=cls, trajectory_func=f)
    need(all(c == (lo, hi) for c in f.calls), 'construction called the function with %r, range (%d, %d)', f.calls, lo, hi)
    seen = set()
    for e, (frac, pick) in enumerate(case['episodes']):
        n0 = len(f.calls)
        if e == case['narrow'][0] and case['func'][0] in ('script', 'stoch'):
            # the user changes the range of the microgrid between episodes
            lo = lo + int(case['narrow'][1] * (hi - lo - 1))
            hi = lo + 1 + int(case['narrow'][2] * (hi - lo - 1))
            env.initial_step = lo
            env.final_step = hi
        env.reset()
        need(len(f.calls) == n0 + 1, 'reset %d called the function %d times', e, len(f.calls) - n0)
        need(f.calls[-1] == (lo, hi), 'reset %d called the function with %r, range (%d, %d)', e, f.calls[-1], lo, hi)
        a, b = f.results[-1]
        seen.add((a, b))
        need(env.current_step == a, 'episode %d starts at step %r instead of %d', e, env.current_step, a)
        need(env.initial_step == lo and env.final_step == hi, 'the range is now (%r, %r) instead of (%d, %d)',
             env.initial_step, env.final_step, lo, hi)
        for mod in env.modules.iterlist():
            need(mod.current_step == a, 'episode %d: %r starts at step %d instead of %d', e, mod.name, mod.current_step, a)
        stop = b - a if frac >= 1 else int(frac * (b - a))
        for k in range(stop):
            t = a + k
            for nm, j, m in gen.index(spec):
                mod = env.modules[nm][j]
                if m['kind'] == 'load':
                    need_close(mod.current_load, m['ts'][t], f'load at step {t}')
                elif m['kind'] == 'pv':
                    need_close(mod.current_renewable, m['ts'][t], f'renewable at step {t}')
                elif m['kind'] == 'grid':
                    need_close(mod.state_dict()['import_price_current'], m['imp'][t], f'import price at step {t}')
            u = ((pick + 0.37 * k) * 7.13) % 1
            steps = case['actions']
            out = step_env(env, case['cls'], spec, steps[(e + k) % len(steps)], u)
            need(bool(out[2]) == (k == b - a - 1), 'episode %d (%d to %d): done is %r after step %d', e, a, b, out[2], t)
            need(env.current_step == t + 1, 'clock is %r after step %d', env.current_step, t)
        need(len(f.calls) == n0 + 1, 'steps of episode %d called the function', e)
        if stop:
            idx = list(env.get_log().index)
            need(idx == list(range(a, a + stop)), 'log rows %r after steps %d to %d', idx, a, a + stop - 1)
    ctx.nontrivial(len(seen) > 1)
    ctx.label(case['func'][0], True)
    ctx.label(case['cls'], True)


@st.composite
def ep_cases(draw):
    spec = draw(gen.microgrid_spec(min_n=3, max_n=9, max_ctrl=2, min_ctrl=1, max_loads=1, forecasts=True))
    lv = gen.LEVEL
    func = draw(st.one_of(
        st.lists(st.tuples(lv, lv).map(list), min_size=1, max_size=4).map(lambda w: ['script', w]),
        st.tuples(st.just('det'), lv, lv).map(list), st.just(['stoch']), st.tuples(st.just('fixed'), lv).map(list)))
    return {'spec': spec, 'func': func, 'cls': draw(st.sampled_from(['mg', 'mg', 'd', 'c'])),
            'wrap': draw(st.booleans()), 'inside': draw(st.sampled_from([None, None, 'same', 'other'])), 'narrow': [draw(st.integers(0, 5)), draw(lv), draw(lv)], 'seed': draw(st.integers(0, 999)),
            'episodes': draw(st.lists(st.tuples(st.sampled_from([1, 1, 1, 0, 0.5]), lv).map(list),
                                      min_size=2, max_size=5)),
            'actions': draw(gen.action_seq(spec, 3))}


def check_builtin(case, ctx):
    from pymgrid.microgrid.trajectory import FixedLengthStochasticTrajectory
    lo, hi = case['lo'], case['lo'] + case['r']
    seed_all(case['seed'])
    f = builtin(case['func'], lo, hi)
    for i in range(20):
        out = f(lo, hi)
        need(len(out) == 2, 'returned %r', out)
        a, b = out
        need(isinstance(a, int) and isinstance(b, int), 'returned %r', out)
        need(lo <= a < b <= hi, '%r returned window (%d, %d) in range (%d, %d)', f, a, b, lo, hi)
        if case['func'][0] == 'det':
            need((a, b) == (f.initial_step, f.final_step), '%r returned (%d, %d)', f, a, b)
        elif case['func'][0] == 'fixed':
            need(b - a == f.trajectory_length, '%r returned (%d, %d)', f, a, b)
    if case['func'][0] == 'fixed':
        need(f.trajectory_length == 1 + int(case['func'][1] * (hi - lo - 1)), 'length is %r', f.trajectory_length)
        g = FixedLengthStochasticTrajectory(case['r'] + 1 + case['extra'])
        try:
            out = g(lo, hi)
        except ValueError:
            pass
        else:
            raise Violation(f'{g!r} returned {out!r} in range ({lo}, {hi})')
    ctx.nontrivial(case['r'] > 1)


@st.composite
def builtin_cases(draw):
    lv = gen.LEVEL
    r = draw(st.one_of(st.integers(1, 5), st.integers(1, 9000)))
    return {'lo': draw(st.one_of(st.just(0), st.integers(0, 9000))), 'r': r, 'seed': draw(st.integers(0, 10 ** 6)),
            'extra': draw(st.integers(0, 5)),
            'func': draw(st.one_of(st.tuples(st.just('det'), lv, lv).map(list), st.just(['stoch']),
                                   st.tuples(st.just('fixed'), lv).map(list)))}


def check_coverage(case, ctx):
    """Every possible window of a small range occurs. Least likely window: 1/36; 1800 draws miss it with e^-50."""
    from pymgrid.microgrid.trajectory import FixedLengthStochasticTrajectory, StochasticTrajectory
    lo, r, length = case['lo'], case['r'], case['len']
    hi = lo + r
    seed_all(case['seed'])
    if length is None:
        f = StochasticTrajectory()
        want = {(a, b) for a in range(lo, hi) for b in range(a + 1, hi + 1)}
    else:
        f = FixedLengthStochasticTrajectory(length)
        want = {(a, a + length) for a in range(lo, hi - length + 1)}
    got = {tuple(f(lo, hi)) for _ in range(1800)}
    need(got == want, '%r in range (%d, %d): windows %r never occur, %r are not possible', f, lo, hi,
         sorted(want - got), sorted(got - want))
    ctx.nontrivial(len(want) > 1)


@st.composite
def cov_cases(draw):
    r = draw(st.integers(1, 6))
    return {'lo': draw(st.integers(0, 50)), 'r': r, 'seed': draw(st.integers(0, 10 ** 6)),
            'len': draw(st.one_of(st.none(), st.integers(1, r)))}


class Constant:
    def __init__(self, value):
        self.value = value

    def __call__(self, initial_step, final_step):
        return self.value


def check_refuse(case, ctx):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec = case['spec']
    lo, hi = spec['init'], (spec['final'] if spec['final'] > 0 else spec['n'])
    k, d, e = case['kind'], case['d'], case['e']
    v = {'early': (lo - 1 - d, hi), 'late': (lo, hi + 1 + d), 'empty': (lo + d % (hi - lo + 1),) * 2,
         'reversed': (hi, lo), 'both': (lo - 1 - d, hi + 1 + e), 'outside': (hi + d, hi + d + 1 + e),
         'one': (lo,), 'three': (lo, hi, hi), 'none': None, 'number': lo, 'text': ('a', 'b'),
         'float': (float(lo), float(hi)), 'half': (lo, hi - 0.5), 'mixed': (lo, None), 'notcallable': 3}[k]
    exc = ValueError if k in ('early', 'late', 'empty', 'reversed', 'both', 'outside') else TypeError
    f = v if k == 'notcallable' else Constant(v)
    cls = {'mg': Microgrid, 'd': DiscreteMicrogridEnv, 'c': ContinuousMicrogridEnv}[case['cls']]
    try:
        gen.build(spec, cls=cls, trajectory_func=f)
    except exc:
        pass
    else:
        raise Violation(f'a trajectory function returning {v!r} was accepted; the range is ({lo}, {hi})')
    ctx.nontrivial(True)
    ctx.label(k, True)


@st.composite
def refuse_cases(draw):
    spec = draw(gen.microgrid_spec(max_n=6, max_ctrl=2, max_loads=1, max_pv=1, min_ctrl=1))
    return {'spec': spec, 'd': draw(st.integers(0, 3)), 'e': draw(st.integers(0, 3)),
            'cls': draw(st.sampled_from(['mg', 'd', 'c'])),
            'kind': draw(st.sampled_from(['early', 'late', 'empty', 'reversed', 'both', 'outside', 'one', 'three',
                                          'none', 'number', 'text', 'float', 'half', 'mixed', 'notcallable']))}


def check_scenario(case, ctx):
    from pymgrid.envs import ContinuousMicrogridEnv
    mg = scen.fresh(case['scenario'])
    lo, hi = mg.initial_step, mg.final_step
    f = Recorder(builtin(case['func'], lo, hi))
    seed_all(case['seed'])
    env = ContinuousMicrogridEnv.from_microgrid(mg, trajectory_func=f)
    for e in range(2):
        env.reset()
        a, b = f.results[-1]
        need(f.calls[-1] == (lo, hi), 'called with %r', f.calls[-1])
        need(lo <= a < b <= hi, 'window (%d, %d)', a, b)
        need(env.current_step == a, 'starts at %r instead of %d', env.current_step, a)
        for k in range(min(4, b - a)):
            need_close(env.modules.load[0].current_load, abs(env.modules.load[0].time_series[a + k, 0]), 'load')
            env.action_space.seed(k)
            done = env.step(env.action_space.sample())[2]
            need(bool(done) == (k == b - a - 1), 'done %r at %d in (%d, %d)', done, a + k, a, b)
    ctx.nontrivial(True)


@st.composite
def scen_cases(draw):
    lv = gen.LEVEL
    return {'scenario': draw(st.integers(0, 24)), 'seed': draw(st.integers(0, 999)),
            'func': draw(st.one_of(st.tuples(st.just('det'), lv, lv).map(list), st.just(['stoch']),
                                   st.sampled_from([0.0, 0.0003, 0.9999, 0.5]).map(lambda u: ['fixed', u])))}


FACETS = [
    Facet('episodes', ep_cases, check_episodes, 800),
    Facet('builtin', builtin_cases, check_builtin, 300),
    Facet('coverage', cov_cases, check_coverage, 60),
    Facet('refuse', refuse_cases, check_refuse, 300),
    Facet('scenario', scen_cases, check_scenario, 30),
]
