"""C09: the log records every step of the current trajectory, faithfully."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import energies, frames_same, module_infos, need, need_close, need_same, run_episode, scale_of

PROPERTY = 'C09'
RULE = ('Random microgrids with custom names, several modules per name, forecasts (noisy ones too), windows and '
        'trajectories, driven through one to three episodes with resets in between; everything returned and observed at '
        'run time is recorded and compared with the log afterwards, at several points of the episode. Non-trivial: two '
        'or more rows, or rows after a reset.')
ASSUMPTIONS = ['a genset\'s logged status is the one in force during the step (requests change it first)']

ENERGY = {'load': (None, 'load_met'), 'pv': ('renewable_used', None), 'battery': ('discharge_amount', 'charge_amount'),
          'genset': ('genset_production', None), 'grid': ('grid_import', 'grid_export'),
          'slack': ('loss_load', 'overgeneration')}
EXTRA = {'pv': ['curtailment'], 'genset': ['co2_production'], 'grid': ['co2_production']}
BALANCE = {'reward', 'shaped_reward'} | {f'{a}_{b}' for a in ('fixed', 'controllable', 'overall')
                                         for b in ('provided_to_microgrid', 'absorbed_from_microgrid')}


def expect_row(spec, rec, mg):
    """{(name, number, field): value} of one step."""
    row = {}
    for nm, j, m, info in module_infos(spec, rec):
        kind = m['kind'] if m else 'slack'
        p, a = energies(info)
        for name, v in zip(ENERGY[kind], (p, a)):
            if name:
                row[nm, j, name] = v
        for name in EXTRA.get(kind, []):
            row[nm, j, name] = info[name]
        if kind != 'slack':
            state = mg.modules[nm][j].state_dict() if kind == 'genset' else rec.pre[nm, j]['state']
            for key, v in state.items():
                row[nm, j, key] = float(v)
    row['balance', 0, 'shaped_reward'] = rec.reward
    return row


def check_log(mg, rows, ts, spec, what, forecast_changed=False):
    log = mg.get_log()
    need(list(log.index) == ts, '%s: log index %r, steps run %r', what, list(log.index), ts)
    if not rows:
        return
    need(list(log.columns.names) == ['module_name', 'module_number', 'field'], '%s: column levels %r', what,
         log.columns.names)
    names = set(gen.mod_name(m) for m in spec['modules']) | ({'balancing'} if spec['slack'] else set())
    want = set().union(*rows)
    got = {(c[0], int(c[1]), c[2]) for c in log.columns}
    need(len(got) == len(log.columns), '%s: duplicate columns', what)
    need({c[0] for c in got} == names | {'balance'}, '%s: modules in the log %r', what, {c[0] for c in got})
    mod_rewards = {(nm, j, 'reward') for nm, lst in mg.modules.iterdict() for j in range(len(lst))}
    need(got == want | mod_rewards | {('balance', 0, f) for f in BALANCE}, '%s: columns differ: %r', what,
         got ^ (want | mod_rewards | {('balance', 0, f) for f in BALANCE}))
    for i, row in enumerate(rows):
        vals = log.iloc[i]
        for key in want:
            v = row.get(key, np.nan)
            need_same(float(vals[key]), float(v), f'{what}: row {i} (step {ts[i]}), column {key}')
        need_close(sum(vals[c] for c in mod_rewards), vals[('balance', 0, 'reward')],
                   f'{what}: row {i}: sum of module rewards', max([abs(vals[c]) for c in mod_rewards] + [1.0]))
        need_close(vals[('balance', 0, 'reward')], row['balance', 0, 'shaped_reward'], f'{what}: row {i}: reward')
    return log


def check(case, ctx):
    spec = case['spec']
    kw = {}
    windows = []
    if case.get('trajectory'):
        a0 = spec['init']
        b0 = spec['final'] if spec['final'] > 0 else spec['n']

        class Traj:
            calls = 0

            def __call__(self, lo, hi):
                f = case['trajectory'][Traj.calls % len(case['trajectory'])]
                Traj.calls += 1
                a = a0 + int(f[0] * (b0 - a0 - 1))
                b = a + 1 + int(f[1] * (b0 - a - 1))
                windows.append((a, b))
                return a, b
        kw['trajectory_func'] = Traj()
    mg = gen.build(spec, **kw)
    prev_log, held = None, []
    for ep, actions in enumerate(case['episodes']):
        if ep or kw:
            old = mg.get_log() if len(mg.get_log()) else None
            flushed = mg.reset()['balance']
            if old is None:
                need(not any(len(v) for v in flushed.values()), 'reset returned log rows %r, none were run', flushed)
            else:
                held.append((flushed, {f: list(old[('balance', 0, f)]) for f in BALANCE}))
            need(len(mg.get_log()) == 0, 'log not empty after reset %d', ep)
        rows, ts = [], []
        k = 0
        for mg, rec in run_episode({'spec': spec, 'actions': actions}, mg=mg):
            rows.append(expect_row(spec, rec, mg))
            ts.append(rec.t)
            k += 1
            if k == case['peek']:
                prev_log = check_log(mg, rows, ts, spec, f'episode {ep} after {k} steps')
                prev_log = None if prev_log is None else prev_log.copy()
            if kw:
                a, b = windows[-1]
                need(a <= rec.t < b, 'step %d outside of the trajectory [%d, %d)', rec.t, a, b)
        log = check_log(mg, rows, ts, spec, f'episode {ep} after {k} steps')
        if prev_log is not None and log is not None and k >= case['peek']:
            frames_same(prev_log, log.iloc[:len(prev_log)], f'episode {ep}: earlier rows changed')
        prev_log = None
        ctx.nontrivial(k > 1 or (ep > 0 and k > 0))
        ctx.label('after reset', ep > 0 and k > 0)
    for flushed, want in held:
        need(set(flushed) == set(want), 'the balance log returned by reset has fields %r', set(flushed))
        for f, v in want.items():
            need_same(list(flushed[f]), v, f'balance log returned by reset, {f}')
        ctx.label('flushed log')
    if rows:
        views(mg, log)
        a, b = spec['init'], spec['final'] if spec['final'] > 0 else spec['n']
        mg.initial_step = a + int(case.get('new_init', 0.5) * (b - a - 1))      # takes effect with the next reset
        check_log(mg, rows, ts, spec, 'after setting the initial step')
        frames_same(log, mg.log, 'log after setting the initial step')


def views(mg, log):
    frames_same(log, mg.log, 'log property')
    d = mg.get_log(as_frame=False)
    for c in log.columns:
        need_same([d[c][i] for i in log.index], list(log[c]), f'log as dict, column {c}')
    for nm, lst in mg.modules.iterdict():
        for j, mod in enumerate(lst):
            sub = log[nm][j]
            need(set(mod.log.columns) == set(sub.columns), 'module log of %s[%d] has columns %r', nm, j,
                 list(mod.log.columns))
            last = mod.logger_last
            need(set(last) == set(mod.log_dict()), 'last entry of %s[%d] has fields %r', nm, j, set(last))
            for f in last:
                need_same(last[f], mod.log_dict()[f][-1], f'last entry of {nm}[{j}], {f}', 0)
            for f in sub.columns:
                need_same(list(mod.log[f]), list(sub[f]), f'module log of {nm}[{j}], {f}')
                need_same(list(mod.log_dict()[f]), list(sub[f]), f'module log dict of {nm}[{j}], {f}')
    single = all(len(lst) == 1 for _, lst in mg.modules.iterdict())
    dropped = mg.get_log(drop_singleton_key=True)
    need(dropped.columns.nlevels == (2 if single else 3), 'log without singleton key has %d levels',
         dropped.columns.nlevels)
    need_same(dropped.to_numpy(dtype=float), log.to_numpy(dtype=float), 'log without singleton key')


def check_set_forecaster(case, ctx):
    """The set of observed fields changes within an episode: columns stay aligned with the steps."""
    spec = case['spec']
    mg = gen.build(spec)
    rows, ts = [], []
    it = run_episode(case, mg=mg)
    k = 0
    while True:
        if k in case['set_at']:
            h = case['h'][case['set_at'].index(k)]
            mg.set_forecaster('oracle' if h else None, forecast_horizon=h)
        try:
            mg, rec = next(it)
        except StopIteration:
            break
        rows.append(expect_row(spec, rec, mg))
        ts.append(rec.t)
        k += 1
    check_log(mg, rows, ts, spec, 'after changing forecasters')
    mg.reset()
    rows, ts = [], []
    for mg, rec in run_episode(case, mg=mg):
        rows.append(expect_row(spec, rec, mg))
        ts.append(rec.t)
    check_log(mg, rows, ts, spec, 'after changing forecasters and reset')
    ctx.nontrivial(any(0 < s < k for s in case['set_at']))


def check_scenario(case, ctx):
    mg = scen.scenario_at(case['scenario'], case['start'])
    pres, recs = [], []
    for u in case['actions']:
        pres.append(mg.state_dict())
        _, reward, done, info = mg.run(scen.control(mg, u), normalized=False)
        recs.append((reward, info))
        if done:
            break
    log = mg.get_log()
    need(list(log.index) == list(range(case['start'], case['start'] + len(recs))), 'log index %r', list(log.index))
    for i, (pre, (reward, info)) in enumerate(zip(pres, recs)):
        need_close(log[('balance', 0, 'reward')].iloc[i], reward, f'row {i}: reward')
        for nm, lst in pre.items():
            for j, sd in enumerate(lst):
                if nm == 'genset':
                    continue
                for key, v in sd.items():
                    need_same(log[(nm, j, key)].iloc[i], v, f'row {i}: {nm} {key}')
        for nm, lst in info.items():
            mod = mg.modules[nm][0]
            for name, v in zip((mod.provided_energy_name, mod.absorbed_energy_name), energies(lst[0])):
                if name:
                    need_close(log[(nm, 0, name)].iloc[i], v, f'row {i}: {nm} {name}')
    ctx.nontrivial(len(recs) > 1)


@st.composite
def case_(draw):
    spec = draw(gen.microgrid_spec(forecasts=True, max_n=9, callable_cost=True))
    av = gen.n_steps_available(spec)
    eps = [draw(gen.action_seq(spec, draw(st.integers(0, av)))) for _ in range(draw(st.integers(1, 3)))]
    c = {'spec': spec, 'episodes': eps, 'peek': draw(st.integers(1, 4))}
    if draw(st.booleans()):
        c['trajectory'] = [[draw(gen.LEVEL), draw(gen.LEVEL)] for _ in range(3)]
    return c


@st.composite
def set_case(draw):
    c = draw(gen.episode(forecasts=True, min_n=3, max_n=9, names=False))
    k = draw(st.integers(1, 2))
    c['set_at'] = sorted(draw(st.lists(st.integers(0, 6), min_size=k, max_size=k, unique=True)))
    c['h'] = [draw(st.integers(0, 4)) for _ in range(k)]
    return c


@st.composite
def long_case(draw):
    c = draw(gen.long_episode(forecasts=True, callable_cost=True))
    k = draw(st.integers(0, len(c['actions'])))
    return {'spec': c['spec'], 'episodes': [c['actions'], c['actions'][::-1][:k]], 'peek': draw(st.integers(10, 60))}


FACETS = [
    Facet('long', long_case, check, 80),
    Facet('episodes', case_, check, 1200),
    Facet('changing-fields', set_case, check_set_forecaster, 400),
    Facet('scenario-windows', scen.window, check_scenario, 120),
]
