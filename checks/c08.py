"""C08: one clock for all modules; termination; reset."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import log_len, need, need_same, frames_same, run_episode

PROPERTY = 'C08'
RULE = ('Random microgrids (all module kinds, oracle or no forecasts, gensets in transition, non-zero initial and early '
        'final steps) driven through random histories of runs, resets and changes of the initial/final step; the clock '
        'and termination are compared with a counter model, and episodes are replayed after reset and on a fresh '
        'microgrid. Non-trivial: at least one reset after one or more steps, or an episode run to its end.')
ASSUMPTIONS = ['battery charge is not part of reset (documented behaviour of the library); the replay check sets it to '
               'the initial charge', 'forecasts with random noise are excluded from replay comparison',
               'steps beyond the end of an episode are not run']


def clocks(mg, cur, what):
    need(mg.current_step == cur, '%s: current_step %r, expected %r', what, mg.current_step, cur)
    for mod in mg.modules.iterlist():
        need(mod.current_step == cur, '%s: module %r is at step %r, microgrid at %r', what, mod.name, mod.current_step,
             cur)


def empty_logs(mg, what):
    need(len(mg.get_log()) == 0 and len(mg.log) == 0, '%s: log has %d rows', what, len(mg.get_log()))
    for mod in mg.modules.iterlist():
        need(log_len(mod) == 0 and len(mod.log) == 0, '%s: log of module %r has entries', what, mod.name)


def series_obs(spec, mg, t, what):
    """Observed series values are those of step t."""
    for nm, j, m in gen.index(spec):
        sd = mg.modules[nm][j].state_dict()
        if m['kind'] == 'load':
            need_same(sd['load_current'], -m['ts'][t], f'{what}: load of {nm}[{j}]')
        elif m['kind'] == 'pv':
            need_same(sd['renewable_current'], m['ts'][t], f'{what}: renewable of {nm}[{j}]')
        elif m['kind'] == 'grid':
            need_same(sd['import_price_current'], m['imp'][t], f'{what}: price of {nm}[{j}]')


def check_history(case, ctx):
    spec = case['spec']
    mg = gen.build(spec)
    n = spec['n']
    init = spec['init']
    final = spec['final'] if spec['final'] > 0 else n
    cur = init
    ran = 0
    done = False
    for i, op in enumerate(case['ops']):
        what = f'op {i} {op[0]}'
        if op[0] == 'run':
            if done:
                continue
            series_obs(spec, mg, cur, what)
            _, _, done, _ = mg.run(gen.resolve(spec, mg, op[1]), normalized=False)
            need(bool(done) == (cur == final - 1), '%s: done is %r after running step %d of [%d, %d)', what, done, cur,
                 init, final)
            cur += 1
            ran += 1
            need(all(log_len(mod) == ran for mod in mg.modules.iterlist()), '%s: a module log does not have %d rows',
                 what, ran)
            ctx.label('ended', done)
            ctx.nontrivial(done and ran > 1)
        elif op[0] == 'incomplete':
            if done:
                continue
            refused(spec, mg, op, what, ctx)
        else:
            if op[0] == 'window':
                a = int(op[1] * (n - 1))
                b = a + 1 + int(op[2] * (n - a - 1))
                if a < final:
                    mg.initial_step = a
                    mg.final_step = b
                else:
                    mg.final_step = b
                    mg.initial_step = a
                init, final = a, b
                need(mg.initial_step == a and mg.final_step == b, '%s: window [%r, %r) instead of [%d, %d)', what,
                     mg.initial_step, mg.final_step, a, b)
                clocks(mg, cur, what + ' before reset')
            obs = mg.reset()
            ctx.nontrivial(ran > 0)
            cur, ran, done = init, 0, False
            empty_logs(mg, what)
            for nm, lst in mg.modules.iterdict():
                need(nm in obs and len(obs[nm]) == len(lst), '%s: reset observation lacks %s', what, nm)
                for o, mod in zip(obs[nm], lst):
                    need_same(np.atleast_1d(o), np.atleast_1d(mod.to_normalized(mod.state, obs=True)),
                              f'{what}: reset observation of {nm}')
            series_obs(spec, mg, cur, what)
        clocks(mg, cur, what)
        need(len(mg) == n, '%s: length %r, series have %d steps', what, len(mg), n)


def refused(spec, mg, op, what, ctx):
    """A control which lacks a module is refused before anything moves."""
    control = gen.resolve(spec, mg, op[1])
    if not control:
        return
    nm = sorted(control)[op[2] % len(control)]
    if op[3] and len(control[nm]) > 1:
        control[nm] = control[nm][:-1]
        if op[4:] and op[4]:
            control[nm] = np.array(control[nm]) if op[4] == 1 else tuple(control[nm])
            ctx.label('too few controls in an array or tuple')
        ctx.label('too few controls')
    else:
        del control[nm]
        ctx.label('missing control')
    before, log = copy.deepcopy(mg.state_dict()), mg.get_log().copy()
    lens = [log_len(mod) for mod in mg.modules.iterlist()]
    try:
        mg.run(control, normalized=False)
    except ValueError:
        pass
    else:
        need(False, '%s: a control without one of the %s modules was accepted', what, nm)
    need_same(mg.state_dict(), before, what + ': state after a refused control', 0)
    need([log_len(mod) for mod in mg.modules.iterlist()] == lens, '%s: a refused control left log entries', what)
    frames_same(mg.get_log(), log, what + ': log after a refused control')


def restore_batteries(spec, mg):
    for nm, j, m in gen.index(spec):
        if m['kind'] == 'battery':
            mg.modules[nm][j].current_charge = \
                m['init_charge'] if m['init_charge'] is not None else m['init_soc'] * m['max_capacity']


def record(case, mg):
    out = []
    for _, r in run_episode(case, mg=mg):
        out.append((r.obs, r.reward, r.done, r.info))
    return out, mg.get_log()


def check_replay(case, ctx):
    spec = case['spec']
    mg = gen.build(spec)
    ref, ref_log = record(case, mg)
    ref, ref_log = copy.deepcopy(ref), ref_log.copy()
    if case['other']:
        mg.reset()
        list(run_episode({'spec': spec, 'actions': case['other']}, mg=mg))
    for rnd in range(2):
        mg.reset()
        restore_batteries(spec, mg)
        need_same(mg.state_dict(), gen.build(spec).state_dict(), f'state after reset {rnd}')
        got, log = record(case, mg)
        need(len(got) == len(ref), 'replay ended after %d steps, first run after %d', len(got), len(ref))
        for k, (a, b) in enumerate(zip(ref, got)):
            for x, y, what in zip(a, b, ('observation', 'reward', 'done', 'info')):
                need_same(x, y, f'replay {rnd}: {what} of step {k}')
        frames_same(ref_log, log, f'replay {rnd}: log')
    ctx.nontrivial(len(ref) > 1)
    ctx.label('other history in between', bool(case['other']))


def check_scenario(case, ctx):
    start, length = case['start'], len(case['actions'])
    length = min(length, 8760 - start)
    mg = scen.scenario_at(case['scenario'], start, length)
    clocks(mg, start, 'after reset')
    for k in range(length):
        _, _, done, _ = mg.run(scen.control(mg, case['actions'][k]), normalized=False)
        need(bool(done) == (k == length - 1), 'scenario %d: done is %r after step %d of %d', case['scenario'], done, k,
             length)
        clocks(mg, start + k + 1, f'after step {k}')
    log = mg.get_log()
    need(list(log.index) == list(range(start, start + length)), 'log index %r', list(log.index))
    mg.reset()
    clocks(mg, start, 'after second reset')
    empty_logs(mg, 'after second reset')
    ctx.nontrivial(length > 1)


@st.composite
def history(draw):
    spec = draw(gen.microgrid_spec(min_n=2, max_n=8, forecasts=True))
    ops = []
    for _ in range(draw(st.integers(2, 18))):
        k = draw(st.sampled_from(['run'] * 8 + ['reset', 'window', 'incomplete', 'incomplete']))
        if k == 'run':
            ops.append(['run', draw(gen.action_seq(spec, 1))[0]])
        elif k == 'incomplete':
            ops.append(['incomplete', draw(gen.action_seq(spec, 1))[0], draw(st.integers(0, 5)), draw(st.booleans()),
                        draw(st.integers(0, 2))])
        elif k == 'window':
            ops.append(['window', draw(gen.LEVEL), draw(gen.LEVEL)])
        else:
            ops.append(['reset'])
    return {'spec': spec, 'ops': ops}


def no_noise(spec):
    for m in spec['modules']:
        if m.get('fc') and m['fc']['kind'] == 'gauss':
            m['fc'] = {'kind': 'oracle', 'h': m['fc']['h']}
    return spec


@st.composite
def replay_case(draw):
    c = draw(gen.episode(forecasts=True, max_n=8, callable_cost=True))
    no_noise(c['spec'])
    ns = draw(st.integers(0, gen.n_steps_available(c['spec'])))
    c['other'] = draw(gen.action_seq(c['spec'], ns))
    return c


@st.composite
def long_replay(draw):
    c = draw(gen.long_episode(forecasts=True, callable_cost=True))
    no_noise(c['spec'])
    k = draw(st.integers(0, len(c['actions'])))
    c['other'] = c['actions'][::-1][:k]
    return c


@st.composite
def long_history(draw):
    c = draw(gen.long_episode(forecasts=True, min_n=10, max_n=40, extra_steps=20))
    ops = []
    for a in c['actions']:
        u = draw(st.integers(0, 29))
        if u == 0:
            ops.append(['reset'])
        elif u == 1:
            ops.append(['window', draw(gen.LEVEL), draw(gen.LEVEL)])
        ops.append(['run', a])
    return {'spec': c['spec'], 'ops': ops}


FACETS = [
    Facet('long-history', long_history, check_history, 80),
    Facet('long-replay', long_replay, check_replay, 60),
    Facet('history', history, check_history, 2000),
    Facet('replay-after-reset', replay_case, check_replay, 1000),
    Facet('scenario-windows', scen.window, check_scenario, 120),
]
