"""C13: priority lists (discrete environment actions, rule-based control) deploy modules greedily in order."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet, Violation
from vlib.drive import energies, frames_same, need, need_same

PROPERTY = 'C13'
RULE = ('Random microgrids (several loads, renewables, batteries, gensets and grids, arbitrary names, outages, gensets '
        'in transition) and benchmark scenario windows; every step of the discrete environment and of rule-based '
        'control is compared with a reference greedy dispatch of the list concerned, and the set of actions with an '
        'independent enumeration. Non-trivial: at least two controllable modules and a non-zero net load.')
ASSUMPTIONS = ['remainders of the net load below 1e-4 may be treated as zero (library tolerance), so energies are '
               'compared within 1e-4 per module',
               'a genset switched on by the list while nothing is to be produced is asked for nothing, so delivers its '
               'minimum production; raise_errors is off for gensets with a minimum production',
               'the default rule-based list may choose either status for gensets with a minimum production']
TOL = 1e-4


def limits(mg):
    """Limits of every controllable module before the step: (max production by action, min by action, max consumption)."""
    from pymgrid.modules import GensetModule
    out = {}
    for mod in mg.modules.controllable.iterlist():
        if isinstance(mod, GensetModule):
            out[tuple(mod.name)] = ([float(mod.next_max_production(a)) for a in (0, 1)],
                                    [float(mod.next_min_production(a)) for a in (0, 1)], 0.0)
        else:
            out[tuple(mod.name)] = ([float(mod.max_production)], [0.0],
                                    float(mod.max_consumption) if mod.is_sink else 0.0)
    return out


def greedy(plist, lim, net):
    """Reference: {module: (requested energy, delivered energy)}; positive is production."""
    out = {}
    rem = net
    for el in plist:
        key = tuple(el.module)
        need(key in lim, 'list element for unknown module %r', key)
        need(key not in out, 'module %r twice in one list', key)
        mx, mn, mc = lim[key]
        a = el.action if len(mx) > 1 else 0
        if rem > TOL:
            e = min(mx[a], max(mn[a], rem))
        elif rem < -TOL:
            e = -min(mc, -rem)
        else:
            e = 0.0
        delivered = e if e < 0 else min(mx[a], max(mn[a], e))
        out[key] = (e, delivered)
        rem -= e
    return out


def spec_net(spec, t):
    net = 0.0
    for _, _, m in gen.index(spec):
        if m['kind'] == 'load':
            net += m['ts'][t]
        elif m['kind'] == 'pv':
            net -= m['ts'][t]
    return net


def scen_net(mg, t):
    return abs(float(np.ravel(mg.modules['load'][0].time_series)[t])) - \
        sum(float(np.ravel(m.time_series)[t]) for nm in ('pv', 'renewable') if nm in mg.modules.names()
            for m in mg.modules[nm])


def compare(plist, lim, net, info, mg_after, what):
    ref = greedy(plist, lim, net)
    need(set(ref) == set(lim), '%s: list %r does not cover the controllable modules %r', what, plist, set(lim))
    tol = TOL * (len(ref) + 1)
    for (nm, j), (_, e) in ref.items():
        p, a = energies(info[nm][j])
        got = p - a
        if abs(got - e) > tol + 1e-9 * abs(net):
            raise Violation(f'{what}: {nm}[{j}] moved {got!r} (net load {net!r}, list {plist!r}), greedy dispatch is '
                            f'{e!r} (limits {lim[nm, j]!r})')
    for el in plist:
        mod = mg_after.modules[el.module[0]][el.module[1]]
        if len(lim[tuple(el.module)][0]) > 1 and mod.allow_abortion:
            need(int(mod.goal_status) == el.action, '%s: genset %r has goal status %r, list says %r', what, el.module,
                 mod.goal_status, el.action)


def safe(spec):
    for m in spec['modules']:
        if m['kind'] == 'genset' and m['min'] > 0:
            m['raise_errors'] = False
    return spec


def make_env(case, **kw):
    from pymgrid.envs import DiscreteMicrogridEnv
    return gen.build(safe(case['spec']), cls=DiscreteMicrogridEnv, remove_redundant_gensets=case['rrg'], **kw)


def check_discrete(case, ctx):
    spec = case['spec']
    env = make_env(case)
    n = env.action_space.n
    need(n == len(env.actions_list), 'action space of %d for %d lists', n, len(env.actions_list))
    final = spec['final'] if spec['final'] > 0 else spec['n']
    for k, u in enumerate(case['actions']):
        t = env.current_step
        if t >= final:
            break
        a = min(n - 1, int(u * n))
        plist = list(env.actions_list[a])
        lim, net = limits(env), spec_net(spec, t)
        obs, reward, done, info = env.step(a)
        compare(plist, lim, net, info, env, f'step {t}, action {a}')
        ctx.nontrivial(len(lim) > 1 and abs(net) > TOL)
        ctx.label('excess', net < -TOL)
        ctx.label('shortfall', net > TOL)
        ctx.label('genset', any(len(v[0]) > 1 for v in lim.values()))
        if done:
            break


@st.composite
def env_cases(draw, **kw):
    args = dict(max_n=8, max_ctrl=4, max_genset=2, min_ctrl=1, raise_errors=True, outages=True)
    args.update(kw)
    spec = draw(gen.microgrid_spec(**args))
    return {'spec': spec, 'actions': draw(st.lists(gen.LEVEL, min_size=1, max_size=8)), 'rrg': draw(st.booleans())}


def small_env_cases():
    return env_cases(max_ctrl=3, max_n=5)


def reference_lists(spec, rrg):
    ctrl = [((nm, j), m) for nm, j, m in gen.index(spec) if m['kind'] in ('battery', 'genset', 'grid')]
    opts = []
    for key, m in ctrl:
        if m['kind'] == 'genset':
            opts.append([(key, 1)] if rrg and m['min'] == 0 else [(key, 0), (key, 1)])
        else:
            opts.append([(key, 0)])
    return {p for choice in itertools.product(*opts) for p in itertools.permutations(choice)}


def check_enumerate(case, ctx):
    spec = case['spec']
    env = make_env(case)
    ref = reference_lists(spec, case['rrg'])
    got = [tuple((tuple(el.module), el.action) for el in pl) for pl in env.actions_list]
    need(len(set(got)) == len(got), 'an action list occurs twice: %r', got)
    need(set(got) == ref, 'action lists differ from the possible ones: missing %r, extra %r', ref - set(got),
         set(got) - ref)
    need(env.action_space.n == len(ref), 'action space has %d actions for %d lists', env.action_space.n, len(ref))
    # every action executes its own list from one and the same state
    for u in case['actions'][:2]:
        env.step(min(len(got) - 1, int(u * len(got))))
        if env.current_step >= (spec['final'] if spec['final'] > 0 else spec['n']):
            env.reset()
    t = env.current_step
    picks = range(len(got)) if len(got) <= 24 else \
        sorted({min(len(got) - 1, int(u * len(got))) for u in case['actions']})
    lim, net = limits(env), spec_net(spec, t)
    for a in picks:
        e = copy.deepcopy(env)
        plist = list(e.actions_list[a])
        _, _, _, info = e.step(a)
        compare(plist, lim, net, info, e, f'action {a} at step {t}')
    for bad in (-1, len(got), 1.5, None):
        e = copy.deepcopy(env)
        before = e.state_dict(), e.current_step
        try:
            e.step(bad)
        except (ValueError, TypeError, AssertionError, AttributeError):
            pass
        else:
            raise Violation(f'action {bad!r} outside {env.action_space} was accepted')
        need_same(before[0], e.state_dict(), f'state after refused action {bad!r}')
        need(e.current_step == before[1] and len(e.get_log()) == len(env.get_log()), 'refused action %r changed the '
             'environment', bad)
    # removing an action removes exactly that one
    if len(got) > 1:
        r = min(len(got) - 1, int(case['actions'][0] * len(got)))
        env.remove_action(r)
        now = [tuple((tuple(el.module), el.action) for el in pl) for pl in env.actions_list]
        need(now == got[:r] + got[r + 1:] and env.action_space.n == len(now), 'remove_action(%d) left %r of %r', r, now,
             got)
    ctx.nontrivial(len(lim) > 1)


def check_order(spec, plist, t):
    costs = []
    for el in plist:
        m = next(m for nm, j, m in gen.index(spec) if (nm, j) == tuple(el.module))
        costs.append(m['imp'][t] if m['kind'] == 'grid' else m['cost'] if m['kind'] == 'battery' else
                     m['cost'] + m['co2'] * m['co2_cost'])
    need(all(a <= b + 1e-12 for a, b in zip(costs, costs[1:])), 'default list %r is not ordered by marginal cost %r',
         plist, costs)
    return costs


def check_default(case, ctx):
    from pymgrid.algos import RuleBasedControl
    spec = safe(case['spec'])
    mg = gen.build(spec)
    rbc = RuleBasedControl(mg, remove_redundant_gensets=case['rrg'])
    plist = list(rbc.priority_list)
    got = tuple((tuple(el.module), el.action) for el in plist)
    need(got in reference_lists(spec, case['rrg']), 'default list %r is not one of the possible lists', plist)
    costs = check_order(spec, plist, mg.current_step)
    ctx.nontrivial(len(set(costs)) > 1)
    ctx.label('near costs', len(set(costs)) > 1 and max(costs) - min(costs) < 0.1)
    # and the list is the one that is executed
    lim, net = limits(rbc.microgrid), spec_net(spec, mg.current_step)
    log = rbc.run(max_steps=1)
    ref = greedy(plist, lim, net)
    for (nm, j), (_, e) in ref.items():
        p = sum(float(log[c].iloc[0]) for c in log.columns if c[:2] == (nm, j) and
                c[2] in ('discharge_amount', 'genset_production', 'grid_import'))
        a = sum(float(log[c].iloc[0]) for c in log.columns if c[:2] == (nm, j) and
                c[2] in ('charge_amount', 'grid_export'))
        need(abs(p - a - e) <= TOL * (len(ref) + 1) + 1e-9 * abs(net), '%s[%d] moved %r at the first step, greedy '
             'dispatch of %r is %r', nm, j, p - a, plist, e)


def check_rbc(case, ctx):
    from pymgrid.algos import RuleBasedControl
    spec = safe(case['spec'])
    mg = gen.build(spec)
    for u in case['pre']:
        if mg.current_step < mg.final_step - 1:
            mg.run(gen.resolve(spec, mg, u), normalized=False)
    before = mg.state_dict(), mg.get_log().copy(), mg.current_step
    rbc = RuleBasedControl(mg, remove_redundant_gensets=case['rrg'])
    lists = rbc.get_priority_lists(case['rrg'])
    need({tuple((tuple(el.module), el.action) for el in pl) for pl in lists} == reference_lists(spec, case['rrg']),
         'get_priority_lists differs from the possible lists')
    if case['pick'] is None:
        plist = list(rbc.priority_list)
        check_order(spec, plist, mg.current_step)
    else:
        given = lists[min(len(lists) - 1, int(case['pick'] * len(lists)))]
        given = list(given) if case['as_list'] else given
        rbc = RuleBasedControl(mg, priority_list=given, remove_redundant_gensets=case['rrg'])
        plist = list(rbc.priority_list)
        need(plist == list(given), 'rule-based control uses %r instead of the given list %r', plist, given)
    log = rbc.run(max_steps=case['max_steps'])
    need_same(before[0], mg.state_dict(), 'state of the microgrid rule-based control was given')
    frames_same(before[1], mg.get_log(), 'log of the microgrid rule-based control was given')
    need(mg.current_step == before[2], 'rule-based control moved the clock of its argument')
    # reference: the same list, every step, on the argument itself
    mg.reset()
    k = 0
    nontrivial = False
    while k < (case['max_steps'] if case['max_steps'] is not None else len(mg)):
        lim, net = limits(mg), spec_net(spec, mg.current_step)
        ref = greedy(plist, lim, net)
        need(set(ref) == set(lim), 'list %r does not cover the controllable modules', plist)
        control = {}
        for nm, lst in mg.modules.iterdict():
            for j, mod in enumerate(lst):
                if (nm, j) in ref:
                    e = ref[nm, j][0]
                    el = next(x for x in plist if tuple(x.module) == (nm, j))
                    control.setdefault(nm, []).append(
                        np.array([el.action, e]) if len(lim[nm, j][0]) > 1 else e)
        _, _, done, _ = mg.run(control, normalized=False)
        nontrivial |= len(lim) > 1 and abs(net) > TOL
        k += 1
        if done:
            break
    want = mg.get_log()
    need(len(log) == k, 'rule-based control ran %d steps, expected %d', len(log), k)
    need(set(want.columns) == set(log.columns), 'columns of the rule-based control log differ: %r',
         set(want.columns) ^ set(log.columns))
    need(list(want.index) == list(log.index), 'index of the rule-based control log differs')
    scale = max(1.0, float(np.nanmax(np.abs(want.to_numpy(dtype=float)))) if want.size else 1.0)
    for c in want.columns:
        # thresholded remainders accumulate in the batteries and in costs
        x, y = want[c].to_numpy(dtype=float), log[c].to_numpy(dtype=float)
        loose = {'reward': 0.1, 'shaped_reward': 0.1, 'soc': 0.05}.get(c[-1], 1e-3)
        bad = ~((np.abs(x - y) <= loose * k + 1e-6 * scale) | (np.isnan(x) & np.isnan(y)))
        need(not bad.any(), 'rule-based control log column %r: %r, greedy reference %r', c, y.tolist(), x.tolist())
    ctx.nontrivial(nontrivial)
    ctx.label('default list', case['pick'] is None)
    if case['bad'] and len(plist) > 1:
        bad = {'short': plist[:-1], 'dup': plist + plist[:1], 'double': [plist[0]] * len(plist)}[case['bad']]
        try:
            RuleBasedControl(mg, priority_list=bad, remove_redundant_gensets=case['rrg'])
        except ValueError:
            pass
        else:
            raise Violation(f'rule-based control accepted the invalid list {bad!r}')


def quieten(draw, spec):
    near = draw(st.sampled_from([None, None, 0.1, 0.005]))  # marginal costs closer to each other than usual
    for m in spec['modules']:
        m['raise_errors'] = False
        if near and m['kind'] in ('battery', 'genset'):
            m['cost'] = near * draw(st.sampled_from([0.0, 0.1, 0.3, 0.9, 1.0]))
            if m['kind'] == 'genset':
                m['co2_cost'] = m['co2_cost'] * near * 0.1
        elif near and m['kind'] == 'grid':
            m['imp'] = [near * x for x in m['imp']]
    return spec


@st.composite
def default_cases(draw):
    spec = draw(gen.microgrid_spec(max_n=3, max_batt=2, max_genset=3, max_grid=2, max_ctrl=3, min_ctrl=2, max_loads=2,
                                   max_pv=1, steps=False))
    return {'spec': quieten(draw, spec), 'rrg': draw(st.booleans())}


@st.composite
def rbc_cases(draw):
    spec = quieten(draw, draw(gen.microgrid_spec(max_n=7, max_ctrl=4, max_genset=2, min_ctrl=1, raise_errors=True)))
    ns = gen.n_steps_available(spec)
    return {'spec': spec, 'rrg': draw(st.booleans()), 'pick': draw(st.one_of(st.none(), gen.LEVEL)),
            'as_list': draw(st.booleans()), 'max_steps': draw(st.one_of(st.none(), st.integers(1, 8))),
            'pre': draw(gen.action_seq(spec, draw(st.integers(0, min(2, ns))))),
            'bad': draw(st.sampled_from([None, 'short', 'dup', 'double']))}


@st.composite
def long_rbc(draw):
    c = draw(gen.long_episode(max_n=50, max_batt=2, max_genset=2, max_grid=2, max_ctrl=4, min_ctrl=1))
    acts = c.pop('actions')
    c.update(rrg=draw(st.booleans()), pick=draw(st.one_of(st.none(), gen.LEVEL)), as_list=draw(st.booleans()),
             max_steps=draw(st.one_of(st.none(), st.integers(8, 60))), pre=acts[:draw(st.integers(0, 3))], bad=None)
    return c


def check_scenario(case, ctx):
    from pymgrid.envs import DiscreteMicrogridEnv
    env = DiscreteMicrogridEnv.from_microgrid(scen.fresh(case['scenario']))
    env.initial_step = case['start']
    env.final_step = min(8759, case['start'] + len(case['actions']))
    env.reset()
    n = env.action_space.n
    for u in case['actions']:
        t = env.current_step
        a = min(n - 1, int((u[0] + 1.2) / 2.4 * n))
        plist = list(env.actions_list[a])
        lim, net = limits(env), scen_net(env, t)
        _, _, done, info = env.step(a)
        compare(plist, lim, net, info, env, f'scenario {case["scenario"]}, step {t}, action {a}')
        ctx.nontrivial(len(lim) > 1 and abs(net) > TOL)
        if done:
            break


@st.composite
def scen_cases(draw):
    c = draw(scen.window(8))
    c['start'] = min(c['start'], 8750)
    return c


FACETS = [
    Facet('discrete', env_cases, check_discrete, 500),
    Facet('enumerate', small_env_cases, check_enumerate, 200),
    Facet('default-list', default_cases, check_default, 400),
    Facet('rbc', rbc_cases, check_rbc, 300),
    Facet('rbc-long', long_rbc, check_rbc, 40),
    Facet('scenario', scen_cases, check_scenario, 40),
]
