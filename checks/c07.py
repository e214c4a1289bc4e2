"""C07: reward accounting and reward shaping."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import energies, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C07'
QUICK_FACTOR = 1.5
RULE = ('Random microgrids (callable fuel costs, several modules per kind, weak grids) driven by random requests, with '
        'no, built-in and recording reward shaping functions. Non-trivial: a step whose reward has two or more '
        'non-zero contributions, or that was shaped.')
ASSUMPTIONS = ['each module\'s contribution is recomputed from its construction parameters, the series value of the '
               'step and the energies in the step info', 'tolerance 1e-9 relative to the sum of absolute contributions']


def contribution(m, t, info, spec):
    p, a = energies(info)
    if m is None:
        return -spec['llc'] * p - spec['ogc'] * a
    if m['kind'] == 'battery':
        return -m['cost'] * (p / m['efficiency'] + a * m['efficiency'])
    if m['kind'] == 'genset':
        fuel = gen.COST_FNS[m['cost_fn']]()(p) if m.get('cost_fn') else m['cost'] * p
        return -(fuel + m['co2_cost'] * m['co2'] * p)
    if m['kind'] == 'grid':
        return -m['imp'][t] * p + m['exp'][t] * a - m['co2_cost'] * m['co2'][t] * p
    return 0.0


class Recorder:
    def __init__(self, mode):
        self.mode, self.calls = mode, []

    def __call__(self, step_info, cost_info):
        self.calls.append((copy.deepcopy(step_info), copy.deepcopy(cost_info)))
        if self.mode == 'count':
            return 1000.0 + len(self.calls)
        tot = 0.0
        for lst in step_info.values():
            for d in lst:
                tot += d.get('provided_energy', 0.0) - 0.5 * d.get('absorbed_energy', 0.0)
        return tot

    def __deepcopy__(self, memo):
        return self


def canon(info):
    return {n: [{k: float(v) for k, v in d.items()} for d in lst] for n, lst in info.items()}


def check_cost_info(spec, mg, t, cost_info, what):
    for nm, j, m in gen.index(spec):
        need(nm in cost_info and len(cost_info[nm]) > j, '%s: cost info has no entry for %s[%d]', what, nm, j)
        d = cost_info[nm][j]
        if m['kind'] == 'grid':
            need_close(d['production_marginal_cost'], m['imp'][t], f'{what}: marginal cost of {nm}')
            need_close(d['absorption_marginal_cost'], m['exp'][t], f'{what}: marginal cost of {nm}')
        elif m['kind'] == 'battery':
            need_close(d['production_marginal_cost'], m['cost'], f'{what}: marginal cost of {nm}')
        elif m['kind'] == 'genset':
            need_close(d['production_marginal_cost'], -contribution(m, t, {'provided_energy': 1.0}, spec),
                       f'{what}: marginal cost of {nm}')


def check(case, ctx):
    spec = case['spec']
    shaper = Recorder(case['shaper']) if case['shaper'] in ('count', 'sum') else None
    kwargs = {'reward_shaping_func': shaper} if shaper else {}
    if case['init_shaper_late'] and shaper:
        mg = gen.build(spec)
        mg.reward_shaping_func = shaper
    else:
        mg = gen.build(spec, **kwargs)
    rewards = []
    for mg, rec in run_episode(case, mg=mg):
        what = f'step {rec.t}'
        total, mag, parts = 0.0, 1.0, 0
        for nm, j, m, info in module_infos(spec, rec):
            r = contribution(m, rec.t, info, spec)
            total += r
            mag += abs(r)
            parts += r != 0
            mod = mg.modules[nm][j]
            need_close(mod.log_dict()['reward'][-1], r, f'{what}: logged reward of {nm}[{j}] ({info})', mag)
        log = mg.get_log()
        need_close(log[('balance', 0, 'reward')].iloc[-1], total, f'{what}: logged reward', mag)
        if shaper is None:
            need_close(rec.reward, total, f'{what}: returned reward', mag)
            need_close(log[('balance', 0, 'shaped_reward')].iloc[-1], total, f'{what}: logged shaped reward', mag)
        else:
            need(len(shaper.calls) == rec.k + 1, '%s: shaping function called %d times for %d steps', what,
                 len(shaper.calls), rec.k + 1)
            sinfo, cinfo = shaper.calls[-1]
            need(canon(sinfo) == canon(rec.info), '%s: shaping function saw %r, step info is %r', what, canon(sinfo),
                 canon(rec.info))
            check_cost_info(spec, mg, rec.t, cinfo, what)
            again = Recorder(case['shaper'])
            again.calls = [None] * rec.k
            want = again(rec.info, {})
            need_close(rec.reward, want, f'{what}: returned reward, shaped', mag)
            need_close(log[('balance', 0, 'shaped_reward')].iloc[-1], want, f'{what}: logged shaped reward', mag)
        rewards.append((total, float(rec.reward)))
        ctx.nontrivial(parts >= 2 or shaper is not None)
    col = mg.get_log()[('balance', 0, 'reward')].values
    need(len(col) == len(rewards), 'reward log has %d rows after %d steps', len(col), len(rewards))
    for k, (r, s) in enumerate(rewards):
        need_close(col[k], r, f'row {k} of the reward log', max(1.0, abs(r)))


def check_scenario(case, ctx):
    mg = scen.scenario_at(case['scenario'], case['start'])
    for k, u in enumerate(case['actions']):
        c = scen.control(mg, u)
        t = mg.current_step
        _, reward, done, info = mg.run(c, normalized=False)
        total, mag = 0.0, 1.0
        for nm, lst in info.items():
            mod = mg.modules[nm][0]
            p, a = energies(lst[0])
            if nm == 'battery':
                r = -mod.battery_cost_cycle * (p / mod.efficiency + a * mod.efficiency)
            elif nm == 'grid':
                row = mod.time_series[t]
                r = -row[0] * p + row[1] * a - mod.cost_per_unit_co2 * row[2] * p
            elif nm == 'genset':
                r = -(mod.genset_cost * p + mod.cost_per_unit_co2 * mod.co2_per_unit * p)
            elif 'balanc' in nm:
                r = -mod.loss_load_cost * p - mod.overgeneration_cost * a
            else:
                r = 0.0
            total += r
            mag += abs(r)
        need_close(reward, total, f'scenario {case["scenario"]} step {t}: reward', mag)
        ctx.nontrivial(total != 0)
        if done:
            break


@st.composite
def case_(draw):
    c = draw(gen.episode(callable_cost=True))
    c['shaper'] = draw(st.sampled_from([None, None, 'count', 'sum']))
    c['init_shaper_late'] = draw(st.booleans())
    return c


@st.composite
def long_case(draw):
    c = draw(gen.long_episode(max_n=40, callable_cost=True))
    c['shaper'] = draw(st.sampled_from([None, 'count', 'sum']))
    c['init_shaper_late'] = draw(st.booleans())
    return c


FACETS = [
    Facet('random', case_, check, 2400),
    Facet('long', long_case, check, 80),
    Facet('scenario-windows', scen.window, check_scenario, 160),
]
