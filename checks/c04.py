"""C04: battery energy accounting."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet
from vlib.drive import energies, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C04'
QUICK_FACTOR = 1.5
RULE = ('Batteries with random capacities, limits, efficiencies, initial charge/soc and (optionally) custom transition '
        'models, alone and in microgrids and benchmark scenarios, driven by random charge/discharge histories. '
        'Non-trivial: the history both charged or discharged a non-zero amount and hit a limit or changed direction.')
ASSUMPTIONS = ['tolerance 1e-9 relative to capacity']


def check_one(m, pre, post, info, reward, scale, what):
    p, a = energies(info)
    eff = m['efficiency']
    c0, c1 = pre['current_charge'], post['current_charge']
    change = a * eff - p / eff
    need(p >= 0 and a >= 0 and (p == 0 or a == 0), '%s: provided %r and absorbed %r', what, p, a)
    need_close(c1, c0 + change, f'{what}: stored energy after providing {p!r}, absorbing {a!r} from {c0!r}', scale)
    tol = 1e-9 * max(1.0, scale)
    need(m['min_capacity'] <= c1 <= m['max_capacity'], '%s: charge %r outside [%r, %r]', what, c1,
         m['min_capacity'], m['max_capacity'])
    need(m['min_capacity'] / m['max_capacity'] - 1e-12 <= post['soc'] <= 1.0, '%s: soc %r out of range', what,
         post['soc'])
    need_close(post['soc'] * m['max_capacity'], c1, f'{what}: soc vs charge', scale)
    need(a * eff <= m['max_charge'] + tol, '%s: charged %r in one step, limit %r', what, a * eff, m['max_charge'])
    need(p / eff <= m['max_discharge'] + tol, '%s: discharged %r in one step, limit %r', what, p / eff,
         m['max_discharge'])
    if reward is not None:
        need_close(reward, -m['cost'] * abs(change), f'{what}: reward', scale * max(1.0, m['cost']))
    return change


def limits_ok(m, mod, scale, what):
    c = float(mod.current_charge)
    need_close(mod.max_production, min(m['max_discharge'], c - m['min_capacity']) * m['efficiency'],
               f'{what}: available discharge at charge {c!r}', scale)
    need_close(mod.max_consumption, min(m['max_charge'], m['max_capacity'] - c) / m['efficiency'],
               f'{what}: available charge at charge {c!r}', scale)
    sd = mod.state_dict()
    need(set(sd) == {'soc', 'current_charge'}, '%s: state %r', what, sd)
    need(float(sd['soc']) == float(mod.soc) and float(sd['current_charge']) == c, '%s: state_dict %r disagrees', what,
         sd)
    need_close(mod.soc * m['max_capacity'], c, f'{what}: soc against charge', scale)


def check_module(case, ctx):
    m = case['module']
    mod = gen.build_module(m)
    scale = m['max_capacity']
    want = m['init_charge'] if m['init_charge'] is not None else m['init_soc'] * m['max_capacity']
    need_close(mod.current_charge, want, 'initial charge', scale)
    last = 0.0
    for k, a in enumerate(case['requests']):
        limits_ok(m, mod, scale, f'step {k}')
        rating = max(m['max_charge'], m['max_discharge'])
        e = {'max': mod.max_production, 'min': -mod.max_consumption}.get(a, None) if isinstance(a, str) else a * rating
        pre = dict(mod.state_dict())
        obs, reward, done, info = mod.step(float(e), normalized=False)
        need(not done, 'a battery ended the episode')
        ch = check_one(m, pre, mod.state_dict(), info, reward, scale, f'step {k} (asked {e!r})')
        ctx.nontrivial(ch * last < 0 or (isinstance(a, str) and abs(ch) > 0))
        ctx.label('full', mod.current_charge >= m['max_capacity'] * (1 - 1e-12))
        ctx.label('empty', mod.current_charge <= m['min_capacity'] + 1e-12 * m['max_capacity'])
        last = ch or last
    limits_ok(m, mod, scale, 'end')
    if case['set_soc'] is not None:
        s = m['min_capacity'] / m['max_capacity'] * (1 - case['set_soc']) + case['set_soc']
        mod.soc = s
        need_close(mod.current_charge, s * m['max_capacity'], 'charge after setting soc', scale)
        limits_ok(m, mod, scale, 'after setting soc')
        mod.current_charge = m['min_capacity']
        need_close(mod.soc, m['min_capacity'] / m['max_capacity'], 'soc after setting charge')
        limits_ok(m, mod, scale, 'after setting charge')
        mod.soc = s
        for k, e in enumerate((mod.max_production, -mod.max_consumption)):
            pre = dict(mod.state_dict())
            obs, reward, done, info = mod.step(float(e), normalized=False)
            check_one(m, pre, mod.state_dict(), info, reward, scale, f'step {k} after setting soc (asked {e!r})')
            limits_ok(m, mod, scale, f'step {k} after setting soc')


def check_microgrid(case, ctx):
    spec = case['spec']
    for mg, rec in run_episode(case):
        scale = scale_of(spec, rec)
        for nm, j, m, info in module_infos(spec, rec):
            if m is None or m['kind'] != 'battery':
                continue
            mod = mg.modules[nm][j]
            reward = mod.log_dict()['reward'][-1]
            ch = check_one(m, rec.pre[nm, j]['state'], mod.state_dict(), info, reward, max(scale, m['max_capacity']),
                           f'step {rec.t} {nm}[{j}]')
            log = mod.log_dict()
            p, a = energies(info)
            need(float(log['discharge_amount'][-1]) == p and float(log['charge_amount'][-1]) == a,
                 'log of %s[%d] disagrees with the step', nm, j)
            limits_ok(m, mod, max(scale, m['max_capacity']), nm)
            ctx.nontrivial(abs(ch) > 0)


def check_scenario(case, ctx):
    mg = scen.scenario_at(case['scenario'], case['start'])
    if 'battery' not in mg.modules.names():
        return
    b = mg.modules['battery'][0]
    m = {'min_capacity': b.min_capacity, 'max_capacity': b.max_capacity, 'max_charge': b.max_charge,
         'max_discharge': b.max_discharge, 'efficiency': b.efficiency, 'cost': b.battery_cost_cycle}
    for k, u in enumerate(case['actions']):
        pre = dict(b.state_dict())
        _, _, done, info = mg.run(scen.control(mg, u), normalized=False)
        ch = check_one(m, pre, b.state_dict(), info['battery'][0], b.log_dict()['reward'][-1], m['max_capacity'],
                       f'scenario step {k}')
        ctx.nontrivial(abs(ch) > 0)
        if done:
            break


class Model:
    """A custom transition model: loses a share that depends on the state of charge."""
    KEYS = {'external_energy_change', 'min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency',
            'battery_cost_cycle', 'max_production', 'max_consumption', 'state_dict'}

    def __init__(self, r):
        self.r, self.calls = r, []

    def __call__(self, **kw):
        need(set(kw) == self.KEYS, 'transition model called with %r', sorted(kw))
        e = kw['external_energy_change']
        soc = kw['state_dict']['soc']
        share = 1 - self.r * soc
        out = e * share * kw['efficiency'] if e >= 0 else e * share / kw['efficiency']
        self.calls.append((dict(kw), out))
        return out


def check_custom(case, ctx):
    from pymgrid.modules import BatteryModule
    m = case['module']
    model = Model(case['r'])
    mod = BatteryModule(min_capacity=m['min_capacity'], max_capacity=m['max_capacity'], max_charge=m['max_charge'],
                        max_discharge=m['max_discharge'], efficiency=m['efficiency'], battery_cost_cycle=m['cost'],
                        battery_transition_model=model, init_soc=m['init_soc'], init_charge=m['init_charge'])
    scale = m['max_capacity']
    for k, a in enumerate(case['requests']):
        e = (mod.max_production if a == 'max' else -mod.max_consumption) if isinstance(a, str) else \
            a * max(m['max_charge'], m['max_discharge'])
        pre = dict(mod.state_dict())
        mp, mc = float(mod.max_production), float(mod.max_consumption)
        obs, reward, done, info = mod.step(float(e), normalized=False)
        p, ab = energies(info)
        kw, out = model.calls[-1]
        need_close(kw['external_energy_change'], ab - p, f'step {k}: energy passed to the transition model', scale)
        for key in ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency'):
            need_close(kw[key], m[key], f'step {k}: {key} passed to the transition model', scale)
        need_close(kw['battery_cost_cycle'], m['cost'], 'battery_cost_cycle passed to the transition model')
        need_close(kw['max_production'], mp, 'max_production passed to the transition model', scale)
        need_close(kw['max_consumption'], mc, 'max_consumption passed to the transition model', scale)
        need({k2: float(v) for k2, v in kw['state_dict'].items()} == {k2: float(v) for k2, v in pre.items()},
             'state passed to the transition model: %r, was %r', kw['state_dict'], pre)
        need_close(mod.current_charge, pre['current_charge'] + out, f'step {k}: stored energy', scale)
        need_close(reward, -m['cost'] * abs(out), f'step {k}: reward', scale)
        need(m['min_capacity'] <= mod.current_charge <= m['max_capacity'], 'charge outside capacity')
        ctx.nontrivial(out != 0)


REQ = st.lists(st.one_of(st.integers(-140, 140).map(lambda i: i / 100), st.sampled_from(['max', 'min', 0.0])),
               min_size=1, max_size=14)


@st.composite
def module_case(draw):
    scale = draw(gen.SCALES)
    return {'module': draw(gen.battery_spec(scale)), 'requests': draw(REQ),
            'set_soc': draw(st.one_of(st.none(), gen.LEVEL)), 'r': draw(st.sampled_from([0.0, 0.1, 0.5]))}


FACETS = [
    Facet('battery-history', module_case, check_module, 6000),
    Facet('custom-transition-model', module_case, check_custom, 1600),
    Facet('microgrid', lambda: gen.episode(min_batt=1, max_batt=2, max_genset=1, max_grid=1), check_microgrid, 1600),
    Facet('long', lambda: gen.long_episode(min_batt=1, max_genset=1, max_grid=1), check_microgrid, 120),
    Facet('scenario-windows', scen.window, check_scenario, 120),
]
