"""C05: genset start-up / wind-down protocol, production range and cost."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Facet
from vlib.drive import energies, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C05'
QUICK_FACTOR = 2
RULE = ('Gensets with start-up/wind-down times 0-4, with and without abortion, initially on or off, driven by random '
        'and run-structured sequences of goal statuses (fractional goals included) and production requests; the '
        'status is compared with a reference state machine after every request. Non-trivial: the status changed, or a '
        'change was started and aborted.')
ASSUMPTIONS = ['a change that takes T steps shows in the request after T consecutive requests for it (immediately for '
               'T=0)', 'fractional goals of exactly 0.5 are not generated']


class Model:
    def __init__(self, m):
        self.T = {1: m['start_up'], 0: m['wind_down']}
        self.abort = m['abort']
        self.cur = self.goal = int(m['init_up'])
        self.c = 0
        self.aborted = self.changed = False

    def copy(self):
        o = Model.__new__(Model)
        o.__dict__.update(self.__dict__)
        return o

    def request(self, r):
        r = int(round(r))
        if self.goal != self.cur:
            if r == self.cur and (self.abort or self.T[r] == 0):
                self.goal, self.c = self.cur, 0
                self.aborted = True
            else:
                self.c += 1
        elif r != self.cur:
            self.goal, self.c = r, 1
        if self.goal != self.cur and self.c > self.T[self.goal]:
            self.cur, self.c = self.goal, 0
            self.changed = True
        return self.cur

    def peek(self, r):
        return self.copy().request(r)

    def state(self):
        if self.cur == self.goal:
            up, down = (0, self.T[0]) if self.cur else (self.T[1], 0)
        elif self.goal:
            up, down = self.T[1] - self.c, 0
        else:
            up, down = 0, self.T[0] - self.c
        return {'current_status': self.cur, 'goal_status': self.goal, 'steps_until_up': up, 'steps_until_down': down}


def fuel(m, p):
    if m.get('cost_fn'):
        return gen.COST_FNS[m['cost_fn']]()(p)
    return m['cost'] * p


def check_state(m, mod, model, what):
    got = {k: int(v) for k, v in mod.state_dict().items()}
    need(got == model.state(), '%s: state %r, expected %r', what, got, model.state())
    need(int(mod.current_status) == model.cur and int(mod.goal_status) == model.goal, '%s: status properties', what)
    for g in (0, 1):
        need(int(mod.next_status(g)) == model.peek(g), '%s: next_status(%d) is %r, but the request will leave it %r',
             what, g, mod.next_status(g), model.peek(g))
        need_close(mod.next_max_production(g), m['max'] * model.peek(g), f'{what}: next_max_production({g})', m['max'])
        need_close(mod.next_min_production(g), m['min'] * model.peek(g), f'{what}: next_min_production({g})', m['max'])
    got = {k: int(v) for k, v in mod.state_dict().items()}
    need(got == model.state(), '%s: predicting the status changed the genset to %r', what, got)
    need_close(mod.max_production, m['max'] * model.cur, f'{what}: max_production', m['max'])
    need_close(mod.min_production, m['min'] * model.cur, f'{what}: min_production', m['max'])


def check_module(case, ctx):
    m = case['module']
    mod = gen.build_module(m)
    model = Model(m)
    check_state(m, mod, model, 'initially')
    for rnd in range(case['rounds']):
        for k, (goal, e) in enumerate(case['requests']):
            status = model.request(goal)
            req = abs(e) * m['max']
            obs, reward, done, info = mod.step(np.array([goal, req]), normalized=False)
            what = f'round {rnd}, after request {k} ({goal}, {req:.3g})'
            check_state(m, mod, model, what)
            p, a = energies(info)
            want = min(max(req, m['min']), m['max']) if status else 0.0
            need_close(p, want, f'{what}: production', m['max'])
            need(a == 0 and not done, '%s: absorbed %r done %r', what, a, done)
            co2 = m['co2'] * p
            need_close(info['co2_production'], co2, f'{what}: co2_production', m['max'])
            need_close(reward, -(fuel(m, p) + m['co2_cost'] * co2), f'{what}: reward', max(1.0, m['max'] ** 2))
        ctx.nontrivial(model.changed or model.aborted)
        ctx.label('aborted', model.aborted)
        ctx.label('changed', model.changed)
        mod.reset()
        model = Model(m)
        check_state(m, mod, model, f'after reset {rnd}')
    need_close(mod.get_cost(1.5), fuel(m, 1.5) + m['co2_cost'] * m['co2'] * 1.5, 'get_cost')
    need_close(mod.get_co2(1.5), m['co2'] * 1.5, 'get_co2')


def check_bad_goal(case, ctx):
    m = case['module']
    mod = gen.build_module(m)
    model = Model(m)
    for goal, _ in case['requests']:
        model.request(goal)
        mod.update_status(goal)
    check_state(m, mod, model, 'before')
    try:
        mod.step(np.array([case['bad'], 0.0]), normalized=False)
    except (AssertionError, ValueError):
        pass
    else:
        need(False, 'goal status %r accepted', case['bad'])
    check_state(m, mod, model, f'after the refused goal {case["bad"]}')
    ctx.nontrivial()


def check_microgrid(case, ctx):
    spec = case['spec']
    models = {(nm, j): Model(m) for nm, j, m in gen.index(spec) if m['kind'] == 'genset'}
    for mg, rec in run_episode(case):
        for nm, j, m, info in module_infos(spec, rec):
            if m is None or m['kind'] != 'genset':
                continue
            model = models[nm, j]
            goal, req = rec.control[nm][j]
            if abs(goal - 0.5) < 1e-9:
                return
            status = model.request(goal)
            check_state(m, mg.modules[nm][j], model, f'step {rec.t} {nm}[{j}]')
            p, _ = energies(info)
            need_close(p, min(max(req, m['min']), m['max']) if status else 0.0, f'step {rec.t}: {nm}[{j}] production',
                       scale_of(spec, rec))
            ctx.nontrivial(model.changed or model.aborted)


@st.composite
def module_case(draw):
    m = draw(gen.genset_spec(draw(gen.SCALES), callable_cost=True))
    times = st.integers(0, 4) if draw(st.integers(0, 4)) else st.integers(0, 12)
    m['start_up'], m['wind_down'] = draw(times), draw(times)
    reqs = []
    for _ in range(draw(st.integers(1, 6))):
        g = draw(st.sampled_from([0, 1]))
        n = draw(st.integers(1, 6 if max(m['start_up'], m['wind_down']) < 5 else 14))
        frac = draw(st.sampled_from([0.0, 0.0, 0.1, 0.4, 0.49]))
        goal = g + frac if g == 0 else g - frac
        reqs += [[goal, draw(st.sampled_from([0.0, 0.3, 0.51, 1.0, 1.3]))] for _ in range(n)]
    return {'module': m, 'requests': reqs, 'rounds': draw(st.integers(1, 2))}


@st.composite
def bad_case(draw):
    c = draw(module_case())
    c['bad'] = draw(st.sampled_from([-0.1, 1.1, 2.0, -1.0, 1.0001]))
    return c


FACETS = [
    Facet('protocol', module_case, check_module, 6000),
    Facet('invalid-goal', bad_case, check_bad_goal, 400),
    Facet('microgrid', lambda: gen.episode(min_genset=1, max_genset=2, max_batt=1, max_grid=1), check_microgrid, 1200),
    Facet('long', lambda: gen.long_episode(min_genset=1, max_batt=1, max_grid=1), check_microgrid, 120),
]
