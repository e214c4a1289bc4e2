"""C26: user-defined modules take part in a microgrid exactly as built-in ones do."""

import numpy as np
from hypothesis import strategies as st

from vlib import custom, gen
from vlib.core import Facet
from vlib.drive import energies, need, need_close, need_same

PROPERTY = 'C26'
RULE = ('Microgrids of 1-5 user-defined modules (subclasses of BaseMicrogridModule of every role - fixed, flexible, '
        'controllable - and direction - source, sink, both - with a state, a budget that shrinks their limits, and a '
        'cost) together with built-in loads, renewables and batteries, driven by random requests. A reference model '
        'predicts every energy, reward, state, log row and observation. Non-trivial: a user-defined module moved '
        'energy.')
ASSUMPTIONS = ['flexible modules are deployed in the order in which the microgrid iterates over them',
               'tolerance 1e-9 relative to the energies of the step']


def build(case):
    from pymgrid import Microgrid
    spec = case['spec']
    mods = gen.build_modules(spec)
    mine = []
    for m in case['mine']:
        mod = custom.build(m, spec['init'])
        mine.append((m['name'], mod) if m.get('name') else mod)
    order = case['order']
    every = [(mods + mine)[i] for i in order]
    if case['own_slack']:
        every.append(gen.build_module({'kind': 'unbalanced', 'llc': spec['llc'], 'ogc': spec['ogc']}, spec['init']))
        return Microgrid(every, add_unbalanced_module=False)
    return Microgrid(every, loss_load_cost=spec['llc'], overgeneration_cost=spec['ogc'])


def my_index(case):
    seen, out = {}, []
    n = len(case['spec']['modules'])
    for i in case['order']:
        if i < n:
            continue
        m = case['mine'][i - n]
        nm = m.get('name') or f"{m['role']}_{m['dir']}"
        out.append((nm, seen.get(nm, 0), m))
        seen[nm] = seen.get(nm, 0) + 1
    return out


def index(case):
    """As gen.index, in the order in which the modules are passed."""
    spec = case['spec']
    mods = [spec['modules'][i] for i in case['order'] if i < len(spec['modules'])]
    return gen.index({**spec, 'modules': mods})


def request(m, moved, u):
    up, down = custom.limits(m, moved)
    if isinstance(u, list):                        # a fraction of the live limits
        return u[0] * (up if u[0] >= 0 else down)
    return u * (m['produce'] if u >= 0 else m['consume'])


def check(case, ctx):
    spec = case['spec']
    mg = build(case)
    mine, built = my_index(case), index(case)
    moved = {(nm, j): 0.0 for nm, j, _ in mine}
    rows = []
    for k, step in enumerate(case['actions']):
        t = spec['init'] + k
        need(mg.current_step == t, 'step %d, expected %d', mg.current_step, t)
        scale = max([spec['scale']] + [m['produce'] + m['consume'] for _, _, m in mine])
        lim = {(nm, j): custom.limits(m, moved[nm, j]) for nm, j, m in mine}
        batt = {(nm, j): (float(mg.modules[nm][j].max_production), float(mg.modules[nm][j].max_consumption))
                for nm, j, m in built if m['kind'] == 'battery'}
        control, want = {}, {}
        need_total = 0.0
        for nm, j, m in built:
            if m['kind'] == 'load':
                want[nm, j] = -m['ts'][t]
            elif m['kind'] == 'battery':
                e = step['built'][nm][j] * max(m['max_charge'], m['max_discharge'])
                up, down = batt[nm, j]
                control.setdefault(nm, []).append(e)
                want[nm, j] = min(e, up) if e >= 0 else -min(-e, down)
        refused = False
        for nm, j, m in mine:
            up, down = lim[nm, j]
            if m['role'] == 'fixed':
                want[nm, j] = up if m['dir'] == 'source' else -down
            elif m['role'] == 'controllable':
                e = float(request(m, moved[nm, j], step['mine'][nm][j]))
                if m['dir'] == 'source':
                    e = abs(e)
                elif m['dir'] == 'sink':
                    e = -abs(e)
                if custom.refuses(m, e, up, down):
                    refused = True
                control.setdefault(nm, []).append(e)
                want[nm, j] = custom.clip(m, e, up, down)
        if refused:
            try:
                mg.run(control, normalized=False)
            except ValueError:
                ctx.label('refused')
                return
            need(False, 'step %d: a request beyond the limits was accepted by a module that raises errors', k)
        excess = sum(want.values())
        flex = [(nm, j) for nm, lst in mg.flex.iterdict() for j in range(len(lst))]
        expect_flex = [x[:2] for x in mine if x[2]['role'] == 'flex'] + \
            [x[:2] for x in built if x[2]['kind'] == 'pv'] + [('balancing', 0)]
        need(sorted(flex) == sorted(expect_flex), 'flexible modules %r, expected %r', flex, expect_flex)
        spec_of = {(nm, j): m for nm, j, m in mine + built}
        remaining, surplus = max(0.0, -excess), max(0.0, excess)
        for key in flex:
            m = spec_of.get(key)
            if m is None:
                up = down = np.inf
            elif m.get('kind') == 'pv':
                up, down = m['ts'][t], 0.0
            else:
                up, down = lim[key]
            if surplus > 0:
                want[key] = -min(down, surplus)
                surplus += want[key]
            else:
                want[key] = min(up, remaining)
                remaining -= want[key]
        if case['normalized']:
            given = {nm: [float(mg.modules[nm][j].to_normalized(e, act=True)) for j, e in enumerate(lst)]
                     for nm, lst in control.items()}
        else:
            given = control
        obs, reward, done, info = mg.run(given, normalized=case['normalized'])
        tol = 1e-9 if not case['normalized'] else 1e-8
        got = {}
        total = 0.0
        for key, w in want.items():
            p, a = energies(info[key[0]][key[1]])
            need_close(p, max(w, 0.0), f'step {k}: provided by {key}', scale, tol)
            need_close(a, max(-w, 0.0), f'step {k}: absorbed by {key}', scale, tol)
            got[key] = (p, a)
            total += p - a
        need_close(total, 0.0, f'step {k}: balance', scale, tol)
        need(set(info) == {key[0] for key in want}, 'step %d: infos of %r', k, sorted(info))
        cost = 0.0
        for nm, j, m in mine:
            p, a = got[nm, j]
            moved[nm, j] += p + a
            cost += m['cost'] * (p + a)
            need_close(info[nm][j]['left'], m['budget'] - moved[nm, j], f'step {k}: info of {nm}[{j}]', m['budget'])
            need_close(mg.modules[nm][j].moved, moved[nm, j], f'step {k}: state of {nm}[{j}]', m['budget'])
            need_close(np.asarray(obs[nm][j]).item(), moved[nm, j] / m['budget'] if m['budget'] else 0.0,
                       f'step {k}: observation of {nm}[{j}]', 1.0)
            ctx.nontrivial(p + a > 0)
            ctx.label(f"{m['role']} {m['dir']}", p + a > 0)
        for nm, j, m in built:
            if m['kind'] == 'battery':
                cost -= mg.modules[nm][j].log_dict()['reward'][-1]
        p, a = got['balancing', 0]
        cost += spec['llc'] * p + spec['ogc'] * a
        need_close(reward, -cost, f'step {k}: reward', scale * 100)
        rows.append({key: v for key, v in got.items()})
        for nm, lst in mg.modules.iterdict():
            for mod in lst:
                need(mod.current_step == t + 1, 'step %d: %s is at step %d', k, nm, mod.current_step)
        if done:
            break
    log = mg.get_log()
    need(list(log.index) == list(range(spec['init'], spec['init'] + len(rows))), 'log index %r', list(log.index))
    running = {(nm, j): 0.0 for nm, j, _ in mine}
    for r, row in enumerate(rows):
        sums = {'fixed': [0.0, 0.0], 'controllable': [0.0, 0.0], 'overall': [0.0, 0.0]}
        for nm, j, m in mine:
            p, a = row[nm, j]
            if m['dir'] != 'sink':
                need_close(log[(nm, j, 'given')].iloc[r], p, f'row {r}: {nm}[{j}] given', scale)
            if m['dir'] != 'source':
                need_close(log[(nm, j, 'taken')].iloc[r], a, f'row {r}: {nm}[{j}] taken', scale)
            need_close(log[(nm, j, 'moved')].iloc[r], running[nm, j], f'row {r}: {nm}[{j}] state before', m['budget'])
            need_close(log[(nm, j, 'reward')].iloc[r], -m['cost'] * (p + a), f'row {r}: {nm}[{j}] reward', scale)
            running[nm, j] += p + a
        role = {(nm, j): m.get('role') or {'load': 'fixed', 'pv': 'flex', 'battery': 'controllable'}[m['kind']]
                for nm, j, m in mine + built}
        for key, (p, a) in row.items():
            for g in ('overall', role.get(key, 'flex')):
                if g in sums:
                    sums[g][0] += p
                    sums[g][1] += a
        for g, (p, a) in sums.items():
            need_close(log[('balance', 0, g + '_provided_to_microgrid')].iloc[r], p, f'row {r}: {g} provided', scale)
            need_close(log[('balance', 0, g + '_absorbed_from_microgrid')].iloc[r], a, f'row {r}: {g} absorbed', scale)
    # groups
    for nm, j, m in mine:
        mod = mg.modules[nm][j]
        for g in ('fixed', 'flex', 'controllable'):
            need((mod in list(getattr(mg, g).iterlist())) == (m['role'] == g), '%s[%d] in %s', nm, j, g)
        groups = {'sources': m['dir'] == 'source', 'sinks': m['dir'] == 'sink', 'source_and_sinks': m['dir'] == 'both'}
        for g, yes in groups.items():
            have = any(x is mod for x in getattr(getattr(mg, m['role']), g).iterlist())
            need(have == yes, '%s[%d] in %s.%s: %r', nm, j, m['role'], g, have)
    # a reset starts over
    mg.reset()
    need(mg.current_step == spec['init'] and len(mg.get_log()) == 0, 'reset')
    for nm, j, m in mine:
        need(mg.modules[nm][j].moved == 0.0, 'state of %s[%d] after reset', nm, j)


def check_roundtrip(case, ctx):
    spec = case['spec']
    a = build(case)
    for k, step in enumerate(case['actions']):
        if k == case['at']:
            text = a.dump()
            b = type(a).load(text)
            if not any(m['kind'] == 'battery' for m in spec['modules']):   # soc and charge are restored from each other
                need(a == b, 'loaded microgrid is not equal')
            need_same(a.state_dict(), b.state_dict(), 'state after loading')
            ctx.nontrivial()
        control = {}
        for nm, j, m in index(case):
            if m['kind'] == 'battery':
                control.setdefault(nm, []).append(step['built'][nm][j] * m['max_charge'])
        for nm, j, m in my_index(case):
            if m['role'] == 'controllable':
                e = abs(float(request(m, 0.0, step['mine'][nm][j])))
                control.setdefault(nm, []).append(-e if m['dir'] == 'sink' else e)
        ra = a.run(control, normalized=False)
        if k >= case['at']:
            rb = b.run(control, normalized=False)
            need_same(list(ra), list(rb), f'step {k} after loading')
        if ra[2]:
            break


def check_module(case, ctx):
    """A user-defined module on its own: limits, refusal, normalization, clock, reset."""
    m = case['module']
    mod = custom.build(m)
    moved = 0.0
    for k, u in enumerate(case['requests']):
        up, down = custom.limits(m, moved)
        e = float(request(m, moved, u))
        if m['dir'] == 'source':
            e = abs(e)
        elif m['dir'] == 'sink':
            e = -abs(e)
        given = mod.to_normalized(e, act=True) if case['normalized'] else e
        if case['normalized']:
            e = float(np.asarray(mod.from_normalized(given, act=True)).item())
        scale = m['produce'] + m['consume']
        edge = min(abs(e - up), abs(-e - down), abs(e - min(m.get('floor', 0.0), up)) if e else np.inf) <= 1e-9 * max(1.0, scale)
        if m['raise_errors'] and edge:
            return
        if custom.refuses(m, e, up, down):
            before = dict(mod.state_dict()), mod.current_step, len(mod.log)
            try:
                mod.step(given, normalized=case['normalized'])
            except ValueError:
                pass
            else:
                need(False, 'request %r accepted with limits %r', e, (up, down))
            need((dict(mod.state_dict()), mod.current_step, len(mod.log)) == before, 'changed by a refused request')
            ctx.label('refused')
            ctx.nontrivial()
            continue
        obs, reward, done, info = mod.step(given, normalized=case['normalized'])
        p, a = energies(info)
        w = custom.clip(m, e, up, down)
        need_close(p, max(w, 0), f'request {k}: provided', scale)
        need_close(a, max(-w, 0), f'request {k}: absorbed', scale)
        moved += p + a
        need_close(reward, -m['cost'] * (p + a), f'request {k}: reward', scale)
        need_close(np.asarray(obs).item(), moved / m['budget'], f'request {k}: observation')
        ctx.nontrivial(p + a > 0)
    if case['sample'] and not m.get('floor'):
        for _ in range(5):
            up, down = custom.limits(m, moved)
            s = mod.sample_action(strict_bound=True)
            e = float(np.asarray(mod.from_normalized(s, act=True)).item())
            scale = m['produce'] + m['consume']
            need(-down - 1e-9 * max(1, scale) <= e <= up + 1e-9 * max(1, scale), 'strict sample %r, limits %r', e,
                 (up, down))


@st.composite
def module(draw, scale, roles=custom.ROLES, raise_errors=False):
    role, d = draw(st.sampled_from(list(roles)))
    pr, co = draw(gen.pos(0.1 * scale, 2 * scale)), draw(gen.pos(0.1 * scale, 2 * scale))
    return {'role': role, 'dir': d, 'produce': pr, 'consume': co, 'cost': draw(st.sampled_from([0.0, 0.5, 3.0, -0.2])),
            'budget': draw(st.sampled_from([1.5, 4.0, 1000.0])) * max(pr, co),
            'floor': pr * draw(st.sampled_from([0.0, 0.3, 0.7])) if (role, d) == ('controllable', 'source') else 0.0,
            'raise_errors': draw(st.booleans()) if raise_errors else False}


@st.composite
def grid_case(draw, raise_errors=False, roundtrip=False):
    spec = draw(gen.microgrid_spec(max_loads=2, max_pv=2, max_batt=1, max_genset=0, max_grid=0, names=False,
                                   slack=True))
    mine = [draw(module(spec['scale'], raise_errors=raise_errors)) for _ in range(draw(st.integers(1, 5)))]
    named = draw(st.booleans())
    if named:
        for i, m in enumerate(mine):
            m['name'] = draw(st.sampled_from(['x', 'y'])) + '_' + m['role'] + m['dir']
    n = len(spec['modules']) + len(mine)
    case = {'spec': spec, 'mine': mine, 'order': list(draw(st.permutations(range(n)))),
            'own_slack': spec['init'] != 0, 'normalized': False}
    ns = draw(st.integers(1, gen.n_steps_available(spec)))
    U = st.one_of(st.integers(-140, 140).map(lambda i: i / 100), st.integers(-100, 100).map(lambda i: [i / 100]))
    acts = []
    for _ in range(ns):
        step = {'built': {}, 'mine': {}}
        for nm, j, m in index(case):
            step['built'].setdefault(nm, []).append(draw(st.integers(-140, 140)) / 100)
        for nm, j, m in my_index(case):
            step['mine'].setdefault(nm, []).append(draw(U))
        acts.append(step)
    case['actions'] = acts
    if roundtrip:
        case['at'] = draw(st.integers(0, ns - 1))
    elif not raise_errors:
        case['normalized'] = draw(st.booleans())
    return case


@st.composite
def module_case(draw):
    m = draw(module(draw(gen.SCALES), [('controllable', d) for d in ('source', 'sink', 'both')], raise_errors=True))
    U = st.one_of(st.integers(-140, 140).map(lambda i: i / 100), st.integers(-100, 100).map(lambda i: [i / 100]))
    return {'module': m, 'requests': draw(st.lists(U, min_size=1, max_size=10)), 'normalized': draw(st.booleans()),
            'sample': draw(st.booleans())}


FACETS = [
    Facet('microgrid', grid_case, check, 2400),
    Facet('raise-errors', lambda: grid_case(raise_errors=True), check, 600),
    Facet('round-trip', lambda: grid_case(roundtrip=True), check_roundtrip, 500),
    Facet('module', module_case, check_module, 2400),
]
