"""C10: normalization, action/observation bounds, sampled actions."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks import c26
from vlib import gen
from vlib.core import Facet
from vlib.drive import energies, module_infos, need, need_close, need_same, run_episode, scale_of

PROPERTY = 'C10'
QUICK_FACTOR = 1.5
RULE = ('Random modules and microgrids: random points of [0,1]^d and of the bounds are mapped both ways for actions and '
        'observations; random episodes are run twice, with normalized and un-normalized controls; plain and strict '
        'action samples are drawn at every step of random histories. Non-trivial: a point strictly inside the bounds '
        'was mapped, or a sampled action moved energy.')
ASSUMPTIONS = ['components whose bounds coincide are only required to normalize to 0',
               'strict samples may touch a limit up to rounding (1e-9 relative)',
               'balancing modules (unbounded) are excluded']


def act_bounds(m):
    k = m['kind']
    if k == 'load':
        return np.zeros(0), np.zeros(0)
    if k == 'pv':
        return np.array([min(0.0, min(m['ts']))]), np.array([max(m['ts'])])
    if k == 'battery':
        return np.array([-m['max_charge'] / m['efficiency']]), np.array([m['max_discharge'] * m['efficiency']])
    if k == 'genset':
        return np.array([0.0, 0.0]), np.array([1.0, m['max']])
    return np.array([-m['max_export']]), np.array([m['max_import']])


def obs_bounds(m):
    k = m['kind']
    h = 1 + (m['fc']['h'] if m.get('fc') else 0)
    if k == 'load':
        return np.repeat(-max(m['ts']), h), np.repeat(-min(m['ts']) if max(m['ts']) == 0 else 0.0, h)
    if k == 'pv':
        return np.zeros(h), np.repeat(max(m['ts']), h)
    if k == 'battery':
        return np.array([m['min_capacity'] / m['max_capacity'], m['min_capacity']]), np.array([1.0, m['max_capacity']])
    if k == 'genset':
        return np.zeros(4), np.array([1.0, 1.0, m['start_up'], m['wind_down']])
    ts = gen.grid_ts(m)
    if ts.shape[1] == 3:
        ts = np.hstack([ts, np.ones((len(ts), 1))])
    return np.tile(ts.min(axis=0), h), np.tile(ts.max(axis=0), h)


def mapped(mod, lo, hi, u, act, what, ctx):
    kw = {'act': True} if act else {'obs': True}
    space = mod.action_space if act else mod.observation_space
    need_same(space.unnormalized.low, lo, f'{what}: lower bounds')
    need_same(space.unnormalized.high, hi, f'{what}: upper bounds')
    if len(lo) == 0:
        return
    need(np.all(space.normalized.low == 0) and np.all(space.normalized.high == 1), '%s: normalized space', what)
    u = np.array([u[i % len(u)] for i in range(len(lo))])
    wide = hi > lo
    x = lo + (hi - lo) * u
    arg = (lambda v: float(v[0])) if len(lo) == 1 else (lambda v: v)
    scale = max(1.0, np.abs(lo).max(), np.abs(hi).max())
    got = np.atleast_1d(mod.from_normalized(arg(u), **kw))
    need(got.shape == u.shape, '%s: un-normalized shape %r', what, got.shape)
    need_same(got / scale, x / scale, f'{what}: un-normalizing {u}')
    gotn = np.atleast_1d(mod.to_normalized(arg(x), **kw))
    need(gotn.shape == u.shape, '%s: normalized shape %r', what, gotn.shape)
    for i in range(len(u)):
        if wide[i]:
            tol = 1e-9 * max(1.0, scale / (hi[i] - lo[i]))
            need(abs(gotn[i] - u[i]) <= tol, '%s: normalizing %r gives %r, expected %r', what, x, gotn, u)
        else:
            need(gotn[i] == 0, '%s: component %d with a single value normalizes to %r', what, i, gotn[i])
    ctx.nontrivial(bool(np.any(wide & (u > 0) & (u < 1))))


def check_maps(case, ctx):
    spec = case['spec']
    mg = gen.build(spec)
    n_act = n_obs = 0
    for i, (nm, j, m) in enumerate(gen.index(spec)):
        mod = mg.modules[nm][j]
        u = case['u'][i % len(case['u']):] + case['u']
        mapped(mod, *act_bounds(m), u, True, f'{nm}[{j}] action', ctx)
        mapped(mod, *obs_bounds(m), u, False, f'{nm}[{j}] observation', ctx)
    # the microgrid-level maps are the module-level ones
    check_obs_space(mg, spec)
    ctrl = {}
    norm = {}
    for i, (nm, j, m) in enumerate(gen.index(spec)):
        if m['kind'] in ('battery', 'genset', 'grid'):
            lo, hi = act_bounds(m)
            u = np.array([case['u'][(i + c) % len(case['u'])] for c in range(len(lo))])
            norm.setdefault(nm, []).append(u if len(lo) > 1 else float(u[0]))
            mod = mg.modules[nm][j]
            ctrl.setdefault(nm, []).append(mod.from_normalized(norm[nm][-1], act=True))
    if norm:
        got = mg.from_normalized(norm, act=True)
        need_same({k: got[k] for k in ctrl}, ctrl, 'Microgrid.from_normalized')
        need(set(got) == set(ctrl), 'Microgrid.from_normalized keys %r', set(got))
        back = mg.to_normalized(ctrl, act=True)
        want = {k: [mg.modules[k][j].to_normalized(v, act=True) for j, v in enumerate(vs)] for k, vs in ctrl.items()}
        need_same({k: back[k] for k in want}, want, 'Microgrid.to_normalized')
        arr = {k: [np.atleast_1d(np.asarray(v, dtype=float)) for v in vs] for k, vs in norm.items()}
        den = mg.microgrid_action_space.denormalize(arr)
        for k, vs in arr.items():
            for j, v in enumerate(vs):
                lo, hi = act_bounds([m for nm, jj, m in gen.index(spec) if (nm, jj) == (k, j)][0])
                w = hi > lo
                need_same(np.asarray(den[k][j]), lo + (hi - lo) * v, f'action space denormalize {k}[{j}]')
                nv = mg.microgrid_action_space.normalize(den)[k][j]
                need(np.all(np.abs(np.asarray(nv) - v)[w] <= 1e-6), 'action space normalize is not the inverse: %r vs %r',
                     nv, v)
        low = {k: [np.atleast_1d(np.asarray(mg.modules[k][j].from_normalized(np.zeros(len(v)) if len(v) > 1 else 0.0, act=True),
                                            dtype=float)) for j, v in enumerate(vs)] for k, vs in arr.items()}
        zero = mg.microgrid_action_space.normalize(low)
        for k in low:
            for j, v in enumerate(zero[k]):
                need(np.all(np.abs(np.asarray(v)) <= 1e-9), 'lower action bound of %s[%d] normalizes to %r', k, j, v)
        need(set(mg.microgrid_action_space.unnormalized.spaces) == set(ctrl), 'action space covers %r, controllable '
             'modules are %r', set(mg.microgrid_action_space.unnormalized.spaces), set(ctrl))
        need(arr_in(mg, arr), 'normalized control %r is not in the normalized action space', arr)


def check_obs_space(mg, spec):
    """The microgrid-level observation space maps like the modules' own."""
    state = {nm: [np.array(list(mod.state_dict().values()), dtype=float) for mod in mods]
             for nm, mods in mg.modules.iterdict()}
    got = mg.microgrid_observation_space.normalize(state)
    need(set(got) == set(state), 'observation space covers %r', set(got))
    for nm in state:
        for j, mod in enumerate(mg.modules[nm]):
            want = np.array(list(mod.state_dict(normalized=True).values()), dtype=float) if len(state[nm][j]) else np.array([])
            need(np.shape(got[nm][j]) == want.shape and np.all(np.abs(got[nm][j] - want) <= 1e-9),
                 'observation space normalizes %s[%d] to %r, the module to %r', nm, j, got[nm][j], want)
    back = mg.microgrid_observation_space.denormalize(got)
    for nm in state:
        for j, v in enumerate(state[nm]):
            need(np.all(np.abs(back[nm][j] - v) <= 1e-9 * max(1.0, np.abs(v).max(initial=0.0), scale_of_obs(mg.modules[nm][j]))),
                 'observation space does not invert for %s[%d]: %r, %r', nm, j, back[nm][j], v)


def scale_of_obs(mod):
    return max([1.0] + [abs(float(x)) for b in (mod.min_obs, mod.max_obs) for x in np.atleast_1d(b)])


def arr_in(mg, arr):
    return {k: tuple(v) for k, v in arr.items()} in mg.microgrid_action_space.normalized


def check_differential(case, ctx):
    """Running a normalized control == running what it stands for."""
    spec = case['spec']
    a, b = gen.build(spec), gen.build(spec)
    for (k, step) in enumerate(case['actions']):
        norm, unnorm, moved = {}, {}, False
        for nm, j, m in gen.index(spec):
            if m['kind'] not in ('battery', 'genset', 'grid'):
                continue
            lo, hi = act_bounds(m)
            u = np.array(step[nm][j][:len(lo)])
            norm.setdefault(nm, []).append(u if len(u) > 1 else float(u[0]))
            x = lo + (hi - lo) * u
            if hi[-1] == lo[-1]:
                return
            unnorm.setdefault(nm, []).append(x if len(u) > 1 else float(x[0]))
        seed = np.random.get_state()
        ra = a.run(copy.deepcopy(norm), normalized=True)
        np.random.set_state(seed)
        rb = b.run(copy.deepcopy(unnorm), normalized=False)
        for x, y, what in zip(ra, rb, ('observation', 'reward', 'done', 'info')):
            need_same(x, y, f'step {k}: {what} of normalized vs un-normalized control', 1e-7)
        ctx.nontrivial(bool(unnorm))
        for nm, lst in ra[0].items():
            for j, o in enumerate(lst):
                o = np.atleast_1d(o)
                need(np.all((o >= -1e-9) & (o <= 1 + 1e-9)), 'step %d: normalized observation of %s[%d]: %r', k, nm, j, o)
        if ra[2]:
            break


def check_bounds(case, ctx):
    """Observations and live limits stay within the bounds."""
    spec = case['spec']
    mods = {(nm, j): m for nm, j, m in gen.index(spec)}

    def inside(mg, what):
        for (nm, j), m in mods.items():
            mod = mg.modules[nm][j]
            lo, hi = obs_bounds(m)
            s = np.asarray(mod.state, dtype=float)
            tol = 1e-9 * max(1.0, np.abs(lo).max(), np.abs(hi).max())
            need(s.shape == lo.shape and np.all((s >= lo - tol) & (s <= hi + tol)), '%s: state of %s[%d] %r outside '
                 '[%r, %r]', what, nm, j, s, lo, hi)
            sn = mod.state_dict(normalized=True)
            need(list(sn) == list(mod.state_dict()), '%s: keys of normalized state', what)
            want = np.where(hi > lo, (s - lo) / np.where(hi > lo, hi - lo, 1.0), 0.0)
            got = np.array([float(v) for v in sn.values()])
            wtol = 1e-7 * np.maximum(1.0, np.maximum(np.abs(lo), np.abs(hi)) / np.where(hi > lo, hi - lo, 1.0))
            need(np.all(np.abs(want - got) <= wtol), '%s: normalized state of %s[%d] is %r, expected %r', what, nm, j,
                 got, want)
            if m['kind'] in ('battery', 'genset', 'grid', 'pv'):
                la, ha = act_bounds(m)
                try:
                    mp = mod.max_production
                except IndexError:
                    continue                    # past the end of the series
                need(mp <= ha[-1] + tol, '%s: %s[%d] can provide %r, action bound %r', what, nm, j, mp, ha[-1])
                if m['kind'] in ('battery', 'grid'):
                    need(-mod.max_consumption >= la[-1] - tol, '%s: %s[%d] can absorb %r, action bound %r', what, nm, j,
                         mod.max_consumption, la[-1])
        ss = mg.state_series()
        sd = mg.state_dict()
        need(len(ss) == sum(len(d) for l in sd.values() for d in l), '%s: state series has %d entries', what, len(ss))
        for key, v in ss.items():
            need(float(sd[key[0]][key[1]][key[2]]) == float(v), '%s: state series %r', what, key)

    mg = gen.build(spec)
    inside(mg, 'initially')
    for mg, rec in run_episode(case, mg=mg):
        inside(mg, f'after step {rec.t}')
        ctx.nontrivial(rec.k > 0)


def check_samples(case, ctx):
    spec = case['spec']
    mg = gen.build(spec)
    ctrl = {}
    for nm, j, m in gen.index(spec):
        if m['kind'] in ('battery', 'genset', 'grid'):
            ctrl.setdefault(nm, []).append(m)
    strict = case['strict']
    for k in range(case['steps']):
        act = mg.sample_action(strict_bound=strict)
        need(set(act) == set(ctrl) and all(len(act[n]) == len(ctrl[n]) for n in ctrl), 'sample %r', act)
        limits = {}
        for nm, ms in ctrl.items():
            for j, m in enumerate(ms):
                mod = mg.modules[nm][j]
                a = np.atleast_1d(np.asarray(act[nm][j], dtype=float))
                need(a.shape == mod.action_space.shape, 'sample of %s[%d]: %r', nm, j, a)
                need(np.all((a >= -1e-12) & (a <= 1 + 1e-12)), 'sample of %s[%d] outside [0, 1]: %r', nm, j, a)
                if strict:
                    lo, hi = act_bounds(m)
                    e = (lo + (hi - lo) * a)[-1]
                    tol = 1e-9 * max(1.0, abs(lo[-1]), abs(hi[-1]))
                    if m['kind'] == 'genset':
                        g = int(round(a[0]))
                        mn, mx = mod.next_min_production(g), mod.next_max_production(g)
                        mc = 0.0
                    else:
                        mn, mx, mc = 0.0, mod.max_production, mod.max_consumption
                    need(max(mn, 0) - tol <= e <= mx + tol or (e < 0 and -e <= mc + tol),
                         'step %d: strict sample of %s[%d] asks for %r, limits [%r, %r], %r', k, nm, j, e, mn, mx, mc)
                    limits[nm, j] = e
        try:
            _, _, done, info = mg.run(act)
        except ValueError:
            if not strict:
                return
            raise
        for (nm, j), e in limits.items():
            p, a = energies(info[nm][j])
            need_close(p - a, e, f'step {k}: energy moved by {nm}[{j}] for a strict sample', spec['scale'])
            ctx.nontrivial(p + a > 0)
        ctx.nontrivial(not strict and bool(ctrl))
        if done:
            break


def check_spaces(case, ctx):
    """The spaces as gym spaces: samples are members, seeding reproduces them, values outside are no members."""
    spec = case['spec']
    mg = gen.build(spec)
    norm = case['norm']
    spaces = [('microgrid action', mg.microgrid_action_space), ('microgrid observation', mg.microgrid_observation_space)]
    bounds = {}
    for nm, j, m in gen.index(spec):
        mod = mg.modules[nm][j]
        for what, sp, b in (('action', mod.action_space, act_bounds(m)), ('observation', mod.observation_space, obs_bounds(m))):
            if len(b[0]):
                bounds[f'{nm}[{j}] {what}'] = b
                spaces.append((f'{nm}[{j}] {what}', sp))
    for what, sp in spaces:
        part = sp.normalized if norm else sp.unnormalized
        sp.seed(case['seed'])
        a = [sp.sample(normalized=norm) for _ in range(2)]
        for x in a:
            need(part.contains(x), '%s space: the sample %r is not a member', what, x)
            need(norm or (sp.contains(x) and x in sp), '%s space: contains() of its sample %r is false', what, x)
        sp.seed(case['seed'])
        b = [sp.sample(normalized=norm) for _ in range(2)]
        need_same(a, b, f'{what} space: samples for the same seed')
        back = sp.denormalize(sp.normalize(a[0])) if not norm else sp.normalize(sp.denormalize(a[0]))
        lo, hi = bounds.get(what, (None, None))
        if lo is None:
            continue
        w = hi > lo
        x, y = np.atleast_1d(a[0]), np.atleast_1d(back)
        tol = 1e-7 * np.maximum(1.0, np.maximum(np.abs(lo), np.abs(hi))) / (np.where(w, hi - lo, 1.0) if norm else 1.0)
        need(np.all((np.abs(x - y) <= tol)[w | (not norm)]), '%s space: %r maps there and back to %r', what, x, y)
        if not norm:
            need(np.all((x >= lo) & (x <= hi)), '%s space: sample %r outside %r, %r', what, x, lo, hi)
            for out in (hi + 1 + np.abs(hi) * 1e-3, lo - 1 - np.abs(lo) * 1e-3):
                need(not sp.contains(out), '%s space contains %r, bounds %r, %r', what, out, lo, hi)
            if np.any(w):
                ctx.nontrivial()
                diff = [sp.sample() for _ in range(6)]
                need(any(not np.array_equal(d, diff[0]) for d in diff), '%s space: six equal samples', what)
    twin = gen.build(spec)
    need(mg.microgrid_action_space == twin.microgrid_action_space and
         mg.microgrid_observation_space == twin.microgrid_observation_space, 'spaces of equal microgrids differ')


@st.composite
def map_case(draw):
    return {'spec': draw(gen.microgrid_spec(forecasts=True, max_n=6)),
            'u': draw(st.lists(gen.LEVEL, min_size=5, max_size=5))}


@st.composite
def diff_case(draw):
    spec = draw(gen.microgrid_spec(forecasts=True, max_n=8, min_ctrl=1))
    ns = draw(st.integers(1, max(1, gen.n_steps_available(spec))))
    acts = []
    for _ in range(ns):
        step = {}
        for nm, j, m in gen.index(spec):
            if m['kind'] in ('battery', 'genset', 'grid'):
                step.setdefault(nm, []).append([draw(gen.LEVEL) * 0.998 + 0.001, draw(gen.LEVEL)])
        acts.append(step)
    return {'spec': spec, 'actions': acts}


@st.composite
def sample_case(draw):
    spec = draw(gen.microgrid_spec(max_n=8, min_ctrl=1, raise_errors=False))
    return {'spec': spec, 'strict': draw(st.sampled_from([True, True, False])),
            'steps': draw(st.integers(1, max(1, gen.n_steps_available(spec)))), 'salt': draw(st.integers(0, 10 ** 6))}


FACETS = [
    Facet('maps', map_case, check_maps, 1200),
    Facet('normalized-vs-unnormalized', diff_case, check_differential, 1200),
    Facet('bounds', lambda: gen.episode(forecasts=True, max_n=8), check_bounds, 800),
    Facet('long', lambda: gen.long_episode(forecasts=True, max_n=50), check_bounds, 60),
    Facet('spaces', lambda: st.fixed_dictionaries({'spec': gen.microgrid_spec(forecasts=True, max_n=6), 'norm': st.booleans(),
                                                   'seed': st.integers(0, 10 ** 6)}), check_spaces, 400),
    Facet('samples', sample_case, check_samples, 1600),
    Facet('user-defined', c26.module_case, c26.check_module, 400),
]
