"""C03: requests inside the limits are honoured exactly; others are clipped to the limit or refused."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Facet
from vlib.drive import energies, log_len, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C03'
QUICK_FACTOR = 1.5
RULE = ('Random requests (fractions of the live limits, multiples of the ratings, exact limits, zero) to single '
        'battery, genset and grid modules and to whole microgrids, with and without raise_errors. Non-trivial: a '
        'request strictly between the limits other than zero was honoured, or one outside was clipped or refused.')
ASSUMPTIONS = ['limits are computed from the construction parameters and the module state observed before the step',
               'tolerance 1e-9 relative; requests within 1e-9 of a limit may be treated either way when errors are '
               'raised']


def limits(m, mod, t, status=None):
    """(min production, max production, max consumption) now, from the parameters and the observed state."""
    if m['kind'] == 'battery':
        c = float(mod.current_charge)
        return (0.0, min(m['max_discharge'], c - m['min_capacity']) * m['efficiency'],
                min(m['max_charge'], m['max_capacity'] - c) / m['efficiency'])
    if m['kind'] == 'grid':
        s = 1.0 if m['status'] is None else m['status'][t]
        return 0.0, m['max_import'] * s, m['max_export'] * s
    on = mod.current_status if status is None else status
    return (m['min'], m['max'], 0.0) if on else (0.0, 0.0, 0.0)


def expected(e, lim):
    lo, hi, sink = lim
    if e >= 0:
        return min(max(e, lo), hi), 0.0
    return 0.0, min(-e, sink)


def feasible(e, lim, tol):
    """True, False, or None when on the edge."""
    lo, hi, sink = lim
    m = min(e - lo, hi - e) if e >= 0 else sink + e
    return None if abs(m) <= tol and m != 0 else m >= 0


def state_of(m, mod):
    d = {'step': mod.current_step, 'log': mod.log_dict() and {k: list(v) for k, v in mod.log_dict().items()}}
    if m['kind'] == 'battery':
        d['charge'] = float(mod.current_charge)
        d['soc'] = float(mod.soc)
    return d


def check_module(case, ctx):
    m, n = case['module'], case['n']
    mod = gen.build_module(m)
    for k, (a, goal) in enumerate(case['requests']):
        if k >= n:
            break
        t = mod.current_step
        status = None
        if m['kind'] == 'genset':
            status = mod.next_status(goal)
        lim = limits(m, mod, t, status)
        if m['kind'] == 'genset':
            need_close(mod.next_min_production(goal), lim[0], f'advertised next_min_production({goal})', case['scale'])
            need_close(mod.next_max_production(goal), lim[1], f'advertised next_max_production({goal})', case['scale'])
        else:
            need_close(mod.min_production, 0.0, f'{m["kind"]}: advertised min_production', case['scale'])
            need_close(mod.max_production, lim[1], f'{m["kind"]}: advertised max_production', case['scale'])
            need_close(mod.max_consumption, lim[2], f'{m["kind"]}: advertised max_consumption', case['scale'])
        rating = max(lim[1], lim[2], case['scale'] * 0.2)
        if a == 'max':
            e = lim[1]
        elif a == 'min':
            e = -lim[2] if lim[2] else lim[0]
        elif isinstance(a, list) and a[0] == 'near':  # just beside a limit
            e = (lim[1], -lim[2], lim[0])[a[1]] * (1 + a[2])
        elif isinstance(a, list):
            e = a[1] * (lim[1] if a[1] >= 0 else lim[2])
        else:
            e = a * rating
        if m['kind'] == 'genset':
            e = abs(e)
        scale = max(abs(e), case['scale'])
        tol = 1e-9 * max(1.0, scale)
        ok = feasible(e, lim, tol)
        before = state_of(m, mod)
        action = np.array([goal, e]) if m['kind'] == 'genset' else (e if case['plain'] else np.array([e]))
        if m['raise_errors']:
            try:
                obs, reward, done, info = mod.step(action, normalized=False)
            except ValueError:
                need(not ok, 'request %r within limits %r refused', e, lim)
                after = state_of(m, mod)
                need(after == before, 'a refused request changed the module: %r -> %r', before, after)
                ctx.label('refused')
                ctx.nontrivial()
                continue
            need(ok is not False, 'request %r outside limits %r accepted with raise_errors', e, lim)
        else:
            obs, reward, done, info = mod.step(action, normalized=False)
        wp, wa = expected(e, lim)
        p, ab = energies(info)
        need_close(p, wp, f'{m["kind"]} asked for {e!r} with limits {lim}: provided', scale)
        need_close(ab, wa, f'{m["kind"]} asked for {e!r} with limits {lim}: absorbed', scale)
        need(mod.current_step == t + 1, 'step moved from %r to %r', t, mod.current_step)
        ctx.nontrivial((ok and e != 0) or ok is False)
        ctx.label('clipped', ok is False)


def check_microgrid(case, ctx):
    spec = case['spec']
    for mg, rec in run_episode(case):
        scale = scale_of(spec, rec)
        for nm, j, m, info in module_infos(spec, rec):
            if m is None or m['kind'] not in ('battery', 'genset', 'grid'):
                continue
            a = rec.control[nm][j]
            pre = rec.pre[nm, j]
            if m['kind'] == 'genset':
                e = float(a[1])
                on = mg.modules[nm][j].current_status
                lim = (m['min'], m['max'], 0.0) if on else (0.0, 0.0, 0.0)
            elif m['kind'] == 'battery':
                e, c = float(a), pre['state']['current_charge']
                lim = (0.0, min(m['max_discharge'], c - m['min_capacity']) * m['efficiency'],
                       min(m['max_charge'], m['max_capacity'] - c) / m['efficiency'])
            else:
                e = float(a)
                s = 1.0 if m['status'] is None else m['status'][rec.t]
                lim = (0.0, m['max_import'] * s, m['max_export'] * s)
            wp, wa = expected(e, lim)
            p, ab = energies(info)
            need_close(p, wp, f'step {rec.t}: {nm}[{j}] asked for {e!r} with limits {lim}: provided', scale)
            need_close(ab, wa, f'step {rec.t}: {nm}[{j}] asked for {e!r} with limits {lim}: absorbed', scale)
            ctx.nontrivial(e != 0)
            ctx.label('clipped', abs(p - ab - e) > 1e-6 * scale)


@st.composite
def module_case(draw):
    n = draw(st.integers(2, 8))
    scale = draw(gen.SCALES)
    re = draw(st.booleans())
    kind = draw(st.sampled_from(['battery', 'battery', 'genset', 'grid']))
    if kind == 'battery':
        m = draw(gen.battery_spec(scale, re))
    elif kind == 'genset':
        m = draw(gen.genset_spec(scale, re, callable_cost=True))
    else:
        m = draw(gen.grid_spec(n, scale, None, re))
    one = st.one_of(st.integers(-140, 140).map(lambda i: i / 100), st.integers(-100, 100).map(lambda i: ['frac', i / 100]),
                    st.tuples(st.just('near'), st.integers(0, 2), st.sampled_from(
                        [1e-7, 1e-5, 1e-4, 1e-3, 1e-2, -1e-7, -1e-5, -1e-4, -1e-3, -1e-2])).map(list),
                    st.sampled_from(['max', 'min', 0.0]))
    req = st.tuples(one, st.sampled_from([0, 1, 1])).map(list)
    return {'module': m, 'n': n, 'scale': scale, 'plain': draw(st.booleans()),
            'requests': draw(st.lists(req, min_size=1, max_size=n))}


FACETS = [
    Facet('single-module', module_case, check_module, 6000),
    Facet('microgrid', lambda: gen.episode(min_ctrl=1, forecasts=False), check_microgrid, 2400),
]
