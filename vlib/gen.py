"""Generators of JSON-able microgrid specifications, and builders that turn them into pymgrid objects."""
import numpy as np
from hypothesis import strategies as st

# ----------------------------------------------------------------------------------------------- numbers


def _level(i):
    """0..1023 -> [0, 1]: an eighth are exactly 0, three eighths on a coarse grid, the rest 'ugly'."""
    if i < 128:
        return 0.0
    if i < 512:
        return ((i - 128) // 24 + 1) / 16.0
    return (i - 511) / 512.0 * 0.99997


LEVEL = st.integers(0, 1023).map(_level)
POS_LEVEL = st.integers(128, 1023).map(_level)


def qty(hi):
    return LEVEL.map(lambda u: u * hi)


def pos(lo, hi):
    return POS_LEVEL.map(lambda u: lo + u * (hi - lo))


def series(n, hi, min_frac=0.0):
    return st.lists(LEVEL, min_size=n, max_size=n).map(lambda l: [min_frac * hi + u * hi * (1 - min_frac) for u in l])


SCALES = st.sampled_from([1.0, 10.0, 10.0, 10.0, 100.0, 1000.0, 0.1, 1e6, 1e-4])
# ----------------------------------------------------------------------------------------------- modules


@st.composite
def forecast_spec(draw, allow_none=True, gaussian=True, max_h=6):
    kinds = ['oracle'] + (['gauss'] if gaussian else []) + (['none', 'none'] if allow_none else [])
    kind = draw(st.sampled_from(kinds))
    if kind == 'none':
        return None
    h = draw(st.integers(1, max_h + 1))
    d = {'kind': kind, 'h': h if h <= max_h else draw(st.sampled_from([7, 9, 12, 23]))}
    if kind == 'gauss':
        d['std'] = draw(st.sampled_from([0.0, 0.01, 0.5, 1.0, 3.0]))
        d['inc'] = draw(st.booleans())
        d['rel'] = draw(st.booleans())
    return d


@st.composite
def load_spec(draw, n, scale, fc=None, raise_errors=False):
    return {'kind': 'load', 'ts': draw(series(n, scale)), 'fc': fc, 'raise_errors': raise_errors}


@st.composite
def pv_spec(draw, n, scale, fc=None, raise_errors=False):
    return {'kind': 'pv', 'ts': draw(series(n, scale)), 'fc': fc, 'raise_errors': raise_errors}


@st.composite
def battery_spec(draw, scale, raise_errors=False):
    cap = draw(pos(0.2 * scale, 4 * scale))
    min_frac = draw(st.sampled_from([0.0, 0.0, 0.1, 0.2, 0.5]))
    soc = min_frac + draw(LEVEL) * (1 - min_frac)
    init = draw(st.sampled_from(['soc', 'charge']))
    return {'kind': 'battery', 'min_capacity': min_frac * cap, 'max_capacity': cap,
            'max_charge': draw(pos(0.05 * cap, 1.2 * cap)), 'max_discharge': draw(pos(0.05 * cap, 1.2 * cap)),
            'efficiency': draw(st.sampled_from([1.0, 0.9, 0.95, 0.7, 0.5, 1 / 3])),
            'cost': draw(st.sampled_from([0.0, 0.02, 1.0, 0.37])),
            'init_soc': min(1.0, max(min_frac, soc)) if init == 'soc' else None,
            'init_charge': None if init == 'soc' else min(cap, max(min_frac * cap, soc * cap)),
            'raise_errors': raise_errors}


@st.composite
def genset_spec(draw, scale, raise_errors=False, callable_cost=False, simple=False):
    mx = draw(pos(0.1 * scale, 2 * scale))
    d = {'kind': 'genset', 'max': mx, 'min': mx * draw(st.sampled_from([0.0, 0.05, 0.25, 0.5, 1.0, 0.001])),
         'cost': draw(st.sampled_from([0.0, 0.4, 2.0, 0.61])),
         'co2': draw(st.sampled_from([0.0, 2.0, 0.3])), 'co2_cost': draw(st.sampled_from([0.0, 0.1, 1.5])),
         'start_up': draw(st.sampled_from([0, 0, 1, 2, 3])), 'wind_down': draw(st.sampled_from([0, 0, 1, 2, 3])),
         'abort': draw(st.sampled_from([True, True, True, False])), 'init_up': draw(st.booleans()),
         'raise_errors': raise_errors}
    if simple:
        d.update(start_up=0, wind_down=0, abort=True)
    if callable_cost and draw(st.booleans()):
        d['cost_fn'] = draw(st.sampled_from(['square', 'affine']))
    return d


@st.composite
def grid_spec(draw, n, scale, fc=None, raise_errors=False, outages=True):
    status = None
    if outages and draw(st.booleans()):
        status = draw(st.lists(st.sampled_from([1, 1, 0]), min_size=n, max_size=n))
    price = draw(st.sampled_from([1.0, 0.3, 10.0]))
    return {'kind': 'grid', 'max_import': draw(qty(2 * scale)), 'max_export': draw(qty(2 * scale)),
            'imp': draw(series(n, price)), 'exp': draw(series(n, price)), 'co2': draw(series(n, 1.0)),
            'status': status, 'co2_cost': draw(st.sampled_from([0.0, 0.1, 2.0])), 'fc': fc,
            'raise_errors': raise_errors}


NAME_POOL = ['alpha', 'bravo', 'charlie', 'delta', 'echo', 'foxtrot', 'golf', 'hotel']


@st.composite
def microgrid_spec(draw, min_n=2, max_n=10, max_loads=None, max_pv=None, max_batt=None, max_genset=None, max_grid=None,
                   min_ctrl=0, min_pv=0, min_batt=0, min_genset=0, min_grid=0, min_loads=0, forecasts=False,
                   raise_errors=False, names=True, steps=True, callable_cost=False, slack=True, outages=True,
                   simple_genset=False, max_ctrl=4):
    n = draw(st.integers(min_n, max_n))
    scale = draw(SCALES)
    most = draw(st.sampled_from([2] * 11 + [4]))
    max_loads, max_pv, max_batt, max_genset, max_grid = [
        max(most, lo) if hi is None else hi for hi, lo in
        ((max_loads, min_loads), (max_pv, min_pv), (max_batt, min_batt), (max_genset, min_genset), (max_grid, min_grid))]
    nl = draw(st.integers(min_loads, max_loads))
    npv = draw(st.integers(min_pv, max_pv))
    nb = draw(st.integers(min_batt, max_batt))
    ng = draw(st.integers(min_genset, max_genset))
    ngr = draw(st.integers(min_grid, max_grid))
    if nl + npv + ngr == 0:
        nl = 1
    while nb + ng + ngr < min_ctrl:
        nb += 1
    while nb + ng + ngr > max_ctrl:
        if ng > min_genset:
            ng -= 1
        elif nb > min_batt:
            nb -= 1
        elif ngr > min_grid:
            ngr -= 1
        else:
            break
    fc = draw(forecast_spec()) if forecasts else None
    re = draw(st.booleans()) if raise_errors else False
    mods = []
    mods += [draw(load_spec(n, scale, fc, re)) for _ in range(nl)]
    mods += [draw(pv_spec(n, scale, fc, re)) for _ in range(npv)]
    mods += [draw(battery_spec(scale, re)) for _ in range(nb)]
    mods += [draw(genset_spec(scale, re, callable_cost, simple_genset)) for _ in range(ng)]
    mods += [draw(grid_spec(n, scale, fc, re, outages)) for _ in range(ngr)]
    if names and draw(st.booleans()):
        # custom names; all modules of one kind share a name, or each has its own
        for kind_i, kind in enumerate(['load', 'pv', 'battery', 'genset', 'grid']):
            mode = draw(st.sampled_from(['default', 'shared', 'own']))
            for j, m in enumerate([m for m in mods if m['kind'] == kind]):
                if mode == 'shared':
                    m['name'] = NAME_POOL[kind_i]
                elif mode == 'own':
                    m['name'] = NAME_POOL[kind_i] + str(j)
    if draw(st.booleans()):
        mods = draw(st.permutations(mods))
    spec = {'n': n, 'scale': scale, 'modules': list(mods),
            'llc': draw(st.sampled_from([10.0, 0.0, 1.5, 100.0])),
            'ogc': draw(st.sampled_from([2.0, 0.0, 0.5, 20.0])),
            'slack': True if slack is True else draw(st.booleans()), 'init': 0, 'final': -1}
    if steps and draw(st.integers(0, 2)) == 0:
        init = draw(st.integers(0, n - 1))
        final = draw(st.integers(init + 1, n))
        spec['init'], spec['final'] = init, final
    return spec


# ----------------------------------------------------------------------------------------------- builders

class SquareCost:
    def __call__(self, x):
        return 0.5 * x * x + 0.1 * x

    def __eq__(self, o):
        return type(o) is type(self)


class AffineCost:
    def __call__(self, x):
        return 3.0 + 0.2 * x

    def __eq__(self, o):
        return type(o) is type(self)


COST_FNS = {'square': SquareCost, 'affine': AffineCost}


def fc_kwargs(fc):
    if not fc:
        return {}
    if fc['kind'] == 'oracle':
        return {'forecaster': 'oracle', 'forecast_horizon': fc['h']}
    return {'forecaster': fc['std'], 'forecast_horizon': fc['h'],
            'forecaster_increase_uncertainty': fc.get('inc', False),
            'forecaster_relative_noise': fc.get('rel', False)}


def grid_ts(m):
    cols = [m['imp'], m['exp'], m['co2']]
    if m['status'] is not None:
        cols.append(m['status'])
    return np.array(cols, dtype=float).T.reshape(len(m['imp']), len(cols))


DEFAULTS = {'initial_step': 0, 'final_step': -1, 'raise_errors': False, 'battery_cost_cycle': 0.0, 'co2_per_unit': 0.0,
            'cost_per_unit_co2': 0.0, 'start_up_time': 0, 'wind_down_time': 0, 'allow_abortion': True,
            'init_start_up': True, 'init_charge': None, 'init_soc': None}


def opt(**kw):
    """Arguments without those at their documented default, so that the defaults themselves are exercised."""
    return {k: v for k, v in kw.items() if not (v is DEFAULTS[k] or v == DEFAULTS[k])}


def build_module(m, init=0, final=-1):
    from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule,
                                 UnbalancedEnergyModule)
    k = m['kind']
    re = m.get('raise_errors', False)
    if k == 'load':
        return LoadModule(time_series=np.array(m['ts'], dtype=float),
                          **opt(raise_errors=re, initial_step=init, final_step=final), **fc_kwargs(m.get('fc')))
    if k == 'pv':
        return RenewableModule(time_series=np.array(m['ts'], dtype=float),
                               **opt(raise_errors=re, initial_step=init, final_step=final), **fc_kwargs(m.get('fc')))
    if k == 'battery':
        return BatteryModule(min_capacity=m['min_capacity'], max_capacity=m['max_capacity'],
                             max_charge=m['max_charge'], max_discharge=m['max_discharge'], efficiency=m['efficiency'],
                             **opt(battery_cost_cycle=m['cost'], init_charge=m['init_charge'], init_soc=m['init_soc'],
                                   initial_step=init, raise_errors=re))
    if k == 'genset':
        cost = COST_FNS[m['cost_fn']]() if m.get('cost_fn') else m['cost']
        return GensetModule(running_min_production=m['min'], running_max_production=m['max'], genset_cost=cost,
                            **opt(co2_per_unit=m['co2'], cost_per_unit_co2=m['co2_cost'], start_up_time=m['start_up'],
                                  wind_down_time=m['wind_down'], allow_abortion=m['abort'],
                                  init_start_up=m['init_up'], initial_step=init, raise_errors=re))
    if k == 'grid':
        grid = GridModule(max_import=m['max_import'], max_export=m['max_export'], time_series=grid_ts(m),
                          **opt(cost_per_unit_co2=m['co2_cost'], raise_errors=re, initial_step=init,
                                final_step=final), **fc_kwargs(m.get('fc')))
        if m.get('flex'):
            grid.as_flex()
        return grid
    if k == 'unbalanced':
        return UnbalancedEnergyModule(raise_errors=False, loss_load_cost=m['llc'], overgeneration_cost=m['ogc'],
                                      **opt(initial_step=init))
    raise ValueError(k)


def default_name(kind):
    return {'load': 'load', 'pv': 'renewable', 'battery': 'battery', 'genset': 'genset', 'grid': 'grid',
            'unbalanced': 'balancing'}[kind]


def mod_name(m):
    return m.get('name') or default_name(m['kind'])


def build_modules(spec):
    out = []
    for m in spec['modules']:
        mod = build_module(m, spec['init'], spec['final'])
        out.append((m['name'], mod) if m.get('name') else mod)
    return out


def build(spec, cls=None, **kwargs):
    """A Microgrid (or env class) from a specification."""
    from pymgrid import Microgrid
    cls = cls or Microgrid
    mods = build_modules(spec)
    if not spec['slack']:
        return cls(mods, add_unbalanced_module=False, **kwargs)
    if spec['init'] != 0:
        # the default balancing module starts at step 0, so a balancing module of our own is passed
        mods.append(build_module({'kind': 'unbalanced', 'llc': spec['llc'], 'ogc': spec['ogc']}, spec['init']))
        return cls(mods, add_unbalanced_module=False, **kwargs)
    return cls(mods, loss_load_cost=spec['llc'], overgeneration_cost=spec['ogc'], **kwargs)


def index(spec):
    """[(name, number, module spec)] in definition order; numbers count modules with the same name."""
    seen = {}
    out = []
    for m in spec['modules']:
        nm = mod_name(m)
        out.append((nm, seen.get(nm, 0), m))
        seen[nm] = seen.get(nm, 0) + 1
    return out


def n_steps_available(spec):
    final = spec['final'] if spec['final'] > 0 else spec['n']
    return final - spec['init']


# ----------------------------------------------------------------------------------------------- actions

NEAR = [1e-3, -1e-3, 3e-5, -3e-5, 1e-6, -1e-6, 3e-8, -3e-8]


@st.composite
def action_seq(draw, spec, n_steps, normalized=None, special=True):
    """n_steps actions. Each controllable module gets, per step, a fraction of its rating in [-1.4, 1.4] (mapped
    to a request by ``request``), or a directive resolved at run time against the live state."""
    ctrl = [(nm, j, m) for nm, j, m in index(spec) if m['kind'] in ('battery', 'genset', 'grid')]
    out = []
    for _ in range(n_steps):
        step = {}
        for nm, j, m in ctrl:
            if special:
                u = draw(st.integers(-180, 180))
                if u > 140:
                    a = draw(st.sampled_from(['net', 'max', 'min', 'zero', 'near']))
                    if a == 'near':
                        a = ['near', draw(st.sampled_from(NEAR))]
                elif u < -140:
                    a = 0.0
                else:
                    a = u / 100.0
            else:
                a = draw(st.integers(-140, 140)) / 100.0
            if m['kind'] == 'genset':
                a = [draw(st.sampled_from([0.0, 1.0, 1.0, 0.25, 0.75, 0.5])), a]
            step.setdefault(nm, []).append(a)
        out.append(step)
    return out


@st.composite
def feasible_seq(draw, spec, n_steps):
    """Actions inside the live limits; the last controllable module is usually asked to close the balance."""
    ctrl = [(nm, j, m) for nm, j, m in index(spec) if m['kind'] in ('battery', 'genset', 'grid')]
    out = []
    for _ in range(n_steps):
        step = {}
        closing = draw(st.integers(0, 4)) > 0
        for i, (nm, j, m) in enumerate(ctrl):
            if i == len(ctrl) - 1 and closing:
                a = 'net'
            else:
                a = ['frac', draw(st.integers(-100, 100)) / 100.0]
            if m['kind'] == 'genset':
                a = [draw(st.sampled_from([0.0, 1.0])), a]
            step.setdefault(nm, []).append(a)
        out.append(step)
    return out


@st.composite
def episode(draw, max_steps=10, normalized=False, special=True, **kw):
    spec = draw(microgrid_spec(**kw))
    ns = draw(st.integers(1, max(1, min(max_steps, n_steps_available(spec)))))
    return {'spec': spec, 'actions': draw(action_seq(spec, ns, special=special))}


def _rand_levels(rs, n):
    """n levels in [0, 1] with the character of LEVEL, with runs of equal values and day-like swings."""
    out = np.array([_level(int(i)) for i in rs.randint(0, 1024, n)])
    if rs.rand() < 0.4:
        out = out * np.clip(np.sin((np.arange(n) - 6) / 12 * np.pi), 0, None)
    if rs.rand() < 0.3:
        a = rs.randint(0, n)
        out[a:a + rs.randint(1, 1 + n // 2)] = out[a]
    return out


def lengthen(spec, n, rs):
    """The same system with series of n steps."""
    spec['n'] = n
    for m in spec['modules']:
        for key in ('ts', 'imp', 'exp', 'co2'):
            if isinstance(m.get(key), list):
                m[key] = [float(x) for x in _rand_levels(rs, n) * (max(m[key]) or spec['scale'])]
        if m.get('status') is not None:
            m['status'] = [int(x) for x in rs.rand(n) < rs.choice([0.95, 0.6])]
    return spec


def random_actions(spec, ns, rs):
    """Actions as of action_seq, from a random state."""
    ctrl = [(nm, m) for nm, _, m in index(spec) if m['kind'] in ('battery', 'genset', 'grid')]
    out, bias, stat = [], {}, {}
    for k in range(ns):
        step = {}
        for i, (nm, m) in enumerate(ctrl):
            if k == 0 or rs.rand() < 0.1:                    # keep charging, importing, ... for a while
                bias[i] = rs.choice([-1.0, -0.5, 0.0, 0.5, 1.0])
                stat[i] = float(rs.choice([0.0, 1.0, 1.0, 0.25, 0.75]))
            u = rs.rand()
            a = ['net', 'max', 'min', 'zero'][rs.randint(4)] if u < 0.15 else \
                ['near', NEAR[rs.randint(len(NEAR))]] if u > 0.95 else \
                0.0 if u < 0.2 else round(float(np.clip(bias[i] + rs.randn() * 0.5, -1.4, 1.4)), 2)
            step.setdefault(nm, []).append([stat[i], a] if m['kind'] == 'genset' else a)
        out.append(step)
    return out


@st.composite
def long_episode(draw, min_n=25, max_n=80, extra_steps=0, **kw):
    """Longer histories and more modules of each kind than episode(); series and actions come from a drawn seed."""
    opts = dict(max_loads=3, max_pv=3, max_batt=3, max_genset=3, max_grid=3, max_ctrl=7)
    opts.update(kw)
    spec = draw(microgrid_spec(min_n=2, max_n=2, steps=False, **opts))
    n = draw(st.integers(min_n, max_n))
    rs = np.random.RandomState(draw(st.integers(0, 2 ** 20)))
    lengthen(spec, n, rs)
    if draw(st.integers(0, 2)) == 0:
        spec['init'] = draw(st.integers(0, n - 1))
        spec['final'] = draw(st.integers(spec['init'] + 1, n))
    return {'spec': spec, 'actions': random_actions(spec, n_steps_available(spec) + extra_steps, rs)}


def resolve(spec, grid, step):
    """Turn a drawn step into a control dict with un-normalized requests, using only public limits."""
    idx = index(spec)
    net = ren = 0.0
    for nm, j, m in idx:
        mod = grid.modules[nm][j]
        if m['kind'] == 'load':
            net += mod.max_consumption
        elif m['kind'] == 'pv':
            net -= mod.max_production
            ren += mod.max_production
    control = {}
    used = 0.0
    for nm, j, m in idx:
        if m['kind'] not in ('battery', 'genset', 'grid') or m.get('flex'):
            continue
        mod = grid.modules[nm][j]
        a = step[nm][j]
        stat = None
        if m['kind'] == 'genset':
            stat, a = a
        if a == 'net':
            e = net - used
        elif isinstance(a, list) and a[0] == 'near':  # ['near', d]: all but closes the balance
            e = (net - used) + a[1] * max(abs(net - used), ren)
        elif a == 'max':
            e = mod.max_production
        elif a == 'min':
            e = -mod.max_consumption if mod.is_sink else 0.0
        elif a == 'zero':
            e = 0.0
        elif isinstance(a, list):                # ['frac', u]: a fraction of the live limits
            u = a[1]
            e = u * mod.max_production if u >= 0 else (u * mod.max_consumption if mod.is_sink else 0.0)
        else:
            rating = {'battery': lambda: max(m['max_charge'], m['max_discharge']),
                      'genset': lambda: m['max'],
                      'grid': lambda: max(m['max_import'], m['max_export'], 0.5 * spec['scale'])}[m['kind']]()
            e = a * rating
        e = float(e)
        if m['kind'] == 'genset':
            e = max(0.0, e)                      # gensets are sources only
        used += e
        control.setdefault(nm, []).append(np.array([stat, e]) if m['kind'] == 'genset' else e)
    return control
