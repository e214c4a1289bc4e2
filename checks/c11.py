"""C11: forecasts."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Facet
from vlib.drive import need, need_same, run_episode

PROPERTY = 'C11'
QUICK_FACTOR = 2
RULE = ('Load, renewable and grid series (3-12 steps) with every kind of forecaster (oracle, zero and non-zero noise with '
        'all options, scalar and vectorized user functions), horizons 1-8, any initial step, observed at every step '
        'up to and past the end; forecasters, horizons and series are replaced at random points, per module, per microgrid and by '
        'name; noise levels are estimated from repeated forecasts. Non-trivial: a forecast entry strictly before the '
        'end of the series and one past it were observed, or a replacement took place.')
ASSUMPTIONS = ['vectorized user functions are generated without dependence on the number of steps (they receive the '
               'horizon)', 'noise levels are compared within 8 standard errors on series whose bounds make clipping '
               'negligible']


# ---- user functions; scalar ones refuse arrays so that the library calls them per value
def mean_v(c, v, n):
    return (np.asarray(c) + v) / 2


def half_v(c, v, n):
    return 0.5 * np.asarray(v)


def double_v(c, v, n):
    return 2.0 * np.asarray(v)


def list_v(c, v, n):
    return [[0.25 * float(x) for x in row] for row in np.asarray(v)]


def _scalar(x):
    if np.size(x) != 1:
        raise TypeError('scalar function')
    return float(np.asarray(x).reshape(-1)[0])


def damp_s(c, v, n):
    return _scalar(v) / (1 + n)


def persist_s(c, v, n):
    c, v = _scalar(c), _scalar(v)
    return c if c * v >= 0 else 0.0


def mix_s(c, v, n):
    return (n * _scalar(v) + _scalar(c)) / (n + 1)


VEC = {'mean': mean_v, 'half': half_v, 'double': double_v, 'list': list_v}
SCA = {'damp': damp_s, 'persist': persist_s, 'mix': mix_s}


def signed(m):
    """Series with the library's sign convention, shape (n, components)."""
    if m['kind'] == 'load':
        return -np.array(m['ts']).reshape(-1, 1)
    if m['kind'] == 'pv':
        return np.array(m['ts']).reshape(-1, 1)
    ts = gen.grid_ts(m)
    if ts.shape[1] == 3:
        ts = np.hstack([ts, np.ones((len(ts), 1))])
    return ts


def bounds(m):
    ts = signed(m)
    if m['kind'] == 'grid':
        return ts.min(axis=0), ts.max(axis=0)
    return np.array([min(0.0, ts.min())]), np.array([max(0.0, ts.max())])


COMP = {'load': ['load'], 'pv': ['renewable'],
        'grid': ['import_price', 'export_price', 'co2_per_kwh', 'grid_status']}


def predict(fc, c, v, n):
    """Expected forecast row, before clipping; None if random."""
    k = fc['kind']
    if k == 'oracle' or (k == 'gauss' and fc['std'] == 0):
        return v
    if k == 'gauss':
        return None
    if k in VEC:
        return np.asarray(VEC[k](c, np.asarray(v).reshape(1, -1), n)).reshape(-1)
    return np.array([SCA[k](c[i], v[i], n) for i in range(len(v))])


def check_state(m, fc, mod, t, what):
    ts, (lo, hi) = signed(m), bounds(m)
    mid = (lo + hi) / 2
    h = fc['h'] if fc else 0
    sd = mod.state_dict()
    keys = [f'{c}_current' for c in COMP[m['kind']]] + \
        [f'{c}_forecast_{j}' for j in range(h) for c in COMP[m['kind']]]
    need(list(sd) == keys, '%s: state has components %r, expected %r', what, list(sd), keys)
    vals = np.array([float(v) for v in sd.values()]).reshape(1 + h, -1)
    tol = 1e-9 * max(1.0, np.abs(ts).max())
    n = len(ts)
    cur = ts[t] if t < n else mid
    need(np.all(np.abs(vals[0] - cur) <= tol), '%s: current value %r, expected %r', what, vals[0], cur)
    inside = past = False
    for j in range(h):
        got = vals[1 + j]
        if t + 1 + j < n:
            inside = True
            want = predict(fc, ts[t], ts[t + 1 + j], j + 1)
            if want is not None:
                want = np.clip(want, lo, hi)
                need(np.all(np.abs(got - want) <= tol), '%s: forecast %d is %r, expected %r', what, j, got, want)
            else:
                need(np.all((got >= lo - tol) & (got <= hi + tol)), '%s: noisy forecast %d is %r, outside [%r, %r]',
                     what, j, got, lo, hi)
        else:
            past = True
            need(np.all(np.abs(got - mid) <= tol), '%s: forecast %d past the end is %r, expected %r', what, j, got, mid)
    if m['kind'] == 'grid':
        for i, prop in enumerate(('import_price', 'export_price', 'co2_per_kwh', 'grid_status')):
            need_same(np.asarray(getattr(mod, prop)), vals[:, i], f'{what}: {prop}')
    need(mod.forecast_horizon == h, '%s: forecast_horizon %r, expected %r', what, mod.forecast_horizon, h)
    f = mod.forecast()
    if h:
        need(np.shape(f) == (h, ts.shape[1]), '%s: forecast() has shape %r', what, np.shape(f))
        if fc['kind'] != 'gauss' or fc['std'] == 0:
            need(np.all(np.abs(f - vals[1:]) <= tol), '%s: forecast() is %r, state has %r', what, f, vals[1:])
        if isinstance(f, np.ndarray) and f.flags.writeable:
            f[...] = np.where(f == 0, hi + 1, 0.0)      # the caller may do with it as it likes
        need_same({k: float(v) for k, v in mod.state_dict().items()}, {k: float(v) for k, v in sd.items()},
                  f'{what}: forecast() changed the state', 0)
    obs = np.atleast_1d(mod.to_normalized(mod.state, obs=True))
    need(obs.shape == (vals.size,), '%s: observation has shape %r', what, obs.shape)
    need(mod.observation_space.shape == (vals.size,), '%s: observation space has shape %r', what,
         mod.observation_space.shape)
    need_same(np.asarray(mod.time_series), ts, f'{what}: series changed', 0)
    return inside, past


def kwargs(fc):
    if fc is None:
        return {'forecaster': None}
    if fc['kind'] == 'gauss':
        return {'forecaster': fc['std'], 'forecast_horizon': fc['h'], 'forecaster_increase_uncertainty': fc['inc'],
                'forecaster_relative_noise': fc['rel']}
    f = 'oracle' if fc['kind'] == 'oracle' else (VEC.get(fc['kind']) or SCA[fc['kind']])
    return {'forecaster': f, 'forecast_horizon': fc['h']}


def make(m, fc, init, given, final=None):
    from pymgrid.modules import GridModule, LoadModule, RenewableModule
    kw = dict(kwargs(fc), initial_step=init)
    if final:
        kw['final_step'] = final
    if m['kind'] == 'load':
        return LoadModule(time_series=given, **kw)
    if m['kind'] == 'pv':
        return RenewableModule(time_series=given, **kw)
    return GridModule(max_import=m['max_import'], max_export=m['max_export'], time_series=given, **kw)


def raw(m):
    return gen.grid_ts(m) if m['kind'] == 'grid' else np.array(m['ts'], dtype=float)


def check_module(case, ctx):
    m, fc, init = case['module'], case['fc'], case['init']
    given = raw(m)
    keep = given.copy()
    mod = make(m, fc, init, given, case.get('final'))
    n = len(given)
    t = init
    inside = past = False
    for k in range(n - init + 1):
        what = f'{m["kind"]}, step {t}'
        for op in [o for o in case['changes'] if o['at'] == k]:
            if op['what'] == 'fc':
                fc = op['fc']
                kw = kwargs(fc)
                mod.set_forecaster(kw.pop('forecaster'), **kw)
                ctx.label('set_forecaster')
            elif op['what'] == 'h':
                fc = dict(fc or {'kind': 'oracle'}, h=op['h'])
                mod.forecast_horizon = op['h']
                ctx.label('set forecast_horizon')
            elif op['what'] == 'ts' and t < n:
                m = op['module']
                given = raw(m)
                keep = given.copy()
                mod.time_series = np.hstack([given, np.ones((n, 1))]) \
                    if m['kind'] == 'grid' and given.shape[1] == 3 else given
                ctx.label('set time_series')
            else:
                continue
            ctx.nontrivial()
            check_state(m, fc, mod, t, what + f' after changing {op["what"]}')
        i, p = check_state(m, fc, mod, t, what)
        inside, past = inside or i, past or p
        if t < n:
            mod.step(0.0, normalized=False)
            t += 1
    mod.reset()
    check_state(m, fc, mod, init, 'after reset')
    need(np.array_equal(given, keep), 'the array passed as series was changed')
    ctx.nontrivial(inside and past)


def check_microgrid(case, ctx):
    spec = case['spec']
    mg = gen.build(spec)
    fcs = {(nm, j): m['fc'] for nm, j, m in gen.index(spec) if m['kind'] in COMP}

    def all_states(what):
        for nm, j, m in gen.index(spec):
            if m['kind'] in COMP:
                check_state(m, fcs[nm, j], mg.modules[nm][j], mg.current_step, f'{what}: {nm}[{j}]')

    it = run_episode(case, mg=mg)
    k = 0
    while True:
        all_states(f'after {k} steps')
        for op in [o for o in case['sets'] if o['at'] == k]:
            fc = op['fc']
            kw = kwargs(fc)
            f = kw.pop('forecaster')
            names = sorted({nm for nm, _ in fcs})
            if op['by_name'] and names:
                picked = [nm for i, nm in enumerate(names) if op['pick'] >> i & 1]
                mg.set_forecaster({nm: f for nm in picked}, **kw)
                ctx.label('by name', bool(picked))
            else:
                picked = names
                mg.set_forecaster(f, **kw)
            for key in fcs:
                if key[0] in picked:
                    fcs[key] = fc
            ctx.nontrivial(bool(picked))
            all_states(f'after {k} steps and set_forecaster')
            hs = {(fc_ or {'h': 0})['h'] for fc_ in fcs.values()}
            if len(hs) == 1:
                need(mg.get_forecast_horizon() == hs.pop(), 'get_forecast_horizon() is %r', mg.get_forecast_horizon())
            else:
                try:
                    mg.get_forecast_horizon()
                except ValueError:
                    pass
                else:
                    need(False, 'get_forecast_horizon() did not refuse different horizons %r', hs)
        try:
            mg, rec = next(it)
        except StopIteration:
            break
        k += 1
    try:
        mg.set_forecaster({'no such module': 'oracle'})
    except NameError:
        pass
    else:
        need(False, 'forecaster for an unknown module was accepted')


def check_noise(case, ctx):
    """Sample standard deviations of noisy forecasts."""
    from pymgrid.modules import RenewableModule
    h, std = case['h'], case['std']
    base = np.full(h + 6, case['level'])
    base[0], base[-1] = 0.0, 2 * case['level']          # bounds [0, 2*level], far away in units of the noise
    mod = RenewableModule(time_series=base, forecaster=std, forecast_horizon=case['h0'] or h, initial_step=0,
                          forecaster_increase_uncertainty=case['inc'], forecaster_relative_noise=case['rel'])
    if case['h0']:
        mod.forecast_horizon = h
        ctx.label('horizon changed')
    for _ in range(3):
        mod.step(0.0, normalized=False)
    n = 400
    x = np.array([mod.forecast()[:, 0] for _ in range(n)]) - base[4:4 + h]
    s = std * (abs(base.mean()) if case['rel'] else 1.0)
    want = s * (1 + np.log(1 + np.arange(h))) if case['inc'] else np.full(h, s)
    live = np.arange(h) < len(base) - 4
    for j in np.flatnonzero(live):
        if base[4 + j] != case['level']:
            continue
        got, mean = x[:, j].std(), x[:, j].mean()
        need(abs(mean) <= 8 * want[j] / np.sqrt(n), 'forecast %d: mean error %r with noise %r', j, mean, want[j])
        need(abs(got - want[j]) <= 8 * want[j] / np.sqrt(2 * n), 'forecast %d: noise %r, expected %r', j, got, want[j])
    if h > 1:
        c = np.corrcoef(x[:, 0], x[:, 1])[0, 1]
        need(abs(c) < 8 / np.sqrt(n), 'errors of forecasts 0 and 1 are correlated (%r)', c)
    ctx.nontrivial()


@st.composite
def fc_spec(draw, kind, none=False):
    kinds = ['oracle', 'oracle', 'gauss', 'gauss'] + list(VEC) + (list(SCA) * 2 if kind != 'grid' else [])
    if none:
        kinds.append(None)
    k = draw(st.sampled_from(kinds))
    if k is None:
        return None
    fc = {'kind': k, 'h': draw(st.integers(1, 8))}
    if k == 'gauss':
        fc.update(std=draw(st.sampled_from([0.0, 0.01, 0.5, 3.0])), inc=draw(st.booleans()), rel=draw(st.booleans()))
    return fc


def ts_module(kind, n, scale):
    return {'load': gen.load_spec, 'pv': gen.pv_spec, 'grid': gen.grid_spec}[kind](n, scale)


@st.composite
def module_case(draw):
    kind = draw(st.sampled_from(['load', 'pv', 'grid']))
    init = draw(st.sampled_from([0, 0, 1, 3]))
    n = draw(st.integers(init + 3, 12))
    scale = draw(gen.SCALES)
    m = draw(ts_module(kind, n, scale))
    changes = []
    for _ in range(draw(st.integers(0, 2))):
        at = draw(st.integers(0, n - init))
        what = draw(st.sampled_from(['fc', 'fc', 'ts', 'ts', 'h']))
        if what == 'fc':
            changes.append({'what': 'fc', 'at': at, 'fc': draw(fc_spec(kind, none=True))})
        elif what == 'h':
            changes.append({'what': 'h', 'at': at, 'h': draw(st.integers(1, 8))})
        else:
            changes.append({'what': 'ts', 'at': at, 'module': draw(ts_module(kind, n, draw(gen.SCALES)))})
    return {'module': m, 'fc': draw(fc_spec(kind, none=bool(changes))), 'init': init, 'changes': changes,
            'final': draw(st.one_of(st.none(), st.none(), st.integers(init + 3, n)))}


@st.composite
def mg_case(draw):
    big = draw(st.sampled_from([2, 2, 4]))
    c = draw(gen.episode(min_n=4, max_n=8, forecasts=False, max_batt=1, max_genset=1, max_grid=1, steps=False,
                         max_loads=big, max_pv=big))
    for m in c['spec']['modules']:
        if m['kind'] in COMP:
            m['fc'] = None
    c['sets'] = []
    for _ in range(draw(st.integers(1, 3))):
        fc = draw(fc_spec('grid', none=True))
        c['sets'].append({'at': draw(st.integers(0, 3)), 'fc': fc, 'by_name': draw(st.booleans()),
                          'pick': draw(st.integers(0, 15))})
    return c


@st.composite
def noise_case(draw):
    level = draw(st.sampled_from([10.0, 1000.0, 0.5]))
    rel = draw(st.booleans())
    std = draw(st.sampled_from([0.02, 0.01, 0.005])) * (1.0 if rel else level)
    return {'h': draw(st.integers(1, 6)), 'std': std, 'level': level, 'inc': draw(st.booleans()), 'rel': rel,
            'h0': draw(st.sampled_from([0, 0, 1, 3, 7])), 'salt': draw(st.integers(0, 10 ** 6))}


@st.composite
def long_case(draw):
    kind = draw(st.sampled_from(['load', 'pv', 'grid']))
    init = draw(st.sampled_from([0, 0, 1, 10, 24]))
    n = draw(st.integers(init + 20, 80))
    rs = np.random.RandomState(draw(st.integers(0, 2 ** 20)))
    ms = [draw(ts_module(kind, 2, draw(gen.SCALES))) for _ in range(2)]
    for m in ms:
        gen.lengthen({'n': 2, 'scale': 1.0, 'modules': [m]}, n, rs)
    fc = draw(fc_spec(kind))
    fc['h'] = draw(st.integers(9, 40))
    changes = []
    if draw(st.booleans()):
        changes.append({'what': 'ts', 'at': draw(st.integers(0, n - init)), 'module': ms[1]})
    return {'module': ms[0], 'fc': fc, 'init': init, 'changes': changes,
            'final': draw(st.one_of(st.none(), st.none(), st.integers(init + 3, n)))}


FACETS = [
    Facet('long', long_case, check_module, 160),
    Facet('modules', module_case, check_module, 2400),
    Facet('microgrids', mg_case, check_microgrid, 800),
    Facet('noise', noise_case, check_noise, 160),
]
