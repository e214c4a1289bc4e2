"""C23: noisy data generation."""
import contextlib
import io
import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, nonmod
from vlib.core import Facet, Violation
from vlib.drive import need, need_close

PROPERTY = 'C23'
QUICK_FACTOR = 2.5
RULE = ('Random irradiance, load and grid-status series of whole days, as Series, one-column DataFrame or file, with '
        'random noise types and levels; samples are compared with the statistics of the source computed here. '
        'Non-trivial: the sample differs from its source, or is pushed onto it completely.')
ASSUMPTIONS = ['series cover whole days with one interval of daylight each and darkness at 0h and 23h; gaussian draws are '
               'taken to lie within nine standard deviations']

LX = 'GH illum (lx)'


def wrap(values, form, name, scratch):
    s = pd.Series([float(v) for v in values], name=name)
    if form == 'series':
        return s
    if form == 'frame':
        return s.to_frame()
    path = os.path.join(scratch, name.split(' ')[0] + '.csv')
    s.to_frame().to_csv(path, index=False)
    return path


def same_source(src, values, what):
    if isinstance(src, str):
        src = pd.read_csv(src, float_precision='round_trip')
    need(np.shape(src)[0] == len(values) and np.array_equal(np.asarray(src, dtype=float).reshape(-1), values),
         '%s: the source data were altered', what)
    if isinstance(src, pd.DataFrame):
        need(src.shape[1] == 1, '%s: the source has columns %r', what, list(src.columns))


def seeded(seed, fn):
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    finally:
        np.random.set_state(state)


def check_pv(case, ctx):
    from pymgrid.utils.DataGenerator import NoisyPVData
    vals = np.array(case['days'], dtype=float).reshape(-1)
    nd = len(case['days'])
    kw = dict(noise_types=(case['kind'], 'gaussian' if case['std'] is not None else None),
              noise_params=({'lower': case['lower'], 'upper': case['upper']}, {'std_ratio': case['std'] or 0.0}),
              push_peak_val=case['peak'] is not None, push_peak_ratio=case['peak'] or 0.0,
              push_individual_vals=case['push'] is not None, push_individual_ratio=case['push'] or 0.0)
    if case['kind'] == 'triangular' and not case['lower'] < 0.5 < case['upper']:  # the default mode is 0.5
        kw['noise_params'] = ({'lower': 0, 'upper': 1}, kw['noise_params'][1])
    with tempfile.TemporaryDirectory() as d:
        src = wrap(vals, case['form'], LX, d)

        def make():
            n = NoisyPVData(file_name=src) if case['form'] == 'file' else NoisyPVData(pv_data=src)
            n.data_munge()
            n.max_min_curve_interpolate(num_feature_functions=case['features'], params=case['preset'])
            return n
        gen_ = seeded(0, make)
        first = seeded(case['seed'], lambda: gen_.sample(**kw))
        bounds = gen_.distribution_bounds
        kw2 = dict(kw, noise_types=('uniform', 'gaussian'), noise_params=case['other'], push_peak_val=True,
                   push_peak_ratio=0.25)
        other = seeded(case['seed'] + 1, lambda: gen_.sample(**kw2))
        again = seeded(case['seed'], lambda: gen_.sample(**kw))
        fresh = seeded(case['seed'], lambda: make().sample(**kw))
        table = seeded(case['seed'], lambda: gen_.sample(**dict(kw, return_stacked_data=False)))
        # settings of one sample do not reach a later one that leaves them at their defaults
        bare = {'noise_types': (case['bare'], 'gaussian')}
        if case['bare_params'] is not None:
            bare['noise_params'] = case['bare_params']
        plain = seeded(case['seed'], lambda: gen_.sample(**bare))
        plain_fresh = seeded(case['seed'], lambda: make().sample(**bare))
        # samples around the parabolas drawn last: these stay the same however often they are sampled around
        drawn = seeded(case['seed'] + 2, lambda: gen_.sample(noise_types=(case['bare'], None)))
        kept = []
        for nt, sd in ((None, 1), ('gaussian', 5), ('gaussian', 6), ('gaussian', 5), (None, 2)):
            kept.append(seeded(sd, lambda: gen_.sample(noise_types=(None, nt), noise_params=(None, {'std_ratio': 0.2}))))
        same_source(src, vals, 'pv sampling')
    drawn, kept = drawn['pv'].to_numpy(dtype=float), [k['pv'].to_numpy(dtype=float) for k in kept]
    need(np.array_equal(kept[0], drawn), 'a sample around the last parabolas without noise differs from them')
    need(np.array_equal(kept[1], kept[3]), 'a noisy sample around the last parabolas depends on those taken before it')
    need(np.array_equal(kept[0], kept[4]), 'the last parabolas were changed by sampling around them')
    need(np.all(np.abs(kept[2] - drawn) <= 9 * 0.2 * drawn + 1e-9 * max(1.0, vals.max())),
         'noisy sample around the last parabolas is further from them than the requested noise')
    need(np.array_equal(plain['pv'].to_numpy(dtype=float), plain_fresh['pv'].to_numpy(dtype=float)),
         'a sample with %r depends on the settings of an earlier sample', bare)
    v = first['pv'].to_numpy(dtype=float)
    for what, o in (('after another sample', again), ('of a new generator', fresh)):
        need(np.array_equal(v, o['pv'].to_numpy(dtype=float)), 'sample %s differs for the same random state', what)
    table = table.to_numpy(dtype=float).T.reshape(-1)
    need(table.shape == v.shape, 'a sample by days and hours has %r entries, expected %r', table.shape, v.shape)
    if case['push'] is None:
        need(np.array_equal(table[table >= 0], v[table >= 0]), 'a sample by days and hours differs from the same sample as one '
             'series')
    for s in (v, other['pv'].to_numpy(dtype=float)):
        need(s.shape == (24 * nd,), 'sample has shape %r, expected %d hours', s.shape, 24 * nd)
        need(np.all(np.isfinite(s)) and np.all(s >= 0), 'sample has negative or undefined values: min %r', np.min(s))
    low, high = np.array(bounds[0], dtype=float), np.array(bounds[1], dtype=float)
    need(low.shape == (nd,) and high.shape == (nd,), 'bounds of %r days', low.shape)
    slack = 1e-9 * max(1.0, vals.max())
    need(np.all(low >= -slack) and np.all(high >= low - slack) or case['lower'] > case['upper'],
         'peak bounds %r, %r are not ordered', low, high)
    r, dev = case['push'] or 0.0, []
    for k in range(nd):
        day, base = vals[24 * k:24 * k + 24], v[24 * k:24 * k + 24]
        if r == 1.0:
            need(np.allclose(base, day, rtol=0, atol=slack), 'day %d: sample pushed fully onto the data differs from them', k)
            continue
        base = (base - r * day) / (1 - r)  # undo the push
        tol = slack / (1 - r)
        light = np.nonzero(day)[0]
        dawn, dusk = light[0] - 1, light[-1] + 1
        need(np.all(np.abs(base[:dawn + 1]) <= tol) and np.all(np.abs(base[dusk:]) <= tol),
             'day %d: sample has light at night: %r (daylight %d-%d)', k, base, dawn, dusk)
        ends = [low[k], high[k]]
        if case['peak'] is not None:
            ends = [e + case['peak'] * (day.max() - e) for e in ends]
        cap = max(ends)
        noise = 1 + 9 * (case['std'] or 0.0)
        # a parabola through dawn and dusk with its peak between the bounds
        x = np.arange(24)
        mid = (dawn + dusk) / 2
        shape = np.clip(1 - ((x - mid) / (mid - dawn)) ** 2, 0, None)
        need(np.all(base <= cap * shape * noise + 1e-6 * max(1.0, cap) + tol), 'day %d: sample %r exceeds the parabola '
             'with peak bound %r and noise %r', k, base, cap, case['std'])
        if case['std'] and shape.sum() and base.sum() > 1e-3 * slack:
            rel = base[shape > 0] / shape[shape > 0]
            rel = rel / rel.mean() - 1
            dev.append((np.sum(rel ** 2), len(rel) - 1))
        if not case['std']:
            peak = base.sum() / shape.sum()
            need(np.allclose(base, peak * shape, rtol=0, atol=1e-6 * max(1.0, cap)), 'day %d: sample is not a parabola '
                 'between dawn %d and dusk %d: %r', k, dawn, dusk, base)
            need(min(ends) - 1e-6 * max(1.0, cap) <= peak <= cap + 1e-6 * max(1.0, cap),
                 'day %d: peak %r outside [%r, %r]', k, peak, min(ends), cap)
            ctx.label('noise-free shape')
    if dev and case['std'] <= 0.25:
        got = np.sqrt(sum(a for a, _ in dev) / sum(b for _, b in dev))
        need(0.4 <= got / case['std'] <= 1.8, 'the relative noise is %r, requested %r', got, case['std'])
        ctx.label('noise level')
    ctx.nontrivial(r == 1.0 or not np.allclose(v, vals))
    ctx.label('pushed', r > 0)


@st.composite
def pv_cases(draw):
    nd = draw(st.integers(3, 7))
    days = []
    scale = draw(st.sampled_from([1.0, 100.0, 20000.0]))
    for _ in range(nd):
        dawn, dusk = draw(st.integers(1, 8)), draw(st.integers(14, 22))
        amp = draw(gen.pos(0.1 * scale, scale))
        h = np.arange(dawn, dusk)
        row = np.zeros(24)
        row[dawn:dusk] = amp * np.sin((h - dawn + 1) / (dusk - dawn + 1) * np.pi)
        row[dawn:dusk] *= 1 - 0.5 * np.array(draw(st.lists(gen.LEVEL, min_size=dusk - dawn, max_size=dusk - dawn)))
        days.append([float(x) for x in row])
    lower = draw(st.sampled_from([0, 0, 0.25, 0.5]))
    return {'days': days, 'form': draw(st.sampled_from(['series', 'frame', 'file'])),
            'kind': draw(st.sampled_from(['uniform', 'triangular'])), 'lower': lower,
            'upper': draw(st.sampled_from([1, 1, 0.75, 0.5])), 'std': draw(st.sampled_from([None, 0.05, 0.25, 0.5])),
            'peak': draw(st.sampled_from([None, 0.0, 0.5, 1.0])), 'push': draw(st.sampled_from([None, None, 0.3, 1.0])),
            'features': draw(st.integers(0, 3)), 'preset': draw(st.sampled_from(['sf', 'houston'])),
            'bare': draw(st.sampled_from(['uniform', 'triangular'])),
            'bare_params': draw(st.sampled_from([None, [None, None], [{'upper': 0.8}, None], [None, {'std_ratio': 0.1}]])),
            'other': [{'lower': draw(st.sampled_from([0.1, 0.3])), 'upper': draw(st.sampled_from([0.6, 0.9])),
                       'mode': draw(st.sampled_from([0.4, 0.5]))},
                      {'std_ratio': draw(st.sampled_from([0.01, 0.4]))}],
            'seed': draw(st.integers(0, 1000))}


def check_load(case, ctx):
    from pymgrid.utils.DataGenerator import NoisyLoadData
    vals = np.array(case['days'], dtype=float).reshape(-1)
    nd, sc = len(case['days']), case['scale']
    with tempfile.TemporaryDirectory() as d:
        src = wrap(vals, case['form'], 'load', d)

        def make():
            return NoisyLoadData(file_name=src) if case['form'] == 'file' else NoisyLoadData(load_data=src)
        g = make()
        first = seeded(case['seed'], lambda: g.sample(load_variance_scale=sc))
        seeded(case['seed'] + 2, lambda: g.sample(load_variance_scale=sc + 1.0))
        other = seeded(case['seed'] + 1, lambda: g.sample(load_variance_scale=sc))
        again = seeded(case['seed'], lambda: g.sample(load_variance_scale=sc))
        fresh = seeded(case['seed'], lambda: make().sample(load_variance_scale=sc))
        table = seeded(case['seed'], lambda: g.sample(load_variance_scale=sc, return_stacked=False))
        same_source(src, vals, 'load sampling')
    table, v = table.to_numpy(dtype=float).reshape(-1), first['load'].to_numpy(dtype=float)
    need(table.shape == v.shape and np.array_equal(table[table >= 0], v[table >= 0]), 'a sample by days and hours differs from '
         'the same sample as one series')
    v = first['load'].to_numpy(dtype=float)
    for what, o in (('after another sample', again), ('of a new generator', fresh)):
        need(np.array_equal(v, o['load'].to_numpy(dtype=float)), 'sample %s differs for the same random state', what)
    rows, z = np.array(case['days'], dtype=float), []
    for s in (v, other['load'].to_numpy(dtype=float)):
        need(s.shape == (24 * nd,), 'sample has shape %r, expected %d hours', s.shape, 24 * nd)
        need(np.all(np.isfinite(s)) and np.all(s >= 0), 'sample has negative or undefined values')
        for k in range(nd):
            grp = rows[k % 7::7]
            mean = grp.mean(axis=0)
            std = grp.std(axis=0, ddof=1) if len(grp) > 1 else np.zeros(24)
            got = s[24 * k:24 * k + 24]
            tol = 1e-9 * max(1.0, rows.max())
            ok = (np.abs(got - mean) <= 9 * sc * std + tol) | ((np.abs(got - vals.min()) <= tol) & (mean - 9 * sc * std < 0))
            need(np.all(ok), 'day %d: sample %r is not a draw around the weekday mean %r with deviation %r', k,
                 got[~ok], mean[~ok], sc * std[~ok])
            free = (std > 1e-9 * rows.max()) & (mean > 6 * sc * std)
            z.extend((got[free] - mean[free]) / (sc * std[free]) if sc else [])
    if len(z) >= 40:
        rms = float(np.sqrt(np.mean(np.square(z))))
        need(abs(rms - 1) <= 8 / np.sqrt(2 * len(z)), 'deviation from the weekday means is %r of the requested one', rms)
        need(abs(np.mean(z)) <= 8 / np.sqrt(len(z)), 'samples are biased by %r deviations', np.mean(z))
        ctx.label('deviation checked')
    if sc == 0:
        ctx.label('no variance')
    ctx.nontrivial(not np.allclose(v, vals))


@st.composite
def load_cases(draw):
    nd = draw(st.one_of(st.integers(1, 16), st.sampled_from([30, 63, 100])))
    scale = draw(st.sampled_from([1.0, 100.0, 5000.0]))
    lo = draw(st.sampled_from([0.0, 0.2, 0.8]))
    rows = [[scale * (lo + (1 - lo) * x) for x in np.random.RandomState(draw(st.integers(0, 2 ** 20))).rand(24)]
            for _ in range(nd)]
    return {'days': rows, 'form': draw(st.sampled_from(['series', 'frame', 'file'])),
            'scale': draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 5.0])), 'seed': draw(st.integers(0, 1000))}


def check_grid(case, ctx):
    from pymgrid.utils.DataGenerator import NoisyGridData
    vals = np.array(case['status'], dtype=float)
    src = wrap(vals, case['form'], 'grid', None)
    if case['bad'] is not None:
        i = case['bad'] % len(vals)
        src = wrap(list(vals[:i]) + [case['badval']] + list(vals[i + 1:]), case['form'], 'grid', None)
        try:
            NoisyGridData(src, dist_type=case['dist'])
        except ValueError:
            ctx.nontrivial(True)
            return
        raise Violation(f'grid status {case["badval"]!r} was accepted')
    g = NoisyGridData(src, dist_type=case['dist'])
    a = seeded(case['seed'], g.sample)
    b = seeded(case['seed'] + 1, g.sample)
    need(np.array_equal(a, seeded(case['seed'], g.sample)), 'sample differs for the same random state')
    need(np.array_equal(a, seeded(case['seed'], NoisyGridData(src, dist_type=case['dist']).sample)),
         'sample of a new generator differs for the same random state')
    same_source(src, vals, 'grid sampling')
    seen = set(zip(vals[:-1], vals[1:]))
    tp = g.transition_prob_matrix
    if case['dist'] == 'naive':
        need_close(tp[1], vals.mean(), 'probability of a working grid')
        need_close(tp[0], 1 - vals.mean(), 'probability of an outage')
    else:
        for x in (0, 1):
            nx = np.sum(vals[:-1] == x)
            for y in (0, 1):
                want = np.sum((vals[:-1] == x) & (vals[1:] == y)) / nx if nx else float(x == y)
                need_close(tp[x, y], want, f'transition probability {x} -> {y}')
    for s in (a, b):
        s = np.asarray(s, dtype=float)
        need(s.shape == vals.shape, 'sample has shape %r', s.shape)
        need(set(s) <= set(vals), 'sample has values %r, the data %r', set(s), set(vals))
        if case['dist'] == 'markov':
            new = set(zip(s[:-1], s[1:])) - seen
            # the last value of the data may be seen only there, without a successor
            need(all(x == y and not np.any(vals[:-1] == x) for x, y in new), 'sample has transitions %r, not in the data', new)
    ctx.nontrivial(len(set(vals)) > 1)


@st.composite
def grid_cases(draw):
    n = draw(st.integers(2, 60))
    return {'status': draw(st.lists(st.sampled_from([0, 1, 1]), min_size=n, max_size=n)),
            'form': draw(st.sampled_from(['series', 'frame'])), 'dist': draw(st.sampled_from(['naive', 'markov'])),
            'seed': draw(st.integers(0, 1000)), 'bad': draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 59))),
            'badval': draw(st.sampled_from([-1.0, 2.0, 0.5]))}


def check_generator(case, ctx):
    """Forecasts and samples for a non-modular microgrid."""
    from pymgrid.utils.DataGenerator import SampleGenerator, return_underlying_data
    spec = dict(case['spec'])
    nd = len(case['pv_days'])
    n = 24 * nd
    reps = -(-n // spec['n'])
    spec.update(n=n, pv=[float(x) for r in case['pv_days'] for x in r], load=[max(0.5, x) for x in (spec['load'] * reps)[:n]])
    if spec['grid']:
        spec['grid'] = dict(spec['grid'], **{k: (spec['grid'][k] * reps)[:n] for k in ('imp', 'exp', 'co2', 'status')})
    mg = nonmod.build(spec)
    before = {k: np.array(getattr(mg, k), dtype=float) for k in ('_pv_ts', '_load_ts')}
    cols = [list(mg._pv_ts.columns), list(mg._load_ts.columns)]
    status = np.array(spec['grid']['status'] if spec['grid'] else [0.0] * n)
    und = return_underlying_data(mg)
    need(list(und.columns) == ['pv', 'load', 'grid'] and len(und) == n, 'underlying data %r of length %d', list(und.columns),
         len(und))
    for c, want in (('pv', spec['pv']), ('load', spec['load']), ('grid', status)):
        need(np.array_equal(und[c].to_numpy(dtype=float), np.array(want)), 'underlying %s differs from the microgrid', c)
    np_state = case['seed']
    sg = seeded(np_state, lambda: SampleGenerator(mg))
    fc = sg.forecasts
    samples = seeded(np_state, lambda: sg.sample_from_forecasts(n_samples=case['k']))
    need(len(samples) == case['k'], '%d samples, expected %d', len(samples), case['k'])
    for what, f in [('forecast', fc)] + [(f'sample {i}', s) for i, s in enumerate(samples)]:
        need(set(f.columns) == {'pv', 'load', 'grid'} and len(f) == n, '%s has columns %r and length %d, expected %d', what,
             list(f.columns), len(f), n)
        a = f.to_numpy(dtype=float)
        need(np.all(np.isfinite(a)) and np.all(a >= 0), '%s has negative or undefined values', what)
        need(set(f['grid']) <= set(status), '%s has grid status %r, the microgrid %r', what, set(f['grid']), set(status))
        dark = np.array(spec['pv']).reshape(nd, 24)
        for k in range(nd):
            light = np.nonzero(dark[k])[0]
            night = [h for h in range(24) if h < light[0] or h > light[-1]]
            need(np.all(f['pv'].to_numpy().reshape(nd, 24)[k][night] == 0), '%s: light at night on day %d', what, k)
    for k, v in before.items():
        need(np.array_equal(v, np.array(getattr(mg, k), dtype=float)), 'the microgrid\'s %s was altered', k)
    need(cols == [list(mg._pv_ts.columns), list(mg._load_ts.columns)], 'the columns of the microgrid\'s data were altered')
    m = sg.validate_forecasts()
    for c in ('load',):
        want = np.mean(np.abs((und[c] - fc[c]) / und[c]))
        need_close(m[c], want, f'mean absolute percentage error of {c}', tol=1e-6)
    check_around_forecast(case, mg, spec, n, status)
    ctx.nontrivial(True)


def weekday_means(x):
    """Every hour's mean over the days of the same weekday."""
    x = np.asarray(x, dtype=float).reshape(-1, 24)
    return np.vstack([x[k % 7::7].mean(axis=0) for k in range(len(x))]).reshape(-1)


PRESETS = {50: 0.5, 70: 0.65, 85: 1.0}


def check_around_forecast(case, mg, spec, n, status):
    """Forecasts are made with the arguments given, samples are drawn around the forecasts."""
    from pymgrid.utils.DataGenerator import SampleGenerator
    top = max(max(spec['load']), max(spec['pv']), 1.0)
    same = lambda a, b: np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=0, atol=1e-9 * top)
    # a named preset is its arguments
    pv_args = {'noise_params': ({'lower': 0.0, 'upper': 0.5}, {'std_ratio': 0.25}), 'push_peak_val': True, 'push_peak_ratio': 0.0,
               'push_individual_vals': True, 'push_individual_ratio': PRESETS[case['preset']]}
    named = seeded(case['seed'], lambda: SampleGenerator(mg, preset_to_use=case['preset'])).forecasts
    given = seeded(case['seed'], lambda: SampleGenerator(mg, pv_args=pv_args, load_args={'load_variance_scale': 2.0})).forecasts
    need(same(named[['pv', 'load', 'grid']], given[['pv', 'load', 'grid']]), 'forecasts with preset %d differ from those with its '
         'arguments', case['preset'])
    if case['preset'] == 85:
        need(same(named['pv'], spec['pv']), 'renewable forecast pushed fully onto the data differs from them')
    # without variance, the load forecast is the mean, and samples are means of the forecast
    sg = seeded(case['seed'], lambda: SampleGenerator(mg, load_args={'load_variance_scale': 0.0},
                                                      pv_args={'noise_types': ('uniform', None)}))
    need(same(sg.forecasts['load'], weekday_means(spec['load'])), 'load forecast without variance is not the mean of its weekday '
         'and hour')
    seeded(case['seed'], lambda: sg.create_forecasts(load_args={'load_variance_scale': 1.5}, pv_args={'noise_types': ('uniform', None)}))
    fc = sg.forecasts
    out = seeded(case['seed'] + 1, lambda: sg.sample_from_forecasts(n_samples=2, load_variance_scale=0.0,
                                                                    noise_params=(None, {'std_ratio': 0.0})))
    moves = set(zip(fc['grid'].to_numpy()[:-1], fc['grid'].to_numpy()[1:]))
    for i, s in enumerate(out):
        need(same(s['load'], weekday_means(fc['load'])), 'sample %d: load without variance is not the mean of the forecast', i)
        need(same(s['pv'], fc['pv']), 'sample %d: renewable without noise differs from the forecast', i)
        g = s['grid'].to_numpy()
        new = set(zip(g[:-1], g[1:])) - moves
        need(all(x == y and x not in fc['grid'].to_numpy()[:-1] for x, y in new), 'sample %d: grid transitions %r are not in the '
             'forecast', i, new)


@st.composite
def generator_cases(draw):
    c = draw(pv_cases())
    nd = draw(st.sampled_from([len(c['days']), 9, 15, 22]))
    return {'spec': draw(nonmod.spec()), 'pv_days': (c['days'] * 8)[:nd], 'seed': c['seed'], 'k': draw(st.integers(1, 2)),
            'preset': draw(st.sampled_from(sorted(PRESETS)))}


FACETS = [
    Facet('pv', pv_cases, check_pv, 120),
    Facet('load', load_cases, check_load, 150),
    Facet('grid', grid_cases, check_grid, 300),
    Facet('generator', generator_cases, check_generator, 30),
]
