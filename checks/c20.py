"""C20: isolation of microgrids and modules."""
import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c08 import no_noise
from checks.c12 import make_shaper, make_traj, seed_all
from vlib import gen, scen
from vlib.core import Facet, Violation
from vlib.drive import frames_same, need, need_close, need_same

PROPERTY = 'C20'
QUICK_FACTOR = 2
RULE = ('Two to four microgrids are made from the same modules, by copying, pickling, serializing or wrapping each '
        'other, and driven through a random interleaving of steps, resets, queries and tampering with everything that '
        'was passed in; each result is compared with the same history run alone on a freshly built microgrid. '
        'Non-trivial: at least two microgrids ran, with a switch between them.')
ASSUMPTIONS = ['noisy forecasters are excluded (they share the global random state by design)',
               'model predictive control documents that it runs on the microgrid it is given']


def act(mg, spec, step, normalized, extra=False):
    control = gen.resolve(spec, mg, step)
    if normalized:
        control = mg.to_normalized(control, act=True)
    if extra:  # names without a controllable module are ignored
        control['unused'] = [0.5]
        for nm, _ in list(mg.fixed.iterdict()) + list(mg.flex.iterdict()):
            control.setdefault(nm, [0.0])
    given = copy.deepcopy(control)
    out = mg.run(given, normalized=normalized)
    need_same(control, given, 'control passed to run')
    # the control passed in is spoiled afterwards
    for v in given.values():
        for i, x in enumerate(v):
            if isinstance(x, np.ndarray):
                x[:] = -77.0
            v[i] = 1e6
    given.clear()
    return out


def perform(mg, spec, op, extra=None):
    kind = op[0]
    seed_all(op[2])
    if kind == 'run':
        if mg.current_step >= mg.final_step:
            return 'over'
        return copy.deepcopy(act(mg, spec, op[1], op[2] % 2 == 0,
                                 op[2] % 5 == 1 if extra is None else extra))
    if kind == 'reset':
        mg.reset()
        return mg.state_dict(), mg.current_step
    if kind == 'log':
        return mg.get_log()
    if kind == 'query':
        return (mg.state_dict(), mg.state_series(), mg.get_cost_info(), mg.get_empty_action(),
                mg.sample_action(), mg.sample_action(strict_bound=True), mg.current_step, len(mg), mg.initial_step,
                mg.final_step)
    if kind == 'loss':
        for m in mg.modules.iterlist():
            if hasattr(m, 'loss_load_cost'):
                m.loss_load_cost = float(op[2])
        return 'set'
    if kind == 'steps':
        lo = mg.initial_step
        mg.initial_step = min(lo + 1, mg.final_step - 1)
        return mg.initial_step, mg.current_step
    raise ValueError(kind)


def same_result(a, b, what):
    if isinstance(a, pd.DataFrame):
        frames_same(a, b, what)
    else:
        need_same(a, b, what)


def derive(how, mods, base, kw, spec, cls):
    if how == 'modules':
        return cls(mods, **kw) if cls else None
    if how == 'deepcopy':
        return copy.deepcopy(base)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(base))
    if how == 'yaml':
        return type(base).load(base.dump())
    raise ValueError(how)


def arrays_of(spec):
    """Modules of a specification and the arrays they were built from."""
    mods, arrays = [], []
    for m in spec['modules']:
        if m['kind'] in ('load', 'pv', 'grid'):
            arr = gen.grid_ts(m) if m['kind'] == 'grid' else np.array(m['ts'], dtype=float)
            mod = build_from(m, arr, spec)
            arrays.append((arr, arr.copy()))
        else:
            mod = gen.build_module(m, spec['init'], spec['final'])
        mods.append((m['name'], mod) if m.get('name') else mod)
    if spec['init'] != 0:
        mods.append(gen.build_module({'kind': 'unbalanced', 'llc': spec['llc'], 'ogc': spec['ogc']}, spec['init']))
    return mods, arrays


def build_from(m, arr, spec):
    from pymgrid.modules import GridModule, LoadModule, RenewableModule
    kw = dict(initial_step=spec['init'], final_step=spec['final'], raise_errors=m.get('raise_errors', False),
              **gen.fc_kwargs(m.get('fc')))
    if m['kind'] == 'grid':
        return GridModule(max_import=m['max_import'], max_export=m['max_export'], time_series=arr,
                          cost_per_unit_co2=m['co2_cost'], **kw)
    return (LoadModule if m['kind'] == 'load' else RenewableModule)(time_series=arr, **kw)


def fingerprint(mods):
    out = []
    for m in mods:
        m = m[-1] if isinstance(m, tuple) else m
        out.append((m.dump(), m.current_step, dict(m.state_dict()), len(m.log)))
    return out


def check_interleave(case, ctx):
    from pymgrid import Microgrid
    spec = case['spec']
    mods, arrays = arrays_of(spec)
    kw = dict(add_unbalanced_module=spec['init'] == 0)
    if spec['init'] == 0:
        kw.update(loss_load_cost=spec['llc'], overgeneration_cost=spec['ogc'])
    before = fingerprint(mods)
    mgs = [Microgrid(mods, **kw)]
    hist = [[]]                      # the ops each microgrid has effectively seen
    need(len(mods) == len(before), 'the list of modules passed in has now %d entries', len(mods))

    def check_inputs(what):
        for arr, orig in arrays:
            need(np.array_equal(arr, orig), '%s changed an array that was passed in', what)
        now = fingerprint(mods)
        need(len(now) == len(before), '%s: list of modules has %d entries', what, len(now))
        for x, y in zip(before, now):
            need(x[0] == y[0] and x[1] == y[1] and x[3] == y[3], '%s changed a module that was passed in', what)
            need_same(x[2], y[2], f'{what}: state of a module that was passed in')

    check_inputs('construction')
    results = [[]]
    tampered = False
    order = []
    for op in case['ops']:
        i = op[3] % len(mgs)
        if op[0] == 'new':
            if len(mgs) >= 4:
                continue
            how = op[1]
            if how == 'modules' and not tampered:
                mgs.append(Microgrid(mods, **kw))
                hist.append([])
                results.append([])
            elif how != 'modules':
                mgs.append(derive(how, mods, mgs[i], kw, spec, Microgrid))
                # a serialized copy starts with an empty log
                hist.append(list(hist[i]) + ([['nolog']] if how == 'yaml' else []))
                results.append([None] * len(hist[-1]))
        elif op[0] == 'tamper':
            tampered = True
            for arr, orig in arrays:
                arr[:] = 3.21
            for m in mods:
                m = m[-1] if isinstance(m, tuple) else m
                if hasattr(m, 'time_series'):
                    m.time_series[:] = 1.23 if not hasattr(m, 'current_load') else -1.23
                if hasattr(m, 'max_capacity'):
                    m.current_charge = m.max_capacity
                    m.max_charge = 1e-3
                if hasattr(m, 'running_max_production'):
                    m.running_max_production = 1e-3
            del mods[-1:]
        elif op[0] == 'shallow':
            # what a microgrid hands out is the caller's
            mgs[i].get_log().iloc[:, :] = 0
            sd = mgs[i].state_dict()
            for lst in sd.values():
                for d in lst:
                    for k in list(d):
                        d[k] = 1e9
            mgs[i].get_empty_action().clear()
        else:
            r = perform(mgs[i], spec, op)
            hist[i].append(op)
            results[i].append(r)
            order.append(i)
            if not tampered:
                check_inputs(op[0])
    for i in range(len(mgs)):
        solo = gen.build(spec)
        for op, got in zip(hist[i], results[i]):
            if op[0] == 'nolog':
                solo = Microgrid.load(solo.dump())
                continue
            want = perform(solo, spec, op)
            if got is not None:
                same_result(want, got, f'microgrid {i}: {op[0]}, compared with running alone')
        need_same(solo.state_dict(), mgs[i].state_dict(), f'microgrid {i}: final state')
        frames_same(solo.get_log(), mgs[i].get_log(), f'microgrid {i}: final log')
    switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
    ctx.nontrivial(len(set(order)) > 1 and switches > 0)
    ctx.label('tampered', tampered)


OPS = ['run'] * 5 + ['reset', 'log', 'query', 'new', 'new', 'tamper', 'shallow', 'loss', 'steps']


@st.composite
def inter_cases(draw):
    spec = draw(gen.microgrid_spec(min_n=3, max_n=7, max_ctrl=3, min_ctrl=1, max_loads=1, max_pv=1, forecasts=True))
    no_noise(spec)
    for m in spec['modules']:
        if (m.get('fc') or {}).get('kind') == 'gauss':
            m['fc'] = {'kind': 'oracle', 'h': m['fc']['h']}
    ops = []
    hows = ['modules', 'deepcopy', 'pickle', 'yaml']
    ops.append(['new', draw(st.sampled_from(hows)), 0, 0])
    steps = draw(gen.action_seq(spec, draw(st.integers(3, 10))))
    k = 0
    for _ in range(draw(st.integers(4, 16))):
        op = draw(st.sampled_from(OPS))
        arg = None
        if op == 'run':
            arg = steps[k % len(steps)]
            k += 1
        elif op == 'new':
            arg = draw(st.sampled_from(hows))
        ops.append([op, arg, draw(st.integers(0, 50)), draw(st.integers(0, 3))])
    return {'spec': spec, 'ops': ops}


def check_strangers(case, ctx):
    """Unrelated microgrids, alive at the same time, behave as if each were alone."""
    specs = case['specs']
    solo = []
    for i, spec in enumerate(specs):
        mg = gen.build(spec)
        solo.append(([perform(mg, spec, op) for op in case['ops'] if op[3] == i], mg.state_dict(), mg.get_log()))
    mgs = [gen.build(spec) for spec in specs]
    seen = [0, 0]
    for op in case['ops']:
        i = op[3]
        r = perform(mgs[i], specs[i], op)
        same_result(solo[i][0][seen[i]], r, f'microgrid {i}: op {seen[i]} ({op[0]}), compared with running alone')
        seen[i] += 1
    for i, mg in enumerate(mgs):
        need_same(solo[i][1], mg.state_dict(), f'microgrid {i}: final state')
        frames_same(solo[i][2], mg.get_log(), f'microgrid {i}: final log')
    ctx.nontrivial(min(seen) > 0)


@st.composite
def stranger_cases(draw):
    specs = [no_noise(draw(gen.microgrid_spec(min_n=3, max_n=6, max_ctrl=3, min_ctrl=1, max_loads=1, max_pv=1,
                                              forecasts=True))) for _ in range(2)]
    steps = [draw(gen.action_seq(sp, 3)) for sp in specs]
    ops = []
    for k in range(draw(st.integers(3, 12))):
        i = draw(st.integers(0, 1))
        op = draw(st.sampled_from(['run'] * 5 + ['reset', 'log', 'query', 'loss', 'steps']))
        ops.append([op, steps[i][k % 3] if op == 'run' else None, draw(st.integers(0, 50)), i])
    return {'specs': specs, 'ops': ops}


# ------------------------------------------------------------------------------------------------- wrapping


def check_wrap(case, ctx):
    """Environments, controllers and converters work on copies of the microgrid they are given."""
    from pymgrid.algos import RuleBasedControl
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    spec = case['spec']
    mg, solo = gen.build(spec), gen.build(spec)
    objs = []
    for kind in case['wrap']:
        if kind == 'd':
            objs.append(DiscreteMicrogridEnv.from_microgrid(mg))
        elif kind == 'c':
            objs.append(ContinuousMicrogridEnv.from_microgrid(mg))
        elif kind == 'r':
            objs.append(RuleBasedControl(mg))
    for i, (who, step, u) in enumerate(case['ops']):
        if who == 0 or not objs:
            if mg.current_step < mg.final_step:
                a = perform(mg, spec, ['run', step, 2 * i, 0], extra=i % 2 == 0)
                b = perform(solo, spec, ['run', step, 2 * i, 0], extra=False)
                need_same(b, a, f'op {i}: step of the wrapped microgrid')
        else:
            o = objs[who % len(objs)]
            seed_all(i)
            if isinstance(o, RuleBasedControl):
                o.run(max_steps=2)
                o.microgrid.reset()
            elif o.current_step < o.final_step:
                o.action_space.seed(i)
                o.step(o.action_space.sample())
            else:
                o.reset()
        need_same(solo.state_dict(), mg.state_dict(), f'op {i}: state of the wrapped microgrid')
        need(solo.current_step == mg.current_step, 'clock of the wrapped microgrid')
    frames_same(solo.get_log(), mg.get_log(), 'log of the wrapped microgrid')
    ctx.nontrivial(any(w for w, _, _ in case['ops']) and len(objs) > 0)


@st.composite
def wrap_cases(draw):
    spec = draw(gen.microgrid_spec(min_n=3, max_n=7, max_ctrl=3, min_ctrl=1, max_loads=1, max_pv=1, min_loads=1,
                                   forecasts=True, simple_genset=True))
    for m in spec['modules']:
        if (m.get('fc') or {}).get('kind') == 'gauss':
            m['fc'] = {'kind': 'oracle', 'h': m['fc']['h']}
    steps = draw(gen.action_seq(spec, draw(st.integers(3, 10))))
    return {'spec': spec, 'wrap': draw(st.lists(st.sampled_from('dcr'), min_size=1, max_size=2)),
            'ops': [[draw(st.integers(0, 2)), s, draw(gen.LEVEL)] for s in steps]}


# ------------------------------------------------------------------------------------------------- module inputs


def check_module_inputs(case, ctx):
    """Modules neither change the series given to them nor follow later changes of it."""
    m = case['m']
    arr = gen.grid_ts(m) if m['kind'] == 'grid' else np.array(m['ts'], dtype=float)
    if case['form'] == 'column' and arr.ndim == 1:
        arr = arr.reshape(-1, 1)
    if case['form'] == 'list' and m['kind'] == 'grid':
        return                                       # grids take arrays and frames
    if case['form'] == 'fortran':
        arr = np.asfortranarray(arr)
    given = pd.DataFrame(arr) if case['form'] == 'frame' else list(map(list, np.atleast_2d(arr.T).T)) \
        if case['form'] == 'list' else arr
    orig = copy.deepcopy(given)
    spec = {'init': 0, 'final': -1}
    mod = build_from(m, given, spec)
    ref = gen.build_module(m)
    same = np.array_equal(np.asarray(orig), np.asarray(given))
    need(same, 'construction changed the series')
    for k in range(case['steps']):
        if mod.current_step >= mod.final_step:
            break
        if k == case['spoil']:
            need(np.array_equal(np.asarray(orig), np.asarray(given)), 'running changed the series')
            if isinstance(given, pd.DataFrame):
                given.iloc[:, :] = 5.5
            elif isinstance(given, list):
                for row in given:
                    row[:] = [5.5] * len(row)
            else:
                given[:] = 5.5
        need_same(ref.state_dict(), mod.state_dict(), f'step {k}: state')
        if m['kind'] == 'grid':
            e = 0.3 * m['max_import']
            a, b = ref.step(e, normalized=False), mod.step(e, normalized=False)
        elif m['kind'] == 'pv':
            e = 0.5 * ref.max_production
            a, b = ref.step(e, normalized=False), mod.step(e, normalized=False)
        else:
            a, b = ref.step(0.0, normalized=False), mod.step(0.0, normalized=False)
        need_same(a, b, f'step {k}: result')
    ctx.nontrivial(case['steps'] > case['spoil'])


@st.composite
def module_cases(draw):
    n = draw(st.integers(3, 6))
    fc = draw(st.one_of(st.none(), st.integers(1, 3).map(lambda h: {'kind': 'oracle', 'h': h})))
    m = draw(st.one_of(gen.load_spec(n, 10.0, fc), gen.pv_spec(n, 10.0, fc), gen.grid_spec(n, 10.0, fc)))
    return {'m': m, 'form': draw(st.sampled_from(['array', 'column', 'frame', 'list', 'fortran'])),
            'steps': draw(st.integers(1, n)), 'spoil': draw(st.integers(0, n - 1))}


FACETS = [
    Facet('interleave', inter_cases, check_interleave, 300),
    Facet('strangers', stranger_cases, check_strangers, 150),
    Facet('wrap', wrap_cases, check_wrap, 150),
    Facet('module_inputs', module_cases, check_module_inputs, 200),
]
