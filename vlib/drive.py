"""Drive a microgrid through an episode and record everything a user can observe at each step."""
import copy

import numpy as np

from vlib import gen
from vlib.core import Violation


class Rec:
    pass


def energies(info):
    return float(info.get('provided_energy', 0.0)), float(info.get('absorbed_energy', 0.0))


def close(a, b, scale=1.0, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(scale), abs(float(a)), abs(float(b)))


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def need_close(a, b, what, scale=1.0, tol=1e-9):
    a, b = float(a), float(b)
    if not (abs(a - b) <= tol * max(1.0, abs(scale), abs(a), abs(b))):
        raise Violation(f'{what}: got {a!r}, expected {b!r}')


def snapshot(spec, mg):
    pre = {}
    for nm, j, m in gen.index(spec):
        mod = mg.modules[nm][j]
        d = {'state': dict(mod.state_dict()), 'step': mod.current_step}
        if mod.is_source:
            d['maxp'] = float(mod.max_production)
            d['minp'] = float(mod.min_production)
        if mod.is_sink:
            d['maxc'] = float(mod.max_consumption)
        pre[nm, j] = d
    return pre


def log_len(mod):
    d = mod.log_dict()
    return max((len(v) for v in d.values()), default=0)


def run_episode(case, mg=None, reset=False, normalized=False, stop_on_done=True, **kwargs):
    """Yield (mg, rec) after every step. Requests are un-normalized unless ``normalized``."""
    spec = case['spec']
    mg = gen.build(spec, **kwargs) if mg is None else mg
    if reset:
        mg.reset()
    for k, step in enumerate(case['actions']):
        r = Rec()
        r.k = k
        r.t = mg.current_step
        r.pre = snapshot(spec, mg)
        r.control = gen.resolve(spec, mg, step)
        given = copy.deepcopy(r.control)
        if normalized:
            given = mg.to_normalized(given, act=True)
            r.normalized_control = given
        r.obs, r.reward, r.done, r.info = mg.run(given, normalized=normalized)
        yield mg, r
        if r.done and stop_on_done:
            break


def module_infos(spec, rec, slack_name='balancing'):
    """[(name, number, spec or None, info)] for every module of the microgrid, the slack included."""
    out = []
    for nm, j, m in gen.index(spec):
        need(nm in rec.info, 'step info has no entry for module %s', nm)
        need(len(rec.info[nm]) > j, 'step info for %s has %d entries, module %d missing', nm, len(rec.info[nm]), j)
        out.append((nm, j, m, rec.info[nm][j]))
    if spec['slack']:
        need(slack_name in rec.info, 'step info has no entry for the balancing module')
        out.append((slack_name, 0, None, rec.info[slack_name][0]))
    return out


def scale_of(spec, rec):
    """Magnitude of the energies of a step, for tolerances."""
    s = abs(spec['scale'])
    for v in rec.control.values():
        for a in v:
            s = max(s, abs(float(np.asarray(a).reshape(-1)[-1])))
    return s


def same(a, b, tol=1e-9):
    """Deep comparison of observations, infos, logs: dicts, lists, arrays, numbers; None if equal, else a path."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or list(a.keys()) != list(b.keys()):
            return f': {a!r} vs {b!r}'
        for k in a:
            d = same(a[k], b[k], tol)
            if d:
                return f'[{k!r}]{d}'
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not (
            all(np.isscalar(x) for x in a) and all(np.isscalar(x) for x in b)):
        if len(a) != len(b):
            return f': {a!r} vs {b!r}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return f'[{i}]{d}'
        return None
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if a is b or a == b else f': {a!r} vs {b!r}'
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return None if a == b else f': {a!r} vs {b!r}'
    if x.shape != y.shape and x.size + y.size != 2:
        return f': shapes {x.shape} vs {y.shape}'
    with np.errstate(invalid='ignore'):
        ok = (np.isnan(x) & np.isnan(y)) | (x == y) | \
            (np.abs(x - y) <= tol * np.maximum(1.0, np.maximum(np.abs(x), np.abs(y))))
    return None if np.all(ok) else f': {a!r} vs {b!r}'


def need_same(a, b, what, tol=1e-9):
    d = same(a, b, tol)
    if d:
        raise Violation(f'{what}{d}')


def frames_same(a, b, what, tol=1e-9):
    """Two logs as DataFrames: same index, columns (any order) and values."""
    need(list(a.index) == list(b.index), '%s: index %r vs %r', what, list(a.index), list(b.index))
    need(set(a.columns) == set(b.columns) and len(a.columns) == len(b.columns), '%s: columns differ: %r', what,
         set(a.columns) ^ set(b.columns))
    for c in a.columns:
        need_same(np.asarray(a[c], dtype=float), np.asarray(b[c], dtype=float), f'{what}: column {c}', tol)
