"""C21: the module container."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Facet, Violation
from vlib.drive import need, need_close, need_same

PROPERTY = 'C21'
QUICK_FACTOR = 4
RULE = ('Random lists of modules of all kinds, with default, shared, own and colliding names in any order; every access '
        'path is compared with a reference grouping in which each module is identified by a unique parameter. '
        'Non-trivial: at least three modules and one name with several modules, or a refused collision.')
ASSUMPTIONS = ['names that are attributes or groups of the container are not used as module names; modules named '
               '"load" are reached through microgrid.modules, since Microgrid.load is a method']

ROLE = {'load': ('fixed', 'sinks'), 'pv': ('flex', 'sources'), 'battery': ('controllable', 'source_and_sinks'),
        'genset': ('controllable', 'sources'), 'grid': ('controllable', 'source_and_sinks'),
        'unbalanced': ('flex', 'source_and_sinks'), 'flexgrid': ('flex', 'source_and_sinks'),
        'backgrid': ('controllable', 'source_and_sinks')}
TS = ('load', 'pv', 'grid', 'flexgrid', 'backgrid')
FFC = ('fixed', 'flex', 'controllable')
SSB = ('sources', 'sinks', 'source_and_sinks')


def make(kind, i, n, fc):
    from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule,
                                 UnbalancedEnergyModule)
    v = float(i + 1)
    kw = {'forecaster': 'oracle', 'forecast_horizon': fc} if fc else {}
    ts = np.full(n, v)
    if kind == 'load':
        return LoadModule(time_series=ts, **kw)
    if kind == 'pv':
        return RenewableModule(time_series=ts, **kw)
    if kind == 'battery':
        return BatteryModule(min_capacity=0, max_capacity=10 * v, max_charge=1, max_discharge=1, efficiency=0.9,
                             battery_cost_cycle=v, init_soc=0.5)
    if kind == 'genset':
        return GensetModule(running_min_production=0, running_max_production=v, genset_cost=v)
    if kind in ('grid', 'flexgrid', 'backgrid'):
        grid = GridModule(max_import=v, max_export=v, time_series=np.full((n, 3), v), **kw)
        if kind != 'grid':
            grid.as_flex()
        if kind == 'backgrid':
            grid.as_fixed()
        return grid
    return UnbalancedEnergyModule(raise_errors=False, loss_load_cost=v, overgeneration_cost=1.0)


def mark(m):
    """The number the module was made with."""
    k = type(m).__name__
    v = {'LoadModule': lambda: abs(float(m.time_series[0, 0])), 'RenewableModule': lambda: float(m.time_series[0, 0]),
         'BatteryModule': lambda: m.battery_cost_cycle, 'GensetModule': lambda: m.genset_cost,
         'GridModule': lambda: m.max_import, 'UnbalancedEnergyModule': lambda: m.loss_load_cost}[k]()
    return int(round(v)) - 1


def marks(lst):
    return [mark(m) for m in lst]


def check_access(case, ctx):
    from pymgrid import Microgrid
    mods = [(nm or gen.default_name('grid' if k.endswith('grid') else k), k) for k, nm in case['modules']]
    objs = [(nm, make(k, i, case['n'], case['fc'])) if nm else make(k, i, case['n'], case['fc'])
            for i, (k, nm) in enumerate(case['modules'])]
    by, roles = {}, {}
    for i, (nm, k) in enumerate(mods):
        by.setdefault(nm, []).append(i)
        roles.setdefault(nm, set()).add(ROLE[k])
    if case['slack']:
        by.setdefault('balancing', []).append(None)
        roles.setdefault('balancing', set()).add(ROLE['unbalanced'])
    bad = any(len(r) > 1 for r in roles.values())
    try:
        mg = Microgrid(objs if not case['as_tuple'] or case['slack'] else list(objs), add_unbalanced_module=case['slack'],
                       loss_load_cost=9999.0)
    except NameError:
        need(bad, 'names %r were refused', by)
        ctx.nontrivial(True)
        ctx.label('refused', True)
        return
    need(not bad, 'one name for modules of different roles was accepted: %r', {k: v for k, v in roles.items() if len(v) > 1})
    want = {nm: [9998 if i is None else i for i in lst] for nm, lst in by.items()}
    kinds = {i: k for i, (nm, k) in enumerate(mods)}
    kinds[9998] = 'unbalanced'
    name_of = {i: (nm, j) for nm, lst in want.items() for j, i in enumerate(lst)}
    total = sum(len(v) for v in want.values())
    c = mg.modules
    need(set(c.names()) == set(want) and len(c.names()) == len(want), 'names() is %r', c.names())
    need(len(c) == total and mg.n_modules == total, 'number of modules is %r / %r, expected %d', len(c), mg.n_modules, total)
    allowed = sorted(name_of)
    for what, lst in (('to_list', c.to_list()), ('iterlist', list(c.iterlist())), ('module_list', mg.module_list)):
        need(sorted(marks(lst)) == allowed, '%s has modules %r, expected %r', what, marks(lst), allowed)
        need(len({id(m) for m in lst}) == total, '%s repeats a module', what)
    for what, d in (('to_dict', c.to_dict()), ('iterdict', dict(c.iterdict()))):
        need({k: marks(v) for k, v in d.items()} == want, '%s is %r, expected %r', what,
             {k: marks(v) for k, v in d.items()}, want)
    tup = [(nm, mark(m)) for nm, m in c.to_tuples()]
    need(sorted(tup) == sorted((nm, i) for nm in want for i in want[nm]), 'to_tuples is %r', tup)
    for nm in want:
        need([i for n2, i in tup if n2 == nm] == want[nm], 'to_tuples has modules of %s in order %r', nm, tup)
        paths = [('modules[...]', c[nm])]
        paths += [('modules.name', getattr(c, nm))] if not hasattr(type(c), nm) else []
        paths += [('microgrid.name', getattr(mg, nm))] if not hasattr(type(mg), nm) else []  # Microgrid.load is a method
        for what, lst in paths:
            need(marks(lst) == want[nm], '%s for %s is %r, expected %r', what, nm, marks(lst), want[nm])
            need(all(x is y for x, y in zip(lst, c.to_dict()[nm])), '%s for %s is a copy', what, nm)
        need(nm in c and nm in dir(c) and nm in dir(mg), '%s is not listed', nm)
        for j, m in enumerate(c[nm]):
            need(tuple(m.name) == (nm, j), 'module %s[%d] is named %r', nm, j, m.name)
        if len(want[nm]) == 1:
            need(c[nm].item() is c[nm][0], 'item() of %s', nm)
        else:
            try:
                c[nm].item()
            except ValueError:
                pass
            else:
                raise Violation(f'item() of {nm} with {len(want[nm])} modules')
    # groups
    for f in FFC:
        g = {nm: lst for nm, lst in want.items() if ROLE[kinds[lst[0]]][0] == f}
        grp = getattr(c, f)
        need({k: marks(v) for k, v in grp.to_dict().items()} == g, 'modules.%s is %r, expected %r', f,
             {k: marks(v) for k, v in grp.to_dict().items()}, g)
        need({k: marks(v) for k, v in getattr(mg, f).iterdict()} == g, 'microgrid.%s differs', f)
        need(sorted(marks(grp.to_list())) == sorted(i for v in g.values() for i in v), 'modules.%s.to_list()', f)
        for s in SSB:
            gs = {nm: lst for nm, lst in g.items() if ROLE[kinds[lst[0]]][1] == s}
            for sub in (grp[s], c[s][f], getattr(grp, s), getattr(getattr(c, s), f)):
                need({k: marks(v) for k, v in sub.items()} == gs, 'group %s.%s is %r, expected %r', f, s,
                     {k: marks(v) for k, v in sub.items()}, gs)
    for s in SSB:
        g = {nm: lst for nm, lst in want.items() if ROLE[kinds[lst[0]]][1] == s}
        need({k: marks(v) for k, v in c[s].to_dict().items()} == g, 'modules.%s differs', s)
    for missing in ('nosuchmodule', 'wind'):
        need(missing not in c, '%s is in the container', missing)
        try:
            c[missing]
        except KeyError:
            pass
        else:
            raise Violation(f'modules[{missing!r}] did not fail')
        try:
            getattr(mg, missing)
        except AttributeError:
            pass
        else:
            raise Violation(f'microgrid.{missing} did not fail')
    # attributes and state
    d = c.get_attrs('current_step', 'max_capacity', as_pandas=False)
    need({k: len(v) for k, v in d.items()} == {k: len(v) for k, v in want.items()}, 'get_attrs covers %r', list(d))
    any_batt = False
    for nm in want:
        for j, i in enumerate(want[nm]):
            need(d[nm][j]['current_step'] == 0, 'current_step of %s[%d]', nm, j)
            if kinds[i] == 'battery':
                any_batt = True
                need_close(d[nm][j]['max_capacity'], 10.0 * (i + 1), f'max_capacity of {nm}[{j}]')
            else:
                need(d[nm][j]['max_capacity'] is NotImplemented, 'max_capacity of %s[%d]', nm, j)
    if any_batt:
        df = c.get_attrs('max_capacity')
        for nm in want:
            for j, i in enumerate(want[nm]):
                v = df.loc[(nm, j), 'max_capacity']
                need(v == 10.0 * (i + 1) if kinds[i] == 'battery' else v is NotImplemented, 'max_capacity of %s[%d]: %r',
                     nm, j, v)
        caps = {10.0 * (i + 1) for i, k in kinds.items() if k == 'battery' and i in name_of}
        try:
            u = c.get_attrs('max_capacity', unique=True)
            need(len(caps) == 1 and u.item() in caps, 'unique max_capacity %r of %r', u, caps)
        except ValueError:
            need(len(caps) > 1, 'max_capacity is unique but was refused')
    odd = c.to_list()[case['pick'] % total]  # a value that happens to be None is a value
    kept = odd.raise_errors
    odd.raise_errors = None
    key = tuple(odd.name)
    got = c.get_attrs('raise_errors', 'current_step')
    need(pd.isna(got.loc[key, 'raise_errors']) and len(got) == total, 'get_attrs of a None attribute: %r', got)
    if total == 1:
        u = c.get_attrs('raise_errors', unique=True)
        need(pd.isna(u.item()), 'raise_errors is None everywhere, but unique gives %r', u)
    else:
        try:
            u = c.get_attrs('raise_errors', unique=True)
        except ValueError:
            pass
        else:
            raise Violation(f'raise_errors of {odd.name} is None and of others {kept!r}, but unique gives {u!r}')
    odd.raise_errors = kept
    try:
        c.get_attrs('no_such_attribute')
    except AttributeError:
        pass
    else:
        raise Violation('get_attrs of a missing attribute did not fail')
    sd, ss = mg.state_dict(), mg.state_series()
    need({k: len(v) for k, v in sd.items()} == {k: len(v) for k, v in want.items()}, 'state_dict covers %r', list(sd))
    nkeys = 0
    for nm in want:
        for j, i in enumerate(want[nm]):
            own = c[nm][j].state_dict()
            need_same(own, sd[nm][j], f'state of {nm}[{j}]')
            nkeys += len(own)
            for k, v in own.items():
                need(ss[(nm, j, k)] == v, 'state_series of %s[%d] %s: %r, expected %r', nm, j, k, ss[(nm, j, k)], v)
            if kinds[i] == 'battery':
                need_close(sd[nm][j]['current_charge'], 5.0 * (i + 1), f'charge of {nm}[{j}]')
            if kinds[i] == 'pv':
                need_close(sd[nm][j]['renewable_current'], i + 1.0, f'renewable of {nm}[{j}]')
            if kinds[i] == 'load':
                need_close(abs(sd[nm][j]['load_current']), i + 1.0, f'load of {nm}[{j}]')
    need(len(ss) == nkeys, 'state_series has %d entries, expected %d', len(ss), nkeys)
    ci = mg.get_cost_info()
    need(set(ci) == set(want), 'cost info covers %r', list(ci))
    for nm in want:
        need(len(ci[nm]) == len(want[nm]), 'cost info of %s has %d entries', nm, len(ci[nm]))
        for j, i in enumerate(want[nm]):
            if kinds[i] == 'genset':
                need_close(ci[nm][j]['production_marginal_cost'], i + 1.0, f'marginal cost of {nm}[{j}]')
    # setting attributes
    mg.set_module_attr('raise_errors', True)
    need(all(m.raise_errors for m in c.iterlist()), 'set_module_attr missed a module')
    u = c.get_attrs('raise_errors', unique=True)
    need(u.item() == True, 'raise_errors is True everywhere, but unique gives %r', u)
    if total > 1:
        odd = c.to_list()[-1 - case['pick'] % total]
        odd.raise_errors = False
        try:
            u = c.get_attrs('raise_errors', unique=True)
        except ValueError:
            pass
        else:
            raise Violation(f'raise_errors of {odd.name} differs from the others, but unique gives {u!r}')
        odd.raise_errors = True
    if any_batt:
        mg.set_module_attr('max_charge', 0.25)
        for m in c.iterlist():
            need(hasattr(m, 'max_charge') == (type(m).__name__ == 'BatteryModule') and getattr(m, 'max_charge', 0.25) == 0.25,
                 'set_module_attr on %r', m.name)
    try:
        mg.set_module_attr('no_such_attribute', 1)
    except AttributeError:
        pass
    else:
        raise Violation('set_module_attr of a missing attribute did not fail')
    # forecasters by name
    ts_names = [nm for nm in want if kinds[want[nm][0]] in TS]
    if ts_names:
        tgt = ts_names[case['pick'] % len(ts_names)]
        before = {(nm, j): getattr(m, 'forecast_horizon', None) for nm in want for j, m in enumerate(c[nm])}
        mg.set_forecaster({tgt: 'oracle'}, forecast_horizon=2)
        for nm in want:
            for j, m in enumerate(c[nm]):
                if nm == tgt and kinds[want[nm][j]] in TS:
                    need(m.forecast_horizon == 2, 'forecaster of %s[%d] was not set', nm, j)
                elif nm != tgt:
                    need(getattr(m, 'forecast_horizon', None) == before[nm, j], 'forecaster of %s[%d] was set', nm, j)
        try:
            mg.set_forecaster({'nosuchmodule': 'oracle'})
        except NameError:
            pass
        else:
            raise Violation('set_forecaster of an unknown module did not fail')
    ctx.nontrivial(total > 2 and any(len(v) > 1 for v in want.values()))
    ctx.label('slack', case['slack'])


POOL = ['alpha', 'bravo', 'load', 'renewable', 'battery', 'genset', 'grid', 'balancing', 'pv', 'my module', 'Big_Battery',
        'load_1', '7']


@st.composite
def access_cases(draw):
    n = draw(st.integers(1, 7))
    wild = draw(st.integers(0, 2)) == 0
    mods = []
    for i in range(n):
        k = draw(st.sampled_from(['load', 'pv', 'battery', 'genset', 'grid', 'grid', 'unbalanced', 'flexgrid',
                                 'backgrid']))
        nm = draw(st.one_of(st.none(), st.sampled_from(POOL)))
        if not wild and nm is not None:
            nm = {'load': 'alpha', 'pv': 'bravo', 'battery': 'store', 'genset': 'gen', 'grid': 'store',
                  'unbalanced': 'slack', 'flexgrid': 'slack', 'backgrid': 'store'}[k] + draw(st.sampled_from(['', '1']))
        mods.append([k, nm])
    if not any(k in TS for k, _ in mods):
        mods.append(['load', None])
    return {'modules': mods, 'n': draw(st.integers(3, 5)), 'fc': draw(st.sampled_from([0, 0, 1])),
            'slack': draw(st.booleans()), 'as_tuple': draw(st.booleans()), 'pick': draw(st.integers(0, 5))}


def check_refuse(case, ctx):
    """Things that are not modules are refused."""
    from pymgrid import Microgrid
    good = make('load', 0, 4, 0)
    bad = {'string': 'load', 'none': None, 'number': 3, 'pair': ('load', 'load'), 'notlist': None}[case['what']]
    mods = [good, bad] if case['at'] else [bad, good]
    try:
        Microgrid(good if case['what'] == 'notlist' else mods, add_unbalanced_module=case['slack'])
    except Exception:
        ctx.nontrivial(True)
        return
    raise Violation(f'{case["what"]} was accepted as a module')


@st.composite
def refuse_cases(draw):
    return {'what': draw(st.sampled_from(['string', 'none', 'number', 'pair', 'notlist'])), 'at': draw(st.booleans()),
            'slack': draw(st.booleans())}


FACETS = [
    Facet('access', access_cases, check_access, 600),
    Facet('refuse', refuse_cases, check_refuse, 40),
]
