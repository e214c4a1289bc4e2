"""C01: every step balances energy, and the balance log reports it."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, scen
from vlib.core import Facet, Violation
from vlib.drive import energies, module_infos, need, need_close, run_episode, scale_of

PROPERTY = 'C01'
RULE = ('Random microgrids (0-2 loads, 0-2 renewables, 0-2 each of batteries, gensets, grids; custom/shared names; '
        'weak grids; non-zero initial step) driven by random requests inside and outside the limits, normalized and '
        'un-normalized, with and without a balancing module, plus windows of the 25 benchmark scenarios. '
        'Non-trivial: at least one step moved a non-zero amount of energy through two or more modules.')
ASSUMPTIONS = ['energies of a step are read from the info returned by run() and from the public logs',
               'tolerance 1e-9 relative to the energies of the step (1e-5 where no balancing module exists, the '
               'tolerance the library itself documents through np.isclose)']

FIXED, CTRL = ('load',), ('battery', 'genset', 'grid')


def totals(spec, rec):
    t = {'fixed': [0.0, 0.0], 'controllable': [0.0, 0.0], 'overall': [0.0, 0.0]}
    movers = 0
    for nm, j, m, info in module_infos(spec, rec):
        p, a = energies(info)
        need(np.isfinite(p) and np.isfinite(a), 'non-finite energy reported by %s[%d]: %r', nm, j, info)
        need(p >= -1e-9 and a >= -1e-9, 'negative energy reported by %s[%d]: %r', nm, j, info)
        movers += (p > 1e-9) + (a > 1e-9)
        kind = m['kind'] if m else 'slack'
        for key in ['overall'] + (['fixed'] if kind in FIXED else ['controllable'] if kind in CTRL else []):
            t[key][0] += p
            t[key][1] += a
    return t, movers


def check_log(mg, expected, scale):
    log = mg.get_log()
    need(len(log) == len(expected), 'log has %d rows after %d steps', len(log), len(expected))
    for row, t in enumerate(expected):
        for key, (p, a) in t.items():
            need_close(log[('balance', 0, key + '_provided_to_microgrid')].iloc[row], p,
                       f'balance log {key}_provided_to_microgrid, row {row}', scale)
            need_close(log[('balance', 0, key + '_absorbed_from_microgrid')].iloc[row], a,
                       f'balance log {key}_absorbed_from_microgrid, row {row}', scale)


def check_balanced(case, ctx):
    spec = case['spec']
    expected, scale = [], 1.0
    for mg, rec in run_episode(case, normalized=case.get('normalized', False)):
        t, movers = totals(spec, rec)
        scale = max(scale, scale_of(spec, rec))
        need_close(t['overall'][0], t['overall'][1], f'step {rec.k}: energy provided vs absorbed', scale)
        expected.append(t)
        ctx.nontrivial(movers >= 2)
    ctx.label('multi-step', len(expected) > 1)
    check_log(mg, expected, scale)


def check_noslack(case, ctx):
    spec = case['spec']
    expected, scale = [], spec['scale']
    mg = gen.build(spec)
    it = run_episode(case, mg=mg)
    while True:
        try:
            mg, rec = next(it)
        except StopIteration:
            break
        except RuntimeError:
            # refused: the energies of the refused step must really not balance
            log = mg.get_log()
            p = float(log[('balance', 0, 'overall_provided_to_microgrid')].iloc[-1])
            a = float(log[('balance', 0, 'overall_absorbed_from_microgrid')].iloc[-1])
            mp = ma = 0.0
            for nm, j, m in gen.index(spec):
                mod = mg.modules[nm][j]
                d = mod.log_dict()
                if mod.provided_energy_name:
                    mp += float(d[mod.provided_energy_name][-1])
                if mod.absorbed_energy_name:
                    ma += float(d[mod.absorbed_energy_name][-1])
            need_close(p, mp, 'refused step: logged overall provided energy', scale)
            need_close(a, ma, 'refused step: logged overall absorbed energy', scale)
            need(abs(mp - ma) > 1e-9 * max(1.0, scale), 'balanced step (%r vs %r) refused with RuntimeError', mp, ma)
            ctx.label('refused')
            ctx.nontrivial()
            return
        t, movers = totals(spec, rec)
        p, a = t['overall']
        need(abs(p - a) <= 1e-8 + 1e-5 * abs(a), 'step %d returned although it provides %r and absorbs %r',
             rec.k, p, a)
        expected.append(t)
        ctx.label('closed')
        ctx.nontrivial(movers >= 2)
    check_log(mg, expected, scale)


def check_scenario(case, ctx):
    mg = scen.scenario_at(case['scenario'], case['start'])
    tot = []
    for k, u in enumerate(case['actions']):
        _, _, done, info = mg.run(scen.control(mg, u), normalized=False)
        p = a = 0.0
        for name, lst in info.items():
            for i in lst:
                e = energies(i)
                p += e[0]
                a += e[1]
        need_close(p, a, f'scenario {case["scenario"]} step {k}: provided vs absorbed', 1e4)
        tot.append({'overall': [p, a]})
        ctx.nontrivial(p > 0)
        if done:
            break
    check_log(mg, tot, 1e4)


@st.composite
def noslack(draw):
    spec = draw(gen.microgrid_spec(slack=False, min_ctrl=1, simple_genset=True))
    spec['slack'] = False
    ns = draw(st.integers(1, gen.n_steps_available(spec)))
    return {'spec': spec, 'actions': draw(gen.feasible_seq(spec, ns))}


@st.composite
def normalized(draw):
    c = draw(gen.episode(forecasts=True))
    c['normalized'] = True
    return c


FACETS = [
    Facet('random-requests', lambda: gen.episode(forecasts=True, callable_cost=True), check_balanced, 4000),
    Facet('long', lambda: gen.long_episode(forecasts=True, callable_cost=True), check_balanced, 120),
    Facet('normalized-requests', normalized, check_balanced, 1600),
    Facet('no-balancing-module', noslack, check_noslack, 2400),
    Facet('scenario-windows', scen.window, check_scenario, 200),
]
