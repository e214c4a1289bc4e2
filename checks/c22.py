"""C22: the built-in reward shapers."""
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Facet
from vlib.drive import energies, need, need_close, run_episode

PROPERTY = 'C22'
QUICK_FACTOR = 2
RULE = ('Random microgrids with up to three renewables, batteries and loads under their default and documented names, '
        'run with each built-in shaper as a microgrid attribute, given late, or in an environment; and random step '
        'infos passed to the shapers directly. Scores are recomputed from time series, battery charges and slack '
        'energies. Non-trivial: the score is neither 0 nor the unshaped reward.')
ASSUMPTIONS = ['renewables are named "renewable" or "pv", batteries "battery", loads "load", the balancing module '
               '"balancing" or "unbalanced_energy"; modules under other names are not scored']


def shaper(kind):
    from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper, PVCurtailmentShaper
    return {'pv': PVCurtailmentShaper, 'battery': BatteryDischargeShaper}[kind]()


def want_score(kind, curtailed, discharged, load, loss):
    if kind == 'pv':
        return -curtailed
    if load == 0:
        return 0.0
    return min(1.0, max(-1.0, (discharged - loss) / load))


def check_episode(case, ctx):
    from pymgrid.modules import UnbalancedEnergyModule
    spec, kind = case['spec'], case['shaper']
    sh = shaper(kind)
    if case['slack_name']:
        from pymgrid import Microgrid
        mods = gen.build_modules(spec) + [(case['slack_name'], UnbalancedEnergyModule(
            raise_errors=False, initial_step=spec.get('init', 0)))]
        mg = Microgrid(mods, add_unbalanced_module=False, reward_shaping_func=None if case['late'] else sh)
    else:
        mg = gen.build(spec, **({} if case['late'] else {'reward_shaping_func': sh}))
    if case['late']:
        mg.reward_shaping_func = sh
    slack = case['slack_name'] or 'balancing'
    scored = {'pv': ('pv', 'renewable'), 'battery': ('battery',), 'load': ('load',)}
    idx = gen.index(spec)
    for mg, rec in run_episode(case, mg=mg):
        what = f'step {rec.k}'
        curtailed = discharged = load = 0.0
        for nm, j, m in idx:
            p, a = energies(rec.info[nm][j])
            if m['kind'] == 'pv':
                c = float(m['ts'][rec.t]) - p
                if nm in scored['pv']:
                    curtailed += c
            elif m['kind'] == 'battery' and nm in scored['battery']:
                drop = rec.pre[nm, j]['state']['current_charge'] - mg.modules[nm][j].current_charge
                if drop > 0:
                    discharged += drop * m['efficiency']
            elif m['kind'] == 'load' and nm in scored['load']:
                load += float(m['ts'][rec.t])
        loss = energies(rec.info[slack][0])[0]
        score = want_score(kind, curtailed, discharged, load, loss)
        # near-zero loads make the quotient ill-conditioned
        tol = 1e-9 * max(1.0, abs(spec['scale']) / load if kind == 'battery' and load else 1.0)
        if tol > 1e-3:
            continue
        need_close(rec.reward, score, f'{what}: {kind} score (curtailed {curtailed}, discharged {discharged}, load {load}, '
                                      f'loss {loss})', spec['scale'] if kind == 'pv' else 1.0, tol)
        if kind == 'battery':
            need(-1 <= rec.reward <= 1, '%s: score %r outside [-1, 1]', what, rec.reward)
        log = mg.get_log()
        need_close(log[('balance', 0, 'shaped_reward')].iloc[-1], rec.reward, f'{what}: logged score')
        unshaped = log[('balance', 0, 'reward')].iloc[-1]
        ctx.nontrivial(abs(score) > 1e-12 and abs(unshaped - score) > 1e-12)
        ctx.label(kind + ' score', abs(score) > 1e-12)
        ctx.label('clipped', kind == 'battery' and abs(score) == 1.0)
        ctx.label('no load', load == 0)
        ctx.label('loss load', loss > 0)


@st.composite
def episode_cases(draw):
    spec = draw(gen.microgrid_spec(min_loads=draw(st.sampled_from([0, 1, 1, 1])), max_n=8, max_loads=3, max_pv=3, max_batt=3, max_genset=1, max_grid=1, names=False))
    c = {'spec': spec}
    pv_names = draw(st.sampled_from([[None], ['pv'], [None, 'pv'], ['pv', 'wind'], ['wind']]))
    for m in spec['modules']:
        if m['kind'] == 'pv':
            nm = draw(st.sampled_from(pv_names))
            if nm:
                m['name'] = nm
        if m['kind'] in ('battery', 'load') and draw(st.integers(0, 7)) == 0:
            m['name'] = 'other_' + m['kind']
    c['actions'] = draw(gen.action_seq(spec, draw(st.integers(1, min(6, gen.n_steps_available(spec))))))
    own = spec['slack'] and draw(st.booleans())
    c['slack_name'] = None
    if own or not spec['slack']:
        spec['slack'] = False
        c['slack_name'] = draw(st.sampled_from(['unbalanced_energy', 'balancing']))
    c['shaper'] = draw(st.sampled_from(['pv', 'battery', 'battery']))
    c['late'] = draw(st.booleans())
    return c


def check_direct(case, ctx):
    """The shapers as functions of a step info."""
    info = {k: [dict(d) for d in v] for k, v in case['info'].items()}
    s = lambda nm, f: sum(d.get(f, 0.0) for d in info.get(nm, []))  # noqa: E731
    got = shaper(case['shaper'])(info, case['cost'])
    want = want_score(case['shaper'], s('pv', 'curtailment') + s('renewable', 'curtailment'), s('battery', 'provided_energy'),
                      s('load', 'absorbed_energy'),
                      s('balancing', 'provided_energy') + s('unbalanced_energy', 'provided_energy'))
    need_close(got, want, f'{case["shaper"]} score of {case["info"]!r}', case['scale'])
    need({k: [dict(d) for d in v] for k, v in case['info'].items()} == info, 'step info was altered')
    ctx.nontrivial(want != 0)


@st.composite
def direct_cases(draw):
    scale = draw(st.sampled_from([1.0, 10.0, 1000.0]))
    amount = st.one_of(st.just(0.0), gen.POS_LEVEL.map(lambda u: u * scale))
    info = {}
    for nm, fields in (('pv', ['provided_energy', 'curtailment']), ('renewable', ['provided_energy', 'curtailment']),
                       ('battery', ['provided_energy', 'absorbed_energy']), ('load', ['absorbed_energy']),
                       ('balancing', ['provided_energy', 'absorbed_energy']),
                       ('unbalanced_energy', ['provided_energy', 'absorbed_energy']), ('genset', ['provided_energy']),
                       ('grid', ['provided_energy', 'absorbed_energy'])):
        n = draw(st.integers(0, 3))
        if n:
            info[nm] = [{f: draw(amount) for f in fields if draw(st.integers(0, 3))} for _ in range(n)]
    load = sum(d.get('absorbed_energy', 0.0) for d in info.get('load', []))
    if 0 < load < 1e-3 * scale:
        info['load'] = []
    return {'info': info, 'cost': {}, 'shaper': draw(st.sampled_from(['pv', 'battery'])), 'scale': scale}


def check_env(case, ctx):
    """An environment returns the shaped reward of the microgrid it wraps."""
    from pymgrid.envs import DiscreteMicrogridEnv
    spec = case['spec']
    mg = gen.build(spec, reward_shaping_func=shaper(case['shaper']))
    env = DiscreteMicrogridEnv.from_microgrid(mg)
    env.reset()
    for a in case['picks']:
        t = env.current_step
        pre = {(nm, j): env.modules[nm][j].current_charge for nm, j, m in gen.index(spec) if m['kind'] == 'battery'}
        _, reward, done, info = env.step(a % env.action_space.n)
        curtailed = sum(float(m['ts'][t]) - energies(info[nm][j])[0] for nm, j, m in gen.index(spec) if m['kind'] == 'pv')
        discharged = sum(max(0.0, pre[nm, j] - env.modules[nm][j].current_charge) * m['efficiency']
                         for nm, j, m in gen.index(spec) if m['kind'] == 'battery')
        load = sum(float(m['ts'][t]) for nm, j, m in gen.index(spec) if m['kind'] == 'load')
        loss = energies(info['balancing'][0])[0]
        tol = 1e-9 * max(1.0, abs(spec['scale']) / load if case['shaper'] == 'battery' and load else 1.0)
        score = want_score(case['shaper'], curtailed, discharged, load, loss)
        if tol < 1e-3:
            need_close(reward, score, f'environment step at {t}: {case["shaper"]} score', spec['scale'], tol)
        ctx.nontrivial(abs(score) > 1e-12)
        if done:
            break


@st.composite
def env_cases(draw):
    c = draw(gen.episode(max_steps=1, max_n=6, max_loads=2, max_pv=2, max_batt=2, max_genset=1, max_grid=1, min_ctrl=1,
                         max_ctrl=3, names=False))
    c['spec']['slack'] = True
    c['picks'] = draw(st.lists(st.integers(0, 719), min_size=1, max_size=5))
    c['shaper'] = draw(st.sampled_from(['pv', 'battery']))
    return c


FACETS = [
    Facet('episode', episode_cases, check_episode, 1600),
    Facet('direct', direct_cases, check_direct, 600),
    Facet('env', env_cases, check_env, 200),
]
