"""Check runner: drives hypothesis over JSON-able cases, shards over processes, writes evidence and replays.

A check module (checks/cNN.py) defines

    PROPERTY  = 'C01'
    FACETS    = [Facet(...), ...]
    ASSUMPTIONS = [...]                       (optional)
    PROBES    = {finding_id: callable}        (optional, see known_findings.json)

A facet's ``strategy()`` yields plain JSON values; ``check(case, ctx)`` raises Violation (or lets an exception
of the code under test escape) when the property is broken on that case.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'
NSHARDS = 8
CASE_TIMEOUT = 150          # seconds; cases take milliseconds, only a non-terminating call gets here
SHRINK_BUDGET = 45          # seconds of shrinking per failing facet
SHARD_BUDGET = {'quick': 420, 'thorough': 6000}


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, rule=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule

    def budget(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


class Ctx:
    def __init__(self):
        self.is_nontrivial = False
        self.labels = set()
        self.replay = False

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _canon(case):
    return json.dumps(case, sort_keys=True)


def _h64(text):
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def _seed_int(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=6).digest(), 'big')


def seed_case(text):
    """Every case runs with RNGs that depend on the case only."""
    import numpy as np
    s = _seed_int('case', text) % (2 ** 32)
    np.random.seed(s)
    random.seed(s)


def _alarm(signum, frame):
    raise CaseTimeout()


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, CaseTimeout):
        return f'case did not terminate within {CASE_TIMEOUT} s'
    tb = traceback.extract_tb(exc.__traceback__)
    last = [f for f in tb if '/src/pymgrid/' in f.filename] or list(tb)
    loc = f'{last[-1].filename}:{last[-1].lineno} in {last[-1].name}' if last else '?'
    return f'unexpected {type(exc).__name__}: {str(exc)[:400]} (at {loc})'


def run_case(facet, case, ctx, timeout=CASE_TIMEOUT):
    """Run one case. Returns None or the exception that shows the violation."""
    text = _canon(case)
    case = json.loads(text)
    seed_case(text)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        facet.check(case, ctx)
    except (Exception, CaseTimeout) as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        return e
    finally:
        signal.alarm(0)
    return None


def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())


def corpus_files(prop):
    d = os.path.join(HERE, 'corpus', prop)
    if not os.path.isdir(d):
        return []
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.json'))


def make_wrapper(facet, st, hashes, fails, t_fail, t_start, tier, result):
    def wrapper(case):
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_BUDGET:
            return
        if t_fail[0] is None and time.time() - t_start > SHARD_BUDGET[tier]:
            result['truncated'] = True
            return
        ctx = Ctx()
        exc = run_case(facet, case, ctx)
        text = _canon(case)
        if t_fail[0] is None:
            st['evaluations'] += 1
            for lab in ctx.labels:
                st['labels'][lab] += 1
            if ctx.is_nontrivial:
                st['nontrivial'] += 1
                h = _h64(facet.name + text)
                if h not in hashes:
                    hashes.add(h)
                    if len(st['samples']) < 2 and len(text) < 4000:
                        st['samples'].append(json.loads(text))
        if exc is not None:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            fails.append((len(text), text, describe(exc)))
            raise Violation(describe(exc))

    return wrapper


def run_shard(prop, shard, tier, seed, out, only=None, scale=1.0):
    from vlib.boot import boot
    boot()
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    mod = load_check(prop)
    t_start = time.time()
    result = {'shard': shard, 'facets': {}, 'failures': [], 'truncated': False}

    def save():
        with open(out + '.tmp', 'w') as f:
            json.dump(result, f)
        os.replace(out + '.tmp', out)

    facets = [f for f in mod.FACETS if only is None or f.name in only]
    by_name = {f.name: f for f in mod.FACETS}

    if shard == 0:
        for path in corpus_files(prop):
            with open(path) as f:
                entry = json.load(f)
            facet = by_name.get(entry['facet'])
            if facet is None:
                raise RuntimeError(f'{path}: unknown facet {entry["facet"]}')
            exc = run_case(facet, entry['case'], Ctx())
            if exc is not None:
                result['failures'].append({'facet': facet.name, 'case': entry['case'], 'message': describe(exc),
                                           'corpus': os.path.basename(path)})
                save()
                return

    for facet in facets:
        st = {'evaluations': 0, 'nontrivial': 0, 'hashes': [], 'labels': collections.Counter(), 'samples': [],
              'wall': 0.0}
        hashes = set()
        fails = []          # (len, text, message)
        t_fail = [None]
        t0 = time.time()

        wrapper = make_wrapper(facet, st, hashes, fails, t_fail, t_start, tier, result)
        more = getattr(mod, 'QUICK_FACTOR', 1.0) if tier == 'quick' else 1.0
        n = max(1, int(round(facet.budget(tier) * scale * more / NSHARDS)))
        test = hypothesis.given(facet.strategy())(wrapper)
        test = hypothesis.seed(_seed_int(seed, prop, facet.name, shard))(test)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), print_blob=False)(test)
        try:
            test()
        except BaseException as e:          # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if not fails:
                raise
        st['wall'] = time.time() - t0
        st['hashes'] = sorted(hashes)
        st['labels'] = dict(st['labels'])
        result['facets'][facet.name] = st
        if fails:
            _, text, message = min(fails)
            result['failures'].append({'facet': facet.name, 'case': json.loads(text), 'message': message})
            save()
            return
    save()


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL, 'coverage': coverage,
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['id']: e for e in data['known'] if e['property'] == prop}


def run_parent(prop, tier, seed, only=None, scale=1.0, nshards=NSHARDS):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    code = 0
    try:
        procs, outs = [], []
        cpus = len(os.sched_getaffinity(0)) or 1
        pending = list(range(nshards))
        running = {}
        failures, errors, results = [], [], []
        env = dict(os.environ)
        from vlib.boot import ENV, PY
        env.update(ENV)
        env['TMPDIR'] = tmp
        stop = False
        while (pending or running) and not stop:
            while pending and len(running) < cpus:
                i = pending.pop(0)
                out = os.path.join(tmp, f'shard{i}.json')
                logf = open(os.path.join(tmp, f'shard{i}.log'), 'w')
                cmd = [PY, os.path.join(HERE, 'run.py'), prop, '--tier', tier, '--seed', str(seed),
                       '--shard', str(i), '--out', out, '--scale', str(scale)]
                if only:
                    cmd += ['--only', ','.join(only)]
                running[i] = (subprocess.Popen(cmd, env=env, cwd=HERE, stdout=logf, stderr=subprocess.STDOUT,
                                               start_new_session=True), out, logf)
            time.sleep(0.1)
            for i, (p, out, logf) in list(running.items()):
                if p.poll() is None:
                    continue
                del running[i]
                logf.close()
                if p.returncode != 0 or not os.path.exists(out):
                    with open(logf.name) as f:
                        errors.append(f'shard {i} exited {p.returncode}:\n' + f.read()[-4000:])
                    continue
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r['failures']:
                    failures.extend(r['failures'])
                    stop = True
        for i, (p, out, logf) in running.items():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            logf.close()

        # ---- known findings: dedicated probes, one per listed defect
        probe_lines = []
        mod_known = known_findings(prop)
        if not failures and not errors and only is None:
            cmd = [PY, os.path.join(HERE, 'run.py'), prop, '--probes']
            p = subprocess.run(cmd, env=env, cwd=HERE, capture_output=True, text=True, timeout=600)
            if p.returncode != 0:
                errors.append('probes: ' + p.stdout[-2000:] + p.stderr[-2000:])
            else:
                for rec in json.loads(p.stdout.strip().splitlines()[-1]):
                    if rec['fails'] and rec['id'] in mod_known:
                        probe_lines.append(f"KNOWN-FINDING: property={prop} {mod_known[rec['id']]['what']}")
                    elif rec['fails']:
                        failures.append({'facet': '@probe:' + rec['id'], 'case': None, 'message': rec['fails']})

        # ---- merge coverage
        ev, nt, labels, samples, hashes, rules, per = 0, 0, collections.Counter(), [], set(), [], {}
        mod_facets = {}
        for r in sorted(results, key=lambda r: r['shard']):
            for name, st in r['facets'].items():
                ev += st['evaluations']
                hashes.update(st['hashes'])
                for k, v in st['labels'].items():
                    labels[name + ':' + k] += v
                m = mod_facets.setdefault(name, {'evaluations': 0, 'distinct_nontrivial': set(), 'cpu_s': 0.0})
                m['evaluations'] += st['evaluations']
                m['distinct_nontrivial'].update(st['hashes'])
                m['cpu_s'] += st['wall']
                if r['shard'] < 2:
                    samples.extend({'facet': name, 'case': s} for s in st['samples'][:1])
        for m in mod_facets.values():
            m['distinct_nontrivial'] = len(m['distinct_nontrivial'])
            m['cpu_s'] = round(m['cpu_s'], 1)
        from importlib import util  # rules are static text of the check module
        rule = read_rules(prop)
        coverage = {
            'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': rule, 'samples': samples[:8],
            'facets': mod_facets, 'classes': dict(sorted(labels.items())),
            'corpus_replayed': len(corpus_files(prop)),
            'truncated_by_time_budget': any(r['truncated'] for r in results),
            'exhaustive': False,
        }
        # first failure: smallest
        if failures:
            failures.sort(key=lambda f: len(_canon(f['case'])))
            fl = failures[0]
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            rp = os.path.join(HERE, 'replays', f"{prop}-{fl['facet'].replace('@probe:', 'probe-')}-{_h64(_canon(fl['case']))}.json")
            with open(rp, 'w') as f:
                json.dump({'property': prop, 'facet': fl['facet'], 'case': fl['case'], 'message': fl['message'],
                           'seed': seed, 'tier': tier}, f, indent=1)
            print(f"{prop} facet {fl['facet']}: {fl['message']}")
            print(f'VIOLATION property={prop} replay={rp}', flush=True)
            code = 1
        elif errors:
            print('\n'.join(errors[:2]), file=sys.stderr)
            print(f'ERROR property={prop}: harness error', file=sys.stderr)
            code = 3
        for line in probe_lines:
            print(line)
        write_evidence(prop, tier, seed, coverage, time.time() - t0, len(failures),
                       read_assumptions(prop))
        if code == 0:
            print(f"{prop}: ok; {ev} cases, {len(hashes)} distinct non-trivial, {time.time() - t0:.1f} s")
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _static(prop, name, default):
    """Static data of a check module without importing it (the parent never imports pymgrid)."""
    import ast
    with open(os.path.join(HERE, 'checks', prop.lower() + '.py')) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and any(getattr(t, 'id', None) == name for t in node.targets):
            return ast.literal_eval(node.value)
    return default


def read_rules(prop):
    return _static(prop, 'RULE', '')


def read_assumptions(prop):
    return _static(prop, 'ASSUMPTIONS', [])


def run_probes(prop):
    from vlib.boot import boot
    boot()
    mod = load_check(prop)
    recs = []
    for pid, fn in getattr(mod, 'PROBES', {}).items():
        seed_case(pid)
        try:
            fn()
        except Violation as e:
            recs.append({'id': pid, 'fails': str(e)})
        except Exception as e:
            recs.append({'id': pid, 'fails': describe(e)})
        else:
            recs.append({'id': pid, 'fails': None})
    print(json.dumps(recs))


def run_replay(prop, path):
    from vlib.boot import boot
    boot()
    mod = load_check(prop)
    with open(path) as f:
        entry = json.load(f)
    if entry['facet'].startswith('@probe:'):
        try:
            mod.PROBES[entry['facet'][7:]]()
        except Exception as e:
            print(describe(e))
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        return 0
    facet = {f.name: f for f in mod.FACETS}[entry['facet']]
    exc = run_case(facet, entry['case'], Ctx())
    if exc is None:
        print(f'{prop}: replay passes')
        return 0
    if os.environ.get('VERIF_TB'):
        traceback.print_exception(exc)
    print(describe(exc))
    print(f'VIOLATION property={prop} replay={path}')
    return 1
