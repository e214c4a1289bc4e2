"""The pymgrid25 scenario files, read without pymgrid."""
import functools
import gzip
import hashlib
import json
import os

import numpy as np
import yaml

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, 'data', 'scenarios.json')


class _Loader(yaml.SafeLoader):
    pass


# a loader of our own: pymgrid registers constructors on yaml.SafeLoader
_Loader.yaml_constructors = {k: v for k, v in yaml.SafeLoader.yaml_constructors.items()
                             if k is None or str(k).startswith('tag:yaml.org')}
_Loader.yaml_multi_constructors = {}


def _any(loader, suffix, node):
    if isinstance(node, yaml.MappingNode):
        return {'!': suffix, **loader.construct_mapping(node, deep=True)}
    if isinstance(node, yaml.SequenceNode):
        return {'!': suffix, 'items': loader.construct_sequence(node, deep=True)}
    return {'!': suffix, 'path': loader.construct_scalar(node)}


_Loader.add_multi_constructor('!', _any)


def directory(n):
    import pymgrid
    return os.path.join(os.path.dirname(pymgrid.__file__), 'data', 'scenario', 'pymgrid25', f'microgrid_{n}')


def read_array(path):
    """Index column and header dropped."""
    with gzip.open(path, 'rt') as f:
        rows = f.read().split('\n')[1:]
    return np.array([[float(x) for x in r.split(',')[1:]] for r in rows if r])


@functools.lru_cache(maxsize=None)
def read(n):
    """{'modules': [{'name', 'class', 'params', 'state', 'ts': array or None}], 'initial_step', 'final_step'}"""
    d = directory(n)
    with open(os.path.join(d, f'microgrid_{n}.yaml')) as f:
        doc = yaml.load(f, Loader=_Loader)
    mods = []
    for name, m in doc['modules']:
        params = dict(m['cls_params'])
        ts = params.pop('time_series', None)
        arr = read_array(os.path.join(d, ts['path'])) if ts is not None else None
        mods.append({'name': name, 'class': m['!'], 'params': params, 'state': m['state'], 'ts': arr})
    return {'modules': mods, 'initial_step': doc['initial_step'], 'final_step': doc['final_step'],
            'trajectory_func': doc.get('trajectory_func')}


def digest(arr):
    if arr is None:
        return None
    return hashlib.sha256(np.ascontiguousarray(np.round(arr, 9) + 0.0).tobytes()).hexdigest()[:24]


def summary(n):
    r = read(n)
    return {'initial_step': r['initial_step'], 'final_step': r['final_step'],
            'modules': [{'name': m['name'], 'class': m['class'], 'params': m['params'], 'state': m['state'],
                         'shape': None if m['ts'] is None else list(m['ts'].shape), 'ts': digest(m['ts'])}
                        for m in r['modules']]}


@functools.lru_cache(maxsize=None)
def reference():
    with open(REF) as f:
        return json.load(f)


if __name__ == '__main__':
    from vlib.boot import boot
    boot()
    with open(REF, 'w') as f:
        json.dump([summary(n) for n in range(25)], f, indent=1)
        f.write('\n')
