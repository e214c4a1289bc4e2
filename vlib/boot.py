"""Process bootstrap: environment, import paths, warnings.

* pymgrid is imported from /repo/src (the working tree), never from a copy.
* hypothesis lives in /opt/veriftools/pyvenv (same CPython 3.12); only hypothesis and its pure-python
  dependencies are taken from there, so numpy/pandas/gym stay those of /opt/venv.
"""
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
_TOOLS = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
_ALLOWED = {'hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_pytestplugin',
            '_hypothesis_ftz_detector', '_hypothesis_globals', '_hypothesis_internals'}

ENV = {
    'MPLBACKEND': 'Agg',
    'MPLCONFIGDIR': '/opt/venv/mplconfig',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'LANG': 'C.UTF-8',
}


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, _TOOLS, target)
        return None


def boot():
    sys.dont_write_bytecode = True
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    if _ToolFinder not in sys.meta_path:
        sys.meta_path.append(_ToolFinder)
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.WARNING)
    devnull = open(os.devnull, 'w')
    err, sys.stderr = sys.stderr, devnull      # gym prints a maintenance notice on import
    try:
        import gym  # noqa: F401
        import pymgrid
    finally:
        sys.stderr = err
    warnings.simplefilter('ignore')
    where = os.path.realpath(pymgrid.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f'pymgrid imported from {where}, not from {src}')
    return pymgrid
