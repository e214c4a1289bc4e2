#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--only facet,...] [--scale X]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--probes', action='store_true')
    a = ap.parse_args()
    only = a.only.split(',') if a.only else None
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.replay:
        return core.run_replay(a.prop, a.replay)
    if a.probes:
        return core.run_probes(a.prop)
    if a.shard is not None:
        return core.run_shard(a.prop, a.shard, a.tier, a.seed, a.out, only, a.scale)
    return core.run_parent(a.prop, a.tier, a.seed, only, a.scale)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code or 0)
