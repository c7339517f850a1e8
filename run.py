#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
          [--family F] [--limit N] [--jobs N]"""
import argparse
import importlib
import os
import sys

os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
from vlib import env  # noqa


def main():
    env.reexec_clean()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--limit', type=int)
    a = ap.parse_args()
    try:
        if a.prop.upper() == 'C26':         # PyCUDA and scikit-cuda on an emulated device
            sys.path.insert(0, os.path.join(os.getcwd(), 'device'))
        if a.prop.upper() == 'C25':         # a plotting library that keeps what would be drawn
            sys.path.insert(0, os.path.join(os.getcwd(), 'stubs'))
        env.install(env.build_ext('plain'))
        from vlib import core
        mod = importlib.import_module('checks.' + a.prop.lower())
        if hasattr(mod, 'prepare'):
            mod.prepare(a.tier)
        if a.replay:
            return core.replay(mod, os.path.abspath(a.replay))
        return core.main(a.prop, mod, a.tier, a.seed, a.jobs, a.family, a.limit)
    except env.HarnessError as e:
        print('INCONCLUSIVE: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
