"""Command line: python3 -m asmv.check ID [--tier T] [--seed N] [--replay F] [--only PART] [--scale X]"""
import argparse
import importlib
import os
import sys

from . import engine


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    a.prop = a.prop.upper()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    m = importlib.import_module('asmv.checks.' + a.prop.lower())
    variants = getattr(m, 'VARIANTS', ('plain',))
    if a.replay:
        return engine.replay(m.PARTS, a.replay, variants)
    return engine.run_check(a.prop, m.PARTS, a.tier, seed, variants=variants, rule=m.RULE,
                            assumptions=getattr(m, 'ASSUME', ()), scale=a.scale, only=a.only,
                            extra=getattr(m, 'EXTRA', None))


if __name__ == '__main__':
    sys.exit(main())
