#!/usr/bin/env python3
import importlib
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'engine'), os.path.join(here, 'props')]
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    m = importlib.import_module(prop.lower())
    import build
    import check
    build.SERDE = getattr(m, 'SERDE', False)
    cs = m.cases(tier)
    only = os.environ.get('VP_ONLY')
    if only:
        cs = [c for c in cs if any(o in c.name for o in only.split(','))]
    return check.main(prop, m.TITLE, cs, m.CORE, tier, m.BOUNDS, m.ASSUME, helpers=m.HELPERS)


if __name__ == '__main__':
    sys.exit(main())
