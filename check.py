#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mtv import build, report


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    from mtv.props import TABLE
    mod, fn = TABLE[prop]
    try:
        build.build_tools()
        m = importlib.import_module('mtv.props.' + mod)
        return getattr(m, fn)(prop, tier)
    except build.AnalysisBroken as e:
        print('analysis broken: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
