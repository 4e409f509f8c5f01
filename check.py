#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from the current source of /repo."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.program import Program, AnalysisError
from sa.report import Ctx, finish


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    t0 = time.time()
    try:
        from checks.registry import CHECKS
        mod, fn, rule = CHECKS[prop]
        f = getattr(importlib.import_module('checks.' + mod), fn)
        ctx = Ctx(prop, tier, Program())
        f(ctx)
        return finish(ctx, rule, t0)
    except AnalysisError as e:
        print('%s: analysis impossible: %s' % (prop, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
