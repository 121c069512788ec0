#!/usr/bin/env python3
"""Decide one property of /repo's current source: check.py <property> [--full]."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)

from vt.ir import AnalysisBroken        # noqa: E402

MODULES = {'M': 'checks.m', 'C': 'checks.c', 'A': 'checks.a', 'P': 'checks.p', 'L': 'checks.l'}


def main():
    pid = sys.argv[1]
    if '--full' in sys.argv[2:]:
        os.environ['VERIF_TIER'] = 'thorough'
        full = True
    else:
        os.environ['VERIF_TIER'] = 'quick'
        full = False
    try:
        mod = importlib.import_module(MODULES[pid[0]])
        return getattr(mod, pid)(full)
    except AnalysisBroken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN property=%s' % pid)
        return 3


if __name__ == '__main__':
    sys.exit(main())
