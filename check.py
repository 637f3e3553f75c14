#!/usr/bin/env python3
"""check.py <property-id> [...]: decide properties of /repo statically."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main(argv):
    from sa.report import run
    from sa.registry import CHECKS
    if argv == ['--list']:
        print('\n'.join(CHECKS))
        return 0
    ids = list(CHECKS) if argv == ['--all'] else argv
    rc = 0
    for prop in ids:
        mod, fn = CHECKS[prop]
        m = importlib.import_module('sa.checks.' + mod)
        rc = max(rc, run(prop, getattr(m, fn)))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
