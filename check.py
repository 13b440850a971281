#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from the source of /repo"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
from sa import report  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    m = importlib.import_module('sa.rules.' + prop.lower())
    sys.exit(report.main(prop, m.run, tier))


if __name__ == '__main__':
    main()
