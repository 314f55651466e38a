#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of set iteration in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import report


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    m = importlib.import_module('checks.' + prop.lower())
    sys.exit(report.run(prop, tier, m.check, getattr(m, 'LEVEL', 'other'), m.TECHNIQUE))


main()
