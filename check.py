#!/usr/bin/env python3
"""usage: check.py <property id> [--tier quick|thorough]   (or: check.py all)"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import core
import registry

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]; a = [x for x in a if x != tier]
    ids = registry.ids() if a == ['all'] else a
    rc = 0
    for i in ids:
        fn, meta = registry.get(i)
        rc = max(rc, core.run(i, fn, tier, meta))
    sys.exit(rc)
main()
