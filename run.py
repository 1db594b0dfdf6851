#!/usr/bin/env python3
"""run.py <property> [quick|thorough] - decides one property of /repo (see DESIGN.md)"""
import os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from lib import engine
from specs import SPECS

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop not in SPECS:
        print('unknown property', prop)
        return 2
    spec = SPECS[prop]
    known = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(known):
        for line in open(known):
            if line.startswith('known: property=%s ' % prop):
                print('KNOWN-FINDING: ' + line[len('known: '):].strip())
    return engine.run_property(prop, spec['queries'], tier, seed, spec)

if __name__ == '__main__':
    sys.exit(main())
