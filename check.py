#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import run, props

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    jobs = P.jobs(tier)
    budget = P.budget[tier]
    r = run.check(pid, P.title, jobs, tier, seed, P.bounds(tier), budget, P.assumptions)
    return 1 if r['real'] else 0

if __name__ == '__main__':
    sys.exit(main())
