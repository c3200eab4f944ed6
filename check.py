#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current working tree."""
import os, sys, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vp
ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
a = ap.parse_args()
os.environ['VERIF_TIER'] = a.tier; vp.ensure_engine()
import checks
c = vp.Check(a.pid, 'thorough' if a.tier == 'thorough' else 'quick', a.seed)
checks.TABLE[a.pid](c)
c.finish()
