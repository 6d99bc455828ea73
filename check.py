#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [-v] [--unit NAME]: decide one property; exit 0 / 1 / 2."""
import sys, os, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import vlib, specs
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('-v', action='count', default=0); ap.add_argument('--unit', action='append'); ap.add_argument('--replay')
a = ap.parse_args()
p = specs.PROPS[a.prop]
if a.replay:
    sys.exit(vlib.replay(a.prop, p['units'], a.replay))
sys.exit(vlib.check(a.prop, p['units'], p, a.tier, int(os.environ.get('VERIF_SEED', '1')), a.v, only=a.unit))
