#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property (see DESIGN.md)."""
import os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine, gens
from plans import PLANS

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = PLANS[prop]
    try:
        eng = engine.Engine(prop, tier, seed, plan.get('configs', ('bmi2', 'nobmi2', 'generic')))
        plan['run'](eng, tier, random.Random('%s-%d' % (prop, seed)))
        sys.exit(eng.finish())
    except (engine.CheckError, build.BuildError) as e:
        print('ERROR: check could not be completed: %s' % e); sys.exit(2)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
main()
