#!/usr/bin/env python3
"""usage: check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = common.Ctx(prop, tier, seed)
    mod = importlib.import_module('props.' + prop.lower())
    try:
        return mod.check(ctx)
    except common.CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == '__main__':
    sys.exit(main())
