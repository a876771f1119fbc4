#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = vlib.Ctx(prop, tier)
    try:
        try:
            props.CHECKS[prop](c)
        except vlib.Found:
            pass
        rc = c.finish('model_checking')
    except vlib.CheckError as e:
        # A deviation of the real code that was already observed stands.
        if any(prop in m['props'] for m in c.mismatches):
            print('note: check ended early: %s' % e)
            rc = c.finish('model_checking')
        else:
            print('ERROR property=%s: %s' % (prop, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
