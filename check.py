#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's current tree.  Exit 0 holds, 1 violated, 2 the analysis could not be carried out."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, props3 as props
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--thorough' in sys.argv: core.TIER = 'thorough'
    rc = 0
    for pid in args or sorted(props.CHECKS):
        try:
            c = core.Check(pid, props.LEVEL.get(pid, 'proof')); c.thorough = core.TIER == 'thorough'; c.filter = os.environ.get('GVA_FILTER')
            props.CHECKS[pid](c); r = c.finish(props.RULE[pid])
        except core.Broken as e: print(f'{pid}: ANALYSIS-BROKEN: {e}'); r = 2
        except Exception: traceback.print_exc(); print(f'{pid}: ANALYSIS-BROKEN: internal error'); r = 2
        rc = max(rc, r)
    return rc
if __name__ == '__main__': sys.exit(main())
