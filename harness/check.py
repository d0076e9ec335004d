#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the code in /repo (see DESIGN.md)"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from kv.engine import Engine, MachineryError
from kv.far import FAR
from kv.kin import KIN
from kv.meta import META
from kv.props2 import PROPS
from kv.wide import WIDE


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    e = Engine(prop, tier, seed)
    try:
        rule = PROPS[prop](e)
        if prop in WIDE:
            e.run_plans(WIDE[prop](e))
            rule += '; beyond the table: sizes, names, ranges and repetitions out of the ordinary (wide.py)'
        if prop in KIN:
            e.run_plans(KIN[prop](e))
            rule += '; objects and settings that are nearly alike (kin.py; Cases!Kin, Cases!Edges)'
        if prop in FAR:
            e.run_plans(FAR[prop](e))
            rule += '; values over decades, gaps, lines, decreasing grids, kept objects (far.py)'
        rc = e.finish(META[prop]['level'], rule, META[prop].get('assumptions', ()))
    except MachineryError as x:
        print('%s: check failed to run: %s' % (prop, x))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        e.close()
    sys.exit(rc)


if __name__ == '__main__':
    main()
