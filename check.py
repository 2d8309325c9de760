#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, dom, parse, tables


def main():
    if sys.argv[1] == '--setup':
        core.build()
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rep = core.Report(prop, tier, seed, 'model_checking')
    try:
        core.build()
        for engine, props in ((dom.check, dom.PLAN), (parse.check, set(parse.PLAN) | {'P02'}), (tables.check, tables.FACETS)):
            if prop in props: engine(rep)
        return rep.finish()
    except core.ToolError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get('KEEP_WORK'):
            core.cleanup()


sys.exit(main())
