#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import os
import sys
import importlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import run  # noqa: E402


def main():
    pid = sys.argv[1]
    import registry
    if pid not in registry.CHECKS:
        print('unknown property', pid)
        return 2
    modname, fn = registry.CHECKS[pid]
    try:
        mod = importlib.import_module(modname)
        rep = getattr(mod, fn)(pid)
        return rep.finish()
    except run.frontend.FrontendError as e:
        print('ANALYSIS-BROKEN: front end: %s' % e)
        return 2
    except run.Broken as e:
        if run.CUR is not None and run.CUR.viol:
            print('NOT-ANALYSED: %s' % e)
            return run.CUR.finish()
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    except Exception:
        import traceback
        print('ANALYSIS-BROKEN: ' + traceback.format_exc())
        return 2


if __name__ == '__main__':
    sys.exit(main())
