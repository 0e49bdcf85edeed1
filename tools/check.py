#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's working tree."""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    import checks_models
    table = dict(checks_models.CHECKS)
    for name in ("checks_mixture", "checks_clustering", "checks_containers", "checks_sampling", "checks_io",
                 "checks_numeric", "checks_replay", "checks_concurrency", "checks_goodness"):
        try:
            m = __import__(name)
        except ModuleNotFoundError as e:
            if e.name != name:
                raise
            continue
        table.update(m.CHECKS)
    rep = vlib.Report(prop)
    try:
        table[prop](rep)
    except vlib.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
