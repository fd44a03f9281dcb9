#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property by static analysis of /repo's sources."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from sa import report
    mod = importlib.import_module("checks." + pid.lower())
    try:
        obls = mod.run(tier)
    except Exception as e:   # no verdict
        import traceback
        obls = report.Obl()
        obls.und("analysis", pid, "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:])
    return report.finish(pid, tier, obls, mod.META, t0)


if __name__ == "__main__":
    sys.exit(main())
