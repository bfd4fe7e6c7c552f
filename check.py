#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current source (static analysis only)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from engine import core  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        mod = importlib.import_module("rules." + pid.lower())
        return core.check(mod.P, tier, seed)
    except core.Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s" % pid)
        return 3


sys.exit(main())
