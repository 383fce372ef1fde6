#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from the current source of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import check

if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    rc = 0
    for pid in a:
        try:
            r, _ = check.run(pid, "thorough" if tier == "thorough" else "quick")
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r)
    sys.exit(rc)
