#!/usr/bin/env python3
"""runon.py PID REPO EVIDENCE_DIR: one check against another tree (for trying planted bugs and refactorings)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import check
pid, repo, ev = sys.argv[1:4]
os.makedirs(ev, exist_ok=True)
check.EVID = ev
sys.exit(check.run(pid, os.environ.get("VERIF_TIER", "quick"), repo)[0])
