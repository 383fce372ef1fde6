#!/usr/bin/env python3
"""reverts.py: undo each repair listed in known_findings.txt in a scratch copy and run its property's check, which has to fire."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(pid, commit, what):
    tmp = tempfile.mkdtemp(prefix="revert.")
    try:
        r = os.path.join(tmp, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target"))
        p = subprocess.run("git update-index -q --refresh; git diff %s %s^ | git apply -3 -" % (commit, commit), shell=True, cwd=r, capture_output=True, text=True)
        if p.returncode:
            return pid, commit, "does not revert: " + p.stderr.strip().splitlines()[-1]
        q = subprocess.run([sys.executable, os.path.join(HERE, "tools", "runon.py"), pid, r, os.path.join(tmp, "ev")], capture_output=True, text=True)
        return pid, commit, ("caught: " if q.returncode == 1 else "MISSED (rc %d): " % q.returncode) + next((l for l in q.stdout.splitlines() if "[" in l), q.stdout[-200:])[:200]
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(6) as ex:
    todo = re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", open(os.path.join(HERE, "known_findings.txt")).read(), re.M)
    for r in ex.map(lambda t: one(*t), todo):
        print(*r, flush=True)
