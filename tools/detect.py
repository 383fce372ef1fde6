#!/usr/bin/env python3
"""detect.py [--all] [ID...]: run the checks against each planted bug (a scratch copy of /repo with the patch),
print which of them report a violation. --all runs every check, else the bug's own property."""
import os, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def one(sid, props, everything):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="detect.")
    try:
        r = os.path.join(tmp, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target"))
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return sid, meta["property"], "patch does not apply", []
        hits = []
        for pid in (props if everything else [meta["property"]]):
            q = subprocess.run([sys.executable, os.path.join(HERE, "tools", "runon.py"), pid, r, os.path.join(tmp, "ev")],
                               capture_output=True, text=True)
            if q.returncode == 1 and "VIOLATION property=%s" % pid in q.stdout:
                hits.append(pid)
            elif q.returncode != 0:
                hits.append("%s(rc %d)" % (pid, q.returncode))
        return sid, meta["property"], "caught" if meta["property"] in hits else "MISSED", hits
    finally:
        shutil.rmtree(tmp)


def main():
    from sa import props
    a = sys.argv[1:]
    everything = "--all" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda s: one(s, sorted(props.CHECKS), everything), ids):
            print("%-34s %-4s %-8s %s" % (r[0], r[1], r[2], " ".join(r[3])), flush=True)


main()
