"""Try edits of the source on the checks: mut.py FILE.py [NAME…]
FILE.py defines EDITS = [(name, [(file, old, new), …], [checks], "quiet" or "alarm")]; each edit is made in
a scratch copy of /repo, which has to build, and the checks are run on it."""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(ed):
    name, edits, checks, want = ed
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) < 1:
                return name, "edit does not apply: %s" % f
            open(p, "w").write(t.replace(old, new, 1))
        if ns.get("TESTS", True):
            b = subprocess.run(["cargo", "test", "--offline", "-q", "--target-dir", d + "/t"], cwd=r, capture_output=True, text=True)
            tests = "tests pass" if b.returncode == 0 else "tests FAIL"
            if "error" in b.stderr and "could not compile" in b.stderr:
                return name, "does not build\n" + b.stderr[:1500]
        else:
            tests = ""
        out = []
        ok = True
        if checks == ['ALL']:
            sys.path.insert(0, HERE)
            from sa import props
            checks = sorted(props.CHECKS)
        for c in checks:
            ev = os.path.join(d, "ev")
            x = subprocess.run([sys.executable, os.path.join(HERE, "tools", "runon.py"), c, r, ev], capture_output=True, text=True)
            al = x.returncode == 1
            ok &= al == (want == "alarm")
            lines = [l for l in x.stdout.splitlines() if "[" in l]
            if x.returncode == 0 and len(checks) > 3:
                continue
            out.append("%s rc=%d %s" % (c, x.returncode, (lines[0][:500] if lines else x.stdout[-200:] + x.stderr[-300:]) if x.returncode else ""))
        if want == "alarm" and any("rc=1" in o for o in out):
            ok = True
        return name, ("as wanted" if ok else "NOT AS WANTED (%s)" % want) + " (%s): " % tests + " | ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(one, [e for e in ns["EDITS"] if not only or e[0] in only]):
        print(n, "->", r, flush=True)
