#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: make planted bugs from a list of edits, confirm each in a scratch copy of /repo
and keep the confirmed ones under /verif/seeded/<id>/.
FILE.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new), ...], demo=rust test module, needs=, breaks=)]."""
import os, sys, json, shutil, subprocess, tempfile, runpy, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# cwd: the repository. Adds the test module beside this file to a scratch copy and runs it there.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/planted_demo.XXXXXX)
trap 'rm -rf -- "$tmp"' EXIT
cp -r src Cargo.toml "$tmp"/
[ -f Cargo.lock ] && cp Cargo.lock "$tmp"/
cp "$here/demo.rs" "$tmp/planted_demo.rs"
printf '\n#[cfg(test)]\n#[path = "%s/planted_demo.rs"]\nmod planted_demo;\n' "$tmp" >> "$tmp/HOST"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
timeout 250 cargo test --offline planted_demo > "$tmp/out.txt" 2>&1 || { tail -n 30 "$tmp/out.txt"; exit 1; }
grep -q 'test result: ok. [1-9]' "$tmp/out.txt" || { tail -n 30 "$tmp/out.txt"; exit 1; }
'''


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr


def fresh(tmp):
    d = os.path.join(tmp, "repo")
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("target"))
    return d


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix="plant.")
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, "target"))
    base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for s in seeds:
            if only and s["id"] not in only:
                continue
            d = fresh(tmp)
            bad = None
            mine = set()
            for f, old, new in s["edits"]:
                p = os.path.join(d, f)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = "edit of %s matches %d times: %r" % (f, t.count(old), old[:60])
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                print(s["id"], "FAILED:", bad)
                continue
            _, diff = sh("git diff", d)
            # removed lines have to be lines of the original repository
            orig = False
            for f in {e[0] for e in s["edits"]}:
                _, old = sh("git show %s:%s" % (base, f), d)
                ol = {x.strip() for x in old.splitlines()}
                _, fd = sh("git diff -U0 -- %s" % f, d)
                rem = [x[1:].strip() for x in fd.splitlines() if x.startswith("-") and not x.startswith("---")]
                if not rem or any(x in ol for x in rem if x):
                    orig = True
            rc, out = sh("cargo test --offline 2>&1", d, env)
            m = re.findall(r"test result: ok\. (\d+) passed; 0 failed", out)
            if rc or not m:
                print(s["id"], "FAILED: build or tests\n", out[-1500:])
                continue
            o = os.path.join(tmp, "seed")
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(os.path.join(o, "demo.sh"), "w").write(DEMO.replace("HOST", s.get("host", "src/main.rs")))
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            open(os.path.join(o, "demo.rs"), "w").write(s["demo"].strip() + "\n")
            r1, o1 = sh("bash %s/demo.sh" % o, d)
            d = fresh(tmp)
            r0, o0 = sh("bash %s/demo.sh" % o, d)
            if r0 != 0 or r1 == 0:
                print(s["id"], "FAILED: demo clean=%d planted=%d\n" % (r0, r1), (o0 if r0 else o1)[-1500:])
                continue
            dst = os.path.join(HERE, "seeded", s["id"])
            os.makedirs(dst, exist_ok=True)
            for f in ("demo.sh", "demo.rs"):
                shutil.copy(os.path.join(o, f), dst)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
            print(s["id"], "ok", m, "" if orig else "(no original line removed)")
    finally:
        shutil.rmtree(tmp)


main()
