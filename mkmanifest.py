#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import props
HERE = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "N01": "the distance between a function and its Taylor polynomial is an analytic bound over the reals; no abstraction of the program's text yields it (what the program contributes, the coefficients and their text, is C06 and C07)",
    "N02": "floating-point rounding depends on run-time values of unbounded range and on cancellation; a sound static error bound would have to be infinite for subtraction",
    "N03": "time, memory and stack grow with the run-time size of expressions, which nothing in the source bounds (termination itself is C22 and C23)",
    "N04": "completeness of a heuristic search: whether the retries reach a determinate form depends on mathematical facts about arbitrary functions, which is undecidable in general",
}
TECH = {"C24": "static effect analysis over the resolved call graph of the compiler's IR",
        "C22": "static termination analysis: a measure on every recursive call found by abstract interpretation of MIR",
        "C23": "static termination analysis: descent of every recursive call found by abstract interpretation of MIR",
        "C28": "static abstract interpretation of MIR with a loop/recursion invariant for the common divisor"}
DEFAULT = "static abstract interpretation of MIR: path-sensitive interprocedural value flow in a term domain with inductive contracts for recursion"
BOUNDED = dict(props.BOUNDED)
m = {"version": 1, "setup_cmd": "bash driver/build.sh", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in props.CHECKS:
        rule = props.CHECKS[i][1]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH.get(i, DEFAULT), "level": "other",
            "level_note": "Decided from the MIR of the current source, no execution and no solver. " + rule +
            (" Bound: " + BOUNDED[i] if i in BOUNDED else "") +
            " What cannot be established is reported as a violation. Trusted: rustc's MIR and trait resolution, the models of the standard library functions the crate calls."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: under construction")})
m["notes"] = "See DESIGN.md. No hooks in /repo are needed. Every check compiles /repo's working tree itself (cargo +nightly check with a rustc driver, in a temporary target directory)."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
