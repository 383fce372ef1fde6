"""Obligations of one property, the verdict and the evidence file."""
import json, os, re, sys, time, traceback
from .interp import Unsupported, Recursion, State
from .core import World, Missing
from .server import BuildError, HERE
from . import contracts as C
from .alg import Undefined

EVID = os.path.join(HERE, "evidence")


class Check:
    def __init__(self, pid, w, tier):
        self.pid, self.w, self.tier = pid, w, tier
        self.n = 0                 # obligations
        self.done = 0              # discharged
        self.sites = {}            # what the obligations were about -> how many
        self.samples = []
        self.bad = {}              # key -> report
        self.counts = {}           # named floors
        self.notes = []
        self.prefix = ""

    # -------------------------------------------------- obligations
    def site(self, where):
        self.sites[where] = self.sites.get(where, 0) + 1

    def ok(self, where, sample=None):
        self.n += 1
        self.done += 1
        self.site(where)
        if sample and len(self.samples) < 12:
            self.samples.append("%s: %s" % (where, sample))

    def fail(self, key, where, msg, st=None, span=None):
        self.n += 1
        self.site(where)
        key = self.prefix + key
        if key not in self.bad:
            self.bad[key] = {"key": key, "construct": where, "problem": msg,
                             "path": self.w.ip.show_facts(st, 40) if st is not None else None,
                             "source": span}

    def need(self, cond, key, where, msg, st=None, span=None, sample=None):
        if cond:
            self.ok(where, sample)
        else:
            self.fail(key, where, msg() if callable(msg) else msg, st, span)
        return cond

    def span(self, info):
        """file of a function"""
        for f in self.w.ip.crate["fns"]:
            if f["path"] == info["path"] or f.get("inst") and f["inst"]["id"] == info["id"]:
                return f["span"]
        return info["path"]

    def guard(self, key, where, f):
        """run f; what the analysis cannot decide is reported, not assumed"""
        try:
            self.w.ip.stats["steps"] = 0
            return f()
        except (Unsupported, Missing) as e:
            self.fail(key + "/undecided", where, "not established: %s" % e)
        except Undefined as e:
            self.fail(key + "/undecided", where, "not established: a division by zero")
        except RecursionError:
            self.fail(key + "/undecided", where, "not established: the analysis recursed too deeply")
        return None

    def dep(self, pid, f):
        """the obligations of another property that this one rests on"""
        ip, old = self.w.ip, self.prefix
        cuts, counts = ip.cuts, self.counts
        ip.cuts, self.prefix, self.counts = [], "%s%s/" % (old, pid), {}
        try:
            f(self)
        except (Unsupported, Missing) as e:
            self.fail("undecided", pid, "not established: %s" % e)
        finally:
            counts.update({pid + " " + k: v for k, v in self.counts.items()})
            ip.cuts, self.prefix, self.counts = cuts, old, counts

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.fail("floor/" + name, name, "only %d of at least %d expected instances were found" % (n, least))


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def run(pid, tier, repo=None, quiet=False):
    from . import props
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    sys.setrecursionlimit(20000)
    fn, rule, assume = props.CHECKS[pid]
    try:
        w = World(repo)
    except BuildError as e:
        print("the crate does not build: %s" % e)
        return 2, None
    except (Missing, Unsupported) as e:
        # an anchor of the analysis is gone
        w = None
        c = Check(pid, None, tier)
        c.n = 1
        c.bad["anchor"] = {"key": "anchor", "construct": "crate", "problem": "not established: %s" % e, "path": None, "source": None}
    if w is not None:
        try:
            props.p_copy.settle(w)
            for _ in range(20):
                c = Check(pid, w, tier)
                w.ip.cuts = []
                w.ip.stack = []
                w.ip.deadline = t0 + (600 if tier == "quick" else 850)
                w.ip.step_budget = 1_200_000 if tier == "quick" else 24_000_000
                try:
                    fn(c)
                except Recursion as r:
                    # a helper recurses on its own: it gets the contract its signature stands for
                    if C.adopt(w, r.info):
                        continue
                    # it has none: each round of it is followed, as for a loop
                    w.ip.unfold.add(r.info["id"])
                    continue
                except (Unsupported, Missing) as e:
                    c.fail("undecided", pid, "not established: %s" % e)
                except BuildError:
                    raise
                except Exception as e:
                    traceback.print_exc()
                    c.fail("undecided", pid, "not established: internal error %r" % e)
                break
            if c.n == 0:
                c.fail("vacuous", pid, "no obligation was found")
            stats = {"functions_analysed": sorted(w.ip.stats["fns"]), "abstract_paths": w.ip.stats["paths"],
                     "calls_analysed": w.ip.stats["calls"], "partitions": w.ip.stats["splits"]}
        finally:
            w.close()
    else:
        stats = {}
    known = known_findings()
    viol = []
    for key, b in c.bad.items():
        k = known.get((pid, key))
        if k is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            viol.append(b)
    report = os.path.join(EVID, "%s.report.json" % pid)
    if viol:
        with open(report, "w") as f:
            json.dump(viol, f, indent=1)
        for b in viol[:20]:
            print("%s: %s [%s]%s" % (b["construct"], b["problem"], b["key"], " when " + b["path"] if b["path"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, report))
    elif os.path.exists(report):
        os.remove(report)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": dict(explanation="Static abstract interpretation of the crate's MIR. " + rule,
                           obligations=c.n, discharged=c.done, rule=rule, counts=c.counts,
                           obligations_per_construct=c.sites, samples=c.samples,
                           known_findings=len(c.bad) - len(viol), notes=c.notes, **stats),
          "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    if not quiet:
        print("%s: %d obligations, %d discharged, %d violations, %.1f s" % (pid, c.n, c.done, len(viol), time.time() - t0))
    return (1 if viol else 0), c
