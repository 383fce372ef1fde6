"""C23: recursion descends.  C24: effects."""
import itertools
from .common import *
from .p_expr import call_args, new_ops, wrap
from .p_lim import size_of
from .p_num import c28, nums, kinds, val, rat, expr_arg, AR
from .p_build import BIN, UN
from . import p_text


# ------------------------------------------------------------------ C23
class Descent:
    """recursive calls found, and whether something gets smaller on every cycle of them"""

    def __init__(self, c):
        self.c, self.edges = c, []      # (node, node, shape, size or None, slack, where, state, span, text)

    def add(self, frm, to, name, kids, e, s, where, span, text):
        z = size_of(self.c.w, s, e, kids)
        self.edges.append((frm, to, name, kids, z, where, s, span, text))

    def sccs(self):
        g = {}
        for e in self.edges:
            g.setdefault(e[0], set()).add(e[1])
            g.setdefault(e[1], set())
        reach = {}
        for n in g:
            seen, todo = set(), [n]
            while todo:
                for y in g[todo.pop()]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            reach[n] = seen
        return lambda a, b: b in reach[a] and a in reach[b]

    def decide(self):
        c = self.c
        together = self.sccs()
        same, ineq = [], []
        for e in self.edges:
            frm, to, name, kids, z, where, s, span, text = e
            if not together(frm, to):
                c.ok(where, sample=text + " (which never comes back)")
                continue
            if z is None or any(m > 1 for m in z[1].values()):
                c.fail("descent/%s/%s" % (frm[0], name), where, "%s: not a part of what it was given" % text, s, span)
            elif frm[0] != "text" and name in ARITY and z[0] == {name: 1} and len(z[1]) == len(kids) and z[2] == 0 or \
                    name not in ARITY and z == ({}, {}, 1) or z == ({name: 1}, {k: 1 for k in kids}, 0):
                same.append(e)
            else:
                ineq.append(e)
        # calls on the expression itself: those must not come back
        g = {}
        for e in same:
            g.setdefault(e[0], set()).add(e[1])
        for e in same:
            seen, todo = set(), [e[1]]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += g.get(x, ())
            c.need(e[0] not in seen, "descent/%s/%s" % (e[0][0], e[2]), e[5], "%s: on what it was given, again and again" % e[8], e[6], e[7], sample=e[8])
        # a measure of expressions that gets smaller in every other call
        ops = sorted({o for e in ineq for o in list(e[4][0]) + [e[2]] if o in ARITY})
        best = None
        used = sorted({o for e in ineq if e[4][0] for o in list(e[4][0]) + [e[2]] if o in ARITY})
        for ws in itertools.product((1, 2, 3, 4), repeat=len(used)):
            wt = {o: 1 for o in ops}
            wt.update(zip(used, ws))
            # an operand left out is worth at least 1
            bad = [e for e in ineq if not wt.get(e[2], 1) + len(e[3]) - len(e[4][1]) > sum(wt[o] * m for o, m in e[4][0].items()) + e[4][2]]
            if best is None or len(bad) < len(best[1]):
                best = (wt, bad)
            if not bad:
                break
        wt, bad = best
        for e in ineq:
            c.need(e not in bad, "descent/%s/%s" % (e[0][0], e[2]), e[5], "%s: no measure of expressions gets smaller" % e[8], e[6], e[7], sample=e[8])
        return len(same) + len(ineq)


def c23(c):
    setup(c)
    w, ip = c.w, c.w.ip
    d = Descent(c)
    x, v = w.name_sym("x"), w.expr_in("value")

    def node(t):
        return ("text", t[2]) if t[0] == "text" else (t[0], t[-1])

    def calls(frm, name, kids, s, where, span, e):
        for t in s.trace:
            if t[0] in ("agg", "deriv", "subst", "limit", "text"):
                d.add(frm, node(t), name, kids, t[1], s, where, span, "%s of %s calls %s of %s" % (frm[0], show(w, s, e), t[0], show(w, s, t[1])))

    for kind, more in (("agg", []), ("deriv", []), ("subst", [v])):
        for info in C.roots(w, kind):
            where, span = info["path"], c.span(info)
            for name, mk in shapes(w):
                def one():
                    st = State()
                    e, kids = mk(st)
                    outs = ip.enter(st, info, call_args(w, st, info, [e] + more, x))
                    for s, o in outs:
                        if o[0] == "cut":
                            c.fail("%s/%s/loop" % (kind, name), where, "a loop in the %s of %s was not seen to end" % (kind, name), s, span)
                        else:
                            c.ok(where)
                        calls((kind, info["id"]), name, kids, s, where, span, e)
                c.guard("%s/%s" % (kind, name), where, one)
    # the limit function uses the others, never they it
    for info in C.roots(w, "limit"):
        for kind in ("agg", "deriv", "subst"):
            for r in C.roots(w, kind):
                d.edges.append((("limit", info["id"]), (kind, r["id"]), "", (), None, info["path"], None, None, "limit calls " + kind))
    # texts, in every context
    t = p_text.texts(c)
    for ctx in t.ctxs:
        for n in t.names:
            def one():
                for s, e, kids, tree, ps in t.analyse(ctx, n):
                    if ps is None:
                        c.fail("text/%s/end" % n, "text of " + n, str(tree), s)
                    else:
                        c.ok("text of " + n)
                    calls(("text", ctx), n, kids, s, "text of " + n, None, e)
            c.guard("text/" + n, "text of " + n, one)
    n = d.decide()
    c.floor("recursive calls", n, 4 * (5 * 2 + 5))
    # number arithmetic: no loop and no recursion but the common divisor's
    ip.cuts = []
    C.install_gcd(w)

    def numbers(T, makers, ops, label):
        for op in ops:
            tr, m = BIN.get(op) or UN.get(op)
            k = 1 if op == "Neg" else 2
            info = w.has(tr, m, *([T] * k))
            if info is None:
                continue
            where, span = info["path"], c.span(info)
            for mks in itertools.product(makers, repeat=k):
                def one():
                    st = State()
                    args = [expr_arg(w, st, ty, mk(st, "ab"[i])) for i, (mk, ty) in enumerate(zip(mks, ip.arg_tys(info)))]
                    for s, o in ip.enter(st, info, args):
                        c.need(o[0] != "cut", "number/%s/loop" % op, where, "a loop in the %s of numbers was not seen to end" % op, s, span)
                c.guard("number/" + op, where, one)
    numbers(w.Val, [lambda st, nm, k=k, s=s: val(w, st, k, nm, s) for k, s in kinds()], AR + ["Neg"], "number")
    c.dep("C28", lambda c: c28(c, termination=True))
    new_ops(c)


# ------------------------------------------------------------------ C24
STD_OK = ("std::f64::", "std::f32::", "std::panicking::", "std::rt::panic", "std::rt::begin_panic", "std::collections::hash::map::HashMap",
          "std::collections::hash::set::HashSet", "std::hash::random::DefaultHasher",
          "std::num::", "<std::collections::hash::", "<std::hash::random::DefaultHasher")
HASH = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "std::hash::random::RandomState")
# what shows in which order a hash table happens to keep its entries
ORDER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if", "into_iter",
         "intersection", "union", "difference", "symmetric_difference", "fmt")
# what shows where something is in memory or how often it is shared
ADDRESS = ("core::fmt::rt::Argument::<'_>::new_pointer", "core::ptr::eq", "core::ptr::addr_eq", "core::ptr::hash", "core::ptr::fn_addr_eq")
ADDRESS_M = ("addr", "expose_provenance", "strong_count", "weak_count", "ptr_eq")

POINTERS = ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "hash", "offset_from", "align_offset", "is_aligned", "is_aligned_to",
            "byte_offset_from", "fmt", "guaranteed_eq", "guaranteed_ne", "to_bits")


def mod_of(path):
    """path of a function with the impl it is in taken as its type"""
    return path.lstrip("<&")


def effect_of(info, names):
    """why calling this function of another crate is an effect, or None"""
    p, kr, m = info["path"], info.get("krate"), info.get("method") or info["path"].rsplit("::", 1)[-1]
    q = mod_of(p)
    if p in ADDRESS or m in ADDRESS_M and ("ptr" in q or "::rc::" in q or "::sync::" in q):
        return "looks at where something is in memory"
    if any(h in n for h in HASH for n in names) and m in ORDER or q.startswith(("std::collections::hash",)) and m in ORDER:
        return "goes through a hash table in its own order"
    if q.startswith("std::hash::random::RandomState") or m in ("hash_one", "build_hasher") and any("RandomState" in n for n in names):
        return "uses a random number"
    if q.startswith(("core::ptr::const_ptr", "core::ptr::mut_ptr", "core::ptr::non_null")) and m in POINTERS:
        return "looks at where something is in memory"
    if q.startswith("core::panic::location::Location") and m.startswith("caller"):
        return "looks at where it is called from"
    if kr in ("core", "alloc"):
        if q.startswith(("core::arch", "core::core_arch")):
            return "uses machine instructions"
        # a hash table handed to something that goes through what it is given
        if any(h in n for h in HASH for n in names) and m in ("from_iter", "extend", "collect", "eq_by", "into_iter"):
            return "goes through a hash table in its own order"
        return None
    if kr == "std":
        if q.startswith("std::io::stdio::_print") or q.startswith("std::io::stdio::_eprint"):
            return "prints"
        if q.startswith("std::panicking::") and not m.startswith(("begin_panic", "panic")):
            return "uses how panics are handled (%s)" % p
        if p.startswith(STD_OK) or q.startswith(STD_OK):
            return None
        return "reaches outside the program (%s)" % p
    return "calls another crate (%s)" % kr


class Effects:
    """every function of the crate, as written and as instantiated, and what it mentions"""

    def __init__(self, w):
        self.w, self.srv = w, w.srv
        self.name = {}       # node -> path
        self.calls = {}      # node -> [(node, path)] for functions of the crate
        self.eff = {}        # node -> [effect]
        self.foreign = {}    # path of a function of another crate -> number of mentions
        self.sites = 0
        todo = []
        for f in w.ip.crate["fns"]:
            if not f["has_body"]:
                continue
            if "inst" in f:
                todo.append(f["inst"])
            else:
                b = self.srv.q(q="gbody", **{"def": f["def"]})
                self.start(("generic", f["def"]), f["path"], b)
                todo += self.walk(("generic", f["def"]), b, False)
        seen = set()
        while todo:
            info = todo.pop()
            if info["id"] in seen:
                continue
            seen.add(info["id"])
            node = ("fn", info["id"])
            b = self.srv.q(q="body", id=info["id"])
            self.start(node, info["path"], b)
            todo += self.walk(node, b, True)

    def start(self, node, path, b):
        self.name[node] = path
        self.calls[node], self.eff[node] = [], []
        if not b:
            self.eff[node].append("has no body to look at")

    def ty(self, i):
        return self.srv.q(q="ty", i=i)

    def parts(self, t):
        return list(t.get("args", ())) + list(t.get("elems", ())) + ([t["elem"]] if "elem" in t else [])

    def adts(self, i, out, depth=0):
        t = self.ty(i)
        if t["k"] == "adt":
            out.add(t["adt"])
        if depth < 8:
            for a in self.parts(t):
                self.adts(a, out, depth + 1)
        return out

    def functions(self, i, out, depth=0):
        """function types a type mentions: whoever has a value of the type may call them"""
        t = self.ty(i)
        if t["k"] == "fndef":
            out.append((i, t))
        elif t["k"] == "closure":
            out.append((i, t))
        if depth < 8 and t["k"] != "fnptr":
            for a in self.parts(t):
                self.functions(a, out, depth + 1)

    def walk(self, node, b, mono):
        more = []
        if not b:
            return more
        eff = self.eff[node]

        def visit(x):
            if isinstance(x, dict):
                for k, y in x.items():
                    if k == "const_" and isinstance(y, dict) and "ty" in y:
                        fs = []
                        self.functions(y["ty"], fs)
                        for i, t in fs:
                            more.extend(self.mention(node, i, t, mono))
                    elif k == "Aggregate" and isinstance(y, list) and isinstance(y[0], dict) and "Closure" in y[0]:
                        pass
                    elif k == "Cast" and isinstance(y, list) and ("ExposeAddress" in str(y[0]) or "ExposeProvenance" in str(y[0])):
                        eff.append("looks at where something is in memory")
                    elif k == "BinaryOp" and isinstance(y, list) and len(y) == 3 and any(self.pointer(b, o) for o in y[1:]):
                        eff.append("looks at where something is in memory")
                    elif k == "ThreadLocalRef":
                        eff.append("uses thread-local state")
                    elif k == "InlineAsm":
                        eff.append("uses machine instructions")
                    visit(y)
            elif isinstance(x, list):
                for y in x:
                    visit(y)
        visit(b["blocks"])
        # closures made here, found by the types of locals
        for l in b["locals"]:
            fs = []
            self.functions(l["ty"], fs)
            for i, t in fs:
                more.extend(self.mention(node, i, t, mono))
        return more

    def pointer(self, b, o):
        """an operand that is a pointer (a reference compares as what it refers to)"""
        if not isinstance(o, dict):
            return False
        p = o.get("Copy") or o.get("Move")
        if not isinstance(p, dict) or p.get("projection"):
            return False
        return self.ty(b["locals"][p["local"]]["ty"])["k"] in ("ptr", "fnptr")

    def mention(self, node, i, t, mono):
        self.sites += 1
        if not mono:
            # in a function with type parameters: the function as written
            if t["k"] == "closure":
                return []
            r = self.srv.q(q="resolve", i=i) if False else {"path": t["path"], "krate": t["krate"], "local": t["krate"] == self.w.ip.crate["name"]}
            if not r["local"]:
                self.outside(node, r, set())
            return []
        r = self.srv.q(q="resolve", i=i, **({"ckind": t.get("ckind", "FnOnce")} if t["k"] == "closure" else {}))
        if "err" in r:
            self.eff[node].append("calls a function that is not known (%s)" % t["name"])
            return []
        if r["local"]:
            if ("fn", r["id"]) not in self.calls[node]:
                self.calls[node].append(("fn", r["id"]))
            if not r.get("has_body"):
                return []
            return [r]
        names = set()
        for a in t.get("args", ()):
            self.adts(a, names)
        self.outside(node, r, names)
        return []

    def outside(self, node, r, names):
        self.foreign[r["path"]] = self.foreign.get(r["path"], 0) + 1
        e = effect_of(r, names)
        if e is not None and e not in self.eff[node]:
            self.eff[node].append(e)

    def cells(self, i, seen):
        """an interior-mutable type in what a value of this type owns or points to, or None"""
        if i in seen:
            return None
        seen.add(i)
        t = self.ty(i)
        if t["k"] == "dyn":
            return t["name"]
        if t["k"] == "adt":
            a = t["adt"]
            if a.startswith(("core::cell::", "core::sync::", "std::sync::", "std::thread::", "std::cell::")):
                return t["name"]
            if t.get("local"):
                todo = [f[1] for v in t["variants"] for f in v["fields"]]
            else:
                todo = t.get("args", [])
                if t.get("freeze") is False:
                    return t["name"]
        else:
            todo = self.parts(t)
        for x in todo:
            r = self.cells(x, seen)
            if r is not None:
                return r
        return None


def c24(c):
    w, ip = c.w, c.w.ip
    cr = ip.crate
    e = Effects(w)
    # only the demonstration program, and what only it calls, may print
    callers = {}
    for n, ys in e.calls.items():
        for y in ys:
            callers.setdefault(y, set()).add(n)
    demo = {n for n, p in e.name.items() if p == "main" or p.startswith("main::{closure")}
    grown = True
    while grown:
        grown = False
        for n in e.name:
            if n not in demo and callers.get(n) and callers[n] - {n} <= demo:
                demo.add(n)
                grown = True
    for n in sorted(e.name, key=lambda n: (e.name[n], str(n))):
        p = e.name[n]
        bad = [x for x in e.eff[n] if not (x == "prints" and n in demo)]
        if bad:
            path, q, seen = [p], n, {n}
            while callers.get(q, set()) - seen and len(path) < 6:
                q = sorted(callers[q] - seen, key=str)[0]
                seen.add(q)
                path.append(e.name[q])
            c.fail("effect/%s" % p, p, "%s (reached by %s)" % ("; ".join(bad), " <- ".join(path)))
        else:
            c.ok(p, sample="%s: %d functions of the crate, no effect" % (p, len(e.calls[n])))
    for s in cr["statics"]:
        cell = e.cells(s["ty"], set())
        c.need(not s["mut"] and s["freeze"] and not s["thread_local"] and cell is None, "static/" + s["name"], s["name"],
               "the static %s can change (%s)" % (s["name"], "mutable" if s["mut"] else "thread-local" if s["thread_local"] else cell or "interior mutability"),
               span=s["span"])
    for a in cr["adts"]:
        if "ty" not in a:
            continue
        cell = None
        t = e.ty(a["ty"])
        for v in t["variants"]:
            for f in v["fields"]:
                if e.ty(f[1])["k"] != "dyn":
                    x = e.cells(f[1], set())
                    cell = cell or (x if x is not None and not x.startswith("dyn ") and not x.startswith("(dyn ") else None)
        c.need(cell is None, "type/" + a["path"], a["path"], "a borrowed %s can be changed: it holds %s" % (a["path"], cell), span=a["span"])
    for b in cr["unsafe_blocks"]:
        c.fail("unsafe/block", b, "an unsafe block", span=b)
    for f in cr["fns"]:
        if f["unsafe"]:
            c.fail("unsafe/" + f["path"], f["path"], "an unsafe function", span=f["span"])
    for i in cr["impls"]:
        if i["unsafe"] and not i["derived"]:
            c.fail("unsafe/" + i["ref"], i["ref"], "an unsafe implementation")
    c.need(cr["foreign_modules"] == 0, "foreign", "crate", "functions of other languages are declared")
    c.counts["functions of other crates mentioned"] = len(e.foreign)
    c.counts["mentions of functions"] = e.sites
    c.notes.append("functions of other crates: " + ", ".join(sorted(e.foreign)))
    c.floor("functions of the crate", len(e.name), 150)
    c.floor("types", len(cr["adts"]), 15)
