"""C09: no panics."""
import re
from .common import *
from . import p_expr, p_build, p_num, p_lim, p_text, p_tay, p_show

NUMBERS = ("smart_num::",)


# functions of the standard library without a model that panic when an index, a boundary or a result is off
PANICKY = ("split_at", "split_at_mut", "index", "index_mut", "insert", "insert_str", "remove", "truncate", "split_off", "drain", "replace_range",
           "swap_remove", "splice", "swap", "copy_from_slice", "clone_from_slice", "copy_within", "rotate_left", "rotate_right", "chunks",
           "chunks_exact", "rchunks", "windows", "step_by", "range", "borrow", "borrow_mut", "from_digit", "to_digit", "is_digit", "pow", "ilog",
           "ilog2", "ilog10", "div_euclid", "rem_euclid", "isqrt", "next_power_of_two", "next_multiple_of", "div_ceil", "clamp", "sum", "product",
           "select_nth_unstable", "from_fn", "array_chunks", "unwrap_unchecked", "unreachable_unchecked", "repeat")


class Quiet:
    """runs what other checks explore, leaving their verdicts to them"""

    def __init__(self, c):
        self.c = c
        self.w, self.tier, self.pid = c.w, c.tier, c.pid
        self.n = self.done = 0
        self.sites = {}
        self.counts, self.notes, self.samples, self.prefix, self.bad = {}, [], [], "", {}

    def ok(self, *a, **k):
        pass

    fail = ok

    def need(self, cond, *a, **k):
        return cond

    def span(self, info):
        return self.c.span(info)

    def guard(self, key, where, f):
        self.w.ip.stats["steps"] = 0
        try:
            return f()
        except (Unsupported, Missing, Undefined, RecursionError):
            return None

    def dep(self, pid, f):
        pass         # has its own turn

    def floor(self, *a):
        pass


def number_code(ip, info):
    """is this a function of the numbers: of their module, or of their types"""
    if any(n in info["path"] for n in NUMBERS):
        return True
    return "self_ty" in info and str(ip.adt(ip.canon(info["self_ty"])) or "").startswith(NUMBERS)


def overflow(w, s, o):
    """fixed-width overflow in number arithmetic: in its code, or in what that calls"""
    return p_num.overflow(w, s, o) and any(number_code(w.ip, w.ip.infos[i]) for i in o[4])


PARTS = [("C01", p_build.c01), ("C02", p_expr.c02), ("C03", p_expr.c03), ("C04", p_expr.c04), ("C05", p_expr.c05), ("C10", p_build.c10),
         ("C11", p_num.c11), ("C12", p_num.c12), ("C13", p_num.c13), ("C14", p_num.c14), ("C15", p_num.c15), ("C16", p_num.c16),
         ("C17", p_num.c17), ("C25", p_num.c25), ("C27", p_build.c27), ("C28", p_num.c28), ("C18", p_lim.c18), ("C19", p_lim.c19),
         ("C22", p_lim.c22), ("C08", p_text.c08), ("C06", p_tay.c06), ("C07", p_tay.c07), ("C29", p_show.c29)]


def c09(c):
    w, ip = c.w, c.w.ip
    seen, left = {}, []

    def watch(info, args, outs, err):
        where = info["path"]
        if not info["local"]:
            return
        if err is not None:
            # the check whose exploration this is reports it; here it counts as not explored
            m = re.search("no model for ([^ ]+)", str(err))
            std = [m.group(1)] if m else []
            std += [ip.infos[i]["path"] for i in getattr(err, "stack", ()) if i in ip.infos and not ip.infos[i]["local"]]
            for f in std:
                if f.rsplit("::", 1)[-1] in PANICKY:
                    c.fail("panic/%s/%s" % (where, f), where, "%s calls %s, which panics for some arguments" % (where, f), None, c.span(info))
                    break
            left.append("%s: %s" % (where, err))
            return
        for s, o in outs:
            if o[0] in ("ret", "cut") or o[0] == "panic" and overflow(w, s, o):
                c.ok(where, sample="%s(%s) ends in an overflow of number arithmetic, when %s" % (
                    where, ", ".join(ip.show(a) for a in args), ip.show_facts(s)) if o[0] == "panic" and seen.setdefault(where, 0) == 0 else None)
                seen[where] = 1
                continue
            at = [ip.infos[i]["path"] for i in o[4] if ip.infos[i]["local"]] if len(o) > 4 else []
            c.fail("panic/%s/%s" % (where, o[1] if len(o) > 1 else o[0]), where, "%s(%s) panics: %s%s" % (
                where, ", ".join(ip.show(a) for a in args), " ".join(str(x) for x in o[1:4]), ", through " + " > ".join(at) if at else ""), s, c.span(info))
    ip.watch = watch
    n = 0
    try:
        for pid, f in PARTS:
            ip.cuts, ip.stack = [], []
            before = c.n
            try:
                f(Quiet(c))
            except (Unsupported, Missing, Undefined) as e:
                # the other check says what it could not find; what is reachable is looked at below
                c.notes.append("%s stopped: %s" % (pid, e))
            finally:
                ip.cuts, ip.stack = [], []
            c.counts["calls explored as in " + pid] = c.n - before
            if c.n > before:
                n += 1
    finally:
        ip.watch = None
    c.counts["calls not explored (reported by the check they belong to)"] = len(left)
    for x in left[:20]:
        c.notes.append("not explored: " + x)
    c.floor("families of operations explored", n, len(PARTS))
    c.floor("outcomes", c.n, 5000)
