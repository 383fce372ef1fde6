"""Inputs and helpers shared by the checks."""
from contextlib import contextmanager
from .interp import *
from .core import OPS, ARITY, Missing, strip_ref
from .alg import Alg, R, ZERO, ONE, Undefined
from . import contracts as C


@contextmanager
def joined(ip, above=8):
    """paths are joined at the heads of loops once a call has finished as many"""
    old, ip.join_above = ip.join_above, above
    try:
        yield
    finally:
        ip.join_above = old


def setup(c, numbers=True):
    """contracts of the recursive operations and of number arithmetic"""
    w = c.w
    w.optable()
    C.install(w)
    if numbers:
        C.install_numbers(w)


def shapes(w):
    """every root an expression can have: (name, maker(st) -> (expression, operands))"""
    def op(n):
        def mk(st, pre="c"):
            kids = [w.expr_in("%s%d" % (pre, i)) for i in range(ARITY[n])]
            return w.mk_op(st, n, kids), kids
        return mk
    out = [(n, op(n)) for n in OPS]
    out.append(("number", lambda st, pre="c": (w.mk_num(sym("in", (pre + "n",), w.Num)), [])))
    out.append(("variable", lambda st, pre="c": (w.mk_var(w.name_sym(pre + "name")), [])))
    return out


def ops_of_program(w):
    """the operations the program knows: a new one is outside what was analysed"""
    return [v["name"] for v in w.ip.variants(w.OpT)]


def unwrap(w, v):
    """(value, is error) of a Result or plain value"""
    if v[0] == "adt" and w.ip.adt(v[1]) in ("core::result::Result",):
        ok = w.ip.variants(v[1])[v[2]]["name"] == "Ok"
        return v[3][0], not ok
    if v[0] == "sym" and w.ip.adt(v[3]) == "core::result::Result":
        raise Unsupported("unknown result %s" % w.ip.show(v))
    return v, False


def opt(w, v):
    """what an option or result holds, or None; it has to be known which"""
    if v[0] == "adt" and w.ip.adt(v[1]) == "core::result::Result":
        return v[3][0] if w.ip.variants(v[1])[v[2]]["name"] == "Ok" else None
    if v[0] == "adt" and w.ip.adt(v[1]) == "core::option::Option":
        n = w.ip.variants(v[1])[v[2]]["name"]
        return v[3][0] if n == "Some" else None
    raise Unsupported("unknown option %s" % w.ip.show(v))


def rets(c, key, where, outs, span=None):
    """the returning outcomes; a path the analysis gave up on is reported"""
    r = []
    for s, o in outs:
        if o[0] == "ret":
            r.append((s, o[1]))
        elif o[0] == "cut":
            c.fail(key + "/unbounded", where, "a loop of unknown length was not decided", s, span)
    return r


def overflow(w, s, o):
    """is this panic one of fixed-width overflow: a checked operation, or the message given for a
    conversion of a value that does not fit"""
    return o[1] == "overflow" or o[1] == "panic" and any(f[0] == "rng" for f in s.facts) and "overflow" in str(o[2])


def same_expr(w, st, a, b):
    """structurally the same expression"""
    return C.deep(w, st, a) == C.deep(w, st, b)


def show(w, st, v):
    return w.ip.show(C.deep(w, st, v))


# ------------------------------------------------------------ where an expression is defined
def conds(a, e, out=None):
    """conditions for e to be defined, beyond those of the operands it is built from"""
    w, st = a.w, a.st
    out = [] if out is None else out
    e = C.value(w, st, e)
    p = w.parts(st, e)
    if p is None:
        if e[0] == "sym" and e[1] == "agg":
            return conds(a, e[2][0], out)
        if e[0] == "sym" and e[1] == "deriv":
            q = w.parts(st, C.value(w, st, e[2][0]))
            if q is not None:
                # of a known expression: where it and the derivatives of its operands are
                conds(a, e[2][0], out)
                for k in q[2] if q[0] == "op" else ():
                    conds(a, sym("deriv", (k, e[2][1]), w.E), out)
                return out
        out.append(("def", a.key(e)))
        return out
    if p[0] == "num":
        n = C.value(w, st, p[1])
        num_conds(a, n, out)
        return out
    if p[0] == "var":
        return out
    for k in p[2]:
        conds(a, k, out)
    if p[1] == "Div":
        out.append(("nz", a.expr(p[2][1])))
    if p[1] == "Ln":
        out.append(("pos", a.expr(p[2][0])))
    if p[1] == "Pow":
        out.append(("pow", a.expr(p[2][0]), a.expr(p[2][1])))
    return out


def num_conds(a, n, out):
    if n[0] == "sym" and n[1] in ("nadd", "nsub", "nmul", "ndiv", "nneg"):
        for x in n[2]:
            num_conds(a, C.value(a.w, a.st, x), out)
        if n[1] == "ndiv":
            out.append(("nz", a.number(n[2][1])))


def implied(a, q, given):
    """does q follow from the conditions given"""
    def nz_atoms():
        s = set()
        for g in given:
            if g[0] in ("nz", "pos") and len(g[1].n) == 1:
                s |= {x for m in g[1].n for x, _ in m}
        return s

    def nz(r):
        k = r.const()
        if k is not None:
            return k != 0
        for g in given:
            if g[0] in ("nz", "pos") and prop(a.red(r.n), a.red(g[1].n)):
                return True
        if len(r.n) == 1:
            ok = nz_atoms()
            return all(x in ok or a.names[x][0] in ("exp", "pi", "e") or number_nz(a, x) for m in r.n for x, _ in m)
        return a.positive(r)
    if q[0] == "def":
        return q in given
    if q[0] == "nz":
        return nz(q[1])
    if q[0] == "pos":
        if a.positive(q[1]):
            return True
        return any(g[0] == "pos" and a.eq(g[1], q[1]) for g in given)
    if q[0] == "pow":
        k = q[2].const()
        if k is not None and k.denominator == 1:
            return k > 0 or k == 0 or nz(q[1])
        if a.positive(q[1]):
            return True
        if any(g[0] == "pow" and a.eq(g[1], q[1]) and a.eq(g[2], q[2]) for g in given):
            return True
        return any(g[0] == "pos" and a.eq(g[1], q[1]) for g in given)
    return False


def number_nz(a, x):
    k = a.names[x]
    if k[0] != "n":
        return False
    tag = a.w.quiet_field(a.st, k[1], a.w.n_tag)
    val = a.w.quiet_field(a.st, k[1], a.w.n_val)
    if tag[0] == "adt" and a.ip.variants(a.w.Tag)[tag[2]]["name"] in ("One", "Pi", "E"):
        return True
    if tag[0] == "adt" and val[0] == "adt" and a.ip.variants(a.w.Tag)[tag[2]]["name"] == "Nothing" and \
            a.ip.variants(a.w.Val)[val[2]]["name"] == "Integer":
        return True
    lo, hi = a.ip.itv(a.st, sym("nsign", (k[1],), "i64"))
    return lo > 0 or hi < 0


def prop(p, q):
    """is p a non-zero multiple of q"""
    if set(p) != set(q) or not p:
        return False
    m = next(iter(p))
    k = p[m] / q[m]
    return all(p[x] == k * q[x] for x in p)
