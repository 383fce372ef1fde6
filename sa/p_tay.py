"""C06, C07: Taylor expansions and their text."""
import itertools
from fractions import Fraction
from math import factorial
from .common import *
from .p_num import fmt_text, norm_pieces, show_pieces
from .p_expr import wrap
from .p_text import texts, Reader, Unreadable, SUM
from . import p_expr, p_num, p_text

TOP = 20     # 21! does not fit 64 bits


def entries(w):
    """every implementation of the expansion of an expression: (function, how its arguments are made)"""
    ip = w.ip
    out = []
    for f in ip.crate["fns"]:
        i = f.get("inst")
        if i and i.get("trait") == C.TAY[0] and i.get("method") == C.TAY[1]:
            out.append(i)
    if not out:
        raise Missing("no expansion of expressions")
    return out


def tay_args(w, st, info, e, x, at, n):
    """arguments by type: the first expression is expanded, the last is the point; the variable is between them"""
    ip = w.ip
    ts = C.base_args(w, info)
    es = [i for i, T in enumerate(ts) if T == w.E]
    out = []
    for i, T in enumerate(ts):
        if T == w.E:
            out.append(wrap(w, st, info, i, e if i == 0 else at if i == es[-1] else w.mk_var(x)))
        elif T == w.Var:
            out.append(wrap(w, st, info, i, w.mk_varname(x)))
        elif T in PRIMS:
            out.append(wrap(w, st, info, i, I(n, T)))
        else:
            raise Unsupported("argument of type %s of %s" % (ip.tname(T), info["path"]))
    if len(es) not in (2, 3) or len(es) == 2 and w.Var not in ts or es[0] != 0:
        raise Unsupported("arguments of %s" % info["path"])
    return out


def fields(w):
    ip = w.ip
    return {k: ip.field_index(w.Tay, k) for k in ("order", "of", "at", "coefficient", "residual")}


def c06(c):
    with joined(c.w.ip):
        expansions(c)
    # what an expansion is made of
    c.dep("C02", p_expr.c02)
    c.dep("C04", p_expr.c04)
    c.dep("C05", p_expr.c05)


def expansions(c):
    setup(c)
    w, ip = c.w, c.w.ip
    f = fields(w)
    x, at = w.name_sym("x"), w.expr_in("at")
    n = 0
    es = [("any", lambda st: w.expr_in("e"))]
    if c.tier == "thorough":
        es += [(nm, lambda st, mk=mk: mk(st)[0]) for nm, mk in shapes(w)]
    for info in entries(w):
        where, span = info["path"], c.span(info)
        before = len(c.bad)
        for label, mk in es:
            # what is known of the expression beforehand matters to the first derivatives only
            for order in range((TOP + 3 if c.tier == "quick" else TOP + 13) if label == "any" else 6):
                if len(c.bad) > before:
                    break       # reported already

                def one():
                    nonlocal n
                    st = State()
                    e = mk(st)
                    some = False
                    for s, v in rets(c, "expansion", where, ip.enter(st, info, tay_args(w, st, info, e, x, at, order)), span):
                        if Alg(w, s).infeasible:
                            continue
                        n += 1
                        some = True
                        v, err = unwrap(w, s.res(v))
                        if err:
                            c.fail("expansion/error", where, "expanding to order %d reports an error" % order, s, span)
                            continue
                        v = C.value(w, s, v)
                        g = lambda k: C.value(w, s, ip.get_field(s, v, None, f[k]))
                        a = Alg(w, s)
                        p = w.parts(s, g("of"))
                        c.need(g("order") == I(order, ip.fty(w.Tay, 0, f["order"])), "expansion/order", where,
                               lambda: "the expansion to order %d says its order is %s" % (order, ip.show(g("order"))), s, span)
                        c.need(p is not None and p[0] == "var" and a.same_name(C.value(w, s, p[1]), x), "expansion/variable", where,
                               lambda: "the expansion in x says it is in %s" % show(w, s, g("of")), s, span)
                        c.need(C.deep(w, s, g("at")) == C.deep(w, s, at), "expansion/point", where,
                               lambda: "the expansion around the point says it is around %s" % show(w, s, g("at")), s, span)
                        cs = g("coefficient")
                        if cs[0] not in ("arr",):
                            raise Unsupported("coefficients are %s" % ip.show(cs))
                        if not c.need(len(cs[1]) == order + 1, "expansion/count", where,
                                      "the expansion to order %d has %d coefficients" % (order, len(cs[1])), s, span):
                            continue
                        d = a.expr(e)
                        for k, q in enumerate(cs[1]):
                            want = a.S(d, x, a.expr(at)) * R.c(Fraction(1, factorial(k)))
                            try:
                                got = a.expr(q)
                                bad = None if a.same(got, want) else a.show(got)
                            except Undefined:
                                bad = "undefined"
                            c.need(bad is None, "expansion/coefficient", where,
                                   lambda: "coefficient %d of the expansion to order %d is %s instead of %s" % (k, order, bad, a.show(want)), s, span,
                                   sample="order %d, coefficient %d: %s" % (order, k, show(w, s, q)) if order == 2 else None)
                            d = a.D(d, x)
                        c.need(a.same(a.expr(g("residual")), d), "expansion/residual", where,
                               lambda: "the residual of order %d is %s instead of the derivative of order %d" % (order, a.show(a.expr(g("residual"))), order + 1),
                               s, span)
                    c.need(some or order > TOP, "expansion/none", where, "expanding to order %d gives nothing" % order, None, span)
                c.guard("expansion", where, one)
    c.floor("expansions", n, 2 * (TOP + 1))


def coefficient(t, w, kind, k, st):
    """a coefficient of a kind"""
    if kind == "zero":
        return t.make(st, "number 0", "c%d" % k)[0]
    if kind == "any":
        return w.expr_in("c%d" % k)
    return t.make(st, kind, "c%d" % k)[0]


def patterns(names, tier):
    """which kinds of coefficients are put together"""
    rest = [n for n in names if n != "number 0"]
    out = []
    for n in names:
        out.append([n])
    for n in rest:       # beside a zero and beside one of its own kind, at either end
        out += [[n, "zero"], ["zero", n], [n, n], [n, "zero", n], ["zero", n, n]]
    out += [list(p) for k in (2, 3) for p in itertools.product(("zero", "number integer", "Add"), repeat=k)]
    for size in ((6, 11, 21) if tier == "quick" else range(4, TOP + 2)):
        out.append(["zero"] * size)
        out.append([rest[i % len(rest)] for i in range(size)])
        out.append(["zero" if i % 2 else rest[i % len(rest)] for i in range(size)])
        out.append(["zero"] * (size - 1) + ["number negative integer"])
    return out


def remainder(ps):
    """(the pieces before the remainder term, the pieces inside it), or an error"""
    ps = list(ps)
    if not ps or not isinstance(ps[-1], str) or not ps[-1].endswith(")"):
        raise Unreadable("it does not end in a remainder term")
    for i in range(len(ps) - 1, -1, -1):
        if isinstance(ps[i], str) and "O(" in ps[i]:
            j = ps[i].rindex("O(")
            before = ps[:i] + ([ps[i][:j]] if ps[i][:j] else [])
            inner = [ps[i][j + 2:]] + ps[i + 1:]
            inner[-1] = inner[-1][:-1]
            inner = [p for p in inner if p != ""]
            if before and isinstance(before[-1], str):
                b = before[-1].rstrip()
                if b:
                    if not b.endswith("+"):
                        raise Unreadable("the remainder term is not added")
                    b = b[:-1].rstrip()
                before = before[:-1] + ([b] if b else [])
            elif before:
                raise Unreadable("the remainder term is not added")
            return before, inner
    raise Unreadable("there is no remainder term")


def c07(c):
    t = texts(c)
    w, ip = c.w, c.w.ip
    C.install_numbers(w)
    f = fields(w)
    x, at = w.name_sym("x"), w.expr_in("at")
    paths = 0
    where = "<PartialExpansion as Display>::fmt"
    info = w.has("core::fmt::Display", "fmt", w.Tay)
    if info is None:
        raise Missing("the text of an expansion")
    where, span = info["path"], c.span(info)

    def one(kinds):
        nonlocal paths
        st = State()
        n = len(kinds) - 1
        cs = [coefficient(t, w, k, i, st) for i, k in enumerate(kinds)]
        fs = [None] * 5
        fs[f["order"]] = I(n, ip.fty(w.Tay, 0, f["order"]))
        fs[f["of"]] = w.mk_var(x)
        fs[f["at"]] = at
        fs[f["coefficient"]] = ("arr", tuple(cs))
        fs[f["residual"]] = w.expr_in("residual")
        v = ("adt", w.Tay, 0, tuple(fs))
        label = "order %d, coefficients %s" % (n, ", ".join(kinds))
        for s, o in fmt_text(w, st, None, v):
            paths += 1
            if o[0] != "text":
                if o[0] == "panic" and "overflow" in str(o):
                    continue
                c.fail("text/end", where, "%s: ends in %s" % (label, o), s, span)
                continue
            ps = norm_pieces(w, s, o[1])
            a = Alg(w, s)
            text = show_pieces(w, s, ps)
            try:
                before, inner = remainder(ps)
                tree = Reader(before).read() if before else None
                rem = Reader(inner).read()
            except Unreadable as e:
                c.fail("text/read", where, "%s prints as %s, which cannot be read: %s" % (label, text, e), s, span)
                continue
            b = a.expr(w.mk_var(x)) - a.expr(at)
            bad = None
            for tr, req in ((tree, SUM), (rem, SUM)):
                if tr is not None and bad is None:
                    m = t.misread(s, tr, req)
                    if m:
                        bad = "is misread: the text of %s %s" % (ip.show(m[0][1][1]), m[1])
            if bad is None:
                try:
                    want = ZERO
                    for k, q in enumerate(cs):
                        want = want + a.expr(q) * a.ipow(b, k)
                    got = t.value(a, tree) if tree is not None else ZERO
                    if not a.same(got, want):
                        bad = "is read as %s instead of %s" % (a.show(got), a.show(want))
                    elif not a.same(t.value(a, rem), a.ipow(b, n + 1)):
                        bad = "has the remainder term O(%s) instead of O(%s)" % (a.show(t.value(a, rem)), a.show(a.ipow(b, n + 1)))
                except Unreadable as e:
                    bad = "cannot be read: %s" % e
                except Undefined:
                    bad = "is read as a division by zero"
            c.need(bad is None, "text/expansion", where, lambda: "%s prints as %s, which %s" % (label, text, bad), s, span,
                   sample="%s: %s" % (label, text))
    for kinds in patterns(t.names, c.tier):
        c.guard("text", where, lambda: one(kinds))
    c.floor("texts of expansions", paths, 100)
    c.dep("C08", p_text.c08)
