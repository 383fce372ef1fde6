"""C30-C36: what the results of operations look like."""
from .common import *
from .p_expr import call_args, wrap, new_ops, w_agg
from .p_lim import analyse, BUDGETS, lim_calls, zero_number, kind, N, from_limit
from .p_tay import entries, tay_args, fields, TOP

ARITHMETIC = ("Add", "Sub", "Mul", "Div", "Neg")


def base(t):
    """what an operand, a child of an operand … is a part of"""
    while t[0] == "sym" and t[1] in ("fld", "child", "elem", "deref"):
        t = t[2][0]
    return t


# ------------------------------------------------------------------ the results looked at
def results(c, what, orders=None):
    """every result of the operations: yields (operation, shape, where, span, state, input, operands, result expression)"""
    w, ip = c.w, c.w.ip
    x, at, val = w.name_sym("x"), w.expr_in("at"), w.expr_in("v")
    for k, more in (("agg", []), ("deriv", []), ("subst", [val])):
        if k not in what:
            continue
        for info in C.roots(w, k):
            where, span = info["path"], c.span(info)
            for name, mk in shapes(w):
                got = []

                def one():
                    st = State()
                    e, kids = mk(st)
                    for s, v in rets(c, "%s/%s" % (k, name), where, ip.enter(st, info, call_args(w, st, info, [e] + more, x)), span):
                        v, err = unwrap(w, s.res(v))
                        if not err:
                            got.append((k, name, where, span, s, e, kids, C.value(w, s, v)))
                c.guard("%s/%s" % (k, name), where, one)
                yield from got
    if "limit" in what:
        outs, x_, to = analyse(c, orders or BUDGETS[c.tier])
        for name, e, kids, k, info, os in outs:
            where, span = info["path"], c.span(info)
            for s, v in rets(c, "limit/" + name, where, os, span):
                v, err = unwrap_lim(w, s, v)
                if err:
                    continue
                if v[0] == "adt" and v[3]:
                    yield ("limit", name, where, span, s, e, kids, C.value(w, s, v[3][0]))
                elif v[0] == "sym":
                    # a limit taken on the path, as it is
                    yield ("limit", name, where, span, s, e, kids, v)
    if "taylor" in what:
        f = fields(w)
        for info in entries(w):
            where, span = info["path"], c.span(info)
            for order in (0, 1, 2, 5) if c.tier == "quick" else range(TOP + 1):
                got = []

                def tay():
                    st = State()
                    e = w.expr_in("e")
                    for s, v in rets(c, "taylor", where, ip.enter(st, info, tay_args(w, st, info, e, x, at, order)), span):
                        v, err = unwrap(w, s.res(v))
                        if err:
                            continue
                        v = C.value(w, s, v)
                        cs = C.value(w, s, ip.get_field(s, v, None, f["coefficient"]))
                        if cs[0] != "arr":
                            raise Unsupported("coefficients are %s" % ip.show(cs))
                        for q in cs[1]:
                            got.append(("coefficient", "expansion", where, span, s, e, [e], C.value(w, s, q)))
                        got.append(("residual", "expansion", where, span, s, e, [e], C.value(w, s, ip.get_field(s, v, None, f["residual"]))))
                with joined(ip):
                    c.guard("taylor", where, tay)
                yield from got


def unwrap_lim(w, s, v):
    v = s.res(v)
    if v[0] == "sym" and v[1] == "limit":
        return v, False
    return (lambda r: (s.res(r[0]), r[1]))(unwrap(w, v))


# ------------------------------------------------------------------ C30
def unfinished(w, s, t):
    """a part of t that is not aggregated, or None"""
    t = C.value(w, s, t)
    b = base(t)
    if b[0] == "sym" and b[1] in ("agg", "deriv", "limit"):
        return None
    p = w.parts(s, t)
    if p is None:
        return "%s is not aggregated" % show(w, s, t)
    if p[0] != "op":
        return None
    for k in p[2]:
        bad = unfinished(w, s, k)
        if bad:
            return bad
    n, kids = p[1], p[2]
    if n not in ARITHMETIC:
        return None
    ks = [leaf_kind(w, s, k) for k in kids]
    if all(k not in ("other",) for k in ks) and not_all_numbers(w, s, kids, ks) is None:
        return "%s may be an operation on numbers only" % show(w, s, t)
    for i, tag in FORM.get(n, []):
        if (ks[i] in ("number", "?") or ks[i] == tag) and tag not in never(w, s, kids[i]):
            return "operand %d of %s may be the number %s" % (i + 1, show(w, s, t), tag.lower())
    return None


# operands an aggregated operation does not have
FORM = {"Add": [(0, "Zero"), (1, "Zero")], "Sub": [(0, "Zero"), (1, "Zero")], "Div": [(0, "Zero")],
        "Mul": [(0, "Zero"), (1, "Zero"), (0, "One"), (1, "One")]}


def aggregated_parent(w, s, k):
    """(what k is an operand of, its operation, which operand), if that is a part of something aggregated"""
    k = C.value(w, s, k)
    if k[0] != "sym" or k[1] != "child":
        return None
    par, i = k[2][0], k[2][1]
    b = base(k)
    if b[0] != "sym" or b[1] not in ("agg", "deriv", "limit"):
        return None
    root = w.quiet_field(s, par, w.e_root)
    if root is None or root[0] != "adt" or root[2] != w.ip.variant_index(w.Node, "Operator"):
        return None
    d = w.quiet_field(s, s.res(root[3][0]), w.o_desc)
    if d is None or d[0] != "adt":
        return None
    return par, w.ip.variants(w.OpT)[d[2]]["name"], i[1] if isinstance(i, tuple) else i


def never(w, s, k):
    """the numbers an operand of something aggregated is not"""
    p = aggregated_parent(w, s, k)
    if p is None:
        return ()
    if p[1] == "Neg":
        return ("Zero", "One")
    return [t for i, t in FORM.get(p[1], []) if i == p[2]]


def not_all_numbers(w, s, kids, ks):
    """why these operands, none of them known to be other than a number, are not all numbers; or None"""
    pars = {}
    for k in kids:
        p = aggregated_parent(w, s, k)
        if p is not None and p[1] in ARITHMETIC:
            pars.setdefault((p[0], p[1]), set()).add(p[2])
    for (par, n), idx in pars.items():
        if len(idx) == (1 if n == "Neg" else 2):
            return "operands of %s, which is aggregated" % show(w, s, par)
    return None


def leaf_kind(w, s, k):
    """other: certainly not a number; a constant's name; number; ?"""
    k = C.value(w, s, k)
    p = w.parts(s, k)
    if p is None:
        root = w.quiet_field(s, k, w.e_root)
        if root is not None and root[0] == "adt":
            if root[2] != w.ip.variant_index(w.Node, "Operand"):
                return "other"
            opd = s.res(root[3][0])
            if opd[0] == "adt" and opd[2] != w.ip.variant_index(w.Opd, "Num"):
                return "other"
        return "?"
    if p[0] != "num":
        return "other"
    t = w.quiet_field(s, p[1], w.n_tag)
    return w.ip.variants(w.Tag)[t[2]]["name"] if t is not None and t[0] == "adt" else "number"


def c30(c):
    setup(c)
    w = c.w
    seen = {}
    for op, name, where, span, s, e, kids, v in results(c, ("agg", "deriv", "limit", "taylor")):
        seen[op] = seen.get(op, 0) + 1
        bad = None if v[0] == "sym" and v[1] == "limit" else unfinished(w, s, v)
        c.need(bad is None, "form/%s/%s" % (op, name), where, lambda: "the result of %s of %s is %s: %s" % (op, show(w, s, e), show(w, s, v), bad), s, span,
               sample="%s of %s: %s" % (op, name, show(w, s, v)))
    for op, least in (("agg", 40), ("deriv", 12), ("limit", 20), ("coefficient", 10), ("residual", 4)):
        c.floor("results of " + op, seen.get(op, 0), least)
    new_ops(c)


# ------------------------------------------------------------------ C32
OF = ("agg", "deriv", "subst", "limit")


def variables(w, s, t, out=None, memo=None):
    """what the variables of t can be: names, and all those of an input with some taken out"""
    out = set() if out is None else out
    t = C.value(w, s, t)
    b = base(t)
    if b[0] == "sym" and b[1] in OF:
        if b[1] in ("agg", "deriv"):
            return variables(w, s, b[2][0], out)
        without(w, s, b[2][0], b[2][1], out)
        return variables(w, s, b[2][2], out)
    p = w.parts(s, t)
    if p is not None:
        if p[0] == "op":
            for k in p[2]:
                variables(w, s, k, out)
        elif p[0] == "var":
            nb = base(p[1])
            if nb[0] == "sym" and nb[1] in OF:
                return variables(w, s, nb, out)
            out.add(("name", p[1]))
        return out
    if b[0] == "sym" and b[1] == "in" and b[3] == w.E:
        out.add(("all", b, ()))
        return out
    raise Unsupported("variables of %s" % show(w, s, t))


def without(w, s, t, name, out):
    a = Alg(w, s, equations=False)
    for v in variables(w, s, t):
        if v[0] == "all":
            out.add(("all", v[1], v[2] + (a.find(name),)))
        elif v[0] == "name" and a.same_name(v[1], name) is True:
            continue
        elif v[0] == "name" and a.same_name(v[1], name) is None:
            out.add(("name-", v[1], a.find(name)))
        else:
            out.add(v)
    return out


def c32(c):
    setup(c)
    w, ip = c.w, c.w.ip
    x = w.name_sym("x")
    gone = {"subst": w.expr_in("v"), "limit": w.expr_in("to"), "coefficient": w.expr_in("at")}
    seen = {}
    for op, name, where, span, s, e, kids, v in results(c, ("agg", "deriv", "subst", "limit", "taylor")):
        seen[op] = seen.get(op, 0) + 1

        def one():
            a = Alg(w, s, equations=False)
            mine = variables(w, s, e)
            if op in gone:
                mine |= {("all", gone[op], ())}
            roots_ = {m[1] for m in mine if m[0] == "all"}
            names = [m[1] for m in mine if m[0] == "name"]
            bad = None
            for q in variables(w, s, v):
                if q[0] == "all":
                    if q[1] not in roots_:
                        bad = "variables of %s" % ip.show(q[1])
                    elif op in gone and q[1] != gone[op] and a.find(x) not in q[2]:
                        bad = "all variables of %s, also the one that should be gone" % ip.show(q[1])
                elif q[0] in ("name", "name-"):
                    if not any(a.same_name(q[1], m) is True for m in names) and base(q[1]) not in roots_:
                        bad = "the variable %s" % ip.show(q[1])
                    elif op in gone and q[0] == "name" and base(q[1]) != gone[op] and a.same_name(q[1], x) is not False:
                        bad = "%s, which may be the variable that should be gone" % ip.show(q[1])
            c.need(bad is None, "variables/%s/%s" % (op, name), where, lambda: "the result of %s of %s, %s, has %s" % (op, show(w, s, e), show(w, s, v), bad),
                   s, span, sample="%s of %s: %s" % (op, name, show(w, s, v)))
        c.guard("variables/%s/%s" % (op, name), where, one)
    for op, least in (("agg", 40), ("deriv", 12), ("subst", 13), ("limit", 20), ("coefficient", 10), ("residual", 4)):
        c.floor("results of " + op, seen.get(op, 0), least)
    new_ops(c)


# ------------------------------------------------------------------ C33
def size(w, s, t):
    """{part: how often} and a number: at most so large"""
    t = C.value(w, s, t)
    p = w.parts(s, t)
    if p is not None:
        occ, n = {}, 1
        for k in p[2] if p[0] == "op" else ():
            o, m = size(w, s, k)
            n += m
            for q, j in o.items():
                occ[q] = occ.get(q, 0) + j
        return occ, n
    return {t: 1}, 0


def larger(w, s, e, kids, v):
    occ, n = size(w, s, v)
    have, m = {}, 1
    for k in kids:
        for q, j in (size(w, s, k) if k in occ else size(w, s, w_agg(w, s, k)))[0].items():
            have[q] = have.get(q, 0) + j
        m += (size(w, s, k) if k in occ else size(w, s, w_agg(w, s, k)))[1]
    diff = {q: have.get(q, 0) - occ.get(q, 0) for q in set(have) | set(occ)}
    if any(j < 0 for j in diff.values()):
        return True
    return m - n + sum(diff.values()) < 0       # every part has at least size 1


def c33(c):
    setup(c)
    w = c.w
    n = 0
    for op, name, where, span, s, e, kids, v in results(c, ("agg",)):
        n += 1
        c.need(not larger(w, s, e, kids, v), "size/" + name, where, lambda: "%s aggregates to %s, which may be larger" % (show(w, s, e), show(w, s, v)), s, span,
               sample="%s -> %s" % (show(w, s, e), show(w, s, v)))
    c.floor("aggregation paths", n, 60)
    new_ops(c)


# ------------------------------------------------------------------ C34
def foreign(w, s, t):
    """a part of t that is no arithmetic, or None; operands are arithmetic, and what the operations make of them"""
    t = C.value(w, s, t)
    p = w.parts(s, t)
    if p is not None:
        if p[0] != "op":
            return None
        if p[1] not in ARITHMETIC:
            return "the operation %s" % p[1]
        for k in p[2]:
            bad = foreign(w, s, k)
            if bad:
                return bad
        return None
    b = base(t)
    if b[0] == "sym" and b[1] in ("agg", "deriv", "subst"):
        for x in b[2]:
            if isinstance(x, tuple) and x and w.ip.ty_of(x) == w.E:
                bad = foreign(w, s, x)
                if bad:
                    return bad
        return None
    if b[0] == "sym" and b[1] == "in":
        return None
    return show(w, s, t)


def c34(c):
    setup(c)
    w, ip = c.w, c.w.ip
    seen = {}
    for op, name, where, span, s, e, kids, v in results(c, ("agg", "deriv", "subst", "taylor")):
        if name in OPS and name not in ARITHMETIC:
            continue
        if not possible(w, s):
            continue
        seen[op] = seen.get(op, 0) + 1
        bad = foreign(w, s, v)
        if bad is None and op == "coefficient" and not (v[0] == "sym" and v[1] == "agg") and not (w.parts(s, v) or ("",))[0] == "num":
            bad = "it is not aggregated"
        c.need(bad is None, "arithmetic/%s/%s" % (op, name), where,
               lambda: "%s of the arithmetic expression %s is %s: %s" % (op, show(w, s, e), show(w, s, v), bad), s, span,
               sample="%s of %s: %s" % (op, name, show(w, s, v)))
        if op == "coefficient":
            t = v[2][0] if v[0] == "sym" else v
            bad = not_substituted(w, s, t)
            c.need(bad is None, "arithmetic/number", where, lambda: "a coefficient of an arithmetic expression in one variable is not a number: %s" % bad, s, span)
    for op, least in (("agg", 20), ("deriv", 7), ("subst", 8), ("coefficient", 10), ("residual", 4)):
        c.floor("results of " + op, seen.get(op, 0), least)
    from . import p_expr
    c.dep("C03", p_expr.c03)
    c.dep("C05", p_expr.c05)
    new_ops(c)


def not_substituted(w, s, t):
    """a part of t that is no number once the expression has no other variable and the point is a number"""
    t = C.value(w, s, t)
    p = w.parts(s, t)
    if p is not None:
        if p[0] == "op":
            for k in p[2]:
                bad = not_substituted(w, s, k)
                if bad:
                    return bad
            return None
        return None if p[0] == "num" else show(w, s, t)
    if t[0] == "sym" and t[1] == "agg":
        return not_substituted(w, s, t[2][0])
    if t[0] == "sym" and t[1] == "subst" and t[2][2] == w.expr_in("at"):
        return None
    if t == w.expr_in("at"):
        return None
    return show(w, s, t)


def possible(w, s):
    """no operand, and no part of one, is known to be other than arithmetic"""
    ip = w.ip
    for key in list(s.bind):
        if key[0] == "sym" and key[3] == w.OpT:
            v = s.res(key)
            if v[0] == "adt" and ip.variants(w.OpT)[v[2]]["name"] not in ARITHMETIC:
                b = base(key)
                if b[0] == "sym" and b[1] in ("agg", "deriv", "subst", "in"):
                    return False
    return True


# ------------------------------------------------------------------ C35
def c35(c):
    """a larger budget finds the same limit"""
    setup(c)
    w, ip = c.w, c.w.ip
    x, to = w.name_sym("x"), w.expr_in("to")
    top = 2 if c.tier == "quick" else 3
    n = large = 0
    for info in C.roots(w, "limit"):
        where, span = info["path"], c.span(info)
        T = [t for t in C.base_args(w, info) if t in PRIMS]
        if not T:
            raise Unsupported("limits without a budget")
        for name, mk in shapes(w):
            # each small budget, and any larger one (None)
            for order in list(range(top + 1)) + [None]:
                def one():
                    nonlocal n, large
                    st = State()
                    e, kids = mk(st)
                    if order is not None:
                        k, k1 = I(order, T[0]), I(order + 1, T[0])
                    else:
                        k = sym("in", ("budget",), T[0])
                        k1 = sym("add", (k, I(1, T[0])), T[0])
                        st.rng[k] = (top + 1, PRIMS[T[0]][1] - 1)
                    old = ip.loop_limit
                    ip.loop_limit = old if order is not None else 2
                    try:
                        outs1 = ip.enter(st, info, call_args(w, st, info, [e, to], x, [k]))
                        if order is None:
                            # how a loop goes on after its first rounds is left to the small budgets
                            outs1 = [q for q in outs1 if q[1][0] != "cut"]
                        for s, v in rets(c, "limit/" + name, where, outs1, span):
                            v = s.res(v)
                            if v[0] == "adt" and unwrap(w, v)[1]:
                                continue
                            n += 1
                            large += order is None
                            ip.stats["steps"] = 0
                            s2 = s.copy()
                            s2.trace = ()
                            # what the limits found with one more
                            found = {}
                            for key in list(s.bind) + ([v] if v[0] == "sym" else []):
                                if key[0] == "sym" and key[1] == "limit":
                                    r = s.res(key)
                                    if r[0] == "adt" and ip.adt(r[1]) == "core::result::Result" and ip.variants(r[1])[r[2]]["name"] != "Ok":
                                        continue
                                    b = offset(ip, s, k, key[2][3])
                                    if b is not None:
                                        found[key[2][:3] + (b,)] = r
                            for s3, o in again(c, info, s2, call_args(w, s2, info, [e, to], x, [k1]), k1, found):
                                if o[0] != "ret":
                                    if o[0] == "cut" and order is not None:
                                        c.fail("budget/" + name, where, "a loop was not decided", s3, span)
                                    continue
                                got = s3.res(o[1])
                                good = c.need(C.deep(w, s3, got) == C.deep(w, s3, v), "budget/" + name, where,
                                       lambda: "the limit of %s is %s with budget %s but %s with budget %s" % (
                                           show(w, s3, e), show(w, s3, v), ip.show(k), show(w, s3, got), ip.show(k1)), s3, span,
                                       sample="%s with budget %s and %s: %s" % (name, ip.show(k), ip.show(k1), show(w, s3, v)))
                                if not good:
                                    return
                    finally:
                        ip.loop_limit = old
                c.guard("budget/" + name, where, one)
    c.floor("limits found with two budgets", n, 60)
    c.floor("limits found with a budget above %d" % top, large, 20)
    new_ops(c)


def offset(ip, s, k, k2):
    """k2 as k plus a constant, or as a constant"""
    k, k2 = s.res(k), s.res(k2)
    n, t = 0, k2
    while t != k and t[0] == "sym" and t[1] in ("sub", "add"):
        a, b = s.res(t[2][0]), s.res(t[2][1])
        if t[1] == "add" and a[0] == "i":
            a, b = b, a
        if b[0] != "i":
            return None
        n += b[1] if t[1] == "add" else -b[1]
        t = a
    if t == k and k[0] != "i":
        return ("k", n)
    if t[0] == "i" and k[0] == "i":
        return ("k", t[1] + n - k[1])
    return None


def again(c, info, st, args, k, found):
    """the function with a budget one larger: limits found before are found again"""
    w, ip = c.w, c.w.ip

    def pred(i):
        return C.contract_of(w, i) == "limit"

    def handler(ip_, s, i, a):
        outs = C.apply(w, "limit", ip, s, i, a)
        for s3, o in outs:
            t = o[1]
            if s3.res(t) == t:
                r = found.get(t[2][:3] + (offset(ip, s3, k, t[2][3]),))
                if r is not None and r != t:
                    s3.bind[t] = r
        return outs
    ip.cuts.insert(0, (pred, handler))
    try:
        return ip.enter(st, info, args)
    finally:
        ip.cuts.pop(0)


# ------------------------------------------------------------------ C36
def c36(c):
    """aggregating a result of aggregation again changes nothing, in no part of it"""
    setup(c)
    w, ip = c.w, c.w.ip
    info = C.roots(w, "agg")[0]
    seen = {}

    def final(s, t):
        """a part of something aggregated (induction: all its parts stay what they are)"""
        b = base(t)
        return b[0] == "sym" and b[1] in ("agg", "deriv", "limit")

    def pred(i):
        return C.contract_of(w, i) == "agg"

    def handler(ip_, s, i, a):
        t = C.value(w, s, a[0])
        if final(s, t):
            return [(s, ("ret", t))]
        if w.parts(s, t) is not None:
            return ip.enter(s, i, a)
        return C.apply(w, "agg", ip, s, i, a)

    for op, name, where, span, s, e, kids, v in results(c, ("agg", "deriv", "limit", "taylor")):
        seen[op] = seen.get(op, 0) + 1
        if final(s, v):
            c.ok(where, sample="%s of %s: %s is aggregated" % (op, name, show(w, s, v)))
            continue

        def one():
            s2 = s.copy()
            s2.trace = ()
            ip.stats["steps"] = 0
            ip.cuts.insert(0, (pred, handler))
            try:
                outs = ip.enter(s2, info, [wrap(w, s2, info, 0, v)])
            finally:
                ip.cuts.pop(0)
            for s3, o in rets(c, "again/%s/%s" % (op, name), where, outs, span):
                got, err = unwrap(w, s3.res(o))
                c.need(not err and C.deep(w, s3, got) == C.deep(w, s3, v), "again/%s/%s" % (op, name), where,
                       lambda: "the result of %s of %s is %s; aggregating it gives %s" % (op, show(w, s3, e), show(w, s3, v), show(w, s3, got)), s3, span,
                       sample="%s of %s: %s stays" % (op, name, show(w, s3, v)))
        c.guard("again/%s/%s" % (op, name), where, one)
    for op, least in (("agg", 40), ("deriv", 12), ("limit", 20), ("coefficient", 10), ("residual", 4)):
        c.floor("results of " + op, seen.get(op, 0), least)
    new_ops(c)
