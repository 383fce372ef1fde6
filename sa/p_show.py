"""C29: limit values, leaves, operations and errors are printed as what they are."""
from .common import *
from .p_num import fmt_text, norm_pieces, show_pieces, nums
from .p_build import var_variants, expr_arg
from .p_text import texts

LIMIT_TEXT = {"Infinitesimal": "0", "Infinity": "infinity", "BoundedFluctuation": "~"}


def text_in(w, s, v, t=None):
    """the one text of v on the paths of s: [(state, pieces or None, outcome)]; with t, texts of known leaves are spelt out"""
    out = []
    todo = list(fmt_text(w, s.copy(), None, v))
    while todo:
        s2, o = todo.pop()
        ps = norm_pieces(w, s2, o[1]) if o[0] == "text" else None
        for i, p in enumerate(ps or ()):
            if t is not None and not isinstance(p, str) and p[1][0] == "sym" and p[1][1] == "text":
                e, ctx = p[1][2]
                q = w.parts(s2, C.value(w, s2, e))
                if q is not None and q[0] != "op":
                    for s3, o3 in t.enter(ctx, s2.copy(), C.value(w, s2, e)):
                        todo.append((s3, ("text", tuple(ps[:i]) + tuple(o3[1]) + tuple(ps[i + 1:])) if o3[0] == "text" else o3))
                    break
        else:
            out.append((s2, ps, o))
    return out


def contains(ps, qs):
    """do the pieces ps contain the pieces qs in a row (texts at the ends of qs may be parts of longer ones)"""
    if not qs:
        return True
    for i in range(len(ps)):
        ok = i + len(qs) <= len(ps)
        for j, q in enumerate(qs):
            if not ok:
                break
            p = ps[i + j]
            if isinstance(q, str) and isinstance(p, str):
                if len(qs) == 1:
                    ok = q in p
                elif j == 0:
                    ok = p.endswith(q)
                elif j == len(qs) - 1:
                    ok = p.startswith(q)
                else:
                    ok = p == q
            else:
                ok = p == q
        if ok:
            return True
    return False


def same_text(c, t, key, where, w, st, v, want, what, span=None):
    """v prints as want (pieces, or another value's text)"""
    n = 0
    for s, ps, o in text_in(w, st, v, t):
        if ps is None:
            if not (o[0] == "panic" and "overflow" in str(o)):
                c.fail(key, where, "%s does not print: %s" % (what, o[:3]), s, span)
            continue
        for s2, qs in [(s, [want])] if isinstance(want, str) else [(x, q) for x, q, _ in text_in(w, s, want, t)]:
            if qs is None:
                continue
            n += 1
            qs = norm_pieces(w, s2, qs)
            ps2 = norm_pieces(w, s2, ps)
            c.need(ps2 == qs, key, where, lambda: "%s prints as %s instead of %s" % (what, show_pieces(w, s2, ps2), show_pieces(w, s2, qs)), s2, span,
                   sample="%s prints as %s" % (what, show_pieces(w, s2, ps2)))
    c.need(n > 0, key + "/none", where, "%s has no text" % what, None, span)


def c29(c):
    t = texts(c)
    w, ip = c.w, c.w.ip
    C.install_numbers(w)
    # limit values
    L = w.Lim
    for k, var in enumerate(ip.variants(L)):
        where = "text of the limit value %s" % var["name"]

        def one():
            st = State()
            if var["name"] in LIMIT_TEXT:
                same_text(c, t, "limit/" + var["name"], where, w, st, ("adt", L, k, ()), LIMIT_TEXT[var["name"]], "the limit value " + var["name"])
            elif var["name"] == "Normal":
                e = w.expr_in("e")
                same_text(c, t, "limit/Normal", where, w, st, ("adt", L, k, (e,)), e, "an ordinary limit")
            else:
                c.fail("limit/" + var["name"], where, "a new kind of limit value: %s" % var["name"])
        c.guard("limit/" + var["name"], where, one)
    # a name, a leaf and an operation by themselves
    x = w.name_sym("x")
    s0 = State()
    c.guard("variable", "text of a variable", lambda: same_text(c, t, "variable", "text of a variable", w, s0, w.mk_varname(x), w.mk_var(x), "a variable"))

    def leaf():
        for name, mk in leaves(w, t):
            st = State()
            e = mk(st)
            root = C.value(w, st, ip.get_field(st, e, None, w.e_root))
            same_text(c, t, "leaf/" + name, "text of a leaf", w, st, root[3][0], e, "the operand " + name)
    c.guard("leaf", "text of a leaf", leaf)
    table = w.optable()
    for n in OPS:
        def op():
            st = State()
            e = w.mk_op(st, n, [w.expr_in("c%d" % i) for i in range(ARITY[n])])
            root = C.value(w, st, ip.get_field(st, e, None, w.e_root))
            same_text(c, t, "operation/" + n, "text of an operation", w, st, root[3][0], table[n][0], "the operation " + n)
        c.guard("operation/" + n, "text of an operation", op)
    # errors name what was rejected
    rejected = 0
    for kind, info in var_variants(w):
        where, span = info["path"], c.span(info)
        for name, mk in shapes(w):
            if name == "variable":
                continue

            def rej():
                nonlocal rejected
                st = State()
                args, es, bad = [], 0, None
                for T in ip.arg_tys(info):
                    B = strip_ref(ip, T)
                    if B == w.E:
                        e = w.expr_in("e") if es == 0 else mk(st, "v")[0] if es == 1 else w.expr_in("t")
                        bad = e if es == 1 else bad
                        args.append(expr_arg(w, st, T, e))
                        es += 1
                    else:
                        args.append(I(1, B) if kind == "taylor_expansion" else sym("in", ("order",), B))
                for s, v in rets(c, kind, where, ip.enter(st, info, args), span):
                    v, err = unwrap(w, s.res(v))
                    if not err:
                        continue
                    v = C.value(w, s, v)
                    for i in range(len(v[3])) if v[0] == "adt" else ():
                        T = ip.fty(v[1], v[2], i)
                        if T != w.E:
                            continue
                        got = C.value(w, s, v[3][i])
                        rejected += 1
                        c.need(same_expr(w, s, got, bad), "error/%s/names" % kind, where,
                               lambda: "%s with %s reports that %s was wrong" % (kind, show(w, s, bad), show(w, s, got)), s, span,
                               sample="%s with a %s is reported as that" % (kind, name))
                        for s2, ps, o in text_in(w, s, v, t):
                            for s3, qs, _ in text_in(w, s2, got, t):
                                if ps is None or qs is None:
                                    c.fail("error/%s/text" % kind, where, "the error does not print: %s" % (o[:3],), s2, span)
                                    continue
                                c.need(contains(norm_pieces(w, s3, ps), norm_pieces(w, s3, qs)), "error/%s/text" % kind, where,
                                       lambda: "the error of %s about %s prints as %s" % (kind, show(w, s3, got), show_pieces(w, s3, ps)), s3, span,
                                       sample="the error prints as %s" % show_pieces(w, s3, ps))
            c.guard("error/%s" % kind, where, rej)
    c.floor("rejections", rejected, 30)
    # the other errors have a text
    known = (w.E, w.Node, w.Opr, w.OpT, w.Opd, w.Var, w.Num, w.Val, w.Rat, w.Tag, w.Lim, w.Tay)
    for im in ip.crate["impls"]:
        if im["trait"] != "core::fmt::Display" or "<" in im["self"]:
            continue
        T = w.type_named(im["self"])
        if T is None or T in known or not any(n in im["self"] for n in ("Error", "NoValid")):
            continue
        where = "text of " + im["self"]

        def err():
            n = 0
            for s, ps, o in text_in(w, State(), sym("in", ("error",), T), t):
                n += 1
                c.need(ps is not None and norm_pieces(w, s, ps), "error/%s/text" % im["self"], where, lambda: "%s does not print: %s" % (im["self"], o[:3]), s,
                       sample="%s prints as %s" % (im["self"], show_pieces(w, s, ps or ())))
            c.need(n > 0, "error/%s/text" % im["self"], where, "%s has no text" % im["self"])
        c.guard("error/%s/text" % im["self"], where, err)


def leaves(w, t):
    out = []
    for n in t.names:
        if n.startswith("number") or n == "variable":
            out.append((n, lambda st, n=n: t.make(st, n, "v")[0]))
    return out
