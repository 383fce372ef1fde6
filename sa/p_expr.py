"""C02-C05, C10, C26: aggregation, differentiation, substitution."""
from .common import *


def root_name(info):
    return info["path"]


# ------------------------------------------------------------------ C02
def c02(c):
    setup(c)
    w, ip = c.w, c.w.ip
    npaths = 0
    for info in C.roots(w, "agg"):
        where, span = info["path"], c.span(info)
        for name, mk in shapes(w):
            def one():
                nonlocal npaths
                st = State()
                e, kids = mk(st)
                outs = ip.enter(st, info, [wrap(w, st, info, 0, e)])
                for s, v in rets(c, "agg/" + name, where, outs, span):
                    npaths += 1
                    v, err = unwrap(w, v)
                    if err:
                        c.fail("agg/%s/error" % name, where, "aggregating %s reports an error" % name, s, span)
                        continue
                    v = C.value(w, s, v)
                    if name in ("number", "variable"):
                        c.need(same_expr(w, s, v, e), "agg/%s/leaf" % name, where,
                               lambda: "a %s becomes %s" % (name, show(w, s, v)), s, span)
                        continue
                    a = Alg(w, s)
                    try:
                        want = a.expr(e)
                        given = conds(a, e)
                        for k in kids:      # operands aggregate to something defined where they are
                            given += conds(a, k) + conds(a, w_agg(w, s, k))
                    except Undefined:
                        c.ok(where)
                        continue
                    try:
                        got = a.expr(v)
                        bad = None if a.same(got, want) else "value %s instead of %s" % (a.show(got), a.show(want))
                        if bad is None:
                            for q in conds(a, v):
                                if not implied(a, q, given):
                                    bad = "the result is undefined where the original is defined (%s %s)" % (
                                        q[0], a.show(q[1]) if q[0] != "def" else ip.show(q[1]))
                                    break
                    except Undefined:
                        bad = "the result divides by zero"
                    c.need(bad is None, "agg/%s/value" % name, where,
                           lambda: "%s aggregates to %s: %s" % (name, show(w, s, v), bad), s, span,
                           sample="%s -> %s when %s" % (name, show(w, s, v), ip.show_facts(s)))
            c.guard("agg/" + name, where, one)
    new_ops(c)
    c.floor("aggregation paths", npaths, 60)


def new_ops(c):
    for n in ops_of_program(c.w):
        c.need(n in ARITY, "operation/" + n, "ast::op::operator::OperatorType", "operation %s is not covered" % n)


def w_agg(w, st, k):
    """the expression the operand k aggregates to"""
    return k if C.is_leaf(w, st, k) else sym("agg", (k,), w.E)


def wrap(w, st, info, i, v):
    """pass v as argument i, by reference if that is what is expected"""
    T = w.ip.arg_tys(info)[i]
    while not isinstance(T, str) and w.ip.kind(T) == "ref":
        v = w.ip.ref(st, v)
        T = w.ip.elem(T)
    return v


def call_args(w, st, info, es, name, ints=()):
    """arguments of a contract function by the types of its parameters"""
    es, ints, out = list(es), list(ints), []
    for i, T in enumerate(C.base_args(w, info)):
        if T == w.E:
            out.append(wrap(w, st, info, i, es.pop(0)))
        elif T == w.Var:
            out.append(wrap(w, st, info, i, w.mk_varname(name)))
        elif T in PRIMS:
            out.append(wrap(w, st, info, i, ints.pop(0)))
        else:
            raise Unsupported("argument %d of %s" % (i, info["path"]))
    return out


# ------------------------------------------------------------------ C03
def c03(c):
    setup(c)
    w, ip = c.w, c.w.ip
    for info in C.roots(w, "agg"):
        where, span = info["path"], c.span(info)
        for name, mk in shapes(w):
            if name not in ("Neg", "Add", "Sub", "Mul", "Div"):
                continue

            def numeric():
                """operands that aggregate to numbers"""
                st = State()
                e, kids = mk(st)
                for i, k in enumerate(kids):
                    g = sym("agg", (k,), w.E)
                    st.bind[ip.norm_fld(g, 0, w.e_root, w.E)] = ip.mk(
                        w.Node, "Operand", (ip.mk(w.Opd, "Num", (sym("in", ("n%d" % i,), w.Num),)),))
                outs = ip.enter(st, info, [wrap(w, st, info, 0, e)])
                for s, v in rets(c, "fold/" + name, where, outs, span):
                    v, err = unwrap(w, v)
                    # an operand that is a variable does not aggregate to a number
                    if any((w.parts(s, k) or ("",))[0] == "var" for k in kids):
                        continue
                    p = w.parts(s, C.value(w, s, v)) if not err else None
                    c.need(p is not None and p[0] == "num", "fold/" + name, where,
                           lambda: "%s of numbers aggregates to %s" % (name, show(w, s, v)), s, span,
                           sample="%s -> %s when %s" % (name, show(w, s, v), ip.show_facts(s)))
            c.guard("fold/" + name, where, numeric)
        neutral = [("Add", 1, "Zero", "u"), ("Add", 0, "Zero", "u"), ("Sub", 1, "Zero", "u"), ("Mul", 1, "One", "u"),
                   ("Mul", 0, "One", "u"), ("Mul", 1, "Zero", "0"), ("Mul", 0, "Zero", "0")]
        for op, i, tag, res in neutral:
            def rule():
                st = State()
                n = sym("in", ("n",), w.Num)
                st.bind[ip.norm_fld(n, 0, w.n_tag, w.Num)] = ip.mk(w.Tag, tag)
                u = w.expr_in("u")
                kids = [u, u]
                kids[i] = w.mk_num(n)
                kids[1 - i] = u
                what = "%s(%s)" % (op, ", ".join("u" if j != i else tag.lower() for j in range(2)))
                e = w.mk_op(st, op, kids)
                for s, v in rets(c, "neutral/" + what, where, ip.enter(st, info, [wrap(w, st, info, 0, e)]), span):
                    v, err = unwrap(w, v)
                    ok = not err
                    if ok:
                        v = C.value(w, s, v)
                        a = Alg(w, s)
                        p = w.parts(s, v)
                        if res == "0":
                            ok = p is not None and p[0] == "num" and a.is0(a.number(p[1]))
                        else:
                            g = u if C.is_leaf(w, s, u) else sym("agg", (u,), w.E)
                            q = w.parts(s, g)
                            ok = same_expr(w, s, v, g) or q is not None and p is not None and p[0] == q[0] == "num" and \
                                a.same(a.number(p[1]), a.number(q[1]))
                    c.need(ok, "neutral/" + what, where, lambda: "%s aggregates to %s" % (what, show(w, s, v)), s, span,
                           sample="%s -> %s when %s" % (what, show(w, s, v), ip.show_facts(s)))
            c.guard("neutral/%s/%d/%s" % (op, i, tag), where, rule)
    c.floor("folding and neutral-element paths", c.n, 24)


# ------------------------------------------------------------------ C04
def c04(c):
    setup(c)
    w, ip = c.w, c.w.ip
    x = w.name_sym("x")
    n = 0
    for info in C.roots(w, "deriv"):
        where, span = info["path"], c.span(info)
        for name, mk in shapes(w) + [("Pow by a constant", pow_const(w, x))]:
            def one():
                nonlocal n
                st = State()
                e, kids = mk(st)
                outs = ip.enter(st, info, call_args(w, st, info, [e], x))
                for s, v in rets(c, "deriv/" + name, where, outs, span):
                    n += 1
                    v, err = unwrap(w, v)
                    if err:
                        c.fail("deriv/%s/error" % name, where, "differentiating %s with respect to a variable fails" % name, s, span)
                        continue
                    a = Alg(w, s)
                    try:
                        want = a.D(a.expr(e), x)
                    except Undefined:
                        c.ok(where)
                        continue
                    try:
                        got = a.expr(v)
                        bad = None if a.same(got, want) else "%s instead of %s" % (a.show(got), a.show(want))
                        if bad is None:
                            given = conds(a, e) + dconds(w, s, kids, x, a)
                            if name.startswith("Pow"):
                                u, r = a.expr(kids[0]), a.expr(kids[1])
                                # u^r with a constant r has a derivative wherever u^(r-1) exists; otherwise u > 0
                                given.append(("pow", u, r - ONE) if a.known0(a.D(r, x)) else ("pos", u))
                            if name == "Ln":
                                given.append(("pos", a.expr(kids[0])))
                            for q in conds(a, v):
                                if not implied(a, q, given):
                                    bad = "undefined where the derivative exists (%s %s)" % (
                                        q[0], a.show(q[1]) if q[0] != "def" else ip.show(q[1]))
                    except Undefined:
                        bad = "divides by zero"
                    if bad is None and name not in ARITY and not name.startswith("Pow"):
                        # of a leaf it is the number 0 or 1 itself, not a real of that value
                        p = w.parts(s, v)
                        t = w.quiet_field(s, p[1], w.n_tag) if p is not None and p[0] == "num" else None
                        if t is None or t[0] != "adt" or ip.variants(w.Tag)[t[2]]["name"] not in ("Zero", "One"):
                            bad = "not the number 0 or 1"
                    c.need(bad is None, "deriv/%s/value" % name, where,
                           lambda: "the derivative of %s is given as %s: %s" % (name, show(w, s, v), bad), s, span,
                           sample="%s -> %s when %s" % (name, show(w, s, v), ip.show_facts(s)))
            c.guard("deriv/" + name, where, one)
    new_ops(c)
    c.floor("differentiation paths", n, 12)


def pow_const(w, x):
    """a power whose exponent has the derivative 0"""
    mk = dict(shapes(w))["Pow"]

    def f(st, pre="c"):
        e, kids = mk(st, pre)
        n = sym("in", ("zero",), w.Num)
        st.bind[w.ip.norm_fld(sym("deriv", (kids[1], x), w.E), 0, w.e_root, w.E)] = w.ip.mk(
            w.Node, "Operand", (w.ip.mk(w.Opd, "Num", (n,)),))
        st.bind[w.ip.norm_fld(n, 0, w.n_tag, w.Num)] = w.ip.mk(w.Tag, "Zero")
        return e, kids
    return f


def dconds(w, st, kids, x, a):
    out = []
    for k in kids:
        for e in (k, sym("deriv", (k, x), w.E)):
            out.append(("def", a.key(e)))
            out.append(("def", a.key(sym("deriv", (sym("agg", (k,), w.E), x), w.E))))
    return out


# ------------------------------------------------------------------ C05
def c05(c):
    setup(c)
    w, ip = c.w, c.w.ip
    x = w.name_sym("x")
    v_in = w.expr_in("v")
    n = 0
    for info in C.roots(w, "subst"):
        where, span = info["path"], c.span(info)
        for name, mk in shapes(w):
            def one():
                nonlocal n
                st = State()
                e, kids = mk(st)
                outs = ip.enter(st, info, call_args(w, st, info, [e, v_in], x))
                for s, v in rets(c, "subst/" + name, where, outs, span):
                    n += 1
                    v, err = unwrap(w, v)
                    if err:
                        c.fail("subst/%s/error" % name, where, "substituting for a variable in %s fails" % name, s, span)
                        continue
                    v = C.value(w, s, v)
                    if name == "number":
                        want = e
                    elif name == "variable":
                        a = Alg(w, s)
                        same = a.same_name(w.name_sym("cname"), x)
                        if same is None:
                            c.fail("subst/variable", where, "the names of the variables are not compared", s, span)
                            continue
                        want = v_in if same else e
                    else:
                        want = w.mk_op(s, name, [subst_of(w, s, k, x, v_in) for k in kids])
                    got = C.deep(w, s, v)
                    c.need(got == C.deep(w, s, want), "subst/" + name, where,
                           lambda: "substituting in %s gives %s, not %s" % (name, ip.show(got), show(w, s, want)), s, span,
                           sample="%s -> %s when %s" % (name, ip.show(got), ip.show_facts(s)))
            c.guard("subst/" + name, where, one)
    new_ops(c)
    c.floor("substitution paths", n, 13)


def subst_of(w, s, k, x, v):
    """what substituting in the operand k gives, as far as the path knows k"""
    p = w.parts(s, k)
    if p is not None and p[0] == "num":
        return k
    if p is not None and p[0] == "var":
        a = Alg(w, s)
        same = a.same_name(p[1], x)
        if same is not None:
            return v if same else k
    return sym("subst", (k, x, v), w.E)
