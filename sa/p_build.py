"""C01 constructors, C10 variables, C26 well-formedness, C27 agreement of variants."""
import re
from .common import *
from .p_expr import call_args, wrap, new_ops

BIN = {"Add": ("core::ops::arith::Add", "add"), "Sub": ("core::ops::arith::Sub", "sub"),
       "Mul": ("core::ops::arith::Mul", "mul"), "Div": ("core::ops::arith::Div", "div"), "Pow": ("math_op::pow::Pow", "pow")}
UN = {"Neg": ("core::ops::arith::Neg", "neg"), "Sin": ("math_op::sin::Sin", "sin"), "Cos": ("math_op::cos::Cos", "cos"),
      "Exp": ("math_op::exp::Exp", "exp"), "Ln": ("math_op::ln::Ln", "ln")}
FREE = {"Sin": "math_op::sin::sin", "Cos": "math_op::cos::cos", "Exp": "math_op::exp::exp", "Ln": "math_op::ln::ln"}
NUMS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64"]
MUST_FROM = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"]


def pool(w):
    return [w.E, w.ref_ty(w.E), w.Num, w.Val, w.Opd, w.Var] + NUMS


def arg_of(w, st, T, name):
    """an arbitrary argument of type T, and the check that an expression denotes it"""
    ip = w.ip
    B = strip_ref(ip, T)
    v = sym("in", (name,), B)
    a = v
    X = T
    while not isinstance(X, str) and ip.kind(X) == "ref":
        a = ip.ref(st, a)
        X = ip.elem(X)
    return a, v, B


def denotes(w, st, e, v, B):
    """None if the expression e is (the leaf for) v, else what is wrong"""
    ip = w.ip
    e = C.value(w, st, e)
    if B == w.E:
        return None if same_expr(w, st, e, v) else "holds %s instead of %s" % (show(w, st, e), show(w, st, v))
    kids = w.quiet_field(st, e, w.e_child)
    if B == w.Opd:
        q = C.deep(w, st, w.quiet_field(st, e, w.e_root))
        if kids != ("arr", ()) or q[0] != "adt" or q[2] != ip.variant_index(w.Node, "Operand"):
            return "is not a leaf"
        return None if q[3][0] == C.deep(w, st, v) else "holds another operand"
    p = w.parts(st, e)
    if p is None:
        return "is not a leaf"
    if kids[0] != "arr" or kids[1]:
        return "is a leaf with operands"
    if B == w.Var:
        if p[0] != "var":
            return "is not a variable"
        n = w.ip.get_field(st, v, None, w.v_name)
        a = Alg(w, st)
        return None if a.find(p[1]) == a.find(n) else "has the name %s" % ip.show(p[1])
    if p[0] != "num":
        return "is not a number"
    n = C.deep(w, st, p[1])
    if B == w.Num and n == C.deep(w, st, v):
        return None
    if B == w.Val and n[0] == "adt" and C.deep(w, st, n[3][w.n_val]) == C.deep(w, st, v):
        return None
    a = Alg(w, st)
    if B == w.Val and undefined_value(w, st, v):
        return "does not hold the value given"
    want = a.number(v) if B == w.Num else a.numval(v) if B == w.Val else a.flt(v) if B in ("f32", "f64") else a.int(v)
    got = a.number(n)
    return None if a.same(got, want) else "holds the number %s" % a.show(got)


def undefined_value(w, st, v):
    try:
        Alg(w, st).numval(v)
        return False
    except Undefined:
        return True


def c01(c):
    w, ip = c.w, c.w.ip
    E = w.E
    RE = w.ref_ty(E)
    table = w.optable()
    found = {}

    def build(op, info, tys, label):
        where = info["path"]

        def one():
            st = State()
            args, vals = [], []
            for i, T in enumerate(tys):
                a, v, B = arg_of(w, st, T, "a%d" % i)
                args.append(a)
                vals.append((v, B))
            outs = rets(c, label, where, ip.enter(st, info, args), c.span(info))
            c.need(bool(outs), label + "/none", where, "%s returns nothing" % label)
            for s, r in outs:
                r = C.value(w, s, r)
                p = w.parts(s, r)
                bad = None
                if p is None or p[0] != "op":
                    bad = "does not build an operation: %s" % show(w, s, r)
                elif p[1] != op:
                    bad = "builds %s" % p[1]
                elif len(p[2]) != len(tys):
                    bad = "builds %s of %d operands" % (op, len(p[2]))
                else:
                    for i, (k, (v, B)) in enumerate(zip(p[2], vals)):
                        b = denotes(w, s, k, v, B)
                        if b:
                            bad = "operand %d %s" % (i, b)
                if bad is None:
                    root = C.deep(w, s, w.quiet_field(s, r, w.e_root))
                    if root[3][0] != table[op][0]:
                        bad = "carries the operator %s, not %s" % (ip.show(root[3][0]), ip.show(table[op][0]))
                c.need(bad is None, label, where, "%s %s" % (label, bad), s, c.span(info),
                       sample="%s -> %s" % (label, show(w, s, r)))
            found.setdefault(op, []).append(label)
        c.guard(label, where, one)

    for op, (tr, m) in BIN.items():
        for L in (E, RE):
            for Rt in pool(w):
                info = w.has(tr, m, L, Rt)
                if info is not None:
                    build(op, info, [L, Rt], "%s(%s, %s)" % (m, ip.tname(L), ip.tname(Rt)))
                elif L == E and (Rt == E or op == "Pow" and Rt in MUST_FROM):
                    c.fail("missing/%s/%s" % (op, ip.tname(Rt)), m, "%s of an expression and %s is gone" % (m, ip.tname(Rt)))
    for op, (tr, m) in UN.items():
        for L in (E, RE):
            info = w.has(tr, m, L)
            if info is not None:
                build(op, info, [L], "%s(%s)" % (m, ip.tname(L)))
            elif L == E or op in ("Sin", "Cos"):
                c.fail("missing/%s/%s" % (op, ip.tname(L)), m, "%s of %s is gone" % (m, ip.tname(L)))
    for op, path in FREE.items():
        f = w.by_path.get(path)
        if f is None:
            c.fail("missing/" + path, path, "function %s is gone" % path)
            continue
        if "inst" in f:
            build(op, f["inst"], ip.arg_tys(f["inst"]), path)
        else:
            for T in pool(w):
                r = w.srv.q(q="mono", **{"def": f["def"], "args": [ip.idx(T)]})
                if "err" not in r:
                    build(op, r, [T], "%s::<%s>" % (path, ip.tname(T)))
    # leaves
    def leaf(info, T, label):
        where = info["path"]

        def one():
            st = State()
            a, v, B = arg_of(w, st, T, "a")
            outs = rets(c, label, where, ip.enter(st, info, [a]), c.span(info))
            c.need(bool(outs), label + "/none", where, "%s returns nothing" % label)
            for s, r in outs:
                b = denotes(w, s, r, v, B)
                c.need(b is None, label, where, "%s %s" % (label, b), s, c.span(info),
                       sample="%s -> %s" % (label, show(w, s, r)))
        c.guard(label, where, one)

    for T in pool(w)[2:]:
        info = w.has("core::convert::From", "from", E, T)
        if info is not None:
            leaf(info, T, "Expression::from(%s)" % ip.tname(T))
        elif T in MUST_FROM or T in (w.Num, w.Var, w.Opd):
            c.fail("missing/from/%s" % ip.tname(T), "Expression::from", "Expression::from(%s) is gone" % ip.tname(T))

    def text_leaf(path):
        info = w.fn(path)

        def one():
            st = State()
            T = ip.arg_tys(info)[0]
            n = sym("in", ("name",), w.ip.fty(w.Var, 0, w.v_name))
            a = ip.ref(st, S(("d", n, ""))) if ip.kind(T) == "ref" else S(("d", n, ""))
            for s, r in rets(c, path, info["path"], ip.enter(st, info, [a]), c.span(info)):
                r = C.value(w, s, r)
                if ip.ty_of(r) == w.Var:
                    name = w.quiet_field(s, r, w.v_name)
                else:
                    if ip.ty_of(r) == w.Opd:
                        r = w.mk_leaf(r)
                    p = w.parts(s, r)
                    kids = w.quiet_field(s, r, w.e_child) if p else None
                    name = p[1] if p and p[0] == "var" and kids == ("arr", ()) else None
                a = Alg(w, s)
                c.need(name is not None and a.find(name) == a.find(n), path, info["path"],
                       lambda: "%s(name) gives %s" % (path, show(w, s, r)), s, c.span(info), sample="%s(name) -> %s" % (path, show(w, s, r)))
        c.guard(path, path, one)
    for path in ("ast::tree::Expression::new_variable", "ast::op::operand::AstOperand::new_variable", "ast::op::operand::Variable::new_variable"):
        text_leaf(path)
    for path, what in (("zero", ZERO), ("one", ONE), ("pi", "pi"), ("e", "e")):
        info = w.fn("ast::tree::Expression::" + path)

        def one():
            for s, r in rets(c, path, info["path"], ip.enter(State(), info, []), c.span(info)):
                a = Alg(w, s)
                p = w.parts(s, C.value(w, s, r))
                want = a.pi() if what == "pi" else a.euler() if what == "e" else what
                kids = w.quiet_field(s, C.value(w, s, r), w.e_child)
                c.need(p is not None and p[0] == "num" and kids == ("arr", ()) and a.eq(a.number(p[1]), want), "Expression::" + path, info["path"],
                       lambda: "Expression::%s() is %s" % (path, show(w, s, r)), s, c.span(info))
        c.guard("Expression::" + path, info["path"], one)
    new_ops(c)
    c.floor("constructors", sum(len(v) for v in found.values()), 40)


# ------------------------------------------------------------------ C10
def expr_arg(w, st, T, e):
    a = e
    while not isinstance(T, str) and w.ip.kind(T) == "ref":
        a = w.ip.ref(st, a)
        T = w.ip.elem(T)
    return a


def var_variants(w):
    """(operation, function, index of the argument that has to be a variable) taking it as an expression"""
    E, V = w.E, w.Var
    RE, RV = w.ref_ty(E), w.ref_ty(V)
    out = []
    for kind, (tr, m) in (("derivative", C.DER), ("substitute", C.SUB), ("limit", C.LIM), ("taylor_expansion", C.TAY)):
        for T in (E, RE):
            for more in ([[]] if kind == "derivative" else [[E], [RE]]):
                info = w.has(tr, m, E, T, *more)
                if info is not None:
                    out.append((kind, info))
    return out


def c10(c):
    setup(c)
    w, ip = c.w, c.w.ip
    E = w.E
    seen = {}
    for kind, info in var_variants(w):
        where, span = info["path"], c.span(info)
        seen[kind] = seen.get(kind, 0) + 1
        tys = ip.arg_tys(info)
        for name, mk in shapes(w):
            def one():
                st = State()
                args = []
                es = 0
                for i, T in enumerate(tys):
                    B = strip_ref(ip, T)
                    if B == E:
                        x = w.expr_in("e") if es == 0 else mk(st, "v")[0] if es == 1 else w.expr_in("t")
                        args.append(expr_arg(w, st, T, x))
                        es += 1
                    else:
                        args.append(I(1, B) if kind == "taylor_expansion" else sym("in", ("order",), B))
                outs = ip.enter(st, info, args)
                for s, o in outs:
                    if o[0] == "panic" and name != "variable" and not overflow(w, s, o):
                        c.fail("%s/%s" % (kind, name), where, "%s in the %s expression panics instead of returning an error: %s" % (
                            kind, name, " ".join(str(x) for x in o[1:4])), s, span)
                for s, v in rets(c, kind, where, outs, span):
                    v = s.res(v)
                    if name == "variable":
                        if v[0] == "sym" and v[1] == "limit":
                            a = Alg(w, s)
                            ok = a.find(v[2][1]) == a.find(w.name_sym("vname"))
                        else:
                            ok = v[0] == "adt" and not unwrap(w, v)[1]
                        c.need(ok, "%s/variable" % kind, where, "%s rejects a variable: %s" % (kind, ip.show(v)), s, span,
                               sample="%s with a variable is accepted" % kind)
                    else:
                        ok = v[0] == "adt" and unwrap(w, v)[1]
                        c.need(ok, "%s/%s" % (kind, name), where,
                               "%s accepts the %s expression as a variable: %s" % (kind, name, ip.show(v)), s, span,
                               sample="%s with a %s is an error" % (kind, name))
            c.guard("%s/%s" % (kind, name), where, one)
    for kind in ("derivative", "substitute", "limit", "taylor_expansion"):
        c.floor("entry points of " + kind, seen.get(kind, 0), 2 if kind in ("derivative", "substitute") else 1)
    # the operation on a variable never fails for that reason (derivative and substitution never fail at all: C04, C05)
    info = w.has(*C.TAY, E, w.ref_ty(w.Var), w.ref_ty(E))
    if info is None:
        c.fail("missing/taylor", "taylor_expansion", "expansion in a named variable is gone")
    else:
        def tay():
            st = State()
            args = [w.expr_in("e"), ip.ref(st, w.mk_varname(w.name_sym("x"))), ip.ref(st, w.expr_in("t")), I(1, "u64")]
            for s, v in rets(c, "taylor", info["path"], ip.enter(st, info, args)):
                c.need(not unwrap(w, s.res(v))[1], "taylor/variable", info["path"], "expanding in a variable fails", s, c.span(info))
        c.guard("taylor/variable", info["path"], tay)


# ------------------------------------------------------------------ C26
def ill_formed(w, st, v, seen=None):
    """a malformed expression inside the term v, or None"""
    ip = w.ip
    v = C.deep(w, st, v)
    work, seen = [v], set()
    table = w.optable()
    while work:
        x = work.pop()
        if not isinstance(x, tuple) or not x or x in seen:
            continue
        if isinstance(x[0], str) and x[0] in ("adt", "sym", "arr", "tup", "iter", "s", "clo", "ptr", "box"):
            seen.add(x)
            if x[0] in ("ptr", "box"):
                try:
                    work.append(C.deep(w, st, x))
                except Unsupported:
                    pass
                continue
            if x[0] == "adt" and x[1] == w.E:
                root, kids = x[3][w.e_root], x[3][w.e_child]
                root = C.deep(w, st, root)
                if root[0] == "adt" and root[2] == ip.variant_index(w.Node, "Operand"):
                    if kids[0] == "sym" and st.res(ip.norm_fld(x, 0, w.e_root, w.E)) is not None and not child_of_leaf(w, st, kids):
                        return "a leaf with unknown operands: %s" % ip.show(x)
                    if kids[0] == "arr" and kids[1]:
                        return "a leaf with %d operands: %s" % (len(kids[1]), ip.show(x))
                elif root[0] == "adt":
                    op = C.deep(w, st, root[3][0])
                    d = st.res(ip.get_field(st, op, None, w.o_desc)) if op[0] in ("adt", "sym") else op
                    if d[0] != "adt":
                        return "an operation of unknown kind: %s" % ip.show(x)
                    name = ip.variants(w.OpT)[d[2]]["name"]
                    if name not in ARITY:
                        return "an operation that is not known: %s" % name
                    if op[0] == "adt" and C.deep(w, st, op) != table[name][0]:
                        # fields that are known to be those of the operator are fine
                        for i in range(len(op[3])):
                            f = C.deep(w, st, op[3][i])
                            if f != table[name][0][3][i] and not same_const(w, st, f, name, i):
                                return "%s carries %s instead of %s" % (name, ip.show(f), ip.show(table[name][0][3][i]))
                    if kids[0] == "arr":
                        if len(kids[1]) != ARITY[name]:
                            return "%s with %d operands: %s" % (name, len(kids[1]), ip.show(x))
                    elif not (kids[0] == "sym" and kids[1] == "fld" and kids[2][2] == w.e_child and
                              arity_known(w, st, kids[2][0], name)):
                        return "%s with unknown operands: %s" % (name, ip.show(x))
                else:
                    # a root taken over from another expression needs that expression's operands
                    if not (root[0] == "sym" and root[1] == "fld" and kids[0] == "sym" and kids[1] == "fld" and
                            root[2][0] == kids[2][0]):
                        return "a node with a root of unknown kind: %s" % ip.show(x)
        work.extend(y for y in x if isinstance(y, tuple))
    return None


def same_const(w, st, f, name, i):
    return f[0] == "sym" and f[1] == "fld" and w.ip.ty_of(f[2][0]) == w.Opr and f[2][2] == i and \
        (w.quiet_field(st, f[2][0], w.o_desc) or ("",))[0] == "adt" and \
        w.ip.variants(w.OpT)[w.quiet_field(st, f[2][0], w.o_desc)[2]]["name"] == name


def child_of_leaf(w, st, kids):
    if kids[0] == "sym" and kids[1] == "fld" and kids[2][2] == w.e_child:
        p = w.parts(st, kids[2][0])
        return p is not None and p[0] in ("num", "var")
    return False


def arity_known(w, st, e, name):
    p = w.parts(st, e)
    return p is not None and p[0] == "op" and p[1] == name


def c26(c):
    setup(c)
    w, ip = c.w, c.w.ip
    x = w.name_sym("x")

    def results(label, info, args, st):
        where, span = info["path"], c.span(info)
        for s, v in rets(c, label, where, ip.enter(st, info, args), span):
            b = ill_formed(w, s, v)
            if b is None:
                for t in s.trace:
                    b = b or ill_formed(w, s, ("tup", tuple(y for y in t[1:] if isinstance(y, tuple) and y and isinstance(y[0], str)
                                                              and y[0] in ("adt", "sym", "arr", "tup"))))
            c.need(b is None, label, where, "%s produces %s" % (label, b), s, span,
                   sample="%s -> %s" % (label, show(w, s, v)[:300]))

    # every constructor, for owned and borrowed operands
    n = 0
    for op, (tr, m) in list(BIN.items()) + list(UN.items()):
        for L in (w.E, w.ref_ty(w.E)):
            for Rt in ([None] if op in UN else [w.E, w.ref_ty(w.E), "i64", "f64", w.Num]):
                info = w.has(tr, m, L, *([Rt] if Rt is not None else []))
                if info is None:
                    continue
                n += 1
                st = State()
                args = [arg_of(w, st, T, "a%d" % i)[0] for i, T in enumerate([L] + ([Rt] if Rt is not None else []))]
                c.guard("constructor/" + op, info["path"], lambda: results("constructor/" + op, info, args, st))
    for T in pool(w)[2:]:
        info = w.has("core::convert::From", "from", w.E, T)
        if info is not None:
            n += 1
            st = State()
            a = arg_of(w, st, T, "a")[0]
            c.guard("leaf/" + ip.tname(T), info["path"], lambda: results("leaf/" + ip.tname(T), info, [a], st))
    for kind in ("agg", "deriv", "subst", "limit"):
        for info in C.roots(w, kind):
            for name, mk, k in [(n, m, k) for n, m in shapes(w) for k in ((0, 1, 2) if kind == "limit" else (0,))]:
                def one():
                    st = State()
                    e, kids = mk(st)
                    es = [e] + ([w.expr_in("v")] if kind in ("subst", "limit") else [])
                    if kind == "limit":
                        args = call_args(w, st, info, es, x, [I(k, "u64")])
                    elif kind == "agg":
                        args = [wrap(w, st, info, 0, e)]
                    else:
                        args = call_args(w, st, info, es, x)
                    results("%s/%s" % (kind, name), info, args, st)
                c.guard("%s/%s" % (kind, name), info["path"], one)
    info = w.method(*C.TAY, w.E, w.ref_ty(w.Var), w.ref_ty(w.E))

    def tay():
        st = State()
        results("taylor", info, [w.expr_in("e"), ip.ref(st, w.mk_varname(x)), ip.ref(st, w.expr_in("t")), I(3, "u64")], st)
    c.guard("taylor", info["path"], tay)
    # the arithmetic of limit values builds expressions, too
    for op in ("Add", "Sub", "Mul", "Div", "Neg"):
        tr, m = (BIN.get(op) or UN.get(op))
        i2 = w.method(tr, m, *([w.Lim] * (1 if op == "Neg" else 2)))

        def one():
            st = State()
            results("limit values/" + op, i2, [sym("in", ("a%d" % k,), w.Lim) for k in range(1 if op == "Neg" else 2)], st)
        c.guard("limit values/" + op, i2["path"], one)
    # nothing outside constructs or changes an expression's fields other than through what was analysed here
    new_ops(c)
    c.floor("constructors and results", c.n, 200)


# ------------------------------------------------------------------ C27
def norm_ty(w, T):
    n = w.ip.tname(T)
    n = re.sub(r"&(mut )?('\w+ )?", "", n)
    return re.sub(r"'\w+", "'_", n)


VARIANT_TRAITS = {C.DER[0], C.SUB[0], C.LIM[0], C.TAY[0]}


def groups(w):
    """methods of one trait that differ only in taking an argument by value, by reference, or a
    variable by name or as an expression"""
    ip = w.ip
    g = {}
    for f in ip.crate["fns"]:
        info = f.get("inst")
        if info is None or not info.get("has_body") or not info.get("method"):
            continue
        tr = f.get("trait") or info.get("trait")
        if tr is None or tr.startswith("core::fmt") or tr.startswith("core::clone") or tr.startswith("core::cmp") or tr.startswith("core::error"):
            continue
        args = []
        for i, T in enumerate(C.base_args(w, info)):
            args.append(norm_ty(w, w.E if tr in VARIANT_TRAITS and T == w.Var else T))
        g.setdefault((tr, info["method"], tuple(args), norm_ty(w, ip.ret_ty(info))), []).append(info)
    out = {k: v for k, v in g.items() if len(v) > 1}
    return out


def c27(c):
    setup(c, numbers=False)
    w, ip = c.w, c.w.ip
    C.install_num_ops(w, w.Val, "v")
    val_cut = ip.cuts.pop()
    pairs = 0

    def inputs(st, infos):
        """one input for all variants: values by position"""
        vals = []
        tyss = [C.base_args(w, i) for i in infos]
        for p in range(len(tyss[0])):
            Ts = {t[p] for t in tyss}
            if Ts == {w.E, w.Var} or Ts == {w.Var}:
                vals.append(("var", w.name_sym("x")))
            else:
                T = tyss[0][p]
                vals.append(("val", I(2, T) if T in PRIMS and infos[0].get("trait") == C.TAY[0] else sym("in", ("a%d" % p,), T)))
        return vals

    def args_for(st, info, vals):
        out = []
        for (k, v), T in zip(vals, ip.arg_tys(info)):
            B = strip_ref(ip, T)
            if k == "var":
                v = w.mk_varname(v) if B == w.Var else w.mk_var(v)
            out.append(expr_arg(w, st, T, v))
        return out

    def final(s, o):
        if o[0] != "ret":
            return ("panic",)
        v = C.deep(w, s, o[1])
        if v[0] == "adt" and ip.adt(v[1]) == "core::result::Result" and ip.variants(v[1])[v[2]]["name"] == "Err":
            return ("error",)
        if v[0] == "adt" and ip.adt(v[1]) in ("core::result::Result", "core::option::Option"):
            return (ip.variants(v[1])[v[2]]["name"],) + v[3]
        return v

    def var_by_expr(s, info, vals):
        return any(k == "var" and T == w.E for (k, _), T in zip(vals, C.base_args(w, info)))

    def agree(A, B, enterA, enterB, vals, label):
        nonlocal pairs
        pairs += 1
        exact = strip_ref(ip, ip.ret_ty(A)) not in (w.Num, w.Val)
        if exact:
            ip.cuts.append(val_cut)

        def one():
            for s, o in enterA(State(), A, vals):
                r = final(s, o)
                s2 = s.copy()
                for t, p in enterB(s2, B, vals):
                    q = final(t, p)
                    r2 = final(t, o) if o[0] == "ret" else r
                    c.need(q == r2, label, B["path"], lambda: "%s gives %s where %s gives %s" % (
                        B["path"], ip.show(q), A["path"], ip.show(r2)), t, c.span(B), sample="%s == %s on %s" % (A["path"], B["path"], ip.show_facts(t, 3)))
        try:
            c.guard(label, B["path"], one)
        finally:
            if exact:
                ip.cuts.remove(val_cut)

    def plain(st, info, vals):
        return ip.enter(st, info, args_for(st, info, vals))

    def call(st, info, vals):
        return ip.call(st, info, args_for(st, info, vals))

    names = []
    for (tr, m, args, ret), infos in sorted(groups(w).items(), key=str):
        label = "%s::%s(%s)" % (tr.split("::")[-1], m, ", ".join(a.split("::")[-1] for a in args))
        vals = inputs(None, infos)
        names.append(label)
        if tr in VARIANT_TRAITS and tr != C.TAY[0]:
            # the variant on a variable carries the contract; the others have to be that operation
            base = [i for i in infos if C.contract_of(w, i)]
            if base:
                for B in infos:
                    if B["id"] != base[0]["id"]:
                        agree(base[0], B, call, plain, vals, label)
                continue
        for B in infos[1:]:
            agree(infos[0], B, plain, plain, vals, label)
    # the free functions agree with the methods
    for op, path in FREE.items():
        f = w.by_path.get(path)
        if f is None:
            continue
        info = f.get("inst")
        if info is None:
            info = w.srv.q(q="mono", **{"def": f["def"], "args": [ip.idx(w.E)]})
        if "err" in info:
            continue
        A = w.method(*UN[op], w.E)
        agree(A, info, plain, plain, [("val", w.expr_in("a"))], path)
    for need in ("Sin::sin", "Cos::cos", "ToSmartNum::to_smart_num", "ToRational::to_rational", "Neg::neg(SmartNumVal", "IsClose::is_close",
                 "Derivative::derivative", "Substitute::substitute", "LimitTry::limit", "TaylorExpansion::taylor_expansion",
                 "From::from(Expression", "From::from(AstOperand"):
        c.need(any(need in n for n in names), "missing/" + need, need, "no pair of variants of %s was found" % need)
    c.floor("pairs of variants", pairs, 20)
