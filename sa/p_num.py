"""C11-C17, C25, C28: numbers."""
from .common import *
from .p_build import BIN, UN, arg_of, expr_arg, MUST_FROM

AR = ["Add", "Sub", "Mul", "Div"]


# ------------------------------------------------------------------ inputs
def rat(w, st, name, sign=None, den_nz=True, nom=None):
    """a rational with sign +1 or -1"""
    n = sym("in", (name + ".nominator",), "u64") if nom is None else nom
    d = sym("in", (name + ".denominator",), "u64")
    if den_nz:
        w.ip.assume(st, ("ne", d, 0))
    fs = [None] * 3
    fs[w.r_sign] = I(sign, "i64")
    fs[w.r_nom], fs[w.r_den] = n, d
    return ("adt", w.Rat, 0, tuple(fs))


def val(w, st, kind, name, sign=1):
    """kind: Integer, Rational, Real"""
    ip = w.ip
    if kind == "Integer":
        return ip.mk(w.Val, "Integer", (sym("in", (name,), "i64"),))
    if kind == "Real":
        return ip.mk(w.Val, "Real", (sym("in", (name,), "f64"),))
    return ip.mk(w.Val, "Rational", (rat(w, st, name, sign),))


def kinds(signs=(1, -1)):
    return [("Integer", 1), ("Real", 1)] + [("Rational", s) for s in signs]


def num(w, v, tag):
    fs = [None, None]
    fs[w.n_val], fs[w.n_tag] = v, w.ip.mk(w.Tag, tag)
    return ("adt", w.Num, 0, tuple(fs))


PI_F, E_F = ("f", 0x400921FB54442D18, "f64"), ("f", 0x4005BF0A8B145769, "f64")


def nums(w, only=None):
    """every kind of number: (label, maker(st, name) -> number, exact, tag)"""
    ip = w.ip
    out = []

    def add(label, mk, exact, tag):
        if only is None or tag in only:
            out.append((label, mk, exact, tag))
    add("0", lambda st, n: num(w, ip.mk(w.Val, "Integer", (I(0, "i64"),)), "Zero"), True, "Zero")
    add("1", lambda st, n: num(w, ip.mk(w.Val, "Integer", (I(1, "i64"),)), "One"), True, "One")
    for sg in (1, -1):
        def zr(st, n, sg=sg):
            return num(w, ip.mk(w.Val, "Rational", (rat(w, st, n, sg, nom=I(0, "u64")),)), "Zero")
        add("fraction 0, sign %d" % sg, zr, True, "Zero")

    def one_r(st, n):
        d = sym("in", (n + ".denominator",), "u64")
        return num(w, ip.mk(w.Val, "Rational", (rat(w, st, n, 1, nom=d),)), "One")
    add("fraction 1", one_r, True, "One")
    add("pi", lambda st, n: num(w, ip.mk(w.Val, "Real", (PI_F,)), "Pi"), False, "Pi")
    add("e", lambda st, n: num(w, ip.mk(w.Val, "Real", (E_F,)), "E"), False, "E")

    def integer(st, n):
        x = sym("in", (n,), "i64")
        ip.assume(st, ("ne", x, 0))
        ip.assume(st, ("ne", x, 1))
        return num(w, ip.mk(w.Val, "Integer", (x,)), "Nothing")
    add("integer", integer, True, "Nothing")
    add("real", lambda st, n: num(w, ip.mk(w.Val, "Real", (sym("in", (n,), "f64"),)), "Nothing"), False, "Nothing")
    for sg in (1, -1):
        def fr(st, n, sg=sg):
            r = rat(w, st, n, sg)
            ip.assume(st, ("ne", r[3][w.r_nom], 0))
            if sg == 1:
                ip.assume(st, ("false", sym("eq", ip.eqargs(r[3][w.r_nom], r[3][w.r_den]), "bool")))
            return num(w, ip.mk(w.Val, "Rational", (r,)), "Nothing")
        add("%sfraction" % ("" if sg == 1 else "negative "), fr, True, "Nothing")
    return out


def name_of_val(w, st, v):
    v = C.value(w, st, v)
    if v[0] != "adt":
        raise Unsupported("number of unknown kind: %s" % w.ip.show(v))
    return w.ip.variants(w.Val)[v[2]]["name"]


def expected(a, op, x, y=None):
    return a.op(op, [x] if y is None else [x, y])


def panics_ok(c, key, where, outs, span, st_msg):
    """panics other than overflow of fixed-width arithmetic"""
    for s, o in outs:
        if o[0] == "panic" and not overflow(c.w, s, o):
            c.fail(key + "/panic", where, "%s panics: %s in %s" % (st_msg, o[2], o[3]), s, span)


def deep_const(w, st, v):
    return C.deep(w, st, v)


# ------------------------------------------------------------------ C11
def c11(c, values_only=False):
    w, ip = c.w, c.w.ip
    C.install_gcd(w)
    n = 0

    def fields(s, r):
        r = C.value(w, s, r)
        return [s.res(ip.get_field(s, r, None, i)) for i in (w.r_sign, w.r_nom, w.r_den)]

    for op in AR + ["Neg"]:
        tr, m = BIN.get(op) or UN.get(op)
        two = op != "Neg"
        for T in (w.Rat, w.ref_ty(w.Rat)):
            info = w.has(tr, m, *([T] * (2 if two else 1)))
            if info is None:
                if T == w.Rat:
                    c.fail("missing/" + op, m, "%s of rationals is gone" % op)
                continue
            where, span = info["path"], c.span(info)
            for s1 in (1, -1):
                for s2 in ((1, -1) if two else (0,)):
                    def one():
                        nonlocal n
                        st = State()
                        x = rat(w, st, "a", s1)
                        xs = [x]
                        if two:
                            y = rat(w, st, "b", s2)
                            xs.append(y)
                            if op == "Div":
                                ip.assume(st, ("ne", y[3][w.r_nom], 0))
                        outs = ip.enter(st, info, [expr_arg(w, st, T, v) for v in xs])
                        seen = 0
                        for s, r in rets(c, op, where, outs, span):
                            a = Alg(w, s)
                            want = expected(a, op, *[a.rat(v) for v in xs])
                            try:
                                got = a.rat(r)
                                bad = None if a.same(got, want) else "gives %s instead of %s" % (a.show(got), a.show(want))
                            except Undefined:
                                bad = "gives a fraction with denominator 0"
                            seen += bad is None
                            n += 1
                            c.need(bad is None, "rational/" + op, where, "%s of %s fractions %s" % (op, sg(s1, s2), bad), s, span,
                                   sample="%s of %s fractions = %s" % (op, sg(s1, s2), a.show(want)))
                        panics_ok(c, "rational/" + op, where, outs, span, op)
                        c.need(seen > 0, "rational/%s/none" % op, where, "%s of rationals never returns" % op)
                    c.guard("rational/" + op, where, one)
    f = w.by_path.get("smart_num::rational::RationalNum::reduce")
    if f is not None and "inst" in f:
        info = f["inst"]
        for s1 in (1, -1):
            for z in (True, False):
                def one():
                    nonlocal n
                    st = State()
                    x = rat(w, st, "a", s1, den_nz=not z)
                    if z:
                        ip.assume(st, ("bind", x[3][w.r_den], I(0, "u64")))
                    T = ip.arg_tys(info)[0]
                    for s, r in rets(c, "reduce", info["path"], ip.enter(st, info, [expr_arg(w, st, T, x)]), c.span(info)):
                        n += 1
                        a = Alg(w, s)
                        if z:
                            d = s.res(ip.get_field(s, C.value(w, s, r), None, w.r_den))
                            c.need(ip.itv(s, d) == (0, 0), "reduce/zero", info["path"], "reducing gives a zero denominator a value", s)
                            continue
                        try:
                            ok = a.same(a.rat(r), a.rat(x))
                        except Undefined:
                            ok = False
                        c.need(ok, "reduce/value", info["path"], lambda: "reducing changes the value: %s" % show(w, s, r), s, c.span(info))
                c.guard("reduce", info["path"], one)
    else:
        c.notes.append("no separate reduction function")
    c.floor("rational results", n, 16)
    c28(c)


def sg(s1, s2):
    return "%s%s" % ("+" if s1 == 1 else "-", "" if s2 == 0 else " and +" if s2 == 1 else " and -")


# ------------------------------------------------------------------ C12
def c12(c, kinds_matter=True, ops=None):
    ops = ops or AR + ["Neg"]
    w, ip = c.w, c.w.ip
    c.dep("C11", c11)
    C.install_num_ops(w, w.Rat, "r")
    n = 0
    # values without flags, on every pair of kinds
    for op in ops:
        tr, m = BIN.get(op) or UN.get(op)
        two = op != "Neg"
        info = w.has(tr, m, *([w.Val] * (2 if two else 1)))
        if info is None:
            c.fail("missing/val/" + op, m, "%s of numbers is gone" % op)
            continue
        infos = [(info, w.Val)]
        ri = w.has(tr, m, *([w.ref_ty(w.Val)] * (2 if two else 1)))
        if ri is not None:
            infos.append((ri, w.ref_ty(w.Val)))
        for info, T in infos:
            where, span = info["path"], c.span(info)
            for (k1, s1, z1), (k2, s2, z2) in with_zeros(op, two):
                def one():
                    nonlocal n
                    st = State()
                    xs = [val(w, st, k1, "a", s1)] + ([val(w, st, k2, "b", s2)] if two else [])
                    if z1:
                        xs[0] = zero_of(w, xs[0])
                    if z2:
                        xs[1] = zero_of(w, xs[1])
                    if op == "Div" and k2 == "Integer":
                        ip.assume(st, ("ne", xs[1][3][0], 0))
                    if op == "Div" and k2 == "Rational":
                        ip.assume(st, ("ne", xs[1][3][0][3][w.r_nom], 0))
                    outs = ip.enter(st, info, [expr_arg(w, st, T, x) for x in xs])
                    label = "%s %s%s" % (op, k1, " " + k2 if two else "")
                    for s, r in rets(c, label, where, outs, span):
                        n += 1
                        judge(c, w, s, op, xs, r, label, where, span, kinds_matter)
                    panics_ok(c, label, where, outs, span, label)
                    c.need(any(o[0] == "ret" for _, o in outs), label + "/none", where, "%s never returns" % label)
                c.guard("%s/%s/%s" % (op, k1, k2), where, one)
    ip.cuts = [x for x in ip.cuts]
    # numbers with flags
    saved = list(ip.cuts)
    C.install_num_ops(w, w.Val, "v")
    for op in ops:
        tr, m = BIN.get(op) or UN.get(op)
        two = op != "Neg"
        for T in (w.Num, w.ref_ty(w.Num)):
            info = w.has(tr, m, *([T] * (2 if two else 1)))
            if info is None:
                if T == w.Num:
                    c.fail("missing/num/" + op, m, "%s of numbers is gone" % op)
                continue
            where, span = info["path"], c.span(info)
            for l1, mk1, ex1, t1 in nums(w):
                for l2, mk2, ex2, t2 in (nums(w) if two else [("", None, True, "")]):
                    if op == "Div" and t2 == "Zero":
                        continue
                    def one():
                        nonlocal n
                        st = State()
                        xs = [mk1(st, "a")] + ([mk2(st, "b")] if two else [])
                        outs = ip.enter(st, info, [expr_arg(w, st, T, x) for x in xs])
                        label = "%s of %s%s" % (op, l1, " and " + l2 if two else "")
                        for s, r in rets(c, label, where, outs, span):
                            n += 1
                            r = C.deep(w, s, r)
                            a = Alg(w, s)
                            try:
                                want = expected(a, op, *[a.number(x) for x in xs])
                            except Undefined:
                                c.ok(where)
                                continue
                            if a.infeasible or not kinds_agree(w, s):
                                continue
                            try:
                                got = a.number(r)
                            except Undefined:
                                c.fail("num/%s/undefined" % op, where, "%s gives a fraction with denominator 0" % label, s, span)
                                continue
                            ok = a.same(got, want)
                            c.need(ok, "num/%s/value" % op, where, lambda: "%s gives %s instead of %s" % (label, a.show(got), a.show(want)), s, span,
                                   sample="%s = %s" % (label, show(w, s, r)))
                            if not kinds_matter:
                                continue
                            # the other operand itself
                            same = None
                            if op == "Add" and t1 == "Zero":
                                same = xs[1]
                            elif op in ("Add", "Sub") and t2 == "Zero":
                                same = xs[0]
                            elif op == "Mul" and t1 == "One" and t2 != "Zero":
                                same = xs[1]
                            elif op == "Mul" and t2 == "One" and t1 != "Zero":
                                same = xs[0]
                            if same is not None and t1 in ("Zero", "One") and t2 in ("Zero", "One"):
                                same = None
                            if same is not None:
                                c.need(C.deep(w, s, same) == r, "num/%s/itself" % op, where,
                                       lambda: "%s gives %s, not the operand itself" % (label, show(w, s, r)), s, span)
                            elif op == "Mul" and "Zero" in (t1, t2) or op == "Div" and t1 == "Zero":
                                c.need(exact_kind(w, s, r) is not False and a.same(got, ZERO), "num/%s/zero" % op, where,
                                       lambda: "%s gives %s, not exact zero" % (label, show(w, s, r)), s, span)
                            elif ex1 and ex2:
                                c.need(exact_kind(w, s, r) is not False, "num/%s/kind" % op, where,
                                       lambda: "%s of exact numbers gives %s" % (label, show(w, s, r)), s, span)
                            else:
                                c.need(exact_kind(w, s, r) is not True, "num/%s/kind" % op, where,
                                       lambda: "%s gives the exact %s" % (label, show(w, s, r)), s, span)
                        panics_ok(c, "num/" + op, where, outs, span, label)
                        c.need(any(o[0] == "ret" for _, o in outs), "num/%s/none" % op, where, "%s never returns" % label)
                    c.guard("num/%s/%s/%s" % (op, l1, l2), where, one)
    ip.cuts = saved
    c.floor("number results", n, 300 if len(ops) > 2 else 60)


def kinds_agree(w, st):
    """do the kinds the path gives to results of operations on values agree with what was checked of those"""
    ip = w.ip
    for t, v in st.bind.items():
        if t[1] not in ("vadd", "vsub", "vmul", "vdiv", "vneg") or v[0] != "adt":
            continue
        xs = [C.value(w, st, x) for x in t[2]]
        if any(x[0] != "adt" for x in xs):
            continue
        ks = [name_of_val(w, st, x) for x in xs]
        k = name_of_val(w, st, v)
        zs = [exact_zero(w, st, x) for x in xs]
        if "Real" not in ks or t[1] == "vmul" and True in zs or t[1] == "vdiv" and zs[0]:
            if k == "Real":
                return False
        elif k != "Real":
            may = t[1] in ("vadd", "vsub", "vmul") and any(z is not False for z, q in zip(zs, ks) if q != "Real") or \
                t[1] == "vmul" and any(one_known(w, st, x) for x in xs) or t[1] == "vdiv" and zs[0] is not False
            if not may:
                return False
    return True


def exact_kind(w, st, r):
    """True exact, False floating-point, None when that follows from the operation on values (checked there)"""
    v = C.value(w, st, w.ip.get_field(st, r, None, w.n_val))
    if v[0] == "adt":
        return w.ip.variants(w.Val)[v[2]]["name"] != "Real"
    if v[0] == "sym" and v[1] in ("vadd", "vsub", "vmul", "vdiv", "vneg"):
        ks = []
        for x in v[2]:
            x = C.value(w, st, x)
            if x[0] != "adt":
                return None
            ks.append(w.ip.variants(w.Val)[x[2]]["name"])
        return "Real" not in ks
    return None


def exact_zero(w, st, v):
    """is this value (known kind) an exact zero on this path: True, False, None"""
    ip = w.ip
    k = name_of_val(w, st, v)
    v = C.value(w, st, v)
    if k == "Real":
        return False
    x = v[3][0] if k == "Integer" else ip.get_field(st, v[3][0], None, w.r_nom)
    lo, hi = ip.itv(st, x)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0 or 0 in st.ne.get(st.res(x), ()):
        return False
    return None


def with_zeros(op, two):
    """pairs of kinds of operands, an exact factor or dividend that is zero being a case of its own"""
    for k1, s1 in kinds():
        for k2, s2 in (kinds() if two else [("", 0)]):
            yield (k1, s1, False), (k2, s2, False)
            if op in ("Mul", "Div") and k1 != "Real":
                yield (k1, s1, True), (k2, s2, False)
            if op == "Mul" and k2 != "Real":
                yield (k1, s1, False), (k2, s2, True)


def zero_of(w, x):
    q = x[3][0]
    if q[0] == "adt":
        q = q[:3] + (tuple(I(0, "u64") if i == w.r_nom else f for i, f in enumerate(q[3])),)
    else:
        q = I(0, "i64")
    return x[:3] + ((q,),)


def judge(c, w, s, op, xs, r, label, where, span, kinds_matter):
    ip = w.ip
    a = Alg(w, s)
    try:
        want = expected(a, op, *[a.numval(x) for x in xs])
    except Undefined:
        c.ok(where)
        return
    try:
        got = a.numval(r)
        bad = None if a.same(got, want) else "gives %s instead of %s" % (a.show(got), a.show(want))
    except Undefined:
        bad = "divides by zero"
    c.need(bad is None, "val/%s/value" % op, where, "%s %s" % (label, bad), s, span, sample="%s -> %s" % (label, show(w, s, r)))
    if not kinds_matter:
        return
    ks = [name_of_val(w, s, x) for x in xs]
    k = name_of_val(w, s, r)
    if a.infeasible:
        return
    zs = [exact_zero(w, s, x) for x in xs]
    if op == "Mul" and True in zs or op == "Div" and zs[0]:
        ok = k != "Real"
    elif "Real" not in ks:
        ok = k != "Real"
    elif op in ("Add", "Sub") and True in zs or op == "Mul" and any(one_known(w, s, x) for x in xs):
        ok = True
    else:
        ok = k == "Real"
    c.need(ok, "val/%s/kind" % op, where, "%s gives a%s" % (label, {"Real": " floating-point number", "Integer": "n integer", "Rational": " fraction"}[k]), s, span)


def one_known(w, s, x):
    x = C.value(w, s, x)
    return name_of_val(w, s, x) == "Integer" and w.ip.itv(s, x[3][0]) == (1, 1)


# ------------------------------------------------------------------ C13
def flag_bad(w, st, n):
    """what is wrong with the flag of the number n on this path, or None"""
    ip = w.ip
    n = C.value(w, st, n)
    if n[0] == "sym":
        if n[1] in ("in", "child", "fld"):
            return None                     # a number that was given
        raise Unsupported("flag of %s" % ip.show(n))
    tag = st.res(n[3][w.n_tag])
    v = C.value(w, st, n[3][w.n_val])
    if tag[0] == "sym" and v[0] == "sym" and tag[1] == v[1] == "fld" and tag[2][0] == v[2][0]:
        return None
    if tag[0] != "adt":
        raise Unsupported("flag %s" % ip.show(tag))
    t = ip.variants(w.Tag)[tag[2]]["name"]
    # the flag of a number that was given, with its value
    if v[0] == "sym" and v[1] == "fld" and ip.ty_of(v[2][0]) == w.Num:
        g = w.quiet_field(st, v[2][0], w.n_tag)
        if g == tag:
            return None
    feasible = lambda facts: ip.fork(st, [facts])
    if t in ("Pi", "E"):
        want = PI_F if t == "Pi" else E_F
        if v[0] == "adt" and name_of_val(w, st, v) == "Real" and st.res(v[3][0]) == want:
            return None
        return "%s is flagged %s" % (show(w, st, v), "pi" if t == "Pi" else "e")
    if v[0] != "adt":
        if v[0] == "sym" and t == "Nothing":
            ip.split_enum(st, v)
        if v[0] == "sym":
            return "%s is flagged %s whatever its value" % (ip.show(v), t.lower())
    k = name_of_val(w, st, v)
    if k == "Real":
        return "a floating-point number is flagged %s" % t.lower() if t != "Nothing" else None
    x = v[3][0]
    if k == "Integer":
        lo, hi = ip.itv(st, x)
        if t in ("Zero", "One"):
            k = int(t == "One")
            return None if lo == hi == k else "%s is flagged %s" % (ip.show(C.deep(w, st, x)), t.lower())
        for q, nm in ((0, "zero"), (1, "one")):
            if feasible([("bind", x, I(q, "i64"))] if st.res(x)[0] == "sym" else [("true", ip.simp_bool(st, sym("eq", ip.eqargs(x, I(q, "i64")), "bool")))]):
                return "the integer %s may be %d and is not flagged %s" % (ip.show(x), q, nm)
        return None
    s, a, b = (st.res(ip.get_field(st, x, None, i)) for i in (w.r_sign, w.r_nom, w.r_den))
    eq = sym("eq", ip.eqargs(a, b), "bool")
    bnz = ip.itv(st, b)[0] > 0 or 0 in st.ne.get(b, ())
    if t == "Zero":
        return None if ip.itv(st, a) == (0, 0) and bnz else "the fraction %s is flagged zero" % show(w, st, x)
    if t == "One":
        return None if ip.itv(st, s) == (1, 1) and ip.as_bool(st, eq) and bnz else "the fraction %s is flagged one" % show(w, st, x)

    def can(*fs):
        fs = [f for f in fs]
        for u in ip.fork(st, [fs]):
            return True
        return False
    if can(*(eqf(ip, st, a, 0) + nzf(ip, st, b))):
        return "the fraction %s may be 0 and is not flagged zero" % show(w, st, x)
    if can(*(eqf(ip, st, s, 1) + [("true", eq)] + nzf(ip, st, b))):
        return "the fraction %s may be 1 and is not flagged one" % show(w, st, x)
    return None


def eqf(ip, st, x, n):
    if x[0] == "i":
        return [] if x[1] == n else [("false", TRUE_T)]
    return [("bind", x, ("i", n, x[3]))]


TRUE_T = ("i", 1, "bool")


def nzf(ip, st, x):
    if x[0] == "i":
        return [] if x[1] != 0 else [("false", TRUE_T)]
    return [("ne", x, 0)]


def numbers_in(w, st, v, out):
    """numbers in a returned value"""
    ip = w.ip
    v = C.value(w, st, v)
    T = ip.ty_of(v)
    if T == w.Num:
        out.append(v)
    elif v[0] == "adt":
        for x in v[3]:
            if x[0] in ("adt", "ptr", "box", "sym"):
                numbers_in(w, st, x, out)
    return out


def number_makers(w):
    """functions that hand out numbers: everything public returning one, and the conversions"""
    ip = w.ip
    out, seen = [], set()

    def holds_num(T):
        T = strip_ref(ip, T)
        if ip.adt(T) in ("core::option::Option", "core::result::Result"):
            return holds_num(ip.targs(T)[0])
        return T == w.Num
    for f in ip.crate["fns"]:
        info = f.get("inst")
        if info is None or not info.get("has_body") or "::tests" in f["path"]:
            continue
        if not f.get("public") or info.get("trait", "").startswith("core::clone"):
            continue
        if holds_num(ip.ret_ty(info)):
            out.append(info)
            seen.add(info["id"])
    for T in [w.Val] + MUST_FROM:
        info = w.has("core::convert::From", "from", w.Num, T)
        if info is not None and info["id"] not in seen and T != w.Num:
            out.append(info)
    return out


def c13(c):
    w, ip = c.w, c.w.ip
    C.install_num_ops(w, w.Val, "v")
    n = 0
    for info in number_makers(w):
        where, span = info["path"], c.span(info)
        tys = ip.arg_tys(info)
        combos = [[]]
        for i, T in enumerate(tys):
            B = strip_ref(ip, T)
            if B == w.Num:
                alts = [(l, lambda st, i=i, mk=mk: mk(st, "a%d" % i)) for l, mk, _, _ in nums(w)]
            elif B == w.Rat:
                alts = [("fraction", lambda st, i=i, sg=sg: rat(w, st, "a%d" % i, sg)) for sg in (1, -1)]
            else:
                alts = [("", lambda st, i=i, B=B: sym("in", ("a%d" % i,), B))]
            combos = [x + [y] for x in combos for y in alts]
        for combo in combos:
            def one():
                nonlocal n
                st = State()
                args = [expr_arg(w, st, T, mk(st)) for T, (_, mk) in zip(tys, combo)]
                label = "%s(%s)" % (where, ", ".join(l for l, _ in combo if l))
                for s0, r in rets(c, "flags", where, ip.enter(st, info, args), span):
                    for x in numbers_in(w, s0, r, []):
                        work = [s0]
                        while work:
                            s = work.pop()
                            try:
                                b = flag_bad(w, s, x)
                            except NeedSplit as ns:
                                work += ip.fork(s, ns.alts)
                                continue
                            n += 1
                            c.need(b is None, "flag/" + where, where, "%s: %s" % (label, b), s, span, sample="%s -> %s" % (label, show(w, s, x)))
            c.guard("flag/" + where, where, one)
    c.floor("numbers handed out", n, 100)
    questions(c)
    private_tags(c)


def private_tags(c):
    """no function outside the module of numbers can build one with a flag of its choice: fields are private"""
    w, ip = c.w, c.w.ip
    for f in ip.variants(w.Num)[0]["fields"]:
        pub = f[2] if len(f) > 2 else None
        if pub is not None:
            c.need(not pub, "fields/" + f[0], "smart_num::SmartNum", "field %s can be set from outside" % f[0])


QUESTION = {"is_zero": "Zero", "is_one": "One", "is_pi": "Pi", "is_e": "E"}


def known_bool(w, st, v):
    v = st.res(v)
    r = w.ip.as_bool(st, v)
    if r is None:
        w.ip.split_bool(v)
    return r


def resolve_bools(w, s, v):
    """(state, truth) for a returned bool"""
    work, out = [s], []
    while work:
        x = work.pop()
        try:
            out.append((x, known_bool(w, x, v)))
        except NeedSplit as ns:
            work += w.ip.fork(x, ns.alts)
    return out


def questions(c):
    w, ip = c.w, c.w.ip
    n = 0
    owners = {"smart_num::SmartNum": "num", "ast::op::operand::AstOperand": "opd", "ast::tree::Expression": "expr",
              "ast::tree::AstNode": "node"}
    for f in ip.crate["fns"]:
        path = f["path"]
        owner, _, meth = path.rpartition("::")
        info = f.get("inst")
        if owner not in owners or info is None or info.get("trait") or not meth.startswith("is_"):
            continue
        where, span = path, c.span(info)
        tys = ip.arg_tys(info)
        if len(tys) != 1 or ip.ret_ty(info) != "bool":
            continue
        kind = owners[owner]
        inputs = []
        for l, mk, ex, t in nums(w):
            inputs.append((l, t, "num", mk))
        if kind != "num":
            inputs.append(("variable", None, "var", None))
            if kind in ("expr", "node"):
                for o in OPS:
                    inputs.append((o, None, "op", o))
        for l, t, k, mk in inputs:
            def one():
                nonlocal n
                st = State()
                if k == "num":
                    x = mk(st, "a")
                    opd = ip.mk(w.Opd, "Num", (x,))
                elif k == "var":
                    opd = ip.mk(w.Opd, "Variable", (w.mk_varname(w.name_sym("x")),))
                if kind == "num":
                    v = x
                elif kind == "opd":
                    v = opd
                else:
                    v = w.mk_leaf(opd) if k != "op" else w.mk_op(st, mk, [w.expr_in("c%d" % i) for i in range(ARITY[mk])])
                    if kind == "node":
                        v = v[3][w.e_root]
                if meth in QUESTION:
                    want = t == QUESTION[meth]
                elif meth == "is_num":
                    want = k == "num"
                elif meth == "is_variable":
                    want = k == "var"
                elif meth == "is_operator":
                    want = k == "op"
                elif meth == "is_operand":
                    want = k != "op"
                else:
                    return
                for s0, r in rets(c, meth, where, ip.enter(st, info, [expr_arg(w, st, tys[0], v)]), span):
                    for s, b in resolve_bools(w, s0, r):
                        n += 1
                        c.need(b == want, "question/" + path, where, "%s of %s is %s" % (meth, l, b), s, span, sample="%s of %s is %s" % (path, l, b))
            c.guard("question/" + path, where, one)
    for path in ["smart_num::SmartNum::" + q for q in QUESTION] + ["ast::tree::Expression::" + q for q in list(QUESTION) + ["is_num", "is_operator", "is_operand"]]:
        c.need(path in w.by_path, "missing/" + path, path, "%s is gone" % path)
    c.floor("questions answered", n, 100)


# ------------------------------------------------------------------ C14
def c14(c):
    w, ip = c.w, c.w.ip
    C.install_gcd(w)
    n = 0

    def number_value(a, s, r):
        r = C.value(w, s, r)
        T = ip.ty_of(r)
        if T == w.Num:
            return a.number(r)
        if T == w.Val:
            return a.numval(r)
        if T == w.Rat:
            return a.rat(r)
        if T in ("f64", "f32"):
            return a.flt(r)
        if T in PRIMS:
            return a.int(r)
        if T == w.E:
            p = w.parts(s, r)
            if p and p[0] == "num":
                return a.number(p[1])
        if T == w.Opd:
            if r[0] == "adt" and r[2] == ip.variant_index(w.Opd, "Num"):
                return a.number(r[3][0])
        raise Unsupported("value of a %s" % ip.tname(T) if T else "value of %s" % ip.show(r))

    # native numbers into numbers
    for T in MUST_FROM:
        for D in (w.Val, w.Num, w.E, w.Rat):
            info = w.has("core::convert::From", "from", D, T)
            if info is None:
                if D == w.Num or D == w.Rat and T in ("i64", "u64"):
                    c.fail("missing/%s/%s" % (T, ip.tname(D)), ip.tname(D), "conversion from %s to %s is gone" % (T, ip.tname(D)))
                continue
            where, span = info["path"], c.span(info)

            def one():
                nonlocal n
                st = State()
                x = sym("in", ("v",), T)
                outs = ip.enter(st, info, [x])
                for s, r in rets(c, "from/" + T, where, outs, span):
                    n += 1
                    a = Alg(w, s)
                    want = a.flt(x) if T in ("f32", "f64") else a.int(x)
                    try:
                        got = number_value(a, s, r)
                        bad = None if a.same(got, want) else "becomes %s" % a.show(got)
                    except Undefined:
                        bad = "becomes a fraction with denominator 0"
                    c.need(bad is None, "from/%s/%s" % (T, ip.tname(D)), where, "the %s value %s %s" % (T, a.show(want), bad), s, span,
                           sample="%s -> %s" % (T, show(w, s, r)))
                    # what becomes a floating-point number
                    if D == w.Val and T not in ("f32", "f64"):
                        c.need(name_of_val(w, s, r) != "Real", "from/%s/real" % T, where, "the integer becomes a floating-point number", s, span)
                panics_ok(c, "from/" + T, where, outs, span, "conversion from " + T)
                c.need(any(o[0] == "ret" for _, o in outs), "from/%s/none" % T, where, "conversion from %s never returns" % T)
            c.guard("from/%s/%s" % (T, ip.tname(D)), where, one)
    # numbers into native numbers and rationals
    for D, base in ((w.Num, "smart_num::SmartNum"), (w.Val, "smart_num::val_holder::SmartNumVal"), (w.Rat, "smart_num::rational::RationalNum")):
        inputs = []
        if D == w.Num:
            inputs = [(l, mk, t) for l, mk, ex, t in nums(w)]
        elif D == w.Val:
            inputs = [("%s %d" % (k, sg_), lambda st, nm, k=k, sg_=sg_: val(w, st, k, nm, sg_), None) for k, sg_ in kinds()]
        else:
            inputs = [("fraction %d" % sg_, lambda st, nm, sg_=sg_: rat(w, st, nm, sg_), None) for sg_ in (1, -1)]
        fns = []
        for m in ("to_i64", "to_f64", "sign"):
            f = w.by_path.get("%s::%s" % (base, m))
            if f is not None and "inst" in f:
                fns.append((m, f["inst"]))
            elif D == w.Num or m == "to_f64":
                c.fail("missing/%s::%s" % (base, m), base, "%s::%s is gone" % (base, m))
        for T in (D, w.ref_ty(D)):
            info = w.has("smart_num::rational::ToRational", "to_rational", T)
            if info is not None:
                fns.append(("to_rational", info))
            elif D == w.Num:
                c.fail("missing/%s::to_rational" % ip.tname(T), base, "to_rational of %s is gone" % ip.tname(T))
        for m, info in fns:
            where, span = info["path"], c.span(info)
            for l, mk, t in inputs:
                def one():
                    nonlocal n
                    st = State()
                    x = mk(st, "v")
                    outs = ip.enter(st, info, [expr_arg(w, st, ip.arg_tys(info)[0], x)])
                    v = x[3][w.n_val] if D == w.Num else x
                    k = "Rational" if D == w.Rat else name_of_val(w, st, v)
                    for s, r in rets(c, m, where, outs, span):
                        n += 1
                        a = Alg(w, s)
                        want = number_value(a, s, x)
                        r = C.deep(w, s, r)
                        bad = None
                        if m == "sign":
                            bad = sign_bad(w, s, a, k, v, r)
                        else:
                            if r[0] == "adt" and ip.adt(r[1]) == "core::option::Option":
                                r2 = opt(w, r)
                                if r2 is None:
                                    if m == "to_i64" and k == "Integer" or m == "to_rational" and (k == "Rational" or k == "Integer" and D == w.Num):
                                        bad = "gives nothing"
                                    if bad is None:
                                        c.ok(where)
                                    else:
                                        c.fail("%s/%s/nothing" % (m, base), where, "%s of %s %s" % (m, l, bad), s, span)
                                    continue
                                r = r2
                            try:
                                got = number_value(a, s, r)
                                if not a.same(got, want):
                                    bad = "is %s instead of %s" % (a.show(got), a.show(want))
                                elif ip.ty_of(C.value(w, s, r)) in PRIMS and k == "Real" and not integral(w, s, r):
                                    bad = "loses the fractional part"
                            except Undefined:
                                bad = "has denominator 0"
                        c.need(bad is None, "%s/%s" % (m, base), where, "%s of %s %s" % (m, l, bad), s, span,
                               sample="%s of %s -> %s" % (m, l, show(w, s, r)))
                    panics_ok(c, m, where, outs, span, "%s of %s" % (m, l))
                c.guard("%s/%s" % (m, base), where, one)
    # leaves
    for D in (w.E, w.Opd):
        for T in (D, w.ref_ty(D)):
            for tr, m in (("smart_num::ToSmartNum", "to_smart_num"), ("smart_num::rational::ToRational", "to_rational")):
                info = w.has(tr, m, T)
                if info is None:
                    if m == "to_smart_num":
                        c.fail("missing/%s/%s" % (m, ip.tname(T)), m, "%s of %s is gone" % (m, ip.tname(T)))
                    continue
                where, span = info["path"], c.span(info)
                ins = [("number " + l, mk, "num") for l, mk, ex, t in nums(w)] + [("variable", None, "var")]
                if D == w.E:
                    ins += [(o, o, "op") for o in OPS]
                for l, mk, k in ins:
                    def one():
                        nonlocal n
                        st = State()
                        nm = None
                        if k == "num":
                            nm = mk(st, "v")
                            x = ip.mk(w.Opd, "Num", (nm,))
                        elif k == "var":
                            x = ip.mk(w.Opd, "Variable", (w.mk_varname(w.name_sym("x")),))
                        if D == w.E:
                            x = w.mk_leaf(x) if k != "op" else w.mk_op(st, mk, [w.expr_in("c%d" % i) for i in range(ARITY[mk])])
                        outs = ip.enter(st, info, [expr_arg(w, st, T, x)])
                        for s, r in rets(c, m, where, outs, span):
                            n += 1
                            r = C.deep(w, s, r)
                            v = opt(w, r)
                            if k != "num":
                                c.need(v is None, "%s/leaf" % m, where, "%s of a %s gives %s" % (m, l, show(w, s, r)), s, span)
                                continue
                            real = name_of_val(w, s, nm[3][w.n_val]) == "Real"
                            if v is None:
                                c.need(m == "to_rational" and real, "%s/leaf" % m, where, "%s of the %s gives nothing" % (m, l), s, span)
                                continue
                            a = Alg(w, s)
                            ok = C.deep(w, s, v) == C.deep(w, s, nm) if m == "to_smart_num" else a.same(a.rat(v), a.number(nm))
                            c.need(ok, "%s/leaf" % m, where, "%s of the %s gives %s" % (m, l, show(w, s, v)), s, span,
                                   sample="%s of the %s is %s" % (m, l, show(w, s, v)))
                        panics_ok(c, m, where, outs, span, "%s of %s" % (m, l))
                    c.guard("%s/leaf" % m, where, one)
    c.floor("conversions", n, 150)


def integral(w, s, r):
    return False


def sign_bad(w, s, a, k, v, r):
    """the sign r reported for the non-zero value v of kind k"""
    ip = w.ip
    v = C.value(w, s, v)
    x = v[3][0]
    r = s.res(r)
    if k == "Real":
        if r[0] == "sym":
            t = r
            if t[1] == "ftoi" and s.res(t[2][0])[0] == "sym" and s.res(t[2][0])[1] == "fsignum" and s.res(s.res(t[2][0])[2][0]) == s.res(x):
                return None
            return "is %s" % ip.show(r)
        f = s.res(x)
        if f[0] == "f":
            import struct
            d = struct.unpack("<d", f[1].to_bytes(8, "little"))[0]
            return None if d == 0 or d != d or r[1] == (1 if d > 0 else -1) else "is %d" % r[1]
        zero = ("f", 0, "f64")
        pos = s.res(sym("flt", (zero, f), "bool")) == ("i", 1, "bool") or \
            s.res(sym("fle", (f, zero), "bool")) == ("i", 0, "bool")
        neg = s.res(sym("flt", (f, zero), "bool")) == ("i", 1, "bool") or \
            s.res(sym("fle", (zero, f), "bool")) == ("i", 0, "bool")
        npos = s.res(sym("flt", (zero, f), "bool")) == ("i", 0, "bool") or s.res(sym("fle", (f, zero), "bool")) == ("i", 1, "bool")
        nneg = s.res(sym("flt", (f, zero), "bool")) == ("i", 0, "bool") or s.res(sym("fle", (zero, f), "bool")) == ("i", 1, "bool")
        zr = s.res(sym("feq", ip.eqargs(f, zero), "bool")) == ("i", 1, "bool") or npos and nneg
        for nm in ("fis_sign_negative", "fis_sign_positive"):
            b = s.res(sym(nm, (f,), "bool"))
            if b[0] == "i":
                q = bool(b[1]) == (nm == "fis_sign_negative")
                neg, pos = neg or q, pos or not q
                nneg, npos = nneg or not q, npos or q
        if zr:
            return None
        if r[1] == 1:
            return None if pos or nneg else "is 1 for a number that may be negative"
        if r[1] == -1:
            return None if neg or npos else "is -1 for a number that may be positive"
        return "is %d for a number that may not be zero" % r[1]
    if k == "Integer":
        lo, hi = ip.itv(s, x)
    else:
        sg_, nm = ip.get_field(s, x, None, w.r_sign), ip.get_field(s, x, None, w.r_nom)
        if ip.itv(s, nm) == (0, 0):
            return None
        lo, hi = ip.itv(s, sg_)
    if lo == hi == 0:
        return None
    if r[0] != "i":
        return None if r == s.res(x) and lo >= -1 and hi <= 1 else "is %s" % ip.show(r)
    if r[1] == 1 and lo >= 0 or r[1] == -1 and hi <= 0:
        return None
    return "is %d for a number between %s and %s" % (r[1], lo, hi)


# ------------------------------------------------------------------ C15
def c15(c):
    w, ip = c.w, c.w.ip
    c.dep("C28", c28)
    C.install_gcd(w)
    n = 0
    fns = []
    for op in AR:
        tr, m = BIN[op]
        info = w.has(tr, m, w.Rat, w.Rat)
        if info is None:
            c.fail("missing/" + op, m, "%s of rationals is gone" % op)
            continue
        fns.append((op, info, w.Rat, 2))
    f = w.by_path.get("smart_num::rational::RationalNum::reduce")
    if f is not None and "inst" in f:
        fns.append(("reduction", f["inst"], ip.arg_tys(f["inst"])[0], 1))
    for op, info, T, ar in fns:
        where, span = info["path"], c.span(info)
        for s1 in (1, -1):
            for s2 in ((1, -1) if ar == 2 else (0,)):
                def one():
                    nonlocal n
                    st = State()
                    xs = [rat(w, st, "a", s1, den_nz=False)] + ([rat(w, st, "b", s2, den_nz=False)] if ar == 2 else [])
                    for s, r in rets(c, op, where, ip.enter(st, info, [expr_arg(w, st, T, x) for x in xs]), span):
                        n += 1
                        b = form_bad(w, s, r)
                        c.need(b is None, "form/" + op, where, "%s of %s fractions %s" % (op, sg(s1, s2), b), s, span,
                               sample="%s: %s" % (op, show(w, s, r)))
                c.guard("form/" + op, where, one)
    # whole numbers as fractions
    for T in ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"):
        info = w.has("core::convert::From", "from", w.Rat, T)
        if info is None:
            if T in ("i64", "u64"):
                c.fail("missing/from/" + T, T, "conversion from %s to a fraction is gone" % T)
            continue
        where, span = info["path"], c.span(info)

        def conv():
            nonlocal n
            lo, hi = PRIMS[T]
            for what, r0 in (("positive", (1, hi)), ("zero", (0, 0)), ("negative", (lo, -1))):
                if r0[0] > r0[1]:
                    continue
                st = State()
                x = sym("in", ("v",), T)
                if what == "zero":
                    x = I(0, T)
                else:
                    st.rng[x] = r0
                outs = ip.enter(st, info, [x])
                for s, r in rets(c, "from/" + T, where, outs, span):
                    n += 1
                    b = form_bad(w, s, r)
                    c.need(b is None, "form/from/" + T, where, "the fraction made of a %s %s %s" % (what, T, b), s, span,
                           sample="%s %s -> %s" % (what, T, show(w, s, r)))
        c.guard("form/from/" + T, where, conv)
    # the validating constructor
    for path, D in (("smart_num::rational::RationalNum::new", w.Rat), ("smart_num::val_holder::SmartNumVal::new_rational", w.Val),
                    ("smart_num::SmartNum::new_rational", w.Num), ("smart_num::rational::RationalNum::new_positive", w.Rat),
                    ("smart_num::rational::RationalNum::new_negative", w.Rat)):
        f = w.by_path.get(path)
        if f is None or "inst" not in f:
            c.fail("missing/" + path, path, "%s is gone" % path)
            continue
        info = f["inst"]

        def one():
            nonlocal n
            tys = ip.arg_tys(info)
            fixed = None if len(tys) == 3 else 1 if path.endswith("positive") else -1
            for sgn in ((1, -1, "other") if fixed is None else (fixed,)):
                for dz in (True, False):
                    st = State()
                    sv = I(sgn, "i64")
                    if sgn == "other":
                        sv = sym("in", ("sign",), "i64")
                        ip.assume(st, ("ne", sv, 1))
                        ip.assume(st, ("ne", sv, -1))
                    nm, d = sym("in", ("nominator",), "u64"), I(0, "u64") if dz else sym("in", ("denominator",), "u64")
                    if not dz:
                        ip.assume(st, ("ne", d, 0))
                    outs = ip.enter(st, info, ([sv] if fixed is None else []) + [nm, d])
                    for s, r in rets(c, path, path, outs):
                        n += 1
                        v = opt(w, C.deep(w, s, r))
                        if sgn == "other" or dz:
                            c.need(v is None, "constructor/" + path, path, "accepts %s" % ("a zero denominator" if dz else "a sign other than 1 and -1"), s, c.span(info))
                            continue
                        ok = v is not None
                        if ok:
                            x = v
                            if D == w.Num:
                                x = C.value(w, s, x[3][w.n_val])
                            if D != w.Rat:
                                ok = name_of_val(w, s, x) == "Rational"
                                x = x[3][0]
                            ok = ok and [C.deep(w, s, ip.get_field(s, x, None, i)) for i in (w.r_sign, w.r_nom, w.r_den)] == \
                                [C.deep(w, s, y) for y in (sv, nm, d)]
                        c.need(ok, "constructor/" + path, path, "gives %s for a sign of %s and a non-zero denominator" % (show(w, s, r), sgn), s, c.span(info),
                               sample="%s(%s, n, d) -> %s" % (path, sgn, show(w, s, r)))
                    panics_ok(c, "constructor/" + path, path, outs, c.span(info), path)
        c.guard("constructor/" + path, path, one)
    c.floor("forms", n, 25)


def plain(st, t):
    t = st.res(t)
    while t[0] == "sym" and t[1] == "cast":
        t = st.res(t[2][0])
    return t


def form_bad(w, st, r):
    ip = w.ip
    r = C.value(w, st, r)
    s, n, d = (plain(st, ip.get_field(st, r, None, i)) for i in (w.r_sign, w.r_nom, w.r_den))
    if not (s[0] == "i" and abs(s[1]) == 1 or ip.itv(st, s) in ((1, 1), (-1, -1))):
        return "has the sign %s" % ip.show(s)
    if n[0] == "i" and d[0] == "i":
        import math
        g = math.gcd(n[1], d[1])
        return None if g <= 1 else "is %d/%d" % (n[1], d[1])
    a = Alg(w, st)
    for x in (n, d):
        k = a.int(x).const()
        if k == 1:
            return None
    if ip.itv(st, n) == (0, 0) and ip.itv(st, d) == (0, 0):
        return None

    def cut(t):
        """(what was divided, by what)"""
        if t[0] == "sym" and t[1] == "div":
            return plain(st, t[2][0]), plain(st, t[2][1])
        return t, None
    (N, G), (D, H) = cut(n), cut(d)
    if G is None and H is None and coprime(w, st, n, d):
        return None
    # 0/x and x/0 reduced: the common divisor is x itself
    for x, (X, K), (Y, L) in ((n, (N, G), (D, H)), (d, (D, H), (N, G))):
        if ip.itv(st, x) == (0, 0):
            o = d if x is n else n
            if a.int(o).const() in (0, 1) or L is not None and a.eq(a.int(Y), a.int(L)):
                return None
            if ip.itv(st, o) == (0, 0):
                return None
    if G is not None and G == H and G[0] == "sym" and G[1] == "gcd":
        p, q = [a.int(x) for x in G[2]]
        x, y = a.int(N), a.int(D)
        if a.eq(p, x) and a.eq(q, y) or a.eq(p, y) and a.eq(q, x):
            return None
    return "is %s / %s, which may have a common divisor" % (ip.show(n), ip.show(d))


# ------------------------------------------------------------------ C16
def c16(c):
    w, ip = c.w, c.w.ip
    C.install_gcd(w)
    n = 0
    for m, neg in (("eq", False), ("ne", True)):
        info = w.has("core::cmp::PartialEq", m, w.Rat, w.Rat)
        if info is None or not info.get("has_body") or not info["local"]:
            if m == "eq":
                c.fail("missing/eq", "RationalNum", "equality of rationals is gone")
            continue
        where, span = info["path"], c.span(info)
        for s1 in (1, -1):
            for s2 in (1, -1):
                def one():
                    nonlocal n
                    st = State()
                    x, y = rat(w, st, "a", s1), rat(w, st, "b", s2)
                    outs = ip.enter(st, info, [expr_arg(w, st, T, v) for T, v in zip(ip.arg_tys(info), (x, y))])
                    for s0, r in rets(c, m, where, outs, span):
                        for s, b in resolve_bools(w, s0, r):
                            if impossible(w, s):
                                continue
                            n += 1
                            b = b != neg
                            bad = eq_bad(w, s, x, y, s1, s2, b)
                            c.need(bad is None, "equality/" + m, where, "%s fractions %s" % (sg(s1, s2), bad), s, span,
                                   sample="%s fractions %s when %s" % (sg(s1, s2), "equal" if b else "different", ip.show_facts(s, 6)))
                    panics_ok(c, "equality", where, outs, span, "comparison")
                c.guard("equality/" + m, where, one)
    # closeness
    C.install_fn(w, "smart_num::rational::RationalNum::to_f64", "rf64", "f64")
    for D in (w.Val, w.Num):
        for T in (D, w.ref_ty(D)):
            info = w.has("smart_num::val_holder::IsClose", "is_close", T, T)
            if info is None:
                c.fail("missing/is_close/" + ip.tname(T), "is_close", "closeness of %s is gone" % ip.tname(T))
                continue
            close_of(c, info, [(l1, l2, m1, m2) for l1, m1 in close_inputs(w, D) for l2, m2 in close_inputs(w, D)], D)
            n += 1
    f = w.by_path.get("ast::tree::Expression::near")
    if f is None or "inst" not in f:
        c.fail("missing/near", "Expression::near", "closeness of expressions is gone")
    else:
        info = f["inst"]
        where, span = info["path"], c.span(info)
        tys = ip.arg_tys(info)
        sh = shapes(w)
        for n1, mk1 in sh:
            for n2, mk2 in sh:
                if n1 == n2 == "number":
                    continue
                if n1 in OPS[1:] and n2 in OPS[1:]:
                    continue

                def one():
                    st = State()
                    e1, e2 = mk1(st, "p")[0], mk2(st, "q")[0]
                    eps = sym("in", ("eps",), "f64")
                    for s, r in rets(c, "near", where, ip.enter(st, info, near_args(w, st, tys, e1, e2, eps)), span):
                        v, err = unwrap(w, C.deep(w, s, r))
                        c.need(err, "near/not a number", where, "closeness of %s and %s is answered" % (n1, n2), s, span)
                c.guard("near/%s/%s" % (n1, n2), where, one)
        ins = [(l1, l2, m1, m2) for l1, m1 in close_inputs(w, w.Num) for l2, m2 in close_inputs(w, w.Num)]
        C.install_numbers(w)
        close_of(c, info, ins, w.E)
        c.dep("C12", lambda c: c12(c, kinds_matter=False, ops=["Sub"]))
        c.dep("C14", c14)
    c.floor("comparisons", n, 8)


def near_args(w, st, tys, e1, e2, eps):
    es, out = [e1, e2], []
    for T in tys:
        B = strip_ref(w.ip, T)
        out.append(eps if B == "f64" else expr_arg(w, st, T, es.pop(0)))
    return out


def close_inputs(w, D):
    if D == w.Val:
        return [("%s %d" % (k, s), lambda st, nm, k=k, s=s: val(w, st, k, nm, s)) for k, s in kinds()]
    return [(l, mk) for l, mk, ex, t in nums(w) if not l.startswith("fraction")]


def close_of(c, info, inputs, D):
    w, ip = c.w, c.w.ip
    where, span = info["path"], c.span(info)
    for l1, l2, m1, m2 in inputs:
        def one():
            st = State()
            x, y = m1(st, "a"), m2(st, "b")
            eps = sym("in", ("eps",), "f64")
            p, q = (w.mk_num(x), w.mk_num(y)) if D == w.E else (x, y)
            outs = ip.enter(st, info, near_args(w, st, ip.arg_tys(info), p, q, eps))
            for s0, r in rets(c, "close", where, outs, span):
                r, err = unwrap(w, C.deep(w, s0, r))
                if err:
                    c.fail("close/error", where, "closeness of %s and %s is an error" % (l1, l2), s0, span)
                    continue
                for s, b in resolve_bools(w, s0, r):
                    a = Alg(w, s, equations=False)
                    d = (a.numval(x) - a.numval(y)) if D == w.Val else (a.number(x) - a.number(y))
                    bad = close_bad(w, s, a, d, eps, b)
                    c.need(bad is None, "close/" + where, where, "%s and %s %s" % (l1, l2, bad), s, span,
                           sample="%s and %s: %s when %s" % (l1, l2, b, ip.show_facts(s, 4)))
        c.guard("close/" + where, where, one)


def close_bad(w, s, a, d, eps, b):
    """the answer b against |d| < eps, from the comparisons made on the path"""
    e = a.flt(eps)

    def is_abs(t):
        t = s.res(t)
        if t[0] == "sym" and t[1] == "fabs":
            v = a.flt(t[2][0])
            return a.eq(v, d) or a.eq(v, -d)
        return False
    lt = {"abs": None, "pos": None, "neg": None}
    for t, v in s.bind.items():
        if t[0] == "sym" and t[1] in ("flt", "fle") and v[0] == "i":
            x, y = t[2]
            strict = t[1] == "flt"
            vx, vy = (None if is_abs(z) else a.flt(z) for z in (x, y))
            # x < y
            if strict:
                if vx is None and vy is not None and a.eq(vy, e):
                    lt["abs"] = bool(v[1])
                elif vx is not None and vy is not None:
                    if a.eq(vy, e) and a.eq(vx, d) or a.eq(vx, -e) and a.eq(vy, -d):
                        lt["pos"] = bool(v[1])
                    if a.eq(vy, e) and a.eq(vx, -d) or a.eq(vx, -e) and a.eq(vy, d):
                        lt["neg"] = bool(v[1])
    if lt["abs"] is None:
        if lt["pos"] is False or lt["neg"] is False:
            lt["abs"] = False
        elif lt["pos"] and lt["neg"]:
            lt["abs"] = True
    if lt["abs"] is None:
        c0 = d.const()
        return "the answer %s does not follow from the difference being below the tolerance" % b
    return None if lt["abs"] == b else "are called %sclose although the difference is %sbelow the tolerance" % ("" if b else "not ", "" if lt["abs"] else "not ")


def impossible(w, s):
    """facts that contradict what a common divisor is: an exact quotient by one is zero only for zero"""
    ip = w.ip
    for t, v in list(s.bind.items()):
        if t[0] == "sym" and t[1] == "div" and v[0] == "i" and v[1] == 0:
            g = plain(s, t[2][1])
            if g[0] == "sym" and g[1] == "gcd":
                x = s.res(t[2][0])
                if x in [s.res(y) for y in g[2]] and (ip.itv(s, x)[0] > 0 or 0 in s.ne.get(x, ())):
                    return True
                if x[0] == "sym":
                    if not ip.assume(s, ("bind", x, ("i", 0, x[3]))):
                        return True
        if t[0] == "sym" and t[1] == "gcd" and v[0] == "i" and v[1] == 0:
            for x in t[2]:
                if ip.itv(s, x)[0] > 0:
                    return True
    for t, ns in list(s.ne.items()):
        # a quotient that is not zero has a dividend that is not zero
        if t[0] == "sym" and t[1] == "div" and 0 in ns:
            x = s.res(t[2][0])
            if not ip.assume(s, ("ne", x, 0)) if x[0] == "sym" else x[1] == 0:
                return True
    for t, r in list(s.rng.items()):
        if t[0] == "sym" and t[1] == "div" and r[0] > 0:
            x = s.res(t[2][0])
            if not ip.assume(s, ("ne", x, 0)) if x[0] == "sym" else x[1] == 0:
                return True
    return False


def eq_bad(w, s, x, y, s1, s2, b):
    ip = w.ip
    n1, d1 = (s.res(x[3][i]) for i in (w.r_nom, w.r_den))
    n2, d2 = (s.res(y[3][i]) for i in (w.r_nom, w.r_den))
    z1, z2 = ip.itv(s, n1), ip.itv(s, n2)
    nz1 = z1[0] > 0 or 0 in s.ne.get(n1, ())
    nz2 = z2[0] > 0 or 0 in s.ne.get(n2, ())
    if z1 == (0, 0) and z2 == (0, 0):
        return None if b else "both zero are called different"
    if z1 == (0, 0) and nz2 or z2 == (0, 0) and nz1:
        return None if not b else "one zero, the other not, are called equal"
    if s1 != s2 and (nz1 or nz2):
        return None if not b else "of different sign are called equal"
    a = Alg(w, s)
    v1, v2 = a.rat(x), a.rat(y)
    if b:
        return None if a.same(v1, v2) else "%s and %s are called equal" % (a.show(v1), a.show(v2))
    # different: some comparison that failed tells the values apart
    a0 = Alg(w, s, equations=False)
    v1, v2 = a0.rat(x), a0.rat(y)
    diff = v1 - v2
    canon = {}
    for k, (nn, dd) in enumerate(((n1, d1), (n2, d2))):
        canon[k] = (nn, dd)
    for t, v in s.bind.items():
        if t[0] == "sym" and t[1] == "eq" and v == ("i", 0, "bool"):
            p, q = plain(s, t[2][0]), plain(s, t[2][1])
            if tells_apart(w, s, a0, p, q, canon, diff):
                return None
        if t[0] == "sym" and t[1] == "lt" and v == ("i", 1, "bool"):
            if tells_apart(w, s, a0, plain(s, t[2][0]), plain(s, t[2][1]), canon, diff):
                return None
    for t, ns in list(s.ne.items()):
        for k in ns:
            if tells_apart(w, s, a0, plain(s, t), ("i", k, "u64"), canon, diff):
                return None
    return "%s and %s are called different, which does not follow" % (a0.show(v1), a0.show(v2))


def coprime(w, s, n, d):
    """the path takes the common divisor of n and d for 1"""
    for t, v in list(s.bind.items()):
        if t[0] == "sym" and t[1] == "gcd" and v[0] == "i" and v[1] == 1:
            gs = [plain(s, x) for x in t[2]]
            if gs in ([n, d], [d, n]):
                return True
    return False


def tells_apart(w, s, a, p, q, canon, diff):
    ip = w.ip

    def part(t):
        """(operand, 'n' or 'd') if t is a component of an operand in lowest terms"""
        num = t
        if t[0] == "sym" and t[1] == "div":
            X, G = plain(s, t[2][0]), plain(s, t[2][1])
            if G[0] == "sym" and G[1] == "gcd":
                for k, (n, d) in canon.items():
                    gs = [plain(s, g) for g in G[2]]
                    if gs in ([n, d], [d, n]):
                        if X == n:
                            return (k, "n")
                        if X == d:
                            return (k, "d")
        for k, (n, d) in canon.items():
            if t in (n, d) and n != d and coprime(w, s, n, d):
                return (k, "n" if t == n else "d")
        return None
    pp, qq = part(p), part(q)
    if pp and qq and pp[0] != qq[0] and pp[1] == qq[1]:
        return True
    # a difference of cross products
    try:
        e = a.int(p) - a.int(q)
        r = a.div(e, diff)
        return r.const() not in (None, 0) or all(x in positive_atoms(w, s, a) for m in list(r.n) + list(r.d) for x, _ in m) and len(r.n) == len(r.d) == 1
    except (Undefined, Unsupported):
        return False


def positive_atoms(w, s, a):
    out = set()
    for i, k in enumerate(a.names):
        if k[0] == "i":
            lo, hi = w.ip.itv(s, k[1])
            if lo > 0 or hi < 0 or 0 in s.ne.get(k[1], ()):
                out.add(i)
    return out


# ------------------------------------------------------------------ C17
def c17(c):
    w, ip = c.w, c.w.ip
    C.install_gcd(w)
    n = 0
    cases = []
    for T in (w.Val, w.Num):
        info = w.has("core::ops::arith::Div", "div", T, T)
        if info is None:
            c.fail("missing/" + ip.tname(T), "Div", "division of %s is gone" % ip.tname(T))
            continue
        cases.append((T, info))
    for T, info in cases:
        where, span = info["path"], c.span(info)
        for l1, mk1, ex1, t1 in nums(w):
            for l2, mk2, ex2, t2 in nums(w, only=("Zero",)):
                if not ex1:
                    continue

                def one():
                    nonlocal n
                    st = State()
                    x, y = mk1(st, "a"), mk2(st, "b")
                    args = (x, y) if T == w.Num else (x[3][w.n_val], y[3][w.n_val])
                    outs = ip.enter(st, info, list(args))
                    for s, r in rets(c, "division", where, outs, span):
                        n += 1
                        r = C.value(w, s, r)
                        bad = None
                        v = r
                        if T == w.Num:
                            v = C.value(w, s, ip.get_field(s, r, None, w.n_val))
                            tag = s.res(ip.get_field(s, r, None, w.n_tag))
                            if tag != ip.mk(w.Tag, "Nothing"):
                                bad = "is flagged %s" % ip.show(tag)
                        if name_of_val(w, s, v) == "Integer":
                            bad = "is the integer %s" % ip.show(C.deep(w, s, v[3][0]))
                        elif name_of_val(w, s, v) == "Rational":
                            d = ip.get_field(s, v[3][0], None, w.r_den)
                            if ip.itv(s, d) != (0, 0):
                                bad = "is the fraction %s" % show(w, s, v[3][0])
                        elif name_of_val(w, s, v) == "Real":
                            bad = "is the real %s" % show(w, s, v)
                        c.need(bad is None, "quotient/" + ip.tname(T), where, "%s divided by %s %s" % (l1, l2, bad), s, span,
                               sample="%s / %s -> %s" % (l1, l2, show(w, s, r)))
                    panics_ok(c, "quotient/" + ip.tname(T), where, outs, span, "%s divided by %s" % (l1, l2))
                c.guard("quotient/" + ip.tname(T), where, one)
    # the questions asked of such a quotient
    for q in ("is_zero", "is_one"):
        f = w.by_path.get("smart_num::val_holder::SmartNumVal::" + q)
        if f is None or "inst" not in f:
            continue
        info = f["inst"]

        def one():
            nonlocal n
            for sgn in (1, -1):
                for nm in (I(0, "u64"), sym("in", ("a.nominator",), "u64")):
                    st = State()
                    r = rat(w, st, "a", sgn, den_nz=False, nom=nm)
                    ip.assume(st, ("bind", r[3][w.r_den], I(0, "u64")))
                    v = ip.mk(w.Val, "Rational", (r,))
                    for s0, o in rets(c, q, info["path"], ip.enter(st, info, [expr_arg(w, st, ip.arg_tys(info)[0], v)])):
                        for s, b in resolve_bools(w, s0, o):
                            n += 1
                            c.need(not b, "question/" + q, info["path"], "%s of a fraction with denominator 0 is yes" % q, s, c.span(info))
        c.guard("question/" + q, info["path"], one)
    c.floor("quotients by zero", n, 20)


# ------------------------------------------------------------------ C25
def c25(c):
    w, ip = c.w, c.w.ip
    n = 0

    def expected_text(st, l, x, D):
        if D == w.Num:
            t = ip.variants(w.Tag)[x[3][w.n_tag][2]]["name"]
            if t != "Nothing":
                return [({"Zero": "0", "One": "1", "Pi": "pi", "E": "e"}[t],)]
            x = x[3][w.n_val]
            D = w.Val
        if D == w.Val:
            k = name_of_val(w, st, x)
            if k == "Integer":
                return [(("d", x[3][0], ""),)]
            if k == "Real":
                return [(("d", x[3][0], ".3"),)]
            x = x[3][0]
        s, a, b = (x[3][i] for i in (w.r_sign, w.r_nom, w.r_den))
        return [(() if s[1] == 1 else ("-",)) + (("d", a, ""), "/", ("d", b, ""))]

    def ins(D):
        if D == w.Num:
            return [(l, mk) for l, mk, ex, t in nums(w)]
        if D == w.Val:
            return [("%s %d" % (k, s), lambda st, nm, k=k, s=s: val(w, st, k, nm, s)) for k, s in kinds()]
        return [("fraction %d" % s, lambda st, nm, s=s: rat(w, st, nm, s)) for s in (1, -1)]
    for D in (w.Num, w.Val, w.Rat):
        info = w.has("core::fmt::Display", "fmt", D)
        if info is None:
            c.fail("missing/" + ip.tname(D), "Display", "Display of %s is gone" % ip.tname(D))
            continue
        where, span = info["path"], c.span(info)
        for l, mk in ins(D):
            def one():
                nonlocal n
                st = State()
                x = mk(st, "v")
                outs = fmt_text(w, st, info, x)
                for s, o in outs:
                    if o[0] != "text":
                        c.fail("text/%s" % ip.tname(D), where, "printing %s ends in %s" % (l, o), s, span)
                        continue
                    n += 1
                    got = norm_pieces(w, s, o[1])
                    want = [norm_pieces(w, s, p) for p in expected_text(s, l, x, D)]
                    c.need(got in want, "text/%s" % ip.tname(D), where, "%s prints as %s instead of %s" % (l, show_pieces(w, s, got), show_pieces(w, s, want[0])), s, span,
                           sample="%s prints as %s" % (l, show_pieces(w, s, got)))
                c.need(any(o[0] == "text" for _, o in outs), "text/%s/none" % ip.tname(D), where, "printing %s never ends" % l)
            c.guard("text/%s" % ip.tname(D), where, one)
    c.floor("texts", n, 15)


def fmt_text(w, st, info, v):
    """outcomes of a Display: ('text', pieces), or what else happened"""
    ip = w.ip
    from . import models
    p = ip.ref(st, v)
    outs = ip.with_splits(st, lambda s: models.display(ip, s, p, ip.ty_of(v), "Display", ""))
    return [(s, ("text", o[1]) if o[0] == "ret" else o) for s, o in outs]


def norm_pieces(w, st, ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
            continue
        k, v, spec = p
        v = st.res(v) if v[0] == "sym" else v
        if v[0] == "ptr":
            v = w.ip.load(st, v)
        if v[0] == "s" and spec:
            out.append((k, ("s", norm_pieces(w, st, v[1])), spec))
            continue
        if v[0] == "s":
            for q in norm_pieces(w, st, v[1]):
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if v[0] == "i" and spec == "":
            q = str(v[1])
            if out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
            continue
        out.append((k, plain(st, v) if v[0] in ("i", "sym") else v, spec))
    return tuple(out)


def show_pieces(w, st, ps):
    return "".join(p if isinstance(p, str) else "{%s%s}" % (w.ip.show(p[1]), ":" + str(p[2]) if p[2] else "") for p in ps)


# ------------------------------------------------------------------ C28
def euclid(st, ip, a, b, x, y, depth=3):
    """do x and y have the common divisors a and b have, by steps of Euclid's algorithm?"""
    a, b, x, y = (plain(st, t) for t in (a, b, x, y))
    seen = set()
    work = [(a, b, 0)]
    while work:
        p, q, k = work.pop()
        if (p, q) in seen:
            continue
        seen.add((p, q))
        if (p, q) == (x, y) or (q, p) == (x, y):
            return True
        if k >= depth:
            continue
        for u, v in ((p, q), (q, p)):
            T = ip.ty_of(u)
            work.append((v, plain(st, sym("rem", (u, v), T)), k + 1))
            work.append((v, plain(st, sym("sub", (u, v), T)), k + 1))
    return False


def zero(st, ip, t):
    return ip.itv(st, t) == (0, 0)


def gcd_ret_ok(st, ip, a, b, r):
    """is r the common divisor of a and b on this path"""
    r = plain(st, r)
    if r[0] == "sym" and r[1] == "gcd":
        return euclid(st, ip, a, b, *r[2])
    a, b = plain(st, a), plain(st, b)
    for x, y in ((a, b), (b, a)):
        if zero(st, ip, y) and (r == x or zero(st, ip, r) and zero(st, ip, x)):
            return True
        # the smaller divides the other
        if r == x and (zero(st, ip, plain(st, sym("rem", (y, x), ip.ty_of(x)))) or x == y or
                       ip.as_bool(st, sym("eq", ip.eqargs(x, y), "bool"))):
            return True
    if r == ("i", 1, ip.ty_of(r)) and (ip.itv(st, a) == (1, 1) or ip.itv(st, b) == (1, 1)):
        return True
    return False


def c28(c, termination=False):
    w, ip = c.w, c.w.ip
    # the functions reached from the reduction of fractions
    cuts = ip.cuts
    found = {}
    ip.cuts = []
    C.install_gcd(w)
    w.gcd_used = {}
    where0 = "smart_num::rational"

    def reach():
        for op in AR:
            info = w.has(*BIN[op], w.Rat, w.Rat)
            if info is not None:
                st = State()
                ip.enter(st, info, [rat(w, st, "a", 1), rat(w, st, "b", 1)])
        f = w.by_path.get("smart_num::rational::RationalNum::reduce")
        if f is not None and "inst" in f:
            st = State()
            ip.enter(st, f["inst"], [expr_arg(w, st, ip.arg_tys(f["inst"])[0], rat(w, st, "a", 1))])
    c.guard("reach", where0, reach)
    found = dict(w.gcd_used)
    for f in ip.crate["fns"]:
        if "inst" in f and f["inst"].get("has_body") and C.is_gcd(w, f["inst"]):
            found[f["inst"]["id"]] = f["inst"]
    n = 0
    for info in found.values():
        where, span = info["path"], c.span(info)

        def one():
            nonlocal n
            T = ip.ret_ty(info)
            st = State()
            a, b = sym("in", ("a",), T), sym("in", ("b",), T)
            args = [expr_arg(w, st, t, x) for t, x in zip(ip.arg_tys(info), (a, b))]
            heads = ip.loop_heads(info)
            if not heads:
                outs = ip.enter(st, info, args)
                for s, r in rets(c, "gcd", where, outs, span):
                    n += 1
                    c.need(gcd_ret_ok(s, ip, a, b, r), "gcd/" + where, where, lambda: "the common divisor of a and b is said to be %s" % ip.show(r), s, span,
                           sample="gcd(a, b) = %s when %s" % (ip.show(r), ip.show_facts(s)))
                    r = plain(s, r)
                    if termination and r[0] == "sym" and r[1] == "gcd":
                        c.need(decreases(s, ip, a, b, *r[2]), "gcd/%s/ends" % where, where, lambda: "gcd(a, b) calls itself on %s, which is no smaller" % ip.show(r), s, span)
                for s, o in outs:
                    if o[0] == "panic":
                        c.fail("gcd/%s/panic" % where, where, "the common divisor panics: %s" % (o[2],), s, span)
                return
            if len(heads) > 1:
                raise Unsupported("several loops")
            head = next(iter(heads))
            n += loop_gcd(c, w, info, head, st, args, a, b, T, termination)
        c.guard("gcd/" + where, where, one)
    ip.cuts = cuts
    c.floor("paths of the common divisor", n, 2)


def decreases(st, ip, a, b, x, y):
    """(x, y) is smaller than (a, b): by the second, once the first is not the smaller one"""
    a, b, x, y = (plain(st, t) for t in (a, b, x, y))
    T = ip.ty_of(a)
    # (b, a mod b) with b > 0
    for p, q in ((a, b), (b, a)):
        if ip.itv(st, q)[0] > 0 or 0 in st.ne.get(q, ()):
            m = plain(st, sym("rem", (p, q), T))
            if y == m and x == q and (p, q) == (a, b):
                return True
            if {x, y} == {m, q} and ip.as_bool(st, sym("lt", (p, q), "bool")) is False:
                return True
            if (x, y) == (m, q) and (p, q) == (a, b):
                # the first argument is now the smaller one; only once in a row
                return False
            # subtracting instead of dividing gets there too, but in up to 2^64 steps: the second argument has to shrink
    if (x, y) == (b, a) and ip.as_bool(st, sym("lt", (a, b), "bool")):
        return True
    return False


def loop_gcd(c, w, info, head, st, args, a, b, T, termination):
    """Euclid's algorithm as a loop: a pair of variables with the same common divisors at the loop's head"""
    ip = w.ip
    from .interp import Frame, _cell
    where, span = info["path"], c.span(info)
    body = ip.body(info)
    n = 0
    base = next(_cell)
    st = st.copy()
    for i, x in enumerate(args):
        st.cells[("l", base, i + 1)] = x
    fr = Frame(ip, info, body, base)

    def drive(st, bb, armed):
        ip.stop = (fr, head, armed)
        out, work = [], [(st, bb, 0, {})]
        ip.stack.append(info["id"])
        try:
            while work:
                s, x, i, v = work.pop()
                for r in fr.exec(s, x, i, v):
                    if r[0] == "out":
                        out.append((r[1], r[2]))
                    else:
                        work.append(r[1:])
                # every path stops at its first visit of the head
                ip.stop = (fr, head, True)
        finally:
            ip.stack.pop()
            ip.stop = None
        return out

    ip.stop = None
    first = drive(st, 0, True)
    heads = [(s, o) for s, o in first if o[0] == "stop"]
    for s, o in first:
        if o[0] == "ret":
            n += 1
            c.need(gcd_ret_ok(s, ip, a, b, o[1]), "gcd/" + where, where, lambda: "the common divisor of a and b is said to be %s" % ip.show(o[1]), s, span)
        elif o[0] != "stop":
            c.fail("gcd/%s/panic" % where, where, "the common divisor ends in %s" % (o,), s, span)
    if not heads:
        raise Unsupported("the loop of %s is not reached" % where)

    def locals_of(s):
        return {i: s.res(s.cells[("l", base, i)]) for i, t in enumerate(fr.ltys) if t == T and ("l", base, i) in s.cells
                and s.res(s.cells[("l", base, i)])[0] in ("sym", "i")}
    cands = None
    for s, _ in heads:
        ls = locals_of(s)
        ps = {(i, j) for i in ls for j in ls if i < j and euclid(s, ip, a, b, ls[i], ls[j])}
        cands = ps if cands is None else cands & ps
    # locals written in the loop are arbitrary at its head, but for the common divisors of the pair
    best = None
    for i, j in sorted(cands or ()):
        s0 = heads[0][0].copy()
        s0.bind, s0.rng, s0.ne, s0.facts = {}, {}, {}, ()
        for k in list(locals_of(heads[0][0])):
            s0.cells[("l", base, k)] = sym("in", ("l%d" % k,), T)
        for k, t in enumerate(fr.ltys):
            if t != T and ("l", base, k) in s0.cells and k > body["arg_count"]:
                s0.cells.pop(("l", base, k))
        p, q = s0.cells[("l", base, i)], s0.cells[("l", base, j)]
        outs = drive(s0, head, False)
        bad = []
        for s, o in outs:
            if o[0] == "stop":
                x, y = s.res(s.cells[("l", base, i)]), s.res(s.cells[("l", base, j)])
                if not euclid(s, ip, p, q, x, y):
                    bad.append((s, "a round turns (%s, %s) into (%s, %s)" % (ip.show(p), ip.show(q), ip.show(x), ip.show(y))))
                elif termination and not (decreases(s, ip, p, q, x, y) or decreases(s, ip, q, p, y, x)):
                    bad.append((s, "a round does not make the pair smaller: (%s, %s)" % (ip.show(x), ip.show(y))))
            elif o[0] == "ret":
                if not gcd_ret_ok(s, ip, p, q, o[1]):
                    bad.append((s, "the result is %s for (%s, %s)" % (ip.show(s.res(o[1])), ip.show(p), ip.show(q))))
            else:
                bad.append((s, "ends in %s" % (o,)))
        if best is None or len(bad) < len(best[0]):
            best = (bad, outs)
        if not bad:
            break
    if best is None:
        c.fail("gcd/" + where, where, "no two variables have the common divisors of the arguments at the loop's head", heads[0][0], span)
        return n
    for s, m in best[0]:
        c.fail("gcd/" + where, where, m, s, span)
    for _ in range(len(best[1]) - len(best[0])):
        n += 1
        c.ok(where, "loop with an invariant pair")
    return n
