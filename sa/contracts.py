"""Contracts of the recursive operations: a call is described by a term naming it, and the
function itself is analysed once, against the contract its callers rely on.
agg(e)            an expression with the value of e (C02); a leaf is returned as it is
deriv(e, name)    the derivative of e (C04)
subst(e, name, v) e with v for the variable (C05)
limit(e, n, t, k) any result of taking a limit (C19-C21)
text(e, ...)      the text of e in a context (C08)"""
from .interp import *
from .interp import models_cmp
from .core import World, Missing, strip_ref, OPS, ARITY

AGG = ("compute::num_aggregate::NumAggregate", "num_aggregate")
DER = ("compute::derivative::Derivative", "derivative")
SUB = ("compute::substitute::Substitute", "substitute")
LIM = ("compute::limit::LimitTry", "limit")
TAY = ("compute::taylor_expansion::partial_expansion::TaylorExpansion", "taylor_expansion")


def value(w, st, v):
    """the thing behind references and boxes"""
    ip = w.ip
    v = st.res(v)
    while v[0] in ("ptr", "box") or v[0] == "sym" and ip.kind(v[3]) == "ref":
        v = ip.load(st, v)
    return v


def name_of(w, st, v):
    """name term of a Variable / text / leaf expression argument"""
    ip = w.ip
    v = value(w, st, v)
    T = ip.ty_of(v)
    if T == w.Var:
        return value(w, st, ip.get_field(st, v, None, w.v_name))
    return v


def deep(w, st, v):
    """v with everything known about it written out; pointers followed"""
    ip = w.ip
    v = st.res(v)
    if v[0] in ("ptr", "box"):
        return deep(w, st, ip.load(st, v))
    if v[0] == "adt":
        return collapse(w, st, ("adt", v[1], v[2], tuple(deep(w, st, x) for x in v[3])))
    if v[0] in ("arr", "tup", "iter"):
        return (v[0], tuple(deep(w, st, x) for x in v[1]))
    return v


def collapse(w, st, v):
    """a struct taken apart and put together again is the struct"""
    ip = w.ip
    T = v[1]
    if len(ip.variants(T)) != 1 or not v[3]:
        return v
    for i, x in enumerate(v[3]):
        if x[0] == "sym" and x[1] == "fld" and x[2][2] == i and ip.ty_of(x[2][0]) == T:
            b = x[2][0]
            if all(y == ip.norm_fld(b, 0, j, T) or y == deep(w, st, ip.norm_fld(b, 0, j, T)) for j, y in enumerate(v[3])):
                return st.res(b)
            return v
    return v


def base_args(w, info):
    return [strip_ref(w.ip, T) for T in w.ip.arg_tys(info)]


def unwrap_result(ip, T):
    """(payload, is Result)"""
    if ip.adt(T) == "core::result::Result":
        return ip.targs(T)[0], True
    return T, False


def seq_of(ip, T, E):
    return not isinstance(T, str) and ip.is_seq(T) and ip.seq_elem(T) == E


def roots(w, kind):
    """the functions that carry a contract: the operation itself, plus helpers that recurse on their own"""
    E, V = w.E, w.Var
    RE, RV = w.ref_ty(E), w.ref_ty(V)
    main = {"agg": lambda: w.method(*AGG, E),
            "deriv": lambda: w.method(*DER, E, RV),
            "subst": lambda: w.method(*SUB, E, RV, RE),
            "limit": lambda: w.method(*LIM, E, RV, E),
            }[kind]()
    return [main] + [i for i, k in w.adopted.values() if k == kind]


def kind_of(w, info):
    """contract of a local function that recurses on its own, by its signature"""
    ip = w.ip
    if info.get("trait") == "core::clone::Clone":
        return None
    args = base_args(w, info)
    ret, isres = unwrap_result(ip, ip.ret_ty(info))
    E, V = w.E, w.Var
    if args == [E] and ret == E:
        return "agg"
    if sorted(map(str, args)) == sorted(map(str, [E, V])) and ret == E:
        return "deriv"
    if sorted(map(str, args)) == sorted(map(str, [E, V, E])) and ret == E:
        return "subst"
    if sorted(map(str, args)) == sorted(map(str, [E, V, E, "u64"])) and ret == w.Lim:
        return "limit"
    if len(args) == 2 and args[0] == args[1] == ip.ret_ty(info) and args[0] in ("u64", "u128", "u32", "usize", "i64", "i128"):
        return "gcd"
    if text_args(w, info) is not None:
        return "text"
    return None


def is_fmt(ip, T):
    return not isinstance(T, str) and ip.adt(T) == "core::fmt::Formatter"


def text_args(w, info):
    """(which argument holds the expression, which field of it or None, which is the formatter or None) of a
    function that gives the text of an expression, or None"""
    ip = w.ip
    args = base_args(w, info)
    ret = ip.ret_ty(info)
    done = ip.adt(ret) == "core::result::Result" or ip.kind(ret) == "tuple" and not ip.tinfo(ret)["elems"]
    fm = [i for i, T in enumerate(args) if is_fmt(ip, T)]
    if not fm and done:
        # appended to a text
        fm = [i for i, T in enumerate(args) if not isinstance(T, str) and ip.adt(T) == "alloc::string::String"]
    if not (ip.is_text(ret) and not fm or len(fm) == 1 and done):
        return None
    es = []
    for i, T in enumerate(args):
        if T == w.E:
            es.append((i, None))
        elif not isinstance(T, str) and ip.kind(T) == "adt" and ip.tinfo(T).get("local") and len(ip.variants(T)) == 1 \
                and T not in (w.Node, w.Opr, w.OpT, w.Opd, w.Var, w.Num, w.Val, w.Rat, w.Tag, w.Lim, w.Tay):
            for j, f in enumerate(ip.variants(T)[0]["fields"]):
                if strip_ref(ip, ip.canon(f[1])) == w.E:
                    es.append((i, j))
    if len(es) != 1:
        return None
    return es[0] + (fm[0] if fm else None,)


def text_call(w, st, info, args):
    """(expression, context) of a call giving the text of an expression"""
    i, j, fm = text_args(w, info)
    ctx = [info["id"]]
    e = None
    for k, a in enumerate(args):
        if k == fm:
            continue
        v = deep(w, st, a)
        if k == i and j is None:
            e = v
        elif k == i:
            e = deep(w, st, v[3][j])
            ctx.append(("adt", v[1], v[2], tuple(("hole",) if q == j else x for q, x in enumerate(v[3]))))
        else:
            ctx.append(v)
    return e, tuple(ctx)


def contract_of(w, info):
    """contract under which calls of this function are analysed, or None"""
    if not info["local"]:
        return None
    a = w.adopted.get(info["id"])
    if a is not None:
        return a[1]
    tr, m = info.get("trait"), info.get("method")
    if tr is None:
        return None
    for k, (t, me) in (("agg", AGG), ("deriv", DER), ("subst", SUB), ("limit", LIM)):
        if tr == t and m == me:
            args = base_args(w, info)
            if args[:1] != [w.E]:
                return None
            if k == "agg" or args[1] == w.Var:
                return k
    return None


def split_args(w, st, info, args):
    """arguments of a contract call by role: expressions in order, variable name, integers"""
    ip = w.ip
    es, name, ints = [], None, []
    for T, a in zip(base_args(w, info), args):
        if T == w.E:
            es.append(value(w, st, a))
        elif T == w.Var:
            name = name_of(w, st, a)
        elif T in PRIMS:
            ints.append(st.res(a))
        else:
            raise Unsupported("argument of type %s of %s" % (ip.tname(T), info["path"]))
    return es, name, ints


def is_leaf(w, st, e):
    p = w.parts(st, e)
    return p is not None and p[0] in ("num", "var")


def apply(w, kind, ip, st, info, args):
    ret = ip.ret_ty(info)
    if kind == "text":
        e, ctx = text_call(w, st, info, args)
        st.trace += (("text", e, ctx),)
        piece = ("d", sym("text", (e, ctx), "str"), "")
        fm = text_args(w, info)[2]
        if fm is None:
            return [(st, ("ret", S(piece)))]
        from . import models
        outs = models.emit(ip, st, info, args[fm], (piece,))
        return outs if ip.adt(ret) == "core::result::Result" else [(s2, ("ret", UNIT)) for s2, _ in outs]
    pay, isres = unwrap_result(ip, ret)
    es, name, ints = split_args(w, st, info, args)
    es = [deep(w, st, e) for e in es]
    ev = None
    if kind == "agg":
        v = es[0]
        r = v if is_leaf(w, st, v) else sym("agg", (v,), w.E)
    elif kind == "deriv":
        r = sym("deriv", (es[0], name), w.E)
    elif kind == "subst":
        r = sym("subst", (es[0], name, es[1]), w.E)
    elif kind == "limit":
        k = ints[0] if ints else I(0, "u64")
        st.trace += (("limit", es[0], name, es[1], k, tuple(st.facts), info["id"]),)
        return [(st, ("ret", sym("limit", (es[0], name, es[1], k), ret)))]
    else:
        raise Unsupported("contract %s" % kind)
    st.trace += ((kind,) + tuple(es) + (name, info["id"]),)
    if isres:
        r = ip.mk(ret, "Ok", (r,))
    return [(st, ("ret", r))]


def install(w, only=None):
    ip = w.ip

    def handler_for(kind):
        return lambda ip_, st, info, args: apply(w, kind, ip_, st, info, args)

    hs = {}

    def pred(info):
        k = contract_of(w, info)
        return k is not None and k in ("agg", "deriv", "subst", "limit", "text") and (only is None or k in only)

    def handler(ip_, st, info, args):
        return apply(w, contract_of(w, info), ip_, st, info, args)
    ip.cuts.append((pred, handler))


def adopt(w, info):
    """give a recursing helper the contract its signature stands for; False if there is none"""
    if info["id"] in w.adopted:
        return False
    k = kind_of(w, info)
    if k is None:
        return False
    w.adopted[info["id"]] = (info, k)
    return True


def with_adoption(w, f):
    """run f; when a helper recurses on its own, give it a contract and start again"""
    for _ in range(20):
        try:
            return f()
        except Recursion as r:
            if not adopt(w, r.info):
                w.ip.unfold.add(r.info["id"])
    raise Unsupported("too many recursive helpers")


# ------------------------------------------------------------------ numbers
ARITH = {"Add": ("core::ops::arith::Add", "add", "add"), "Sub": ("core::ops::arith::Sub", "sub", "sub"),
         "Mul": ("core::ops::arith::Mul", "mul", "mul"), "Div": ("core::ops::arith::Div", "div", "div"),
         "Neg": ("core::ops::arith::Neg", "neg", "neg")}
BY_TRAIT = {v[0]: v[2] for v in ARITH.values()}


def install_num_ops(w, T, prefix, may_panic=False):
    """arithmetic of number type T by contract: a term of type T with the exact value"""
    ip = w.ip

    def pred(info):
        tr = info.get("trait")
        if tr not in BY_TRAIT or "self_ty" not in info or not info["local"]:
            return False
        return strip_ref(ip, ip.canon(info["self_ty"])) == T and info.get("method") == BY_TRAIT[tr]

    def handler(ip_, st, info, args):
        for X in base_args(w, info):
            if X != T:
                return None
        if strip_ref(ip, ip.ret_ty(info)) != T:
            return None
        vs = [deep(w, st, a) for a in args]
        return [(st, ("ret", sym(prefix + BY_TRAIT[info["trait"]], vs, T)))]
    ip.cuts.append((pred, handler))


def install_fn(w, path, op, T, rng=None):
    """a function by contract: the term op(args)"""
    ip = w.ip

    def pred(info):
        return info["local"] and info["path"] == path

    def handler(ip_, st, info, args):
        t = sym(op, [deep(w, st, a) for a in args], T)
        if rng and t not in st.rng:
            st.rng[t] = rng
        return [(st, ("ret", t))]
    ip.cuts.append((pred, handler))


def install_numbers(w):
    """numbers as the expression operations see them"""
    install_num_ops(w, w.Num, "n")
    install_fn(w, "smart_num::SmartNum::sign", "nsign", "i64", (-1, 1))
    install_fn(w, "smart_num::SmartNum::to_f64", "nf64", "f64")


def is_gcd(w, info):
    """a function of two unsigned numbers that iterates: taken for the common divisor, which C28 checks"""
    ip = w.ip
    if not info["local"] or info.get("trait") or not info.get("has_body"):
        return False
    r = w.gcds.get(info["id"])
    if r is None:
        try:
            T = ip.ret_ty(info)
            ts = base_args(w, info)
            r = T in ("u32", "u64", "u128", "usize") and ts == [T, T] and \
                (bool(ip.loop_heads(info)) or info["id"] in w.adopted or calls_itself(w, info))
        except Unsupported:
            r = False
        w.gcds[info["id"]] = r
    return r


def calls_itself(w, info, of=None, seen=()):
    """does the function call itself, directly or through functions of the crate; those on the way are part of it"""
    ip = w.ip
    of = of or info
    for b in ip.body(info)["blocks"]:
        t = b["terminator"]["kind"]
        if isinstance(t, dict) and "Call" in t and "Constant" in t["Call"]["func"]:
            try:
                i = ip.resolve_fn(ip.canon(t["Call"]["func"]["Constant"]["const_"]["ty"]))
            except Unsupported:
                continue
            if i["id"] == of["id"]:
                for q in seen:
                    w.gcds[q] = False
                return True
            if i["local"] and i["id"] not in seen and i.get("has_body") and len(seen) < 6 and calls_itself(w, i, of, seen + (i["id"],)):
                return True
    return False


def install_gcd(w):
    ip = w.ip

    def handler(ip_, st, info, args):
        T = ip.ret_ty(info)
        a, b = [value(w, st, x) for x in args]
        w.gcd_used[info["id"]] = info
        for x, y in ((a, b), (b, a)):
            if ip.itv(st, x) == (0, 0):
                return [(st, ("ret", y))]
            if ip.itv(st, x) == (1, 1):
                return [(st, ("ret", I(1, T)))]
        t = sym("gcd", (a, b), T)
        # 0 only if both are
        (l0, h0), (l1, h1) = ip.itv(st, a), ip.itv(st, b)
        if t not in st.bind and t not in st.rng:
            if l0 > 0 or l1 > 0:
                st.rng[t] = (1, max(h0, h1))
            else:
                st.rng[t] = (0, max(h0, h1))
        return [(st, ("ret", t))]
    ip.cuts.append((lambda info: is_gcd(w, info), handler))
