"""C31: a copy equals the original, and comparing operations or asking for the kind of a number says what they are."""
import itertools
from .common import *

CLONE = "core::clone::Clone"
EQ = "core::cmp::PartialEq"


def same_value(w, st, a, b):
    """the same value, structs compared field by field"""
    ip = w.ip
    a, b = C.deep(w, st, a), C.deep(w, st, b)
    if a == b:
        return True
    T = ip.ty_of(a)
    if isinstance(T, str) or T != ip.ty_of(b):
        return False
    if a[0] == "adt" and b[0] == "adt":
        return a[2] == b[2] and len(a[3]) == len(b[3]) and all(same_value(w, st, x, y) for x, y in zip(a[3], b[3]))
    if a[0] == "arr" and b[0] == "arr":
        return len(a[1]) == len(b[1]) and all(same_value(w, st, x, y) for x, y in zip(a[1], b[1]))
    if ip.kind(T) == "adt" and len(ip.variants(T)) == 1:
        fs = range(len(ip.variants(T)[0]["fields"]))
        return bool(fs) and all(same_value(w, st, ip.get_field(st, a, None, i), ip.get_field(st, b, None, i)) for i in fs)
    return False


def local_impls(w, trait):
    for im in w.ip.crate["impls"]:
        if im["trait"] == trait and "<" not in im["self"]:
            try:
                yield im, w.ip.ty_by_name(im["self"])
            except (Unsupported, KeyError):
                pass


def originals(w, T):
    """values of a type, one for each form"""
    ip = w.ip
    if T == w.E:
        return [(n, (lambda st, mk=mk: mk(st)[0])) for n, mk in shapes(w)]
    out = []
    for k, v in enumerate(ip.variants(T)):
        def mk(st, k=k, v=v):
            return ("adt", T, k, tuple(w.expr_in("f%d" % i) if ip.canon(f[1]) == w.E else sym("in", ("f%d" % i,), ip.canon(f[1]))
                                       for i, f in enumerate(v["fields"])))
        out.append((v["name"], mk))
    if T == w.Tay:
        # with some coefficients
        def tay(st):
            fs = []
            for i, f in enumerate(ip.variants(T)[0]["fields"]):
                F = ip.canon(f[1])
                fs.append(("arr", tuple(w.expr_in("k%d" % j) for j in range(3))) if ip.is_seq(F)
                          else w.expr_in("f%d" % i) if F == w.E else sym("in", ("f%d" % i,), F))
            return ("adt", T, 0, tuple(fs))
        out = [("expansion", tay)]
    return out


def copies(w, T, info, mk):
    """(state, outcome, original) for every path of copying what mk makes; copies of the expressions in it are
    copies, by induction"""
    ip = w.ip

    def pred(i):
        return i.get("trait") == CLONE and i.get("method") == "clone" and bool(ip.stack) and "self_ty" in i \
            and ip.canon(i["self_ty"]) == w.E
    ip.cuts.insert(0, (pred, lambda ip_, st, i, args: [(st, ("ret", C.value(w, st, args[0])))]))
    try:
        st = State()
        v = mk(st)
        return [(s, o, v) for s, o in ip.enter(st, info, [ip.ref(st, v)])]
    finally:
        del ip.cuts[0]


def faithful(w, T):
    """does copying a T by hand-written code give the same T"""
    try:
        info = w.method(CLONE, "clone", T)
        return all(o[0] == "ret" and same_value(w, s, o[1], v) for _, mk in originals(w, T) for s, o, v in copies(w, T, info, mk))
    except (Unsupported, Missing, RecursionError, Recursion):
        return False


def settle(w):
    """copying by hand-written code that gives the same is taken as such by all checks"""
    ok = {}
    for im, T in local_impls(w, CLONE):
        if not im["derived"] and faithful(w, T):
            ok[T] = True
            w.ip.clone_ok[T] = True
    if ok:
        w.ip.clone_ok = ok


def c31(c):
    setup(c, numbers=False)
    w, ip = c.w, c.w.ip

    n = 0
    for im, T in local_impls(w, CLONE):
        info = w.method(CLONE, "clone", T)
        where, span = info["path"], c.span(info)
        if im["derived"]:
            c.ok(where, sample="copying %s is derived" % im["self"])
            n += 1
            continue
        for name, mk in originals(w, T):
            key = "copy/%s/%s" % (im["self"], name)

            def one():
                nonlocal n
                for s, o, v in copies(w, T, info, mk):
                    if o[0] != "ret":
                        c.fail(key, where, "copying %s %s" % (name, o[0]), s, span)
                        continue
                    n += 1
                    c.need(same_value(w, s, o[1], v), key, where, lambda: "the copy of %s is %s" % (show(w, s, v), show(w, s, o[1])), s, span,
                           sample="the copy of %s is the same" % show(w, s, v))
            c.guard(key, where, one)
    c.floor("copies", n, 8)

    # comparing operations and flags
    n = 0
    table = w.optable()

    def operator(st, k):
        e = w.mk_op(st, k, [w.expr_in("c%d" % i) for i in range(ARITY[k])])
        return C.value(w, st, ip.get_field(st, e, None, w.e_root))[3][0]
    values = [(w.OpT, "operation", [v["name"] for v in ip.variants(w.OpT)], lambda st, k: ip.mk(w.OpT, k)),
              (w.Opr, "operator", [k for k in OPS if k in table], operator),
              (w.Tag, "constant", [v["name"] for v in ip.variants(w.Tag)], lambda st, k: ip.mk(w.Tag, k))]
    for T, what, ks, mk in values:
        if not any(U == T for _, U in local_impls(w, EQ)):
            continue
        for m, same in (("eq", 1), ("ne", 0)):
            info = w.has(EQ, m, T, T)
            if info is None or not info.get("has_body"):
                continue
            where, span = info["path"], c.span(info) if info["local"] else None
            for a, b in itertools.product(ks, ks):
                key = "compare/%s/%s" % (what, m)

                def one():
                    nonlocal n
                    st = State()
                    for s, o in ip.enter(st, info, [ip.ref(st, mk(st, a)), ip.ref(st, mk(st, b))]):
                        r = s.res(o[1]) if o[0] == "ret" else o
                        n += 1
                        c.need(r[0] == "i" and r[1] == (same if a == b else 1 - same), key, where,
                               lambda: "comparing (%s) the %ss %s and %s gives %s" % (m, what, a, b, ip.show(r)), s, span,
                               sample="%s of the %ss %s and %s: %s" % (m, what, a, b, ip.show(r)))
                c.guard(key, where, one)
    c.floor("comparisons", n, 100)
    order(c)

    # the kind of a number
    n = 0
    for m, k in (("is_int", "Integer"), ("is_rational", "Rational"), ("is_real", "Real")):
        info = w.by_path.get("smart_num::val_holder::SmartNumVal::" + m, {}).get("inst")
        if info is None or not info.get("has_body"):
            continue
        byref = ip.kind(ip.arg_tys(info)[0]) == "ref"
        where, span = info["path"], c.span(info)
        for i, v in enumerate(ip.variants(w.Val)):
            def one():
                nonlocal n
                st = State()
                x = ("adt", w.Val, i, tuple(sym("in", ("v%d" % j,), ip.canon(f[1])) for j, f in enumerate(v["fields"])))
                for s, o in ip.enter(st, info, [ip.ref(st, x) if byref else x]):
                    r = s.res(o[1]) if o[0] == "ret" else o
                    n += 1
                    c.need(r[0] == "i" and r[1] == int(v["name"] == k), "kind/" + m, where,
                           lambda: "%s of a number of the kind %s is %s" % (m, v["name"], ip.show(r)), s, span,
                           sample="%s of a number of the kind %s: %s" % (m, v["name"], ip.show(r)))
            c.guard("kind/" + m, where, one)
    c.counts["questions for the kind of a number"] = n


def order(c):
    """the order of operations, if they have one, is a total order that agrees with comparing them"""
    w, ip = c.w, c.w.ip
    ks = [v["name"] for v in ip.variants(w.OpT)]
    info = next((w.has("core::cmp::Ord", "cmp", w.OpT) for _, U in local_impls(w, "core::cmp::Ord") if U == w.OpT), None)
    part = next((w.has("core::cmp::PartialOrd", "partial_cmp", w.OpT, w.OpT) for _, U in local_impls(w, "core::cmp::PartialOrd") if U == w.OpT), None)
    for f, what in ((info, "cmp"), (part, "partial_cmp")):
        if f is None:
            continue
        where, span = f["path"], c.span(f)
        t = {}

        def fill():
            for a, b in itertools.product(ks, ks):
                st = State()
                got = set()
                for s, o in ip.enter(st, f, [ip.ref(st, ip.mk(w.OpT, a)), ip.ref(st, ip.mk(w.OpT, b))]):
                    r = s.res(o[1]) if o[0] == "ret" else None
                    if r is not None and r[0] == "adt" and ip.adt(r[1]) == "core::option::Option":
                        r = s.res(r[3][0]) if r[3] else None
                    got.add(ip.variants(r[1])[r[2]]["name"] if r is not None and r[0] == "adt" else None)
                t[a, b] = got.pop() if len(got) == 1 else None
        c.guard("order/" + what, where, fill)
        if len(t) < len(ks) ** 2:
            continue
        rev = {"Less": "Greater", "Greater": "Less", "Equal": "Equal", None: 0}
        for a, b in itertools.product(ks, ks):
            ok = (t[a, b] == "Equal") == (a == b) and t[b, a] == rev[t[a, b]] and \
                all(not (t[a, b] == t[b, d] == "Less") or t[a, d] == "Less" for d in ks)
            c.need(ok, "order/" + what, where, "%s of the operations %s and %s is %s, the other way round %s" % (what, a, b, t[a, b], t[b, a]), None, span,
                   sample="%s of the operations %s and %s is %s" % (what, a, b, t[a, b]))
